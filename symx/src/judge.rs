//! For each property: the assertion over a finished path, as a formula over the input's symbols.
use crate::circ::Circ;
use crate::engine::{Closure, Sym, Var};
use crate::harness::*;
use crate::logic::{Lg, B};
use crate::skel::Skel;

pub struct J<'a> {
    pub lg: &'a Lg,
    pub c: &'a Circ<'a>,
    pub sk: &'a Skel,
    pub cl: Closure,
    pub values: &'a [u32],
    /// case splits the judge needed: they extend the path condition exactly like a branch of the code
    pub extra: Vec<(Var, Var, bool)>,
    /// derivations must be the lookahead's choice: every node's production fits the token the node starts at
    pub fit: bool,
}

pub enum Outcome {
    Done(Obs<Sym>),
    Panic(String),
    Endless,
}

fn lex_of(k: usize) -> Option<u32> {
    if has_lex(k, 0) {
        Some(k as u32)
    } else {
        None
    }
}

/// Circuits that must exist before exploration starts.
pub fn prepare(prop: &str, c: &mut Circ) {
    let sk = c.sk;
    let mut slots: Vec<Var> = sk.prods.iter().flat_map(|p| p.1.clone()).collect();
    if matches!(prop, "C03" | "C04" | "C05" | "C18") {
        slots.extend(sk.prods.iter().map(|p| p.0));
        slots.extend(&sk.probes);
        slots.extend([sk.eps, sk.init]);
    }
    slots.sort();
    slots.dedup();
    let mut toks = sk.tokens.clone();
    toks.sort();
    toks.dedup();
    slots.extend(sk.gfirst.iter().chain(&sk.gfollow).flat_map(|p| [p.0, p.1]));
    slots.sort();
    slots.dedup();
    match prop {
        "C18" => {
            for t in slots.iter().chain(&toks) {
                for m in 0..c.n {
                    c.predict(m, *t);
                }
            }
            if !sk.tokens.is_empty() {
                c.build_search();
                c.search_accepts();
            }
        }
        "C07" | "C11" if sk.flags.ground => {}
        "C08" if sk.flags.ground => {
            c.build_follow();
            for t in &toks {
                for m in 0..c.n {
                    c.predict(m, *t);
                }
            }
        }
        "C03" => {
            c.build_lr();
            for t in &slots {
                for m in 0..c.n {
                    c.first(m, *t);
                }
            }
        }
        "C04" => {
            c.build_follow();
            for t in &slots {
                for m in 0..c.n {
                    c.follow(m, *t);
                }
            }
        }
        "C05" => {
            c.build_follow();
            for t in &slots {
                for m in 0..c.n {
                    c.predict(m, *t);
                }
            }
        }
        "C07" => c.build_derives(),
        "C08" => {
            c.build_follow();
            c.build_search();
            c.search_accepts();
        }
        "C10" | "C13" | "C14" => {
            c.build_follow();
            for t in &toks {
                for m in 0..c.n {
                    c.predict(m, *t);
                }
            }
        }
        "C11" => {
            c.build_derives();
            for e in 1..=sk.tokens.len() {
                c.viable(e);
            }
        }
        _ => {}
    }
}

impl<'a> J<'a> {
    pub fn eq(&self, a: Var, b: Var) -> B {
        match self.cl.known(a, b) {
            Some(true) => B::T,
            Some(false) => B::F,
            None => self.lg.eq(a, b),
        }
    }
    pub fn decide(&mut self, a: Var, b: Var) -> bool {
        if let Some(k) = self.cl.known(a, b) {
            return k;
        }
        let v = self.values[a as usize] == self.values[b as usize];
        self.cl.assume(a, b, v);
        self.extra.push((a.min(b), a.max(b), v));
        v
    }
    /// settles every comparison of grammar symbols and tokens on the path
    fn decide_all(&mut self) {
        let mut v = self.syms();
        v.retain(|x| !self.sk.probes.contains(x));
        v.extend(&self.sk.tokens);
        v.sort();
        v.dedup();
        for i in 0..v.len() {
            for k in 0..i {
                self.decide(v[i], v[k]);
            }
        }
    }
    fn and(&self, v: &[B]) -> B {
        self.lg.and(v)
    }
    fn or(&self, v: &[B]) -> B {
        self.lg.or(v)
    }
    fn not(&self, b: B) -> B {
        self.lg.not(b)
    }
    fn syms(&self) -> Vec<Var> {
        let mut v: Vec<Var> = vec![self.sk.eps, self.sk.init];
        for p in &self.sk.prods {
            v.push(p.0);
            v.extend(&p.1);
        }
        v.extend(&self.sk.probes);
        v.extend(self.sk.gfirst.iter().chain(&self.sk.gfollow).flat_map(|p| [p.0, p.1]));
        v.sort();
        v.dedup();
        v
    }
    fn occurs(&self, x: Var) -> B {
        self.or(&self.sk.prods.iter().flat_map(|p| p.1.iter()).map(|y| self.eq(x, *y)).collect::<Vec<_>>())
    }
    fn is_in(&self, x: Var, l: &[Sym]) -> B {
        self.or(&l.iter().map(|y| self.eq(x, y.0)).collect::<Vec<_>>())
    }
    fn no_dups(&self, l: &[Sym]) -> B {
        let mut v = vec![];
        for i in 0..l.len() {
            for j in 0..i {
                v.push(self.not(self.eq(l[i].0, l[j].0)));
            }
        }
        self.and(&v)
    }
    fn eq_list(&self, a: &[Var], b: &[Var]) -> B {
        if a.len() != b.len() {
            return B::F;
        }
        self.and(&a.iter().zip(b).map(|(x, y)| self.eq(*x, *y)).collect::<Vec<_>>())
    }
    /// `n` observed entries are exactly the productions satisfying `want`, each once, in declaration order
    fn listed(&self, n: usize, want: impl Fn(usize) -> B, is: impl Fn(usize, usize) -> B) -> B {
        let m = self.sk.prods.len();
        let mut next = vec![B::F; n + 1];
        next[n] = B::T;
        for p in (0..m).rev() {
            let w = want(p);
            let mut cur = vec![B::F; n + 1];
            for k in 0..=n {
                let skip = if w == B::T { B::F } else { self.and(&[self.not(w), next[k]]) };
                let take = if k < n && w != B::F && next[k + 1] != B::F {
                    self.and(&[w, next[k + 1], is(p, k)])
                } else {
                    B::F
                };
                cur[k] = self.or(&[skip, take]);
            }
            next = cur;
        }
        next[0]
    }
    fn is_prod(&self, m: usize, p: &(Sym, Vec<Sym>)) -> B {
        let out: Vec<Var> = p.1.iter().map(|x| x.0).collect();
        self.and(&[self.eq(self.sk.prods[m].0, p.0 .0), self.eq_list(&self.sk.prods[m].1, &out)])
    }

    /// The property on this path. `B::T` = settled without a query.
    pub fn judge(&mut self, prop: &str, o: &Outcome) -> B {
        let obs = match o {
            Outcome::Endless => return B::F,
            Outcome::Panic(_) => {
                return match prop {
                    "C01" => self.not(self.c.well_formed()),
                    "C09" if self.sk.tokens.is_empty() => B::T,
                    _ => B::F,
                }
            }
            Outcome::Done(o) => o,
        };
        match (prop, obs) {
            ("C01", _) => self.c.well_formed(),
            ("C02", Obs::Grammar(g)) => self.grammar(g),
            ("C03", Obs::First(s)) => self.first(s),
            ("C04", Obs::Follow(s)) => self.follow(s),
            ("C05", Obs::Table(t)) => self.table(t),
            ("C06", Obs::Parse(p)) => match &p.res {
                Res::Ok(t) => {
                    let e = self.tree(t, 0);
                    self.and(&[e.0, self.eq(t.sym.0, self.sk.init)])
                }
                Res::Err(_) => B::T,
                Res::Fix(_) => B::F,
            },
            ("C07", Obs::Parse(p)) => {
                let ok = matches!(p.res, Res::Ok(_));
                if matches!(p.res, Res::Fix(_)) {
                    return B::F;
                }
                if self.sk.flags.ground {
                    self.decide_all();
                    let d = self.values[self.sk.marker.unwrap() as usize];
                    let mut r = Rec::new(self.sk, self.values);
                    let want = match r.toks.iter().position(|t| *t == d) {
                        Some(k) => {
                            let s = self.values[self.sk.init as usize];
                            r.ends(s, 0).contains(&(k + 1))
                        }
                        None => false,
                    };
                    return if want == ok { B::T } else { B::F };
                }
                let d = self.sk.marker.unwrap();
                let l = self.sk.tokens.len();
                let mut v = vec![];
                let mut none = vec![];
                for k in 0..l {
                    let is = self.eq(self.sk.tokens[k], d);
                    let mut w = none.clone();
                    w.push(is);
                    let s = self.and(&w);
                    if s != B::F {
                        v.push(self.and(&[s, self.c.sym_derives(self.sk.init, 0, k + 1)]));
                    }
                    none.push(self.not(is));
                }
                self.lg.iff_const(self.or(&v), ok)
            }
            ("C08", Obs::Parse(p)) if self.sk.flags.ground => {
                let mut r = Ref::new(self);
                let want = r.search();
                let mut w = r.facts.clone();
                w.push(match (&p.res, &want) {
                    (Res::Ok(_), Res::Ok(_)) => self.res_eq(&p.res, &want),
                    (Res::Err(_), Res::Err(_)) => B::T,
                    _ => B::F,
                });
                self.and(&w)
            }
            ("C08", Obs::Parse(p)) => {
                let acc = self.c.search_accepts();
                match &p.res {
                    Res::Ok(t) => {
                        let b = self.search_tree(t);
                        self.and(&[acc, b])
                    }
                    Res::Err(_) => self.not(acc),
                    Res::Fix(_) => B::F,
                }
            }
            ("C09", _) => {
                if self.sk.tokens.is_empty() {
                    B::F
                } else {
                    B::T
                }
            }
            ("C10", Obs::Parse(p)) => match &p.res {
                Res::Ok(_) => B::T,
                Res::Err(f) => {
                    self.fit = true;
                    let b = self.fail(f, 0, &[]);
                    self.fit = false;
                    self.and(&[b, self.eq(f.sym.0, self.sk.init)])
                }
                Res::Fix(_) => B::F,
            },
            ("C11", Obs::Parse(p)) => match &p.res {
                Res::Ok(_) => B::T,
                Res::Err(f) => self.first_offending(f),
                Res::Fix(_) => B::F,
            },
            ("C12", Obs::Many(v)) => {
                let get = |n: &str| match v.iter().find(|x| x.0 == n) {
                    Some((_, Obs::Parse(p))) => p,
                    _ => panic!("missing observation"),
                };
                let (plain, declined, eager) = (get("plain"), get("declined"), get("eager"));
                let same = self.res_eq(&plain.res, &declined.res);
                match &plain.res {
                    Res::Ok(_) => {
                        if !declined.calls.is_empty() || !eager.calls.is_empty() {
                            return B::F;
                        }
                        self.and(&[same, self.res_eq(&plain.res, &eager.res)])
                    }
                    Res::Err(_) => same,
                    Res::Fix(_) => B::F,
                }
            }
            ("C13", Obs::Parse(p)) => {
                let mut r = Ref::new(self);
                let (_, calls) = r.parse();
                let facts = r.facts.clone();
                let ok = self.calls_eq(&p.calls, &calls);
                let tk = self.calls_tokens(&p.calls);
                let mut w = facts;
                w.push(ok);
                w.push(tk);
                self.and(&w)
            }
            ("C14", Obs::Parse(p)) => self.fix(p),
            ("C15", Obs::Many(v)) => {
                let mut w = vec![];
                for kind in ["first", "follow", "table", "parse"] {
                    let l: Vec<&Obs<Sym>> = v.iter().filter(|x| x.0.ends_with(kind)).map(|x| &x.1).collect();
                    for o in l.iter().skip(1) {
                        w.push(self.obs_eq(l[0], o));
                    }
                }
                self.and(&w)
            }
            ("C16", Obs::Many(v)) => self.token(v),
            ("C17", _) => B::T,
            ("C18", Obs::Many(v)) => {
                let mut w = vec![];
                for (_, o) in v {
                    w.push(match o {
                        Obs::First(s) => self.given(s, true),
                        Obs::Follow(s) => self.given(s, false),
                        Obs::Table(t) => self.table(t),
                        Obs::Parse(p) => {
                            let acc = self.c.search_accepts();
                            match &p.res {
                                Res::Ok(t) => {
                                    let b = self.search_tree(t);
                                    self.and(&[acc, b])
                                }
                                Res::Err(_) => self.not(acc),
                                Res::Fix(_) => B::F,
                            }
                        }
                        _ => B::F,
                    });
                }
                self.and(&w)
            }
            _ => panic!("observation of another kind"),
        }
    }

    fn grammar(&mut self, g: &GrammarObs<Sym>) -> B {
        let mut v = vec![self.no_dups(&g.nts), self.no_dups(&g.ts)];
        v.push(self.eq(g.eps[0].0, self.sk.eps));
        v.push(self.eq(g.init[0].0, self.sk.init));
        let is_t = |s: &Self, y: Var| s.and(&[s.not(s.c.is_nt(y)), s.occurs(y)]);
        for y in self.syms() {
            v.push(self.lg.iff(self.is_in(y, &g.nts), self.c.is_nt(y)));
            v.push(self.lg.iff(self.is_in(y, &g.ts), is_t(self, y)));
        }
        for y in &g.nts {
            v.push(self.c.is_nt(y.0));
        }
        for y in &g.ts {
            v.push(is_t(self, y.0));
        }
        for (x, nt, t, ps) in &g.q {
            v.push(self.lg.iff_const(self.c.is_nt(x.0), *nt));
            v.push(self.lg.iff_const(is_t(self, x.0), *t));
            v.push(match ps {
                None => self.not(self.c.is_nt(x.0)),
                Some(l) => self.and(&[
                    self.c.is_nt(x.0),
                    self.listed(l.len(), |m| self.eq(self.sk.prods[m].0, x.0), |m, k| self.is_prod(m, &l[k])),
                ]),
            });
        }
        self.and(&v)
    }
    fn first(&mut self, s: &SetObs<Sym>) -> B {
        let mut v = vec![];
        let ys = self.syms();
        for (x, set) in &s.q {
            let declared = self.or(&[self.c.is_nt(x.0), self.occurs(x.0)]);
            match set {
                None => v.push(self.not(declared)),
                Some(l) => {
                    v.push(declared);
                    let want = |y: Var| {
                        self.or(&[
                            self.c.sym_first(x.0, y),
                            self.and(&[self.c.is_eps(y), self.c.sym_null(x.0)]),
                        ])
                    };
                    for y in &ys {
                        v.push(self.lg.iff(self.is_in(*y, l), want(*y)));
                    }
                    for y in l {
                        v.push(want(y.0));
                    }
                }
            }
        }
        self.and(&v)
    }
    fn follow(&mut self, s: &SetObs<Sym>) -> B {
        let mut v = vec![];
        let ys = self.syms();
        for (x, set) in &s.q {
            match set {
                None => v.push(self.not(self.c.is_nt(x.0))),
                Some(l) => {
                    v.push(self.c.is_nt(x.0));
                    let want = |y: Var| {
                        self.or(
                            &(0..self.c.n)
                                .map(|m| self.and(&[self.eq(x.0, self.sk.prods[m].0), self.c.follow(m, y)]))
                                .collect::<Vec<_>>(),
                        )
                    };
                    for y in &ys {
                        v.push(self.lg.iff(self.is_in(*y, l), want(*y)));
                    }
                    for y in l {
                        v.push(want(y.0));
                    }
                }
            }
        }
        self.and(&v)
    }
    /// exactly the supplied sets
    fn given(&mut self, s: &SetObs<Sym>, first: bool) -> B {
        let mut v = vec![];
        let ys = self.syms();
        for (x, set) in &s.q {
            let (has, want): (B, Box<dyn Fn(Var) -> B>) = if first {
                (self.c.has_gfirst(x.0), Box::new(|y| self.c.in_gfirst(x.0, y)))
            } else {
                (self.c.has_gfollow(x.0), Box::new(|y| self.c.in_gfollow(x.0, y)))
            };
            match set {
                None => v.push(self.not(has)),
                Some(l) => {
                    v.push(has);
                    v.push(self.no_dups(l));
                    for y in &ys {
                        v.push(self.lg.iff(self.is_in(*y, l), want(*y)));
                    }
                    for y in l {
                        v.push(want(y.0));
                    }
                }
            }
        }
        self.and(&v)
    }
    fn table(&mut self, t: &TableObs<Sym>) -> B {
        let mut v = vec![];
        for (x, y, l) in &t.q {
            v.push(self.listed(
                l.len(),
                |m| {
                    let e = self.eq(self.sk.prods[m].0, x.0);
                    if e == B::F {
                        B::F
                    } else {
                        self.and(&[e, self.c.predict(m, y.0)])
                    }
                },
                |m, k| self.is_prod(m, &l[k]),
            ));
        }
        self.and(&v)
    }

    /// a genuine derivation of the tokens from `pos` on; returns the position after it
    fn tree(&mut self, t: &Tree<Sym>, pos: usize) -> (B, usize) {
        if t.kids.is_empty() {
            if self.decide(t.sym.0, self.sk.eps) {
                return (if t.lex.is_none() { B::T } else { B::F }, pos);
            }
            if pos >= self.sk.tokens.len() || t.lex != lex_of(pos) {
                return (B::F, pos);
            }
            let b = self.and(&[self.not(self.c.is_nt(t.sym.0)), self.eq(t.sym.0, self.sk.tokens[pos])]);
            return (b, pos + 1);
        }
        if t.lex.is_some() {
            return (B::F, pos);
        }
        let kids: Vec<Var> = t.kids.iter().map(|k| k.sym.0).collect();
        let is = self.or(
            &(0..self.c.n)
                .map(|m| {
                    let is = self.and(&[self.eq(t.sym.0, self.sk.prods[m].0), self.eq_list(&self.sk.prods[m].1, &kids)]);
                    if self.fit && is != B::F {
                        self.and(&[is, self.c.cand(t.sym.0, m, pos)])
                    } else {
                        is
                    }
                })
                .collect::<Vec<_>>(),
        );
        let mut v = vec![is];
        let mut p = pos;
        for k in &t.kids {
            let (b, e) = self.tree(k, p);
            if b == B::F {
                return (B::F, p);
            }
            v.push(b);
            p = e;
        }
        (self.and(&v), p)
    }
    fn span(&mut self, t: &Tree<Sym>, pos: usize) -> usize {
        if t.kids.is_empty() {
            return if self.decide(t.sym.0, self.sk.eps) { pos } else { pos + 1 };
        }
        let mut p = pos;
        for k in &t.kids {
            p = self.span(k, p);
        }
        p
    }

    /// the tree is the one the ordered search finds first
    fn search_tree(&mut self, t: &Tree<Sym>) -> B {
        let end = self.span(t, 0);
        if end > self.sk.tokens.len() {
            return B::F;
        }
        let mut v = vec![];
        let mut earlier = vec![];
        for m in 0..self.c.n {
            let cand = self.and(&[self.eq(t.sym.0, self.sk.init), self.c.cand(self.sk.init, m, 0)]);
            if cand == B::F {
                continue;
            }
            let node = self.search_node(t, m, 0);
            let mut w = vec![cand, node, self.c.succeeds(m, 0, end)];
            w.extend(earlier.iter().copied());
            v.push(self.and(&w));
            let any: Vec<B> = (0..=self.sk.tokens.len()).map(|f| self.c.succeeds(m, 0, f)).collect();
            earlier.push(self.not(self.and(&[cand, self.or(&any)])));
        }
        self.or(&v)
    }
    /// `t` is what the search builds for production m from position i (given that it succeeds where `t` ends)
    fn search_node(&mut self, t: &Tree<Sym>, m: usize, i: usize) -> B {
        let l = self.sk.tokens.len();
        if t.lex.is_some() || t.kids.len() != self.c.len(m) {
            return B::F;
        }
        let mut v = vec![];
        let mut p = i;
        for (j, k) in t.kids.iter().enumerate() {
            let e = self.eq(k.sym.0, self.c.out(m, j));
            if e == B::F {
                return B::F;
            }
            v.push(e);
            let end = self.span(k, p);
            if end > l {
                return B::F;
            }
            v.push(self.c.rest_ok(m, j + 1, end));
            if k.kids.is_empty() {
                let (b, _) = self.tree(k, p);
                if b == B::F {
                    return B::F;
                }
                v.push(b);
            } else {
                let mut alts = vec![];
                let mut earlier: Vec<B> = vec![];
                for q in 0..self.c.n {
                    let e = self.eq(k.sym.0, self.c.inp(q));
                    if e == B::F {
                        continue;
                    }
                    let cand = self.c.cand(k.sym.0, q, p);
                    let node = self.search_node(k, q, p);
                    let mut w = vec![cand, node, self.c.succeeds(q, p, end)];
                    w.extend(earlier.iter().copied());
                    alts.push(self.and(&w));
                    let any: Vec<B> = (p..=l)
                        .map(|f| self.and(&[self.c.succeeds(q, p, f), self.c.rest_ok(m, j + 1, f)]))
                        .collect();
                    earlier.push(self.not(self.and(&[cand, self.or(&any)])));
                }
                v.push(self.or(&alts));
            }
            p = end;
        }
        self.and(&v)
    }

    /// a failure report for a symbol that was tried at `pos`
    fn fail(&mut self, f: &FailSym<Sym>, pos: usize, calls: &[Call<Sym>]) -> B {
        let x = f.sym.0;
        let mut entries = vec![];
        for e in &f.prods {
            let mut out: Vec<Var> = vec![];
            let mut v = vec![];
            let mut p = pos;
            for s in &e.parsed {
                match s {
                    Parsed::Ok(t) => {
                        out.push(t.sym.0);
                        let (b, end) = self.tree(t, p);
                        v.push(b);
                        p = end;
                    }
                    Parsed::Fix(s) => {
                        out.push(s.sym.0);
                        if calls.is_empty() {
                            return B::F;
                        }
                        let (b, end) = self.fixed(s, p, calls);
                        v.push(b);
                        p = end;
                    }
                }
            }
            out.push(e.failed.sym.0);
            out.extend(e.pending.iter().map(|x| x.0));
            if v.contains(&B::F) {
                return B::F;
            }
            v.push(self.fail(&e.failed, p, calls));
            entries.push((out, self.and(&v)));
        }
        let list = self.listed(
            entries.len(),
            |m| self.and(&[self.eq(x, self.sk.prods[m].0), self.c.cand(x, m, pos)]),
            |m, k| self.and(&[self.eq_list(&self.sk.prods[m].1, &entries[k].0), entries[k].1]),
        );
        let mismatch = if pos < self.sk.tokens.len() { self.not(self.eq(x, self.sk.tokens[pos])) } else { B::T };
        let term = if entries.is_empty() { self.and(&[self.not(self.c.is_eps(x)), mismatch]) } else { B::F };
        let nt = self.c.is_nt(x);
        self.or(&[self.and(&[nt, list]), self.and(&[self.not(nt), term])])
    }
    fn first_offending(&mut self, f: &FailSym<Sym>) -> B {
        let mut cur = f;
        let mut pos = 0;
        let mut v = vec![];
        loop {
            match cur.prods.len() {
                0 => break,
                1 => {
                    let e = &cur.prods[0];
                    for s in &e.parsed {
                        match s {
                            Parsed::Ok(t) => {
                                let (b, end) = self.leaves(t, pos);
                                v.push(b);
                                pos = end;
                            }
                            Parsed::Fix(_) => return B::F,
                        }
                    }
                    cur = &e.failed;
                }
                _ => return B::F,
            }
            if pos > self.sk.tokens.len() {
                return B::F;
            }
        }
        if self.sk.flags.ground {
            self.decide_all();
            let mut r = Rec::new(self.sk, self.values);
            let s = self.values[self.sk.init as usize];
            if !r.begins(s, pos) || (pos < self.sk.tokens.len() && r.begins(s, pos + 1)) {
                return B::F;
            }
            return self.and(&v);
        }
        v.push(self.c.viable(pos));
        if pos < self.sk.tokens.len() {
            v.push(self.not(self.c.viable(pos + 1)));
        }
        self.and(&v)
    }
    /// the leaves are the tokens from pos on
    fn leaves(&mut self, t: &Tree<Sym>, pos: usize) -> (B, usize) {
        if t.kids.is_empty() {
            if self.decide(t.sym.0, self.sk.eps) {
                return (B::T, pos);
            }
            if pos >= self.sk.tokens.len() || t.lex != lex_of(pos) {
                return (B::F, pos + 1);
            }
            return (self.eq(t.sym.0, self.sk.tokens[pos]), pos + 1);
        }
        let mut v = vec![];
        let mut p = pos;
        for k in &t.kids {
            let (b, e) = self.leaves(k, p);
            v.push(b);
            p = e;
        }
        (self.and(&v), p)
    }

    // ---- equality of observations ----
    fn tree_eq(&self, a: &Tree<Sym>, b: &Tree<Sym>) -> B {
        if a.lex != b.lex || a.kids.len() != b.kids.len() {
            return B::F;
        }
        let mut v = vec![self.eq(a.sym.0, b.sym.0)];
        for (x, y) in a.kids.iter().zip(&b.kids) {
            v.push(self.tree_eq(x, y));
        }
        self.and(&v)
    }
    fn fail_eq(&self, a: &FailSym<Sym>, b: &FailSym<Sym>) -> B {
        self.and(&[self.eq(a.sym.0, b.sym.0), self.fail_prods_eq(&a.prods, &b.prods)])
    }
    fn fail_prods_eq(&self, a: &[FailProd<Sym>], b: &[FailProd<Sym>]) -> B {
        if a.len() != b.len() {
            return B::F;
        }
        let mut v = vec![];
        for (p, q) in a.iter().zip(b) {
            if p.parsed.len() != q.parsed.len() || p.pending.len() != q.pending.len() {
                return B::F;
            }
            for (x, y) in p.parsed.iter().zip(&q.parsed) {
                v.push(match (x, y) {
                    (Parsed::Ok(x), Parsed::Ok(y)) => self.tree_eq(x, y),
                    (Parsed::Fix(x), Parsed::Fix(y)) => self.fix_eq(x, y),
                    _ => B::F,
                });
            }
            for (x, y) in p.pending.iter().zip(&q.pending) {
                v.push(self.eq(x.0, y.0));
            }
            v.push(self.fail_eq(&p.failed, &q.failed));
        }
        self.and(&v)
    }
    fn fix_eq(&self, a: &FixSym<Sym>, b: &FixSym<Sym>) -> B {
        if a.parts.len() != b.parts.len() {
            return B::F;
        }
        let mut v = vec![self.eq(a.sym.0, b.sym.0)];
        for (x, y) in a.parts.iter().zip(&b.parts) {
            v.push(match (x, y) {
                (FixPart::Ok(x), FixPart::Ok(y)) => self.tree_eq(x, y),
                (FixPart::Fixed(x), FixPart::Fixed(y)) => self.fix_eq(x, y),
                (FixPart::Gap(l, s), FixPart::Gap(m, t)) => {
                    if l != m || s.len() != t.len() {
                        B::F
                    } else {
                        self.and(&s.iter().zip(t).map(|(x, y)| self.eq(x.0, y.0)).collect::<Vec<_>>())
                    }
                }
                _ => B::F,
            });
        }
        self.and(&v)
    }
    pub fn res_eq(&self, a: &Res<Sym>, b: &Res<Sym>) -> B {
        match (a, b) {
            (Res::Ok(a), Res::Ok(b)) => self.tree_eq(a, b),
            (Res::Err(a), Res::Err(b)) => self.fail_eq(a, b),
            (Res::Fix(a), Res::Fix(b)) => self.fix_eq(a, b),
            _ => B::F,
        }
    }
    fn call_eq(&self, x: &Call<Sym>, y: &Call<Sym>) -> B {
        if x.single != y.single || x.pos != y.pos || x.answer != y.answer {
            return B::F;
        }
        self.fail_prods_eq(&x.failed, &y.failed)
    }
    fn calls_eq(&self, a: &[Call<Sym>], b: &[Call<Sym>]) -> B {
        if a.len() != b.len() {
            return B::F;
        }
        self.and(&a.iter().zip(b).map(|(x, y)| self.call_eq(x, y)).collect::<Vec<_>>())
    }
    fn calls_tokens(&self, a: &[Call<Sym>]) -> B {
        let mut v = vec![];
        for c in a {
            if c.tokens.len() != self.sk.tokens.len() {
                return B::F;
            }
            for (k, (t, l)) in c.tokens.iter().enumerate() {
                if *l != lex_of(k) {
                    return B::F;
                }
                v.push(self.eq(t.0, self.sk.tokens[k]));
            }
        }
        self.and(&v)
    }
    fn set_eq(&self, a: &SetObs<Sym>, b: &SetObs<Sym>) -> B {
        let mut v = vec![];
        if a.q.len() != b.q.len() {
            return B::F;
        }
        for (x, y) in a.q.iter().zip(&b.q) {
            v.push(self.eq(x.0 .0, y.0 .0));
            match (&x.1, &y.1) {
                (None, None) => {}
                (Some(l), Some(m)) => {
                    for e in l {
                        v.push(self.is_in(e.0, m));
                    }
                    for e in m {
                        v.push(self.is_in(e.0, l));
                    }
                }
                _ => return B::F,
            }
        }
        self.and(&v)
    }
    fn obs_eq(&self, a: &Obs<Sym>, b: &Obs<Sym>) -> B {
        match (a, b) {
            (Obs::First(a), Obs::First(b)) => self.set_eq(a, b),
            (Obs::Follow(a), Obs::Follow(b)) => self.set_eq(a, b),
            (Obs::Table(a), Obs::Table(b)) => {
                let mut v = vec![];
                for (x, y) in a.q.iter().zip(&b.q) {
                    v.push(self.eq(x.0 .0, y.0 .0));
                    v.push(self.eq(x.1 .0, y.1 .0));
                    if x.2.len() != y.2.len() {
                        return B::F;
                    }
                    for (p, q) in x.2.iter().zip(&y.2) {
                        v.push(self.eq(p.0 .0, q.0 .0));
                        let (l, m): (Vec<Var>, Vec<Var>) =
                            (p.1.iter().map(|x| x.0).collect(), q.1.iter().map(|x| x.0).collect());
                        v.push(self.eq_list(&l, &m));
                    }
                }
                self.and(&v)
            }
            (Obs::Parse(a), Obs::Parse(b)) => {
                if !a.calls.is_empty() || !b.calls.is_empty() {
                    return B::F;
                }
                self.res_eq(&a.res, &b.res)
            }
            _ => B::F,
        }
    }

    // ---- fixes ----
    /// a fixed symbol whose text starts at `pos`; returns where parsing resumes
    fn fixed(&mut self, f: &FixSym<Sym>, pos: usize, calls: &[Call<Sym>]) -> (B, usize) {
        let x = f.sym.0;
        if let Some(n) = supplied_by(&f.parts) {
            if n >= calls.len() || calls[n].pos != pos {
                return (B::F, pos);
            }
            let end = match calls[n].answer {
                Some(e) => e,
                None => return (B::F, pos),
            };
            // the call was about this symbol: its failures are those of this symbol's fitting productions
            let outs: Vec<Vec<Var>> = calls[n].failed.iter().map(out_of).collect();
            let list = self.listed(
                outs.len(),
                |m| self.and(&[self.eq(x, self.sk.prods[m].0), self.c.cand(x, m, pos)]),
                |m, k| self.eq_list(&self.sk.prods[m].1, &outs[k]),
            );
            let parts = self.fix_eq(f, &FixSym { sym: f.sym, parts: supplied(n, Sym(self.sk.tokens[0])) });
            let b = self.and(&[list, self.c.is_nt(x), parts]);
            return (b, end);
        }
        let mut v = vec![];
        let mut out: Vec<Var> = vec![];
        let mut p = pos;
        let mut any = false;
        for part in &f.parts {
            match part {
                FixPart::Ok(t) => {
                    out.push(t.sym.0);
                    let (b, e) = self.tree(t, p);
                    v.push(b);
                    p = e;
                }
                FixPart::Fixed(s) => {
                    any = true;
                    out.push(s.sym.0);
                    let (b, e) = self.fixed(s, p, calls);
                    v.push(b);
                    p = e;
                }
                FixPart::Gap(..) => return (B::F, p),
            }
            if v.contains(&B::F) {
                return (B::F, p);
            }
        }
        if !any {
            return (B::F, p);
        }
        v.push(self.or(
            &(0..self.c.n)
                .map(|m| self.and(&[self.c.cand(x, m, pos), self.eq_list(&self.sk.prods[m].1, &out)]))
                .collect::<Vec<_>>(),
        ));
        (self.and(&v), p)
    }
    fn fix(&mut self, o: &ParseObs<Sym>) -> B {
        let answered = o.calls.iter().position(|c| c.answer.is_some());
        let n = match answered {
            None => return if matches!(o.res, Res::Fix(_)) { B::F } else { B::T },
            Some(n) => n,
        };
        let init = self.sk.init;
        let decl = match &o.res {
            Res::Fix(f) => {
                let (b, _) = self.fixed(f, 0, &o.calls);
                self.and(&[b, self.eq(f.sym.0, init)])
            }
            Res::Ok(t) => {
                let (b, _) = self.tree(t, 0);
                self.and(&[b, self.eq(t.sym.0, init)])
            }
            Res::Err(f) => self.fail(f, 0, &o.calls),
        };
        if decl == B::F {
            return B::F;
        }
        // up to the first answer the solver was asked as its contract says; so what follows is determined
        let mut r = Ref::new(self);
        let (res, calls) = r.parse();
        let mut v = r.facts.clone();
        v.push(decl);
        if calls.len() > n {
            let asked = self.calls_eq(&o.calls[..=n], &calls[..=n]);
            v.push(self.lg.implies(asked, self.res_eq(&o.res, &res)));
        }
        self.and(&v)
    }

    // ---- tokens ----
    fn token(&mut self, v: &[(String, Obs<Sym>)]) -> B {
        let mut w = vec![];
        let mut first: Option<&Res<Sym>> = None;
        for (name, o) in v {
            match o {
                Obs::Token(t, clones) => {
                    let e = self.eq(self.sk.tokens[0], self.sk.tokens[1]);
                    for (_, _, eq, ne) in &t.cmp {
                        w.push(self.lg.iff_const(e, *eq));
                        w.push(self.lg.iff_const(e, !*ne));
                    }
                    for (t, l, u, m) in clones {
                        if l != m {
                            return B::F;
                        }
                        w.push(self.eq(t.0, u.0));
                    }
                }
                Obs::Parse(p) => {
                    let variant = if name == "lex 2" { 1 } else { 0 };
                    match &p.res {
                        Res::Ok(t) => {
                            if !self.lex_ok(t, &mut 0, variant) {
                                return B::F;
                            }
                        }
                        Res::Err(f) => {
                            if !self.lex_fail(f, 0, variant) {
                                return B::F;
                            }
                        }
                        Res::Fix(_) => return B::F,
                    }
                    match first {
                        None => first = Some(&p.res),
                        Some(r) => {
                            let (a, b) = (strip(r), strip(&p.res));
                            w.push(self.res_eq(&a, &b));
                        }
                    }
                }
                _ => return B::F,
            }
        }
        self.and(&w)
    }
    fn lex_ok(&mut self, t: &Tree<Sym>, pos: &mut usize, variant: u32) -> bool {
        if t.kids.is_empty() {
            if self.decide(t.sym.0, self.sk.eps) {
                return t.lex.is_none();
            }
            let want = if has_lex(*pos, variant) { Some(*pos as u32) } else { None };
            *pos += 1;
            return t.lex == want;
        }
        t.lex.is_none() && t.kids.iter().all(|k| self.lex_ok(k, pos, variant))
    }
    fn lex_fail(&mut self, f: &FailSym<Sym>, pos: usize, variant: u32) -> bool {
        f.prods.iter().all(|e| {
            let mut p = pos;
            for s in &e.parsed {
                match s {
                    Parsed::Ok(t) => {
                        if !self.lex_ok(t, &mut p, variant) {
                            return false;
                        }
                    }
                    Parsed::Fix(_) => return false,
                }
            }
            self.lex_fail(&e.failed, p, variant)
        })
    }
}

fn strip_tree(t: &Tree<Sym>) -> Tree<Sym> {
    Tree { sym: t.sym, lex: None, kids: t.kids.iter().map(strip_tree).collect() }
}
fn strip_fail(f: &FailSym<Sym>) -> FailSym<Sym> {
    FailSym {
        sym: f.sym,
        prods: f
            .prods
            .iter()
            .map(|p| FailProd {
                failed: strip_fail(&p.failed),
                parsed: p
                    .parsed
                    .iter()
                    .map(|s| match s {
                        Parsed::Ok(t) => Parsed::Ok(strip_tree(t)),
                        Parsed::Fix(f) => Parsed::Fix(f.clone()),
                    })
                    .collect(),
                pending: p.pending.clone(),
            })
            .collect(),
    }
}
fn strip(r: &Res<Sym>) -> Res<Sym> {
    match r {
        Res::Ok(t) => Res::Ok(strip_tree(t)),
        Res::Err(f) => Res::Err(strip_fail(f)),
        Res::Fix(f) => Res::Fix(f.clone()),
    }
}
fn out_of(f: &FailProd<Sym>) -> Vec<Var> {
    let mut out: Vec<Var> = vec![];
    for s in &f.parsed {
        out.push(match s {
            Parsed::Ok(t) => t.sym.0,
            Parsed::Fix(f) => f.sym.0,
        });
    }
    out.push(f.failed.sym.0);
    out.extend(f.pending.iter().map(|x| x.0));
    out
}

// ---- the reference protocol: which solver calls are due, and what the fixes lead to ----
enum R {
    Ok(Tree<Sym>, usize, Vec<usize>),
    Err(FailSym<Sym>),
    Fix(FixSym<Sym>, usize),
}
enum P {
    Ok(Tree<Sym>, usize),
    Err(FailProd<Sym>),
    Fix(FixSym<Sym>, usize),
}
enum S {
    /// node, where it starts, untried productions
    Parsed(Tree<Sym>, usize, Vec<usize>),
    Fixed(FixSym<Sym>),
}
/// Runs symbolically next to the code under test: every comparison it makes is a decision of the path, and every
/// candidate set it uses is a fact that the query re-derives from the prediction circuits.
pub struct Ref<'x, 'a> {
    j: &'x mut J<'a>,
    pub facts: Vec<B>,
    known: std::collections::HashMap<(Var, usize), Vec<usize>>,
    calls: Vec<Call<Sym>>,
    solver: bool,
    tables: Ground,
}
impl<'x, 'a> Ref<'x, 'a> {
    pub fn new(j: &'x mut J<'a>) -> Ref<'x, 'a> {
        let vs = {
            let mut v = j.syms();
            v.retain(|x| !j.sk.probes.contains(x));
            v
        };
        for i in 0..vs.len() {
            for k in 0..i {
                j.decide(vs[i], vs[k]);
            }
        }
        let tables = Ground::new(j.sk, j.values);
        Ref { j, facts: vec![], known: Default::default(), calls: vec![], solver: false, tables }
    }
    fn cands(&mut self, x: Var, i: usize) -> Vec<usize> {
        if i >= self.j.sk.tokens.len() {
            return vec![];
        }
        if let Some(v) = self.known.get(&(x, i)) {
            return v.clone();
        }
        let t = self.j.sk.tokens[i];
        for p in self.j.sk.prods.clone() {
            for y in p.1 {
                self.j.decide(t, y);
            }
        }
        let mut out = vec![];
        for m in 0..self.j.sk.prods.len() {
            if !self.j.decide(x, self.j.sk.prods[m].0) {
                continue;
            }
            let v = self.tables.predict(m, self.j.values[t as usize]);
            self.facts.push(self.j.lg.iff_const(self.j.c.cand(x, m, i), v));
            if v {
                out.push(m);
            }
        }
        self.known.insert((x, i), out.clone());
        out
    }
    /// the ordered search alone, without a solver
    pub fn search(&mut self) -> Res<Sym> {
        let s = self.j.sk.init;
        let c = self.cands(s, 0);
        match self.sym(s, 0, c, true) {
            R::Ok(t, _, _) => Res::Ok(t),
            R::Err(f) => Res::Err(f),
            R::Fix(f, _) => Res::Fix(f),
        }
    }
    pub fn parse(&mut self) -> (Res<Sym>, Vec<Call<Sym>>) {
        let s = self.j.sk.init;
        let c = self.cands(s, 0);
        self.solver = false;
        let mut r = self.sym(s, 0, c.clone(), true);
        if matches!(r, R::Err(_)) {
            self.solver = true;
            r = self.sym(s, 0, c, true);
        }
        let res = match r {
            R::Ok(t, _, _) => Res::Ok(t),
            R::Err(f) => Res::Err(f),
            R::Fix(f, _) => Res::Fix(f),
        };
        (res, std::mem::take(&mut self.calls))
    }
    fn sym(&mut self, x: Var, pos: usize, cands: Vec<usize>, single: bool) -> R {
        let child = single && cands.len() == 1;
        let mut failed = vec![];
        for (k, m) in cands.iter().enumerate() {
            match self.prod(x, *m, pos, child) {
                P::Ok(t, e) => return R::Ok(t, e, cands[k + 1..].to_vec()),
                P::Err(f) => failed.push(f),
                P::Fix(f, e) => return R::Fix(f, e),
            }
        }
        if self.solver && single {
            if let Some((f, e)) = self.consult(x, pos, child, &failed) {
                return R::Fix(f, e);
            }
        }
        R::Err(FailSym { sym: Sym(x), prods: failed })
    }
    fn consult(&mut self, x: Var, pos: usize, single: bool, failed: &[FailProd<Sym>]) -> Option<(FixSym<Sym>, usize)> {
        let n = self.calls.len();
        let sk = self.j.sk;
        let mut answer = None;
        if n < sk.choices.len() {
            for k in 1..sk.consts.len() {
                if self.j.decide(sk.choices[n], sk.consts[k]) {
                    answer = Some(resume_at(k, pos, sk.tokens.len()));
                    break;
                }
            }
        }
        self.calls.push(Call {
            single,
            tokens: vec![],
            pos,
            failed: failed.to_vec(),
            answer,
        });
        answer.map(|e| {
            (
                FixSym {
                    sym: Sym(x),
                    parts: supplied(n, Sym(sk.tokens[0])),
                },
                e,
            )
        })
    }
    fn prod(&mut self, x: Var, m: usize, start: usize, single: bool) -> P {
        let out = self.j.sk.prods[m].1.clone();
        let mut st: Vec<S> = vec![];
        let mut pos = start;
        while st.len() < out.len() {
            let y = out[st.len()];
            let nt = (0..self.j.sk.prods.len()).any(|q| {
                let i = self.j.sk.prods[q].0;
                self.j.decide(y, i)
            });
            let r = if nt {
                let c = self.cands(y, pos);
                self.sym(y, pos, c, single)
            } else if self.j.decide(y, self.j.sk.eps) {
                R::Ok(Tree { sym: Sym(y), lex: None, kids: vec![] }, pos, vec![])
            } else if pos < self.j.sk.tokens.len() && self.j.decide(y, self.j.sk.tokens[pos]) {
                R::Ok(Tree { sym: Sym(y), lex: lex_of(pos), kids: vec![] }, pos + 1, vec![])
            } else {
                R::Err(FailSym { sym: Sym(y), prods: vec![] })
            };
            match r {
                R::Ok(t, e, rest) => {
                    st.push(S::Parsed(t, pos, rest));
                    pos = e;
                }
                R::Fix(f, e) => {
                    st.push(S::Fixed(f));
                    pos = e;
                }
                R::Err(f) => {
                    // untried alternatives of the siblings, last parsed first
                    let mut back = None;
                    for k in (0..st.len()).rev() {
                        let (s, from, rest) = match &st[k] {
                            S::Parsed(t, from, rest) if !rest.is_empty() => (t.sym.0, *from, rest.clone()),
                            _ => continue,
                        };
                        if let R::Ok(t, e, rest) = self.sym(s, from, rest, false) {
                            back = Some((k, S::Parsed(t, from, rest), e));
                            break;
                        }
                    }
                    match back {
                        Some((k, s, e)) => {
                            st.truncate(k);
                            st.push(s);
                            pos = e;
                        }
                        None => {
                            let parsed: Vec<Parsed<Sym>> = st
                                .into_iter()
                                .map(|s| match s {
                                    S::Parsed(t, ..) => Parsed::Ok(t),
                                    S::Fixed(f) => Parsed::Fix(f),
                                })
                                .collect();
                            let pending = out[parsed.len() + 1..].iter().map(|x| Sym(*x)).collect();
                            return P::Err(FailProd { failed: f, parsed, pending });
                        }
                    }
                }
            }
        }
        if st.iter().any(|s| matches!(s, S::Fixed(..))) {
            let parts = st
                .into_iter()
                .map(|s| match s {
                    S::Parsed(t, ..) => FixPart::Ok(t),
                    S::Fixed(f) => FixPart::Fixed(f),
                })
                .collect();
            P::Fix(FixSym { sym: Sym(x), parts }, pos)
        } else {
            let kids = st
                .into_iter()
                .map(|s| match s {
                    S::Parsed(t, ..) => t,
                    S::Fixed(..) => unreachable!(),
                })
                .collect();
            P::Ok(Tree { sym: Sym(x), lex: None, kids }, pos)
        }
    }
}

/// The prediction table over the classes of a model (every comparison it needs has been decided on the path).
pub struct Ground {
    prods: Vec<(u32, Vec<u32>)>,
    null: Vec<bool>,
    first: Vec<Vec<u32>>,
    follow: Vec<Vec<u32>>,
}
impl Ground {
    pub fn new(sk: &Skel, values: &[u32]) -> Ground {
        let v = |x: &Var| values[*x as usize];
        let eps = v(&sk.eps);
        let prods: Vec<(u32, Vec<u32>)> = sk.prods.iter().map(|p| (v(&p.0), p.1.iter().map(v).collect())).collect();
        let n = prods.len();
        let mut g = Ground { prods, null: vec![false; n], first: vec![vec![]; n], follow: vec![vec![]; n] };
        loop {
            let mut ch = false;
            for m in 0..n {
                let mut nul = true;
                let mut f = vec![];
                for x in &g.prods[m].1 {
                    let (a, b) = g.sym(*x, eps);
                    f.extend(b);
                    if !a {
                        nul = false;
                        break;
                    }
                }
                for t in f {
                    if !g.first[m].contains(&t) {
                        g.first[m].push(t);
                        ch = true;
                    }
                }
                if nul && !g.null[m] {
                    g.null[m] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        loop {
            let mut ch = false;
            for m in 0..n {
                for j in 0..g.prods[m].1.len() {
                    let x = g.prods[m].1[j];
                    let mut f = vec![];
                    let mut nul = true;
                    for y in &g.prods[m].1[j + 1..] {
                        let (a, b) = g.sym(*y, eps);
                        f.extend(b);
                        if !a {
                            nul = false;
                            break;
                        }
                    }
                    if nul {
                        f.extend(g.follow[m].clone());
                    }
                    for q in 0..n {
                        if g.prods[q].0 == x {
                            for t in &f {
                                if !g.follow[q].contains(t) {
                                    g.follow[q].push(*t);
                                    ch = true;
                                }
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        g
    }
    fn sym(&self, x: u32, eps: u32) -> (bool, Vec<u32>) {
        if x == eps {
            return (true, vec![]);
        }
        let qs: Vec<usize> = (0..self.prods.len()).filter(|q| self.prods[*q].0 == x).collect();
        if qs.is_empty() {
            return (false, vec![x]);
        }
        (qs.iter().any(|q| self.null[*q]), qs.iter().flat_map(|q| self.first[*q].clone()).collect())
    }
    pub fn predict(&self, m: usize, t: u32) -> bool {
        self.first[m].contains(&t) || (self.null[m] && self.follow[m].contains(&t))
    }
}

/// Derivability over the classes of a model (every comparison has been decided on the path); for grammars without left
/// recursion.
pub struct Rec {
    prods: Vec<(u32, Vec<u32>)>,
    eps: u32,
    pub toks: Vec<u32>,
    memo: std::collections::HashMap<(u32, usize), std::rc::Rc<Vec<usize>>>,
    pre: std::collections::HashMap<(u32, usize, usize), bool>,
}
impl Rec {
    pub fn new(sk: &Skel, values: &[u32]) -> Rec {
        let v = |x: &Var| values[*x as usize];
        Rec {
            prods: sk.prods.iter().map(|p| (v(&p.0), p.1.iter().map(v).collect())).collect(),
            eps: v(&sk.eps),
            toks: sk.tokens.iter().map(v).collect(),
            memo: Default::default(),
            pre: Default::default(),
        }
    }
    /// where the strings x derives from position i on end
    pub fn ends(&mut self, x: u32, i: usize) -> std::rc::Rc<Vec<usize>> {
        if let Some(v) = self.memo.get(&(x, i)) {
            return v.clone();
        }
        let mut out = vec![];
        let ms: Vec<usize> = (0..self.prods.len()).filter(|m| self.prods[*m].0 == x).collect();
        if ms.is_empty() {
            if x == self.eps {
                out.push(i)
            } else if i < self.toks.len() && self.toks[i] == x {
                out.push(i + 1)
            }
        }
        for m in ms {
            let mut at = vec![i];
            for y in self.prods[m].1.clone() {
                let mut next = vec![];
                for p in at {
                    next.extend(self.ends(y, p).iter());
                }
                next.sort();
                next.dedup();
                at = next;
            }
            out.extend(at);
        }
        out.sort();
        out.dedup();
        let out = std::rc::Rc::new(out);
        self.memo.insert((x, i), out.clone());
        out
    }
    fn prefix(&mut self, x: u32, i: usize, e: usize) -> bool {
        if i >= e {
            return i == e;
        }
        if let Some(b) = self.pre.get(&(x, i, e)) {
            return *b;
        }
        let mut b = x != self.eps && i + 1 == e && self.toks[i] == x && !self.prods.iter().any(|p| p.0 == x);
        for m in 0..self.prods.len() {
            if self.prods[m].0 != x || b {
                continue;
            }
            let mut at = vec![i];
            for y in self.prods[m].1.clone() {
                let mut next = vec![];
                for p in at.clone() {
                    if p < e && self.prefix(y, p, e) || p == e {
                        b = true;
                    }
                    next.extend(self.ends(y, p).iter());
                }
                if b {
                    break;
                }
                next.sort();
                next.dedup();
                at = next;
            }
            b |= at.contains(&e);
        }
        self.pre.insert((x, i, e), b);
        b
    }
    /// tokens[0..e) begins a string derived from x
    pub fn begins(&mut self, x: u32, e: usize) -> bool {
        self.prefix(x, 0, e)
    }
}
