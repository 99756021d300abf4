//! The specification, as circuits over the symbols of a skeleton: nullable, FIRST, FOLLOW, prediction, left recursion,
//! derivability, viable prefixes and the ordered search. Nothing here looks at the code under test.
use crate::engine::Var;
use crate::logic::{Lg, B};
use crate::skel::Skel;
use std::cell::RefCell;
use std::collections::HashMap;

pub struct Circ<'a> {
    pub lg: &'a Lg,
    pub sk: &'a Skel,
    pub n: usize,
    pub rounds: usize,
    pub null: Vec<B>,
    pre: Vec<Vec<B>>,
    suf: Vec<Vec<B>>,
    lr: Vec<Vec<B>>,
    fe: Vec<Vec<B>>,
    memo: RefCell<HashMap<(u8, u32, u32, u32, u32), B>>,
    // derivability
    d: RefCell<HashMap<(usize, usize, usize), B>>,
    // ordered search
    p: RefCell<HashMap<(usize, usize, usize), B>>,
    e: RefCell<HashMap<(usize, usize, usize, usize), B>>,
}

impl<'a> Circ<'a> {
    pub fn new(lg: &'a Lg, sk: &'a Skel) -> Circ<'a> {
        let n = sk.prods.len();
        let mut reps: Vec<u32> = sk.prods.iter().map(|p| lg.base.rep[p.0 as usize]).collect();
        reps.sort();
        reps.dedup();
        let mut c = Circ {
            lg,
            sk,
            n,
            rounds: reps.len(),
            null: vec![],
            pre: vec![],
            suf: vec![],
            lr: vec![],
            fe: vec![],
            memo: Default::default(),
            d: Default::default(),
            p: Default::default(),
            e: Default::default(),
        };
        c.build_null();
        c
    }
    fn memo(&self, k: (u8, u32, u32, u32, u32), f: impl FnOnce() -> B) -> B {
        if let Some(b) = self.memo.borrow().get(&k) {
            return *b;
        }
        let b = self.lg.def(f());
        self.memo.borrow_mut().insert(k, b);
        b
    }
    pub fn len(&self, m: usize) -> usize {
        self.sk.prods[m].1.len()
    }
    pub fn inp(&self, m: usize) -> Var {
        self.sk.prods[m].0
    }
    pub fn out(&self, m: usize, j: usize) -> Var {
        self.sk.prods[m].1[j]
    }
    pub fn is_eps(&self, x: Var) -> B {
        self.lg.eq(x, self.sk.eps)
    }
    pub fn is_nt(&self, x: Var) -> B {
        self.memo((0, x, 0, 0, 0), || self.lg.or(&(0..self.n).map(|m| self.lg.eq(x, self.inp(m))).collect::<Vec<_>>()))
    }
    /// a terminal other than epsilon
    pub fn is_term(&self, x: Var) -> B {
        self.memo((1, x, 0, 0, 0), || self.lg.and(&[self.lg.not(self.is_nt(x)), self.lg.not(self.is_eps(x))]))
    }
    fn any_prod(&self, x: Var, f: impl Fn(usize) -> B) -> B {
        self.lg.or(
            &(0..self.n)
                .map(|m| {
                    let e = self.lg.eq(x, self.inp(m));
                    if e == B::F {
                        B::F
                    } else {
                        self.lg.and(&[e, f(m)])
                    }
                })
                .collect::<Vec<_>>(),
        )
    }
    fn build_null(&mut self) {
        let lg = self.lg;
        let mut cur = vec![B::F; self.n];
        // a production of a nullable chain through all k symbols is settled after k + 1 rounds
        for _ in 0..self.rounds + 1 {
            let next: Vec<B> = (0..self.n)
                .map(|m| {
                    lg.def(lg.and(
                        &(0..self.len(m))
                            .map(|j| {
                                let x = self.out(m, j);
                                lg.or(&[self.is_eps(x), self.any_prod(x, |q| cur[q])])
                            })
                            .collect::<Vec<_>>(),
                    ))
                })
                .collect();
            cur = next;
        }
        self.null = cur;
        for m in 0..self.n {
            let l = self.len(m);
            let sn: Vec<B> = (0..l).map(|j| self.sym_null(self.out(m, j))).collect();
            let mut pre = vec![B::T];
            for j in 0..l {
                pre.push(lg.def(lg.and(&[pre[j], sn[j]])));
            }
            let mut suf = vec![B::T; l + 1];
            for j in (0..l).rev() {
                suf[j] = lg.def(lg.and(&[suf[j + 1], sn[j]]));
            }
            self.pre.push(pre);
            self.suf.push(suf);
        }
    }
    pub fn sym_null(&self, x: Var) -> B {
        self.memo((2, x, 0, 0, 0), || self.lg.or(&[self.is_eps(x), self.any_prod(x, |q| self.null[q])]))
    }
    fn warshall(&self, mut r: Vec<Vec<B>>) -> Vec<Vec<B>> {
        let n = self.n;
        for k in 0..n {
            let mut s = r.clone();
            for i in 0..n {
                for j in 0..n {
                    s[i][j] = self.lg.def(self.lg.or(&[r[i][j], self.lg.and(&[r[i][k], r[k][j]])]));
                }
            }
            r = s;
        }
        r
    }
    /// leftmost-reachability between productions (also left recursion): lr[m][q]: the input of q occurs at a left edge
    /// reachable from production m
    pub fn build_lr(&mut self) {
        if !self.lr.is_empty() {
            return;
        }
        let lg = self.lg;
        let r = (0..self.n)
            .map(|m| {
                (0..self.n)
                    .map(|q| {
                        lg.def(lg.or(
                            &(0..self.len(m))
                                .map(|j| lg.and(&[self.pre[m][j], lg.eq(self.out(m, j), self.inp(q))]))
                                .collect::<Vec<_>>(),
                        ))
                    })
                    .collect()
            })
            .collect();
        self.lr = self.warshall(r);
    }
    pub fn build_follow(&mut self) {
        if !self.fe.is_empty() {
            return;
        }
        self.build_lr();
        let lg = self.lg;
        let r = (0..self.n)
            .map(|i| {
                (0..self.n)
                    .map(|m| {
                        lg.def(lg.or(
                            &(0..self.len(m))
                                .map(|j| lg.and(&[lg.eq(self.out(m, j), self.inp(i)), self.suf[m][j + 1]]))
                                .collect::<Vec<_>>(),
                        ))
                    })
                    .collect()
            })
            .collect();
        self.fe = self.warshall(r);
    }
    pub fn left_recursive(&mut self) -> B {
        self.build_lr();
        self.lg.or(&(0..self.n).map(|m| self.lr[m][m]).collect::<Vec<_>>())
    }
    fn first_direct(&self, m: usize, t: Var) -> B {
        self.memo((3, m as u32, t, 0, 0), || {
            self.lg.or(
                &(0..self.len(m))
                    .map(|j| {
                        let x = self.out(m, j);
                        let e = self.lg.eq(x, t);
                        if e == B::F {
                            return B::F;
                        }
                        self.lg.and(&[self.pre[m][j], e, self.is_term(x)])
                    })
                    .collect::<Vec<_>>(),
            )
        })
    }
    /// terminal t can begin a string derived from the output of production m
    pub fn first(&self, m: usize, t: Var) -> B {
        self.memo((4, m as u32, t, 0, 0), || {
            let mut v = vec![self.first_direct(m, t)];
            for q in 0..self.n {
                v.push(self.lg.and(&[self.lr[m][q], self.first_direct(q, t)]));
            }
            self.lg.or(&v)
        })
    }
    pub fn sym_first(&self, x: Var, t: Var) -> B {
        self.memo((5, x, t, 0, 0), || {
            self.lg.or(&[self.lg.and(&[self.lg.eq(x, t), self.is_term(x)]), self.any_prod(x, |q| self.first(q, t))])
        })
    }
    fn follow_direct(&self, i: usize, t: Var) -> B {
        self.memo((6, i as u32, t, 0, 0), || {
            let lg = self.lg;
            let mut v = vec![];
            for m in 0..self.n {
                for j in 0..self.len(m) {
                    let e = lg.eq(self.out(m, j), self.inp(i));
                    if e == B::F {
                        continue;
                    }
                    v.push(lg.and(&[e, self.first_rest(m, j + 1, t)]));
                }
            }
            lg.or(&v)
        })
    }
    fn first_rest(&self, m: usize, from: usize, t: Var) -> B {
        self.memo((7, m as u32, from as u32, t, 0), || {
            if from >= self.len(m) {
                return B::F;
            }
            let x = self.out(m, from);
            self.lg.or(&[
                self.sym_first(x, t),
                self.lg.and(&[self.sym_null(x), self.first_rest(m, from + 1, t)]),
            ])
        })
    }
    /// terminal t is in FOLLOW of the input of production i
    pub fn follow(&self, i: usize, t: Var) -> B {
        self.memo((8, i as u32, t, 0, 0), || {
            let mut v = vec![self.follow_direct(i, t)];
            for m in 0..self.n {
                v.push(self.lg.and(&[self.fe[i][m], self.follow_direct(m, t)]));
            }
            self.lg.or(&v)
        })
    }
    fn occurs(&self, x: Var) -> B {
        self.memo((11, x, 0, 0, 0), || {
            self.lg.or(&self.sk.prods.iter().flat_map(|p| p.1.iter()).map(|y| self.lg.eq(x, *y)).collect::<Vec<_>>())
        })
    }
    /// the supplied sets are ones the grammar can be used with: terminals (and epsilon in FIRST) only
    pub fn given_ok(&self) -> B {
        let lg = self.lg;
        let term = |y: Var| lg.and(&[self.is_term(y), self.occurs(y)]);
        let mut v = vec![];
        for (_, y) in &self.sk.gfirst {
            v.push(lg.or(&[self.is_eps(*y), term(*y)]));
        }
        for (_, y) in &self.sk.gfollow {
            v.push(term(*y));
        }
        lg.and(&v)
    }
    /// y is in the supplied FIRST set of x
    pub fn in_gfirst(&self, x: Var, y: Var) -> B {
        self.memo((12, x, y, 0, 0), || {
            let lg = self.lg;
            let mut v: Vec<B> = self.sk.gfirst.iter().map(|p| lg.and(&[lg.eq(x, p.0), lg.eq(y, p.1)])).collect();
            v.push(lg.and(&[lg.eq(x, y), lg.not(self.is_nt(x)), lg.or(&[self.occurs(x), self.is_eps(x)])]));
            lg.or(&v)
        })
    }
    pub fn in_gfollow(&self, x: Var, y: Var) -> B {
        self.memo((13, x, y, 0, 0), || {
            let lg = self.lg;
            lg.or(&self.sk.gfollow.iter().map(|p| lg.and(&[lg.eq(x, p.0), lg.eq(y, p.1)])).collect::<Vec<_>>())
        })
    }
    /// the symbols that have a supplied FIRST set
    pub fn has_gfirst(&self, x: Var) -> B {
        let lg = self.lg;
        let mut v: Vec<B> = self.sk.gfirst.iter().map(|p| lg.eq(x, p.0)).collect();
        v.extend([self.is_nt(x), self.occurs(x), self.is_eps(x)]);
        lg.or(&v)
    }
    pub fn has_gfollow(&self, x: Var) -> B {
        let lg = self.lg;
        let mut v: Vec<B> = self.sk.gfollow.iter().map(|p| lg.eq(x, p.0)).collect();
        v.push(self.is_nt(x));
        lg.or(&v)
    }
    fn predict_given(&self, m: usize, t: Var) -> B {
        self.memo((14, m as u32, t, 0, 0), || {
            let lg = self.lg;
            let mut null = B::T;
            let mut v = vec![];
            for j in 0..self.len(m) {
                let x = self.out(m, j);
                v.push(lg.and(&[null, self.in_gfirst(x, t), lg.not(self.is_eps(t))]));
                null = lg.def(lg.and(&[null, self.in_gfirst(x, self.sk.eps)]));
            }
            v.push(lg.and(&[null, self.in_gfollow(self.inp(m), t)]));
            lg.or(&v)
        })
    }
    /// production m belongs in the table at lookahead t (Algorithm 4.31)
    pub fn predict(&self, m: usize, t: Var) -> B {
        if self.sk.flags.given {
            return self.predict_given(m, t);
        }
        self.memo((9, m as u32, t, 0, 0), || {
            self.lg.or(&[self.first(m, t), self.lg.and(&[self.null[m], self.follow(m, t)])])
        })
    }
    /// production m is a candidate for symbol x when the input continues at position i
    pub fn cand(&self, x: Var, m: usize, i: usize) -> B {
        let e = self.lg.eq(x, self.inp(m));
        if e == B::F || i >= self.sk.tokens.len() {
            return B::F;
        }
        self.lg.and(&[e, self.predict(m, self.sk.tokens[i])])
    }
    pub fn ll1(&self) -> B {
        let lg = self.lg;
        let mut slots: Vec<Var> = self.sk.prods.iter().flat_map(|p| p.1.clone()).collect();
        slots.sort();
        slots.dedup();
        let mut v = vec![];
        for m in 0..self.n {
            for q in 0..m {
                let e = lg.eq(self.inp(m), self.inp(q));
                if e == B::F {
                    continue;
                }
                let mut bad = vec![lg.and(&[self.null[m], self.null[q]])];
                for t in &slots {
                    bad.push(lg.and(&[self.predict(m, *t), self.predict(q, *t)]));
                }
                v.push(lg.implies(e, lg.not(lg.or(&bad))));
            }
        }
        lg.def(lg.and(&v))
    }
    pub fn reachable_all(&self) -> B {
        let lg = self.lg;
        let r = (0..self.n)
            .map(|m| {
                (0..self.n)
                    .map(|q| {
                        lg.or(&(0..self.len(m)).map(|j| lg.eq(self.out(m, j), self.inp(q))).collect::<Vec<_>>())
                    })
                    .collect()
            })
            .collect();
        let r = self.warshall(r);
        let mut v = vec![];
        for q in 0..self.n {
            let mut w = vec![lg.eq(self.inp(q), self.sk.init)];
            for m in 0..self.n {
                w.push(lg.and(&[lg.eq(self.inp(m), self.sk.init), r[m][q]]));
            }
            v.push(lg.or(&w));
        }
        lg.and(&v)
    }
    pub fn productive_all(&self) -> B {
        let lg = self.lg;
        let mut cur = vec![B::F; self.n];
        for _ in 0..self.rounds.max(1) {
            cur = (0..self.n)
                .map(|m| {
                    lg.def(lg.and(
                        &(0..self.len(m))
                            .map(|j| {
                                let x = self.out(m, j);
                                lg.or(&[lg.not(self.is_nt(x)), self.any_prod(x, |q| cur[q])])
                            })
                            .collect::<Vec<_>>(),
                    ))
                })
                .collect();
        }
        lg.and(&(0..self.n).map(|m| self.any_prod(self.inp(m), |q| cur[q])).collect::<Vec<_>>())
    }
    pub fn end_marked(&self) -> B {
        let lg = self.lg;
        let d = self.sk.marker.expect("no end marker");
        let s = self.sk.init;
        let mut v = vec![];
        for m in 0..self.n {
            let is_s = lg.eq(self.inp(m), s);
            v.push(lg.not(lg.eq(self.inp(m), d)));
            for j in 0..self.len(m) {
                let x = self.out(m, j);
                v.push(lg.not(lg.eq(x, s)));
                if j + 1 == self.len(m) {
                    v.push(lg.iff(is_s, lg.eq(x, d)));
                } else {
                    v.push(lg.not(lg.eq(x, d)));
                }
            }
        }
        v.push(self.is_nt(s));
        lg.and(&v)
    }
    pub fn well_formed(&self) -> B {
        let mut v = vec![];
        for m in 0..self.n {
            v.push(self.lg.not(self.is_eps(self.inp(m))));
            if self.len(m) == 0 {
                v.push(B::F);
            }
            if self.len(m) > 1 {
                for j in 0..self.len(m) {
                    v.push(self.lg.not(self.is_eps(self.out(m, j))));
                }
            }
        }
        self.lg.and(&v)
    }

    // ---- derivability: production m derives tokens[i..j) ----
    pub fn build_derives(&self) {
        let l = self.sk.tokens.len();
        for w in 0..=l {
            for i in 0..=(l - w) {
                let j = i + w;
                if w == 0 {
                    for m in 0..self.n {
                        self.d.borrow_mut().insert((m, i, j), self.null[m]);
                    }
                    continue;
                }
                for m in 0..self.n {
                    self.d.borrow_mut().insert((m, i, j), B::F);
                }
                for _ in 0..self.rounds + 1 {
                    let mut next = vec![];
                    for m in 0..self.n {
                        next.push(self.lg.def(self.derives_rest_now(m, 0, i, j)));
                    }
                    for (m, b) in next.into_iter().enumerate() {
                        self.d.borrow_mut().insert((m, i, j), b);
                    }
                }
            }
        }
    }
    fn dget(&self, m: usize, i: usize, j: usize) -> B {
        *self.d.borrow().get(&(m, i, j)).expect("derivability table not built")
    }
    pub fn sym_derives(&self, x: Var, i: usize, j: usize) -> B {
        let mut v = vec![self.any_prod(x, |q| self.dget(q, i, j))];
        if i == j {
            v.push(self.is_eps(x));
        }
        if j == i + 1 {
            v.push(self.lg.and(&[self.is_term(x), self.lg.eq(x, self.sk.tokens[i])]));
        }
        self.lg.or(&v)
    }
    fn derives_rest_now(&self, m: usize, k: usize, i: usize, j: usize) -> B {
        if k == self.len(m) {
            return if i == j { B::T } else { B::F };
        }
        let x = self.out(m, k);
        let mut v = vec![];
        for mid in i..=j {
            let a = self.sym_derives(x, i, mid);
            if a == B::F {
                continue;
            }
            let b = self.derives_rest_now(m, k + 1, mid, j);
            v.push(self.lg.and(&[a, b]));
        }
        self.lg.or(&v)
    }
    /// first k symbols of m derive tokens[i..j)
    fn prefix_derives(&self, m: usize, k: usize, i: usize, j: usize) -> B {
        self.memo((10, m as u32, k as u32, i as u32, j as u32), || {
            if k == 0 {
                return if i == j { B::T } else { B::F };
            }
            let mut v = vec![];
            for mid in i..=j {
                let b = self.sym_derives(self.out(m, k - 1), mid, j);
                if b != B::F {
                    v.push(self.lg.and(&[self.prefix_derives(m, k - 1, i, mid), b]));
                }
            }
            self.lg.or(&v)
        })
    }
    /// tokens[0..e) begins some sentence (all symbols productive)
    pub fn viable(&self, e: usize) -> B {
        if e == 0 {
            return B::T;
        }
        let mut v: HashMap<(usize, usize), B> = HashMap::new();
        for i in (0..e).rev() {
            for m in 0..self.n {
                v.insert((m, i), B::F);
            }
            for _ in 0..self.rounds + 1 {
                let mut next = vec![];
                for m in 0..self.n {
                    let mut w = vec![];
                    for k in 0..self.len(m) {
                        for mid in i..e {
                            let pre = self.prefix_derives(m, k, i, mid);
                            if pre == B::F {
                                continue;
                            }
                            let x = self.out(m, k);
                            let s = self.lg.or(&[self.sym_derives(x, mid, e), self.any_prod(x, |q| v[&(q, mid)])]);
                            w.push(self.lg.and(&[pre, s]));
                        }
                    }
                    next.push(self.lg.def(self.lg.or(&w)));
                }
                for (m, b) in next.into_iter().enumerate() {
                    v.insert((m, i), b);
                }
            }
        }
        self.lg.def(self.any_prod(self.sk.init, |q| v[&(q, 0)]))
    }

    // ---- ordered search: production m, started at i, succeeds and ends at f ----
    pub fn build_search(&self) {
        let l = self.sk.tokens.len();
        for i in (0..=l).rev() {
            for m in 0..self.n {
                for f in i..=l {
                    self.p.borrow_mut().insert((m, i, f), B::F);
                }
            }
            for _ in 0..self.rounds.max(1) {
                // rest-of-production circuits at this position with the current round's results
                for m in 0..self.n {
                    for j in (0..=self.len(m)).rev() {
                        for f in i..=l {
                            let b = self.lg.def(self.search_rest(m, j, i, f));
                            self.e.borrow_mut().insert((m, j, i, f), b);
                        }
                    }
                }
                for m in 0..self.n {
                    for f in i..=l {
                        let b = self.e.borrow()[&(m, 0, i, f)];
                        self.p.borrow_mut().insert((m, i, f), b);
                    }
                }
            }
            // final rests at this position
            for m in 0..self.n {
                for j in (0..=self.len(m)).rev() {
                    for f in i..=l {
                        let b = self.lg.def(self.search_rest(m, j, i, f));
                        self.e.borrow_mut().insert((m, j, i, f), b);
                    }
                }
            }
        }
    }
    fn search_rest(&self, m: usize, j: usize, i: usize, f: usize) -> B {
        let lg = self.lg;
        let l = self.sk.tokens.len();
        if j == self.len(m) {
            return if i == f { B::T } else { B::F };
        }
        let x = self.out(m, j);
        let e = self.e.borrow();
        let mut v = vec![];
        v.push(lg.and(&[self.is_eps(x), e[&(m, j + 1, i, f)]]));
        if i < l && f > i {
            v.push(lg.and(&[self.is_term(x), lg.eq(x, self.sk.tokens[i]), e[&(m, j + 1, i + 1, f)]]));
        }
        let mut earlier: Vec<B> = vec![];
        for q in 0..self.n {
            let c = self.cand(x, q, i);
            if c == B::F {
                continue;
            }
            let mut here = vec![];
            let mut any = vec![];
            for k in i..=l {
                let pq = self.p.borrow()[&(q, i, k)];
                if k <= f {
                    here.push(lg.and(&[pq, e[&(m, j + 1, k, f)]]));
                }
                let rest: Vec<B> = (k..=l).map(|g| e[&(m, j + 1, k, g)]).collect();
                any.push(lg.and(&[pq, lg.or(&rest)]));
            }
            let mut w = vec![c, lg.or(&here)];
            w.extend(earlier.iter().map(|b| lg.not(*b)));
            v.push(lg.and(&w));
            earlier.push(lg.and(&[c, lg.or(&any)]));
        }
        lg.or(&v)
    }
    pub fn succeeds(&self, m: usize, i: usize, f: usize) -> B {
        *self.p.borrow().get(&(m, i, f)).unwrap_or(&B::F)
    }
    /// the rest of production m from symbol j on, started at i, can be completed by the search
    pub fn rest_ok(&self, m: usize, j: usize, i: usize) -> B {
        let l = self.sk.tokens.len();
        let e = self.e.borrow();
        self.lg.or(&(i..=l).map(|g| e[&(m, j, i, g)]).collect::<Vec<_>>())
    }
    pub fn search_accepts(&self) -> B {
        let l = self.sk.tokens.len();
        let mut v = vec![];
        for m in 0..self.n {
            let c = self.cand(self.sk.init, m, 0);
            if c == B::F {
                continue;
            }
            for f in 0..=l {
                v.push(self.lg.and(&[c, self.succeeds(m, 0, f)]));
            }
        }
        self.lg.def(self.lg.or(&v))
    }
}
