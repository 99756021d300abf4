//! A skeleton fixes the shape of an input (number and lengths of productions, number of tokens) and leaves its
//! symbols symbolic. It is written in a small text language:
//!
//!   "S > A $ ; A > ?1 ?2 ; A > eps"      productions in order; the first input is the initial symbol
//!   A, $, foo   named symbols, pairwise distinct;   eps   the epsilon symbol
//!   ?x          a free symbolic symbol;   ?x{A,b}  one restricted to the listed symbols
use crate::engine::{Closure, Var};
use std::collections::HashMap;

#[derive(Clone, Default, Debug)]
pub struct Flags {
    pub any_grammar: bool, // do not assume well-formedness
    pub no_leftrec: bool,
    pub reachable: bool,
    pub productive: bool,
    pub end_marked: bool, // init in no output, every init production ends in `$`, `$` nowhere else
    pub ll1: bool,
    pub conflict: bool, // the complement of ll1 (used to spend the budget on conflicting grammars)
    pub free_init: bool,
    pub solver: u8, // number of scripted solver answers
    pub resume: u8, // number of resume positions a solver may choose (see harness::resume_at)
    pub probe: bool,
    pub given: bool, // FIRST and FOLLOW sets are supplied: gfirst, gfollow ("x:y/x:y", y is in the set of x)
    pub gfirst: String,
    pub gfollow: String,
    pub ground: bool, // judge by deciding every comparison on the path (large inputs)
    pub often: u16, // parses of the input before the one that is looked at (C15)
    pub before: u8, // length of the input parsed before (C15)
    pub hash: u8, // number of hash markers (see engine::Sym)
    pub budget: u64, // symbol comparisons a path may make before it counts as not returning
}

impl Flags {
    pub fn parse(s: &str) -> Flags {
        let mut f = Flags::default();
        for w in s.split(',').filter(|w| !w.is_empty()) {
            match w.split_once('=').unwrap_or((w, "")) {
                ("any", _) => f.any_grammar = true,
                ("nolr", _) => f.no_leftrec = true,
                ("reach", _) => f.reachable = true,
                ("prod", _) => f.productive = true,
                ("em", _) => f.end_marked = true,
                ("ll1", _) => f.ll1 = true,
                ("conflict", _) => f.conflict = true,
                ("freeinit", _) => f.free_init = true,
                ("probe", _) => f.probe = true,
                ("ground", _) => f.ground = true,
                ("given", _) => f.given = true,
                ("gfirst", v) => f.gfirst = v.to_string(),
                ("gfollow", v) => f.gfollow = v.to_string(),
                ("before", n) => f.before = n.parse().unwrap(),
                ("often", n) => f.often = n.parse().unwrap(),
                ("hash", n) => f.hash = n.parse().unwrap(),
                ("solver", n) => f.solver = n.parse().unwrap(),
                ("resume", n) => f.resume = n.parse().unwrap(),
                ("budget", n) => f.budget = n.parse().unwrap(),
                _ => panic!("unknown flag {w}"),
            }
        }
        f
    }
}

#[derive(Clone, Debug)]
pub struct Skel {
    pub names: Vec<String>,
    pub named: Vec<Var>,
    pub eps: Var,
    pub init: Var,
    pub prods: Vec<(Var, Vec<Var>)>,
    pub tokens: Vec<Var>,
    pub lex: Vec<Var>,
    pub lex2: Vec<Var>,
    pub probes: Vec<Var>,
    pub before: Vec<Var>,
    pub hashm: Vec<Var>,
    pub choices: Vec<Var>,
    pub consts: Vec<Var>,
    pub gfirst: Vec<(Var, Var)>,
    pub gfollow: Vec<(Var, Var)>,
    pub lex_from: Var,
    pub base: Vec<(Var, Var, bool)>,
    pub domains: Vec<(Var, Vec<Var>)>,
    pub marker: Option<Var>,
    pub flags: Flags,
    pub budget: u64,
}

struct Names {
    map: HashMap<String, Var>,
    names: Vec<String>,
    named: Vec<Var>,
}
impl Names {
    fn get(&mut self, n: &str) -> Var {
        if let Some(v) = self.map.get(n) {
            return *v;
        }
        let v = self.names.len() as Var;
        self.names.push(n.to_string());
        self.map.insert(n.to_string(), v);
        if !n.starts_with('?') {
            self.named.push(v);
        }
        v
    }
}

impl Skel {
    /// `tokens`: words of the same language (a bare number n stands for n free tokens).
    pub fn parse(grammar: &str, tokens: &str, flags: Flags) -> Skel {
        let mut ns = Names { map: HashMap::new(), names: vec![], named: vec![] };
        let eps = ns.get("eps");
        let mut domains: Vec<(Var, Vec<Var>)> = vec![];
        let mut sym = |ns: &mut Names, w: &str| -> Var {
            if let Some((h, d)) = w.split_once('{') {
                let v = ns.get(h);
                let d = d.trim_end_matches('}').split(',').map(|x| ns.get(x)).collect();
                domains.push((v, d));
                v
            } else {
                ns.get(w)
            }
        };
        let mut prods = vec![];
        for p in grammar.split(';').map(|x| x.trim()).filter(|x| !x.is_empty()) {
            let (l, r) = p.split_once('>').unwrap_or_else(|| panic!("bad production {p}"));
            let l = sym(&mut ns, l.trim());
            let r: Vec<Var> = r.split_whitespace().map(|w| sym(&mut ns, w)).collect();
            prods.push((l, r));
        }
        let mut tv = vec![];
        let mut words: Vec<String> = vec![];
        for w in tokens.split_whitespace() {
            if let Ok(n) = w.parse::<usize>() {
                for _ in 0..n {
                    words.push(format!("?t{}", words.len()));
                }
            } else if let Some((s, n)) = w.split_once('*') {
                for _ in 0..n.parse::<usize>().unwrap() {
                    words.push(s.to_string());
                }
            } else {
                words.push(w.to_string());
            }
        }
        for w in &words {
            tv.push(sym(&mut ns, w));
        }
        let init = if flags.free_init {
            ns.get("?init")
        } else {
            prods[0].0
        };
        let pairs = |ns: &mut Names, s: &str| -> Vec<(Var, Var)> {
            s.split('/')
                .filter(|w| !w.is_empty())
                .map(|w| {
                    let (a, b) = w.split_once(':').unwrap_or_else(|| panic!("bad pair {w}"));
                    (ns.get(a), ns.get(b))
                })
                .collect()
        };
        let gfirst = pairs(&mut ns, &flags.gfirst);
        let gfollow = pairs(&mut ns, &flags.gfollow);
        let marker = if flags.end_marked { Some(ns.get("$")) } else { None };
        let mut probes = vec![];
        let mut base = vec![];
        if flags.probe {
            let n = ns.names.len() as Var;
            let p = ns.get("?probe");
            probes.push(p);
            for i in 0..n {
                base.push((p, i, false));
            }
        }
        let before: Vec<Var> = (0..flags.before).map(|i| ns.get(&format!("?b{i}"))).collect();
        let hashm: Vec<Var> = (0..flags.hash).map(|i| ns.get(&format!("?h{i}"))).collect();
        let mut consts = vec![];
        let mut choices = vec![];
        if flags.solver > 0 {
            for k in 0..(flags.resume + 1) {
                consts.push(ns.get(&format!("k{k}")));
            }
            for c in 0..flags.solver {
                let v = ns.get(&format!("?c{c}"));
                choices.push(v);
                domains.push((v, consts.clone()));
            }
        }
        for i in 0..ns.named.len() {
            for j in 0..i {
                base.push((ns.named[i], ns.named[j], false));
            }
        }
        let lex_from = ns.names.len() as Var;
        let nl = tv.len().min(12);
        let lex: Vec<Var> = (0..tv.len()).map(|i| ns.get(&format!("?l{}", i.min(nl.max(1) - 1)))).collect();
        let lex2: Vec<Var> = (0..tv.len()).map(|i| ns.get(&format!("?m{}", i.min(nl.max(1) - 1)))).collect();
        let budget = if flags.budget > 0 { flags.budget } else { 300_000 } * (1 + flags.hash as u64);
        Skel {
            names: ns.names,
            named: ns.named,
            eps,
            init,
            prods,
            tokens: tv,
            lex,
            lex2,
            probes,
            before,
            hashm,
            choices,
            consts,
            gfirst,
            gfollow,
            lex_from,
            base,
            domains,
            marker,
            flags,
            budget,
        }
    }
    pub fn closure(&self) -> Closure {
        let mut c = Closure::new(self.names.len());
        for (a, b, e) in &self.base {
            c.assume(*a, *b, *e);
        }
        c
    }
    /// The production order used to compare interleavings: productions grouped by input (in base classes), the last
    /// declared group first, the order within a group kept.
    pub fn regrouped(&self) -> Vec<usize> {
        let c = self.closure();
        let mut groups: Vec<(u32, Vec<usize>)> = vec![];
        for (i, p) in self.prods.iter().enumerate() {
            let r = c.rep[p.0 as usize];
            match groups.iter_mut().find(|g| g.0 == r) {
                Some(g) => g.1.push(i),
                None => groups.push((r, vec![i])),
            }
        }
        groups.reverse();
        groups.into_iter().flat_map(|g| g.1).collect()
    }
    /// Another interleaving: one production of each input in turn, the last declared input first.
    pub fn shuffled(&self) -> Vec<usize> {
        let c = self.closure();
        let rep = |i: usize| c.rep[self.prods[i].0 as usize];
        let mut rest = self.regrouped();
        let mut out = vec![];
        while !rest.is_empty() {
            let mut seen = vec![];
            let mut later = vec![];
            for i in rest {
                if seen.contains(&rep(i)) {
                    later.push(i)
                } else {
                    seen.push(rep(i));
                    out.push(i)
                }
            }
            rest = later;
        }
        out
    }
}
