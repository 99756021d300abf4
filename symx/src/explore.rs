//! The path explorer: depth-first over the decisions of the code under test (and of the judge), z3 deciding which
//! sides are feasible and whether the property can fail on a finished path.
use crate::circ::Circ;
use crate::engine::{self, BudgetExceeded, PathCtx, Sym, Var};
use crate::harness::{observe, Input, Obs};
use crate::judge::{prepare, Outcome, J};
use crate::logic::{Lg, B};
use crate::skel::Skel;
use crate::z3ffi::Res;
use std::fmt::Write as _;
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub decisions: u64,
    pub infeasible: u64,
    pub folded: u64,
    pub prop_queries: u64,
    pub queries: u64,
    pub nanos: u64,
    pub unknown: u64,
    pub defs: u64,
    pub eq_calls: u64,
    pub lex_calls: u64,
    pub done: bool,
    pub vacuous: bool,
    pub kinds: std::collections::BTreeMap<&'static str, u64>,
    pub viol: Vec<(String, String)>,
    pub samples: Vec<String>,
    pub smt: Vec<String>,
    pub error: Option<String>,
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub max_ms: u64,
    pub sample_every: u64,
    pub max_samples: usize,
    pub max_viol: usize,
    pub dump_smt: usize,
    pub timeout_ms: u32,
    pub current: Option<String>,
}

pub fn input(sk: &Skel) -> Input<Sym> {
    let s = |v: &Vec<Var>| v.iter().map(|x| Sym(*x)).collect::<Vec<_>>();
    Input {
        eps: Sym(sk.eps),
        init: Sym(sk.init),
        prods: sk.prods.iter().map(|p| (Sym(p.0), s(&p.1))).collect(),
        tokens: s(&sk.tokens),
        lex: s(&sk.lex),
        lex2: s(&sk.lex2),
        probes: s(&sk.probes),
        before: s(&sk.before),
        choices: s(&sk.choices),
        consts: s(&sk.consts),
        often: sk.flags.often as usize,
        gfirst: sk.gfirst.iter().map(|p| (Sym(p.0), Sym(p.1))).collect(),
        gfollow: sk.gfollow.iter().map(|p| (Sym(p.0), Sym(p.1))).collect(),
        regrouped: sk.regrouped(),
        shuffled: sk.shuffled(),
    }
}

/// A concrete input (symbols = equality classes of a model) as text: what a replay reads.
pub fn concrete(prop: &str, seed: u64, sk: &Skel, val: &[u32]) -> String {
    let v = |x: &Var| val[*x as usize].to_string();
    let l = |xs: &Vec<Var>| xs.iter().map(v).collect::<Vec<_>>().join(" ");
    let mut o = String::new();
    let _ = writeln!(o, "prop {prop}\nseed {seed}\neps {}\ninit {}", v(&sk.eps), v(&sk.init));
    for p in &sk.prods {
        let _ = writeln!(o, "prod {} : {}", v(&p.0), l(&p.1));
    }
    let _ = writeln!(o, "tokens {}\nlex {}\nlex2 {}", l(&sk.tokens), l(&sk.lex), l(&sk.lex2));
    let _ = writeln!(o, "probes {}\nbefore {}\nchoices {}\nconsts {}", l(&sk.probes), l(&sk.before), l(&sk.choices), l(&sk.consts));
    let g = |l: &Vec<(Var, Var)>| l.iter().map(|p| format!("{} {}", v(&p.0), v(&p.1))).collect::<Vec<_>>().join(" ");
    let _ = writeln!(o, "gfirst {}\ngfollow {}", g(&sk.gfirst), g(&sk.gfollow));
    let _ = writeln!(o, "hashm {}\noften {}", l(&sk.hashm), sk.flags.often);
    let n = |l: Vec<usize>| l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let _ = writeln!(o, "regrouped {}\nshuffled {}", n(sk.regrouped()), n(sk.shuffled()));
    o
}

struct Done {
    ctx: Box<PathCtx>,
    out: Outcome,
}

fn run_path(prop: &str, sk: &Skel, inp: &Input<Sym>, values: &[u32], budget: u64) -> Result<Done, String> {
    let ctx = Box::new(PathCtx {
        values: values.to_vec(),
        closure: sk.closure(),
        decisions: vec![],
        calls: 0,
        budget,
        lex_from: sk.lex_from,
        lex_calls: 0,
        hashm: sk.hashm.clone(),
    });
    let prop = prop.to_string();
    let inp = inp.clone();
    let (tx, rx) = mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            engine::install(ctx);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observe(&prop, &inp)));
            let ctx = engine::uninstall();
            let out = match r {
                Ok(o) => Outcome::Done(o),
                Err(e) => {
                    if e.is::<BudgetExceeded>() {
                        Outcome::Endless
                    } else {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        Outcome::Panic(m)
                    }
                }
            };
            let _ = tx.send(Done { ctx, out });
        })
        .map_err(|e| format!("thread: {e}"))?;
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(d) => {
            let _ = h.join();
            Ok(d)
        }
        Err(_) => Err("hang".into()),
    }
}

fn kind(o: &Outcome) -> &'static str {
    fn k(o: &Obs<Sym>) -> &'static str {
        match o {
            Obs::Parse(p) => match p.res {
                crate::harness::Res::Ok(_) => "parse ok",
                crate::harness::Res::Err(_) => "parse error",
                crate::harness::Res::Fix(_) => "parse fixed",
            },
            Obs::Many(v) => v
                .iter()
                .rev()
                .find_map(|x| match &x.1 {
                    o @ Obs::Parse(_) => Some(k(o)),
                    _ => None,
                })
                .unwrap_or("returned"),
            _ => "returned",
        }
    }
    match o {
        Outcome::Panic(_) => "panicked",
        Outcome::Endless => "endless",
        Outcome::Done(o) => k(o),
    }
}

pub fn explore(sk: &Skel, o: &Opts) -> Report {
    let t0 = Instant::now();
    let mut rep = Report::default();
    engine::SEED.store(o.seed, std::sync::atomic::Ordering::Relaxed);
    let lg = Lg::new(&sk.names, sk.closure(), o.timeout_ms);
    if sk.named.len() > 1 {
        lg.z.assert(lg.z.distinct(&sk.named.iter().map(|v| lg.vars[*v as usize]).collect::<Vec<_>>()));
    }
    for (a, b, e) in &sk.base {
        if !(sk.named.contains(a) && sk.named.contains(b)) {
            let x = lg.eq_ast(*a, *b);
            lg.z.assert(if *e { x } else { lg.z.not(x) });
        }
    }
    for (v, d) in &sk.domains {
        let l: Vec<B> = d.iter().map(|x| lg.eq(*v, *x)).collect();
        lg.assert(lg.or(&l));
    }
    let mut c = Circ::new(&lg, sk);
    let f = &sk.flags;
    if !f.any_grammar {
        lg.assert(c.well_formed());
    }
    if f.no_leftrec {
        let b = c.left_recursive();
        lg.assert(lg.not(b));
    }
    if f.given {
        lg.assert(c.given_ok());
    }
    if f.end_marked {
        lg.assert(c.end_marked());
    }
    if f.ll1 || f.conflict {
        c.build_follow();
        let b = c.ll1();
        if f.ll1 {
            lg.assert(b);
        }
        if f.conflict {
            lg.assert(lg.not(b));
        }
    }
    if f.reachable {
        lg.assert(c.reachable_all());
    }
    if f.productive {
        lg.assert(c.productive_all());
    }
    lg.z.phase.set(1);
    prepare(&o.prop, &mut c);
    lg.z.phase.set(2);
    lg.frozen.set(true);
    rep.defs = lg.defs.get();
    let fin = |mut rep: Report| {
        rep.queries = lg.z.queries.get();
        rep.nanos = lg.z.nanos.get();
        rep
    };
    match lg.z.check() {
        Res::Sat => {}
        Res::Unsat => {
            rep.vacuous = true;
            rep.done = true;
            return fin(rep);
        }
        Res::Unknown => {
            rep.unknown += 1;
            return fin(rep);
        }
    }
    let inp = input(sk);
    let mut values = lg.z.classes(&lg.vars, false);
    let mut trail: Vec<(Var, Var, bool, bool)> = vec![];
    let cur = o.current.as_ref().map(|p| std::path::PathBuf::from(p));
    loop {
        if let Some(p) = &cur {
            let _ = std::fs::write(p, concrete(&o.prop, o.seed, sk, &values));
        }
        // a path that uses up its budget gets a much larger one before it counts as not returning
        let mut run = run_path(&o.prop, sk, &inp, &values, sk.budget);
        if matches!(&run, Ok(Done { out: Outcome::Endless, .. })) {
            run = run_path(&o.prop, sk, &inp, &values, sk.budget * 20);
        }
        let d = match run {
            Ok(d) => d,
            Err(e) => {
                if e == "hang" {
                    rep.viol.push(("does not return".into(), concrete(&o.prop, o.seed, sk, &values)));
                }
                rep.error = Some(e);
                return fin(rep);
            }
        };
        rep.paths += 1;
        rep.eq_calls += d.ctx.calls;
        rep.lex_calls += d.ctx.lex_calls;
        *rep.kinds.entry(kind(&d.out)).or_insert(0) += 1;
        let mut j = J { lg: &lg, c: &c, sk, cl: d.ctx.closure.clone(), values: &values, extra: vec![], fit: false };
        let b = j.judge(&o.prop, &d.out);
        let mut dec = d.ctx.decisions;
        dec.extend(j.extra);
        if dec.len() < trail.len()
            || dec.iter().zip(&trail).any(|(x, y)| x.0 != y.0 || x.1 != y.1 || x.2 != y.2)
        {
            rep.viol.push(("the same decisions led to another path".into(), concrete(&o.prop, o.seed, sk, &values)));
            rep.error = Some("the same decisions led to another path".into());
            return fin(rep);
        }
        for x in &dec[trail.len()..] {
            lg.z.push();
            let e = lg.eq_ast(x.0, x.1);
            lg.z.assert(if x.2 { e } else { lg.z.not(e) });
            rep.decisions += 1;
            trail.push((x.0, x.1, x.2, false));
        }
        if rep.paths % o.sample_every == 1 % o.sample_every && rep.samples.len() < o.max_samples {
            rep.samples.push(concrete(&o.prop, o.seed, sk, &values));
        }
        match lg.not(b) {
            B::F => rep.folded += 1,
            nb => {
                let mut q: Vec<_> = trail
                    .iter()
                    .map(|(a, b, v, _)| {
                        let e = lg.eq_ast(*a, *b);
                        if *v {
                            e
                        } else {
                            lg.z.not(e)
                        }
                    })
                    .collect();
                q.push(match nb {
                    B::A(x) => x,
                    _ => lg.z.tru(),
                });
                let answer = lg.z.ask(&q);
                if rep.smt.len() < o.dump_smt && rep.paths % 7 == 1 {
                    rep.smt.push(lg.z.dump());
                }
                rep.prop_queries += 1;
                match answer {
                    Res::Unsat => {}
                    Res::Unknown => rep.unknown += 1,
                    Res::Sat => {
                        let m = lg.z.classes(&lg.vars, true);
                        let why = match &d.out {
                            Outcome::Panic(m) => format!("panic: {m}"),
                            Outcome::Endless => "does not return".to_string(),
                            Outcome::Done(_) => "the assertion fails".to_string(),
                        };
                        rep.viol.push((why, concrete(&o.prop, o.seed, sk, &m)));
                    }
                }
                lg.z.done();
            }
        }
        if rep.viol.len() >= o.max_viol {
            return fin(rep);
        }
        // backtrack
        loop {
            match trail.pop() {
                None => {
                    rep.done = true;
                    return fin(rep);
                }
                Some((a, b, v, flipped)) => {
                    lg.z.pop(1);
                    if flipped {
                        continue;
                    }
                    lg.z.push();
                    let e = lg.eq_ast(a, b);
                    lg.z.assert(if v { lg.z.not(e) } else { e });
                    match lg.z.check() {
                        Res::Sat => {
                            values = lg.z.classes(&lg.vars, false);
                            trail.push((a, b, !v, true));
                            break;
                        }
                        Res::Unsat => {
                            rep.infeasible += 1;
                            lg.z.pop(1);
                        }
                        Res::Unknown => {
                            rep.unknown += 1;
                            lg.z.pop(1);
                        }
                    }
                }
            }
        }
        if t0.elapsed().as_millis() as u64 > o.max_ms {
            return fin(rep);
        }
    }
}
