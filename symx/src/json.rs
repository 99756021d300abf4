//! Observations over plain symbols as JSON (read by the replay oracle).
use crate::harness::*;
use std::fmt::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub trait Num: Copy {
    fn n(self) -> u32;
}
fn list<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}
fn nums<T: Num>(v: &[T]) -> String {
    list(v, |x| x.n().to_string())
}
fn lex(l: Option<u32>) -> String {
    match l {
        Some(n) => n.to_string(),
        None => "null".into(),
    }
}
fn tree<T: Num>(t: &Tree<T>) -> String {
    format!("[{},{},{}]", t.sym.n(), lex(t.lex), list(&t.kids, tree))
}
fn fail<T: Num>(f: &FailSym<T>) -> String {
    format!("[{},{}]", f.sym.n(), list(&f.prods, fail_prod))
}
fn fail_prod<T: Num>(f: &FailProd<T>) -> String {
    format!(
        "[{},{},{}]",
        list(&f.parsed, |p| match p {
            Parsed::Ok(t) => format!("[\"ok\",{}]", tree(t)),
            Parsed::Fix(f) => format!("[\"fix\",{}]", fix(f)),
        }),
        fail(&f.failed),
        nums(&f.pending)
    )
}
fn fix<T: Num>(f: &FixSym<T>) -> String {
    format!(
        "[{},{}]",
        f.sym.n(),
        list(&f.parts, |p| match p {
            FixPart::Ok(t) => format!("[\"ok\",{}]", tree(t)),
            FixPart::Fixed(f) => format!("[\"fix\",{}]", fix(f)),
            FixPart::Gap(l, s) => format!("[\"gap\",{},{}]", list(l, |x| x.to_string()), nums(s)),
        })
    )
}
fn prods<T: Num>(v: &[(T, Vec<T>)]) -> String {
    list(v, |p| format!("[{},{}]", p.0.n(), nums(&p.1)))
}
fn set<T: Num>(s: &SetObs<T>) -> String {
    list(&s.q, |(x, l)| {
        format!("[{},{}]", x.n(), l.as_ref().map(|l| nums(l)).unwrap_or("null".into()))
    })
}
pub fn obs<T: Num>(o: &Obs<T>) -> String {
    match o {
        Obs::Panic(s) => format!("{{\"panic\":{}}}", esc(s)),
        Obs::Unit => "{\"unit\":true}".into(),
        Obs::Grammar(g) => format!(
            "{{\"grammar\":{{\"nts\":{},\"ts\":{},\"eps\":{},\"init\":{},\"q\":{}}}}}",
            nums(&g.nts),
            nums(&g.ts),
            g.eps[0].n(),
            g.init[0].n(),
            list(&g.q, |(x, a, b, p)| format!(
                "[{},{a},{b},{}]",
                x.n(),
                p.as_ref().map(|p| prods(p)).unwrap_or("null".into())
            ))
        ),
        Obs::First(s) => format!("{{\"first\":{}}}", set(s)),
        Obs::Follow(s) => format!("{{\"follow\":{}}}", set(s)),
        Obs::Table(t) => {
            format!("{{\"table\":{}}}", list(&t.q, |(x, y, p)| format!("[{},{},{}]", x.n(), y.n(), prods(p))))
        }
        Obs::Parse(p) => format!(
            "{{\"parse\":{{\"res\":{},\"calls\":{}}}}}",
            match &p.res {
                Res::Ok(t) => format!("[\"ok\",{}]", tree(t)),
                Res::Err(f) => format!("[\"err\",{}]", fail(f)),
                Res::Fix(f) => format!("[\"fix\",{}]", fix(f)),
            },
            list(&p.calls, |c| format!(
                "{{\"single\":{},\"tokens\":{},\"pos\":{},\"failed\":{},\"answer\":{}}}",
                c.single,
                list(&c.tokens, |(t, l)| format!("[{},{}]", t.n(), lex(*l))),
                c.pos,
                list(&c.failed, fail_prod),
                c.answer.map(|a| a.to_string()).unwrap_or("null".into())
            ))
        ),
        Obs::Token(t, c) => format!(
            "{{\"token\":{{\"cmp\":{},\"clones\":{}}}}}",
            list(&t.cmp, |(a, b, e, n)| format!("[{a},{b},{e},{n}]")),
            list(c, |(a, l, b, m)| format!("[{},{},{},{}]", a.n(), lex(*l), b.n(), lex(*m)))
        ),
        Obs::Many(v) => format!("{{\"many\":{}}}", list(v, |(n, o)| format!("[{},{}]", esc(n), obs(o)))),
    }
}
