mod circ;
mod engine;
mod explore;
mod harness;
mod json;
mod judge;
mod logic;
mod skel;
mod z3ffi;

use harness::{observe, Input, Obs, SymT};
use json::{esc, Num};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};

impl Num for u32 {
    fn n(self) -> u32 {
        self
    }
}
/// a plain symbol whose hashes all collide, as those of the symbolic ones do
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Flat(u32);
impl Hash for Flat {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
/// a plain symbol that hashes as the symbolic ones of the same run did (engine::Sym)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Marked(u32);
static MARKERS: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(vec![]);
impl Hash for Marked {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let m = MARKERS.lock().unwrap();
        h.write_u8(m.iter().enumerate().fold(0, |v, (k, x)| v | (((*x == self.0) as u8) << k)))
    }
}
impl Num for Marked {
    fn n(self) -> u32 {
        self.0
    }
}
fn run_native(text: String, seed: u64, kind: &str) -> String {
    match kind {
        "flat" => native(text, seed, Flat),
        "marked" => {
            let l = text.lines().find_map(|l| l.strip_prefix("hashm")).unwrap_or("");
            *MARKERS.lock().unwrap() = l.split_whitespace().map(|x| x.parse().expect("number")).collect();
            native(text, seed, Marked)
        }
        _ => native(text, seed, |x: u32| x),
    }
}
impl Num for Flat {
    fn n(self) -> u32 {
        self.0
    }
}

fn read_input<T: SymT>(text: &str, mk: impl Fn(u32) -> T) -> (String, Input<T>) {
    let z = mk(0);
    let mut prop = String::new();
    let mut i = Input {
        eps: z,
        init: z,
        prods: vec![],
        tokens: vec![],
        lex: vec![],
        lex2: vec![],
        probes: vec![],
        before: vec![],
        choices: vec![],
        consts: vec![],
        often: 0,
        gfirst: vec![],
        gfollow: vec![],
        regrouped: vec![],
        shuffled: vec![],
    };
    let nums = |s: &str| s.split_whitespace().map(|x| x.parse::<u32>().expect("number")).collect::<Vec<_>>();
    for line in text.lines() {
        let (k, v) = line.split_once(' ').unwrap_or((line, ""));
        let l = || nums(v).into_iter().map(&mk).collect::<Vec<T>>();
        match k {
            "prop" => prop = v.to_string(),
            "eps" => i.eps = l()[0],
            "init" => i.init = l()[0],
            "prod" => {
                let (a, b) = v.split_once(':').expect("production");
                i.prods.push((mk(nums(a)[0]), nums(b).into_iter().map(&mk).collect()))
            }
            "tokens" => i.tokens = l(),
            "lex" => i.lex = l(),
            "lex2" => i.lex2 = l(),
            "probes" => i.probes = l(),
            "before" => i.before = l(),
            "choices" => i.choices = l(),
            "consts" => i.consts = l(),
            "often" => i.often = nums(v)[0] as usize,
            "gfirst" => i.gfirst = l().chunks(2).map(|p| (p[0], p[1])).collect(),
            "gfollow" => i.gfollow = l().chunks(2).map(|p| (p[0], p[1])).collect(),
            "regrouped" => i.regrouped = nums(v).into_iter().map(|x| x as usize).collect(),
            "shuffled" => i.shuffled = nums(v).into_iter().map(|x| x as usize).collect(),
            _ => {}
        }
    }
    (prop, i)
}

fn native<T: SymT + Num + Send>(text: String, seed: u64, mk: fn(u32) -> T) -> String {
    engine::SEED.store(seed, std::sync::atomic::Ordering::Relaxed);
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let (prop, i) = read_input(&text, mk);
            let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observe(&prop, &i))) {
                Ok(o) => o,
                Err(e) => Obs::Panic(
                    e.downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default(),
                ),
            };
            json::obs(&o)
        })
        .expect("thread")
        .join()
        .expect("replay thread")
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        // RLIMIT_AS: an endless allocation ends this process, not the sandbox
        setrlimit(9, &[6 << 30, 6 << 30]);
        setrlimit(4, &[0, 0]);
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("version") => println!("z3 {}", z3ffi::version()),
        // native FILE SEED KIND: run the observation of a concrete input with ordinary symbols
        Some("native") => {
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let seed: u64 = a[3].parse().expect("seed");
            let s = run_native(text, seed, &a[4]);
            println!("{s}");
        }
        // batch KIND: inputs on stdin, separated by lines "end"
        Some("batch") => {
            let mut cur = String::new();
            let mut seed = 1;
            for line in std::io::stdin().lock().lines() {
                let line = line.expect("stdin");
                if line == "end" {
                    let t = std::mem::take(&mut cur);
                    let s = run_native(t, seed, &a[2]);
                    println!("{s}");
                    std::io::stdout().flush().unwrap();
                } else {
                    if let Some(n) = line.strip_prefix("seed ") {
                        seed = n.parse().expect("seed");
                    }
                    cur.push_str(&line);
                    cur.push('\n');
                }
            }
        }
        // worker CURRENTFILE: tasks on stdin, one report per line
        Some("worker") => {
            for line in std::io::stdin().lock().lines() {
                let line = line.expect("stdin");
                let f: Vec<&str> = line.split('\t').collect();
                let num = |k: usize| f[k].parse::<u64>().expect("number");
                let sk = skel::Skel::parse(f[4], f[5], skel::Flags::parse(f[3]));
                let o = explore::Opts {
                    prop: f[1].to_string(),
                    seed: num(2),
                    max_ms: num(6),
                    sample_every: num(7).max(1),
                    max_samples: num(8) as usize,
                    max_viol: num(9) as usize,
                    dump_smt: num(10) as usize,
                    timeout_ms: num(11) as u32,
                    current: a.get(2).cloned(),
                };
                let t = std::time::Instant::now();
                let r = explore::explore(&sk, &o);
                println!(
                    "{{\"id\":{},\"paths\":{},\"decisions\":{},\"infeasible\":{},\"folded\":{},\"prop_queries\":{},\"queries\":{},\"z3_ms\":{},\"ms\":{},\"unknown\":{},\"defs\":{},\"eq_calls\":{},\"lex_calls\":{},\"done\":{},\"vacuous\":{},\"kinds\":{{{}}},\"viol\":[{}],\"samples\":{},\"smt\":{},\"error\":{}}}",
                    f[0], r.paths, r.decisions, r.infeasible, r.folded, r.prop_queries, r.queries, r.nanos / 1_000_000,
                    t.elapsed().as_millis(), r.unknown, r.defs, r.eq_calls, r.lex_calls, r.done, r.vacuous,
                    r.kinds.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
                    r.viol.iter().map(|(w, t)| format!("[{},{}]", esc(w), esc(t))).collect::<Vec<_>>().join(","),
                    strs(&r.samples), strs(&r.smt),
                    r.error.as_ref().map(|e| esc(e)).unwrap_or("null".into())
                );
                std::io::stdout().flush().unwrap();
            }
        }
        _ => {
            eprintln!("usage: symx worker CURRENT | native FILE SEED KIND | batch KIND | version");
            std::process::exit(3);
        }
    }
}
