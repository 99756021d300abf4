//! The symbolic executor: `Sym` is a symbolic value of an uninterpreted sort; `==` on it is a branch.
use std::cell::RefCell;
use std::hash::{Hash, Hasher};

pub type Var = u32;

/// What the checked code may do with a symbol is exactly what its generic bounds allow: clone, compare, hash.
/// Without hash markers every symbol hashes alike, so every map lookup is decided by `==` (a legal, worst-case Hash
/// implementation). With markers m0, m1, ... (symbolic symbols themselves) the hash of x is which of them x equals:
/// a symbolic hash function, so which symbols share a hash is decided by the solver too.
#[derive(Clone, Copy)]
pub struct Sym(pub Var);

impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.0)
    }
}
impl Hash for Sym {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let n = CTX.with(|x| x.borrow().as_ref().map_or(0, |c| c.hashm.len()));
        let mut v = 0u8;
        for k in 0..n {
            let m = CTX.with(|x| x.borrow().as_ref().unwrap().hashm[k]);
            v |= (branch(self.0, m) as u8) << k;
        }
        h.write_u8(v)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        branch(self.0, o.0)
    }
}
impl Eq for Sym {}

/// Equalities and disequalities known on a path, closed under the theory of equality.
#[derive(Clone)]
pub struct Closure {
    pub rep: Vec<u32>,
    members: Vec<Vec<u32>>,
    ne: Vec<Vec<bool>>, // between representatives
}
impl Closure {
    pub fn new(n: usize) -> Closure {
        Closure {
            rep: (0..n as u32).collect(),
            members: (0..n as u32).map(|i| vec![i]).collect(),
            ne: vec![vec![false; n]; n],
        }
    }
    pub fn known(&self, a: Var, b: Var) -> Option<bool> {
        let (x, y) = (self.rep[a as usize], self.rep[b as usize]);
        if x == y {
            Some(true)
        } else if self.ne[x as usize][y as usize] {
            Some(false)
        } else {
            None
        }
    }
    pub fn assume(&mut self, a: Var, b: Var, eq: bool) {
        let (x, y) = (self.rep[a as usize] as usize, self.rep[b as usize] as usize);
        if eq {
            if x == y {
                return;
            }
            assert!(!self.ne[x][y], "inconsistent assumption");
            let ms = std::mem::take(&mut self.members[y]);
            for m in &ms {
                self.rep[*m as usize] = x as u32;
            }
            self.members[x].extend(ms);
            for z in 0..self.ne.len() {
                if self.ne[y][z] {
                    self.ne[x][z] = true;
                    self.ne[z][x] = true;
                }
            }
        } else {
            assert!(x != y, "inconsistent assumption");
            self.ne[x][y] = true;
            self.ne[y][x] = true;
        }
    }
}

pub struct PathCtx {
    pub values: Vec<u32>,
    pub closure: Closure,
    pub decisions: Vec<(Var, Var, bool)>,
    pub calls: u64,
    pub budget: u64,
    /// first variable number of the lexeme variables: comparing one of them is counted
    pub lex_from: Var,
    pub lex_calls: u64,
    /// the hash markers
    pub hashm: Vec<Var>,
}

pub struct BudgetExceeded;

thread_local! {
    static CTX: RefCell<Option<Box<PathCtx>>> = const { RefCell::new(None) };
}

pub fn install(c: Box<PathCtx>) {
    CTX.with(|x| *x.borrow_mut() = Some(c))
}
pub fn uninstall() -> Box<PathCtx> {
    CTX.with(|x| x.borrow_mut().take().expect("no path context"))
}

fn branch(a: Var, b: Var) -> bool {
    let r = CTX.with(|x| {
        let mut g = x.borrow_mut();
        let c = g.as_mut().expect("symbolic comparison outside a path");
        c.calls += 1;
        if c.calls > c.budget {
            return None;
        }
        if a >= c.lex_from || b >= c.lex_from {
            c.lex_calls += 1;
        }
        if a == b {
            return Some(true);
        }
        if let Some(k) = c.closure.known(a, b) {
            return Some(k);
        }
        let v = c.values[a as usize] == c.values[b as usize];
        let (p, q) = if a < b { (a, b) } else { (b, a) };
        c.decisions.push((p, q, v));
        c.closure.assume(a, b, v);
        Some(v)
    });
    match r {
        Some(v) => v,
        None => std::panic::panic_any(BudgetExceeded),
    }
}

/// std takes the seed of its hash maps from this function; a fixed seed (and a fresh thread per path) makes the
/// iteration order of hash collections reproducible. The seed is an input of the run.
pub static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = SEED.load(std::sync::atomic::Ordering::Relaxed);
    for i in 0..len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (s >> 33) as u8;
    }
    len as isize
}
