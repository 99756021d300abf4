//! Boolean circuits over equalities of symbols. `B` folds constants; everything else is a z3 term.
use crate::engine::{Closure, Var};
use crate::z3ffi::{Ast, Z3};

#[derive(Clone, Copy, PartialEq)]
pub enum B {
    T,
    F,
    A(Ast),
}

pub struct Lg {
    pub z: Z3,
    pub vars: Vec<Ast>,
    pub base: Closure,
    cache: std::cell::RefCell<std::collections::HashMap<(Var, Var), Ast>>,
    pub defs: std::cell::Cell<u64>,
    pub frozen: std::cell::Cell<bool>,
}

impl Lg {
    pub fn new(names: &[String], base: Closure, timeout_ms: u32) -> Lg {
        let z = Z3::new(timeout_ms);
        let vars = names.iter().map(|n| z.constant(n)).collect();
        Lg { z, vars, base, cache: Default::default(), defs: Default::default(), frozen: Default::default() }
    }
    pub fn eq(&self, a: Var, b: Var) -> B {
        if a == b {
            return B::T;
        }
        match self.base.known(a, b) {
            Some(true) => B::T,
            Some(false) => B::F,
            None => B::A(self.eq_ast(a, b)),
        }
    }
    pub fn eq_ast(&self, a: Var, b: Var) -> Ast {
        let k = if a < b { (a, b) } else { (b, a) };
        *self
            .cache
            .borrow_mut()
            .entry(k)
            .or_insert_with(|| self.z.eq(self.vars[k.0 as usize], self.vars[k.1 as usize]))
    }
    pub fn not(&self, a: B) -> B {
        match a {
            B::T => B::F,
            B::F => B::T,
            B::A(x) => B::A(self.z.not(x)),
        }
    }
    pub fn and(&self, v: &[B]) -> B {
        let mut w = Vec::new();
        for b in v {
            match b {
                B::F => return B::F,
                B::T => {}
                B::A(x) => {
                    if !w.contains(x) {
                        w.push(*x)
                    }
                }
            }
        }
        match w.len() {
            0 => B::T,
            1 => B::A(w[0]),
            _ => B::A(self.z.and(&w)),
        }
    }
    pub fn or(&self, v: &[B]) -> B {
        let mut w = Vec::new();
        for b in v {
            match b {
                B::T => return B::T,
                B::F => {}
                B::A(x) => {
                    if !w.contains(x) {
                        w.push(*x)
                    }
                }
            }
        }
        match w.len() {
            0 => B::F,
            1 => B::A(w[0]),
            _ => B::A(self.z.or(&w)),
        }
    }
    pub fn iff(&self, a: B, b: B) -> B {
        match (a, b) {
            (B::T, x) | (x, B::T) => x,
            (B::F, x) | (x, B::F) => self.not(x),
            (B::A(x), B::A(y)) => {
                if x == y {
                    B::T
                } else {
                    B::A(self.z.iff(x, y))
                }
            }
        }
    }
    pub fn implies(&self, a: B, b: B) -> B {
        self.or(&[self.not(a), b])
    }
    pub fn iff_const(&self, a: B, c: bool) -> B {
        if c {
            a
        } else {
            self.not(a)
        }
    }
    /// Name a subcircuit. The name is asserted at the solver's base level, so only before exploration starts;
    /// afterwards (`frozen`) a subcircuit stays inline.
    pub fn def(&self, b: B) -> B {
        match b {
            B::A(x) => {
                if self.frozen.get() {
                    return b;
                }
                let n = self.z.fresh_bool();
                self.z.assert(self.z.iff(n, x));
                self.defs.set(self.defs.get() + 1);
                B::A(n)
            }
            c => c,
        }
    }
    pub fn assert(&self, b: B) {
        match b {
            B::T => {}
            B::F => self.z.assert(self.z.fls()),
            B::A(x) => self.z.assert(x),
        }
    }
}
