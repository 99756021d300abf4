//! Drives the public API of the crate under test. Generic over the symbol type: instantiated with `Sym` it runs
//! symbolically, with `u32` natively (replay). Nothing here judges anything.
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

pub trait SymT: Copy + Clone + Eq + Hash + Debug + 'static {}
impl<X: Copy + Clone + Eq + Hash + Debug + 'static> SymT for X {}

/// A lexeme: `id` identifies it (never visible to the code under test), `v` is its value (what `==` and `hash` see).
#[derive(Clone, Copy)]
pub struct Lex<T> {
    pub id: u32,
    pub v: T,
}
impl<T: SymT> PartialEq for Lex<T> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<T: SymT> Eq for Lex<T> {}
impl<T: SymT> Hash for Lex<T> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
impl<T: SymT> Debug for Lex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "L{}", self.id)
    }
}

/// The input of a run, over symbol type T.
#[derive(Clone, Debug)]
pub struct Input<T> {
    pub eps: T,
    pub init: T,
    pub prods: Vec<(T, Vec<T>)>,
    pub tokens: Vec<T>,
    pub lex: Vec<T>,
    pub lex2: Vec<T>,
    pub probes: Vec<T>,
    pub before: Vec<T>,
    pub choices: Vec<T>,
    pub consts: Vec<T>,
    /// how often one parser parses the input before its result is looked at (C15)
    pub often: usize,
    /// supplied sets: (x, y) puts y into the set of x
    pub gfirst: Vec<(T, T)>,
    pub gfollow: Vec<(T, T)>,
    pub regrouped: Vec<usize>,
    pub shuffled: Vec<usize>,
}

/// Whether token i of a run carries a lexeme (both kinds occur in every run of two or more tokens).
pub fn has_lex(i: usize, variant: u32) -> bool {
    match variant {
        0 => i % 3 != 1,
        _ => i % 3 == 1,
    }
}

pub type Tok<T> = Token<Lex<T>, T>;
pub type Lx<T> = Lex<T>;

#[derive(Clone, Debug)]
pub struct Tree<T> {
    pub sym: T,
    pub lex: Option<u32>,
    pub kids: Vec<Tree<T>>,
}
#[derive(Clone, Debug)]
pub struct FailSym<T> {
    pub sym: T,
    pub prods: Vec<FailProd<T>>,
}
#[derive(Clone, Debug)]
pub struct FailProd<T> {
    pub failed: FailSym<T>,
    pub parsed: Vec<Parsed<T>>,
    pub pending: Vec<T>,
}
#[derive(Clone, Debug)]
pub enum Parsed<T> {
    Ok(Tree<T>),
    Fix(FixSym<T>),
}
#[derive(Clone, Debug)]
pub struct FixSym<T> {
    pub sym: T,
    pub parts: Vec<FixPart<T>>,
}
#[derive(Clone, Debug)]
pub enum FixPart<T> {
    Ok(Tree<T>),
    Fixed(FixSym<T>),
    Gap(Vec<u32>, Vec<T>),
}
#[derive(Clone, Debug)]
pub enum Res<T> {
    Ok(Tree<T>),
    Err(FailSym<T>),
    Fix(FixSym<T>),
}
#[derive(Clone, Debug)]
pub struct Call<T> {
    pub single: bool,
    pub tokens: Vec<(T, Option<u32>)>,
    pub pos: usize,
    pub failed: Vec<FailProd<T>>,
    /// Some(resume position) if the solver answered
    pub answer: Option<usize>,
}

fn tree<T: SymT>(n: &AbstractSyntaxNode<Tok<T>>) -> Tree<T> {
    Tree {
        sym: n.token.t_type,
        lex: n.token.lex.as_ref().map(|l| l.id),
        kids: n.child_nodes.iter().map(tree).collect(),
    }
}
fn fail_sym<T: SymT>(f: &FailedSymbol<Lx<T>, T>) -> FailSym<T> {
    FailSym { sym: f.symbol_to_derive, prods: f.failed_productions.iter().map(fail_prod).collect() }
}
fn fail_prod<T: SymT>(f: &FailedProduction<Lx<T>, T>) -> FailProd<T> {
    FailProd {
        failed: fail_sym(&f.failed_symbol),
        parsed: f
            .parsed_symbols
            .iter()
            .map(|p| match p {
                ProductionParsedSymbol::Ok(n) => Parsed::Ok(tree(n)),
                ProductionParsedSymbol::Fix(s) => Parsed::Fix(fix_sym(s)),
            })
            .collect(),
        pending: f.pending_symbols.clone(),
    }
}
fn fix_sym<T: SymT>(f: &FixedSymbol<Lx<T>, T>) -> FixSym<T> {
    FixSym {
        sym: f.symbol_to_derive,
        parts: f
            .fixed_production
            .fixed_parts
            .iter()
            .map(|p| match p {
                FixedProductionPart::Ok(n) => FixPart::Ok(tree(n)),
                FixedProductionPart::Fixed(s) => FixPart::Fixed(fix_sym(s)),
                FixedProductionPart::Gap(g) => {
                    FixPart::Gap(g.skipped_tokens.iter().map(|l| l.id).collect(), g.skipped_symbols.clone())
                }
            })
            .collect(),
    }
}
fn result<T: SymT>(r: ParseResult<Lx<T>, T>) -> Res<T> {
    match r {
        ParseResult::Ok(t) => Res::Ok(tree(&t.root)),
        ParseResult::Err(f) => Res::Err(fail_sym(&f)),
        ParseResult::Fix(f) => Res::Fix(fix_sym(&f)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SolverMode {
    Decline,
    /// answers come from the input's choice symbols (one per call, then declines): k0 declines, k(j) resumes at
    /// `resume_at(j, ..)`
    Scripted,
    /// the same for a question that is new (where it stands and what it is made of), and the answer it had before to one
    /// that is not; every fix moves forward
    Consistent,
    /// accepts every request, resuming one token after the symbol's start
    Eager,
}

/// The j-th resume position a scripted solver may choose: one token on, in place, two tokens on, back at the start of
/// the input, and far past its end (from an even position: as far as there is).
pub fn resume_at(j: usize, pos: usize, len: usize) -> usize {
    match j {
        1 => pos.saturating_add(1),
        2 => pos,
        3 => pos.saturating_add(2),
        4 => 0,
        _ if pos % 2 == 0 => usize::MAX,
        _ => len + 7,
    }
}

pub struct Stub<T> {
    mode: SolverMode,
    choices: Vec<T>,
    consts: Vec<T>,
    log: Rc<RefCell<Vec<Call<T>>>>,
    asked: RefCell<Vec<(String, Option<usize>)>>,
}

/// What a question is made of, apart from its symbols.
fn outline<T>(failed: &[FailProd<T>]) -> String {
    failed.iter().map(|f| format!("{}({}){};", f.parsed.len(), outline(&f.failed.prods), f.pending.len())).collect()
}

impl<T: SymT> Stub<T> {
    fn scripted(&self, n: usize, pos: usize, len: usize) -> Option<usize> {
        let c = self.choices.get(n)?;
        (1..self.consts.len()).find(|j| *c == self.consts[*j]).map(|j| resume_at(j, pos, len))
    }
    fn consistent(&self, question: String, pos: usize, len: usize) -> Option<usize> {
        let known = self.asked.borrow().iter().find(|q| q.0 == question).map(|q| q.1);
        known.unwrap_or_else(|| {
            let a = self.scripted(self.asked.borrow().len(), pos, len).filter(|p| *p > pos);
            self.asked.borrow_mut().push((question, a));
            a
        })
    }
    fn call(
        &self,
        single: bool,
        tokens: &Vec<Tok<T>>,
        pos: usize,
        failed: Vec<FailProd<T>>,
    ) -> Option<FixResult<Lx<T>, T>> {
        let n = self.log.borrow().len();
        let answer = match self.mode {
            SolverMode::Decline => None,
            SolverMode::Eager => Some(pos.saturating_add(1)),
            SolverMode::Scripted => self.scripted(n, pos, tokens.len()),
            SolverMode::Consistent => self.consistent(format!("{single} {pos} {}", outline(&failed)), pos, tokens.len()),
        };
        self.log.borrow_mut().push(Call {
            single,
            tokens: tokens.iter().map(|t| (t.t_type, t.lex.as_ref().map(|l| l.id))).collect(),
            pos,
            failed,
            answer,
        });
        let v = self.consts.first().copied().unwrap_or(tokens[0].t_type);
        answer.map(|p| FixResult {
            final_token_position: p,
            production: FixedProduction::new(supplied(n, tokens[0].t_type).iter().map(|f| real_part(f, v)).collect()),
        })
    }
}

/// lexeme ids from here on are those of supplied parts
pub const SUPPLIED: u32 = 1_000_000;

/// The parts of the n-th answer: recognisable, and of every kind (gaps, a node, a nested fix, nothing at all).
pub fn supplied<T: Copy>(n: usize, t: T) -> Vec<FixPart<T>> {
    let id = SUPPLIED + n as u32;
    match n {
        1 => vec![],
        n if n % 3 == 0 => vec![FixPart::Gap(vec![id], vec![]), FixPart::Gap(vec![], vec![t])],
        n if n % 3 == 1 => vec![FixPart::Ok(Tree { sym: t, lex: Some(id), kids: vec![] }), FixPart::Gap(vec![], vec![])],
        _ => vec![FixPart::Gap(vec![], vec![t, t]), FixPart::Fixed(FixSym { sym: t, parts: vec![FixPart::Gap(vec![id], vec![t])] })],
    }
}
fn real_part<T: SymT>(p: &FixPart<T>, v: T) -> FixedProductionPart<Lx<T>, T> {
    match p {
        FixPart::Ok(t) => FixedProductionPart::Ok(AbstractSyntaxNode::new(vec![], Token::new(t.lex.map(|id| Lex { id, v }), t.sym))),
        FixPart::Fixed(f) => {
            FixedProductionPart::Fixed(FixedSymbol::new(FixedProduction::new(f.parts.iter().map(|p| real_part(p, v)).collect()), f.sym))
        }
        FixPart::Gap(l, s) => {
            FixedProductionPart::Gap(FixGap { skipped_tokens: l.iter().map(|id| Lex { id: *id, v }).collect(), skipped_symbols: s.clone() })
        }
    }
}
/// the answer these parts were supplied with, if they look like supplied ones
pub fn supplied_by<T>(p: &[FixPart<T>]) -> Option<usize> {
    let id = match p {
        [] => return Some(1),
        [FixPart::Gap(l, _), FixPart::Gap(..)] => *l.first()?,
        [FixPart::Ok(t), FixPart::Gap(..)] => t.lex?,
        [FixPart::Gap(..), FixPart::Fixed(f)] => match &f.parts[..] {
            [FixPart::Gap(l, _)] => *l.first()?,
            _ => return None,
        },
        _ => return None,
    };
    id.checked_sub(SUPPLIED).map(|n| n as usize)
}

impl<T: SymT> SyntaxErrorSolver<Lx<T>, T> for Stub<T> {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Tok<T>>,
        tokens_position: usize,
        failed_production: &FailedProduction<Lx<T>, T>,
    ) -> Option<FixResult<Lx<T>, T>> {
        self.call(true, tokens, tokens_position, vec![fail_prod(failed_production)])
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Tok<T>>,
        tokens_position: usize,
        failed_productions: &Vec<FailedProduction<Lx<T>, T>>,
    ) -> Option<FixResult<Lx<T>, T>> {
        self.call(false, tokens, tokens_position, failed_productions.iter().map(fail_prod).collect())
    }
}

pub fn grammar<T: SymT>(i: &Input<T>, order: Option<&[usize]>) -> ContextFreeGrammar<T> {
    let idx: Vec<usize> = match order {
        Some(o) => o.to_vec(),
        None => (0..i.prods.len()).collect(),
    };
    let ps = idx.iter().map(|k| ContextFreeGrammarProduction::new(i.prods[*k].0, i.prods[*k].1.clone())).collect();
    ContextFreeGrammar::new(i.eps, i.init, ps)
}

pub fn tokens<T: SymT>(ty: &[T], lex: &[T], variant: u32) -> Vec<Tok<T>> {
    ty.iter()
        .enumerate()
        .map(|(k, t)| {
            let l = if has_lex(k, variant) { Some(Lex { id: k as u32, v: lex[k] }) } else { None };
            Token::new(l, *t)
        })
        .collect()
}

/// one of each class of declared symbols, decided by `==` on the path
pub fn classes<T: SymT>(i: &Input<T>) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    let mut add = |x: T| {
        if !out.iter().any(|y| *y == x) {
            out.push(x)
        }
    };
    for p in &i.prods {
        add(p.0);
    }
    for p in &i.prods {
        for x in &p.1 {
            add(*x)
        }
    }
    add(i.eps);
    for x in &i.probes {
        add(*x)
    }
    out
}

/// The supplied sets: a terminal's FIRST set (and epsilon's) holds itself, everything else comes from the pairs.
pub fn given<T: SymT>(i: &Input<T>) -> FirstFollowSymbols<T> {
    let mut first: HashMap<T, HashSet<T>> = HashMap::new();
    let mut follow: HashMap<T, HashSet<T>> = HashMap::new();
    for x in classes(i) {
        if i.probes.contains(&x) {
            continue;
        }
        let e = first.entry(x).or_default();
        if i.prods.iter().any(|p| p.0 == x) {
            follow.entry(x).or_default();
        } else {
            e.insert(x);
        }
    }
    for (x, y) in &i.gfirst {
        first.entry(*x).or_default().insert(*y);
    }
    for (x, y) in &i.gfollow {
        follow.entry(*x).or_default().insert(*y);
    }
    FirstFollowSymbols::new(first, follow)
}

pub type Parser<'a, T> = RecursiveDescentParser<'a, Lx<T>, T, Stub<T>>;

#[derive(Clone, Debug, Default)]
pub struct GrammarObs<T> {
    pub nts: Vec<T>,
    pub ts: Vec<T>,
    pub eps: Vec<T>,
    pub init: Vec<T>,
    /// per queried symbol: is_non_terminal, is_terminal, productions
    pub q: Vec<(T, bool, bool, Option<Vec<(T, Vec<T>)>>)>,
}
#[derive(Clone, Debug)]
pub struct SetObs<T> {
    pub q: Vec<(T, Option<Vec<T>>)>,
}
#[derive(Clone, Debug)]
pub struct TableObs<T> {
    pub q: Vec<(T, T, Vec<(T, Vec<T>)>)>,
}
#[derive(Clone, Debug)]
pub struct ParseObs<T> {
    pub res: Res<T>,
    pub calls: Vec<Call<T>>,
}
#[derive(Clone, Debug)]
pub struct TokenObs {
    /// (left has lexeme, right has lexeme, ==, !=)
    pub cmp: Vec<(bool, bool, bool, bool)>,
}
#[derive(Clone, Debug)]
pub enum Obs<T> {
    /// a panic of the code under test, at the named stage
    Panic(String),
    Unit,
    Grammar(GrammarObs<T>),
    First(SetObs<T>),
    Follow(SetObs<T>),
    Table(TableObs<T>),
    Parse(ParseObs<T>),
    Token(TokenObs, Vec<(T, Option<u32>, T, Option<u32>)>),
    Many(Vec<(String, Obs<T>)>),
}

pub fn observe_grammar<T: SymT>(i: &Input<T>) -> Obs<T> {
    let g = grammar(i, None);
    let mut o = GrammarObs { nts: g.get_non_terminal_symbols(), ts: g.get_terminal_symbols(), eps: vec![*g.get_epsilon_symbol()], init: vec![*g.get_initial_symbol()], q: vec![] };
    for x in classes(i) {
        let ps = g.get_productions(&x).map(|v| v.iter().map(|p| (p.input, p.output.clone())).collect());
        o.q.push((x, g.is_non_terminal(&x), g.is_terminal(&x), ps));
    }
    Obs::Grammar(o)
}

pub fn first_obs<T: SymT>(ff: &FirstFollowSymbols<T>, xs: &[T]) -> Obs<T> {
    Obs::First(SetObs { q: xs.iter().map(|x| (*x, ff.get_first_symbols(x).map(|s| s.iter().copied().collect()))).collect() })
}
pub fn follow_obs<T: SymT>(ff: &FirstFollowSymbols<T>, xs: &[T]) -> Obs<T> {
    Obs::Follow(SetObs { q: xs.iter().map(|x| (*x, ff.get_follow_symbols(x).map(|s| s.iter().copied().collect()))).collect() })
}
pub fn table_obs<T: SymT>(tr: &RecursiveDescentParserTransitions<T>, xs: &[T]) -> Obs<T> {
    let mut q = vec![];
    for x in xs {
        for t in xs {
            let l = tr
                .get_productions(x, t)
                .map(|v| v.iter().map(|p| (p.input, p.output.clone())).collect())
                .unwrap_or(vec![]);
            q.push((*x, *t, l));
        }
    }
    Obs::Table(TableObs { q })
}

pub fn parse<T: SymT>(p: &Parser<T>, log: &Rc<RefCell<Vec<Call<T>>>>, toks: Vec<Tok<T>>) -> Obs<T> {
    log.borrow_mut().clear();
    let res = result(p.parse_from_tokens(toks.into_iter()));
    let calls = log.borrow().clone();
    Obs::Parse(ParseObs { res, calls })
}

/// Tokens from an iterator that tells less about its length than it could: nothing at all, a bound that is too low, or a
/// bound that is too high; the `NESTED` kind uses the parser while it is read. All are legal.
pub struct Odd<I> {
    it: I,
    left: usize,
    hint: usize,
}
impl<I: Iterator> Iterator for Odd<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.left = self.left.saturating_sub(1);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 => (self.left.min(1), Some(usize::MAX)),
            _ => (self.left / 2, Some(self.left + 3)),
        }
    }
}
pub const NESTED: usize = 3;
pub const HINTS: usize = 4;
pub fn parse_odd<T: SymT>(p: &Parser<T>, toks: Vec<Tok<T>>, hint: usize) -> Obs<T> {
    let left = toks.len();
    if hint == NESTED {
        // an iterator that parses something else with the same parser while it is read
        let other: Vec<Tok<T>> = toks.iter().rev().take(3).cloned().collect();
        let mut it = toks.into_iter();
        let mut n = 0;
        let nested = std::iter::from_fn(|| {
            n += 1;
            if n == 2 || n == left + 1 {
                parse(p, &nolog(), other.clone());
            }
            it.next()
        });
        return Obs::Parse(ParseObs { res: result(p.parse_from_tokens(nested)), calls: vec![] });
    }
    Obs::Parse(ParseObs { res: result(p.parse_from_tokens(Odd { it: toks.into_iter(), left, hint })), calls: vec![] })
}

pub fn plain_parser<'a, T: SymT>(g: &'a ContextFreeGrammar<T>) -> Parser<'a, T> {
    RecursiveDescentParser::from_grammar(g)
}
pub fn solver_parser<'a, T: SymT>(
    g: &'a ContextFreeGrammar<T>,
    i: &Input<T>,
    mode: SolverMode,
) -> (Parser<'a, T>, Rc<RefCell<Vec<Call<T>>>>) {
    let log = Rc::new(RefCell::new(vec![]));
    let s = Stub { mode, choices: i.choices.clone(), consts: i.consts.clone(), log: log.clone(), asked: Default::default() };
    (RecursiveDescentParser::from_grammar_and_solver(g, s), log)
}

pub fn nolog<T>() -> Rc<RefCell<Vec<Call<T>>>> {
    Rc::new(RefCell::new(vec![]))
}

/// Another input parsed first with the same parser, if the shape has one; its result is dropped.
fn earlier<T: SymT>(p: &Parser<T>, log: &Rc<RefCell<Vec<Call<T>>>>, i: &Input<T>) {
    if !i.before.is_empty() {
        let lex: Vec<T> = i.before.iter().map(|_| i.lex[0]).collect();
        parse(p, log, tokens(&i.before, &lex, 1));
    }
}

/// What each property's check observes of the code under test.
pub fn observe<T: SymT>(prop: &str, i: &Input<T>) -> Obs<T> {
    match prop {
        "C01" => {
            let _ = grammar(i, None);
            Obs::Unit
        }
        "C02" => observe_grammar(i),
        "C03" => first_obs(&FirstFollowSymbols::from(&grammar(i, None)), &classes(i)),
        "C04" => follow_obs(&FirstFollowSymbols::from(&grammar(i, None)), &classes(i)),
        "C05" => {
            let g = grammar(i, None);
            let ff = FirstFollowSymbols::from(&g);
            table_obs(&RecursiveDescentParserTransitions::from(&g, &ff), &classes(i))
        }
        "C06" | "C07" | "C08" | "C10" | "C11" => {
            let g = grammar(i, None);
            let p = plain_parser(&g);
            earlier(&p, &nolog(), i);
            parse(&p, &nolog(), tokens(&i.tokens, &i.lex, 0))
        }
        "C09" => {
            let g = grammar(i, None);
            let p = plain_parser(&g);
            earlier(&p, &nolog(), i);
            let mut out = vec![];
            // every truncation of the input
            for k in 1..=i.tokens.len() {
                parse(&p, &nolog(), tokens(&i.tokens[..k], &i.lex[..k], 0));
            }
            for h in 0..NESTED {
                parse_odd(&p, tokens(&i.tokens, &i.lex, 0), h);
            }
            let (q, log) = solver_parser(&g, i, SolverMode::Scripted);
            earlier(&q, &log, i);
            out.push(("scripted".into(), parse(&q, &log, tokens(&i.tokens, &i.lex, 0))));
            let (q, log) = solver_parser(&g, i, SolverMode::Consistent);
            out.push(("consistent".into(), parse(&q, &log, tokens(&i.tokens, &i.lex, 0))));
            let (q, log) = solver_parser(&g, i, SolverMode::Eager);
            out.push(("eager".into(), parse(&q, &log, tokens(&i.tokens, &i.lex, 0))));
            Obs::Many(out)
        }
        "C12" => {
            let g = grammar(i, None);
            let p = plain_parser(&g);
            let toks = || tokens(&i.tokens, &i.lex, 0);
            let plain = parse(&p, &nolog(), toks());
            let (q, log) = solver_parser(&g, i, SolverMode::Decline);
            earlier(&q, &log, i);
            let declined = parse(&q, &log, toks());
            let (q, log) = solver_parser(&g, i, SolverMode::Eager);
            earlier(&q, &log, i);
            let eager = parse(&q, &log, toks());
            Obs::Many(vec![("plain".into(), plain), ("declined".into(), declined), ("eager".into(), eager)])
        }
        "C13" | "C14" => {
            let g = grammar(i, None);
            let (q, log) = solver_parser(&g, i, SolverMode::Scripted);
            earlier(&q, &log, i);
            parse(&q, &log, tokens(&i.tokens, &i.lex, 0))
        }
        "C15" => {
            let toks = || tokens(&i.tokens, &i.lex, 0);
            let xs = classes(i);
            let mut out = vec![];
            let mut run = |name: &str, order: Option<&[usize]>| {
                let g = grammar(i, order);
                let ff = FirstFollowSymbols::from(&g);
                out.push((format!("{name} first"), first_obs(&ff, &xs)));
                out.push((format!("{name} follow"), follow_obs(&ff, &xs)));
                out.push((format!("{name} table"), table_obs(&RecursiveDescentParserTransitions::from(&g, &ff), &xs)));
                if !i.tokens.is_empty() {
                    let p: Parser<T> = RecursiveDescentParser::from_grammar_and_first_follow_symbols(&g, &ff);
                    out.push((format!("{name} parse"), parse(&p, &nolog(), toks())));
                }
            };
            run("as declared", None);
            run("again", None);
            run("regrouped", Some(&i.regrouped));
            run("shuffled", Some(&i.shuffled));
            if !i.tokens.is_empty() {
                let g = grammar(i, None);
                let p = plain_parser(&g);
                let first = parse(&p, &nolog(), toks());
                // other inputs in between
                let rev: Vec<T> = i.tokens.iter().rev().copied().collect();
                parse(&p, &nolog(), tokens(&rev, &i.lex, 0));
                parse(&p, &nolog(), tokens(&i.tokens[..1], &i.lex, 0));
                for _ in 0..3 + i.often {
                    parse(&p, &nolog(), toks());
                }
                let again = parse(&p, &nolog(), toks());
                for h in 0..HINTS {
                    out.push((format!("iterator {h} parse"), parse_odd(&p, toks(), h)));
                }
                let (q, log) = solver_parser(&g, i, SolverMode::Decline);
                if i.tokens.len() % 2 == 0 {
                    parse(&q, &log, tokens(&rev, &i.lex, 0));
                }
                for _ in 0..i.often {
                    parse(&q, &log, toks());
                }
                let declined = match parse(&q, &log, toks()) {
                    Obs::Parse(p) => Obs::Parse(ParseObs { res: p.res, calls: vec![] }),
                    o => o,
                };
                if !i.before.is_empty() {
                    // any other input first, with and without a solver
                    let lex: Vec<T> = i.before.iter().map(|_| i.lex[0]).collect();
                    let p = plain_parser(&g);
                    parse(&p, &nolog(), tokens(&i.before, &lex, 1));
                    out.push(("second parse".into(), parse(&p, &nolog(), toks())));
                    let (q, log) = solver_parser(&g, i, SolverMode::Decline);
                    parse(&q, &log, tokens(&i.before, &lex, 1));
                    let second = match parse(&q, &log, toks()) {
                        Obs::Parse(p) => Obs::Parse(ParseObs { res: p.res, calls: vec![] }),
                        o => o,
                    };
                    out.push(("second solver-constructor parse".into(), second));
                }
                out.push(("constructor parse".into(), first));
                out.push(("repeated parse".into(), again));
                out.push(("solver-constructor parse".into(), declined));
            }
            Obs::Many(out)
        }
        "C16" => {
            let mut o = TokenObs { cmp: vec![] };
            let mut clones = vec![];
            for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
                let mk = |h: bool, id: u32, k: usize| Token::new(if h { Some(Lex { id, v: i.lex[k] }) } else { None }, i.tokens[k]);
                let x = mk(a, 10, 0);
                let y = mk(b, 11, 1);
                o.cmp.push((a, b, x == y, x != y));
                for t in [&x, &y] {
                    let c = t.clone();
                    clones.push((t.t_type, t.lex.map(|l| l.id), c.t_type, c.lex.map(|l| l.id)));
                    let mut d = if a { x.clone() } else { y.clone() };
                    d.clone_from(t);
                    clones.push((t.t_type, t.lex.map(|l| l.id), d.t_type, d.lex.map(|l| l.id)));
                }
            }
            let mut out = vec![("tokens".to_string(), Obs::Token(o, clones))];
            if !i.prods.is_empty() {
                let g = grammar(i, None);
                let p = plain_parser(&g);
                out.push(("lex 1".into(), parse(&p, &nolog(), tokens(&i.tokens, &i.lex, 0))));
                out.push(("lex 2".into(), parse(&p, &nolog(), tokens(&i.tokens, &i.lex2, 1))));
                out.push(("lex 3".into(), parse(&p, &nolog(), tokens(&i.tokens, &i.lex2, 0))));
            }
            Obs::Many(out)
        }
        "C18" => {
            let g = grammar(i, None);
            let ff = given(i);
            let mut xs = classes(i);
            for (x, y) in i.gfirst.iter().chain(&i.gfollow) {
                for z in [x, y] {
                    if !xs.contains(z) {
                        xs.push(*z)
                    }
                }
            }
            let mut out = vec![
                ("first".to_string(), first_obs(&ff, &xs)),
                ("follow".to_string(), follow_obs(&ff, &xs)),
                ("table".to_string(), table_obs(&RecursiveDescentParserTransitions::from(&g, &ff), &xs)),
            ];
            if !i.tokens.is_empty() {
                let p: Parser<T> = RecursiveDescentParser::from_grammar_and_first_follow_symbols(&g, &ff);
                out.push(("parse".into(), parse(&p, &nolog(), tokens(&i.tokens, &i.lex, 0))));
            }
            Obs::Many(out)
        }
        "C17" => {
            let g = grammar(i, None);
            let ff = FirstFollowSymbols::from(&g);
            let tr = RecursiveDescentParserTransitions::from(&g, &ff);
            let xs = classes(i);
            first_obs(&ff, &xs);
            follow_obs(&ff, &xs);
            table_obs(&tr, &xs);
            let _p: Parser<T> = plain_parser(&g);
            let _q: Parser<T> = RecursiveDescentParser::from_grammar_and_first_follow_symbols(&g, &ff);
            let (_r, _log) = solver_parser(&g, i, SolverMode::Decline);
            Obs::Unit
        }
        _ => panic!("unknown property {prop}"),
    }
}
