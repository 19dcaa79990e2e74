//! First-order descriptions of grammars and strategies, with generators.

use crate::engine::Src;
use crate::tok::*;
use std::fmt;

/// How a set of tokens is handed to a matcher.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CK {
    Vec,
    RefVec,
    Slice,
    Arr,
    RefArr,
    Single,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum UK {
    /// Any single token.
    Any,
    /// One given token; on failure reports position 0.
    Zero(C),
    /// Two tokens, by attempt(); reports the failing token.
    Two(C, C),
    /// Two tokens; reports the last token that was parsed successfully, or 0.
    Last(C, C),
    /// One token; recovers from any other token by itself.
    Recov(C),
    /// Succeeds without consuming if the next token is the given one.
    Peek(C),
    /// Consumes up to n tokens, returning what spans and locations it saw.
    Spans(u8),
    /// One token or the other through save/restore by hand.
    Manual(C, C),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TC {
    Never,
    Always,
    First(C),
    CountMod(u8, u8),
    Has(C),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TA {
    Err1,
    Err2,
    ErrExp(Option<C>),
    /// An expected-found error and another error, in either order.
    ErrExp2(Option<C>, bool),
    Recov,
    Recov2,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TM {
    pub cond: TC,
    pub act: TA,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum EM {
    Id,
    Nest(u8),
    Merge(Option<C>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rep {
    pub item: Box<G>,
    pub sep: Option<Box<G>>,
    pub min: usize,
    pub max: Option<usize>,
    pub lead: bool,
    pub trail: bool,
    pub style: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum G {
    Empty,
    NoneP,
    End,
    Just(C),
    Filter(u16),
    FilterMap(u16),
    Seq(Vec<C>, CK),
    OneOf(Vec<C>, CK),
    NoneOf(Vec<C>, CK),
    User(UK),
    To(Box<G>, u8),
    Ignored(Box<G>),
    SomeP(Box<G>),
    Map(Box<G>, u8),
    MapSpan(Box<G>),
    MapErr(Box<G>, EM),
    MapErrSpan(Box<G>, u8),
    TryMap(Box<G>, TM),
    Then(Box<G>, Box<G>),
    ThenIgnore(Box<G>, Box<G>),
    IgnoreThen(Box<G>, Box<G>),
    Delim(Box<G>, Box<G>, Box<G>),
    Padded(Box<G>, Box<G>),
    Chain(Vec<G>),
    Or(Box<G>, Box<G>),
    OrNot(Box<G>),
    Alters(Vec<G>),
    Rep(Rep),
    Recover(Box<G>, Strat),
    Boxed(Box<G>),
    WithErr(Box<G>),
    Rec(Box<G>, u8),
    Var(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Strat {
    pub steps: Vec<Step>,
    pub end: EndS,
    pub style: u8,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SK {
    Nested(Vec<(C, C)>),
    /// Scans at most n tokens, reporting those in the mask, stopping at the second mask.
    Count(u8, u16, u16),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Restart,
    SeekFailed,
    Skip,
    SkipIf(u16),
    Find(u16),
    Scan(SK),
    Maybe(Vec<Step>),
    WhileNot(u16, Vec<Step>),
    Retry(bool, bool),
    Try(Box<G>, bool, bool),
    Push(u8),
    PushHere(u8),
    PushUpTo(u8),
    PushTok(u8),
    Upd(u8),
    UpdHere(u8),
    UpdUpTo(u8),
    UpdTok(u8),
    Boxed,
    Nop,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum EndS {
    Return(u8),
    ReturnWith(u8),
    ReturnSpan(u8),
    Fail,
}

pub fn bit(mask: u16, c: C) -> bool {
    mask >> c & 1 == 1
}

/// Output trees.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tree {
    Unit,
    Tok(TK),
    Toks(Vec<C>),
    No,
    Val(u8),
    Some(Box<Tree>),
    Pair(Box<Tree>, Box<Tree>),
    List(Vec<Tree>),
    Tag(u8, Box<Tree>),
    Span(Sp, Box<Tree>),
    Note(String),
}
impl Tree {
    pub fn count(&self) -> usize {
        match self {
            Tree::Tok(_) => 1,
            Tree::Toks(v) => v.len(),
            Tree::Some(t) | Tree::Tag(_, t) | Tree::Span(_, t) => t.count(),
            Tree::Pair(a, b) => a.count() + b.count(),
            Tree::List(v) => v.iter().map(|t| t.count()).sum(),
            _ => 0,
        }
    }
    pub fn first(&self) -> Option<C> {
        match self {
            Tree::Tok(t) => Some(t.0),
            Tree::Toks(v) => v.first().copied(),
            Tree::Some(t) | Tree::Tag(_, t) | Tree::Span(_, t) => t.first(),
            Tree::Pair(a, b) => a.first().or_else(|| b.first()),
            Tree::List(v) => v.iter().find_map(|t| t.first()),
            _ => None,
        }
    }
    pub fn has(&self, c: C) -> bool {
        match self {
            Tree::Tok(t) => t.0 == c,
            Tree::Toks(v) => v.contains(&c),
            Tree::Some(t) | Tree::Tag(_, t) | Tree::Span(_, t) => t.has(c),
            Tree::Pair(a, b) => a.has(c) || b.has(c),
            Tree::List(v) => v.iter().any(|t| t.has(c)),
            _ => false,
        }
    }
}

/// User mapping functions, shared by the model and the real parser.
pub fn map_fn(k: u8, t: Tree) -> Tree {
    match k % 3 {
        0 => Tree::Tag(k, Box::new(t)),
        1 => Tree::List(vec![t, Tree::Val(k)]),
        _ => {
            let n = t.count();
            Tree::Pair(Box::new(Tree::Val(n as u8)), Box::new(t))
        }
    }
}
pub fn tm_cond(c: &TC, t: &Tree) -> bool {
    match c {
        TC::Never => false,
        TC::Always => true,
        TC::First(c) => t.first() == Some(*c),
        TC::CountMod(m, r) => t.count() % (*m as usize) == *r as usize,
        TC::Has(c) => t.has(*c),
    }
}

impl G {
    pub fn nodes(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a G)) {
        f(self);
        match self {
            G::To(a, _) | G::Ignored(a) | G::SomeP(a) | G::Map(a, _) | G::MapSpan(a) | G::MapErr(a, _)
            | G::MapErrSpan(a, _) | G::TryMap(a, _) | G::OrNot(a) | G::Boxed(a) | G::WithErr(a) | G::Rec(a, _) => a.visit(f),
            G::Then(a, b) | G::ThenIgnore(a, b) | G::IgnoreThen(a, b) | G::Padded(a, b) | G::Or(a, b) => {
                a.visit(f);
                b.visit(f)
            }
            G::Delim(a, b, c) => {
                a.visit(f);
                b.visit(f);
                c.visit(f)
            }
            G::Chain(v) | G::Alters(v) => v.iter().for_each(|g| g.visit(f)),
            G::Rep(r) => {
                r.item.visit(f);
                if let Some(s) = &r.sep {
                    s.visit(f)
                }
            }
            G::Recover(a, s) => {
                a.visit(f);
                visit_steps(&s.steps, f);
            }
            _ => {}
        }
    }
    pub fn has(&self, p: &dyn Fn(&G) -> bool) -> bool {
        let mut r = false;
        self.visit(&mut |g| r |= p(g));
        r
    }
    /// Whether the parser may succeed without consuming anything (conservative).
    pub fn nullable(&self) -> bool {
        match self {
            G::Empty | G::NoneP | G::End | G::OrNot(_) | G::Var(_) => true,
            G::Just(_) | G::Filter(_) | G::FilterMap(_) | G::OneOf(..) | G::NoneOf(..) => false,
            G::Seq(v, _) => v.is_empty(),
            G::User(u) => matches!(u, UK::Peek(_) | UK::Spans(_)),
            G::To(a, _) | G::Ignored(a) | G::SomeP(a) | G::Map(a, _) | G::MapSpan(a) | G::MapErr(a, _)
            | G::MapErrSpan(a, _) | G::TryMap(a, _) | G::Boxed(a) | G::WithErr(a) | G::Rec(a, _) | G::Recover(a, _) => a.nullable(),
            G::Then(a, b) | G::ThenIgnore(a, b) | G::IgnoreThen(a, b) | G::Padded(a, b) => a.nullable() && b.nullable(),
            G::Delim(a, b, c) => a.nullable() && b.nullable() && c.nullable(),
            G::Chain(v) => v.iter().all(|g| g.nullable()),
            G::Or(a, b) => a.nullable() || b.nullable(),
            G::Alters(v) => v.iter().any(|g| g.nullable()),
            G::Rep(r) => r.min == 0 || r.item.nullable(),
        }
    }
    /// The grammar without its recovery strategies.
    pub fn stripped(&self) -> G {
        let b = |g: &G| Box::new(g.stripped());
        match self {
            G::Recover(a, _) => a.stripped(),
            G::To(a, k) => G::To(b(a), *k),
            G::Ignored(a) => G::Ignored(b(a)),
            G::SomeP(a) => G::SomeP(b(a)),
            G::Map(a, k) => G::Map(b(a), *k),
            G::MapSpan(a) => G::MapSpan(b(a)),
            G::MapErr(a, k) => G::MapErr(b(a), k.clone()),
            G::MapErrSpan(a, k) => G::MapErrSpan(b(a), *k),
            G::TryMap(a, k) => G::TryMap(b(a), k.clone()),
            G::Then(x, y) => G::Then(b(x), b(y)),
            G::ThenIgnore(x, y) => G::ThenIgnore(b(x), b(y)),
            G::IgnoreThen(x, y) => G::IgnoreThen(b(x), b(y)),
            G::Delim(x, y, z) => G::Delim(b(x), b(y), b(z)),
            G::Padded(x, y) => G::Padded(b(x), b(y)),
            G::Chain(v) => G::Chain(v.iter().map(|g| g.stripped()).collect()),
            G::Or(x, y) => G::Or(b(x), b(y)),
            G::OrNot(a) => G::OrNot(b(a)),
            G::Alters(v) => G::Alters(v.iter().map(|g| g.stripped()).collect()),
            G::Rep(r) => G::Rep(Rep {
                item: b(&r.item),
                sep: r.sep.as_ref().map(|s| b(s)),
                ..r.clone()
            }),
            G::Boxed(a) => G::Boxed(b(a)),
            G::WithErr(a) => G::WithErr(b(a)),
            G::Rec(a, s) => G::Rec(b(a), *s),
            g => g.clone(),
        }
    }
}

fn visit_steps<'a>(steps: &'a [Step], f: &mut dyn FnMut(&'a G)) {
    for s in steps {
        match s {
            Step::Maybe(v) | Step::WhileNot(_, v) => visit_steps(v, f),
            Step::Try(g, _, _) => g.visit(f),
            _ => {}
        }
    }
}

pub struct Toks<'a>(pub &'a [C]);
impl fmt::Display for Toks<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0.len() > 200 {
            for c in &self.0[..100] {
                write!(f, "{}", sym(*c))?;
            }
            return write!(f, "...({} tokens)", self.0.len());
        }
        for c in self.0 {
            write!(f, "{}", sym(*c))?;
        }
        Ok(())
    }
}

/// What to generate.
#[derive(Clone, Debug)]
pub struct Prof {
    pub nsym: usize,
    pub max_nodes: usize,
    pub recover: u32,
    pub trymap: u32,
    pub maperr: u32,
    pub span: u32,
    pub user: u32,
    pub choice: u32,
    pub rep: u32,
    pub recur: u32,
    pub seq: u32,
    pub boxed: u32,
    pub end: u32,
    /// try_map actions that recover and self-recovering user parsers
    pub recovering: bool,
    pub zero_user: bool,
    /// keep alternatives distinguishable from each other more often
    pub nodup_steps: bool,
    /// Many children, members, repetitions and skips instead of a few.
    pub wide: bool,
    /// Hundreds of them.
    pub huge: bool,
}
impl Prof {
    pub fn base() -> Self {
        Prof {
            nsym: 3,
            max_nodes: 28,
            recover: 0,
            trymap: 3,
            maperr: 2,
            span: 3,
            user: 4,
            choice: 10,
            rep: 8,
            recur: 3,
            seq: 12,
            boxed: 1,
            end: 2,
            recovering: true,
            zero_user: true,
            nodup_steps: false,
            wide: false,
            huge: false,
        }
    }
}

pub struct Gen<'s, 't> {
    pub s: &'s mut Src<'t>,
    pub p: Prof,
    pub budget: i64,
    env: u8,
    /// Steps left for generating a sentence.
    effort: u32,
}

impl<'s, 't> Gen<'s, 't> {
    pub fn new(s: &'s mut Src<'t>, p: Prof) -> Self {
        Gen { s, p, budget: 0, env: 0, effort: 0 }
    }
    pub fn c(&mut self) -> C {
        self.s.us(self.p.nsym) as C
    }
    /// A symbol or the end of the input.
    fn oc(&mut self) -> Option<C> {
        if self.s.chance(1, 4) {
            None
        } else {
            Some(self.c())
        }
    }
    pub fn mask(&mut self) -> u16 {
        self.s.below(1 << self.p.nsym) as u16
    }
    pub fn cs(&mut self, max: usize) -> Vec<C> {
        let n = if self.p.huge && self.s.bool() { self.s.us(100) } else if self.p.wide && self.s.bool() { self.s.us(6 * max) } else { self.s.us(max + 1) };
        (0..n).map(|_| self.c()).collect()
    }
    /// How many children a sequence or a choice has.
    fn arity(&mut self) -> usize {
        if self.p.huge && self.budget > 0 && self.s.bool() {
            16 + self.s.us(100)
        } else if self.p.wide && self.s.bool() {
            4 + self.s.us(if self.budget > 12 { 12 } else { 6 })
        } else {
            2 + self.s.us(3)
        }
    }
    fn ck(&mut self, n: usize) -> CK {
        let k = self.s.us(6);
        match k {
            0 => CK::Vec,
            1 => CK::RefVec,
            2 => CK::Slice,
            3 if n <= 3 => CK::Arr,
            4 if n <= 3 => CK::RefArr,
            5 if n == 1 => CK::Single,
            _ => CK::Vec,
        }
    }
    fn leaf(&mut self, guard: bool) -> G {
        let env = self.env;
        let rw = if guard && env > 0 { 6 * self.p.recur } else { 0 };
        let k = self.s.weighted(&[20, 1, 1, self.p.end, 4, 3, 6, 8, 4, self.p.user, rw]);
        match k {
            0 => G::Just(self.c()),
            1 => G::Empty,
            2 => G::NoneP,
            3 => G::End,
            4 => G::Filter(self.mask()),
            5 => G::FilterMap(self.mask()),
            6 => {
                let v = self.cs(4);
                let ck = self.ck(v.len());
                G::Seq(v, ck)
            }
            7 => {
                let v = self.cs(3);
                let ck = self.ck(v.len());
                G::OneOf(v, ck)
            }
            8 => {
                let v = self.cs(3);
                let ck = self.ck(v.len());
                G::NoneOf(v, ck)
            }
            9 => G::User(self.user()),
            _ => G::Var(self.s.us(env as usize) as u8),
        }
    }
    fn user(&mut self) -> UK {
        let k = self.s.us(8);
        match k {
            0 => UK::Any,
            1 if self.p.zero_user => UK::Zero(self.c()),
            2 => UK::Two(self.c(), self.c()),
            3 if self.p.zero_user => UK::Last(self.c(), self.c()),
            4 if self.p.recovering => UK::Recov(self.c()),
            5 => UK::Peek(self.c()),
            6 => UK::Spans(self.s.us(4) as u8),
            7 => UK::Manual(self.c(), self.c()),
            _ => UK::Any,
        }
    }
    fn b(&mut self, guard: bool) -> Box<G> {
        Box::new(self.g(guard))
    }
    fn nonnull(&mut self, guard: bool) -> Box<G> {
        let g = self.g(guard);
        if g.nullable() {
            let c = self.c();
            if guard {
                Box::new(G::Then(Box::new(G::Just(c)), Box::new(g)))
            } else {
                Box::new(G::ThenIgnore(Box::new(G::Just(c)), Box::new(g)))
            }
        } else {
            Box::new(g)
        }
    }
    pub fn tm(&mut self) -> TM {
        let cond = match self.s.us(5) {
            0 => TC::Never,
            1 => TC::First(self.c()),
            2 => {
                let m = 1 + self.s.us(3) as u8;
                TC::CountMod(m, self.s.us(m as usize) as u8)
            }
            3 => TC::Has(self.c()),
            _ => TC::Always,
        };
        let act = match self.s.us(6) {
            0 => TA::Err1,
            1 => TA::Err2,
            2 => TA::ErrExp(self.oc()),
            3 => TA::ErrExp2(self.oc(), self.s.bool()),
            4 if self.p.recovering => TA::Recov,
            5 if self.p.recovering => TA::Recov2,
            _ => TA::Err1,
        };
        TM { cond, act }
    }
    fn top(&mut self) -> u8 {
        self.s.us(20) as u8
    }
    /// Generates a grammar; Var is allowed at the start only if `guard`.
    pub fn g(&mut self, guard: bool) -> G {
        self.budget -= 1;
        if self.budget <= 0 {
            return self.leaf(guard);
        }
        let p = self.p.clone();
        let k = self.s.weighted(&[
            10,
            p.seq,
            p.choice,
            p.rep,
            p.recover,
            p.trymap,
            p.maperr,
            p.span,
            3,
            p.boxed,
            if self.env < 2 { p.recur } else { 0 },
        ]);
        match k {
            0 => self.leaf(guard),
            1 => match self.s.us(6) {
                0 => {
                    let a = self.b(guard);
                    let g2 = guard || !a.nullable();
                    G::Then(a, self.b(g2))
                }
                1 => {
                    let a = self.b(guard);
                    let g2 = guard || !a.nullable();
                    G::ThenIgnore(a, self.b(g2))
                }
                2 => {
                    let a = self.b(guard);
                    let g2 = guard || !a.nullable();
                    G::IgnoreThen(a, self.b(g2))
                }
                3 => {
                    let a = self.b(guard);
                    let g2 = guard || !a.nullable();
                    let b = self.b(g2);
                    let g3 = g2 || !b.nullable();
                    G::Delim(a, b, self.b(g3))
                }
                4 => {
                    let a = self.b(guard);
                    let g2 = guard || !a.nullable();
                    G::Padded(a, self.b(g2))
                }
                _ => {
                    let n = self.arity();
                    let mut v = vec![];
                    let mut gd = guard;
                    for _ in 0..n {
                        let a = self.g(gd);
                        gd |= !a.nullable();
                        v.push(a);
                    }
                    G::Chain(v)
                }
            },
            2 => match self.s.us(3) {
                0 => G::Or(self.b(guard), self.b(guard)),
                1 => G::OrNot(self.b(guard)),
                _ => {
                    let n = self.arity();
                    if self.s.chance(1, 6) {
                        // Alternatives that start with the same, some of which is easily long.
                        let first = if self.s.chance(1, 3) {
                            let c = self.c();
                            G::Rep(Rep { item: Box::new(G::Just(c)), sep: None, min: 1, max: None, lead: false, trail: false, style: 0 })
                        } else {
                            *self.nonnull(guard)
                        };
                        // Repeated choices in the repeated part multiply.
                        let n = n.min(2 + 200 / first.nodes());
                        if first.nodes() > 60 {
                            return first;
                        }
                        return G::Alters((0..n).map(|_| G::Then(Box::new(first.clone()), Box::new(self.g(true)))).collect());
                    }
                    G::Alters((0..n).map(|_| self.g(guard)).collect())
                }
            },
            3 => G::Rep(self.rep(guard)),
            4 => {
                let a = self.b(guard);
                let st = self.strat();
                G::Recover(a, st)
            }
            5 => {
                let a = self.b(guard);
                G::TryMap(a, self.tm())
            }
            6 => {
                let a = self.b(guard);
                match self.s.us(4) {
                    0 => G::MapErr(a, EM::Nest(self.top())),
                    1 => G::MapErr(a, EM::Id),
                    2 => G::MapErr(a, EM::Merge(self.oc())),
                    _ => G::MapErrSpan(a, self.top()),
                }
            }
            7 => G::MapSpan(self.b(guard)),
            8 => {
                let a = self.b(guard);
                match self.s.us(4) {
                    0 => G::Map(a, self.top()),
                    1 => G::To(a, self.top()),
                    2 => G::SomeP(a),
                    _ => G::Ignored(a),
                }
            }
            9 => {
                let a = self.b(guard);
                if self.s.bool() {
                    G::Boxed(a)
                } else {
                    G::WithErr(a)
                }
            }
            _ => {
                self.env += 1;
                let style = self.s.us(3) as u8;
                let mut a = self.g(false);
                if self.env == 1 && a.has(&|g| matches!(g, G::Var(_))) {
                    a = a;
                }
                self.env -= 1;
                G::Rec(Box::new(a), style)
            }
        }
    }
    pub fn rep(&mut self, guard: bool) -> Rep {
        let item = self.nonnull(guard);
        let sep = if self.s.chance(1, 2) { Some(self.b(guard)) } else { None };
        let (min, max) = match self.s.us(4) {
            0 => (0, None),
            1 => (self.s.us(4), if self.s.chance(1, 12) { Some(usize::MAX) } else { None }),
            2 => {
                let lo = self.s.us(4);
                (lo, Some(lo + self.s.us(4)))
            }
            _ => (0, Some(self.s.us(5))),
        };
        let (min, max) = if self.p.wide && self.s.bool() {
            let k = if self.p.huge { 400 } else { 40 };
            let lo = self.s.size(k);
            (lo, if self.s.bool() { Some(lo + self.s.size(k)) } else { None })
        } else {
            (min, max)
        };
        let lead = sep.is_some() && self.s.chance(1, 3);
        let trail = sep.is_some() && self.s.chance(1, 3);
        // A maximum of zero items is only meaningful without separators.
        let max = if sep.is_some() && max == Some(0) { Some(1) } else { max };
        Rep { item, sep, min, max, lead, trail, style: self.s.us(48) as u8 }
    }
    pub fn strat(&mut self) -> Strat {
        let many = self.p.wide && self.s.chance(1, 3);
        let steps = self.steps(if many && self.p.huge { 150 } else if many { 30 } else { 4 }, 2, false);
        let end = match self.s.weighted(&[3, 2, 3, 4]) {
            0 => EndS::Return(self.top()),
            1 => EndS::ReturnWith(self.top()),
            2 => EndS::ReturnSpan(self.top()),
            _ => EndS::Fail,
        };
        Strat { steps, end, style: self.s.us(4) as u8 }
    }
    pub fn table(&mut self) -> Vec<(C, C)> {
        let n = if self.p.wide && self.s.bool() { 1 + self.s.us(10) } else { 1 + self.s.us(3) };
        (0..n)
            .map(|_| {
                let l = self.c();
                let r = if self.s.chance(1, 6) { l } else { self.c() };
                (l, r)
            })
            .collect()
    }
    fn steps(&mut self, max: usize, depth: usize, in_while: bool) -> Vec<Step> {
        let n = self.s.us(max + 1);
        (0..n).map(|_| self.step(depth, in_while)).collect()
    }
    fn step(&mut self, depth: usize, in_while: bool) -> Step {
        let back = if in_while { 0 } else { 3 };
        let nest = if depth > 0 { 4 } else { 0 };
        match self.s.weighted(&[
            6, back, back, 3, 4, 4, nest, nest, 6, 3, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1,
        ]) {
            0 => Step::Skip,
            1 => Step::Restart,
            2 => Step::SeekFailed,
            3 => Step::SkipIf(self.mask()),
            4 => Step::Find(self.mask()),
            5 => {
                if self.s.bool() {
                    Step::Scan(SK::Nested(self.table()))
                } else {
                    Step::Scan(SK::Count(self.s.us(5) as u8, self.mask(), self.mask()))
                }
            }
            6 => Step::Maybe(self.steps(3, depth - 1, in_while)),
            7 => {
                let m = self.mask();
                Step::WhileNot(m, self.steps(3, depth - 1, true))
            }
            8 => Step::Retry(self.s.bool(), self.s.bool()),
            9 => {
                let save = self.budget;
                self.budget = self.budget.min(4);
                let g = self.b(false);
                self.budget = save;
                Step::Try(g, self.s.bool(), self.s.bool())
            }
            10 => Step::Push(self.top()),
            11 => Step::PushHere(self.top()),
            12 => Step::PushUpTo(self.top()),
            13 => Step::PushTok(self.top()),
            14 => Step::Upd(self.s.us(5) as u8),
            15 => Step::UpdHere(self.top()),
            16 => Step::UpdUpTo(self.top()),
            17 => Step::UpdTok(self.top()),
            18 => Step::Boxed,
            _ => Step::Nop,
        }
    }
    pub fn grammar(&mut self) -> G {
        let b = 1 + self.s.size(self.p.max_nodes);
        self.budget = b as i64;
        self.g(false)
    }

    /// Appends a token sequence the grammar is likely to match.
    pub fn sentence<'g>(&mut self, g: &'g G, env: &mut Vec<&'g G>, out: &mut Vec<C>, depth: usize, limit: usize) {
        if out.len() > limit || depth > 60 || self.effort == 0 {
            return;
        }
        self.effort -= 1;
        match g {
            G::Empty | G::NoneP | G::End => {}
            G::Just(c) => out.push(*c),
            G::Filter(m) | G::FilterMap(m) => {
                let v: Vec<C> = (0..self.p.nsym as C).filter(|c| bit(*m, *c)).collect();
                if !v.is_empty() {
                    out.push(*self.s.pick(&v));
                }
            }
            G::Seq(v, _) => out.extend_from_slice(v),
            G::OneOf(v, _) => {
                if !v.is_empty() {
                    out.push(*self.s.pick(v));
                }
            }
            G::NoneOf(v, _) => {
                let w: Vec<C> = (0..self.p.nsym as C).filter(|c| !v.contains(c)).collect();
                if !w.is_empty() {
                    out.push(*self.s.pick(&w));
                }
            }
            G::User(u) => match u {
                UK::Any => out.push(self.c()),
                UK::Zero(c) | UK::Recov(c) => out.push(*c),
                UK::Two(a, b) | UK::Last(a, b) => {
                    out.push(*a);
                    out.push(*b);
                }
                UK::Manual(a, b) => out.push(if self.s.bool() { *b } else { *a }),
                UK::Peek(_) => {}
                UK::Spans(n) => {
                    for _ in 0..*n {
                        out.push(self.c())
                    }
                }
            },
            G::To(a, _) | G::Ignored(a) | G::SomeP(a) | G::Map(a, _) | G::MapSpan(a) | G::MapErr(a, _)
            | G::MapErrSpan(a, _) | G::TryMap(a, _) | G::Boxed(a) | G::WithErr(a) => {
                self.sentence(a, env, out, depth + 1, limit)
            }
            G::Recover(a, _) => self.sentence(a, env, out, depth + 1, limit),
            G::Rec(a, _) => {
                env.push(a);
                self.sentence(a, env, out, depth + 1, limit);
                env.pop();
            }
            G::Var(k) => {
                let i = env.len() as i64 - 1 - *k as i64;
                if i >= 0 && depth < 40 {
                    let saved = env.split_off(i as usize + 1);
                    let body = env[i as usize];
                    self.sentence(body, env, out, depth + 4, limit);
                    env.extend(saved);
                }
            }
            G::Then(a, b) | G::ThenIgnore(a, b) | G::IgnoreThen(a, b) => {
                self.sentence(a, env, out, depth + 1, limit);
                self.sentence(b, env, out, depth + 1, limit);
            }
            G::Delim(a, b, c) => {
                self.sentence(a, env, out, depth + 1, limit);
                self.sentence(b, env, out, depth + 1, limit);
                self.sentence(c, env, out, depth + 1, limit);
            }
            G::Padded(a, b) => {
                self.sentence(a, env, out, depth + 1, limit);
                self.sentence(b, env, out, depth + 1, limit);
                self.sentence(a, env, out, depth + 1, limit);
            }
            G::Chain(v) => {
                for g in v {
                    self.sentence(g, env, out, depth + 1, limit)
                }
            }
            G::Or(a, b) => {
                let g = if self.s.bool() { b } else { a };
                self.sentence(g, env, out, depth + 1, limit)
            }
            G::OrNot(a) => {
                if self.s.bool() {
                    self.sentence(a, env, out, depth + 1, limit)
                }
            }
            G::Alters(v) => {
                let i = self.s.us(v.len());
                self.sentence(&v[i], env, out, depth + 1, limit)
            }
            G::Rep(r) => {
                let extra = if depth < 8 && self.s.chance(1, 8) { self.s.size(limit) } else { self.s.us(4) };
                let n = match r.max {
                    Some(m) => r.min + extra.min(m.saturating_sub(r.min)),
                    None => r.min + extra,
                };
                for i in 0..n {
                    if out.len() > limit || self.effort == 0 {
                        break;
                    }
                    if let Some(s) = &r.sep {
                        if i > 0 || (r.lead && self.s.bool()) {
                            self.sentence(s, env, out, depth + 1, limit)
                        }
                    }
                    self.sentence(&r.item, env, out, depth + 1, limit);
                }
                if let (Some(s), true) = (&r.sep, r.trail) {
                    if self.s.bool() {
                        self.sentence(s, env, out, depth + 1, limit)
                    }
                }
            }
        }
    }
    /// An input for the grammar: sentences, mutated sentences, noise.
    pub fn input(&mut self, g: &G, limit: usize) -> Vec<C> {
        let limit = if self.p.wide || self.s.chance(1, if limit > 100 { 3 } else { 10 }) { limit } else { limit.min(14) };
        let mut out = vec![];
        let kind = self.s.weighted(&[3, 5, 2]);
        if kind == 2 {
            let n = self.s.size(limit);
            return (0..n).map(|_| self.c()).collect();
        }
        self.effort = 3000;
        self.sentence(g, &mut vec![], &mut out, 0, limit);
        if kind == 1 {
            let n = 1 + self.s.us(3);
            for _ in 0..n {
                let len = out.len();
                match self.s.us(5) {
                    0 if len > 0 => {
                        out.remove(self.s.us(len));
                    }
                    1 => {
                        let i = self.s.us(len + 1);
                        let c = self.c();
                        out.insert(i, c);
                    }
                    2 if len > 0 => {
                        let i = self.s.us(len);
                        out[i] = self.c();
                    }
                    3 if len > 0 => {
                        let i = self.s.us(len);
                        out.truncate(i);
                    }
                    _ => {
                        let c = self.c();
                        out.push(c)
                    }
                }
            }
        } else if self.s.chance(1, 3) {
            let n = self.s.us(4);
            for _ in 0..n {
                let c = self.c();
                out.push(c)
            }
        }
        out
    }
}

pub const TEXT_POOL: &[&str] = &[
    "a", "b", "\n", "", "\u{e9}", "ab\n", "\nab", "\u{65e5}\u{672c}", "\r\n", "\t", "\u{1d11e}x", "\n\n", "a\nb\nc", " ", "e\u{301}", "\r", "\u{2028}", "\u{b}",
    "\u{feff}", "\u{85}", "\u{2029}", "\0", "\u{c}", "\u{200b}", "\u{1f469}\u{200d}\u{1f469}\u{200d}\u{1f466}", "\r\r\n", "\n\r", "\u{ad}", "\u{7f}", "\u{10ffff}",
];

/// Texts of hundreds to tens of thousands of bytes, characters and rows: runs
/// of the texts of the pool in a row. The last few are huge.
pub fn long_texts() -> &'static [&'static str] {
    static T: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut x = 0x2545f4914f6cdd1du64;
        let mut rnd = |n: usize| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 11) as usize % n
        };
        let mut v: Vec<String> = vec![];
        for _ in 0..96 {
            let mut t = String::new();
            let parts = 1 + rnd(4);
            let long = rnd(parts);
            for k in 0..parts {
                let unit = TEXT_POOL[rnd(TEXT_POOL.len())];
                let unit = if unit.is_empty() { "x" } else { unit };
                let n = if k == long { [40, 64, 100, 130, 255, 256, 300, 520][rnd(8)] } else { 1 + rnd(5) };
                t.push_str(&unit.repeat(n));
            }
            v.push(t);
        }
        v.push("line\n".repeat(1100));
        v.push("w".repeat(70_000));
        v.push("\n".repeat(66_000));
        v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
    })
}

pub fn loc_cfg(s: &mut Src) -> LocCfg {
    let mut c = LocCfg::default();
    for t in c.texts.iter_mut() {
        *t = *s.pick(TEXT_POOL);
    }
    if s.chance(1, 8) {
        for _ in 0..1 + s.us(4) {
            let few = s.bool();
            let i = s.us(if few { 4 } else { NSYM });
            let all = long_texts();
            let n = if s.chance(1, 20) { all.len() } else { all.len() - 3 };
            c.texts[i] = all[s.us(n)];
        }
    }
    let n = s.us(4);
    c.prefix = (0..n).map(|_| s.us(NSYM) as C).collect();
    c
}
