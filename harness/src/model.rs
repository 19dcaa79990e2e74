//! Reference interpreter: PEG evaluation over a slice, with the documented
//! failure-position, error-merging and recovery rules.

use crate::ast::*;
use crate::tok::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MR {
    S(Tree),
    R(Tree, Vec<ME>),
    F(usize, Vec<ME>),
}

/// Message of an error that wraps another; long ones are cut to a digest, since
/// recursive wrapping would otherwise grow exponentially.
pub fn nest(c: &str, k: u8, e: &ME) -> String {
    let s = format!("{e:?}");
    if s.len() <= 300 {
        format!("{c}{k}[{s}]")
    } else {
        format!("{c}{k}[..{:x}]", crate::engine::fnv(s.as_bytes()))
    }
}

/// Out of fuel or depth: the case is outside the property's domain.
#[derive(Debug)]
pub struct Abort;

pub struct Model<'a> {
    /// Symbols of the input; token i has id i + 1.
    pub toks: &'a [C],
    pub pos: &'a [Pos],
    pub ek: EK,
    pub fuel: u64,
    pub steps: u64,
    depth: u32,
    /// Furthest token index examined + 1 (number of source pulls needed).
    pub need: usize,
    /// Statistics about what happened.
    pub backtracks: u32,
    pub recoveries: u32,
    pub alts_failed: u32,
    pub merged: u32,
    pub seps: u32,
    pub spans: u32,
    pub strat_runs: u32,
    pub max_window: usize,
    /// Scanning started at a right delimiter: documented and actual behaviour
    /// differ (known finding of C11), other properties skip the case.
    pub ambiguous: bool,
}

type R<T> = Result<T, Abort>;
type Env<'g> = Vec<&'g G>;

pub struct StratState {
    pos: usize,
    started: usize,
    failed_at: usize,
    errs: Vec<ME>,
}

impl<'a> Model<'a> {
    pub fn new(toks: &'a [C], pos: &'a [Pos], ek: EK, fuel: u64) -> Self {
        Model {
            toks,
            pos,
            ek,
            fuel,
            steps: 0,
            depth: 0,
            need: 0,
            backtracks: 0,
            recoveries: 0,
            alts_failed: 0,
            merged: 0,
            seps: 0,
            spans: 0,
            strat_runs: 0,
            max_window: 0,
            ambiguous: false,
        }
    }
    fn look(&mut self, p: usize) -> Option<TK> {
        self.need = self.need.max(p + 1);
        self.toks.get(p).map(|c| (*c, p as u32 + 1))
    }
    fn advance(&mut self, p: &mut usize) -> bool {
        if self.look(*p).is_some() {
            *p += 1;
            true
        } else {
            false
        }
    }
    fn loc(&self, p: usize) -> Pos {
        self.pos[p]
    }
    fn tok_span(&mut self, p: usize) -> Sp {
        let e = if self.look(p).is_some() { p + 1 } else { p };
        (self.pos[p], self.pos[e])
    }
    fn span(&mut self, a: usize, b: usize) -> Sp {
        self.spans += 1;
        (self.pos[a], self.pos[b])
    }
    fn err(&self, e: ME) -> ME {
        if self.ek == EK::Void {
            ME::Void
        } else {
            e
        }
    }
    fn exp(&self, set: &[Option<C>], found: Option<TK>, at: MAt) -> ME {
        self.err(ME::Exp(set.iter().cloned().collect(), found, at))
    }
    fn cust(&self, m: String, at: MAt) -> ME {
        self.err(ME::Cust(m, at))
    }
    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.fuel == 0 || self.depth > 2500 {
            return Err(Abort);
        }
        self.fuel -= 1;
        Ok(())
    }
    fn fail_tok(&mut self, p: usize, set: &[Option<C>]) -> MR {
        let found = self.look(p);
        let sp = self.tok_span(p);
        MR::F(p, vec![self.exp(set, found, MAt::Sp(sp))])
    }

    pub fn run<'g>(&mut self, g: &'g G, env: &mut Env<'g>, p: &mut usize, rec: bool) -> R<MR> {
        self.depth += 1;
        let r = self.step();
        if r.is_err() {
            self.depth -= 1;
            return Err(Abort);
        }
        let r = self.run2(g, env, p, rec);
        self.depth -= 1;
        r
    }

    fn map(r: MR, f: impl FnOnce(Tree) -> Tree) -> MR {
        match r {
            MR::S(t) => MR::S(f(t)),
            MR::R(t, e) => MR::R(f(t), e),
            r => r,
        }
    }

    fn concat<'g>(&mut self, gs: &[&'g G], env: &mut Env<'g>, p: &mut usize, rec: bool) -> R<Result<(Vec<Tree>, Vec<ME>, bool), MR>> {
        let start = *p;
        let mut out = vec![];
        let mut errs = vec![];
        let mut recd = false;
        for g in gs {
            match self.run(g, env, p, rec)? {
                MR::S(t) => out.push(t),
                MR::R(t, e) => {
                    out.push(t);
                    errs.extend(e);
                    recd = true;
                }
                MR::F(i, e) => {
                    if *p != start {
                        self.backtracks += 1;
                        self.max_window = self.max_window.max(self.need - start);
                    }
                    *p = start;
                    return Ok(Err(MR::F(i, e)));
                }
            }
        }
        Ok(Ok((out, errs, recd)))
    }
    fn seq<'g>(&mut self, gs: &[&'g G], env: &mut Env<'g>, p: &mut usize, rec: bool, f: impl FnOnce(Vec<Tree>) -> Tree) -> R<MR> {
        Ok(match self.concat(gs, env, p, rec)? {
            Ok((v, e, recd)) => {
                if recd {
                    MR::R(f(v), e)
                } else {
                    MR::S(f(v))
                }
            }
            Err(f) => f,
        })
    }

    fn merge_failures(&mut self, mut fails: Vec<(usize, Vec<ME>)>) -> MR {
        // The furthest failure, the earliest-listed one on a tie.
        let mut best = 0;
        for k in 1..fails.len() {
            if fails[k].0 > fails[best].0 {
                best = k;
            }
        }
        let (i, es) = fails.remove(best);
        if es.len() == 1 {
            if let ME::Exp(set, found, at) = &es[0] {
                let mut set: BTreeSet<Option<C>> = set.clone();
                for (_, es2) in &fails {
                    for e2 in es2 {
                        if let ME::Exp(s2, _, at2) = e2 {
                            if at2 == at {
                                self.merged += 1;
                                set.extend(s2.iter().cloned());
                            }
                        }
                    }
                }
                return MR::F(i, vec![ME::Exp(set, *found, at.clone())]);
            }
        }
        MR::F(i, es)
    }

    fn choice<'g>(&mut self, gs: &[&'g G], env: &mut Env<'g>, p: &mut usize, rec: bool) -> R<MR> {
        let mut fails: Vec<(usize, Vec<ME>)> = vec![];
        for g in gs {
            match self.run(g, env, p, false)? {
                MR::F(i, e) => {
                    self.alts_failed += 1;
                    fails.push((i, e))
                }
                r => return Ok(r),
            }
        }
        if rec {
            let mut order: Vec<usize> = (0..gs.len()).collect();
            // Stable: furthest first, listed order on ties.
            order.sort_by_key(|k| (usize::MAX - fails[*k].0, *k));
            for k in order {
                match self.run(gs[k], env, p, true)? {
                    MR::F(..) => {}
                    r => return Ok(r),
                }
            }
        }
        Ok(self.merge_failures(fails))
    }

    fn run2<'g>(&mut self, g: &'g G, env: &mut Env<'g>, p: &mut usize, rec: bool) -> R<MR> {
        Ok(match g {
            G::Empty => MR::S(Tree::Unit),
            G::NoneP => MR::S(Tree::No),
            G::End => match self.look(*p) {
                None => MR::S(Tree::Unit),
                found => {
                    let at = MAt::Loc(self.loc(*p));
                    MR::F(*p, vec![self.exp(&[None], found, at)])
                }
            },
            G::Just(c) => match self.look(*p) {
                Some(t) if t.0 == *c => {
                    *p += 1;
                    MR::S(Tree::Tok(t))
                }
                _ => self.fail_tok(*p, &[Some(*c)]),
            },
            G::Filter(m) => match self.look(*p) {
                Some(t) if bit(*m, t.0) => {
                    *p += 1;
                    MR::S(Tree::Tok(t))
                }
                _ => self.fail_tok(*p, &[]),
            },
            G::FilterMap(m) => match self.look(*p) {
                Some(t) if bit(*m, t.0) => {
                    *p += 1;
                    MR::S(Tree::Tag(200, Box::new(Tree::Tok(t))))
                }
                _ => self.fail_tok(*p, &[]),
            },
            G::Seq(v, _) => {
                let start = *p;
                for c in v {
                    match self.look(*p) {
                        Some(t) if t.0 == *c => *p += 1,
                        _ => {
                            let r = self.fail_tok(*p, &[Some(*c)]);
                            if *p != start {
                                self.backtracks += 1;
                            }
                            *p = start;
                            return Ok(r);
                        }
                    }
                }
                MR::S(Tree::Toks(v.clone()))
            }
            G::OneOf(v, _) => match self.look(*p) {
                Some(t) if v.contains(&t.0) => {
                    *p += 1;
                    MR::S(Tree::Tok(t))
                }
                _ => {
                    let set: Vec<Option<C>> = v.iter().map(|c| Some(*c)).collect();
                    self.fail_tok(*p, &set)
                }
            },
            G::NoneOf(v, _) => match self.look(*p) {
                Some(t) if !v.contains(&t.0) => {
                    *p += 1;
                    MR::S(Tree::Tok(t))
                }
                Some(_) => self.fail_tok(*p, &[]),
                None => {
                    let at = MAt::Loc(self.loc(*p));
                    MR::F(*p, vec![self.exp(&[], None, at)])
                }
            },
            G::User(u) => self.user(u, p, rec),
            G::To(a, k) => {
                let k = *k;
                Self::map(self.run(a, env, p, rec)?, |_| Tree::Val(k))
            }
            G::Ignored(a) => Self::map(self.run(a, env, p, rec)?, |_| Tree::Unit),
            G::SomeP(a) => Self::map(self.run(a, env, p, rec)?, |t| Tree::Some(Box::new(t))),
            G::Map(a, k) => {
                let k = *k;
                Self::map(self.run(a, env, p, rec)?, |t| map_fn(k, t))
            }
            G::MapSpan(a) => {
                let start = *p;
                let r = self.run(a, env, p, rec)?;
                let sp = self.span(start, *p);
                Self::map(r, |t| Tree::Span(sp, Box::new(t)))
            }
            G::MapErr(a, em) => {
                let r = self.run(a, env, p, rec)?;
                self.map_errs(r, |m, e| m.em(em, e))
            }
            G::MapErrSpan(a, k) => {
                let start = *p;
                let r = self.run(a, env, p, rec)?;
                let sp = self.span(start, *p);
                self.map_errs(r, |m, e| {
                    let s = nest("s", *k, &e);
                    m.cust(s, MAt::Sp(sp))
                })
            }
            G::TryMap(a, tm) => {
                let start = *p;
                let (t, mut errs, recd) = match self.run(a, env, p, rec)? {
                    MR::S(t) => (t, vec![], false),
                    MR::R(t, e) => (t, e, true),
                    f => return Ok(f),
                };
                let sp = self.span(start, *p);
                if tm_cond(&tm.cond, &t) {
                    let e1 = self.cust("tm1".into(), MAt::Sp(sp));
                    let es = match &tm.act {
                        TA::Err1 | TA::Recov => vec![e1],
                        TA::Err2 | TA::Recov2 => vec![e1, self.cust("tm2".into(), MAt::None)],
                        TA::ErrExp(c) => vec![self.exp(&[*c], None, MAt::Sp(sp))],
                        TA::ErrExp2(c, first) => {
                            let e = self.exp(&[*c], None, MAt::Sp(sp));
                            if *first {
                                vec![e, e1]
                            } else {
                                vec![e1, e]
                            }
                        }
                    };
                    errs.extend(es);
                    match &tm.act {
                        TA::Recov | TA::Recov2 if rec => MR::R(Tree::Tag(201, Box::new(t)), errs),
                        _ => {
                            if *p != start {
                                self.backtracks += 1;
                            }
                            *p = start;
                            MR::F(start, errs)
                        }
                    }
                } else {
                    let t = Tree::Span(sp, Box::new(t));
                    if recd {
                        MR::R(t, errs)
                    } else {
                        MR::S(t)
                    }
                }
            }
            G::Then(a, b) => self.seq(&[a, b], env, p, rec, |mut v| {
                let b = v.pop().unwrap();
                Tree::Pair(Box::new(v.pop().unwrap()), Box::new(b))
            })?,
            G::ThenIgnore(a, b) => self.seq(&[a, b], env, p, rec, |mut v| v.swap_remove(0))?,
            G::IgnoreThen(a, b) => self.seq(&[a, b], env, p, rec, |mut v| v.swap_remove(1))?,
            G::Delim(l, m, r) => self.seq(&[l, m, r], env, p, rec, |mut v| v.swap_remove(1))?,
            G::Padded(a, m) => self.seq(&[a, m, a], env, p, rec, |mut v| v.swap_remove(1))?,
            G::Chain(v) => {
                let gs: Vec<&G> = v.iter().collect();
                self.seq(&gs, env, p, rec, Tree::List)?
            }
            G::Or(a, b) => self.choice(&[a, b], env, p, rec)?,
            G::Alters(v) => {
                let gs: Vec<&G> = v.iter().collect();
                self.choice(&gs, env, p, rec)?
            }
            G::OrNot(a) => match self.run(a, env, p, false)? {
                MR::F(..) => {
                    self.alts_failed += 1;
                    MR::S(Tree::No)
                }
                r => Self::map(r, |t| Tree::Some(Box::new(t))),
            },
            G::Rep(r) => self.rep(r, env, p, rec)?,
            G::Recover(a, s) => match self.run(a, env, p, rec)? {
                MR::F(i, errs) if rec => {
                    self.strat_runs += 1;
                    let mut st = StratState { pos: *p, started: *p, failed_at: i.max(*p), errs };
                    self.seek(i);
                    match self.strat(a, s, env, &mut st)? {
                        Some(t) => {
                            self.recoveries += 1;
                            *p = st.pos;
                            MR::R(t, st.errs)
                        }
                        None => MR::F(i, st.errs),
                    }
                }
                r => r,
            },
            G::Boxed(a) | G::WithErr(a) => self.run(a, env, p, rec)?,
            G::Rec(a, _) => {
                env.push(a);
                let r = self.run(a, env, p, rec);
                env.pop();
                r?
            }
            G::Var(k) => {
                let i = env.len() - 1 - *k as usize;
                let saved = env.split_off(i + 1);
                let body = env[i];
                let r = self.run(body, env, p, rec);
                env.extend(saved);
                r?
            }
        })
    }

    fn map_errs(&mut self, r: MR, mut f: impl FnMut(&mut Self, ME) -> ME) -> MR {
        match r {
            MR::S(t) => MR::S(t),
            MR::R(t, es) => MR::R(t, es.into_iter().map(|e| f(self, e)).collect()),
            MR::F(i, es) => MR::F(i, es.into_iter().map(|e| f(self, e)).collect()),
        }
    }
    fn em(&mut self, em: &EM, e: ME) -> ME {
        match em {
            EM::Id => e,
            EM::Nest(k) => {
                let s = nest("n", *k, &e);
                self.cust(s, MAt::None)
            }
            EM::Merge(c) => match e {
                ME::Exp(mut s, f, at) => {
                    s.insert(*c);
                    ME::Exp(s, f, at)
                }
                e => e,
            },
        }
    }

    fn user(&mut self, u: &UK, p: &mut usize, rec: bool) -> MR {
        let start = *p;
        match u {
            UK::Any => match self.look(*p) {
                Some(t) => {
                    *p += 1;
                    MR::S(Tree::Tok(t))
                }
                None => {
                    let at = MAt::Loc(self.loc(*p));
                    MR::F(*p, vec![self.exp(&[], None, at)])
                }
            },
            UK::Zero(c) => match self.look(*p) {
                Some(t) if t.0 == *c => {
                    *p += 1;
                    MR::S(Tree::Tok(t))
                }
                _ => MR::F(0, vec![self.cust("zero".into(), MAt::None)]),
            },
            UK::Two(a, b) => {
                for c in [a, b] {
                    match self.look(*p) {
                        Some(t) if t.0 == *c => *p += 1,
                        _ => {
                            let r = self.fail_tok(*p, &[Some(*c)]);
                            *p = start;
                            return r;
                        }
                    }
                }
                MR::S(Tree::Val(*a * 16 + *b))
            }
            UK::Last(a, b) => {
                let mut last = 0;
                for c in [a, b] {
                    match self.look(*p) {
                        Some(t) if t.0 == *c => {
                            last = *p;
                            *p += 1
                        }
                        _ => {
                            *p = start;
                            return MR::F(last, vec![self.cust("last".into(), MAt::None)]);
                        }
                    }
                }
                MR::S(Tree::Val(*a * 16 + *b))
            }
            UK::Recov(c) => match self.look(*p) {
                Some(t) if t.0 == *c => {
                    *p += 1;
                    MR::S(Tree::Tok(t))
                }
                Some(t) if rec => {
                    let sp = self.tok_span(*p);
                    *p += 1;
                    self.recoveries += 1;
                    MR::R(Tree::Val(99), vec![self.cust(format!("recov{}", t.1), MAt::Sp(sp))])
                }
                _ => self.fail_tok(*p, &[Some(*c)]),
            },
            UK::Peek(c) => match self.look(*p) {
                Some(t) if t.0 == *c => MR::S(Tree::Note(format!("peek{}", t.1))),
                _ => self.fail_tok(*p, &[Some(*c)]),
            },
            UK::Spans(n) => {
                let l0 = self.loc(*p);
                let mut note = String::new();
                for _ in 0..*n {
                    let sp = self.tok_span(*p);
                    note.push_str(&format!("{sp:?};"));
                    self.advance(p);
                }
                let sp = self.span(start, *p);
                let l1 = self.loc(*p);
                MR::S(Tree::Span(sp, Box::new(Tree::Note(format!("{note}{l0:?}{l1:?}")))))
            }
            UK::Manual(a, b) => {
                // Reads one token ahead, then decides.
                let t0 = self.look(*p);
                if t0.is_some() {
                    self.look(*p + 1);
                }
                match t0 {
                    Some(t) if t.0 == *a || t.0 == *b => {
                        *p += 1;
                        MR::S(Tree::Tok(t))
                    }
                    _ => self.fail_tok(*p, &[Some(*a), Some(*b)]),
                }
            }
        }
    }

    fn rep<'g>(&mut self, r: &'g Rep, env: &mut Env<'g>, p: &mut usize, rec: bool) -> R<MR> {
        let start = *p;
        let max = r.max.unwrap_or(usize::MAX);
        let mut out: Vec<Tree> = vec![];
        let mut errs = vec![];
        let mut recd = false;
        loop {
            self.step()?;
            let full = out.len() >= max;
            if full && !r.trail {
                break;
            }
            let before = *p;
            let in_rec = rec && out.len() < r.min;
            if let Some(sep) = &r.sep {
                if !out.is_empty() || r.lead {
                    self.seps += 1;
                    match self.run(sep, env, p, in_rec && !out.is_empty())? {
                        MR::S(_) => {}
                        MR::R(_, e) => {
                            errs.extend(e);
                            recd = true;
                        }
                        MR::F(i, e) => {
                            if out.is_empty() {
                                // an absent leading separator is fine
                            } else if out.len() >= r.min {
                                break;
                            } else {
                                *p = start;
                                self.backtracks += 1;
                                return Ok(MR::F(i, e));
                            }
                        }
                    }
                }
            }
            if full {
                break;
            }
            match self.run(&r.item, env, p, in_rec)? {
                MR::S(t) => out.push(t),
                MR::R(t, e) => {
                    out.push(t);
                    errs.extend(e);
                    recd = true;
                }
                MR::F(i, e) => {
                    if out.len() >= r.min {
                        // Give the separator back, unless it is an allowed trailing one or
                        // an allowed leading one of an empty list.
                        if !r.trail && !out.is_empty() {
                            if *p != before {
                                self.backtracks += 1;
                            }
                            *p = before;
                        }
                        break;
                    }
                    *p = start;
                    return Ok(MR::F(i, e));
                }
            }
        }
        let t = Tree::List(out);
        Ok(if recd { MR::R(t, errs) } else { MR::S(t) })
    }

    fn strat<'g>(&mut self, child: &'g G, s: &'g Strat, env: &mut Env<'g>, st: &mut StratState) -> R<Option<Tree>> {
        if let Some(t) = self.steps_run(child, &s.steps, env, st)? {
            return Ok(Some(t));
        }
        Ok(match &s.end {
            EndS::Return(k) | EndS::ReturnWith(k) => Some(Tree::Val(*k)),
            EndS::ReturnSpan(k) => {
                let sp = self.span(st.started, st.pos);
                Some(Tree::Span(sp, Box::new(Tree::Val(*k))))
            }
            EndS::Fail => None,
        })
    }

    fn steps_run<'g>(&mut self, child: &'g G, steps: &'g [Step], env: &mut Env<'g>, st: &mut StratState) -> R<Option<Tree>> {
        for s in steps {
            if let Some(t) = self.step_run(child, s, env, st)? {
                return Ok(Some(t));
            }
        }
        Ok(None)
    }

    fn sub_parse<'g>(&mut self, g: &'g G, exact: bool, silent: bool, env: &mut Env<'g>, st: &mut StratState) -> R<Option<Tree>> {
        let mut p = st.pos;
        Ok(match self.run(g, env, &mut p, !exact)? {
            MR::S(t) => {
                st.pos = p;
                Some(t)
            }
            MR::R(t, e) => {
                if !silent {
                    st.errs.extend(e);
                }
                st.pos = p;
                Some(t)
            }
            MR::F(i, e) => {
                if !silent {
                    st.errs.extend(e);
                }
                st.failed_at = i.max(st.pos);
                self.seek(i);
                None
            }
        })
    }
    fn seek(&mut self, i: usize) {
        if i > 0 {
            self.need = self.need.max(i.min(self.toks.len()));
        }
    }

    fn step_run<'g>(&mut self, child: &'g G, s: &'g Step, env: &mut Env<'g>, st: &mut StratState) -> R<Option<Tree>> {
        self.step()?;
        match s {
            Step::Restart => st.pos = st.started,
            Step::SeekFailed => st.pos = st.failed_at,
            Step::Skip => {
                self.advance(&mut st.pos);
            }
            Step::SkipIf(m) => {
                if let Some(t) = self.look(st.pos) {
                    if bit(*m, t.0) {
                        st.pos += 1;
                    }
                }
            }
            Step::Find(m) => {
                while let Some(t) = self.look(st.pos) {
                    self.step()?;
                    if bit(*m, t.0) {
                        break;
                    }
                    st.pos += 1;
                }
            }
            Step::Scan(SK::Nested(table)) => {
                self.nested(table, st)?;
            }
            Step::Scan(SK::Count(n, report, stop)) => {
                let mut left = *n;
                loop {
                    self.step()?;
                    match self.look(st.pos) {
                        Some(t) => {
                            let sp = self.tok_span(st.pos);
                            if bit(*report, t.0) {
                                let e = self.cust(format!("scan{}", t.1), MAt::Sp(sp));
                                st.errs.push(e);
                            }
                            if left == 0 || bit(*stop, t.0) {
                                break;
                            }
                            left -= 1;
                            st.pos += 1;
                        }
                        None => {
                            let l = self.loc(st.pos);
                            let e = self.cust("scaneof".into(), MAt::Loc(l));
                            st.errs.push(e);
                            break;
                        }
                    }
                }
            }
            Step::Maybe(v) => {
                let save = st.pos;
                if let Some(t) = self.steps_run(child, v, env, st)? {
                    return Ok(Some(t));
                }
                st.pos = save;
            }
            Step::WhileNot(m, v) => loop {
                self.step()?;
                match self.look(st.pos) {
                    Some(t) if !bit(*m, t.0) => {}
                    _ => break,
                }
                if let Some(t) = self.steps_run(child, v, env, st)? {
                    return Ok(Some(t));
                }
                self.advance(&mut st.pos);
            },
            Step::Retry(exact, silent) => return self.sub_parse(child, *exact, *silent, env, st),
            Step::Try(g, exact, silent) => return self.sub_parse(g, *exact, *silent, env, st),
            Step::Push(k) => {
                let e = self.cust(format!("push{k}"), MAt::None);
                st.errs.push(e);
            }
            Step::PushHere(k) | Step::UpdHere(k) => {
                let l = self.loc(st.pos);
                let e = self.cust(format!("here{k}"), MAt::Loc(l));
                st.errs.push(e);
            }
            Step::PushUpTo(k) | Step::UpdUpTo(k) => {
                let sp = self.span(st.started, st.pos);
                let e = self.cust(format!("upto{k}"), MAt::Sp(sp));
                st.errs.push(e);
            }
            Step::PushTok(k) | Step::UpdTok(k) => {
                let t = self.look(st.pos);
                let sp = self.tok_span(st.pos);
                let e = self.cust(format!("tok{k}:{t:?}"), MAt::Sp(sp));
                st.errs.push(e);
            }
            Step::Upd(k) => upd(*k, &mut st.errs, || self.cust("upd".into(), MAt::None)),
            Step::Boxed | Step::Nop => {}
        }
        Ok(None)
    }

    /// Scan from st.pos to the matching delimiter, as documented (with the
    /// known deviation for a leading right delimiter left out: see C11).
    fn nested(&mut self, table: &[(C, C)], st: &mut StratState) -> R<()> {
        let mut stack: Vec<(usize, TK, Sp)> = vec![];
        loop {
            self.step()?;
            let Some(t) = self.look(st.pos) else {
                let l = self.loc(st.pos);
                while let Some((_, lt, ls)) = stack.pop() {
                    let e = self.err(ME::UL(lt, ls, MAt::Loc(l)));
                    st.errs.push(e);
                }
                return Ok(());
            };
            let sp = self.tok_span(st.pos);
            if stack.last().map(|x| table[x.0].1 == t.0) == Some(true) {
                stack.pop();
            } else if let Some(k) = table.iter().position(|x| x.0 == t.0) {
                stack.push((k, t, sp));
            } else if let Some(k) = table.iter().position(|x| x.1 == t.0) {
                if stack.iter().any(|x| x.0 == k) {
                    while let Some((j, lt, ls)) = stack.pop() {
                        if j == k {
                            break;
                        }
                        let e = self.err(ME::UL(lt, ls, MAt::Sp(sp)));
                        st.errs.push(e);
                    }
                } else if let Some((_, lt, ls)) = stack.pop() {
                    let e = self.err(ME::UT(lt, ls, t, sp));
                    st.errs.push(e);
                } else {
                    self.ambiguous = true;
                    return Ok(());
                }
            }
            if stack.is_empty() {
                return Ok(());
            }
            st.pos += 1;
        }
    }
}

/// Error list updates, shared by the model and the real strategies.
pub fn upd<T>(k: u8, v: &mut Vec<T>, fresh: impl FnOnce() -> T) {
    match k {
        0 => v.push(fresh()),
        1 => {
            v.clear();
            v.push(fresh());
        }
        2 => v.reverse(),
        3 => v.truncate(1),
        _ => {
            if v.len() > 1 {
                v.remove(0);
            }
        }
    }
}
