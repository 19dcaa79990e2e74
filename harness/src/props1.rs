//! Properties decided over generated grammars: language, backtracking,
//! failures, recovery, locations, equivalences, error types, totality, sharing.

use crate::ast::*;
use crate::common::*;
use crate::construct::*;
use crate::engine::*;
use crate::model::*;
use crate::tok::*;
use crate::with_ek;
use parse_proof_of_concept::error::Error;
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::stream;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::rc::Rc;

// ---------------------------------------------------------------- C01

pub fn c01(s: &mut Src, ctx: &Ctx) -> Outcome {
    let p = Prof { end: 3, rep: 10, recur: 5, choice: 12, ..Prof::base() };
    let c = gen_case(s, p, ctx, &[EK::Simple]);
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, false) else { return Outcome::discard() };
    let o = match observe(&c, false, m.steps) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("{e}; the grammar gives {}", show(&m.mr))),
    };
    match (&m.mr, &o.mr) {
        (MR::S(a), MR::S(b)) => {
            if erase(a, true, true) != erase(b, true, true) {
                return fail(&c, format!("tree {b:?}, the PEG derivation gives {a:?}"));
            }
            if o.end != m.end {
                return fail(&c, format!("consumed {} tokens, the PEG derivation consumes {}", o.end, m.end));
            }
            if o.left.iter().map(|t| t.0).collect::<Vec<_>>() != c.toks[m.end..] {
                return fail(&c, format!("tokens left: {:?} after consuming {}", o.left, m.end));
            }
        }
        (MR::F(..), MR::F(..)) => {}
        (a, b) => return fail(&c, format!("got {}, the PEG gives {}", show(b), show(a))),
    }
    // The entry points agree where there is nothing to recover from. They parse with
    // recovery on, which user parsers that recover by themselves may make a difference to.
    let bare = c.g.stripped();
    let on = if s.chance(1, 4) { predict_from(&c, &bare, &pos, true, 0, FUEL) } else { None };
    if let Some(on) = on.filter(|on| variant(&on.mr) != 1) {
        let r = guarded(|| {
            let p = build::<ES>(&bare, &mut Cx::new(false));
            budget(on.steps);
            let (src, _) = Source::new(&c.toks);
            let r = p.parse(src).ok();
            no_budget();
            r
        });
        no_budget();
        match (r, &on.mr) {
            (Ok(Some(t)), MR::S(a)) if erase(&t, true, true) == erase(a, true, true) => {}
            (Ok(None), MR::F(..)) => {}
            (r, a) => return fail(&c, format!("parse() gave {r:?}, the PEG gives {}", show(a))),
        }
    }
    let success = matches!(m.mr, MR::S(_));
    let nt = (success && m.end > 0 && m.steps >= 4) || (m.backtracks > 0) || m.alts_failed > 0;
    let mut l = vec![if success { "success" } else { "failure" }];
    if m.backtracks > 0 {
        l.push("backtracked");
    }
    if m.alts_failed > 0 {
        l.push("alternative failed");
    }
    if c.g.has(&|g| matches!(g, G::Var(_))) {
        l.push("recursive");
    }
    if c.toks.len() > 20 {
        l.push("input > 20 tokens");
    }
    pass(&c, ctx, nt, l)
}

// ---------------------------------------------------------------- C02

pub fn c02(s: &mut Src, ctx: &Ctx) -> Outcome {
    let p = Prof { recover: 3, ..Prof::base() };
    let c = gen_case(s, p, ctx, &[EK::Simple, EK::Rich]);
    let rec = s.chance(2, 3);
    let mode = s.us(8) as u8;
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, rec) else { return Outcome::discard() };
    let sh = Rc::new(ProbeShared {
        toks: c.toks.clone(),
        pos: pos.clone(),
        problems: Default::default(),
        failures_after_progress: Cell::new(0),
        invocations: Cell::new(0),
        mode,
    });
    let r = with_ek!(c.ek, E, observe_e::<E>(&c, &c.g, rec, m.steps * 4, Some(sh.clone())));
    let o = match r {
        Ok(o) => o,
        Err(e) => return fail(&c, e),
    };
    if let Some(p) = sh.problems.borrow().first() {
        return fail(&c, format!("recovery {rec}, probe mode {mode}: {p}"));
    }
    if let MR::F(..) = o.mr {
        if o.end != 0 {
            return fail(&c, format!("failed parse left the cursor at {}", o.end));
        }
    }
    if o.left != rest(&c.toks, o.end) {
        return fail(&c, format!("after stopping at {} the stream holds {:?}", o.end, o.left));
    }
    let f = sh.failures_after_progress.get();
    let mut l = vec![];
    if f > 0 {
        l.push("failure after progress");
    }
    if m.strat_runs > 0 {
        l.push("strategy ran");
    }
    pass(&c, ctx, f > 0, l)
}

// ---------------------------------------------------------------- C03

pub fn c03(s: &mut Src, ctx: &Ctx) -> Outcome {
    let p = Prof { choice: 18, maperr: 4, end: 4, ..Prof::base() };
    let c = gen_case(s, p, ctx, &[EK::Simple, EK::Rich]);
    // There is no strategy in these grammars, so recovery changes a failure only
    // where a user parser recovers by itself.
    let rec = s.chance(1, 4);
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, rec) else { return Outcome::discard() };
    let MR::F(i, es) = &m.mr else {
        return pass(&c, ctx, false, vec!["parse succeeds"]);
    };
    accessors_reset();
    let o = match observe(&c, rec, m.steps) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("{e}; expected {}", show(&m.mr))),
    };
    let MR::F(j, fs) = &o.mr else {
        return fail(&c, format!("got {} although the grammar does not match: {}", show(&o.mr), show(&m.mr)));
    };
    if i != j {
        return fail(&c, format!("failure reported at {j}, the furthest alternative failed at {i}; errors {fs:?}"));
    }
    if es != fs {
        return fail(&c, format!("errors {fs:?}\nexpected {es:?}"));
    }
    if let Some(m) = accessors_bad() {
        return fail(&c, m);
    }
    let mut l = vec!["failure"];
    if m.merged > 0 {
        l.push("expected sets merged");
    }
    if es.iter().any(|e| !matches!(e, ME::Exp(..))) {
        l.push("custom error");
    }
    if es.len() > 1 {
        l.push("several errors");
    }
    if *i > 0 {
        l.push("failure after progress");
    }
    let nt = *i > 0 || m.merged > 0 || m.alts_failed > 0;
    pass(&c, ctx, nt, l)
}

// ---------------------------------------------------------------- C04

fn first_err<E: ErrX>(c: &Case, steps: u64) -> Result<Result<Tree, ME>, String> {
    guarded(|| {
        let p = build::<E>(&c.g, &mut Cx::new(c.clone));
        budget(steps);
        let (src, _) = Source::new(&c.toks);
        let r = p.parse_with_location(src, E::start(&c.cfg)).map_err(|e| e.me());
        no_budget();
        r
    })
    .map_err(|m| {
        no_budget();
        m
    })
}

pub fn c04(s: &mut Src, ctx: &Ctx) -> Outcome {
    let p = Prof { recover: 8, trymap: 5, rep: 9, choice: 8, ..Prof::base() };
    let c = gen_case(s, p, ctx, &[EK::Simple, EK::Rich]);
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, true) else { return Outcome::discard() };
    let stripped = c.g.stripped();
    let Some(m0) = predict_from(&c, &stripped, &pos, false, 0, FUEL) else { return Outcome::discard() };
    let st = m.steps + m0.steps;
    let on = match observe(&c, true, st) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("with recovery: {e}; expected {}", show(&m.mr))),
    };
    let off = match observe(&c, false, st) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("without recovery: {e}")),
    };
    let bare = match observe_g(&c, &stripped, false, st) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("without strategies: {e}")),
    };
    // Strategies are invisible while recovery is off.
    if off.mr != bare.mr || off.end != bare.end {
        return fail(&c, format!("without recovery {} (at {})\nwithout strategies {} (at {})", show(&off.mr), off.end, show(&bare.mr), bare.end));
    }
    if let MR::R(..) = off.mr {
        return fail(&c, format!("recovered although recovery is off: {}", show(&off.mr)));
    }
    // Plain success exactly if there is nothing to recover from.
    match (&bare.mr, &on.mr) {
        (MR::S(a), MR::S(b)) => {
            if a != b || on.end != bare.end || on.left != bare.left {
                return fail(&c, format!("valid input: with recovery {b:?} (at {}), without {a:?} (at {})", on.end, bare.end));
            }
        }
        (MR::S(_), r) => return fail(&c, format!("valid input, but with recovery {}", show(r))),
        (_, MR::S(t)) => return fail(&c, format!("invalid input reported as success: {t:?}; without recovery {}", show(&off.mr))),
        _ => {}
    }
    if !matches!(on.mr, MR::S(_)) && errs_of(&on.mr).is_empty() {
        return fail(&c, format!("no errors in {}", show(&on.mr)));
    }
    // The errors recovered from are all there, in order.
    if let (MR::R(..), MR::R(..)) = (&on.mr, &m.mr) {
        if errs_of(&on.mr) != errs_of(&m.mr) {
            return fail(&c, format!("errors {:?}\nexpected {:?}", errs_of(&on.mr), errs_of(&m.mr)));
        }
    }
    if variant(&on.mr) != variant(&m.mr) {
        return fail(&c, format!("got {}\nexpected {}", show(&on.mr), show(&m.mr)));
    }
    // The error-only entry point.
    let fe = with_ek!(c.ek, E, first_err::<E>(&c, st));
    match (&fe, &on.mr) {
        (Ok(Ok(a)), MR::S(b)) if a == b => {}
        (Ok(Err(e)), MR::R(_, es) | MR::F(_, es)) if Some(e) == es.first() => {}
        _ => return fail(&c, format!("parse() gave {fe:?}, parse with recovery gave {}", show(&on.mr))),
    }
    let mut l = vec![["success", "recovered", "failed"][variant(&on.mr) as usize]];
    if m.recoveries > 1 {
        l.push("several recoveries");
    }
    let nt = m.recoveries > 0 || m.strat_runs > 0 || (variant(&on.mr) == 0 && c.g.has(&|g| matches!(g, G::Recover(..) | G::TryMap(..))) && m.end > 0);
    pass(&c, ctx, nt, l)
}

// ---------------------------------------------------------------- C05

pub fn c05(s: &mut Src, ctx: &Ctx) -> Outcome {
    let ek = *s.pick(&[EK::Simple, EK::Rich]);
    let mut p = Prof { recover: 10, rep: 6, ..Prof::base() };
    let limit = vary(s, &mut p, ctx.thorough);
    let cfg = if ek == EK::Rich { loc_cfg(s) } else { LocCfg::default() };
    let clone = s.chance(1, 4);
    let top = s.chance(1, 2);
    if top {
        p.max_nodes = 12;
        p.recover = 3;
    }
    let mut gen = Gen::new(s, p);
    let mut g = gen.grammar();
    if top {
        let st = gen.strat();
        g = G::Recover(Box::new(g), st);
    }
    let toks = gen.input(&g, limit);
    let c = Case { g, toks, cfg, ek, clone };
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, true) else { return Outcome::discard() };
    if m.strat_runs == 0 {
        return pass(&c, ctx, false, vec!["no strategy ran"]);
    }
    let o = match observe(&c, true, m.steps) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("{e}; expected {}", show(&m.mr))),
    };
    if o.mr != m.mr {
        return fail(&c, format!("got {}\nexpected {}", show(&o.mr), show(&m.mr)));
    }
    if o.end != m.end {
        return fail(&c, format!("stopped at {}, expected {}", o.end, m.end));
    }
    if o.left != rest(&c.toks, m.end) {
        return fail(&c, format!("tokens left {:?} after {}", o.left, m.end));
    }
    let mut l = vec!["strategy ran", ["success", "recovered", "failed"][variant(&o.mr) as usize]];
    if m.strat_runs > 1 {
        l.push("several strategy runs");
    }
    pass(&c, ctx, true, l)
}

// ---------------------------------------------------------------- C06, general items

/// Repetition of arbitrary items with arbitrary separators, which may fail
/// after progress, nest or recover by themselves.
pub fn c06_general(s: &mut Src, ctx: &Ctx) -> Outcome {
    let ek = *s.pick(&[EK::Simple, EK::Void]);
    let mut p = Prof { recover: 4, rep: 8, max_nodes: 14, ..Prof::base() };
    let limit = vary(s, &mut p, ctx.thorough);
    p.max_nodes = p.max_nodes.min(14);
    let clone = s.chance(1, 4);
    let rec = s.bool();
    let mut gen = Gen::new(s, p);
    gen.budget = 2 + gen.s.size(12) as i64;
    let mut r = gen.rep(false);
    if gen.s.chance(1, 3) {
        let st = gen.strat();
        r.item = Box::new(G::Recover(r.item, st));
    }
    if gen.s.chance(1, 3) {
        let st = gen.strat();
        r.sep = r.sep.map(|x| Box::new(G::Recover(x, st)));
    }
    let mut g = G::Rep(r);
    // Followed by something that must see where the repetition stopped.
    if gen.s.bool() {
        let c = gen.c();
        g = G::Then(Box::new(g), Box::new(G::OrNot(Box::new(G::Just(c)))));
    }
    let toks = gen.input(&g, limit);
    let c = Case { g, toks, cfg: LocCfg::default(), ek, clone };
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, rec) else { return Outcome::discard() };
    let o = match observe(&c, rec, m.steps) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("recovery {rec}: {e}; expected {}", show(&m.mr))),
    };
    if variant(&o.mr) != variant(&m.mr) || tree_of(&o.mr) != tree_of(&m.mr) {
        return fail(&c, format!("recovery {rec}: got {}\nexpected {}", show(&o.mr), show(&m.mr)));
    }
    if o.end != m.end || o.left != rest(&c.toks, m.end) {
        return fail(&c, format!("recovery {rec}: stopped at {}, tokens left {:?}, expected to stop at {}", o.end, o.left, m.end));
    }
    pass(&c, ctx, m.end > 0 || !matches!(m.mr, MR::S(_)) && c.toks.len() > 1, vec!["general items", ["success", "recovered", "failed"][variant(&o.mr) as usize]])
}

// ---------------------------------------------------------------- C10

fn blank_me(e: &ME) -> ME {
    match e {
        ME::Exp(s, f, at) => ME::Exp(s.clone(), *f, blank_at(at)),
        ME::UL(t, _, at) => ME::UL(*t, ([0; 4], [0; 4]), blank_at(at)),
        ME::UR(t, _, at) => ME::UR(*t, ([0; 4], [0; 4]), blank_at(at)),
        ME::UT(t, _, u, _) => ME::UT(*t, ([0; 4], [0; 4]), *u, ([0; 4], [0; 4])),
        // messages may embed locations
        ME::Cust(_, at) => ME::Cust(String::new(), blank_at(at)),
        ME::Void => ME::Void,
    }
}
fn blank_at(a: &MAt) -> MAt {
    match a {
        MAt::None => MAt::None,
        MAt::Loc(_) => MAt::Loc([0; 4]),
        MAt::Sp(_) => MAt::Sp(([0; 4], [0; 4])),
    }
}
fn blank(r: &MR) -> (u8, Option<Tree>, Vec<ME>) {
    (variant(r), tree_of(r).map(|t| erase(t, true, false)), errs_of(r).iter().map(blank_me).collect())
}
fn has_spans(t: &Tree) -> bool {
    match t {
        Tree::Span(..) => true,
        Tree::Some(t) | Tree::Tag(_, t) => has_spans(t),
        Tree::Pair(a, b) => has_spans(a) || has_spans(b),
        Tree::List(v) => v.iter().any(has_spans),
        _ => false,
    }
}

pub fn c10(s: &mut Src, ctx: &Ctx) -> Outcome {
    let p = Prof { span: 10, recover: 4, maperr: 5, trymap: 5, user: 6, ..Prof::base() };
    let c = gen_case(s, p, ctx, &[EK::Rich, EK::Rich, EK::Rich, EK::Simple]);
    let rec = s.chance(2, 3);
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, rec) else { return Outcome::discard() };
    let sh = Rc::new(ProbeShared {
        toks: c.toks.clone(),
        pos: pos.clone(),
        problems: Default::default(),
        failures_after_progress: Cell::new(0),
        invocations: Cell::new(0),
        mode: 2 | 4 | (s.us(2) as u8),
    });
    let probe = if s.chance(1, 2) { Some(sh.clone()) } else { None };
    accessors_reset();
    let o = match with_ek!(c.ek, E, observe_e::<E>(&c, &c.g, rec, m.steps * 4, probe)) {
        Ok(o) => o,
        Err(e) => return fail(&c, e),
    };
    if let Some(m) = accessors_bad() {
        return fail(&c, m);
    }
    for p in sh.problems.borrow().iter() {
        if p.contains("location") || p.contains("span") {
            return fail(&c, format!("recovery {rec}: {p}"));
        }
    }
    // Only the positions are this property's business.
    if blank(&o.mr) != blank(&m.mr) {
        return pass(&c, ctx, false, vec!["differs in more than positions"]);
    }
    if o.mr != m.mr {
        return fail(&c, format!("recovery {rec}: got {}\nexpected {}", show(&o.mr), show(&m.mr)));
    }
    let nt = errs_of(&m.mr).iter().any(|e| blank_me(e) != *e || !matches!(e, ME::Cust(..))) || tree_of(&m.mr).map(has_spans) == Some(true);
    let mut l = vec![["success", "recovered", "failed"][variant(&o.mr) as usize]];
    if c.ek == EK::Rich {
        l.push("rich locations");
    }
    pass(&c, ctx, nt && (m.end > 0 || !c.toks.is_empty()), l)
}

// ---------------------------------------------------------------- C13

fn norm(t: &Tree) -> Tree {
    match t {
        Tree::Pair(a, b) => Tree::List(vec![norm(a), norm(b)]),
        Tree::List(v) => Tree::List(v.iter().map(norm).collect()),
        Tree::Some(t) => Tree::Some(Box::new(norm(t))),
        Tree::Tag(k, t) => Tree::Tag(*k, Box::new(norm(t))),
        Tree::Span(s, t) => Tree::Span(*s, Box::new(norm(t))),
        t => t.clone(),
    }
}
fn flat(t: &Tree, out: &mut Vec<Tree>) {
    match t {
        Tree::Pair(a, b) => {
            flat(a, out);
            flat(b, out)
        }
        Tree::List(v) => v.iter().for_each(|t| flat(t, out)),
        t => out.push(t.clone()),
    }
}
fn norm_mr(r: &MR) -> MR {
    match r {
        MR::S(t) => MR::S(norm(t)),
        MR::R(t, e) => MR::R(norm(t), e.clone()),
        r => r.clone(),
    }
}

/// One rewriting of the node by a documented equivalence, if one applies.
fn rewrite(g: &G, s: &mut Src) -> Option<(G, &'static str)> {
    let bx = |g: &G| Box::new(g.clone());
    let closed = !g.has(&|g| matches!(g, G::Var(_)));
    match s.us(4) {
        0 => return Some((G::Boxed(bx(g)), "boxed")),
        1 => return Some((G::WithErr(bx(g)), "with_error")),
        2 if closed => return Some((G::Rec(bx(g), s.us(3) as u8), "recursive")),
        _ => {}
    }
    Some(match g {
        G::Delim(l, m, r) => (G::ThenIgnore(Box::new(G::IgnoreThen(l.clone(), m.clone())), r.clone()), "delimited_by"),
        G::Padded(a, m) => (G::Delim(a.clone(), m.clone(), a.clone()), "padded_by"),
        G::Then(a, b) => (G::Chain(vec![(**a).clone(), (**b).clone()]), "then/chain"),
        G::Chain(v) if v.len() == 2 => (G::Then(bx(&v[0]), bx(&v[1])), "chain/then"),
        G::Chain(v) if v.len() >= 3 && v[1..].iter().all(|g| *g == v[0]) => {
            (G::Rep(Rep { item: bx(&v[0]), sep: None, min: v.len(), max: Some(v.len()), lead: false, trail: false, style: s.us(4) as u8 }), "chain/exactly")
        }
        G::OrNot(a) => {
            let (x, y) = (Box::new(G::SomeP(a.clone())), Box::new(G::NoneP));
            (if s.bool() { G::Or(x, y) } else { G::Alters(vec![*x, *y]) }, "or_not")
        }
        G::Or(a, b) => (G::Alters(vec![(**a).clone(), (**b).clone()]), "or/alters"),
        G::Alters(v) if v.len() == 2 => (G::Or(bx(&v[0]), bx(&v[1])), "alters/or"),
        G::Rep(r) if r.sep.is_none() && r.max == Some(r.min) && r.min >= 2 => {
            (G::Chain((0..r.min).map(|_| (*r.item).clone()).collect()), "exactly/chain")
        }
        G::Rep(r) => (G::Rep(Rep { style: s.us(4) as u8, ..r.clone() }), "repetition options"),
        G::Recover(a, st) => {
            let style = s.us(4) as u8;
            (G::Recover(a.clone(), Strat { style, ..st.clone() }), "strategy shorthands")
        }
        G::Seq(v, _) | G::OneOf(v, _) | G::NoneOf(v, _) => {
            let n = v.len();
            let cks: &[CK] = match n {
                1 => &[CK::Vec, CK::RefVec, CK::Slice, CK::Arr, CK::RefArr, CK::Single],
                2 | 3 => &[CK::Vec, CK::RefVec, CK::Slice, CK::Arr, CK::RefArr],
                _ => &[CK::Vec, CK::RefVec, CK::Slice],
            };
            let ck = *s.pick(cks);
            (
                match g {
                    G::Seq(..) => G::Seq(v.clone(), ck),
                    G::OneOf(..) => G::OneOf(v.clone(), ck),
                    _ => G::NoneOf(v.clone(), ck),
                },
                "container kind",
            )
        }
        G::Just(c) => (G::OneOf(vec![*c], CK::Vec), "just/one_of"),
        G::Rec(a, _) if closed => ((**a).clone(), "recursive without use"),
        G::Rec(a, _) => (G::Rec(a.clone(), s.us(3) as u8), "recursive/declare"),
        G::Boxed(a) | G::WithErr(a) => ((**a).clone(), "unboxed"),
        _ => return None,
    })
}

/// Rewrites some nodes; returns the kinds of rewriting done.
fn rewrite_some(g: &G, s: &mut Src, n: &mut i32, done: &mut Vec<&'static str>) -> G {
    let mut h = g.clone();
    if *n > 0 && s.chance(1, 3) {
        if let Some((x, l)) = rewrite(&h, s) {
            *n -= 1;
            done.push(l);
            h = x;
        }
    }
    map_children(&h, &mut |c| rewrite_some(c, s, n, done))
}

pub fn map_children(g: &G, f: &mut dyn FnMut(&G) -> G) -> G {
    macro_rules! b {
        ($x:expr) => {
            Box::new(f($x))
        };
    }
    match g {
        G::To(a, k) => G::To(b!(a), *k),
        G::Ignored(a) => G::Ignored(b!(a)),
        G::SomeP(a) => G::SomeP(b!(a)),
        G::Map(a, k) => G::Map(b!(a), *k),
        G::MapSpan(a) => G::MapSpan(b!(a)),
        G::MapErr(a, k) => G::MapErr(b!(a), k.clone()),
        G::MapErrSpan(a, k) => G::MapErrSpan(b!(a), *k),
        G::TryMap(a, k) => G::TryMap(b!(a), k.clone()),
        G::Then(x, y) => G::Then(b!(x), b!(y)),
        G::ThenIgnore(x, y) => G::ThenIgnore(b!(x), b!(y)),
        G::IgnoreThen(x, y) => G::IgnoreThen(b!(x), b!(y)),
        G::Delim(x, y, z) => G::Delim(b!(x), b!(y), b!(z)),
        G::Padded(x, y) => G::Padded(b!(x), b!(y)),
        G::Chain(v) => G::Chain(v.iter().map(f).collect()),
        G::Or(x, y) => G::Or(b!(x), b!(y)),
        G::OrNot(a) => G::OrNot(b!(a)),
        G::Alters(v) => G::Alters(v.iter().map(f).collect()),
        G::Rep(r) => G::Rep(Rep { item: b!(&r.item), sep: r.sep.as_ref().map(|x| b!(x)), ..r.clone() }),
        G::Recover(a, st) => G::Recover(b!(a), st.clone()),
        G::Boxed(a) => G::Boxed(b!(a)),
        G::WithErr(a) => G::WithErr(b!(a)),
        G::Rec(a, k) => G::Rec(b!(a), *k),
        g => g.clone(),
    }
}

pub fn c13(s: &mut Src, ctx: &Ctx) -> Outcome {
    if s.chance(1, 4) {
        return c13_assoc(s, ctx);
    }
    let p = Prof { recover: 5, boxed: 2, choice: 12, ..Prof::base() };
    let mut c = gen_case(s, p, ctx, &[EK::Simple, EK::Rich]);
    c.clone = false;
    let rec = s.bool();
    let mut kinds = vec![];
    let mut n = 1 + s.us(4) as i32;
    let mut h = rewrite_some(&c.g, s, &mut n, &mut kinds);
    if kinds.is_empty() {
        if let Some((x, l)) = rewrite(&c.g, s) {
            h = x;
            kinds.push(l);
        }
    }
    let clone = s.chance(1, 4);
    if clone {
        kinds.push("cloned");
    }
    if kinds.is_empty() {
        return Outcome::discard();
    }
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, rec) else { return Outcome::discard() };
    let a = match observe(&c, rec, m.steps) {
        Ok(o) => o,
        Err(e) => return fail(&c, e),
    };
    let d = Case { g: h, toks: c.toks.clone(), cfg: c.cfg.clone(), ek: c.ek, clone };
    let b = match observe(&d, rec, m.steps * 4) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("{e}\nrewritten as {:?}", d.g)),
    };
    if norm_mr(&a.mr) != norm_mr(&b.mr) || a.end != b.end || a.left != b.left {
        return fail(
            &c,
            format!(
                "recovery {rec}: {} stopping at {}\nrewritten by {kinds:?} as {:?}\n{} stopping at {}",
                show(&a.mr),
                a.end,
                d.g,
                show(&b.mr),
                b.end
            ),
        );
    }
    let nt = m.end > 0 || m.steps > 6;
    let mut o = pass(&c, ctx, nt, kinds);
    if nt {
        o.hash = hash_of(&(o.hash, d.hash()));
        if ctx.want_desc {
            o.desc = format!("{}\nrewritten: {:?}", o.desc, d.g);
        }
    }
    o
}

fn c13_assoc(s: &mut Src, ctx: &Ctx) -> Outcome {
    let ek = EK::Simple;
    let mut p = Prof { max_nodes: 10, ..Prof::base() };
    p.nsym = 2 + s.us(2);
    let choice = s.bool();
    let n = 3 + s.us(3);
    let mut gen = Gen::new(s, p);
    let parts: Vec<G> = (0..n).map(|_| gen.grammar()).collect();
    let seq = |a: G, b: G| G::Then(Box::new(a), Box::new(b));
    let alt = |a: G, b: G| G::Or(Box::new(a), Box::new(b));
    let join = |a, b| if choice { alt(a, b) } else { seq(a, b) };
    fn tree(s: &mut Src, v: &[G], join: &dyn Fn(G, G) -> G) -> G {
        if v.len() == 1 {
            return v[0].clone();
        }
        let k = 1 + s.us(v.len() - 1);
        let a = tree(s, &v[..k], join);
        let b = tree(s, &v[k..], join);
        join(a, b)
    }
    let left = parts[1..].iter().cloned().fold(parts[0].clone(), &join);
    let toks = gen.input(&left, 40);
    let other = match gen.s.us(3) {
        0 => {
            let mut v = parts.clone();
            let mut acc = v.pop().unwrap();
            while let Some(x) = v.pop() {
                acc = join(x, acc);
            }
            acc
        }
        1 => {
            if choice {
                G::Alters(parts.clone())
            } else {
                G::Chain(parts.clone())
            }
        }
        _ => tree(gen.s, &parts, &join),
    };
    let c = Case { g: left, toks, cfg: LocCfg::default(), ek, clone: false };
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, false) else { return Outcome::discard() };
    let a = match observe(&c, false, m.steps) {
        Ok(o) => o,
        Err(e) => return fail(&c, e),
    };
    let b = match observe_g(&c, &other, false, m.steps * 4) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("{e}\nre-associated as {other:?}")),
    };
    let fl = |r: &MR| {
        tree_of(r).map(|t| {
            let mut v = vec![];
            if choice {
                v.push(t.clone())
            } else {
                flat(t, &mut v)
            }
            v
        })
    };
    if fl(&a.mr) != fl(&b.mr) || a.end != b.end {
        return fail(&c, format!("{} stopping at {}\nre-associated as {other:?}\n{} stopping at {}", show(&a.mr), a.end, show(&b.mr), b.end));
    }
    let mut o = pass(&c, ctx, m.end > 0, vec![if choice { "choice re-associated" } else { "sequence re-associated" }]);
    if o.nontrivial {
        o.hash = hash_of(&(o.hash, &other));
    }
    o
}

// ---------------------------------------------------------------- C14

/// Everything but what errors say and how rich positions are.
fn index_only(t: &Tree) -> Tree {
    match t {
        Tree::Span(s, t) => {
            let z = |p: Pos| [p[0], 0, 0, 0];
            Tree::Span((z(s.0), z(s.1)), Box::new(index_only(t)))
        }
        Tree::Note(_) => Tree::Note(String::new()),
        Tree::Some(t) => Tree::Some(Box::new(index_only(t))),
        Tree::Pair(a, b) => Tree::Pair(Box::new(index_only(a)), Box::new(index_only(b))),
        Tree::List(v) => Tree::List(v.iter().map(index_only).collect()),
        Tree::Tag(k, t) => Tree::Tag(*k, Box::new(index_only(t))),
        t => t.clone(),
    }
}
fn sig(o: &Obs) -> (u8, Option<Tree>, usize, usize, Option<usize>) {
    (
        variant(&o.mr),
        tree_of(&o.mr).map(index_only),
        errs_of(&o.mr).len(),
        o.end,
        match &o.mr {
            MR::F(i, _) => Some(*i),
            _ => None,
        },
    )
}

/// Parses with the given grammar under a root-level error transformation.
fn mapped<E: ErrX>(c: &Case, rec: bool, steps: u64, span: bool) -> Result<(Obs, usize), String> {
    guarded(|| {
        let p = build::<E>(&c.g, &mut Cx::new(c.clone));
        budget(steps);
        let count = Rc::new(Cell::new(0usize));
        let n = count.clone();
        let tag = move |e: E| {
            n.set(n.get() + 1);
            custom::<E>(format!("#{}:{:?}", n.get(), e.me()), parse_proof_of_concept::error::At::None)
        };
        let o = if span {
            observe_p::<E, _>(&p.map_err_with_span(move |e: E, _| tag(e)), &c.toks, &c.cfg, rec)
        } else {
            observe_p::<E, _>(&p.map_err(tag), &c.toks, &c.cfg, rec)
        };
        no_budget();
        (o, count.get())
    })
    .map_err(|m| {
        no_budget();
        format!("panic: {m}")
    })
}

/// Parses with ES, transforming the errors to Void at the root.
fn to_void(c: &Case, rec: bool, steps: u64, span: bool) -> Result<Obs, String> {
    guarded(|| {
        let p = build::<ES>(&c.g, &mut Cx::new(c.clone));
        budget(steps);
        let o = if span {
            observe_p::<EV, _>(&p.map_err_with_span(|_: ES, _| EV::default()), &c.toks, &c.cfg, rec)
        } else {
            observe_p::<EV, _>(&p.map_err(|_: ES| EV::default()), &c.toks, &c.cfg, rec)
        };
        no_budget();
        o
    })
    .map_err(|m| {
        no_budget();
        format!("panic: {m}")
    })
}

pub fn c14(s: &mut Src, ctx: &Ctx) -> Outcome {
    let p = Prof { recover: 4, maperr: 5, choice: 12, ..Prof::base() };
    let mut c = gen_case(s, p, ctx, &[EK::Rich]);
    let rec = s.bool();
    let span = s.bool();
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, rec) else { return Outcome::discard() };
    let mut obs = vec![];
    for ek in [EK::Simple, EK::Rich, EK::Void] {
        c.ek = ek;
        match observe(&c, rec, m.steps) {
            Ok(o) => obs.push(o),
            Err(e) => return fail(&c, format!("with {ek:?} errors: {e}")),
        }
    }
    c.ek = EK::Simple;
    for (k, o) in obs.iter().enumerate().skip(1) {
        if sig(&obs[0]) != sig(o) {
            return fail(
                &c,
                format!(
                    "recovery {rec}: with Simple errors {} at {}\nwith {} {} at {}",
                    show(&obs[0].mr),
                    obs[0].end,
                    ["", "rich-location errors", "Void errors"][k],
                    show(&o.mr),
                    o.end
                ),
            );
        }
    }
    // A transformation at the root sees every reported error once, in order.
    let (t, calls) = match mapped::<ES>(&c, rec, m.steps, span) {
        Ok(x) => x,
        Err(e) => return fail(&c, e),
    };
    let want: Vec<ME> = errs_of(&obs[0].mr).iter().enumerate().map(|(i, e)| ME::Cust(format!("#{}:{e:?}", i + 1), MAt::None)).collect();
    if errs_of(&t.mr) != want || calls != want.len() {
        return fail(&c, format!("errors {:?} were transformed to {:?} by {calls} calls", errs_of(&obs[0].mr), errs_of(&t.mr)));
    }
    if sig(&t) != sig(&obs[0]) {
        return fail(&c, format!("transforming the errors changes {} into {}", show(&obs[0].mr), show(&t.mr)));
    }
    let v = match to_void(&c, rec, m.steps, span) {
        Ok(x) => x,
        Err(e) => return fail(&c, e),
    };
    if sig(&v) != sig(&obs[0]) {
        return fail(&c, format!("changing the error type at the root changes {} into {}", show(&obs[0].mr), show(&v.mr)));
    }
    // Transformations at inner nodes: exactly once each, compared with the model.
    let inner = c.g.has(&|g| matches!(g, G::MapErr(..) | G::MapErrSpan(..)));
    if inner {
        let Some(ms) = predict(&c, &c.pos(), rec) else { return Outcome::discard() };
        let msgs = |r: &MR| -> Vec<ME> { errs_of(r).iter().map(unspanned).collect() };
        if variant(&ms.mr) == variant(&obs[0].mr) && msgs(&ms.mr) != msgs(&obs[0].mr) {
            return fail(&c, format!("errors {:?}\nexpected {:?}", errs_of(&obs[0].mr), errs_of(&ms.mr)));
        }
    }
    let mut l = vec![["success", "recovered", "failed"][variant(&t.mr) as usize]];
    if inner {
        l.push("inner error transformation");
    }
    pass(&c, ctx, variant(&t.mr) != 0, l)
}
fn unspanned(e: &ME) -> ME {
    match e {
        ME::Cust(m, a) => ME::Cust(m.clone(), blank_at(a)),
        e => e.clone(),
    }
}

// ---------------------------------------------------------------- C17

pub fn c17(s: &mut Src, ctx: &Ctx) -> Outcome {
    let p = Prof { recover: 6, rep: 9, recur: 5, ..Prof::base() };
    let mut c = gen_case(s, p, ctx, &[EK::Simple, EK::Rich, EK::Void]);
    if s.chance(1, 20) {
        // Deeply nested input for a recursive grammar.
        let n = 50 + s.us(if ctx.thorough { 700 } else { 250 });
        c.g = G::Rec(
            Box::new(G::Or(
                Box::new(G::Delim(Box::new(G::Just(0)), Box::new(G::Rep(Rep { item: Box::new(G::Var(0)), sep: None, min: 0, max: None, lead: false, trail: false, style: 0 })), Box::new(G::Just(1)))),
                Box::new(G::Just(2)),
            )),
            s.us(3) as u8,
        );
        let mut t = vec![0; n];
        let cut = s.us(4);
        t.extend(std::iter::repeat_n(1, n.saturating_sub(cut)));
        c.toks = t;
    }
    let rec = s.chance(3, 4);
    let pos = c.pos();
    let mut m = Model::new(&c.toks, &pos, c.ek, FUEL * 4);
    let mut end = 0;
    let r = m.run(&c.g, &mut vec![], &mut end, rec);
    if r.is_err() {
        return Outcome::discard();
    }
    let (steps, backtracks, strat) = (m.steps, m.backtracks, m.strat_runs);
    let o = match observe(&c, rec, steps) {
        Ok(o) => o,
        Err(e) => return fail(&c, format!("recovery {rec}: {e}")),
    };
    if o.end > c.toks.len() || o.left.len() > c.toks.len() {
        return fail(&c, format!("cursor at {} of {} tokens", o.end, c.toks.len()));
    }
    // The public entry points are total as well.
    let both = [false, true].map(|rec| predict_from(&c, &c.g, &pos, rec, 0, FUEL * 4).map(|m| m.steps));
    if let (true, [Some(s0), Some(s1)]) = (s.chance(1, 4), both) {
        let r = guarded(|| {
            let p = build::<ES>(&c.g, &mut Cx::new(false));
            budget((s0 + s1) * 4);
            let _ = p.parse(Source::new(&c.toks).0).is_ok();
            let _ = p.parse_with_recovery(Source::new(&c.toks).0).is_ok();
            let mut st = p.stream(Source::new(&c.toks).0);
            let first = st.next().is_some();
            let n = st.tail().take(c.toks.len() + 2).count();
            no_budget();
            (first, n)
        });
        no_budget();
        match r {
            Err(e) => return fail(&c, format!("entry points: panic: {e}")),
            Ok((first, n)) => {
                if first == c.toks.is_empty() || n > c.toks.len() {
                    return fail(&c, format!("streaming gave first={first}, {n} tokens left"));
                }
            }
        }
    }
    let mut l = vec![];
    if strat > 0 {
        l.push("strategy ran");
    }
    if backtracks > 0 {
        l.push("backtracked");
    }
    pass(&c, ctx, strat > 0 || backtracks > 0 || steps > 20, l)
}

/// Documented misuse is rejected loudly; everything else is not.
pub fn c17_misuse(_: &Opts) -> Extra {
    use parse_proof_of_concept::recursive::Recursive;
    let mut fail = None;
    let mut evals = 0;
    let mut must = |name: &str, panics: bool, f: &mut dyn FnMut()| {
        evals += 1;
        let r = guarded(&mut *f);
        if r.is_err() != panics && fail.is_none() {
            fail = Some(format!("{name}: {}", if panics { "accepted silently".to_string() } else { format!("panicked: {}", r.unwrap_err()) }));
        }
    };
    let undefined = || Recursive::<'static, Tok, Tree, ES>::declare();
    must("parsing with an undefined recursive parser", true, &mut || {
        let _ = undefined().parse_with_recovery(Source::new(&[0, 1]).0);
    });
    must("parsing nothing with an undefined recursive parser", true, &mut || {
        let _ = undefined().parse(Source::new(&[]).0);
    });
    must("an undefined recursive parser that is not reached", false, &mut || {
        let r = undefined();
        let p = build::<ES>(&G::Just(0), &mut Cx::new(false)).or(build::<ES>(&G::Just(1), &mut Cx::new(false)).ignore_then(r));
        let _ = p.parse(Source::new(&[0]).0);
    });
    must("an undefined recursive parser reached through a clone", true, &mut || {
        let r = undefined();
        let p = build::<ES>(&G::Just(1), &mut Cx::new(false)).ignore_then(r.clone());
        let _ = p.parse(Source::new(&[1]).0);
    });
    must("defining a recursive parser twice", true, &mut || {
        let mut r = undefined();
        r.define(build::<ES>(&G::Just(0), &mut Cx::new(false)));
        r.define(build::<ES>(&G::Just(1), &mut Cx::new(false)));
    });
    must("defining a recursive parser twice through a clone", true, &mut || {
        let mut r = undefined();
        let mut q = r.clone();
        r.define(build::<ES>(&G::Just(0), &mut Cx::new(false)));
        q.define(build::<ES>(&G::Just(0), &mut Cx::new(false)));
    });
    must("defining two recursive parsers once each", false, &mut || {
        let (mut r, mut q) = (undefined(), undefined());
        r.define(build::<ES>(&G::Just(0), &mut Cx::new(false)));
        q.define(build::<ES>(&G::Just(0), &mut Cx::new(false)));
        assert!(r.parse(Source::new(&[0]).0).is_ok() && q.parse(Source::new(&[1]).0).is_err());
    });
    for n in [1usize, 2, 5, 40] {
        for to in 0..=n {
            must(&format!("advancing from {n} to {to}"), to < n, &mut || {
                let (src, _) = Source::new(&[0; 50]);
                let mut s: St<ES> = stream::Stream::new(src);
                for _ in 0..n {
                    s.advance();
                }
                s.advance_to(to);
                assert!(s.index() == n);
            });
            must(&format!("saving at {to} from {n}"), to < n, &mut || {
                let (src, _) = Source::new(&[0; 50]);
                let mut s: St<ES> = stream::Stream::new(src);
                for _ in 0..n {
                    s.advance();
                }
                let m = s.save_at(to);
                assert!(s.index_at(&m) == n);
            });
        }
    }
    Extra { evals, note: "misuse cases (undefined or twice defined recursive parser, advancing or saving backwards) and their legal neighbours".into(), fail, known: vec![] }
}

// ---------------------------------------------------------------- C18

fn results_of(p: &P<ES>, toks: &[C]) -> Vec<(MR, usize)> {
    // Streaming results, ending when nothing is consumed any more.
    let (src, _) = Source::new(toks);
    let mut st: St<ES> = stream::Stream::new_with_location(src, Default::default());
    let mut v = vec![];
    while v.len() < 60 && !st.eof() {
        let i = st.index();
        let r = p.parse_internal(&mut st, true);
        v.push((to_mr::<ES>(&r), st.index()));
        if st.index() == i {
            break;
        }
    }
    v
}

pub fn c18(s: &mut Src, ctx: &Ctx) -> Outcome {
    let mut p = Prof { recover: 4, ..Prof::base() };
    vary(s, &mut p, false);
    let n_in = 2 + s.us(3);
    let mut gen = Gen::new(s, p);
    let g = gen.grammar();
    let inputs: Vec<Vec<C>> = (0..n_in)
        .map(|_| {
            let mut t = gen.input(&g, 30);
            if gen.s.bool() {
                t.extend(gen.input(&g, 20));
            }
            t
        })
        .collect();
    let c = Case { g, toks: inputs[0].clone(), cfg: LocCfg::default(), ek: EK::Simple, clone: false };
    // Domain: terminating on all inputs from all positions the streams reach.
    let mut steps = 0;
    for t in &inputs {
        let d = Case { g: c.g.clone(), toks: t.clone(), cfg: LocCfg::default(), ek: EK::Simple, clone: false };
        let pos = d.pos();
        let mut at = 0;
        loop {
            let Some(m) = predict_from(&d, &d.g, &pos, true, at, FUEL) else { return Outcome::discard() };
            steps += m.steps;
            if m.end <= at || m.end >= t.len() {
                break;
            }
            at = m.end;
        }
    }
    let schedule: Vec<(usize, usize)> = {
        let n = 4 + s.us(30);
        (0..n).map(|_| (s.us(8), s.us(n_in))).collect()
    };
    let desc = format!("{}\nother inputs: {:?}, schedule {schedule:?}", c.desc(), inputs[1..].iter().map(|t| Toks(t).to_string()).collect::<Vec<_>>());
    let r = guarded(|| -> Result<usize, String> {
        budget(steps * 60);
        // Isolated runs, each with its own parser.
        let iso: Vec<Vec<(MR, usize)>> = inputs.iter().map(|t| results_of(&build::<ES>(&c.g, &mut Cx::new(false)), t)).collect();
        let shared = build::<ES>(&c.g, &mut Cx::new(false));
        let cloned = build::<ES>(&c.g, &mut Cx::new(true));
        // A parser that runs other parses through a shared clone in the middle of its own.
        let (q, other) = (shared.clone(), inputs[n_in - 1].clone());
        let want_other = iso[n_in - 1].clone();
        let bad: Rc<Cell<bool>> = Rc::new(Cell::new(false));
        let bad2 = bad.clone();
        let depth = Rc::new(Cell::new(0));
        let reentrant: P<ES> = Parser::boxed(
            parse_proof_of_concept::primitive::empty::<Tok, ES>()
                .map(move |_| {
                    if depth.get() < 1 {
                        depth.set(depth.get() + 1);
                        if results_of(&q, &other) != want_other {
                            bad2.set(true);
                        }
                        depth.set(depth.get() - 1);
                    }
                })
                .ignore_then(shared.clone()),
        );
        let embedded: P<ES> = Parser::boxed(Parser::boxed(shared.clone().or_not()).map(|o| match o {
            None => Tree::No,
            Some(t) => t,
        }));
        let fresh = |t: &[C]| -> St<ES> { stream::Stream::new_with_location(Source::new(t).0, Default::default()) };
        let mut live: Vec<(usize, St<ES>, usize, bool)> = vec![];
        let mut compared = 0;
        for (op, k) in &schedule {
            match op {
                // Start another live stream.
                0 | 1 => live.push((*k, fresh(&inputs[*k]), 0, false)),
                // Step a live stream.
                2..=4 => {
                    if live.is_empty() {
                        live.push((*k, fresh(&inputs[*k]), 0, false));
                    }
                    let n = live.len();
                    let (i, st, done, stuck) = &mut live[*k % n];
                    if *stuck || *done >= iso[*i].len() {
                        continue;
                    }
                    let at = st.index();
                    let p = match op {
                        2 => &shared,
                        3 => &cloned,
                        _ => &reentrant,
                    };
                    let r = (to_mr::<ES>(&p.parse_internal(st, true)), st.index());
                    if r != iso[*i][*done] {
                        return Err(format!("step {done} over input {i} gave {r:?}, on its own {:?}", iso[*i][*done]));
                    }
                    compared += 1;
                    *stuck = st.index() == at;
                    *done += 1;
                }
                // A whole parse in between.
                5 | 6 => {
                    let p = if *op == 5 { &shared } else { &cloned };
                    let r = to_mr::<ES>(&p.parse_with_recovery(Source::new(&inputs[*k]).0));
                    if let Some(x) = iso[*k].first() {
                        compared += 1;
                        if x.0 != r {
                            return Err(format!("parsing input {k} gave {r:?}, on its own {x:?}"));
                        }
                    }
                }
                // The shared parser embedded in another grammar.
                _ => {
                    let a = to_mr::<ES>(&embedded.parse_with_recovery(Source::new(&inputs[*k]).0));
                    let alone = build::<ES>(&G::OrNot(Box::new(c.g.clone())), &mut Cx::new(false));
                    let b = to_mr::<ES>(&alone.parse_with_recovery(Source::new(&inputs[*k]).0).map(|t| match t {
                        Tree::Some(t) => *t,
                        t => t,
                    }));
                    compared += 1;
                    if a != b {
                        return Err(format!("embedded in another grammar: {a:?}, on its own {b:?}"));
                    }
                }
            }
            if bad.get() {
                return Err("a parse started from within another parse gave a different result".into());
            }
        }
        Ok(compared)
    });
    no_budget();
    match r {
        Err(m) => fail_s(desc, format!("panic: {m}")),
        Ok(Err(m)) => fail_s(desc, m),
        Ok(Ok(n)) => {
            let nt = n >= 2;
            Outcome {
                verdict: Verdict::Pass,
                nontrivial: nt,
                hash: if nt { hash_of(&(c.hash(), &inputs, &schedule)) } else { 0 },
                labels: vec![if n >= 8 { "8 or more interleaved steps" } else { "fewer interleaved steps" }],
                desc: if ctx.want_desc { desc } else { String::new() },
            }
        }
    }
}

