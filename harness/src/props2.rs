//! Properties decided with dedicated oracles: repetition, streaming, laziness,
//! the stream itself, delimiter scanning, matchers, results, rendering.

use crate::ast::*;
use crate::common::*;
use crate::construct::*;
use crate::engine::*;
use crate::model::*;
use crate::tok::*;
use crate::with_ek;
use parse_proof_of_concept::error::{self, At, Error, Fallback};
use parse_proof_of_concept::location::{self, Tracker};
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::primitive as prim;
use parse_proof_of_concept::recovery::{self, IncompleteStrategy};
use parse_proof_of_concept::scanner::nested_delimiters;
use parse_proof_of_concept::stream;
use std::collections::HashSet;
use std::rc::Rc;

// ---------------------------------------------------------------- C06

/// Patterns are alternatives of fixed token strings, tried in order.
type Pat = Vec<Vec<C>>;

#[derive(Clone, Debug, Hash)]
struct RepCase {
    item: Pat,
    sep: Option<Pat>,
    min: usize,
    max: Option<usize>,
    lead: bool,
    trail: bool,
    style: u8,
    toks: Vec<C>,
}

fn match_at(p: &Pat, toks: &[C], at: usize) -> Option<usize> {
    p.iter().find(|s| toks[at..].starts_with(s)).map(|s| s.len())
}

/// Closed form: (item lengths, total consumed), or None for failure.
fn rep_expect(c: &RepCase) -> Option<(Vec<usize>, usize)> {
    let t = &c.toks;
    let max = c.max.unwrap_or(usize::MAX);
    let sep_at = |at| match &c.sep {
        Some(p) => match_at(p, t, at),
        None => Some(0),
    };
    let lead = if c.lead { c.sep.as_ref().and_then(|p| match_at(p, t, 0)).unwrap_or(0) } else { 0 };
    let mut items = vec![];
    let mut end = lead;
    // First item, then (separator item) pairs.
    while items.len() < max {
        let gap = if items.is_empty() { Some(0) } else { sep_at(end) };
        let Some(gap) = gap else { break };
        let Some(n) = match_at(&c.item, t, end + gap) else { break };
        items.push(n);
        end += gap + n;
    }
    if items.len() < c.min {
        return None;
    }
    if c.trail && !items.is_empty() && c.sep.is_some() {
        end += sep_at(end).unwrap_or(0);
    }
    Some((items, end))
}

fn pat_g(p: &Pat) -> G {
    let one = |s: &Vec<C>| if s.len() == 1 { G::Just(s[0]) } else { G::Seq(s.clone(), CK::Vec) };
    if p.len() == 1 {
        one(&p[0])
    } else {
        G::Alters(p.iter().map(one).collect())
    }
}

fn rep_real(c: &RepCase, rec: bool, clone: bool) -> Result<Obs, String> {
    let g = G::Rep(Rep {
        item: Box::new(pat_g(&c.item)),
        sep: c.sep.as_ref().map(|s| Box::new(pat_g(s))),
        min: c.min,
        max: c.max,
        lead: c.lead,
        trail: c.trail,
        style: c.style,
    });
    let case = Case { g, toks: vec![], cfg: LocCfg::default(), ek: EK::Simple, clone };
    guarded(|| {
        let p = build::<ES>(&case.g, &mut Cx::new(clone));
        budget(c.toks.len() as u64 * 20);
        let o = observe_p::<ES, _>(&p, &c.toks, &LocCfg::default(), rec);
        no_budget();
        o
    })
    .map_err(|m| {
        no_budget();
        format!("panic: {m}")
    })
}

fn rep_check(c: &RepCase, rec: bool, clone: bool) -> Result<bool, String> {
    let want = rep_expect(c);
    let o = rep_real(c, rec, clone)?;
    match (&o.mr, &want) {
        (MR::S(Tree::List(v)), Some((items, end))) => {
            let got: Vec<usize> = v.iter().map(|t| t.count()).collect();
            if &got != items {
                return Err(format!("{} items {got:?}, expected {} items {items:?}", got.len(), items.len()));
            }
            // In order: item k is made of the tokens found at its place.
            if o.end != *end {
                return Err(format!("consumed {} tokens, expected {end} for {} items", o.end, items.len()));
            }
            if o.left != rest(&c.toks, *end) {
                return Err(format!("left {:?} after {end}", o.left));
            }
            let mut at = 0;
            for t in v {
                // Each item's tokens occur at or after the previous item's end.
                let syms: Vec<C> = match t {
                    Tree::Tok(t) => {
                        if (t.1 as usize) <= at && t.1 != 0 {
                            return Err(format!("items out of order: {v:?}"));
                        }
                        vec![t.0]
                    }
                    Tree::Toks(v) => v.clone(),
                    t => return Err(format!("odd item {t:?}")),
                };
                if let Tree::Tok(t) = t {
                    at = t.1 as usize;
                }
                if !c.item.contains(&syms) {
                    return Err(format!("item {syms:?} is not one of {:?}", c.item));
                }
            }
            Ok(*end > 0)
        }
        (MR::F(..), None) => {
            if o.end != 0 {
                return Err(format!("failed but consumed {} tokens", o.end));
            }
            if o.left != rest(&c.toks, 0) {
                return Err("failed but tokens were lost".into());
            }
            Ok(c.toks.len() > 1)
        }
        (r, w) => Err(format!("got {}, expected {w:?}", show(r))),
    }
}

pub fn c06(s: &mut Src, ctx: &Ctx) -> Outcome {
    if s.chance(1, 3) {
        return crate::props1::c06_general(s, ctx);
    }
    let mut word = |max: usize| -> Vec<C> {
        let n = 1 + s.us(max);
        (0..n).map(|_| s.us(3) as C).collect()
    };
    let kind = word(1)[0];
    let (item, sep): (Pat, Option<Pat>) = match kind {
        0 => (vec![vec![0]], Some(vec![vec![1]])),
        1 => (vec![word(2)], Some(vec![word(2)])),
        _ => (vec![word(3), word(3)], Some(vec![word(2), word(2)])),
    };
    let sep = if s.chance(3, 4) { sep } else { None };
    let mut lo = s.us(5);
    let mut max = match s.us(3) {
        0 => None,
        1 => Some(lo + s.us(5)),
        _ => Some(lo),
    };
    if s.chance(1, 20) {
        let k = *s.pick(&[60, 60, 60, 400]);
        lo = s.us(k);
        max = Some(lo + s.us(k));
    }
    if s.chance(1, 25) {
        max = Some(usize::MAX - s.us(2));
    }
    if s.chance(1, 60) {
        // Bounds no input can reach.
        lo = usize::MAX >> s.us(32);
        max = s.bool().then_some(usize::MAX);
    }
    if sep.is_some() && max == Some(0) {
        max = Some(1);
    }
    let (lead, trail) = (sep.is_some() && s.bool(), sep.is_some() && s.bool());
    let mut toks = vec![];
    let limit = if s.chance(1, 16) { if ctx.thorough { 2000 } else { 300 } } else { 16 };
    let mut n = s.size(limit);
    // Runs without a fault, now and then very long ones.
    let clean = s.chance(1, 12);
    if clean && s.chance(1, 8) {
        n = if s.chance(1, 12) { 1 + s.us(5000) } else { 1 + s.us(700) };
    }
    let join = |s: &mut Src, toks: &mut Vec<C>, p: &Pat| toks.extend_from_slice(&p[s.us(p.len())]);
    for i in 0..n {
        match s.weighted(if clean { &[1000, 0, 0, 1] } else { &[12, 2, 2, 1] }) {
            0 => {
                if (i > 0 || !clean) && (i > 0 || s.chance(1, 4)) {
                    if let Some(p) = &sep {
                        join(s, &mut toks, p)
                    }
                }
                join(s, &mut toks, &item)
            }
            1 => join(s, &mut toks, &item),
            2 => {
                if let Some(p) = &sep {
                    join(s, &mut toks, p)
                }
            }
            _ => {
                let c = s.us(4) as C;
                toks.push(c)
            }
        }
    }
    if s.chance(1, 3) {
        if let Some(p) = &sep {
            join(s, &mut toks, p)
        }
    }
    let c = RepCase { item, sep, min: lo, max, lead, trail, style: s.us(48) as u8, toks };
    let (rec, clone) = (s.bool(), s.chance(1, 4));
    let desc = format!("{c:?} recovery {rec}{}", if clone { " through clones" } else { "" });
    match rep_check(&c, rec, clone) {
        Err(m) => fail_s(desc, m),
        Ok(nt) => Outcome {
            verdict: Verdict::Pass,
            nontrivial: nt,
            hash: hash_of(&(&c, rec)),
            labels: vec![match (c.lead, c.trail) {
                (false, false) => "no leading, no trailing",
                (true, false) => "leading",
                (false, true) => "trailing",
                _ => "leading and trailing",
            }],
            desc: if ctx.want_desc { desc } else { String::new() },
        },
    }
}

/// All small configurations and inputs.
pub fn c06_small(o: &Opts) -> Extra {
    let max_len = if o.thorough { 7 } else { 5 };
    let mut evals = 0;
    let mut fail = None;
    let mut inputs: Vec<Vec<C>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max_len {
        let to = inputs.len();
        for i in from..to {
            for c in 0..3 {
                let mut t = inputs[i].clone();
                t.push(c);
                inputs.push(t);
            }
        }
        from = to;
    }
    'all: for min in 0..4 {
        for max in [None, Some(min), Some(min + 1), Some(min + 2)] {
            for sep in [false, true] {
                for flags in 0..(if sep { 4 } else { 1 }) {
                    if sep && max == Some(0) {
                        continue;
                    }
                    for toks in &inputs {
                        let c = RepCase {
                            item: vec![vec![0]],
                            sep: if sep { Some(vec![vec![1]]) } else { None },
                            min,
                            max,
                            lead: flags & 1 == 1,
                            trail: flags & 2 == 2,
                            style: (evals % 48) as u8,
                            toks: toks.clone(),
                        };
                        evals += 1;
                        if let Err(m) = rep_check(&c, evals % 2 == 0, false) {
                            fail = Some(format!("{c:?}: {m}"));
                            break 'all;
                        }
                    }
                }
            }
        }
    }
    Extra { evals, note: format!("all inputs of up to {max_len} tokens over item/separator/other, minimum 0..3, maximum none or minimum+0..2, all flags"), fail, known: vec![] }
}

// ---------------------------------------------------------------- C07

fn shift_at(a: &MAt, d: usize) -> MAt {
    let z = |p: &Pos| [p[0] + d, p[1], p[2], p[3]];
    match a {
        MAt::None => MAt::None,
        MAt::Loc(l) => MAt::Loc(z(l)),
        MAt::Sp((x, y)) => MAt::Sp((z(x), z(y))),
    }
}

fn c07_e<E: ErrX>(c: &Case, steps: usize, style: u8, fuel: u64) -> Result<(usize, usize, bool), String> {
    let p = build::<E>(&c.g, &mut Cx::new(c.clone));
    budget(fuel);
    let (src, stats) = Source::new(&c.toks);
    let mut st = p.stream_with_location(src, E::start(&c.cfg));
    let mut at = 0;
    let mut done = 0;
    let mut mixed = [0usize; 3];
    for _ in 0..steps {
        // What parsing the rest gives: a fresh stream moved to where we are.
        let (src, _) = Source::new(&c.toks);
        let mut fresh: St<E> = stream::Stream::new_with_location(src, E::start(&c.cfg));
        for _ in 0..at {
            fresh.advance();
        }
        if at >= c.toks.len() {
            for _ in 0..3 {
                if let Some(r) = st.next() {
                    return Err(format!("step {done}: {} although the input is exhausted", show(&to_mr::<E>(&r))));
                }
            }
            break;
        }
        let Some(r) = st.next() else {
            return Err(format!("step {done}: the stream ended with {} tokens left", c.toks.len() - at));
        };
        let r = to_mr::<E>(&r);
        let w = to_mr::<E>(&p.parse_internal(&mut fresh, true));
        if r != w {
            return Err(format!("step {done} at token {at} gave {}\nparsing the rest gives {}", show(&r), show(&w)));
        }
        mixed[variant(&r) as usize] += 1;
        // And literally the rest of the tokens through the public entry point.
        if style & 1 == 1 {
            let (src, _) = Source::new(&c.toks[at..]);
            let mut loc = E::start(&c.cfg);
            for t in &c.toks[..at] {
                loc.advance(&Tok::pat(*t));
            }
            let q = p.parse_with_recovery_and_location(src, loc);
            let q = to_mr::<E>(&q);
            let same = variant(&q) == variant(&r)
                && tree_of(&q).map(|t| erase(t, true, true)) == tree_of(&r).map(|t| erase(t, true, true))
                && errs_of(&q).len() == errs_of(&r).len()
                && errs_of(&q).iter().zip(errs_of(&r)).all(|(a, b)| match (a, b) {
                    (ME::Exp(x, f, l), ME::Exp(y, g, m)) => x == y && f.map(|f| f.0) == g.map(|g| g.0) && shift_at(l, at) == *m,
                    (ME::Cust(_, l), ME::Cust(_, m)) => shift_at(l, at) == *m,
                    _ => true,
                });
            if !same {
                return Err(format!("step {done} at token {at} gave {}\nparsing the remaining tokens gives {}", show(&r), show(&q)));
            }
        }
        done += 1;
        let to = fresh.index();
        if to == at {
            break;
        }
        at = to;
    }
    let mut tail = st.tail();
    for i in at..c.toks.len() {
        let t = tail.next().map(|t| tk(&t));
        if t != Some((c.toks[i], i as u32 + 1)) {
            return Err(format!("after {done} steps (at token {at}) the tail gave {t:?} for token {i}"));
        }
    }
    for _ in 0..3 {
        if let Some(t) = tail.next() {
            return Err(format!("the tail went on with {t:?} after the last token"));
        }
    }
    no_budget();
    let _ = stats;
    Ok((done, at, mixed.iter().filter(|n| **n > 0).count() > 1))
}

pub fn c07(s: &mut Src, ctx: &Ctx) -> Outcome {
    let ek = *s.pick(&[EK::Simple, EK::Rich]);
    let mut p = Prof { recover: 5, max_nodes: 16, rep: 6, zero_user: false, ..Prof::base() };
    vary(s, &mut p, false);
    let cfg = if ek == EK::Rich { loc_cfg(s) } else { LocCfg::default() };
    let clone = s.chance(1, 4);
    let style = s.us(2) as u8;
    let long = s.chance(1, 30);
    let steps = if long { 600 } else if s.bool() { 40 } else { s.us(8) };
    let mut gen = Gen::new(s, p);
    let g = gen.grammar();
    let n = 1 + if long { 50 + gen.s.us(200) } else { gen.s.size(if ctx.thorough { 40 } else { 10 }) };
    let mut toks = vec![];
    for _ in 0..n {
        if toks.len() < if long { 500 } else { 200 } {
            toks.extend(gen.input(&g, 20));
        }
    }
    let c = Case { g, toks, cfg, ek, clone };
    let pos = c.pos();
    // Domain: every step terminates.
    let mut fuel = 0;
    let mut at = 0;
    for _ in 0..steps {
        if at >= c.toks.len() {
            break;
        }
        let Some(m) = predict_from(&c, &c.g, &pos, true, at, FUEL) else { return Outcome::discard() };
        fuel += m.steps;
        if m.end <= at {
            break;
        }
        at = m.end;
    }
    let r = guarded(|| with_ek!(ek, E, c07_e::<E>(&c, steps, style, fuel * 8)));
    no_budget();
    match r {
        Err(m) => fail(&c, format!("{steps} steps: panic: {m}")),
        Ok(Err(m)) => fail(&c, m),
        Ok(Ok((done, at, mixed))) => {
            let mut l = vec![];
            if mixed {
                l.push("mixed results");
            }
            if at < c.toks.len() {
                l.push("tail with tokens left");
            } else {
                l.push("streamed to the end");
            }
            if done >= 5 {
                l.push("5 or more steps");
            }
            if done > 60 {
                l.push("more than 60 steps");
            }
            let mut o = pass(&c, ctx, done >= 2, l);
            o.hash = hash_of(&(o.hash, steps));
            o
        }
    }
}

// ---------------------------------------------------------------- C08

fn c08_e<E: ErrX>(c: &Case, pos: &[Pos], steps: u64, rec: bool, streaming: bool) -> Result<(usize, usize), String> {
    let p = build::<E>(&c.g, &mut Cx::new(c.clone));
    budget(steps * 4);
    let (src, st) = Source::new(&c.toks);
    let mut need = 0;
    let mut win = 0;
    if !streaming {
        let m = predict_from(c, &c.g, pos, rec, 0, FUEL).unwrap();
        need = m.need;
        let mut s: St<E> = stream::Stream::new_with_location(src, E::start(&c.cfg));
        let _ = p.parse_internal(&mut s, rec);
        if st.pulls.get() > need {
            return Err(format!("pulled {} items from the source, {need} were needed", st.pulls.get()));
        }
        // Reading on to the end never asks the source again after its end.
        for _ in 0..c.toks.len() + 3 {
            s.advance();
            s.token();
            s.span();
        }
        s.advance_to(c.toks.len());
        s.eof();
        let k = s.save_at(c.toks.len());
        s.token_at(&k);
        // Retried parsers at the end do not either.
        let _ = p.parse_internal(&mut s, true);
        if st.polled_after_end.get() {
            return Err("the source was asked for more after it had ended".into());
        }
    } else {
        let mut at = 0;
        let mut it = p.stream_with_location(src, E::start(&c.cfg));
        if st.pulls.get() != 0 {
            return Err(format!("creating a stream pulled {} items", st.pulls.get()));
        }
        for k in 0..60 {
            need = need.max(at + 1);
            if at >= c.toks.len() {
                if it.next().is_some() || it.next().is_some() {
                    return Err("stream went on after the end".into());
                }
                break;
            }
            let m = predict_from(c, &c.g, pos, true, at, FUEL).unwrap();
            need = need.max(m.need);
            win = win.max(m.need - at);
            it.next();
            if st.pulls.get() > need {
                return Err(format!("step {k} (at token {at}): pulled {} items from the source, {need} were needed", st.pulls.get()));
            }
            if m.end <= at {
                break;
            }
            at = m.end;
        }
        let mut tail = it.tail();
        let mut n = at;
        loop {
            let t = tail.next();
            // The tail may look one token ahead of what it delivered at most.
            n += 1;
            if st.pulls.get() > need.max(n + 1) {
                return Err(format!("the tail pulled {} items to deliver token {}", st.pulls.get(), n));
            }
            if t.is_none() {
                break;
            }
            if n > c.toks.len() + 5 {
                return Err("the tail does not end".into());
            }
        }
        for _ in 0..3 {
            tail.next();
        }
        if st.polled_after_end.get() {
            return Err("the source was asked for more after it had ended".into());
        }
    }
    no_budget();
    Ok((need, win))
}

/// A grammar with a bounded window, streamed over a long input.
fn c08_long<E: ErrX>(c: &Case, reps: usize, unit: &[C]) -> Result<(usize, i64), String> {
    struct Cycle {
        unit: Vec<C>,
        left: usize,
        i: usize,
        n: u32,
        base: i64,
        max: Rc<std::cell::Cell<i64>>,
    }
    impl Iterator for Cycle {
        type Item = Tok;
        fn next(&mut self) -> Option<Tok> {
            let live = LIVE.with(|l| l.get()) - self.base;
            if live > self.max.get() {
                self.max.set(live);
            }
            if self.left == 0 {
                return None;
            }
            self.left -= 1;
            let c = self.unit[self.i];
            self.i = (self.i + 1) % self.unit.len();
            self.n += 1;
            Some(Tok::new(c, self.n))
        }
    }
    // The window: what the model looks at per step, over the first rounds.
    let total = reps * unit.len();
    let sample: Vec<C> = unit.iter().cycle().take((unit.len() * 40).min(total)).cloned().collect();
    let d = Case { g: c.g.clone(), toks: sample, cfg: c.cfg.clone(), ek: c.ek, clone: c.clone };
    let pos = d.pos();
    let mut at = 0;
    let mut win = 1;
    let mut steps = 0;
    let mut starts = vec![];
    while at < d.toks.len() {
        let Some(m) = predict_from(&d, &d.g, &pos, true, at, FUEL) else { return Ok((0, 0)) };
        if m.need >= d.toks.len() {
            break;
        }
        if m.end <= at {
            return Ok((0, 0));
        }
        win = win.max(m.need - at);
        steps += m.steps;
        starts.push(at);
        at = m.end;
    }
    // Only if the parse is periodic: long enough to have come round.
    if at < unit.len() * 20 || win > unit.len() * 10 {
        return Ok((0, 0));
    }
    let p = build::<E>(&c.g, &mut Cx::new(c.clone));
    set_budget((steps + 1000) * 2000 * (total / at + 1) as u64);
    let max = Rc::new(std::cell::Cell::new(0));
    let base = LIVE.with(|l| l.get());
    let src = Cycle { unit: unit.to_vec(), left: total, i: 0, n: 0, base, max: max.clone() };
    let mut it = p.stream_with_location(src, E::start(&c.cfg));
    let bound = 8 * win as i64 + 256;
    let mut k = 0usize;
    // Stop short of the end, where a failing step may stop consuming.
    while k < total {
        k += 1;
        if it.next().is_none() {
            break;
        }
        if max.get() > bound {
            return Err(format!(
                "after {k} streaming steps {} tokens are alive; no step looks at more than {win} tokens (bound {bound})",
                max.get()
            ));
        }
        if k > total / 2 && k as u64 > 4 * total as u64 {
            break;
        }
    }
    no_budget();
    Ok((win, max.get()))
}

pub fn c08(s: &mut Src, ctx: &Ctx) -> Outcome {
    let long = s.chance(1, 12);
    if long {
        let mut p = Prof { recover: 4, max_nodes: 14, end: 0, ..Prof::base() };
        p.nsym = 2 + s.us(2);
        let mut gen = Gen::new(s, p);
        let g = gen.grammar();
        let mut unit = vec![];
        for _ in 0..1 + gen.s.us(3) {
            unit.extend(gen.input(&g, 8));
        }
        if unit.is_empty() {
            unit.push(0);
        }
        let total = if ctx.thorough && s.chance(1, 8) { 100_000 } else { 3000 + s.us(4000) };
        let reps = total / unit.len() + 1;
        let c = Case { g, toks: unit.clone(), cfg: LocCfg::default(), ek: *s.pick(&[EK::Simple, EK::Rich]), clone: false };
        let r = guarded(|| with_ek!(c.ek, E, c08_long::<E>(&c, reps, &unit)));
        no_budget();
        return match r {
            Err(m) => fail(&c, format!("panic streaming over {reps} repetitions of the input: {m}")),
            Ok(Err(m)) => fail(&c, format!("streaming over {reps} repetitions of the input: {m}")),
            Ok(Ok((win, _))) => {
                let mut o = pass(&c, ctx, win > 0, if win > 0 { vec!["retention over thousands of tokens"] } else { vec!["no progress on long input"] });
                o.hash = hash_of(&(o.hash, reps));
                o
            }
        };
    }
    let p = Prof { recover: 5, ..Prof::base() };
    let mut c = gen_case(s, p, ctx, &[EK::Simple, EK::Rich]);
    let rec = s.bool();
    let streaming = s.bool();
    let ext = s.us(6);
    for _ in 0..ext {
        let t = s.us(3) as C;
        c.toks.push(t);
    }
    let pos = c.pos();
    let mut at = 0;
    let mut steps = 0;
    for _ in 0..60 {
        let Some(m) = predict_from(&c, &c.g, &pos, rec || streaming, at, FUEL) else { return Outcome::discard() };
        steps += m.steps;
        if !streaming || m.end <= at || m.end >= c.toks.len() {
            break;
        }
        at = m.end;
    }
    // Parsing at the end of the input must terminate as well.
    let Some(m) = predict_from(&c, &c.g, &pos, true, c.toks.len(), FUEL) else { return Outcome::discard() };
    steps += m.steps;
    let r = guarded(|| with_ek!(c.ek, E, c08_e::<E>(&c, &pos, steps, rec, streaming)));
    no_budget();
    match r {
        Err(m) => fail(&c, format!("panic: {m}")),
        Ok(Err(m)) => fail(&c, m),
        Ok(Ok((need, _))) => {
            let mut l = vec![if streaming { "streaming" } else { "single parse" }];
            if need <= c.toks.len() {
                l.push("input not read to its end");
            }
            pass(&c, ctx, need > 1, l)
        }
    }
}

// ---------------------------------------------------------------- C09

struct Hist<'a, E: ErrX> {
    s: St<E>,
    st: Rc<SrcStats>,
    toks: &'a [C],
    pos: &'a [Pos],
    at: usize,
    saved: Vec<(stream::SavedState, usize)>,
    need: usize,
    log: Vec<String>,
    want_log: bool,
    max_saved: usize,
    restores: usize,
    /// Long inputs and many live saved positions.
    big: bool,
}

impl<E: ErrX> Hist<'_, E> {
    fn tok(&mut self, i: usize) -> Option<TK> {
        self.need = self.need.max(i + 1);
        self.toks.get(i).map(|c| (*c, i as u32 + 1))
    }
    fn log(&mut self, f: impl FnOnce() -> String) {
        if self.want_log {
            self.log.push(f());
        }
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&self, what: &str, got: T, want: T) -> Result<(), String> {
        if got != want {
            return Err(format!("{what} gave {got:?}, expected {want:?} (cursor at {})", self.at));
        }
        Ok(())
    }
    fn step(&mut self, src: &mut Src, depth: usize) -> Result<(), String> {
        let n = self.toks.len();
        let big = self.big && src.chance(1, 4);
        let far = |small: usize| if big { n } else { small };
        let k = src.weighted(&[6, 10, 4, 7, 5, 6, 4, 3, 3, 3, 4, 3, 4, 3, if depth < 3 { 3 } else { 0 }]);
        match k {
            0 => {
                self.log(|| "token".into());
                let w = self.tok(self.at);
                let g = self.s.token().map(tk);
                self.eq("token()", g, w)?;
            }
            1 => {
                // A few advances in a row.
                let m = 1 + src.size(far(12));
                self.log(|| format!("advance x{m}"));
                for _ in 0..m {
                    let w = self.tok(self.at).is_some();
                    let g = self.s.advance();
                    self.eq("advance()", g, w)?;
                    if w {
                        self.at += 1;
                    }
                }
            }
            2 => {
                let to = if big && src.chance(1, 8) { (usize::MAX >> src.us(64)).max(self.at) } else { self.at + src.size(far(20)) };
                self.log(|| format!("advance_to {to}"));
                let w = to <= n;
                let g = self.s.advance_to(to);
                if to > self.at {
                    self.need = self.need.max(to.min(n + 1));
                }
                self.eq("advance_to()", g, w)?;
                self.at = to.min(n);
            }
            3 => {
                // Now and then many, at this position or at successive ones.
                let (m, walk) = if big { (if src.chance(1, 6) { src.us(1500) } else { src.size(100) }, src.us(4)) } else { (1, 0) };
                self.log(|| format!("save x{m}, advancing by {walk} after each"));
                for _ in 0..m {
                    let x = self.s.save();
                    self.saved.push((x, self.at));
                    for _ in 0..walk {
                        let w = self.tok(self.at).is_some();
                        let g = self.s.advance();
                        self.eq("advance()", g, w)?;
                        self.at += w as usize;
                    }
                }
                self.max_saved = self.max_saved.max(self.saved.len());
            }
            4 if !self.saved.is_empty() => {
                let i = src.us(self.saved.len());
                if big {
                    // Many: the older ones, the newer ones, or some in between.
                    let len = self.saved.len();
                    let (a, b) = match src.us(3) {
                        0 => (0, i),
                        1 => (i, len),
                        _ => (i, i + src.us(len - i + 1)),
                    };
                    self.log(|| format!("drop #{a}..#{b}"));
                    self.saved.drain(a..b);
                } else {
                    self.log(|| format!("drop #{i}"));
                    self.saved.swap_remove(i);
                }
            }
            5 if !self.saved.is_empty() => {
                let i = src.us(self.saved.len());
                let to = self.saved[i].1;
                self.log(|| format!("restore #{i} ({to})"));
                let (x, _) = &self.saved[i];
                self.s.restore(x);
                self.at = to;
                self.restores += 1;
            }
            6 if !self.saved.is_empty() => {
                let i = src.us(self.saved.len());
                let to = self.saved[i].1;
                self.log(|| format!("token_at #{i} ({to})"));
                let w = self.tok(to);
                let (x, _) = &self.saved[i];
                let g = self.s.token_at(x).map(tk);
                self.eq("token_at()", g, w)?;
            }
            7 if !self.saved.is_empty() => {
                let i = src.us(self.saved.len());
                let to = self.saved[i].1;
                self.log(|| format!("location_at/index_at #{i} ({to})"));
                let (x, _) = &self.saved[i];
                let g = (self.s.index_at(x), E::loc(&self.s.location_at(x)));
                self.eq("index_at()/location_at()", g, (to, self.pos[to]))?;
            }
            8 if !self.saved.is_empty() => {
                let i = src.us(self.saved.len());
                let to = self.saved[i].1;
                if to <= self.at {
                    self.log(|| format!("spanning_back_to #{i} ({to})"));
                    let (x, _) = &self.saved[i];
                    let g = E::span(&self.s.spanning_back_to(x));
                    self.eq("spanning_back_to()", g, (self.pos[to], self.pos[self.at]))?;
                }
            }
            9 => {
                self.log(|| "eof".into());
                let w = self.tok(self.at).is_none();
                let g = self.s.eof();
                self.eq("eof()", g, w)?;
            }
            10 => {
                self.log(|| "span".into());
                let e = if self.tok(self.at).is_some() { self.at + 1 } else { self.at };
                let g = E::span(&self.s.span());
                self.eq("span()", g, (self.pos[self.at], self.pos[e]))?;
            }
            11 => {
                self.log(|| "location".into());
                let g = (self.s.index(), E::loc(&self.s.location()));
                self.eq("index()/location()", g, (self.at, self.pos[self.at]))?;
            }
            12 => {
                let to = if big && src.chance(1, 8) { (usize::MAX >> src.us(64)).max(self.at) } else { self.at + src.size(far(20)) };
                self.log(|| format!("save_at {to}"));
                let x = self.s.save_at(to);
                if to > self.at {
                    self.need = self.need.max(to.min(n + 1));
                }
                self.saved.push((x, to.min(n)));
                self.max_saved = self.max_saved.max(self.saved.len());
            }
            13 => {
                let m = src.size(if big { 100 } else { 6 });
                let n = self.saved.len();
                if src.bool() {
                    self.log(|| format!("drop all but the newest {m}"));
                    self.saved.drain(..n.saturating_sub(m));
                } else {
                    self.log(|| format!("drop all but {m}"));
                    self.saved.truncate(m);
                }
            }
            14 => {
                let ok = src.bool();
                let m = src.size(6);
                self.log(|| format!("attempt({}) {{", if ok { "ok" } else { "err" }));
                let at = self.at;
                // The closure works on the stream handed to it; move our state along.
                let this: *mut Self = self;
                let mut inner: Result<(), String> = Ok(());
                // SAFETY is not an issue of the library's: we re-borrow the stream
                // only through `this` while attempt() itself does not touch it.
                let r = {
                    let inner = &mut inner;
                    let stream: &mut St<E> = unsafe { &mut (*this).s };
                    stream.attempt(|_s| {
                        let me = unsafe { &mut *this };
                        for _ in 0..m {
                            if let Err(e) = me.step(src, depth + 1) {
                                *inner = Err(e);
                                break;
                            }
                        }
                        if ok {
                            Ok(1)
                        } else {
                            Err(2)
                        }
                    })
                };
                inner?;
                self.log(|| "}".into());
                self.eq("attempt()", r, if ok { 1 } else { 2 })?;
                if !ok {
                    self.at = at;
                    self.restores += 1;
                }
            }
            _ => {}
        }
        // The cheap observations hold at all times.
        let g = (self.s.index(), E::loc(&self.s.location()));
        self.eq("index()/location()", g, (self.at, self.pos[self.at]))?;
        Ok(())
    }
}

fn c09_e<E: ErrX>(toks: &[C], cfg: &LocCfg, pos: &[Pos], src: &mut Src, nops: usize, big: bool, want_log: bool) -> (Result<(usize, usize, usize), String>, String) {
    let (source, st) = Source::new(toks);
    let mut h: Hist<E> = Hist {
        s: stream::Stream::new_with_location(source, E::start(cfg)),
        st,
        toks,
        pos,
        at: 0,
        saved: vec![],
        need: 0,
        log: vec![],
        want_log,
        max_saved: 0,
        restores: 0,
        big,
    };
    set_budget(if big { 20_000_000 } else { 2_000_000 });
    let r = guarded(|| -> Result<(), String> {
        for _ in 0..nops {
            h.step(src, 0)?;
        }
        // At the end every live saved position still works, in both orders.
        let order: Vec<usize> = (0..h.saved.len()).chain((0..h.saved.len()).rev()).collect();
        for i in order {
            let to = h.saved[i].1;
            h.log(|| format!("finally restore #{i} ({to})"));
            h.s.restore(&h.saved[i].0);
            h.at = to;
            let g = (h.s.index(), h.s.token().map(tk));
            let w = (to, h.tok(to));
            h.eq("restored index and token", g, w)?;
            let g = E::loc(&h.s.location());
            h.eq("restored location", g, pos[to])?;
        }
        h.log(|| "finally read to the end".into());
        while h.at < toks.len() {
            let g = (h.s.token().map(tk), h.s.advance());
            let w = (h.tok(h.at), true);
            h.eq("token()/advance()", g, w)?;
            h.at += 1;
        }
        let g = (h.s.token().map(tk), h.s.advance(), h.s.eof());
        h.eq("token()/advance()/eof()", g, (None, false, true))?;
        if h.st.polled_after_end.get() {
            return Err("the source was asked for more after its end".into());
        }
        Ok(())
    });
    no_budget();
    let log = h.log.join(", ");
    let r = match r {
        Err(m) => Err(format!("panic: {m}")),
        Ok(Err(m)) => Err(m),
        Ok(Ok(())) => Ok((h.max_saved, h.restores, h.at)),
    };
    (r, log)
}

pub fn c09(s: &mut Src, ctx: &Ctx) -> Outcome {
    let ek = *s.pick(&[EK::Simple, EK::Rich]);
    let cfg0 = if ek == EK::Rich { loc_cfg(s) } else { LocCfg::default() };
    let big = s.chance(1, 60);
    let (n, toks, cfg);
    if big {
        n = s.size(if ctx.thorough { 20_000 } else { 8_000 });
        let pat: Vec<C> = (0..1 + s.us(12)).map(|_| s.us(NSYM) as C).collect();
        toks = pat.iter().copied().cycle().take(n).collect::<Vec<C>>();
        cfg = LocCfg { texts: cfg0.texts.map(|t| if t.len() > 40 { "?" } else { t }), prefix: cfg0.prefix };
    } else {
        n = s.size(if ctx.thorough { 400 } else { 80 });
        let wide = s.chance(1, 8);
        toks = (0..n).map(|_| s.us(if wide { NSYM } else { 4 }) as C).collect::<Vec<C>>();
        cfg = cfg0;
    }
    let nops = 1 + s.size(if ctx.thorough { 300 } else { 70 });
    let pos = positions(ek, &cfg, &toks);
    let start = s.tape.len();
    // Run once without a log; again with one if it is wanted.
    let (r, mut log) = with_ek!(ek, E, c09_e::<E>(&toks, &cfg, &pos, s, nops, big, ctx.want_desc));
    if r.is_err() && !ctx.want_desc {
        let ops = s.tape[start..].to_vec();
        let mut again = Src::replay(&ops);
        log = with_ek!(ek, E, c09_e::<E>(&toks, &cfg, &pos, &mut again, nops, big, true)).1;
    }
    let desc = format!("{ek:?}, input {:?} ({n} tokens), history: {log}", Toks(&toks[..n.min(400)]).to_string());
    match r {
        Err(m) => fail_s(desc, m),
        Ok((saves, restores, _)) => {
            let nt = saves > 0 && restores > 0 && n > 0;
            let mut l = vec![];
            if n > 30 {
                l.push("more than 30 tokens");
            }
            if big && n > 1000 {
                l.push("more than 1000 tokens");
            }
            if saves > 32 {
                l.push("more than 32 live saved positions");
            }
            if saves > 512 {
                l.push("more than 512 live saved positions");
            }
            if saves > 4 {
                l.push("more than 4 live saved positions");
            }
            if restores > 4 {
                l.push("more than 4 restores");
            }
            Outcome {
                verdict: Verdict::Pass,
                nontrivial: nt,
                hash: if nt { hash_of(&(&s.tape[..])) } else { 0 },
                labels: l,
                desc: if ctx.want_desc && nt { desc } else { String::new() },
            }
        }
    }
}

// ---------------------------------------------------------------- C11

/// Reference for nested delimiters: the end position and the errors, from the
/// documented policy. Returns None where the first token only closes (documented:
/// nothing happens).
fn nested_ref(table: &[(C, C)], toks: &[C], pos: &[Pos], from: usize) -> (usize, Vec<ME>, bool) {
    let tk = |i: usize| (toks[i], i as u32 + 1);
    let sp = |i: usize| (pos[i], pos[i + 1]);
    let lefts: Vec<C> = table.iter().map(|x| x.0).collect();
    let rights: Vec<C> = table.iter().map(|x| x.1).collect();
    if from >= toks.len() || !lefts.contains(&toks[from]) {
        let right_only = from < toks.len() && rights.contains(&toks[from]);
        return (from, vec![], right_only);
    }
    // Positions of open lefts, outermost first.
    let mut open: Vec<usize> = vec![];
    let mut errs = vec![];
    let closer = |i: usize| -> C { table.iter().find(|x| x.0 == toks[i]).unwrap().1 };
    for i in from..toks.len() {
        let t = toks[i];
        let innermost_closes = open.last().map(|o| closer(*o) == t).unwrap_or(false);
        if innermost_closes {
            open.pop();
        } else if lefts.contains(&t) {
            open.push(i);
        } else if rights.contains(&t) {
            match open.iter().rposition(|o| closer(*o) == t) {
                Some(k) => {
                    while open.len() > k + 1 {
                        let o = open.pop().unwrap();
                        errs.push(ME::UL(tk(o), sp(o), MAt::Sp(sp(i))));
                    }
                    open.pop();
                }
                None => {
                    let o = open.pop().unwrap();
                    errs.push(ME::UT(tk(o), sp(o), tk(i), sp(i)));
                }
            }
        }
        if open.is_empty() {
            return (i, errs, false);
        }
    }
    let n = toks.len();
    while let Some(o) = open.pop() {
        errs.push(ME::UL(tk(o), sp(o), MAt::Loc(pos[n])));
    }
    (n, errs, false)
}

fn c11_e<E: ErrX>(table: &[(C, C)], toks: &[C], cfg: &LocCfg, lead: usize, style: u8) -> Result<(usize, Vec<ME>), String> {
    set_budget(10_000_000);
    let f = nested_delimiters::<Tok, <E as ErrX>::Span>(leak_table(table));
    let never = || prim::filter::<Tok, _, E>(|_: &Tok| false).map(|_| Tree::Unit);
    // Optionally scan from a later position, after skipping.
    let mut st = IncompleteStrategy::<'static, Tok, P<E>>::boxed(recovery::attempt_to::<Tok, P<E>>());
    for _ in 0..lead {
        st = IncompleteStrategy::<'static, Tok, P<E>>::boxed(st.skip());
    }
    let clear = IncompleteStrategy::<'static, Tok, P<E>>::boxed(st.update_errors(|v: &mut Vec<E>| v.clear()));
    let scan = match style % 3 {
        0 => IncompleteStrategy::<'static, Tok, P<E>>::boxed(clear.scan(f)),
        // The same strategy again after going back finds the same, with a fresh state.
        1 => {
            let s = IncompleteStrategy::<'static, Tok, P<E>>::boxed(clear.maybe(recovery::scan::<Tok, P<E>, _, _>(f.clone())));
            IncompleteStrategy::<'static, Tok, P<E>>::boxed(s.update_errors(|v: &mut Vec<E>| v.clear()).scan(f))
        }
        _ => IncompleteStrategy::<'static, Tok, P<E>>::boxed(IncompleteStrategy::<'static, Tok, P<E>>::boxed(clear.scan(f)).clone()),
    };
    let p: P<E> = Parser::boxed(Parser::boxed(never()).to_recover(scan.and_return_with_span(|s| Tree::Span(E::span(&s), Box::new(Tree::Unit)))));
    let (src, _) = Source::new(toks);
    let mut s: St<E> = stream::Stream::new_with_location(src, E::start(cfg));
    let r = p.parse_internal(&mut s, true);
    let end = s.index();
    let left: Vec<TK> = std::iter::from_fn(|| {
        let t = s.token().map(tk);
        s.advance();
        t
    })
    .take(toks.len() + 2)
    .collect();
    no_budget();
    if left != rest(toks, end) {
        return Err(format!("tokens left after {end}: {left:?}"));
    }
    match to_mr::<E>(&r) {
        MR::R(_, es) => Ok((end, es)),
        r => Err(format!("unexpected result {r:?}")),
    }
}

pub fn c11(s: &mut Src, ctx: &Ctx) -> Outcome {
    let ek = *s.pick(&[EK::Simple, EK::Rich]);
    let cfg = if ek == EK::Rich { loc_cfg(s) } else { LocCfg::default() };
    // Distinct lefts, distinct rights; a left may equal a right of any type.
    let many = s.chance(1, 8);
    let n = if many { 1 + s.us(10) } else { 1 + s.us(3) };
    let mut lefts: Vec<C> = (0..NSYM as C).collect();
    let mut rights = lefts.clone();
    let mut table = vec![];
    for _ in 0..n {
        let l = lefts.remove(s.us(lefts.len().min(4)));
        let r = if s.chance(1, 6) && rights.contains(&l) {
            rights.retain(|x| *x != l);
            l
        } else {
            let k = s.us(rights.len().min(5));
            rights.remove(rights.len() - 1 - k.min(rights.len() - 1))
        };
        table.push((l, r));
    }
    let lead = if s.chance(1, 4) { 1 + s.us(3) } else { 0 };
    let style = s.us(3) as u8;
    let mut toks: Vec<C> = (0..lead).map(|_| s.us(NSYM) as C).collect();
    let big = s.chance(1, 10);
    // Now and then mostly opening, then mostly closing: deep nesting.
    let deep = s.chance(1, 8);
    let m = s.size(if !big { if deep { 40 } else { 14 } } else if ctx.thorough { 500 } else { 150 });
    let mut open: Vec<usize> = vec![];
    for i in 0..m {
        let w: &[u32] = match (deep, 2 * i < m) {
            (false, _) => &[6, 6, 1, 1, 1],
            (true, true) => &[40, 2, 1, 1, 1],
            (true, false) => &[2, 30, 3, 1, 1],
        };
        match s.weighted(w) {
            0 => {
                let k = s.us(n);
                open.push(k);
                toks.push(table[k].0);
            }
            1 => match open.pop() {
                Some(k) => toks.push(table[k].1),
                None if i > 0 => toks.push(s.us(NSYM) as C),
                None => {
                    let k = s.us(n);
                    open.push(k);
                    toks.push(table[k].0);
                }
            },
            2 => toks.push(table[s.us(n)].1),
            3 => {
                open.pop();
                toks.push(s.us(NSYM) as C)
            }
            _ => toks.push(s.us(NSYM) as C),
        }
    }
    let from = lead.min(toks.len());
    let pos = positions(ek, &cfg, &toks);
    let (end, errs, right_only) = nested_ref(&table, &toks, &pos, from);
    let desc = format!(
        "table {:?}, input {:?} scanned from {from}, {ek:?}, style {style}",
        table.iter().map(|(a, b)| format!("{}{}", sym(*a), sym(*b))).collect::<Vec<_>>(),
        Toks(&toks).to_string()
    );
    let r = guarded(|| with_ek!(ek, E, c11_e::<E>(&table, &toks, &cfg, lead, style)));
    no_budget();
    let (e2, errs2) = match r {
        Err(m) => return fail_s(desc, format!("panic: {m}")),
        Ok(Err(m)) => return fail_s(desc, m),
        Ok(Ok(x)) => x,
    };
    let mut verdict = Verdict::Pass;
    if (end, &errs) != (e2, &errs2) {
        // The one known deviation: a leading right delimiter is reported.
        let t = (toks.get(from).copied().unwrap_or(0), from as u32 + 1);
        let dev = right_only && e2 == from && errs2 == vec![ME::UR(t, (pos[from], pos[from + 1]), MAt::None)];
        if !dev {
            return fail_s(desc, format!("stopped at {e2} with {errs2:?}\nexpected to stop at {end} with {errs:?}"));
        }
        verdict = Verdict::Known("leading-right-delimiter");
    }
    let nested = end > from + 1;
    Outcome {
        verdict,
        nontrivial: nested,
        hash: hash_of(&(&table, &toks, from, style)),
        labels: vec![if right_only {
            "leading right delimiter"
        } else if errs.is_empty() {
            "no error"
        } else if errs.iter().any(|e| matches!(e, ME::UT(..))) {
            "type mismatch"
        } else {
            "unclosed left"
        }],
        desc: if ctx.want_desc && nested { desc } else { String::new() },
    }
}

// ---------------------------------------------------------------- C12

/// What a matcher must do with the input: number of tokens consumed.
fn matcher_ref<T: PartialEq>(kind: usize, pat: &[T], toks: &[T]) -> Option<usize> {
    match kind {
        // seq
        0 => toks.starts_with(pat).then_some(pat.len()),
        // one_of
        1 => toks.first().filter(|t| pat.contains(t)).map(|_| 1),
        // none_of
        2 => toks.first().filter(|t| !pat.contains(t)).map(|_| 1),
        // just
        _ => toks.first().filter(|t| **t == pat[0]).map(|_| 1),
    }
}

/// Runs a parser and returns its output with the leftover tokens.
fn run_m<T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + 'static, Q, O>(p: &Q, toks: &[T]) -> (Option<O>, usize, Vec<T>)
where
    Q: Parser<'static, T, Output = O, Error = error::Simple<T>>,
{
    let mut s: stream::Stream<'static, T, location::Simple> = stream::Stream::new(toks.to_vec());
    let r = p.parse_internal(&mut s, false);
    let end = s.index();
    let mut left = vec![];
    while let Some(t) = s.token() {
        left.push(t.clone());
        s.advance();
    }
    (
        match r {
            parser::Result::Success(o) => Some(o),
            _ => None,
        },
        end,
        left,
    )
}

macro_rules! matcher_case {
    ($kind:expr, $T:ty, $pat:expr, $toks:expr, $name:expr, $conv:expr, $vals:expr) => {{
        let toks: &[$T] = $toks;
        let vals: &[$T] = $vals;
        let want = matcher_ref($kind, vals, toks);
        let (out, end, left): (Option<Vec<$T>>, usize, Vec<$T>) = match $kind {
            0 => {
                let (o, e, l) = run_m(&prim::seq::<$T, _, error::Simple<$T>>($pat), toks);
                (o.map($conv), e, l)
            }
            1 => {
                let (o, e, l) = run_m(&prim::one_of::<$T, _, error::Simple<$T>>($pat), toks);
                (o.map(|t| vec![t]), e, l)
            }
            _ => {
                let (o, e, l) = run_m(&prim::none_of::<$T, _, error::Simple<$T>>($pat), toks);
                (o.map(|t| vec![t]), e, l)
            }
        };
        let n = want.unwrap_or(0);
        let want_out: Option<Vec<$T>> = want.map(|n| toks[..n].to_vec());
        if out != want_out || end != n || left != toks[n..] {
            return Err(format!(
                "{}({:?} as {}) on {toks:?}: output {out:?}, consumed {end}, left {left:?}; expected output {want_out:?}",
                ["seq", "one_of", "none_of"][$kind],
                vals,
                $name
            ));
        }
    }};
}

thread_local! {
    static CHARS: std::cell::RefCell<std::collections::HashMap<Vec<char>, (&'static Vec<char>, &'static str)>> = Default::default();
}
/// Between cases; see construct::release_leaked.
pub fn release_chars() {
    CHARS.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20_000 {
            for (_, (v, s)) in m.drain() {
                drop(unsafe { Box::from_raw(v as *const Vec<char> as *mut Vec<char>) });
                drop(unsafe { Box::from_raw(s as *const str as *mut str) });
            }
        }
    });
}
fn leak_chars(v: &[char]) -> (&'static Vec<char>, &'static str) {
    CHARS.with(|m| {
        *m.borrow_mut().entry(v.to_vec()).or_insert_with(|| {
            let s: String = v.iter().collect();
            (Box::leak(Box::new(v.to_vec())), Box::leak(s.into_boxed_str()))
        })
    })
}

fn chars_all(kind: usize, pat: &[char], toks: &[char]) -> Result<usize, String> {
    let (lv, ls) = leak_chars(pat);
    let mut n = 0;
    macro_rules! one {
        ($p:expr, $name:expr, $conv:expr) => {{
            matcher_case!(kind, char, $p, toks, $name, $conv, pat);
            n += 1;
        }};
    }
    one!(ls, "&str", |s: &'static str| s.chars().collect::<Vec<_>>());
    one!(ls.to_string(), "String", |s: String| s.chars().collect::<Vec<_>>());
    one!(lv.clone(), "Vec", |v: Vec<char>| v);
    one!(lv, "&Vec", |v: &'static Vec<char>| v.clone());
    one!(lv.as_slice(), "&[_]", |v: &'static [char]| v.to_vec());
    macro_rules! arr {
        ($n:literal) => {{
            let a: &'static [char; $n] = lv.as_slice().try_into().unwrap();
            one!(*a, "[_; N]", |v: [char; $n]| v.to_vec());
            one!(a, "&[_; N]", |v: &'static [char; $n]| v.to_vec());
            // Borrowed tokens out of a borrowed array.
            let bt: Vec<&'static char> = leak_chars(toks).0.iter().collect();
            let bp: Vec<&'static char> = lv.iter().collect();
            matcher_case!(kind, &'static char, a, &bt, "&[T; N] of &T", |v: &'static [char; $n]| v.iter().collect::<Vec<_>>(), &bp);
        }};
    }
    match pat.len() {
        0 => arr!(0),
        1 => {
            arr!(1);
            one!(pat[0], "single token", |c: char| vec![c]);
        }
        2 => arr!(2),
        3 => arr!(3),
        4 => arr!(4),
        5 => arr!(5),
        _ => {}
    }
    // Borrowed tokens.
    let bt: Vec<&'static char> = leak_chars(toks).0.iter().collect();
    let bp: Vec<&'static char> = lv.iter().collect();
    matcher_case!(kind, &'static char, lv, &bt, "&Vec of borrowed", |v: &'static Vec<char>| v.iter().collect::<Vec<_>>(), &bp);
    matcher_case!(kind, &'static char, lv.as_slice(), &bt, "&[T] of borrowed", |v: &'static [char]| v.iter().collect::<Vec<_>>(), &bp);
    matcher_case!(kind, &'static char, bp.clone(), &bt, "Vec of &T", |v: Vec<&'static char>| v, &bp);
    n += 3;
    // One-token matchers.
    if !pat.is_empty() {
        let c = pat[0];
        let want = matcher_ref(3, pat, toks).map(|_| c);
        let (o, e, l) = run_m(&prim::just::<char, error::Simple<char>>(c), toks);
        if o != want || e != want.is_some() as usize || l != toks[e..] {
            return Err(format!("just({c:?}) on {toks:?}: {o:?}, consumed {e}"));
        }
        let (o, e, _) = run_m(&prim::just::<&'static char, error::Simple<&'static char>>(bp[0]), &bt);
        if o.copied() != want || e != want.is_some() as usize {
            return Err(format!("just(&{c:?}) on {toks:?}: {o:?}, consumed {e}"));
        }
        n += 2;
    }
    Ok(n)
}

/// Matchers over tokens whose equality is coarser than identity.
fn toks_all(c: &Case, m: &Pred) -> Result<(), String> {
    let o = observe(c, false, m.steps)?;
    if variant(&o.mr) != variant(&m.mr) {
        return Err(format!("got {}, expected {}", show(&o.mr), show(&m.mr)));
    }
    if let (Some(a), Some(b)) = (tree_of(&o.mr), tree_of(&m.mr)) {
        if a != b {
            return Err(format!("output {a:?}, expected {b:?} (token identities are the input positions)"));
        }
    }
    if o.end != m.end || o.left != rest(&c.toks, m.end) {
        return Err(format!("consumed {}, expected {}; left {:?}", o.end, m.end, o.left));
    }
    Ok(())
}

pub fn c12(s: &mut Src, ctx: &Ctx) -> Outcome {
    const POOL: &[char] = &['a', 'b', 'c', '\u{e9}', '\u{65e5}', '\u{1d11e}', '\n', '\0', 'A'];
    if s.bool() {
        let kind = s.us(3);
        let k = 1 + s.us(POOL.len());
        let long = s.chance(1, 12);
        let np = if long { let k = *s.pick(&[40, 40, 300]); s.us(k) } else { s.us(6) };
        let pat: Vec<char> = (0..np).map(|_| POOL[s.us(k)]).collect();
        let nt = s.size(if long { 40 } else { 7 });
        let mut toks: Vec<char> = (0..nt).map(|_| POOL[s.us(k)]).collect();
        if kind == 0 && s.chance(2, 3) {
            // Near the pattern.
            let mut t = pat.clone();
            if s.bool() && !t.is_empty() {
                let i = s.us(t.len());
                match s.us(3) {
                    0 => t[i] = POOL[s.us(k)],
                    1 => t.truncate(i),
                    _ => {
                        t.remove(i);
                    }
                }
            }
            t.append(&mut toks);
            toks = t;
        }
        let desc = format!("{} with {pat:?} on {toks:?}", ["seq", "one_of", "none_of"][kind]);
        let r = guarded(|| chars_all(kind, &pat, &toks));
        return match r {
            Err(m) => fail_s(desc, format!("panic: {m}")),
            Ok(Err(m)) => fail_s(desc, m),
            Ok(Ok(_)) => Outcome {
                verdict: Verdict::Pass,
                nontrivial: !pat.is_empty() && !toks.is_empty(),
                hash: hash_of(&(kind, &pat, &toks)),
                labels: vec!["characters, all container kinds"],
                desc: if ctx.want_desc { desc } else { String::new() },
            },
        };
    }
    // A few matchers in a row over identified tokens.
    let ek = *s.pick(&[EK::Simple, EK::Void, EK::Rich]);
    let mut p = Prof::base();
    vary(s, &mut p, false);
    let mut gen = Gen::new(s, p);
    let n = 1 + gen.s.us(3);
    let mut parts = vec![];
    for _ in 0..n {
        let g = match gen.s.us(9) {
            0 => G::Just(gen.c()),
            1 => G::Filter(gen.mask()),
            2 => G::FilterMap(gen.mask()),
            3 => G::End,
            4 => G::Empty,
            5 => G::NoneP,
            6 => G::Seq(gen.cs(4), CK::Vec),
            7 => G::OneOf(gen.cs(3), CK::Vec),
            _ => G::NoneOf(gen.cs(3), CK::Vec),
        };
        let g = match g {
            G::Seq(v, _) | G::OneOf(v, _) | G::NoneOf(v, _) if false => G::Seq(v, CK::Vec),
            G::Seq(v, _) => {
                let k = ck_for(gen.s, v.len());
                G::Seq(v, k)
            }
            G::OneOf(v, _) => {
                let k = ck_for(gen.s, v.len());
                G::OneOf(v, k)
            }
            G::NoneOf(v, _) => {
                let k = ck_for(gen.s, v.len());
                G::NoneOf(v, k)
            }
            g => g,
        };
        parts.push(g);
    }
    let g = if parts.len() == 1 { parts.pop().unwrap() } else { G::Chain(parts) };
    let toks = gen.input(&g, 10);
    let clone = s.bool();
    let c = Case { g, toks, cfg: LocCfg::default(), ek, clone };
    let pos = c.pos();
    let Some(m) = predict(&c, &pos, false) else { return Outcome::discard() };
    match toks_all(&c, &m) {
        Err(e) => fail(&c, e),
        Ok(()) => pass(&c, ctx, m.end > 0, vec!["identified tokens"]),
    }
}
fn ck_for(s: &mut Src, n: usize) -> CK {
    match n {
        1 => *s.pick(&[CK::Vec, CK::RefVec, CK::Slice, CK::Arr, CK::RefArr, CK::Single]),
        0 => *s.pick(&[CK::Vec, CK::RefVec, CK::Slice, CK::Arr]),
        2 | 3 => *s.pick(&[CK::Vec, CK::RefVec, CK::Slice, CK::Arr, CK::RefArr]),
        _ => *s.pick(&[CK::Vec, CK::RefVec, CK::Slice]),
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, PartialEq)]
struct E15(String);
impl Fallback for E15 {
    fn simple<M: ToString>(m: M) -> Self {
        E15(m.to_string())
    }
}
type R15 = parser::Result<u32, E15>;

fn gen15(s: &mut Src, tag: &str) -> R15 {
    let n = if s.chance(1, 4) { s.size(60) } else { s.us(5) };
    let es: Vec<E15> = (0..n).map(|i| E15(format!("{tag}{i}.{}", s.us(3)))).collect();
    match s.us(3) {
        0 => parser::Result::Success(s.us(9) as u32),
        1 => parser::Result::Recovered(s.us(9) as u32, es),
        _ => parser::Result::Failed(s.us(9), es),
    }
}
fn errs15<O>(r: &parser::Result<O, E15>) -> Vec<E15> {
    match r {
        parser::Result::Success(_) => vec![],
        parser::Result::Recovered(_, e) | parser::Result::Failed(_, e) => e.clone(),
    }
}

fn c15_check(r: R15, inner: R15, k: u32) -> Result<(), String> {
    use parser::Result::*;
    let es = errs15(&r);
    let tree = match &r {
        Success(o) | Recovered(o, _) => Some(*o),
        Failed(..) => None,
    };
    macro_rules! law {
        ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
    }
    law!(r.is_ok() == matches!(r, Success(_)), "is_ok");
    law!(r.tree().copied() == tree, "tree() gives {:?}", r.tree());
    law!(r.errors().cloned().collect::<Vec<_>>() == es, "errors() gives {:?}", r.errors().collect::<Vec<_>>());
    let mut it = r.errors();
    for e in &es {
        law!(it.next() == Some(e), "errors() out of order");
    }
    law!(it.next().is_none() && it.next().is_none(), "errors() does not end");
    let conv: Result<u32, E15> = r.clone().into();
    match (&r, &conv) {
        (Success(o), Ok(x)) => law!(o == x, "converted to Ok({x})"),
        (Success(_), Err(e)) => return Err(format!("success converted to {e:?}")),
        (_, Ok(x)) => return Err(format!("converted to Ok({x})")),
        (_, Err(e)) => match es.first() {
            Some(f) => law!(e == f, "converted to {e:?}, the first error is {f:?}"),
            None => law!(!e.0.is_empty(), "no generic error"),
        },
    }
    // map
    let mut calls = 0;
    let m = r.clone().map(|o| {
        calls += 1;
        format!("{o}+{k}")
    });
    law!(calls == tree.is_some() as i32, "map() called its function {calls} times");
    let want = match &r {
        Success(o) => Success(format!("{o}+{k}")),
        Recovered(o, e) => Recovered(format!("{o}+{k}"), e.clone()),
        Failed(i, e) => Failed(*i, e.clone()),
    };
    law!(m == want, "map() gives {m:?}, expected {want:?}");
    law!(r.clone().map(|o| o) == r, "map() with the identity changes the result");
    // map_err
    let mut n = 0;
    let m = r.clone().map_err(|e| {
        n += 1;
        (n, e)
    });
    let num: Vec<(i32, E15)> = es.iter().cloned().enumerate().map(|(i, e)| (i as i32 + 1, e)).collect();
    let want = match &r {
        Success(o) => Success(*o),
        Recovered(o, _) => Recovered(*o, num),
        Failed(i, _) => Failed(*i, num),
    };
    law!(m == want, "map_err() gives {m:?}, expected {want:?}");
    law!(n as usize == es.len(), "map_err() called its function {n} times");
    // try_map
    let mut seen = None;
    let m = r.clone().try_map(|o| {
        seen = Some(o);
        inner.clone().map(|x| (o, x))
    });
    law!(seen == tree, "try_map() called with {seen:?}");
    let cat = |a: &[E15], b: &[E15]| a.iter().chain(b).cloned().collect::<Vec<_>>();
    let want = match (&r, &inner) {
        (Failed(i, e), _) => Failed(*i, e.clone()),
        (Success(o), x) => x.clone().map(|x| (*o, x)),
        (Recovered(o, e), Success(x)) => Recovered((*o, *x), e.clone()),
        (Recovered(o, e), Recovered(x, f)) => Recovered((*o, *x), cat(e, f)),
        (Recovered(_, e), Failed(i, f)) => Failed(*i, cat(e, f)),
    };
    law!(m == want, "try_map() with {inner:?} gives {m:?}, expected {want:?}");
    law!(!(matches!(m, Success(_)) && !matches!(r, Success(_))), "try_map() turned {r:?} into {m:?}");
    // Composition of maps.
    law!(r.clone().map(|o| o + 1).map(|o| o * 2) == r.clone().map(|o| (o + 1) * 2), "maps do not compose");
    law!(r.clone().try_map(Success) == r, "try_map() with Success changes the result");
    law!(r.clone() == r, "clone differs");
    Ok(())
}

pub fn c15(s: &mut Src, ctx: &Ctx) -> Outcome {
    let r = gen15(s, "e");
    let inner = gen15(s, "f");
    let k = s.us(5) as u32;
    let desc = format!("{r:?} with inner {inner:?}");
    let nt = !matches!(r, parser::Result::Success(_));
    match guarded(|| c15_check(r, inner, k)) {
        Err(m) => fail_s(desc, format!("panic: {m}")),
        Ok(Err(m)) => fail_s(desc, m),
        Ok(Ok(())) => Outcome { verdict: Verdict::Pass, nontrivial: nt, hash: hash_of(&desc), labels: vec![], desc: if ctx.want_desc { desc } else { String::new() } },
    }
}

// ---------------------------------------------------------------- C16

const NAMES: &[&str] = &["x", "foo", "'('", "\u{e9}t\u{e9}", "or", "42", "\u{65e5}", "found", "at", "1:2", "{}", "%s", "and", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "EOF2", "'\\n'", "expected", "a_rather_long_token_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on"];

fn at_text(at: &Option<String>) -> String {
    at.as_ref().map(|t| format!(" at {t}")).unwrap_or_default()
}
/// A list "a", "a or b", "a, b, or c" read back.
fn read_list(s: &str) -> Option<Vec<String>> {
    if let Some((init, last)) = s.rsplit_once(", or ") {
        let mut v: Vec<String> = init.split(", ").map(|x| x.to_string()).collect();
        v.push(last.to_string());
        return (v.len() >= 3).then_some(v);
    }
    if s.contains(", ") {
        return None;
    }
    // Exactly one " or " between two words.
    let w: Vec<&str> = s.split(' ').collect();
    match w.len() {
        1 => Some(vec![w[0].to_string()]),
        3 if w[1] == "or" => Some(vec![w[0].to_string(), w[2].to_string()]),
        _ => None,
    }
}

struct AnyLoc<L, S> {
    at: At<L, S>,
    text: Option<String>,
}

fn c16_err<L>(s: &mut Src, mk: &mut dyn FnMut(&mut Src) -> AnyLoc<L::Location, L::Span>, sp: &mut dyn FnMut(&mut Src) -> (L::Span, String)) -> (String, Result<bool, String>)
where
    L: Tracker<&'static str>,
    L::Location: std::fmt::Display + Clone + std::fmt::Debug,
    L::Span: std::fmt::Display + Clone + std::fmt::Debug,
{
    type X<L> = error::Simple<&'static str, L>;
    let name = |s: &mut Src| *s.pick(NAMES);
    match s.us(5) {
        0 => {
            let n = if s.chance(1, 8) { s.us(25) } else { s.us(6) };
            let mut set: Vec<Option<&'static str>> = (0..n).map(|_| if s.chance(1, 5) { None } else { Some(name(s)) }).collect();
            let found = if s.chance(1, 4) { None } else { Some(name(s)) };
            let loc = mk(s);
            let mut e: X<L> = X::<L>::expected_found(set.clone(), found, clone_at(&loc.at));
            if s.bool() {
                let extra = if s.chance(1, 5) { None } else { Some(name(s)) };
                set.push(extra);
                let loc2 = mk(s);
                e.merge_expected_found(&X::<L>::expected_found([extra], Some("other"), loc2.at));
            }
            if format!("{:#}", e.location()) != loc_of(&loc.text) || !e.is_expected_found() {
                return ("expected-found".into(), Err(format!("location() is {:#}, {} was given", e.location(), loc_of(&loc.text))));
            }
            let text = e.to_string();
            let want: HashSet<String> = set.iter().map(|x| x.unwrap_or("EOF").to_string()).collect();
            let f = found.unwrap_or("EOF");
            let tail = format!("{f}{}", at_text(&loc.text));
            let desc = format!("expected {set:?}, found {found:?}: {text:?}");
            let list = if want.is_empty() {
                match text.strip_prefix("found unexpected ") {
                    Some(t) if t == tail => Some(vec![]),
                    _ => None,
                }
            } else {
                text.strip_prefix("expected ").and_then(|t| t.strip_suffix(&format!(" but found {tail}"))).and_then(read_list)
            };
            let Some(list) = list else { return (desc.clone(), Err(format!("cannot be read back: {text:?}, found and location should read {tail:?}"))) };
            let got: HashSet<String> = list.iter().cloned().collect();
            if got != want || list.len() != want.len() {
                return (desc, Err(format!("names {list:?}, the expected set is {want:?}")));
            }
            (desc, Ok(want.len() > 1))
        }
        1 => {
            let (t, loc) = (name(s), mk(s));
            let (span, st) = sp(s);
            let e: X<L> = X::<L>::unmatched_left_delimiter(t, span, clone_at(&loc.at));
            let text = e.to_string();
            if format!("{:#}", e.location()) != loc_of(&loc.text) || e.is_expected_found() {
                return (text, Err(format!("location() is {:#}, {} was given", e.location(), loc_of(&loc.text))));
            }
            let mut want = format!("unmatched left {t} ({st})");
            if let Some(l) = &loc.text {
                want.push_str(&format!("; must be closed before {l}"));
            }
            (format!("{text:?}"), if text == want { Ok(loc.text.is_some()) } else { Err(format!("rendered {text:?}, expected {want:?}")) })
        }
        2 => {
            let (t, loc) = (name(s), mk(s));
            let (span, st) = sp(s);
            let e: X<L> = X::<L>::unmatched_right_delimiter(t, span, clone_at(&loc.at));
            let text = e.to_string();
            if format!("{:#}", e.location()) != loc_of(&loc.text) || e.is_expected_found() {
                return (text, Err(format!("location() is {:#}, {} was given", e.location(), loc_of(&loc.text))));
            }
            let mut want = format!("unmatched right {t} ({st})");
            if let Some(l) = &loc.text {
                want.push_str(&format!("; must be opened after {l}"));
            }
            (format!("{text:?}"), if text == want { Ok(loc.text.is_some()) } else { Err(format!("rendered {text:?}, expected {want:?}")) })
        }
        3 => {
            let (a, b) = (name(s), name(s));
            let ((s1, t1), (s2, t2)) = (sp(s), sp(s));
            let e: X<L> = X::<L>::unmatched_delimiter_type(a, s1, b, s2);
            let text = e.to_string();
            if format!("{:#}", e.location()) != t2 || e.is_expected_found() {
                return (text, Err(format!("location() is {:#}, the right delimiter is at {t2}", e.location())));
            }
            let want = format!("left {a} ({t1}) does not match right {b} ({t2})");
            (format!("{text:?}"), if text == want { Ok(true) } else { Err(format!("rendered {text:?}, expected {want:?}")) })
        }
        _ => {
            let m = name(s);
            let loc = mk(s);
            let (e, known): (X<L>, Option<String>) = if s.bool() { (X::<L>::custom(m, clone_at(&loc.at)), loc.text) } else { (X::<L>::simple(m), None) };
            let text = e.to_string();
            if format!("{:#}", e.location()) != loc_of(&known) || e.is_expected_found() {
                return (text, Err(format!("location() is {:#}, {} was given", e.location(), loc_of(&known))));
            }
            let want = format!("{m}{}", at_text(&known));
            (format!("{text:?}"), if text == want { Ok(known.is_some()) } else { Err(format!("rendered {text:?}, expected {want:?}")) })
        }
    }
}
fn loc_of(t: &Option<String>) -> String {
    t.clone().unwrap_or("<unknown>".into())
}
fn clone_at<L: Clone, S: Clone>(a: &At<L, S>) -> At<L, S> {
    a.clone()
}

/// A row or column, now and then a huge one.
fn number(s: &mut Src, n: usize) -> usize {
    match s.us(10) {
        8 => 1 + s.us(100_000),
        9 => 1usize.checked_shl(s.us(64) as u32).unwrap_or(1).wrapping_sub(s.us(2)).max(1),
        _ => 1 + s.us(n),
    }
}

fn file_name(s: &mut Src) -> &'static str {
    s.pick(&["a.txt", "", "d\u{ef}r/f n", "x:1", "very/long/path/with/many/parts/to/some/deeply/nested/directory/in/which/the/file/is.grammar"])
}

/// A caller's own location tracker, whose locations can be displayed.
#[derive(Clone)]
struct UTrack;
#[derive(Clone, Debug, PartialEq)]
struct USpan(std::ops::Range<usize>);
impl std::fmt::Display for USpan {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}..{}", self.0.start, self.0.end)
    }
}
impl Tracker<&'static str> for UTrack {
    type Location = usize;
    type Span = USpan;
    fn advance(&mut self, _: &&'static str) {}
    fn location(&self, index: usize) -> usize {
        index
    }
    fn spanning_to(&self, a: usize, _: &Self, b: usize) -> USpan {
        USpan(a..b)
    }
}

pub fn c16(s: &mut Src, ctx: &Ctx) -> Outcome {
    let (desc, r) = if s.bool() {
        let mut mk = |s: &mut Src| {
            let (a, b) = (s.us(100), s.us(100));
            match s.us(3) {
                0 => AnyLoc { at: At::None, text: None },
                1 => AnyLoc { at: At::Location(a), text: Some(format!("{a}")) },
                _ => AnyLoc { at: At::Span(USpan(a..a + b)), text: Some(format!("{a}..{}", a + b)) },
            }
        };
        let mut sp = |s: &mut Src| {
            let (a, b) = (s.us(100), s.us(100));
            (USpan(a..a + b), format!("{a}..{}", a + b))
        };
        match guarded(|| at_render(s, &mut mk)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => return fail_s("At".into(), m),
        }
        match guarded(|| c16_err::<UTrack>(s, &mut mk, &mut sp)) {
            Ok(x) => x,
            Err(m) => return fail_s("rendering".into(), format!("panic: {m}")),
        }
    } else {
        type RT = location::Rich<&'static str, for<'a> fn(&'a &'static str) -> &'a str>;
        let off = |s: &mut Src| location::RichOffset { row: number(s, 50), column: number(s, 300), offset: s.us(1000), index: s.us(1000) };
        let loc = move |s: &mut Src| {
            let f = file_name(s);
            let o = off(s);
            let t = format!("{f} {}:{}", o.row, o.column);
            (location::RichLocation { filename: Rc::new(f.to_string()), offset: o }, t)
        };
        let span = move |s: &mut Src| {
            let f = file_name(s);
            let (a, b) = (off(s), off(s));
            let t = format!("{f} {}:{}..{}:{}", a.row, a.column, b.row, b.column);
            (location::RichSpan { filename: Rc::new(f.to_string()), from: a, to: b }, t)
        };
        let mut mk = move |s: &mut Src| match s.us(3) {
            0 => AnyLoc { at: At::None, text: None },
            1 => {
                let (l, t) = loc(s);
                AnyLoc { at: At::Location(l), text: Some(t) }
            }
            _ => {
                let (l, t) = span(s);
                AnyLoc { at: At::Span(l), text: Some(t) }
            }
        };
        let mut sp = span;
        match guarded(|| at_render(s, &mut mk)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => return fail_s("At".into(), m),
        }
        match guarded(|| c16_err::<RT>(s, &mut mk, &mut sp)) {
            Ok(x) => x,
            Err(m) => return fail_s("rendering".into(), format!("panic: {m}")),
        }
    };
    match r {
        Err(m) => fail_s(desc, m),
        Ok(nt) => Outcome { verdict: Verdict::Pass, nontrivial: nt, hash: hash_of(&desc), labels: vec![], desc: if ctx.want_desc { desc } else { String::new() } },
    }
}

/// At itself: " at X" or nothing, in the alternate form X or <unknown>.
fn at_render<L: std::fmt::Display + Clone, S: std::fmt::Display + Clone>(s: &mut Src, mk: &mut dyn FnMut(&mut Src) -> AnyLoc<L, S>) -> Result<(), String> {
    let l = mk(s);
    if l.at.is_known() != l.text.is_some() {
        return Err("is_known() is wrong".into());
    }
    let r = l.at.as_ref();
    for (got, want) in [
        (format!("{}", l.at), at_text(&l.text)),
        (format!("{:#}", l.at), l.text.clone().unwrap_or("<unknown>".into())),
        (format!("{r}"), at_text(&l.text)),
        (format!("{r:#}"), l.text.clone().unwrap_or("<unknown>".into())),
    ] {
        if got != want {
            return Err(format!("location rendered {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}
