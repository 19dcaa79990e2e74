//! Running real parsers and the model on generated cases.

use crate::ast::*;
use crate::construct::*;
use crate::engine::*;
use crate::model::*;
use crate::tok::*;
use parse_proof_of_concept::parser::Parser;
use parse_proof_of_concept::stream;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub const FUEL: u64 = 20_000;

pub struct Case {
    pub g: G,
    pub toks: Vec<C>,
    pub cfg: LocCfg,
    pub ek: EK,
    pub clone: bool,
}

impl Case {
    pub fn hash(&self) -> u64 {
        hash_of(&(&self.g, &self.toks, &self.cfg, self.ek, self.clone))
    }
    pub fn desc(&self) -> String {
        let cfg = if self.ek == EK::Rich { format!(" texts {:?} start after {}", self.cfg.texts, Toks(&self.cfg.prefix)) } else { String::new() };
        format!(
            "grammar: {:?}\ninput: {:?} ({} tokens), errors: {:?}{}{}",
            self.g,
            Toks(&self.toks).to_string(),
            self.toks.len(),
            self.ek,
            if self.clone { ", through clones" } else { "" },
            cfg
        )
    }
    pub fn pos(&self) -> Vec<Pos> {
        positions(self.ek, &self.cfg, &self.toks)
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The knobs vary from case to case, so that all sizes and mixes occur.
pub fn vary(s: &mut Src, p: &mut Prof, thorough: bool) -> usize {
    p.nsym = 2 + s.us(3);
    if s.chance(1, 10) {
        p.wide = true;
        p.huge = s.chance(1, 16);
        if s.bool() {
            p.nsym = 5 + s.us(NSYM - 4);
        }
    }
    if s.chance(1, 4) {
        p.max_nodes = 6;
    }
    if thorough && s.chance(1, 4) {
        p.max_nodes = 90;
    }
    if p.huge || thorough && s.chance(1, 8) {
        600
    } else if s.chance(1, 8) {
        250
    } else {
        70
    }
}

pub fn gen_case(s: &mut Src, mut p: Prof, ctx: &Ctx, eks: &[EK]) -> Case {
    let ek = *s.pick(eks);
    let limit = vary(s, &mut p, ctx.thorough);
    let clone = s.chance(1, 4);
    let cfg = if ek == EK::Rich { loc_cfg(s) } else { LocCfg::default() };
    let mut gen = Gen::new(s, p);
    let g = gen.grammar();
    let toks = gen.input(&g, limit);
    Case { g, toks, cfg, ek, clone }
}

pub struct Pred {
    pub mr: MR,
    pub end: usize,
    pub need: usize,
    pub steps: u64,
    pub backtracks: u32,
    pub recoveries: u32,
    pub alts_failed: u32,
    pub merged: u32,
    pub seps: u32,
    pub spans: u32,
    pub strat_runs: u32,
}

pub fn predict_from(c: &Case, g: &G, pos: &[Pos], rec: bool, from: usize, fuel: u64) -> Option<Pred> {
    let mut m = Model::new(&c.toks, pos, c.ek, fuel);
    m.need = from;
    let mut p = from;
    let mr = m.run(g, &mut vec![], &mut p, rec).ok()?;
    if m.ambiguous {
        return None;
    }
    Some(Pred {
        mr,
        end: p,
        need: m.need,
        steps: m.steps,
        backtracks: m.backtracks,
        recoveries: m.recoveries,
        alts_failed: m.alts_failed,
        merged: m.merged,
        seps: m.seps,
        spans: m.spans,
        strat_runs: m.strat_runs,
    })
}
pub fn predict(c: &Case, pos: &[Pos], rec: bool) -> Option<Pred> {
    predict_from(c, &c.g, pos, rec, 0, FUEL)
}

pub struct Obs {
    pub mr: MR,
    pub end: usize,
    pub pulls: usize,
    pub polled: bool,
    pub left: Vec<TK>,
}

pub fn budget(steps: u64) {
    set_budget(2000 * steps + 2_000_000);
}

/// One parse on a fresh stream, then whatever is left in the stream.
pub fn observe_p<E: ErrX, X>(p: &X, toks: &[C], cfg: &LocCfg, rec: bool) -> Obs
where
    X: Parser<'static, Tok, Output = Tree, Error = E>,
{
    let (src, st) = Source::new(toks);
    let mut s: St<E> = stream::Stream::new_with_location(src, E::start(cfg));
    let r = p.parse_internal(&mut s, rec);
    let (end, pulls) = (s.index(), st.pulls.get());
    let mut left = vec![];
    while let Some(t) = s.token() {
        left.push(tk(t));
        s.advance();
        if left.len() > toks.len() + 5 {
            break;
        }
    }
    Obs { mr: to_mr::<E>(&r), end, pulls, polled: st.polled_after_end.get(), left }
}

pub fn observe_e<E: ErrX>(c: &Case, g: &G, rec: bool, steps: u64, probe: Option<Rc<ProbeShared>>) -> Result<Obs, String> {
    guarded(|| {
        let mut cx = Cx::<E>::new(c.clone);
        cx.probe = probe;
        let p = build(g, &mut cx);
        // Building and cloning the parser is not counted.
        budget(steps);
        let o = observe_p::<E, _>(&p, &c.toks, &c.cfg, rec);
        no_budget();
        o
    })
    .map_err(|m| {
        no_budget();
        format!("panic: {m}")
    })
}

#[macro_export]
macro_rules! with_ek {
    ($ek:expr, $E:ident, $body:expr) => {
        match $ek {
            EK::Simple => {
                type $E = ES;
                $body
            }
            EK::Rich => {
                type $E = ER;
                $body
            }
            EK::Void => {
                type $E = EV;
                $body
            }
        }
    };
}

pub fn observe(c: &Case, rec: bool, steps: u64) -> Result<Obs, String> {
    with_ek!(c.ek, E, observe_e::<E>(c, &c.g, rec, steps, None))
}
pub fn observe_g(c: &Case, g: &G, rec: bool, steps: u64) -> Result<Obs, String> {
    with_ek!(c.ek, E, observe_e::<E>(c, g, rec, steps, None))
}

/// The tokens that must be left after consuming `end` tokens.
pub fn rest(toks: &[C], end: usize) -> Vec<TK> {
    toks.iter().enumerate().skip(end).map(|(i, c)| (*c, i as u32 + 1)).collect()
}

pub fn variant(r: &MR) -> u8 {
    match r {
        MR::S(_) => 0,
        MR::R(..) => 1,
        MR::F(..) => 2,
    }
}
pub fn tree_of(r: &MR) -> Option<&Tree> {
    match r {
        MR::S(t) | MR::R(t, _) => Some(t),
        MR::F(..) => None,
    }
}
pub fn errs_of(r: &MR) -> &[ME] {
    match r {
        MR::S(_) => &[],
        MR::R(_, e) | MR::F(_, e) => e,
    }
}

/// Tree with positions and/or token identities left out.
pub fn erase(t: &Tree, spans: bool, ids: bool) -> Tree {
    let b = |t: &Tree| Box::new(erase(t, spans, ids));
    match t {
        Tree::Tok(x) if ids => Tree::Tok((x.0, 0)),
        Tree::Some(t) => Tree::Some(b(t)),
        Tree::Pair(x, y) => Tree::Pair(b(x), b(y)),
        Tree::List(v) => Tree::List(v.iter().map(|t| erase(t, spans, ids)).collect()),
        Tree::Tag(k, t) => Tree::Tag(*k, b(t)),
        Tree::Span(s, t) => {
            let z = ([0; 4], [0; 4]);
            Tree::Span(if spans { z } else { *s }, b(t))
        }
        Tree::Note(_) if spans || ids => Tree::Note(String::new()),
        t => t.clone(),
    }
}

pub fn pass(c: &Case, ctx: &Ctx, nontrivial: bool, labels: Vec<&'static str>) -> Outcome {
    Outcome {
        verdict: Verdict::Pass,
        nontrivial,
        hash: if nontrivial { c.hash() } else { 0 },
        labels,
        desc: if ctx.want_desc && nontrivial { c.desc() } else { String::new() },
    }
}
pub fn fail(c: &Case, m: String) -> Outcome {
    Outcome { verdict: Verdict::Fail(m), nontrivial: true, hash: c.hash(), labels: vec![], desc: c.desc() }
}
pub fn fail_s(desc: String, m: String) -> Outcome {
    Outcome { verdict: Verdict::Fail(m), nontrivial: true, hash: 0, labels: vec![], desc }
}

pub fn show(r: &MR) -> String {
    let s = format!("{r:?}");
    if s.len() > 1500 {
        let mut i = 1500;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}...", &s[..i])
    } else {
        s
    }
}
