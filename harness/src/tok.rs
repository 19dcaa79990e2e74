//! Tokens, positions, error descriptions and the error-type abstraction.

use parse_proof_of_concept::error::{self, At, Error};
use parse_proof_of_concept::location::{self, Tracker};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

pub type C = u8;
pub const NSYM: usize = 16;

thread_local! {
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    pub static PEAK: Cell<i64> = const { Cell::new(0) };
    static OPS: Cell<u64> = const { Cell::new(0) };
    /// Set when an error's accessors contradict its contents.
    static ACCESS_BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static TEXTS: RefCell<[&'static str; NSYM]> = const { RefCell::new([""; NSYM]) };
}

/// Operation budget: a real parse that performs vastly more token operations
/// than the model needed steps is reported as not terminating.
pub fn set_budget(limit: u64) {
    OPS.with(|o| o.set(0));
    LIMIT.with(|l| l.set(limit));
}
pub fn no_budget() {
    LIMIT.with(|l| l.set(u64::MAX));
}
pub fn accessors_reset() {
    ACCESS_BAD.with(|b| *b.borrow_mut() = None);
}
pub fn accessors_bad() -> Option<String> {
    ACCESS_BAD.with(|b| b.borrow_mut().take())
}
pub fn tick() {
    OPS.with(|o| {
        let v = o.get() + 1;
        o.set(v);
        if v > LIMIT.with(|l| l.get()) {
            no_budget();
            panic!("operation budget exhausted (parse does not terminate?)");
        }
    });
}

/// A token. Equality and hashing only look at the symbol; the id tells the
/// tokens of the input (position + 1) from the ones in patterns (0).
pub struct Tok {
    pub c: C,
    pub id: u32,
}

impl Tok {
    pub fn new(c: C, id: u32) -> Self {
        LIVE.with(|l| {
            let v = l.get() + 1;
            l.set(v);
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        });
        Tok { c, id }
    }
    pub fn pat(c: C) -> Self {
        Tok::new(c, 0)
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        tick();
        Tok::new(self.c, self.id)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let _ = LIVE.try_with(|l| l.set(l.get() - 1));
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.c == o.c
    }
}
impl Eq for Tok {}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.c.hash(h)
    }
}
pub fn sym(c: C) -> char {
    (b'a' + c) as char
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", sym(self.c), self.id)
    }
}

/// (token index, row, column, byte offset); the last three are 0 for the
/// simple tracker.
pub type Pos = [usize; 4];
pub type Sp = (Pos, Pos);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MAt {
    None,
    Loc(Pos),
    Sp(Sp),
}

pub type TK = (C, u32);

/// Description of an error, independent of the error type.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ME {
    Exp(BTreeSet<Option<C>>, Option<TK>, MAt),
    UL(TK, Sp, MAt),
    UR(TK, Sp, MAt),
    UT(TK, Sp, TK, Sp),
    Cust(String, MAt),
    Void,
}

pub fn tk(t: &Tok) -> TK {
    (t.c, t.id)
}

pub const FILE: &str = "in\u{fc}t.x";

pub fn conv(t: &Tok) -> &str {
    TEXTS.with(|x| x.borrow()[t.c as usize])
}
pub type Conv = fn(&Tok) -> &str;
pub type RichT = location::Rich<Tok, Conv>;

/// Texts of the symbols and the symbols the start location has been advanced by.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct LocCfg {
    pub texts: [&'static str; NSYM],
    pub prefix: Vec<C>,
}
impl Default for LocCfg {
    fn default() -> Self {
        LocCfg { texts: ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"], prefix: vec![] }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EK {
    Simple,
    Rich,
    Void,
}

/// Ground truth positions, from a plain sum over the texts.
pub fn positions(ek: EK, cfg: &LocCfg, toks: &[C]) -> Vec<Pos> {
    let mut v = Vec::with_capacity(toks.len() + 1);
    if ek != EK::Rich {
        for i in 0..=toks.len() {
            v.push([i, 0, 0, 0]);
        }
        return v;
    }
    let mut text = String::new();
    for c in &cfg.prefix {
        text.push_str(cfg.texts[*c as usize]);
    }
    let (mut row, mut col) = (1, 1);
    let mut off = 0;
    let mut upto = |text: &str| {
        // Row = 1 + number of newlines, column = 1 + characters after the last newline.
        row += text.matches('\n').count();
        col = match text.rfind('\n') {
            Some(i) => 1 + text[i + 1..].chars().count(),
            None => col + text.chars().count(),
        };
        off += text.len();
        (row, col, off)
    };
    let (r, c, o) = upto(&text);
    v.push([0, r, c, o]);
    for (i, t) in toks.iter().enumerate() {
        let (r, c, o) = upto(cfg.texts[*t as usize]);
        v.push([i + 1, r, c, o]);
    }
    v
}

/// The error types the library is instantiated with.
pub trait ErrX: Error<'static, Tok, LocationTracker = <Self as ErrX>::LT> + Clone + 'static {
    type Loc: Clone + PartialEq + 'static;
    type Span: Clone + PartialEq + 'static;
    type LT: Tracker<Tok, Location = <Self as ErrX>::Loc, Span = <Self as ErrX>::Span> + 'static;
    const EK: EK;
    fn start(cfg: &LocCfg) -> <Self as ErrX>::LT;
    fn loc(l: &<Self as ErrX>::Loc) -> Pos;
    fn span(s: &<Self as ErrX>::Span) -> Sp;
    fn me(&self) -> ME;
}

fn at_of<E: ErrX>(a: &At<<E as ErrX>::Loc, <E as ErrX>::Span>) -> MAt {
    match a {
        At::None => MAt::None,
        At::Location(l) => MAt::Loc(E::loc(l)),
        At::Span(s) => MAt::Sp(E::span(s)),
    }
}

fn simple_me<E, L>(e: &error::Simple<Tok, L>) -> ME
where
    L: Tracker<Tok, Location = <E as ErrX>::Loc, Span = <E as ErrX>::Span>,
    E: ErrX,
{
    let me = match e {
        error::Simple::ExpectedFound(x, f, at) => ME::Exp(
            x.iter().map(|t| t.as_ref().map(|t| t.c)).collect(),
            f.as_ref().map(tk),
            at_of::<E>(at),
        ),
        error::Simple::UnmatchedLeftDelimiter(t, s, at) => ME::UL(tk(t), E::span(s), at_of::<E>(at)),
        error::Simple::UnmatchedRightDelimiter(t, s, at) => ME::UR(tk(t), E::span(s), at_of::<E>(at)),
        error::Simple::UnmatchedDelimiterType(t, s, t2, s2) => ME::UT(tk(t), E::span(s), tk(t2), E::span(s2)),
        error::Simple::Custom(m, at) => ME::Cust(m.clone(), at_of::<E>(at)),
    };
    let want = match &me {
        ME::Exp(_, _, at) | ME::UL(_, _, at) | ME::UR(_, _, at) | ME::Cust(_, at) => at.clone(),
        ME::UT(_, _, _, s) => MAt::Sp(*s),
        ME::Void => MAt::None,
    };
    let got = match e.location() {
        At::None => MAt::None,
        At::Location(l) => MAt::Loc(E::loc(l)),
        At::Span(s) => MAt::Sp(E::span(s)),
    };
    if got != want || e.is_expected_found() != matches!(me, ME::Exp(..)) {
        ACCESS_BAD.with(|b| *b.borrow_mut() = Some(format!("location() of {me:?} is {got:?}, is_expected_found() is {}", e.is_expected_found())));
    }
    me
}

pub type ES = error::Simple<Tok, location::Simple>;
pub type ER = error::Simple<Tok, RichT>;
pub type EV = error::Void<Tok>;

impl ErrX for ES {
    type Loc = usize;
    type Span = std::ops::Range<usize>;
    type LT = location::Simple;
    const EK: EK = EK::Simple;
    fn start(_: &LocCfg) -> location::Simple {
        Default::default()
    }
    fn loc(l: &usize) -> Pos {
        [*l, 0, 0, 0]
    }
    fn span(s: &std::ops::Range<usize>) -> Sp {
        ([s.start, 0, 0, 0], [s.end, 0, 0, 0])
    }
    fn me(&self) -> ME {
        simple_me::<ES, location::Simple>(self)
    }
}

fn rich_pos(file: &Rc<String>, o: &location::RichOffset) -> Pos {
    if file.as_str() != FILE {
        return [usize::MAX, 0, 0, 0];
    }
    [o.index, o.row, o.column, o.offset]
}

impl ErrX for ER {
    type Loc = location::RichLocation;
    type Span = location::RichSpan;
    type LT = RichT;
    const EK: EK = EK::Rich;
    fn start(cfg: &LocCfg) -> RichT {
        TEXTS.with(|t| *t.borrow_mut() = cfg.texts);
        let mut r = location::Rich::new(FILE, conv as Conv);
        for c in &cfg.prefix {
            r.advance(&Tok::pat(*c));
        }
        r
    }
    fn loc(l: &location::RichLocation) -> Pos {
        rich_pos(&l.filename, &l.offset)
    }
    fn span(s: &location::RichSpan) -> Sp {
        (rich_pos(&s.filename, &s.from), rich_pos(&s.filename, &s.to))
    }
    fn me(&self) -> ME {
        simple_me::<ER, RichT>(self)
    }
}

impl ErrX for EV {
    type Loc = usize;
    type Span = std::ops::Range<usize>;
    type LT = location::Simple;
    const EK: EK = EK::Void;
    fn start(_: &LocCfg) -> location::Simple {
        Default::default()
    }
    fn loc(l: &usize) -> Pos {
        [*l, 0, 0, 0]
    }
    fn span(s: &std::ops::Range<usize>) -> Sp {
        ([s.start, 0, 0, 0], [s.end, 0, 0, 0])
    }
    fn me(&self) -> ME {
        ME::Void
    }
}

/// Instrumented, unfused token source: after its end it would deliver a bogus
/// token if it were asked again.
pub struct Source {
    pub toks: std::vec::IntoIter<C>,
    pub n: u32,
    pub stats: Rc<SrcStats>,
}
#[derive(Default)]
pub struct SrcStats {
    pub pulls: Cell<usize>,
    pub ended: Cell<bool>,
    pub polled_after_end: Cell<bool>,
}
impl Source {
    pub fn new(toks: &[C]) -> (Source, Rc<SrcStats>) {
        let stats = Rc::new(SrcStats::default());
        (Source { toks: toks.to_vec().into_iter(), n: 0, stats: stats.clone() }, stats)
    }
}
impl Iterator for Source {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        tick();
        self.stats.pulls.set(self.stats.pulls.get() + 1);
        match self.toks.next() {
            Some(c) => {
                self.n += 1;
                Some(Tok::new(c, self.n))
            }
            None => {
                if self.stats.ended.get() {
                    self.stats.polled_after_end.set(true);
                    return Some(Tok::new(0, 999_999));
                }
                self.stats.ended.set(true);
                None
            }
        }
    }
}
