//! Builds the real parser for a grammar description.

use crate::ast::*;
use crate::model::{upd, MR};
use crate::tok::*;
use parse_proof_of_concept::combinator::{self, TryMapResult};
use parse_proof_of_concept::error::{At, Error};
use parse_proof_of_concept::parser::{self, Parser};
use parse_proof_of_concept::primitive as prim;
use parse_proof_of_concept::recovery::{self, IncompleteStrategy};
use parse_proof_of_concept::recursive::{recursive, Recursive};
use parse_proof_of_concept::scanner::{nested_delimiters, Scanner};
use parse_proof_of_concept::stream;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub type P<E> = combinator::Boxed<'static, Tok, Tree, E>;
pub type St<E> = stream::Stream<'static, Tok, <E as ErrX>::LT>;
pub type Res<E> = parser::Result<Tree, E>;
type RBox<E> = recovery::Boxed<'static, Tok, P<E>>;

/// Shared by all instrumented nodes of one parser.
pub struct ProbeShared {
    pub toks: Vec<C>,
    pub pos: Vec<Pos>,
    pub problems: RefCell<Vec<String>>,
    pub failures_after_progress: Cell<u32>,
    pub invocations: Cell<u32>,
    pub mode: u8,
}

pub struct Cx<E: ErrX> {
    pub clone: bool,
    pub probe: Option<Rc<ProbeShared>>,
    pub env: Vec<Recursive<'static, Tok, Tree, E>>,
}
impl<E: ErrX> Cx<E> {
    pub fn new(clone: bool) -> Self {
        Cx { clone, probe: None, env: vec![] }
    }
}

fn pats(v: &[C]) -> Vec<Tok> {
    v.iter().map(|c| Tok::pat(*c)).collect()
}
thread_local! {
    static LEAKED: RefCell<std::collections::HashMap<Vec<C>, &'static Vec<Tok>>> = RefCell::new(Default::default());
    static TABLES: RefCell<std::collections::HashMap<Vec<(C, C)>, &'static [(Tok, Tok)]>> = RefCell::new(Default::default());
}
/// Frees leaked patterns once there are many. Only called between cases, when
/// no parser that could refer to them is left (a panicking case may have leaked
/// one, but nothing uses that any more).
pub fn release_leaked() {
    LEAKED.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() > 20_000 {
            for (_, v) in l.drain() {
                drop(unsafe { Box::from_raw(v as *const Vec<Tok> as *mut Vec<Tok>) });
            }
        }
    });
    TABLES.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() > 20_000 {
            for (_, v) in l.drain() {
                drop(unsafe { Box::from_raw(v as *const [(Tok, Tok)] as *mut [(Tok, Tok)]) });
            }
        }
    });
}
/// Leaked, but only once per distinct contents.
pub fn leak(v: &[C]) -> &'static Vec<Tok> {
    LEAKED.with(|l| *l.borrow_mut().entry(v.to_vec()).or_insert_with(|| Box::leak(Box::new(pats(v)))))
}
pub fn leak_table(t: &[(C, C)]) -> &'static [(Tok, Tok)] {
    TABLES.with(|l| {
        *l.borrow_mut().entry(t.to_vec()).or_insert_with(|| {
            let v: Vec<(Tok, Tok)> = t.iter().map(|(a, b)| (Tok::pat(*a), Tok::pat(*b))).collect();
            Box::leak(v.into_boxed_slice())
        })
    })
}

fn t_tok(t: Tok) -> Tree {
    Tree::Tok(tk(&t))
}
fn t_toks<'a, I: IntoIterator<Item = &'a Tok>>(v: I) -> Tree {
    Tree::Toks(v.into_iter().map(|t| t.c).collect())
}
fn bx(t: Tree) -> Box<Tree> {
    Box::new(t)
}

/// Finishes a node: optionally through a clone of the concrete combinator.
macro_rules! fin {
    ($cx:expr, $p:expr) => {{
        let p = $p;
        if $cx.clone {
            Parser::boxed(p.clone())
        } else {
            Parser::boxed(p)
        }
    }};
}

macro_rules! by_kind {
    ($cx:expr, $f:ident, $v:expr, $ck:expr, $out:expr) => {{
        let v: &Vec<C> = $v;
        match ($ck, v.len()) {
            (CK::RefVec, _) => fin!($cx, prim::$f(leak(v)).map($out)),
            (CK::Slice, _) => fin!($cx, prim::$f(leak(v).as_slice()).map($out)),
            (CK::Arr, 0) => fin!($cx, prim::$f::<Tok, [Tok; 0], E>([]).map($out)),
            (CK::Arr, 1) => fin!($cx, prim::$f([Tok::pat(v[0])]).map($out)),
            (CK::Arr, 2) => fin!($cx, prim::$f([Tok::pat(v[0]), Tok::pat(v[1])]).map($out)),
            (CK::Arr, 3) => fin!($cx, prim::$f([Tok::pat(v[0]), Tok::pat(v[1]), Tok::pat(v[2])]).map($out)),
            (CK::RefArr, 1) => fin!($cx, prim::$f::<Tok, &'static [Tok; 1], E>(leak(v).as_slice().try_into().unwrap()).map($out)),
            (CK::RefArr, 2) => fin!($cx, prim::$f::<Tok, &'static [Tok; 2], E>(leak(v).as_slice().try_into().unwrap()).map($out)),
            (CK::RefArr, 3) => fin!($cx, prim::$f::<Tok, &'static [Tok; 3], E>(leak(v).as_slice().try_into().unwrap()).map($out)),
            (CK::Single, 1) => fin!($cx, prim::$f(Tok::pat(v[0])).map($out)),
            _ => fin!($cx, prim::$f(pats(v)).map($out)),
        }
    }};
}

/// Uniform view of what seq() returns for the different containers.
trait SeqOut {
    fn tree(&self) -> Tree;
}
impl SeqOut for Vec<Tok> {
    fn tree(&self) -> Tree {
        t_toks(self)
    }
}
impl SeqOut for &'static Vec<Tok> {
    fn tree(&self) -> Tree {
        t_toks(self.iter())
    }
}
impl SeqOut for &'static [Tok] {
    fn tree(&self) -> Tree {
        t_toks(self.iter())
    }
}
impl<const N: usize> SeqOut for [Tok; N] {
    fn tree(&self) -> Tree {
        t_toks(self.iter())
    }
}
impl<const N: usize> SeqOut for &'static [Tok; N] {
    fn tree(&self) -> Tree {
        t_toks(self.iter())
    }
}
impl SeqOut for Tok {
    fn tree(&self) -> Tree {
        t_toks([self])
    }
}
fn seq_tree<T: SeqOut>(t: T) -> Tree {
    t.tree()
}

pub fn custom<E: ErrX>(m: String, at: At<E::Loc, <E as ErrX>::Span>) -> E {
    E::custom(m, at)
}

pub fn build<E: ErrX>(g: &G, cx: &mut Cx<E>) -> P<E> {
    let p = build2(g, cx);
    match &cx.probe {
        Some(s) => Parser::boxed(Probe { child: p, shared: s.clone() }),
        None => p,
    }
}

fn build2<E: ErrX>(g: &G, cx: &mut Cx<E>) -> P<E> {
    match g {
        G::Empty => fin!(cx, prim::empty::<Tok, E>().map(|_| Tree::Unit)),
        G::NoneP => fin!(
            cx,
            prim::none::<Tok, Tree, E>().map(|o| match o {
                None => Tree::No,
                Some(t) => Tree::Some(bx(t)),
            })
        ),
        G::End => fin!(cx, prim::end::<Tok, E>().map(|_| Tree::Unit)),
        G::Just(c) => fin!(cx, prim::just::<Tok, E>(Tok::pat(*c)).map(t_tok)),
        G::Filter(m) => {
            let m = *m;
            fin!(
                cx,
                prim::filter::<Tok, _, E>(move |t: &Tok| {
                    tick();
                    bit(m, t.c)
                })
                .map(t_tok)
            )
        }
        G::FilterMap(m) => {
            let m = *m;
            fin!(
                cx,
                prim::filter_map::<Tok, _, Tree, E>(move |t: &Tok| {
                    tick();
                    if bit(m, t.c) {
                        Some(Tree::Tag(200, bx(Tree::Tok(tk(t)))))
                    } else {
                        None
                    }
                })
            )
        }
        G::Seq(v, ck) => by_kind!(cx, seq, v, ck, seq_tree),
        G::OneOf(v, ck) => by_kind!(cx, one_of, v, ck, t_tok),
        G::NoneOf(v, ck) => by_kind!(cx, none_of, v, ck, t_tok),
        G::User(u) => Parser::boxed(UserP::<E> { k: u.clone(), ph: Default::default() }),
        G::To(a, k) => fin!(cx, build(a, cx).to(Tree::Val(*k))),
        G::Ignored(a) => fin!(cx, build(a, cx).ignored::<()>().map(|_: ()| Tree::Unit)),
        G::SomeP(a) => fin!(cx, build(a, cx).some().map(|o: Option<Tree>| Tree::Some(bx(o.unwrap())))),
        G::Map(a, k) => {
            let k = *k;
            fin!(cx, build(a, cx).map(move |t| map_fn(k, t)))
        }
        G::MapSpan(a) => fin!(
            cx,
            build(a, cx).map_with_span(|t, s: <E as ErrX>::Span| Tree::Span(E::span(&s), bx(t)))
        ),
        G::MapErr(a, em) => {
            let em = em.clone();
            fin!(cx, build(a, cx).map_err(move |e: E| map_err_fn::<E>(&em, e)))
        }
        G::MapErrSpan(a, k) => {
            let k = *k;
            fin!(
                cx,
                build(a, cx).map_err_with_span(move |e: E, s: <E as ErrX>::Span| -> E {
                    custom::<E>(crate::model::nest("s", k, &e.me()), At::Span(s))
                })
            )
        }
        G::TryMap(a, tm) => {
            let tm = tm.clone();
            // TryMap itself is not Clone.
            Parser::boxed(build(a, cx).try_map(move |t: Tree, s: <E as ErrX>::Span| try_map_fn::<E>(&tm, t, s)))
        }
        G::Then(a, b) => fin!(cx, build(a, cx).then(build(b, cx)).map(|(a, b)| Tree::Pair(bx(a), bx(b)))),
        G::ThenIgnore(a, b) => fin!(cx, build(a, cx).then_ignore(build(b, cx))),
        G::IgnoreThen(a, b) => fin!(cx, build(a, cx).ignore_then(build(b, cx))),
        G::Delim(l, m, r) => fin!(cx, build(m, cx).delimited_by(build(l, cx), build(r, cx))),
        G::Padded(a, m) => fin!(cx, build(m, cx).padded_by(build(a, cx))),
        G::Chain(v) => {
            let mut c = build(&v[0], cx).chain(build(&v[1], cx));
            for g in &v[2..] {
                c = c.and(build(g, cx));
            }
            fin!(cx, c.map(Tree::List))
        }
        G::Or(a, b) => fin!(cx, build(a, cx).or(build(b, cx))),
        G::OrNot(a) => fin!(
            cx,
            build(a, cx).or_not().map(|o| match o {
                None => Tree::No,
                Some(t) => Tree::Some(bx(t)),
            })
        ),
        G::Alters(v) => {
            let mut c = build(&v[0], cx).alters(build(&v[1], cx));
            for g in &v[2..] {
                c = c.and(build(g, cx));
            }
            fin!(cx, c)
        }
        G::Rep(r) => fin!(cx, build_rep(r, cx).map(Tree::List)),
        G::Recover(a, s) => build_recover(a, s, cx),
        G::Boxed(a) => fin!(cx, Parser::boxed(Parser::boxed(build(a, cx)))),
        G::WithErr(a) => fin!(cx, build(a, cx).with_error::<E>()),
        G::Rec(a, style) => match style {
            0 => Parser::boxed(recursive(|r: &Recursive<'static, Tok, Tree, E>| {
                cx.env.push(r.clone());
                let p = build(a, cx);
                cx.env.pop();
                p
            })),
            1 => {
                let mut r = Recursive::declare();
                cx.env.push(r.clone());
                let p = build(a, cx);
                cx.env.pop();
                r.define(p);
                Parser::boxed(r)
            }
            _ => {
                let r = Recursive::declare();
                let out = Parser::boxed(r.clone());
                cx.env.push(r.clone());
                let p = build(a, cx);
                cx.env.pop();
                let mut r2 = r;
                r2.define(p);
                out
            }
        },
        G::Var(k) => {
            let i = cx.env.len() - 1 - *k as usize;
            Parser::boxed(cx.env[i].clone())
        }
    }
}

pub fn map_err_fn<E: ErrX>(em: &EM, mut e: E) -> E {
    match em {
        EM::Id => e,
        EM::Nest(k) => custom::<E>(crate::model::nest("n", *k, &e.me()), At::None),
        EM::Merge(c) => {
            e.merge_expected_found(&E::expected_found([c.map(Tok::pat)], None, At::None));
            e
        }
    }
}

pub fn try_map_fn<E: ErrX>(tm: &TM, t: Tree, s: <E as ErrX>::Span) -> TryMapResult<Tree, E> {
    if tm_cond(&tm.cond, &t) {
        let e1 = custom::<E>("tm1".into(), At::Span(s.clone()));
        let two = |e1| vec![e1, custom::<E>("tm2".into(), At::None)];
        match &tm.act {
            TA::Err1 => TryMapResult::Err(vec![e1]),
            TA::Err2 => TryMapResult::Err(two(e1)),
            TA::ErrExp(c) => TryMapResult::Err(vec![E::expected_found([c.map(Tok::pat)], None, At::Span(s))]),
            TA::ErrExp2(c, first) => {
                let e = E::expected_found([c.map(Tok::pat)], None, At::Span(s));
                TryMapResult::Err(if *first { vec![e, e1] } else { vec![e1, e] })
            }
            TA::Recov => TryMapResult::Recovered(Tree::Tag(201, bx(t)), vec![e1]),
            TA::Recov2 => TryMapResult::Recovered(Tree::Tag(201, bx(t)), two(e1)),
        }
    } else {
        TryMapResult::Ok(Tree::Span(E::span(&s), bx(t)))
    }
}

pub fn build_rep<E: ErrX>(r: &Rep, cx: &mut Cx<E>) -> combinator::SeparatedBy<P<E>, P<E>> {
    let item = build(&r.item, cx);
    let late = r.style & 1 == 1;
    let (mut p, mut sep) = match &r.sep {
        None => (item.repeated(), None),
        Some(s) => {
            let s = build(s, cx);
            if late {
                (item.repeated(), Some(s))
            } else {
                (item.separated_by(s), None)
            }
        }
    };
    // Configure in all kinds of orders.
    let ops: [u8; 4] = match (r.style / 2) % 6 {
        0 => [0, 1, 2, 3],
        1 => [1, 2, 0, 3],
        2 => [3, 2, 1, 0],
        3 => [2, 0, 3, 1],
        4 => [0, 3, 1, 2],
        _ => [1, 3, 0, 2],
    };
    let bounds_swapped = r.style / 12 % 2 == 1;
    let exact = r.style / 24 == 0;
    for op in ops {
        match op {
            0 => {
                if let Some(s) = sep.take() {
                    p = p.with_separator(s)
                }
            }
            1 if r.lead => p = p.allow_leading(),
            2 if r.trail => p = p.allow_trailing(),
            3 => match (r.min, r.max) {
                (0, None) => {}
                (n, None) => p = p.at_least(n),
                (n, Some(m)) if n == m && exact => p = p.exactly(n),
                (0, Some(m)) if exact => p = p.at_most(m),
                (n, Some(m)) if bounds_swapped => p = p.at_least(n).at_most(m),
                (n, Some(m)) => p = p.at_most(m).at_least(n),
            },
            _ => {}
        }
    }
    p
}

fn build_recover<E: ErrX>(a: &G, s: &Strat, cx: &mut Cx<E>) -> P<E> {
    let parser = build(a, cx);
    let st = build_steps::<E>(&s.steps, s.style, cx);
    match &s.end {
        EndS::Return(k) => {
            let v = Tree::Val(*k);
            if s.steps.is_empty() && s.style & 1 == 1 {
                fin!(cx, parser.to_recover(recovery::just_return::<Tok, P<E>>(v)))
            } else {
                fin!(cx, parser.to_recover(st.and_return(v)))
            }
        }
        EndS::ReturnWith(k) => {
            let k = *k;
            if s.steps.is_empty() && s.style & 1 == 1 {
                fin!(cx, parser.to_recover(recovery::just_return_with::<Tok, P<E>, _>(move || Tree::Val(k))))
            } else {
                fin!(cx, parser.to_recover(st.and_return_with(move || Tree::Val(k))))
            }
        }
        EndS::ReturnSpan(k) => {
            let k = *k;
            let f = move |s: <E as ErrX>::Span| Tree::Span(E::span(&s), bx(Tree::Val(k)));
            if s.steps.is_empty() && s.style & 1 == 1 {
                fin!(cx, parser.to_recover(recovery::just_return_with_span::<Tok, P<E>, _>(f)))
            } else {
                fin!(cx, parser.to_recover(st.and_return_with_span(f)))
            }
        }
        EndS::Fail => fin!(cx, parser.to_recover(st.or_fail())),
    }
}

/// Boxes a strategy, optionally through a clone.
macro_rules! sb {
    ($cx:expr, $e:expr) => {{
        let s = $e;
        if $cx.clone {
            IncompleteStrategy::<'static, Tok, P<E>>::boxed(s.clone())
        } else {
            IncompleteStrategy::<'static, Tok, P<E>>::boxed(s)
        }
    }};
}

pub fn build_steps<E: ErrX>(steps: &[Step], style: u8, cx: &mut Cx<E>) -> RBox<E> {
    // With style bit 0 the first step uses the shorthand constructor.
    let mut cur: Option<RBox<E>> = if style & 1 == 0 { Some(sb!(cx, recovery::attempt_to::<Tok, P<E>>())) } else { None };
    for s in steps {
        cur = Some(build_step::<E>(cur, s, style, cx));
    }
    cur.unwrap_or_else(|| sb!(cx, recovery::attempt_to::<Tok, P<E>>()))
}

/// Scans at most n tokens.
#[derive(Clone)]
struct CountScan {
    left: u8,
    report: u16,
    stop: u16,
}
impl<E: ErrX> Scanner<'static, Tok, E> for CountScan {
    fn scan(&mut self, t: Tok, span: <E as ErrX>::Span, errors: &mut Vec<E>) -> bool {
        tick();
        if bit(self.report, t.c) {
            errors.push(custom::<E>(format!("scan{}", t.id), At::Span(span)));
        }
        if self.left == 0 || bit(self.stop, t.c) {
            return true;
        }
        self.left -= 1;
        false
    }
    fn eof(&mut self, l: E::Loc, errors: &mut Vec<E>) {
        errors.push(custom::<E>("scaneof".into(), At::Location(l)));
    }
}

fn build_step<E: ErrX>(cur: Option<RBox<E>>, s: &Step, style: u8, cx: &mut Cx<E>) -> RBox<E> {
    macro_rules! st {
        ($m:ident ( $($a:expr),* )) => {
            match cur {
                Some(c) => sb!(cx, IncompleteStrategy::<'static, Tok, P<E>>::$m(c $(, $a)*)),
                None => sb!(cx, recovery::$m($($a),*)),
            }
        };
    }
    let at = |cx: &Cx<E>, cur: Option<RBox<E>>| cur.unwrap_or_else(|| sb!(cx, recovery::attempt_to::<Tok, P<E>>()));
    fn pred(m: u16) -> impl Fn(&Tok) -> bool + Copy {
        move |t: &Tok| {
            tick();
            bit(m, t.c)
        }
    }
    match s {
        Step::Restart => sb!(cx, at(cx, cur).restart()),
        Step::SeekFailed => match cur {
            Some(c) => sb!(cx, c.seek_to_failed()),
            None => sb!(cx, recovery::seek_to_failed::<Tok, P<E>>()),
        },
        Step::Skip => match cur {
            Some(c) => sb!(cx, c.skip()),
            None => sb!(cx, recovery::skip::<Tok, P<E>>()),
        },
        Step::SkipIf(m) => st!(skip_if(pred(*m))),
        Step::Find(m) => st!(find(pred(*m))),
        Step::Scan(SK::Nested(table)) => {
            let t = leak_table(table);
            let f = nested_delimiters::<Tok, <E as ErrX>::Span>(t);
            match cur {
                Some(c) => sb!(cx, c.scan(f)),
                None => sb!(cx, recovery::scan::<Tok, P<E>, _, _>(f)),
            }
        }
        Step::Scan(SK::Count(n, r, stop)) => {
            let (left, report, stop) = (*n, *r, *stop);
            let f = move || CountScan { left, report, stop };
            match cur {
                Some(c) => sb!(cx, c.scan(f)),
                None => sb!(cx, recovery::scan::<Tok, P<E>, _, _>(f)),
            }
        }
        Step::Maybe(v) => {
            let inner = build_steps::<E>(v, style, cx);
            st!(maybe(inner))
        }
        Step::WhileNot(m, v) => {
            let inner = build_steps::<E>(v, style, cx);
            st!(while_not(pred(*m), inner))
        }
        Step::Retry(exact, silent) => {
            let r = at(cx, cur.clone()).retry();
            let short = cur.is_none();
            macro_rules! both {
                ($($m:ident).*) => {
                    if short { sb!(cx, recovery::retry::<Tok, P<E>>()$(.$m())*) } else { sb!(cx, r$(.$m())*) }
                };
            }
            match (exact, silent) {
                (false, false) => {
                    if short {
                        sb!(cx, recovery::retry::<Tok, P<E>>())
                    } else {
                        sb!(cx, r)
                    }
                }
                (true, false) => both!(exactly),
                (false, true) => both!(silently),
                (true, true) => {
                    if style & 2 == 0 {
                        both!(exactly_and_silently)
                    } else {
                        both!(silently.exactly)
                    }
                }
            }
        }
        Step::Try(g, exact, silent) => {
            let p = build(g, cx);
            let t = match cur {
                Some(c) => {
                    let t = c.try_to_parse(p);
                    return match (exact, silent) {
                        (false, false) => sb!(cx, t),
                        (true, false) => sb!(cx, t.exactly()),
                        (false, true) => sb!(cx, t.silently()),
                        (true, true) => {
                            if style & 2 == 0 {
                                sb!(cx, t.exactly_and_silently())
                            } else {
                                sb!(cx, t.exactly().silently())
                            }
                        }
                    };
                }
                None => recovery::try_to_parse::<Tok, P<E>, P<E>>(p),
            };
            match (exact, silent) {
                (false, false) => sb!(cx, t),
                (true, false) => sb!(cx, t.exactly()),
                (false, true) => sb!(cx, t.silently()),
                (true, true) => sb!(cx, t.exactly_and_silently()),
            }
        }
        Step::Push(k) => {
            let k = *k;
            st!(push_error(move || custom::<E>(format!("push{k}"), At::None)))
        }
        Step::PushHere(k) => {
            let k = *k;
            st!(push_error_here(move |l: E::Loc| custom::<E>(format!("here{k}"), At::Location(l))))
        }
        Step::PushUpTo(k) => {
            let k = *k;
            st!(push_error_up_to_here(move |s: <E as ErrX>::Span| custom::<E>(format!("upto{k}"), At::Span(s))))
        }
        Step::PushTok(k) => {
            let k = *k;
            st!(push_error_for_token(move |t: Option<&Tok>, s: <E as ErrX>::Span| custom::<E>(
                format!("tok{k}:{:?}", t.map(tk)),
                At::Span(s)
            )))
        }
        Step::Upd(k) => {
            let k = *k;
            st!(update_errors(move |v: &mut Vec<E>| upd(k, v, || custom::<E>("upd".into(), At::None))))
        }
        Step::UpdHere(k) => {
            let k = *k;
            st!(update_errors_here(move |v: &mut Vec<E>, l: E::Loc| v.push(custom::<E>(format!("here{k}"), At::Location(l)))))
        }
        Step::UpdUpTo(k) => {
            let k = *k;
            st!(update_errors_up_to_here(move |v: &mut Vec<E>, s: <E as ErrX>::Span| v
                .push(custom::<E>(format!("upto{k}"), At::Span(s)))))
        }
        Step::UpdTok(k) => {
            let k = *k;
            st!(update_errors_for_token(
                move |v: &mut Vec<E>, t: Option<&Tok>, s: <E as ErrX>::Span| v.push(custom::<E>(
                    format!("tok{k}:{:?}", t.map(tk)),
                    At::Span(s)
                ))
            ))
        }
        Step::Boxed => {
            let c = at(cx, cur);
            sb!(cx, sb!(cx, c))
        }
        Step::Nop => sb!(cx, at(cx, cur).do_nothing()),
    }
}

/// Parsers as a user would write them against the public trait and stream.
pub struct UserP<E> {
    k: UK,
    ph: std::marker::PhantomData<E>,
}
impl<E: ErrX> UserP<E> {
    fn fail(s: &mut St<E>, set: Vec<Option<Tok>>) -> Res<E> {
        let found = s.token().cloned();
        let span = s.span();
        parser::Result::Failed(s.index(), vec![E::expected_found(set, found, At::Span(span))])
    }
}
impl<E: ErrX> Parser<'static, Tok> for UserP<E> {
    type Output = Tree;
    type Error = E;
    fn parse_internal(&self, s: &mut St<E>, rec: bool) -> Res<E> {
        use parser::Result::*;
        tick();
        match &self.k {
            UK::Any => match s.token() {
                Some(t) => {
                    let r = Tree::Tok(tk(t));
                    s.advance();
                    Success(r)
                }
                None => Failed(s.index(), vec![E::expected_found([], None, At::Location(s.location()))]),
            },
            UK::Zero(c) => {
                if let Some(t) = s.token() {
                    if t.c == *c {
                        let r = Tree::Tok(tk(t));
                        s.advance();
                        return Success(r);
                    }
                }
                Failed(0, vec![custom::<E>("zero".into(), At::None)])
            }
            UK::Two(a, b) => s.attempt(|s| {
                for c in [a, b] {
                    match s.token() {
                        Some(t) if t.c == *c => {
                            s.advance();
                        }
                        _ => return Err(Self::fail(s, vec![Some(Tok::pat(*c))])),
                    }
                }
                Ok(Success(Tree::Val(*a * 16 + *b)))
            }),
            UK::Last(a, b) => {
                let start = s.save();
                let mut last = 0;
                for c in [a, b] {
                    match s.token() {
                        Some(t) if t.c == *c => {
                            last = s.index();
                            s.advance();
                        }
                        _ => {
                            s.restore(&start);
                            return Failed(last, vec![custom::<E>("last".into(), At::None)]);
                        }
                    }
                }
                Success(Tree::Val(*a * 16 + *b))
            }
            UK::Recov(c) => {
                let t = s.token().map(tk);
                match t {
                    Some(t) if t.0 == *c => {
                        s.advance();
                        Success(Tree::Tok(t))
                    }
                    Some(t) if rec => {
                        let span = s.span();
                        s.advance();
                        Recovered(Tree::Val(99), vec![custom::<E>(format!("recov{}", t.1), At::Span(span))])
                    }
                    _ => Self::fail(s, vec![Some(Tok::pat(*c))]),
                }
            }
            UK::Peek(c) => match s.token() {
                Some(t) if t.c == *c => Success(Tree::Note(format!("peek{}", t.id))),
                _ => Self::fail(s, vec![Some(Tok::pat(*c))]),
            },
            UK::Spans(n) => {
                let start = s.save();
                let l0 = E::loc(&s.location());
                let mut note = String::new();
                for _ in 0..*n {
                    let sp = E::span(&s.span());
                    note.push_str(&format!("{sp:?};"));
                    s.advance();
                }
                let sp = E::span(&s.spanning_back_to(&start));
                let l1 = E::loc(&s.location());
                let l0b = E::loc(&s.location_at(&start));
                if l0 != l0b {
                    note.push_str(&format!("location_at differs: {l0:?} {l0b:?}"));
                }
                Success(Tree::Span(sp, bx(Tree::Note(format!("{note}{l0:?}{l1:?}")))))
            }
            UK::Manual(a, b) => {
                let start = s.save();
                if s.advance() {
                    s.token();
                }
                s.restore(&start);
                match s.token() {
                    Some(t) if t.c == *a || t.c == *b => {
                        let t = tk(t);
                        s.advance();
                        Success(Tree::Tok(t))
                    }
                    _ => Self::fail(s, vec![Some(Tok::pat(*a)), Some(Tok::pat(*b))]),
                }
            }
        }
    }
}

/// Wraps a parser and checks at each invocation that the cursor and the
/// tokens behave.
pub struct Probe<E: ErrX> {
    child: P<E>,
    shared: Rc<ProbeShared>,
}
impl<E: ErrX> Probe<E> {
    fn problem(&self, m: String) {
        let mut p = self.shared.problems.borrow_mut();
        if p.len() < 3 {
            p.push(m);
        }
    }
    fn check_here(&self, s: &mut St<E>, what: &str) {
        let sh = &self.shared;
        let i = s.index();
        if i > sh.toks.len() {
            self.problem(format!("{what}: cursor {i} beyond the end"));
            return;
        }
        let l = E::loc(&s.location());
        if l != sh.pos[i] {
            self.problem(format!("{what}: location at {i} is {l:?}, expected {:?}", sh.pos[i]));
        }
        if sh.mode & 1 != 0 {
            let t = s.token().map(tk);
            let want = sh.toks.get(i).map(|c| (*c, i as u32 + 1));
            if t != want {
                self.problem(format!("{what}: token at {i} is {t:?}, expected {want:?}"));
            }
        }
        if sh.mode & 2 != 0 {
            let sp = E::span(&s.span());
            let want = (sh.pos[i], sh.pos[(i + 1).min(sh.toks.len())]);
            if sp != want {
                self.problem(format!("{what}: span at {i} is {sp:?}, expected {want:?}"));
            }
        }
    }
}
impl<E: ErrX> Parser<'static, Tok> for Probe<E> {
    type Output = Tree;
    type Error = E;
    fn parse_internal(&self, s: &mut St<E>, rec: bool) -> Res<E> {
        let sh = &self.shared;
        tick();
        sh.invocations.set(sh.invocations.get() + 1);
        let start = s.index();
        self.check_here(s, "before");
        let mark = if sh.mode & 4 != 0 { Some(s.save()) } else { None };
        let ops0 = sh.invocations.get();
        let r = self.child.parse_internal(s, rec);
        let end = s.index();
        match &r {
            parser::Result::Success(_) | parser::Result::Recovered(..) => {
                if end < start {
                    self.problem(format!("a parser that succeeded moved the cursor back from {start} to {end}"));
                }
                if !rec && matches!(r, parser::Result::Recovered(..)) {
                    self.problem("recovered although recovery was disabled".into());
                }
            }
            parser::Result::Failed(i, es) => {
                if end != start {
                    self.problem(format!("failed parser left the cursor at {end}, it started at {start}"));
                }
                if es.is_empty() {
                    self.problem("failure without errors".into());
                }
                if *i > start || sh.invocations.get() > ops0 + 1 {
                    sh.failures_after_progress.set(sh.failures_after_progress.get() + 1);
                }
            }
        }
        self.check_here(s, "after");
        if let Some(m) = mark {
            if s.index_at(&m) != start {
                self.problem(format!("saved position moved from {start} to {}", s.index_at(&m)));
            }
            let t = s.token_at(&m).map(tk);
            let want = sh.toks.get(start).map(|c| (*c, start as u32 + 1));
            if t != want {
                self.problem(format!("token at saved position {start} is {t:?}, expected {want:?}"));
            }
            let l = E::loc(&s.location_at(&m));
            if l != sh.pos[start] {
                self.problem(format!("location at saved position {start} is {l:?}, expected {:?}", sh.pos[start]));
            }
            let sp = E::span(&s.spanning_back_to(&m));
            if end <= sh.toks.len() && sp != (sh.pos[start], sh.pos[end]) {
                self.problem(format!("span back to {start} is {sp:?}"));
            }
        }
        r
    }
}

/// A result of the real parser in the model's terms.
pub fn to_mr<E: ErrX>(r: &Res<E>) -> MR {
    match r {
        parser::Result::Success(t) => MR::S(t.clone()),
        parser::Result::Recovered(t, es) => MR::R(t.clone(), es.iter().map(|e| e.me()).collect()),
        parser::Result::Failed(i, es) => MR::F(*i, es.iter().map(|e| e.me()).collect()),
    }
}
