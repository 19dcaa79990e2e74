//! C26: a parser for a whole language (JSON), written the way a user would write it.
use crate::common::*;
use crate::engine::*;
use crate::tok::no_budget;
use parse_proof_of_concept::combinator::{Boxed, TryMapResult};
use parse_proof_of_concept::error::{At, Error, Simple};
use parse_proof_of_concept::location::{Rich, RichSpan};
use parse_proof_of_concept::parser::{Parser, Result as PResult};
use parse_proof_of_concept::primitive::{just, none_of, one_of, seq};
use parse_proof_of_concept::recovery::{find, IncompleteStrategy};
use parse_proof_of_concept::recursive::recursive;

/// A character that knows its text.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Ch(char, [u8; 4], usize);

fn ch(c: char) -> Ch {
    let mut b = [0; 4];
    let n = c.encode_utf8(&mut b).len();
    Ch(c, b, n)
}

fn chs(s: &str) -> Vec<Ch> {
    s.chars().map(ch).collect()
}

fn text(c: &Ch) -> &str {
    std::str::from_utf8(&c.1[..c.2]).unwrap()
}

impl std::fmt::Debug for Ch {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

type L = Rich<Ch, fn(&Ch) -> &str>;
type E = Simple<Ch, L>;
type P<T> = Boxed<'static, Ch, T, E>;

#[derive(Clone, PartialEq, Debug, Hash)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<N>),
    Obj(Vec<(String, N)>),
    Bad,
}

/// Index, row, column and byte offset.
type Place = (usize, usize, usize, usize);

#[derive(Clone, PartialEq, Debug, Hash)]
struct N {
    v: J,
    from: Place,
    to: Place,
}

fn place(o: &parse_proof_of_concept::location::RichOffset) -> Place {
    (o.index, o.row, o.column, o.offset)
}

fn node(v: J, s: RichSpan) -> N {
    N { v, from: place(&s.from), to: place(&s.to) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Flavor {
    trailing: bool,
    /// Lines: line feeds are neither white space nor in strings.
    lines: bool,
    /// Another way to write the same grammar.
    other: bool,
}

fn json(f: Flavor) -> P<N> {
    let r = recursive(move |value| {
        let ws = Parser::boxed(one_of::<_, _, E>(chs(if f.lines { " \t" } else { " \t\r\n" })).repeated());
        let word = |w: &str, v: J| Parser::boxed(seq::<_, _, E>(chs(w)).to(v));
        let hex = |c: &Ch| c.0.to_digit(16);
        let two = |(a, b): (u32, u32)| a * 16 + b;
        let code = Parser::boxed(
            parse_proof_of_concept::primitive::filter_map::<_, _, _, E>(hex)
                .then(parse_proof_of_concept::primitive::filter_map(hex))
                .map(two)
                .then(parse_proof_of_concept::primitive::filter_map(hex))
                .map(two)
                .then(parse_proof_of_concept::primitive::filter_map(hex))
                .map(two)
                .try_map(|c, span| match char::from_u32(c) {
                    Some(c) => TryMapResult::Ok(c),
                    None => TryMapResult::Err(vec![E::custom(format!("no character {c:04x}"), At::Span(span))]),
                }),
        );
        let to = |a: char, b: char| Parser::boxed(just::<_, E>(ch(a)).to(b));
        let escape = Parser::boxed(
            to('"', '"')
                .alters(to('\\', '\\'))
                .and(to('/', '/'))
                .and(to('b', '\x08'))
                .and(to('f', '\x0C'))
                .and(to('n', '\n'))
                .and(to('r', '\r'))
                .and(to('t', '\t'))
                .and(just(ch('u')).ignore_then(code)),
        );
        let plain = Parser::boxed(none_of::<_, _, E>(chs(if f.lines { "\"\\\n" } else { "\"\\" })).map(|c: Ch| c.0));
        let string: P<String> = Parser::boxed(
            plain
                .or(just(ch('\\')).ignore_then(escape))
                .repeated()
                .delimited_by(just(ch('"')), just(ch('"')))
                .map(|v| v.into_iter().collect::<String>()),
        );
        let digit = || Parser::boxed(one_of::<_, _, E>(chs("0123456789")));
        let digits: P<String> = Parser::boxed(digit().repeated().at_least(1).map(|v| v.iter().map(|c| c.0).collect()));
        let integer: P<String> = Parser::boxed(
            just::<_, E>(ch('0')).map(|_| "0".to_string()).or(one_of(chs("123456789")).then(digit().repeated()).map(|(a, v)| {
                let mut s = a.0.to_string();
                s.extend(v.iter().map(|c| c.0));
                s
            })),
        );
        let fraction: P<String> = Parser::boxed(just(ch('.')).ignore_then(digits.clone()).map(|d| format!(".{d}")));
        let exponent: P<String> = Parser::boxed(
            one_of(chs("eE"))
                .then(one_of(chs("+-")).or_not())
                .then(digits)
                .map(|((e, s), d)| format!("{}{}{d}", e.0, s.map(|c: Ch| c.0.to_string()).unwrap_or_default())),
        );
        let number: P<J> = Parser::boxed(just(ch('-')).or_not().then(integer).then(fraction.or_not()).then(exponent.or_not()).map(|(((s, i), f), e)| {
            J::Num(format!("{}{i}{}{}", if s.is_some() { "-" } else { "" }, f.unwrap_or_default(), e.unwrap_or_default()))
        }));
        let value: P<N> = Parser::boxed(value.clone());
        let pair: P<(String, N)> = if f.other {
            Parser::boxed(string.clone().padded_by(ws.clone()).then_ignore(just(ch(':'))).then(value.clone()))
        } else {
            Parser::boxed(ws.clone().ignore_then(string.clone()).then_ignore(ws.clone()).then_ignore(just(ch(':'))).then(value.clone()))
        };
        macro_rules! list {
            ($item:expr, $l:literal, $r:literal) => {{
                let l = $item.separated_by(just(ch(',')));
                let l = if f.trailing { l.allow_trailing() } else { l };
                if f.other {
                    Parser::boxed(just(ch($l)).ignore_then(l).then_ignore(ws.clone()).then_ignore(just(ch($r))))
                } else {
                    Parser::boxed(l.then_ignore(ws.clone()).delimited_by(just(ch($l)), just(ch($r))))
                }
            }};
        }
        let object: P<J> = Parser::boxed(list!(pair, '{', '}').map(J::Obj));
        let array: P<J> = Parser::boxed(list!(value, '[', ']').map(J::Arr));
        let string: P<J> = Parser::boxed(string.map(J::Str));
        let any: P<J> = if f.other {
            Parser::boxed(number.or(string).or(array).or(object).or(word("null", J::Null)).or(word("true", J::Bool(true))).or(word("false", J::Bool(false))))
        } else {
            Parser::boxed(
                object
                    .alters(array)
                    .and(string)
                    .and(word("true", J::Bool(true)))
                    .and(word("false", J::Bool(false)))
                    .and(word("null", J::Null))
                    .and(number),
            )
        };
        Parser::boxed(any.map_with_span(node).padded_by(ws))
    });
    // A text is a list or an object, rather.
    Parser::boxed(r.try_map(|n: N, span| match n.v {
        J::Arr(_) | J::Obj(_) => TryMapResult::Ok(n),
        _ => TryMapResult::Recovered(n, vec![E::custom("a bare value", At::Span(span))]),
    }))
}

// ---------------------------------------------------------------- reference reader

struct Reader<'a> {
    t: &'a [char],
    at: &'a [Place],
    i: usize,
    f: Flavor,
    /// The furthest character that does not fit what comes before.
    far: usize,
}

/// A value, or where its parser fails: before a list is closed, a malformed item ends the list.
type R<T> = Result<T, usize>;

impl Reader<'_> {
    fn peek(&self) -> Option<char> {
        self.t.get(self.i).copied()
    }
    fn no<T>(&mut self) -> R<T> {
        self.far = self.far.max(self.i);
        Err(self.i)
    }
    fn eat(&mut self, c: char) -> R<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            return Ok(());
        }
        self.no()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t')) || (!self.f.lines && matches!(self.peek(), Some('\r' | '\n'))) {
            self.i += 1;
        }
    }
    fn escape(&mut self) -> R<char> {
        self.eat('\\')?;
        let Some(c) = self.peek() else { return self.no() };
        let c = match c {
            '"' | '\\' | '/' => c,
            'b' => '\x08',
            'f' => '\x0C',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'u' => {
                let mut n = 0;
                for _ in 0..4 {
                    self.i += 1;
                    let Some(d) = self.peek().and_then(|c| c.to_digit(16)) else { return self.no() };
                    n = n * 16 + d;
                }
                let Some(c) = char::from_u32(n) else { return self.no() };
                c
            }
            _ => return self.no(),
        };
        self.i += 1;
        Ok(c)
    }
    fn string(&mut self) -> R<String> {
        self.eat('"')?;
        let mut s = String::new();
        loop {
            let from = self.i;
            match self.peek() {
                Some('"') => {
                    self.i += 1;
                    return Ok(s);
                }
                Some('\\') => match self.escape() {
                    Ok(c) => s.push(c),
                    Err(_) => return Err(from),
                },
                None => return self.no(),
                Some('\n') if self.f.lines => return self.no(),
                Some(c) => {
                    self.i += 1;
                    s.push(c);
                }
            }
        }
    }
    fn digits(&mut self) -> bool {
        let from = self.i;
        while matches!(self.peek(), Some('0'..='9')) {
            self.i += 1;
        }
        self.i > from || self.no::<()>().is_ok()
    }
    fn number(&mut self) -> R<J> {
        let from = self.i;
        let _ = self.eat('-');
        if self.eat('0').is_err() && !self.digits() {
            return self.no();
        }
        let mark = self.i;
        if self.eat('.').is_ok() && !self.digits() {
            self.i = mark;
        }
        let mark = self.i;
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            if !self.digits() {
                self.i = mark;
            }
        }
        Ok(J::Num(self.t[from..self.i].iter().collect()))
    }
    fn word(&mut self, w: &str, v: J) -> R<J> {
        for c in w.chars() {
            self.eat(c)?;
        }
        Ok(v)
    }
    fn list<T>(&mut self, close: char, mut item: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        self.i += 1;
        let mut v = vec![];
        let mut end = self.i;
        loop {
            match item(self) {
                Ok(x) => v.push(x),
                Err(_) => break,
            }
            end = self.i;
            if self.eat(',').is_err() {
                break;
            }
            if self.f.trailing {
                end = self.i;
            }
        }
        self.i = end;
        self.ws();
        self.eat(close)?;
        Ok(v)
    }
    fn value(&mut self) -> R<N> {
        self.ws();
        let from = self.i;
        let v = match self.peek() {
            Some('{') => J::Obj(self.list('}', |r| {
                r.ws();
                let k = r.string()?;
                r.ws();
                r.eat(':')?;
                Ok((k, r.value()?))
            })?),
            Some('[') => J::Arr(self.list(']', |r| r.value())?),
            Some('"') => J::Str(self.string()?),
            Some('t') => self.word("true", J::Bool(true))?,
            Some('f') => self.word("false", J::Bool(false))?,
            Some('n') => self.word("null", J::Null)?,
            _ => self.number()?,
        };
        let to = self.i;
        self.ws();
        Ok(N { v, from: self.at[from], to: self.at[to] })
    }
    /// A whole text, up to its end or the end of its line.
    fn whole(&mut self) -> R<N> {
        let v = self.value()?;
        if self.i < self.t.len() {
            return self.no();
        }
        Ok(v)
    }
}

/// Reads `t` from `from` on; the furthest character that does not fit, and the value.
fn read(f: Flavor, t: &[char], at: &[Place], from: usize) -> (R<N>, usize) {
    let mut r = Reader { t, at, i: from, f, far: from };
    let v = r.whole();
    (v, r.far)
}

fn places(t: &[char]) -> Vec<Place> {
    let mut v = vec![(0, 1, 1, 0)];
    for c in t {
        let (i, r, k, o) = *v.last().unwrap();
        v.push(if *c == '\n' { (i + 1, r + 1, 1, o + 1) } else { (i + 1, r, k + 1, o + c.len_utf8()) });
    }
    v
}

// ---------------------------------------------------------------- texts

struct Writer {
    f: Flavor,
    out: String,
    left: usize,
    deep: usize,
}

impl Writer {
    fn ws(&mut self, s: &mut Src) {
        if s.chance(1, 4) {
            for _ in 0..1 + s.size(3) {
                self.out.push(*s.pick(if self.f.lines { &[' ', '\t'] } else { &[' ', '\t', '\n', '\r'] as &[char] }));
            }
        }
    }
    fn string(&mut self, s: &mut Src) {
        self.out.push('"');
        let n = if s.chance(1, 40) { 40 + s.us(200) } else { s.size(6) };
        for _ in 0..n {
            match s.weighted(&[8, 2, 1, 1]) {
                0 => self.out.push(*s.pick(&['a', 'b', '"', ' ', 'é', '\u{1F600}', ',', ']', '}', '[', '{', ':', '0', '/', '\u{2028}'])),
                1 => self.out.push_str(*s.pick(&["\\n", "\\t", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\u0041", "\\u00e9"])),
                2 => self.out.push_str(&format!("\\u{:04x}", s.us(0x10000))),
                _ if s.chance(1, 4) => self.out.push_str("\\ud8Ab"),
                _ => self.out.push('z'),
            }
            // A bare quote ends the string; that text is not a document, usually.
            if self.out.ends_with('"') && !self.out.ends_with("\\\"") && !s.chance(1, 100) {
                self.out.pop();
            }
        }
        self.out.push('"');
    }
    fn value(&mut self, s: &mut Src, depth: usize) {
        self.ws(s);
        self.left = self.left.saturating_sub(1);
        let nest = if self.left == 0 || depth >= self.deep { 0 } else if self.left > 20 { 12 } else { 4 };
        let flat = if depth == 0 && nest > 0 { 0 } else { 1 };
        match s.weighted(&[1, 2 * flat, 3 * flat, 3 * flat, nest, nest]) {
            0 => self.out.push_str("null"),
            1 => self.out.push_str(*s.pick(&["true", "false"])),
            2 => {
                let n = format!(
                    "{}{}{}{}",
                    *s.pick(&["", "-"]),
                    *s.pick(&["0", "1", "10", "907", "123456789012345678901234567890"]),
                    *s.pick(&["", "", ".0", ".25"]),
                    *s.pick(&["", "", "e1", "E+07", "e-3"])
                );
                self.out.push_str(&n);
            }
            3 => self.string(s),
            k => {
                let obj = k == 4;
                self.out.push(if obj { '{' } else { '[' });
                let n = if self.left > 500 && s.bool() { 1 + s.us(self.left / 2) } else { s.size(5) };
                for i in 0..n {
                    if i > 0 {
                        self.out.push(',');
                    }
                    if obj {
                        self.ws(s);
                        self.string(s);
                        self.ws(s);
                        self.out.push(':');
                    }
                    self.value(s, depth + 1);
                }
                if n > 0 && self.f.trailing && s.chance(1, 4) {
                    self.out.push(',');
                }
                self.ws(s);
                self.out.push(if obj { '}' } else { ']' });
            }
        }
        self.ws(s);
    }
}

fn damage(s: &mut Src, t: &mut Vec<char>, lines: bool) {
    for _ in 0..1 + s.size(2) {
        let i = s.us(t.len() + 1);
        let c = *s.pick(&['"', '\\', '[', ']', '{', '}', ',', ':', '.', 'e', '-', '0', '1', 't', 'u', ' ', 'é', '\u{1F600}']);
        match s.us(4) {
            0 => t.insert(i, c),
            1 if i < t.len() => t[i] = c,
            2 if i < t.len() => {
                t.remove(i);
            }
            3 if i < t.len() && s.bool() => t.truncate(i),
            _ => {}
        }
    }
    if lines {
        t.retain(|c| *c != '\n');
    }
}

fn document(s: &mut Src, f: Flavor, big: bool) -> Vec<char> {
    let (left, deep) = if big {
        match s.us(3) {
            0 => (400 + s.us(600), 400),
            1 => (2000 + s.us(6000), 6),
            _ => (1000, 12),
        }
    } else {
        (s.size(60), 8)
    };
    let mut w = Writer { f, out: String::new(), left, deep };
    if big && s.chance(1, 3) {
        // Deep nesting.
        let n = 50 + s.us(250);
        let kinds: Vec<bool> = (0..n).map(|_| s.bool()).collect();
        for k in &kinds {
            w.out.push_str(if *k { "[" } else { "{\"k\":" });
        }
        w.left = 5;
        w.value(s, 0);
        for k in kinds.iter().rev() {
            w.out.push_str(if *k { "]" } else { "}" });
        }
    } else if big && s.chance(1, 3) {
        // A long list of much the same, in the middle of something.
        let n = 1000 + s.us(9000);
        w.left = 5;
        w.out.push_str("[[");
        let mut p = w.out.len();
        w.value(s, 0);
        let item = w.out[p..].to_string();
        w.out.truncate(p);
        for i in 0..n {
            if i > 0 {
                w.out.push(',');
            }
            if i % 16 == 0 && w.out.len() < 40_000 {
                w.out.push_str(&item);
            } else {
                w.out.push((b'0' + (i % 10) as u8) as char);
            }
        }
        w.out.push_str("],");
        p = w.out.len();
        w.value(s, 0);
        if p % 2 == 0 {
            let again = w.out[p..].to_string();
            w.out.push(',');
            w.out.push_str(&again);
        }
        w.out.push(']');
    } else {
        w.value(s, 0);
    }
    let mut t: Vec<char> = w.out.chars().collect();
    if s.chance(1, 3) {
        damage(s, &mut t, f.lines);
    }
    t
}

fn err_at(e: &E) -> Option<usize> {
    match Error::<Ch>::location(e) {
        At::None => None,
        At::Location(l) => Some(l.offset.index),
        At::Span(s) => Some(s.from.index),
    }
}

fn start() -> L {
    Rich::new("f", text as fn(&Ch) -> &str)
}

fn short(t: &[char]) -> String {
    let s: String = t.iter().collect();
    if s.len() > 1500 {
        format!("{:?}... ({} characters)", s.chars().take(700).collect::<String>(), t.len())
    } else {
        format!("{s:?}")
    }
}

/// The validation reports bare values, with all that is read for them.
fn bare(es: &[&E], n: &N, from: usize, to: usize) -> Result<bool, String> {
    if matches!(n.v, J::Arr(_) | J::Obj(_)) {
        return if es.is_empty() { Ok(false) } else { Err(format!("errors {es:?} for a well-formed text")) };
    }
    match es {
        [Simple::Custom(m, At::Span(s))] if m == "a bare value" && (s.from.index, s.to.index) == (from, to) => Ok(true),
        _ => Err(format!("errors {es:?}, expected a bare value from {from} to {to}")),
    }
}

/// A failure is where the parser stopped, tells what is found there, and expects only what fits.
fn failure(es: &[&E], f: Flavor, t: &[char], from: usize, i: usize) -> Result<(), String> {
    if es.is_empty() {
        return Err("a failure without errors".into());
    }
    for e in es {
        let Simple::ExpectedFound(x, found, _) = e else { return Err(format!("error {e:?} for a malformed text")) };
        if err_at(e) != Some(i) {
            return Err(format!("error {e:?}, expected at {i}"));
        }
        if found.as_ref().map(|c| c.0) != t.get(i).copied() {
            return Err(format!("error {e:?}: at {i} is {:?}", t.get(i)));
        }
        if x.contains(found) {
            return Err(format!("error {e:?} expects what it found"));
        }
        let mut u = t[from..i].to_vec();
        for c in x {
            match c {
                // The end of the line, or of the text.
                Some(Ch('\n', ..)) if f.lines => {}
                None if !f.lines => {}
                Some(c) => {
                    u.push(c.0);
                    let far = read(f, &u, &places(&u), 0);
                    if far.0.is_err() && far.1 < u.len() {
                        return Err(format!("error {e:?}: {c:?} does not fit at {i}"));
                    }
                    u.pop();
                    continue;
                }
                None => return Err(format!("error {e:?} expects the end of the input")),
            }
            if read(f, &u, &places(&u), 0).0.is_err() {
                return Err(format!("error {e:?}: the text does not end at {i}"));
            }
        }
    }
    Ok(())
}

pub fn c26(s: &mut Src, ctx: &Ctx) -> Outcome {
    let f = Flavor { trailing: s.chance(1, 3), lines: s.bool(), other: s.bool() };
    let big = s.chance(1, 100);
    let (desc, labels, nt, hash, r);
    if f.lines {
        let n = if s.chance(1, 60) { 200 + s.us(300) } else { 1 + s.size(8) };
        let large = s.us(n);
        let docs: Vec<Vec<char>> = (0..n).map(|i| document(s, f, big && i == large)).collect();
        let mut t: Vec<char> = vec![];
        let mut ends = vec![];
        for d in &docs {
            t.extend(d);
            t.push('\n');
            ends.push(t.len());
        }
        desc = format!("{f:?}\nlines {}", short(&t));
        let at = places(&t);
        let mut want = vec![];
        let mut a = 0;
        for b in &ends {
            want.push(read(f, &t[..*b - 1], &at, a).0);
            a = *b;
        }
        let bad = want.iter().filter(|w| w.is_err()).count();
        nt = t.len() > 20 && want.len() > 1;
        labels = vec![if bad == 0 { "all lines well-formed" } else { "malformed lines" }, if t.len() > 2000 { "long text" } else { "short text" }];
        hash = hash_of(&(f, &t));
        r = guarded(|| -> Result<(), String> {
            budget(2_000_000);
            let line: P<N> = Parser::boxed(json(f).then_ignore(just(ch('\n'))));
            let nothing = N { v: J::Bad, from: (0, 0, 0, 0), to: (0, 0, 0, 0) };
            let line: P<N> = Parser::boxed(line.to_recover(find(|c: &Ch| c.0 == '\n').skip().and_return_with(move || nothing.clone())));
            let src: Vec<Ch> = t.iter().copied().map(ch).collect();
            let mut st = line.stream_with_location(src, start());
            let mut a = 0;
            for (k, w) in want.iter().enumerate() {
                let Some(r) = st.next() else { return Err(format!("the stream ends before line {k}")) };
                let es: Vec<&E> = r.errors().collect();
                let tree = r.tree();
                match w {
                    Ok(w) => {
                        if tree != Some(w) {
                            return Err(format!("line {k} gives {tree:?}, expected {w:?}"));
                        }
                        let b = bare(&es, w, a, ends[k] - 1).map_err(|m| format!("line {k}: {m}"))?;
                        if matches!(r, PResult::Success(_)) == b {
                            return Err(format!("line {k} gives {r:?}"));
                        }
                    }
                    Err(i) => {
                        if tree.map(|n| &n.v) != Some(&J::Bad) || !matches!(r, PResult::Recovered(..)) {
                            return Err(format!("the malformed line {k} gives {r:?}"));
                        }
                        failure(&es, f, &t, a, *i).map_err(|m| format!("line {k}: {m}"))?;
                    }
                }
                a = ends[k];
            }
            // Then nothing is left to read.
            let left: Vec<Ch> = st.tail().collect();
            if !left.is_empty() {
                return Err(format!("{} characters are left", left.len()));
            }
            Ok(())
        });
    } else if s.chance(1, 3) {
        // One text after the other, up to the first that is malformed.
        let n = if s.chance(1, 60) { 100 + s.us(400) } else { 1 + s.size(8) };
        let large = s.us(n);
        let mut t: Vec<char> = vec![];
        for i in 0..n {
            t.extend(document(s, f, big && i == large));
        }
        let peek = if s.chance(1, 4) { Some(s.us(n)) } else { None };
        desc = format!("{f:?}\ntexts {}, {peek:?} steps", short(&t));
        let at = places(&t);
        let mut rd = Reader { t: &t, at: &at, i: 0, f, far: 0 };
        let mut want = vec![];
        let mut stop = None;
        while rd.i < t.len() && peek != Some(want.len()) {
            let from = rd.i;
            match rd.value() {
                Ok(v) => want.push((v, from, rd.i)),
                Err(i) => {
                    stop = Some(i);
                    rd.i = from;
                    break;
                }
            }
        }
        let left = rd.i;
        nt = want.len() > 1;
        labels = vec![if stop.is_none() { "well-formed texts" } else { "texts up to a malformed one" }, if t.len() > 2000 { "long text" } else { "short text" }];
        hash = hash_of(&(f, &t, peek));
        r = guarded(|| -> Result<(), String> {
            budget(2_000_000);
            let p = json(f);
            let src: Vec<Ch> = t.iter().copied().map(ch).collect();
            let mut st = p.stream_with_location(src, start());
            for (k, (w, a, b)) in want.iter().enumerate() {
                let Some(r) = st.next() else { return Err(format!("the stream ends before text {k}")) };
                if r.tree() != Some(w) {
                    return Err(format!("text {k} gives {:?}, expected {w:?}", r.tree()));
                }
                let es: Vec<&E> = r.errors().collect();
                let bad = bare(&es, w, *a, *b).map_err(|m| format!("text {k}: {m}"))?;
                if matches!(r, PResult::Success(_)) == bad {
                    return Err(format!("text {k} gives {r:?}"));
                }
            }
            if let Some(i) = stop {
                // Failing does not move on: it fails again.
                for _ in 0..2 {
                    let Some(r) = st.next() else { return Err("the stream ends before the malformed text".into()) };
                    if r.tree().is_some() {
                        return Err(format!("the malformed text gives {r:?}"));
                    }
                    failure(&r.errors().collect::<Vec<_>>(), f, &t, left, i)?;
                }
            } else if peek.is_none() && st.next().is_some() {
                return Err("the stream goes on after the last text".into());
            }
            let rest: String = st.tail().map(|c| c.0).collect();
            let want: String = t[left..].iter().collect();
            if rest != want {
                return Err(format!("the tail is {rest:?}, expected {want:?}"));
            }
            Ok(())
        });
    } else {
        let t = document(s, f, big);
        desc = format!("{f:?}\ntext {}", short(&t));
        let at = places(&t);
        let want = read(f, &t, &at, 0).0;
        nt = t.len() > 10;
        labels = vec![if want.is_ok() { "well-formed" } else { "malformed" }, if t.len() > 2000 { "long text" } else { "short text" }];
        hash = hash_of(&(f, &t));
        r = guarded(|| -> Result<(), String> {
            budget(2_000_000);
            let p: P<N> = Parser::boxed(json(f).then_ignore(parse_proof_of_concept::primitive::end()));
            let src: Vec<Ch> = t.iter().copied().map(ch).collect();
            let r = p.parse_with_recovery_and_location(src.clone(), start());
            let es: Vec<&E> = r.errors().collect();
            let mut odd = false;
            match &want {
                Ok(w) => {
                    if r.tree() != Some(w) {
                        return Err(format!("gives {:?}, expected {w:?}", r.tree().map(|_| &r)));
                    }
                    odd = bare(&es, w, 0, t.len())?;
                    if matches!(r, PResult::Success(_)) == odd {
                        return Err(format!("gives {r:?}"));
                    }
                }
                Err(i) => {
                    if r.tree().is_some() {
                        return Err(format!("malformed, but gives {r:?}"));
                    }
                    failure(&es, f, &t, 0, *i)?;
                }
            }
            let q = p.parse_with_location(src, start());
            let ok = want.is_ok() && !odd;
            if q.is_ok() != ok || (ok && q.as_ref().ok() != want.as_ref().ok()) {
                return Err(format!("parse() gives {q:?}"));
            }
            Ok(())
        });
    }
    no_budget();
    match r {
        Err(m) => fail_s(desc, format!("panic: {m}")),
        Ok(Err(m)) => fail_s(desc, m.chars().take(3000).collect()),
        Ok(Ok(())) => Outcome { verdict: Verdict::Pass, nontrivial: nt, hash: if nt { hash } else { 0 }, labels, desc: if ctx.want_desc { desc } else { String::new() } },
    }
}
