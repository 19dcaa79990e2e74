//! Tokenizes and parses texts with the generated parser checked in in /repo.
//! One hex-encoded text per input line, one JSON line each in return.
#![allow(unused_imports, clippy::all)]
pub use parse_proof_of_concept::*;
#[allow(dead_code, private_interfaces, mismatched_lifetime_syntaxes)]
#[path = "/repo/src/test_pangram.rs"]
mod test_pangram;
use std::io::{BufRead, Write};
use parse_proof_of_concept::parser::Parser as _;
use test_pangram::*;

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}

type S = std::ops::Range<usize>;

/// Writes the visited nodes as nested JSON lists.
struct Dump(String);
impl Dump {
    fn open(&mut self, name: &str) {
        if self.0.ends_with(']') || self.0.ends_with('"') {
            self.0.push(',');
        }
        self.0.push_str(&format!("[\"{name}\",["));
    }
    fn close(&mut self) {
        self.0.push_str("]]");
    }
    fn leaf(&mut self, name: &str, d: &Option<TokenData<'_, S>>) {
        if self.0.ends_with(']') || self.0.ends_with('"') {
            self.0.push(',');
        }
        match d {
            Some(d) => self.0.push_str(&format!("[\"{name}\",\"{}\",{}]", hex(d.token.text()), d.index)),
            None => self.0.push_str("[\"missing\",\"\",0]"),
        }
    }
}
macro_rules! leaves {
    ($($f:ident $t:ident $n:literal),*) => {
        $(fn $f(&mut self, x: &$t<'i, S>) -> Result<(), ()> { self.leaf($n, &x.data); Ok(()) })*
    };
}
macro_rules! nodes {
    ($($f:ident $t:ident $n:literal),*) => {
        $(fn $f(&mut self, x: &$t<'i, S>) -> Result<(), ()> { self.open($n); x.traverse(self)?; self.close(); Ok(()) })*
    };
}
impl<'i> Visitor<'i, S, ()> for Dump {
    leaves!(visit_ColEqEq PtColEqEq "ColEqEq", visit_Sem PtSem "Sem", visit_Usc PtUsc "Usc", visit_Symbol PtSymbol "Symbol",
        visit_Bar PtBar "Bar", visit_ColColEq PtColColEq "ColColEq", visit_MinGt PtMinGt "MinGt", visit_Qst PtQst "Qst",
        visit_Ast PtAst "Ast", visit_Pls PtPls "Pls", visit_Lp PtLp "Lp", visit_Rp PtRp "Rp",
        visit_StringLiteral PtStringLiteral "StringLiteral", visit_CharacterSet PtCharacterSet "CharacterSet",
        visit_CharacterLiteral PtCharacterLiteral "CharacterLiteral", visit_Doc PtDoc "Doc");
    nodes!(visit_Grammar PtGrammar "Grammar", visit_Alternation PtAlternation "Alternation", visit_FirstAlter PtFirstAlter "FirstAlter",
        visit_SubseqAlter PtSubseqAlter "SubseqAlter", visit_AlterName PtAlterName "AlterName", visit_Concatenation PtConcatenation "Concatenation");
    fn visit_Rule(&mut self, x: &PtRule<'i, S>) -> Result<(), ()> {
        self.open(match x {
            PtRule::TokenRule(..) => "Rule.TokenRule",
            PtRule::WhitespaceRule(..) => "Rule.WhitespaceRule",
            PtRule::GrammarRule(..) => "Rule.GrammarRule",
            _ => "Rule.?",
        });
        x.traverse(self)?;
        self.close();
        Ok(())
    }
    fn visit_Repetition(&mut self, x: &PtRepetition<'i, S>) -> Result<(), ()> {
        self.open(match x {
            PtRepetition::Maybe(..) => "Repetition.Maybe",
            PtRepetition::Any(..) => "Repetition.Any",
            PtRepetition::Many(..) => "Repetition.Many",
            PtRepetition::One(..) => "Repetition.One",
            _ => "Repetition.?",
        });
        x.traverse(self)?;
        self.close();
        Ok(())
    }
    fn visit_Singular(&mut self, x: &PtSingular<'i, S>) -> Result<(), ()> {
        self.open(match x {
            PtSingular::Nested(..) => "Singular.Nested",
            PtSingular::Symbol(..) => "Singular.Symbol",
            PtSingular::StringLiteral(..) => "Singular.StringLiteral",
            PtSingular::CharacterSet(..) => "Singular.CharacterSet",
            PtSingular::CharacterLiteral(..) => "Singular.CharacterLiteral",
            _ => "Singular.?",
        });
        x.traverse(self)?;
        self.close();
        Ok(())
    }
}

type Conv = for<'a> fn(&'a &'static str) -> &'a str;
fn conv<'a>(s: &'a &'static str) -> &'a str {
    s
}

fn run(text: &'static str) -> String {
    let mut out = String::from("{\"tokens\":[");
    let start = location::Rich::new("f", conv as Conv);
    for t in tokenize_from(start, text) {
        if out.ends_with(']') {
            out.push(',');
        }
        match t.into_grammar_input() {
            Ok(t) => {
                let (kind, text, s) = t.unwrap();
                out.push_str(&format!(
                    "[\"{kind}\",\"{}\",[{},{},{},{}],[{},{},{},{}]]",
                    hex(&text.unwrap_or_default()),
                    s.from.index, s.from.row, s.from.column, s.from.offset,
                    s.to.index, s.to.row, s.to.column, s.to.offset
                ));
            }
            Err(t) => {
                let text = hex(t.text());
                match t.into_error() {
                    Ok(e) => out.push_str(&format!("[\"!\",\"{text}\",\"{}\"]", hex(&e.to_string()))),
                    Err(_) => out.push_str(&format!("[\"_\",\"{text}\"]")),
                }
            }
        }
    }
    out.push_str("],\"tree\":");
    let mut bad = false;
    let toks: Vec<_> = tokenize(text)
        .filter_map(|t| match t.into_grammar_input() {
            Ok(t) => Some(t),
            Err(t) => {
                bad |= t.into_error().is_ok();
                None
            }
        })
        .collect();
    let patterns = TerminalPatterns::default();
    let p = PtGrammar::parser(&patterns);
    match p.parse(&toks[..]) {
        Ok(t) if !bad => {
            let mut d = Dump(String::new());
            t.visit(&mut d).unwrap();
            out.push_str(&d.0);
        }
        Ok(_) => out.push_str("null"),
        Err(e) => {
            out.push_str("null");
            if let error::Simple::ExpectedFound(expected, found, at) = &e {
                let quoted = |t: Option<TokenType>| t.map(|t| format!("\"{t}\"")).unwrap_or("null".to_string());
                let at = match at {
                    error::At::None => usize::MAX,
                    error::At::Location(l) => *l,
                    error::At::Span(s) => s.start,
                };
                let mut expected: Vec<_> = expected.iter().map(|t| quoted(t.map(|t| t.token_type()))).collect();
                expected.sort();
                out.push_str(&format!(",\"error\":[[{}],{},{at}]", expected.join(","), quoted(found.map(|t| t.token_type()))));
            }
        }
    }
    out.push('}');
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let (i, o) = (std::io::stdin(), std::io::stdout());
        for line in i.lock().lines() {
            let line = line.unwrap();
            let bytes: Vec<u8> = (0..line.len() / 2).map(|i| u8::from_str_radix(&line[2 * i..2 * i + 2], 16).unwrap()).collect();
            let text: &'static str = Box::leak(String::from_utf8(bytes).unwrap().into_boxed_str());
            let r = match std::panic::catch_unwind(|| run(text)) {
                Ok(r) => r,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("{{\"panic\":\"{}\"}}", hex(&m))
                }
            };
            let mut o = o.lock();
            writeln!(o, "{r}").unwrap();
            o.flush().unwrap();
        }
    });
    h.unwrap().join().unwrap();
}
