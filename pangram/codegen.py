"""C22: parsers generated for generated grammars. The tool writes a parser for one file, its own specification;
rules appended to that file, unreachable from its first rule, get a parser as well."""
import concurrent.futures, json, os, re, shutil, subprocess
import engine, gen, ref, tool
from engine import Discard, Fail, Src, seed_of
from gen import GramGen, TokGen, join, spell_expr, spell_seq, wrap
from tool import camel

LITERALS = ["<", ">", "{", "}", ",", "~", "%", "!", "&", ".", "@", "==", "$", "\\", "é", "A", "AB", "0", "1", "<<", "<=", "`", "\U0001f600", "(", ")", "|", "*", "->"]


# Names that are something in Rust, in the generated code or in the tool.
ODD = ["self", "e-o-f", "e-r-r", "f-l-a-t", "type", "x", "x1", "option-1", "some", "none", "option", "box", "vec", "default", "visitor", "token-type", "token-data", "eof", "err", "flat", "fn", "all", "s", "string"]


class Rules(GramGen):
    """One generated grammar of a batch."""

    def __init__(self, s, k, tg, tnames):
        self.s = s
        self.tg = tg
        self.tnames = tnames
        self.ws = None
        self.k = k
        n = 1 + s.below(5)
        self.names = [f"x{k}-r{i}" for i in range(n)]
        self.lits = [s.pick(LITERALS) for _ in range(1 + s.below(4))]
        self.rules, self.null = {}, {}
        for i in reversed(range(n)):
            self.at = i
            alters = []
            for _ in range(1 + s.size(3)):
                self.left = 7
                e = self.concat(True, 3)
                if s.chance(1, 12):
                    # A long sequence, maybe of sequences.
                    es = [e]
                    while len(es) < 8 and s.chance(14, 15):
                        self.left = 2
                        x = self.rep(False, 0)
                        es.append(("seq", [x, self.rep(False, 0), self.rep(False, 0)]) if s.chance(1, 4) else x)
                    e = ("seq", es) if len(es) > 1 else e
                alters.append((None, e))
            self.null[self.names[i]] = any(self.nullable(e) for _, e in alters)
            # Variants need different names; those not given are made from the first symbol.
            firsts = [self.leftmost(e) for _, e in alters]
            if len(alters) > 1 and (len(set(firsts)) < len(firsts) or s.chance(1, 2)):
                alters = [(f"alt-{j}", e) for j, (_, e) in enumerate(alters)]
                if s.chance(1, 6):
                    alters[0] = (s.pick(ODD), alters[0][1])
            self.rules[self.names[i]] = alters
        self.rules = {n: self.rules[n] for n in self.names}

    def rep(self, leftmost, depth):
        e = super().rep(leftmost, depth)
        x = e[2] if e[0] == "rep" else e
        # Compilation time grows exponentially with the number of alternatives.
        if x[0] == "alt":
            del x[1][4:]
        return e

    def leftmost(self, e):
        if e[0] in ("tok", "implicit", "ref"):
            return e
        return self.leftmost(e[2] if e[0] == "rep" else e[1][0])


class Batch:
    def __init__(self, s, count, spec):
        self.s = s
        abc = s.pick(["ABC01", "AB<>&~%{}", "ABé\U0001f600.,", "A%&'(,-~^]"])
        tg = self.tg = TokGen(s, abc)
        spec_toks = ref.ebnf_tokens(spec)[0]

        def harmless(e):
            m = ref.Matcher(tg.rules, 10 ** 7)
            try:
                for _, text, a, b in spec_toks:
                    j = m.match(e, spec, a[2])
                    if j is not None and j >= b[2]:
                        return False
                return True
            except (RecursionError, ref.Fuel, ref.Ambiguous):
                return False

        self.defs = []
        frags = []
        for i in range(1 + s.below(3)):
            tg.rules[f"x-f{i}"] = tg.alt(2)
            frags.append(f"x-f{i}")
            self.defs.append(f"x-f{i}")
        tnames = []
        odd = list(ODD)
        for i in range(3 + s.below(6)):
            name = f"x-t{i}"
            if s.chance(1, 8):
                name = odd.pop(s.below(len(odd)))
            for _ in range(4):
                e = tg.alt(2)
                if harmless(e):
                    tg.rules[name] = e
                    tnames.append(name)
                    self.defs.append(name)
                    break
        if not tnames:
            tg.rules["x-t0"] = ("lit", "A")
            tnames.append("x-t0")
            self.defs.append("x-t0")
        self.grams = [Rules(s, k, tg, tnames) for k in range(count)]

    def render(self, only=None):
        """-> text appended to the specification"""
        s = self.s
        items = [("t", d) for d in self.defs]
        for g in self.grams if only is None else [self.grams[only]]:
            for n in g.names:
                items.insert(s.below(len(items) + 1) if only is None else len(items), ("g", n, g))
        toks, rank, used = [], {}, set()
        for it in items:
            if it[0] == "t":
                rank.setdefault(("tok", it[1]), len(rank))
                toks += [it[1], ":=="] + spell_expr(s, self.tg.rules[it[1]], True) + [";"]
                continue
            _, n, g = it
            toks += ([s.pick(gen.DOCS)] if s.chance(1, 8) else []) + [n]
            for i, (alter, e) in enumerate(g.rules[n]):
                us = []
                g.uses(e, us)
                for u in us:
                    used.add(u)
                    if u[0] == "implicit":
                        rank.setdefault(u, len(rank))
                toks += ([s.pick(gen.DOCS)] if s.chance(1, 8) else []) + (["|"] if i else ["::="])
                toks += spell_seq(s, e) + (["->", alter] if alter else [])
            toks.append(";")
        text = " ".join(toks)
        self.order = [k for k in sorted(rank, key=lambda k: rank[k]) if k in used]
        return "\n" + text + "\n"


# ---------------------------------------------------------------- the generated program

MAIN = """
#![allow(warnings)]
pub use parse_proof_of_concept::*;
#[path = "@FILE@"]
mod tp;
use parse_proof_of_concept::parser::Parser as _;
use std::io::{BufRead, Write};
use tp::*;
type S = std::ops::Range<usize>;
fn hex(s: &str) -> String { s.bytes().map(|b| format!("{b:02x}")).collect() }
fn variant<T: std::fmt::Debug>(x: &T) -> String {
    struct W(String);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.chars() {
                if !c.is_alphanumeric() && c != '_' { return Err(std::fmt::Error); }
                self.0.push(c);
            }
            Ok(())
        }
    }
    let mut w = W(String::new());
    let _ = std::fmt::write(&mut w, format_args!("{x:?}"));
    w.0
}
/// Gives up at the n-th thing it visits.
struct Quitter(usize, usize);
impl Quitter {
    fn visit(&mut self) -> Result<(), usize> {
        self.1 += 1;
        if self.0 == 0 { return Err(self.1); }
        self.0 -= 1;
        Ok(())
    }
}
struct QuitterMut(Quitter);
struct Dump(String);
impl Dump {
    fn comma(&mut self) { if self.0.ends_with(']') { self.0.push(','); } }
    fn open(&mut self, n: &str, v: String) { self.comma(); self.0.push_str(&format!("[\\"{n}\\",\\"{v}\\",[")); }
    fn leaf(&mut self, n: &str, d: &Option<TokenData<'_, S>>) {
        self.comma();
        match d {
            Some(d) => self.0.push_str(&format!("[\\"{n}\\",\\"{}\\",{}]", hex(d.token.text()), d.index)),
            None => self.0.push_str("[\\"missing\\",\\"\\",0]"),
        }
    }
}
struct DumpMut(Dump);
macro_rules! visitors {
    ($($f:ident $t:ident $n:literal),*; $($g:ident $u:ident $m:literal),*) => {
        impl<'i> Visitor<'i, S, ()> for Dump {
            $(fn $f(&mut self, x: &$t<'i, S>) -> Result<(), ()> { self.leaf($n, &x.data); Ok(()) })*
            $(fn $g(&mut self, x: &$u<'i, S>) -> Result<(), ()> { self.open($m, variant(x)); x.traverse(self)?; self.0.push_str("]]"); Ok(()) })*
        }
        impl<'i> VisitorMut<'i, S, ()> for DumpMut {
            $(fn $f(&mut self, x: &mut $t<'i, S>) -> Result<(), ()> { self.0.leaf($n, &x.data); Ok(()) })*
            $(fn $g(&mut self, x: &mut $u<'i, S>) -> Result<(), ()> { self.0.open($m, variant(x)); x.traverse_mut(self)?; self.0.0.push_str("]]"); Ok(()) })*
        }
        impl<'i> Visitor<'i, S, usize> for Quitter {
            $(fn $f(&mut self, x: &$t<'i, S>) -> Result<(), usize> { self.visit() })*
            $(fn $g(&mut self, x: &$u<'i, S>) -> Result<(), usize> { self.visit()?; x.traverse(self) })*
        }
        impl<'i> VisitorMut<'i, S, usize> for QuitterMut {
            $(fn $f(&mut self, x: &mut $t<'i, S>) -> Result<(), usize> { self.0.visit() })*
            $(fn $g(&mut self, x: &mut $u<'i, S>) -> Result<(), usize> { self.0.visit()?; x.traverse_mut(self) })*
        }
    };
}
visitors!(@LEAVES@; @NODES@);
macro_rules! go {
    ($t:ident, $pat:expr, $toks:expr) => {
        match $t::parser($pat).parse($toks) {
            Ok(mut t) => {
                let mut d = Dump(String::new());
                t.visit(&mut d).unwrap();
                let mut m = DumpMut(Dump(String::new()));
                t.visit_mut(&mut m).unwrap();
                let (mut bad, mut q) = (None, Quitter(usize::MAX, 0));
                t.visit(&mut q).unwrap();
                let all = q.1;
                for n in 0..all {
                    let (mut q, mut m) = (Quitter(n, 0), QuitterMut(Quitter(n, 0)));
                    let r = (t.visit(&mut q), t.visit_mut(&mut m));
                    if r != (Err(n + 1), Err(n + 1)) || q.1 != n + 1 || m.0 .1 != n + 1 { bad = Some(n); }
                }
                if let Some(n) = bad { format!("[\\"a visitor that gives up at node {n} of {all} is called again, or its error is lost\\",\\"\\",[]]") }
                else if d.0 != m.0 .0 { format!("[\\"visit_mut differs\\",\\"\\",[{},{}]]", d.0, m.0 .0) } else { d.0 }
            }
            Err(_) => "null".to_string(),
        }
    };
}
fn run(k: usize, text: &str) -> String {
    let mut bad = vec![];
    let mut at = 0;
    let toks: Vec<_> = tokenize(text).filter_map(|t| {
        let n = t.text().len();
        let r = match t.into_grammar_input() {
            Ok(t) => Some(t),
            Err(t) => { if t.into_error().is_ok() { bad.push(at); } None }
        };
        at += n;
        r
    }).collect();
    let mut out = String::from("{\\"tokens\\":[");
    for t in &toks {
        if out.ends_with(']') { out.push(','); }
        out.push_str(&format!("[\\"{}\\",\\"{}\\"]", t.token_type(), hex(t.text())));
    }
    out.push_str(&format!("],\\"bad\\":{bad:?},\\"tree\\":"));
    let patterns = TerminalPatterns::default();
    out.push_str(&match k { @PARSERS@ _ => unreachable!() });
    out.push('}');
    out
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let (i, o) = (std::io::stdin(), std::io::stdout());
        for line in i.lock().lines() {
            let line = line.unwrap();
            let (k, h) = line.split_once(' ').unwrap();
            let bytes: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            let text = String::from_utf8(bytes).unwrap();
            let r = match std::panic::catch_unwind(|| run(k.parse().unwrap(), &text)) {
                Ok(r) => r,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("{{\\"panic\\":\\"{}\\"}}", hex(&m))
                }
            };
            let mut o = o.lock();
            writeln!(o, "{r}").unwrap();
            o.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
"""


class Built:
    """A batch, the text of its grammar, the tool's grammar and the generated program."""

    def __init__(self, tool_, spec, seed=None, tape=None, count=1, only=None):
        self.src = Src(seed=seed, tape=tape)
        self.count = count
        self.only = only
        for _ in range(30):
            self.b = Batch(self.src, count, spec)
            self.extra = self.b.render(only)
            self.text = spec + self.extra
            if self.own():
                break
        self.problem = None
        self.g = None
        self.rc, self.out, self.msg = tool.bootstrap(self.text)
        if self.rc != 0 or self.out is None:
            self.problem = f"the tool fails on its specification with more rules: {self.msg[-400:]}"
            return
        G = tool_.grammars[-1]
        self.g = type(G)(G.parse(list(G.tokenize(self.text))), tool_.case)
        self.names = {}
        for k in self.b.order:
            n = camel(tool_.symbol(k[1])) if k[0] == "implicit" else camel(k[1])
            self.names[k] = n

    def own(self):
        """Whether the new tokens leave the text of the new rules alone."""
        m = ref.Matcher(self.b.tg.rules, 10 ** 7)
        exprs = [self.b.tg.rules[q[1]] if q[0] == "tok" else ("lit", q[1]) for q in self.b.order]
        try:
            for _, text, a, b in ref.ebnf_tokens(self.extra)[0]:
                for e in exprs:
                    j = m.match(e, self.extra, a[2])
                    if j is not None and (j > b[2] or (j == b[2] and text.isspace())):
                        return False
        except (RecursionError, ref.Fuel, ref.Ambiguous):
            return False
        return True

    def ks(self):
        return range(self.count) if self.only is None else [self.only]

    def program(self, path):
        toks = [n for n in self.g.token_order if n != "_"]
        rules = list(self.g.grammar_rules)
        return (MAIN.replace("@FILE@", path)
                .replace("@LEAVES@", ", ".join(f'visit_{n} Pt{n} "{n}"' for n in toks))
                .replace("@NODES@", ", ".join(f'visit_{n} Pt{n} "{n}"' for n in rules))
                .replace("@PARSERS@", " ".join(f"{k} => go!(PtX{k}R0, &patterns, &toks[..])," for k in self.ks())))

    def ask(self, k, text):
        r = tool.answer(self.proc, f"{k} {text.encode().hex()}")
        if r is None:
            self.start(self.binary)
            return {"panic": "the process died or does not answer".encode().hex()}
        return json.loads(r)

    def start(self, binary):
        self.binary = binary
        self.proc = tool.child(binary)


def build(batches, target, tag):
    """Builds the programs; sets .problem or starts them."""
    here = os.path.dirname(os.path.abspath(__file__))
    d = f"{target}/{tag}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/src/bin")
    for f in ("Cargo.toml", "Cargo.lock"):
        with open(f"{here}/rs/{f}", encoding="utf-8") as i, open(f"{d}/{f}", "w", encoding="utf-8") as o:
            o.write(i.read().replace("pangram-diff", f"pangram-{tag}").replace("opt-level = 2", "opt-level = 0"))
    env = dict(os.environ, CARGO_TARGET_DIR=f"{target}/{tag}-target")
    for i, b in enumerate(batches):
        if b.problem is None:
            with open(f"{d}/tp{i}.rs", "w", encoding="utf-8") as o:
                o.write(b.out)
            with open(f"{d}/src/bin/b{i}.rs", "w", encoding="utf-8") as o:
                o.write(b.program(f"{d}/tp{i}.rs"))
    if all(b.problem is not None for b in batches):
        return
    p = subprocess.run(["cargo", "build", "-q", "--release", "--offline", "--keep-going", "--manifest-path", f"{d}/Cargo.toml"], capture_output=True, text=True, env=env)
    for i, b in enumerate(batches):
        if b.problem is None:
            binary = f"{target}/{tag}-target/release/b{i}"
            if p.returncode != 0:
                m = re.search(rf'could not compile [^\n]*bin "b{i}"', p.stderr)
                if m or not os.path.exists(binary):
                    errs = [l for l in p.stderr.split("\n") if l.startswith("error")]
                    b.problem = f"the generated parser does not build: {errs[:4]}"
                    continue
            b.binary = binary


# ---------------------------------------------------------------- the check

def expect(b, k, text):
    """-> (tokens, unmatched, tree or None); raises Discard outside the domain"""
    g = b.b.grams[k]
    m = ref.Matcher(b.b.tg.rules)
    exprs = [(b.names[q], b.b.tg.rules[q[1]] if q[0] == "tok" else ("lit", q[1])) for q in b.b.order]

    def cands(t, i):
        for n, j in ref.candidates(t, i):
            yield n, j
        for n, e in exprs:
            j = m.match(e, t, i)
            if j is not None:
                yield n, j

    def tie(first, other):
        if first is None or other is None:
            raise Discard("tie with whitespace")

    def conv(e):
        if e[0] in ("tok", "implicit"):
            return ("tok", b.names[e])
        if e[0] in ("seq", "alt"):
            return (e[0], [conv(x) for x in e[1]])
        if e[0] == "rep":
            return ("rep", e[1], conv(e[2]))
        return ("ref", camel(e[1]))

    try:
        want, bad, _ = ref.longest(text, cands, tie)
        if any(ord(text[x[2]]) > 127 for x in bad):
            raise Discard("unmatched non-ASCII text")  # see the findings of C19
        toks = [t for t in want if t[0] is not None]
        tree = None
        if not bad:
            rules = {camel(n): [(camel(a) if a else None, conv(e)) for a, e in alters] for n, alters in g.rules.items()}
            r = ref.Peg(rules, toks).run(("ref", camel(g.names[0])), 0)
            if r is not None and r[1] == len(toks):
                tree = r[0][0]
    except (ref.Fuel, ref.Ambiguous, RecursionError):
        raise Discard()
    return toks, bad, tree


def rust_same(got, want, idx):
    if isinstance(want[1], str):
        idx.append(got[2])
        return got[0] == want[0] and isinstance(got[1], str) and bytes.fromhex(got[1]).decode() == want[1]
    rule, alter = want[0] if isinstance(want[0], tuple) else (want[0], None)
    if got[0] != rule or (alter and got[1] != alter) or not isinstance(got[2], list):
        return False
    return len(got[2]) == len(want[1]) and all(rust_same(a, w, idx) for a, w in zip(got[2], want[1]))


def check_input(b, k, text, lib):
    try:
        return engine.limited(lambda: check_input_(b, k, text, lib), 100)
    except engine.Hang:
        raise Fail(f"the case does not end\nrules {' '.join(rules_text(b, k))}\ninput {text!r}")


def check_input_(b, k, text, lib):
    """lib: (quiet, conv, peg_same, show, Crash) of check.py -> (number of tokens, accepted); raises Fail"""
    quiet, conv, peg_same, show, Crash = lib
    toks, bad, tree = expect(b, k, text)
    rules = " ".join(l for l in rules_text(b, k))
    case = f"rules {rules}\ninput {text!r}"
    r = b.ask(k, text)
    if "panic" in r:
        raise Fail(f"the generated parser panicked: {bytes.fromhex(r['panic']).decode()}\n{case}")
    got = [[n, bytes.fromhex(t).decode()] for n, t in r["tokens"]]
    if got != [[t[0], t[1]] for t in toks]:
        raise Fail(f"the generated tokenizer yields {show(got)}, expected {show([t[:2] for t in toks])}\n{case}")
    off = [len(text[:x[2]].encode()) for x in bad]
    if r["bad"] != off:
        raise Fail(f"the generated tokenizer rejects text at bytes {r['bad']}, expected {off}\n{case}")
    if not bad:
        if (r["tree"] is None) != (tree is None):
            raise Fail(f"the generated parser {'rejects' if tree else 'accepts'} an input that the grammar {'accepts' if tree else 'rejects'}\n{case}")
        idx = []
        if tree is not None and not rust_same(r["tree"], tree, idx):
            raise Fail(f"the generated parser's tree is {show(r['tree'])}, expected {show(tree)}\n{case}")
        if tree is not None and idx != list(range(len(toks))):
            raise Fail(f"the generated parser's tree holds tokens {idx} of {len(toks)}\n{case}")
    try:
        node, err, out = quiet(lambda: b.g.parse(list(b.g.tokenize(text)), f"X{k}R0"))
    except Crash as e:
        raise Fail(f"the tool: {e}\n{case}")
    if (err is None) != (tree is not None):
        raise Fail(f"the tool {'accepts' if err is None else f'rejects ({err})'} an input that the grammar {'accepts' if tree else 'rejects'}\n{case}")
    if tree is not None and not peg_same(conv(node), tree):
        raise Fail(f"the tool's tree is {show(conv(node))}, expected {show(tree)}\n{case}")
    return len(toks), tree is not None


def rules_text(b, k):
    """The rules of one grammar and the tokens, from the appended text."""
    toks = [t[1] for t in ref.ebnf_tokens(b.extra)[0] if t[0] not in (None, "Doc")]
    rule, out = [], []
    for t in toks:
        rule.append(t)
        if t == ";":
            if rule[0].startswith(f"x{k}-") or rule[0].startswith("x-") or rule[0] in ODD:
                out.append(" ".join(rule))
            rule = []
    return out


def make_input(s, b, k):
    g = b.b.grams[k]
    g.s = b.b.tg.s = s
    out = []
    g.sentence(("ref", g.names[0]), out)
    e = s.below(4)
    if e == 1 and out:
        i = s.below(len(out))
        s.pick([lambda: out.pop(i), lambda: out.insert(i, s.pick(out)), lambda: out.insert(i, s.pick(g.lits))])()
    text = ""
    for t in out:
        if s.chance(1, 3):
            text += s.pick([" ", "\n", "/* c */", "\t "])
        text += t
    if e == 2:
        i = s.below(len(text) + 1)
        text = text[:i] + s.pick(["A", "B", "0", "<", "(", "\n", "~", "a", ";"]) + text[i + s.below(2):]
    return text[:150]


NOW = None  # what the worker processes work on


def _work(a):
    i, seed, inputs, deadline = a
    b, lib = NOW[0][i], NOW[1]
    import hashlib, time
    acc = {"evals": 0, "discarded": 0, "labels": {}, "hashes": [], "samples": [], "fail": None}
    b.start(b.binary)
    for n in range(inputs):
        if time.time() > deadline:
            break
        for k in b.ks():
            s = Src(seed_of(seed, f"C22-{i}-{k}", n))
            acc["evals"] += 1
            text = None
            try:
                text = make_input(s, b, k)
                toks, ok = check_input(b, k, text, lib)
            except (Discard, RecursionError):
                acc["discarded"] += 1
                continue
            except Fail as e:
                acc["fail"] = (i, k, *shrink_text(b, k, text, str(e), lib))
                return acc
            l = "input accepted" if ok else "input rejected"
            acc["labels"][l] = acc["labels"].get(l, 0) + 1
            if toks > 1:
                desc = f"rules {' '.join(rules_text(b, k))}\ninput {text!r}"
                acc["hashes"].append(hashlib.sha256(desc.encode()).digest()[:8])
                if ok and n % 37 == 3 and len(acc["samples"]) < 2:
                    acc["samples"].append(desc[:1500])
    b.proc.stdin.close()
    return acc


def shrink_text(b, k, text, msg, lib):
    def fails(t):
        try:
            check_input(b, k, t, lib)
        except Fail as e:
            return str(e)
        except (Discard, RecursionError):
            pass
        return None

    n = max(1, len(text) // 2)
    while n >= 1:
        i = 0
        while i < len(text):
            m = fails(text[:i] + text[i + n:])
            if m:
                text, msg = text[:i] + text[i + n:], m
            else:
                i += n
        n //= 2
    return text, msg


def run(tool_, spec, seed, rounds, batches, count, inputs, seconds, target, lib, jobs=8):
    """-> (totals, failure or None); failure = {"tape", "count", "only", "input", "problem"}"""
    global NOW
    import multiprocessing, time
    end = time.time() + seconds
    tot = {"evals": 0, "discarded": 0, "labels": {}, "hashes": set(), "samples": [], "grammars": 0}
    for r in range(rounds):
        if r and time.time() > end - 60:
            break
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            bs = list(ex.map(lambda i: Built(tool_, spec, seed=seed_of(seed, "C22", r * batches + i), count=count), range(batches)))
        build(bs, target, "batch")
        for b in bs:
            if b.problem is not None:
                return tot, locate(tool_, spec, b, target)
        NOW = (bs, lib)
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(jobs) as pool:
            for a in pool.imap(_work, [(i, seed * 1000 + r, inputs, end) for i in range(batches)]):
                for q in ("evals", "discarded"):
                    tot[q] += a[q]
                for q, v in a["labels"].items():
                    tot["labels"][q] = tot["labels"].get(q, 0) + v
                tot["hashes"].update(a["hashes"])
                tot["samples"] += a["samples"]
                if a["fail"]:
                    i, k, text, msg = a["fail"]
                    pool.terminate()
                    b = bs[i]
                    f = {"tape": b.src.tape, "count": count, "only": None, "k": k, "input": text, "problem": msg}
                    # The grammar on its own, if it still fails.
                    one = Built(tool_, spec, tape=b.src.tape, count=count, only=k)
                    build([one], target, "replay")
                    if one.problem is None:
                        one.start(one.binary)
                        try:
                            check_input(one, k, text, lib)
                        except Fail as e:
                            f["only"], f["problem"] = k, str(e)
                        except (Discard, RecursionError):
                            pass
                    return tot, f
        tot["grammars"] += batches * count
    return tot, None


def locate(tool_, spec, b, target):
    """Which grammar of the batch cannot be generated or built?"""
    ones = [Built(tool_, spec, tape=b.src.tape, count=b.count, only=k) for k in range(b.count)]
    build(ones, target, "batch")
    for k, o in enumerate(ones):
        if o.problem is not None:
            return {"tape": b.src.tape, "count": b.count, "only": k, "k": k, "input": None, "problem": f"{o.problem}\nrules {' '.join(rules_text(o, k))}"}
    return {"tape": b.src.tape, "count": b.count, "only": None, "k": 0, "input": None, "problem": f"{b.problem}\nrules {b.extra}"}


def replay(tool_, spec, f, target, lib):
    """-> problem or None"""
    b = Built(tool_, spec, tape=f["tape"], count=f["count"], only=f["only"])
    build([b], target, "replay")
    if b.problem is not None:
        return b.problem
    if f["input"] is None:
        return None
    b.start(b.binary)
    try:
        check_input(b, f["k"], f["input"], lib)
    except Fail as e:
        return str(e)
    return None
