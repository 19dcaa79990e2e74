#!/usr/bin/env python3
"""check.py PROPERTY TIER SEED ROOT [--replay FILE]: decides one of C19 to C24."""
import contextlib, io, json, os, re, sys, time, traceback, types, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(15000)
warnings.simplefilter("ignore")
import codegen, docs, engine, gen, ref, tool
from engine import Discard, Fail, Known

TOOL = None
RUST = None
SPEC = ""
SIMPLE = ""


def show(x, n=900):
    t = repr(x)
    return t if len(t) <= n else t[:n] + "..."


# ---------------------------------------------------------------- running the tool

class Crash(Exception):
    pass


def quiet(f):
    """Runs f -> (result or None, ValueError or None, printed text); other exceptions are crashes."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            return f(), None, out.getvalue()
    except ValueError as e:
        return None, e, out.getvalue()
    except (RecursionError, MemoryError) as e:
        raise Crash(f"does not end ({type(e).__name__})")
    except Exception as e:
        raise Crash(f"{type(e).__name__}: {e}")


def loc3(l):
    return (l[0], l[1], l[2])


def conv(n):
    """Tree of the tool -> tree of the reference."""
    sp = None if n.span is None else (loc3(n.span[0]), loc3(n.span[1]))
    if isinstance(n.data, str):
        return (n.name, n.data, sp)
    return (n.name, [conv(c) for c in n.data], sp)


def drain(it):
    """All tokens of a tool tokenizer -> (tokens, error, printed text)"""
    got = []

    def f():
        for t in it:
            got.append((t[0], t[1], loc3(t[2][0]), loc3(t[2][1])))

    _, err, text = quiet(f)
    return got, err, text


def reported(text, loc):
    return re.search(rf"(?<!\d){loc[0]}:{loc[1]}(?!\d)", text) is not None


def check_tokens(case, what, got, err, text, want, bad, end):
    want = [t for t in want if t[0] is not None]
    if got and got[-1][0] == "EOF" and got[-1][1] == "":
        if got[-1][2:] != (end, end):
            raise Fail(f"{what}: end of input is at {got[-1][2:]}, the text ends at {end}\n{case}")
        got = got[:-1]
    elif err is None:
        raise Fail(f"{what}: no end of input after {show(got)}\n{case}")
    if got != want and (err is None or got != want[:len(got)]):
        for i in range(max(len(got), len(want))):
            g = got[i] if i < len(got) else "nothing"
            w = want[i] if i < len(want) else "nothing"
            if g != w:
                raise Fail(f"{what}: token {i} is {g}, the longest match is {w}\n{case}")
    if not bad:
        if err is not None:
            raise Fail(f"{what}: rejected a text that is all tokens: {err} {text[:200]!r}\n{case}")
        return
    if err is None:
        raise Fail(f"{what}: accepted a text that no rule matches at {bad[0]}\n{case}")
    # The start of each stretch that no rule matches is named.
    starts = [b for i, b in enumerate(bad) if i == 0 or bad[i - 1][2] + 1 != b[2]]
    for b in starts:
        if not reported(text + " " + str(err), b):
            raise Fail(f"{what}: no rule matches at {b[0]}:{b[1]}, but that is not reported: {(text + ' ' + str(err))[:300]!r}\n{case}")


# ---------------------------------------------------------------- C19

def c19_rules(s):
    """The tool's tokenize() with generated rules."""
    abc = s.pick(["ab", "abc", "ab\n", "aé\n+", "abAB01 \n"])
    tg = gen.TokGen(s, abc)
    wide = tg.wide = s.chance(1, 20)
    rules = []
    for i in range(s.below(3)):
        tg.rules[f"f{i}"] = tg.rule(2)
    names = []
    for i in range(1 + s.below(40 if wide else 5)):
        e = tg.rule(2)
        if s.chance(1, 8) and rules:
            e = s.pick(rules)[1]
        names.append(None if s.chance(1, 6) else f"T{i}")
        rules.append((names[-1], e))
    text = ""
    for _ in range(1 + s.size(120 if wide else 8)):
        k = s.below(8 if not wide or s.chance(1, 4) else 7)
        text += s.pick(abc + "~") if k == 7 else tg.sample(s.pick(rules)[1])
        if len(text) > (900 if wide else 60):
            break
    m = ref.Matcher(tg.rules)

    def cands(t, i):
        for n, e in rules:
            j = m.match(e, t, i)
            if j is not None:
                yield n, j

    # Candidates in reference terms: whitespace is None already.
    try:
        want, bad, end = ref.longest(text, cands)
    except (ref.Fuel, ref.Ambiguous):
        raise Discard()
    pats = [(n, gen.to_python(e, tg.rules)) for n, e in rules]
    case = f"rules {pats}\ntext {text!r}"
    try:
        got, err, out = drain(TOOL.ns["tokenize"]([(n, re.compile(p)) for n, p in pats], text))
    except Crash as e:
        raise Fail(f"tokenize(): {e}\n{case}")
    check_tokens(case, "tokenize()", got, err, out, want, bad, end)
    lens = len({n for n, *_ in want})
    return len(want) > 1 and lens > 1, ["generated rules"] + (["unmatched text"] if bad else []) + (["newlines"] if end[0] > 1 else []), case


def c19_ebnf(s):
    text, how = gen.ebnf_text(s, (SPEC, SIMPLE))
    try:
        want, bad, end = ref.ebnf_tokens(text)
    except ref.Ambiguous:
        raise Discard()
    case = f"text {text!r}"
    mode = s.below(3)
    if mode == 0:
        check_rust_tokens(case, text, want, bad)
        return len(want) > 3, ["generated parser's tokenizer", how] + (["unmatched text"] if bad else []), case
    what, it = hand_tokens(text) if mode == 1 else ("the specification's tokenizer", TOOL.grammars[-1].tokenize(text))
    try:
        got, err, out = drain(it)
    except Crash as e:
        raise Fail(f"{what}: {e}\n{case}")
    check_tokens(case, what, got, err, out, want, bad, end)
    return len(want) > 3, [what, how] + (["unmatched text"] if bad else []), case


def hand_tokens(text):
    if TOOL.hand_regexes is None or "tokenize" not in TOOL.ns:
        return "the specification's tokenizer", TOOL.grammars[-1].tokenize(text)
    return "the hand-coded tokenizer", TOOL.ns["tokenize"](TOOL.hand_regexes, text)


def hand_coded():
    return TOOL.hand_parser is not None and TOOL.hand_regexes is not None and "tokenize" in TOOL.ns


def unhex(h):
    return bytes.fromhex(h).decode("utf-8")


def rust_ask(case, text, bad):
    r = RUST.ask(text)
    if "panic" in r:
        m = unhex(r["panic"])
        if "char boundary" in m and any(ord(text[b[2]]) > 127 for b in bad):
            raise Known("rust-tokenizer-non-ascii")
        raise Fail(f"the generated parser panicked: {m}\n{case}")
    return r


def check_rust_tokens(case, text, want, bad):
    if "\r" in text:
        raise Discard()  # row counting of lone CRs is the rich tracker's own business
    r = rust_ask(case, text, bad)
    exp = [("tok", n, t, a, b) if n else ("ws", t) for n, t, a, b in want]
    exp += [("bad", text[b[2]], b) for b in bad]
    offs = {}
    byte = 0
    for i, c in enumerate(text):
        offs[byte] = i
        byte += len(c.encode())
    offs[byte] = len(text)
    pos, k = 0, 0
    allw = sorted([(t[2][2], t) for t in want] + [(b[2], ("!", text[b[2]], b, None)) for b in bad])
    got = r["tokens"]
    if len(got) != len(allw):
        raise Fail(f"generated tokenizer: {len(got)} tokens, expected {len(allw)}: {show(got)}\n{case}")
    for i, (g, (_, w)) in enumerate(zip(got, allw)):
        name = "_" if w[0] is None else w[0]
        if g[0] != name or unhex(g[1]) != w[1]:
            raise Fail(f"generated tokenizer: token {i} is {g[0]} {unhex(g[1])!r}, the longest match is {name} {w[1]!r} at {w[2]}\n{case}")
        if name == "!":
            if not reported(unhex(g[2]), w[2]):
                raise Fail(f"generated tokenizer: no rule matches at {w[2]}, but the error is {unhex(g[2])!r}\n{case}")
        elif name != "_":
            for p, l in ((g[2], w[2]), (g[3], w[3])):
                if (p[1], p[2], offs.get(p[3])) != l:
                    raise Fail(f"generated tokenizer: token {i} {w[1]!r} has row, column, byte {p[1:]}, expected {l}\n{case}")


def load_text(text):
    gr = TOOL.grammars[-1]
    return type(gr)(gr.parse(list(gr.tokenize(text))))


def c19_grammar(s):
    """The tokenizer of a loaded grammar: token rules as they are written."""
    g = gen.GramGen(s)
    text, order = g.render()
    case = f"grammar {text!r}"
    try:
        if ref.ebnf_parse(text) is None:
            raise Discard("layout merged tokens")
    except ref.Ambiguous:
        raise Discard()
    try:
        t, err, out = quiet(lambda: load_text(text))
    except Crash as e:
        raise Fail(f"loading the grammar: {e}\n{case}")
    if err is not None:
        raise Fail(f"the grammar is rejected: {err} {out[:200]!r}\n{case}")
    exprs = [(k, g.token_expr(k)) for k in order]
    names = {}
    for k in order:
        if k:
            names[TOOL.symbol(k[1]) if k[0] == "implicit" else k[1]] = k
    m = ref.Matcher(g.tg.rules)

    def cands(t, i):
        for k, e in exprs:
            j = m.match(e, t, i)
            if j is not None:
                yield k, j

    def tie(first, other):
        if first is None:
            raise ref.Ambiguous("tie with whitespace")

    labels, texts, most = ["loaded grammar"], [], 0
    for _ in range(1 + s.below(3)):
        inp = ""
        for _ in range(1 + s.size(60 if g.wide else 8)):
            k = s.below(9)
            inp += s.pick(g.tg.abc + "~") if k == 8 else g.tg.sample(s.pick(exprs)[1])
            if len(inp) > (900 if g.wide else 60):
                break
        texts.append(inp)
        try:
            want, bad, end = ref.longest(inp, cands, tie)
        except (ref.Fuel, ref.Ambiguous, RecursionError):
            labels.append("input skipped")
            continue
        c = f"{case}\ninput {inp!r}"
        try:
            got, err, out = drain(t.tokenize(inp))
        except Crash as e:
            raise Fail(f"the loaded tokenizer: {e}\n{c}")
        check_tokens(c, "the loaded tokenizer", [(names.get(x[0], x[0]),) + x[1:] for x in got], err, out, want, bad, end)
        labels.append("unmatched text" if bad else "all matched")
        most = max(most, len(want))
    return most > 1, labels, f"{case}\ninputs {texts!r}"


def c19(s):
    k = s.below(8)
    return c19_rules(s) if k < 3 and "tokenize" in TOOL.ns else c19_ebnf(s) if k < 6 else c19_grammar(s)


# ---------------------------------------------------------------- C20

def tool_parse(what, text):
    """-> tree of the tool or None if it rejects"""
    hand = what == "hand-coded"

    def f():
        if hand:
            return TOOL.hand_parser.parse(list(TOOL.ns["tokenize"](TOOL.hand_regexes, text)))
        g = TOOL.grammars[-1]
        return g.parse(list(g.tokenize(text)))

    t, err, out = quiet(f)
    if err is not None:
        return None
    tree = conv(t)
    # The tree as JSON says the same.
    if hasattr(t, "to_json") and t.to_json() != json_of(tree):
        raise Crash(f"to_json() gives {show(t.to_json(), 300)} for {show(tree, 300)}")
    return tree


def json_of(t):
    at = "None" if t[2] is None else f"{t[2][0][0]}:{t[2][0][1]}..{t[2][1][0]}:{t[2][1][1]}"
    return {f"{t[0]} at {at}": t[1] if isinstance(t[1], str) else [json_of(c) for c in t[1]]}


def first_diff(a, b, path=""):
    if a is None or b is None or isinstance(a[1], str) or isinstance(b[1], str) or a[0] != b[0] or len(a[1]) != len(b[1]):
        return f"{path}: {show(a, 300)} / {show(b, 300)}"
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        if x != y:
            return first_diff(x, y, f"{path}/{a[0]}[{i}]")
    return f"{path}/{a[0]}: spans {a[2]} / {b[2]}"


def compare(case, what, got, want):
    if (got is None) != (want is None):
        raise Fail(f"{what} {'accepts' if got else 'rejects'} a text that {'does not conform' if want is None else 'conforms'} to the specification\n{case}")
    if got != want:
        raise Fail(f"{what}: tree differs from the derivation (got / expected): {first_diff(got, want)}\n{case}")


def c20_text(s):
    text, how = gen.ebnf_text(s, (SPEC, SIMPLE))
    try:
        want = ref.ebnf_parse(text)
    except ref.Ambiguous:
        raise Discard()
    case = f"grammar text {text!r}"
    for what in ("hand-coded", "specified"):
        if what == "hand-coded" and not hand_coded():
            continue
        try:
            got = tool_parse(what, text)
        except Crash as e:
            raise Fail(f"the {what} parser: {e}\n{case}")
        compare(case, f"the {what} parser", got, want)
    return len(text) > 12, ["accepted" if want else "rejected", how], case


def peg_same(got, want):
    """Names of alternatives only count where they were written."""
    if isinstance(want[1], str):
        return got == want
    gn, wn = got[0], want[0]
    if isinstance(wn, tuple):
        rule, alter = wn
        if gn != f"{rule}.{alter}" if alter else gn.split(".")[0] != rule:
            return False
    elif gn != wn:
        return False
    if (want[2] is not None and got[2] != want[2]) or isinstance(got[1], str):
        return False
    return len(got[1]) == len(want[1]) and all(peg_same(a, b) for a, b in zip(got[1], want[1]))


def rename(t, names):
    """Tool tree with implicit tokens named by their text."""
    if isinstance(t[1], str):
        return (names.get(t[0], t[0]), t[1], t[2])
    return (t[0], [rename(c, names) for c in t[1]], t[2])


def rules_of(e):
    if e[0] in ("tok", "implicit"):
        return ("tok", e)
    if e[0] in ("seq", "alt"):
        return (e[0], [rules_of(x) for x in e[1]])
    if e[0] == "rep":
        return ("rep", e[1], rules_of(e[2]))
    return e


def c20_grammar(s):
    g = gen.GramGen(s)
    text, order = g.render()
    case = f"grammar {text!r}"
    # The tool reads it.
    try:
        tree = ref.ebnf_parse(text)
    except ref.Ambiguous:
        raise Discard()
    if tree is None:
        raise Discard('layout merged tokens')  # layout made two tokens one
    try:
        t, err, out = quiet(lambda: (lambda gr: type(TOOL.grammars[-1])(gr.parse(list(gr.tokenize(text)))))(TOOL.grammars[-1]))
    except Crash as e:
        raise Fail(f"loading the grammar: {e}\n{case}")
    if err is not None:
        raise Fail(f"the grammar is rejected: {err} {out[:200]!r}\n{case}")
    # Reference tokens.
    key_name = {}
    exprs = [(k, g.token_expr(k)) for k in order]

    rules = {n: [(a, rules_of(e)) for a, e in alters] for n, alters in g.rules.items()}
    lit_names = {}
    for k in order:
        if k and k[0] == "implicit":
            lit_names[TOOL.symbol(k[1])] = k
        elif k:
            lit_names[k[1]] = k
    labels, nontrivial = [], False
    inputs = []
    for _ in range(1 + s.below(3)):
        inp = g.input()
        inputs.append(inp)
        m = ref.Matcher(g.tg.rules)

        def cands(t, i):
            for k, e in exprs:
                j = m.match(e, t, i)
                if j is not None:
                    yield k, j

        def tie(first, other):
            # Whether a whitespace rule that comes first wins a tie is not specified.
            if first is None:
                raise ref.Ambiguous("tie with whitespace")

        try:
            want, bad, end = ref.longest(inp, cands, tie)
            wtree = None
            if not bad:
                toks = [x for x in want if x[0] is not None]
                p = ref.Peg(rules, toks)
                r = p.run(("ref", g.names[0]), 0)
                if r is not None and r[1] == len(toks):
                    wtree = r[0][0]
        except (ref.Fuel, ref.Ambiguous, RecursionError):
            labels.append("input skipped")
            continue
        c = f"{case}\ninput {inp!r}"
        try:
            got, err, out = drain(t.tokenize(inp))
            check_tokens(c, "the loaded tokenizer", [(lit_names.get(x[0], x[0]),) + x[1:] for x in got], err, out, want, bad, end)
            one = s.chance(1, 2)
            f = (lambda: t.tokenize_and_parse(inp)) if one else (lambda: t.parse(list(t.tokenize(inp))))
            node, err, out = quiet(f)
        except Crash as e:
            raise Fail(f"parsing with the loaded grammar: {e}\n{c}")
        if (err is None) != (wtree is not None):
            raise Fail(f"the loaded grammar {'accepts' if err is None else f'rejects ({err})'} an input the PEG {'accepts' if wtree else 'rejects'}\n{c}")
        if wtree is not None:
            gt = rename(conv(node), lit_names)
            if not peg_same(gt, wtree):
                raise Fail(f"tree {show(gt)}\nexpected {show(wtree)}\n{c}")
            labels.append("input accepted")
            nontrivial = nontrivial or len(toks) > 1
        else:
            labels.append("input rejected")
            nontrivial = nontrivial or len(want) > 1
    return nontrivial, labels + ["generated grammar"], f"{case}\ninputs {inputs!r}"


def c20(s):
    return c20_text(s) if s.chance(2, 5) else c20_grammar(s)


# ---------------------------------------------------------------- C21

def plain(t):
    if isinstance(t[1], str):
        return [t[0], t[1]]
    return [t[0], [plain(c) for c in t[1]]]


def rust_tree(t, out):
    """-> plain tree; the token indices go to out"""
    if isinstance(t[1], str):
        out.append(t[2])
        return [t[0], unhex(t[1])]
    return [t[0], [rust_tree(c, out) for c in t[1]]]


def c21(s):
    text, how = gen.ebnf_text(s, (SPEC, SIMPLE))
    try:
        want, bad, _ = ref.ebnf_tokens(text)
    except ref.Ambiguous:
        raise Discard()
    case = f"text {text!r}"
    r = rust_ask(case, text, bad)
    if REGEN is not None:
        q = REGEN.ask(text)
        if q != r:
            raise Fail(f"the checked-in parser yields {show(r)}, the regenerated one {show(q)} ({DIFF})\n{case}")
    try:
        got = tool_parse("specified", text)
    except Crash as e:
        raise Fail(f"the tool: {e}\n{case}")
    if (got is None) != (r["tree"] is None):
        raise Fail(f"the tool {'accepts' if got else 'rejects'}, the generated parser {'accepts' if r['tree'] else 'rejects'} it\n{case}")
    if got is not None:
        idx = []
        a, b = plain(got), rust_tree(r["tree"], idx)
        if a != b:
            raise Fail(f"the tool's tree {show(a)}\nthe generated parser's {show(b)}\n{case}")
        if idx != list(range(len(idx))):
            raise Fail(f"the generated parser's tree holds tokens {idx}\n{case}")
    return len(text) > 12, ["accepted" if got else "rejected", how], case


def relayout(s):
    """The specification with other layout and comments."""
    toks = [t for t in ref.ebnf_tokens(SPEC)[0] if t[0] is not None]
    mode = s.below(4)
    text = ""
    for i, t in enumerate(toks):
        if mode == 0 or s.chance(mode, 4):
            for _ in range(1 + s.below(3)):
                text += s.pick(gen.WS)
        elif mode != 3 or s.chance(1, 2):
            text += " "
        text += t[1]
    text += s.pick(["", "\n", "/* end */", " "])
    if [t[:2] for t in ref.ebnf_tokens(text)[0] if t[0] is not None] != [t[:2] for t in toks]:
        raise Discard()
    return text


BASE = None
REGEN = None
DIFF = None


def c21_layout(s):
    text = relayout(s)
    rc, out, msg = tool.bootstrap(text)
    case = f"specification with other layout: {text!r}"
    if rc != 0 or out is None:
        raise Fail(f"the tool fails on its specification with other layout: {msg}\n{case}")
    if out != BASE:
        i = next((i for i in range(min(len(out), len(BASE))) if out[i] != BASE[i]), 0)
        raise Fail(f"the generated parser differs with other layout: {out[max(0, i - 60):i + 60]!r}, was {BASE[max(0, i - 60):i + 60]!r}\n{case}")
    return True, ["specification with other layout"], case[:1500]


def code_lines(text):
    """Without blank lines and comment lines."""
    return [l for l in (l.strip() for l in text.split("\n")) if l and not l.startswith("//")]


def spec_docs(text):
    """Lines of the documentation of tokens and rules."""
    out = []
    for t in ref.ebnf_tokens(text)[0]:
        if t[0] == "Doc":
            for l in t[1][3:-2].strip().split("\n"):
                l = l.strip()
                if l.startswith("*"):
                    l = l[2:] if l.startswith("* ") else l[1:]
                out.append(l)
    return out


def doc_lines(text):
    return [l for l in (l.strip() for l in text.split("\n")) if l.startswith("///")]


def c21_fixed():
    """-> problem or None"""
    global BASE, REGEN, DIFF
    with open(f"{tool.REPO}/src/test_pangram.rs", encoding="utf-8") as f:
        checked_in = f.read()
    rc, out, msg = tool.bootstrap(SPEC, fmt=True)
    if rc != 0 or out is None:
        return f"the tool fails on its own specification (exit {rc}): {msg}"
    old, new = set(doc_lines(checked_in)), set(doc_lines(out))
    for l in spec_docs(SPEC):
        l = f"/// {l}".rstrip()
        if l in old and l not in new:
            return f"documentation is missing from the generated parser: {l!r}"
    if code_lines(out) != code_lines(checked_in):
        # Not the same text: it has to be a parser with the same behaviour.
        a, b = code_lines(out), code_lines(checked_in)
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        DIFF = f"the tool generates {a[i:i + 3]} instead of {b[i:i + 3]}"
        binary, msg = tool.build_regenerated(out, os.environ["CARGO_TARGET_DIR"])
        if binary is None:
            return f"{DIFF}, which does not build: {msg}"
        REGEN = tool.Rust(binary)
    rc, BASE, msg = tool.bootstrap(SPEC)
    if rc != 0 or BASE is None:
        return f"the tool fails on its own specification: {msg}"
    # The built-in description and the one read from the specification are the same.
    if TOOL.hand_parser is not None and TOOL.hand_regexes is not None:
        try:
            a, b = tool_parse("hand-coded", SPEC), tool_parse("specified", SPEC)
        except Crash as e:
            return f"parsing the specification: {e}"
        if a is None or a != b:
            return f"the built-in description and the specification's parse it differently: {first_diff(a, b)}"
        h = [t for t in drain(hand_tokens(SPEC)[1])[0]]
        g = [t for t in drain(TOOL.grammars[-1].tokenize(SPEC))[0]]
        if h != g:
            return "the built-in description and the specification's tokenize it differently"
    if len(TOOL.grammars) >= 2:
        a, b = TOOL.grammars[0], TOOL.grammars[-1]
        for attr in ("first_rule", "token_order", "token_regexes", "grammar_rules", "token_rules", "fragment_rules"):
            try:
                same = getattr(a, attr) == getattr(b, attr)
            except AttributeError:
                continue
            if not same:
                return f"the description built from the built-in parser and the one built from itself differ in {attr}"
    return None


# ---------------------------------------------------------------- C23

def nest(s, toks):
    """Writes something somewhere inside a rule body."""
    for _ in range(s.below(4)):
        k = s.below(7)
        if k == 0:
            toks = ["("] + toks + [")", s.pick("?*+")]
        elif k == 1:
            toks = toks + [s.pick("?*+")] if toks[-1] not in "?*+" else ["("] + toks + [")"]
        elif k == 2:
            toks = ["'a'"] + toks
        elif k == 3:
            toks = toks + ['"b"']
        elif k == 4:
            toks = ["(", "'a'", "|"] + toks + [")"]
        elif k == 5:
            toks = ["("] + toks + ["|", "'b'", "'a'", ")"]
        else:
            toks = ["("] + toks + [")"]
    return toks


NOPE = ["nope", "x", "t99", "f99", "r99", "rule-1", "g"]


def chain(s, start, end):
    """Rules of fresh symbols from one to the other."""
    names = [f"zz{i}" for i in range(s.size(60) if s.chance(1, 10) else s.below(4))]
    out = []
    for a, b in zip([start] + names, names + [end]):
        out.append([a, ":=="] + nest(s, [b]) + [";"])
    return out


def c23(s):
    g = gen.GramGen(s)
    text, order = g.render()
    toks = [t[1] for t in ref.ebnf_tokens(text)[0] if t[0] is not None]
    rules, cur = [], []
    for t in toks:
        cur.append(t)
        if t == ";":
            rules.append(cur)
            cur = []
    used = [k[1] for k in order if k and k[0] == "tok"]
    reach = set()  # token rules used by a token
    todo = list(used)
    while todo:
        n = todo.pop()
        if n in reach:
            continue
        reach.add(n)

        def frags(e):
            if e[0] == "frag":
                todo.append(e[1])
            elif e[0] in ("seq", "alt"):
                for x in e[1]:
                    frags(x)
            elif e[0] == "rep":
                frags(e[2])

        frags(g.tg.rules[n])
    if not used:
        raise Discard()
    reach = sorted(reach)
    refs = sorted({t for r in rules if "::=" in r for t in r[1 + r.index("::="):] if t in g.rules and r[r.index(t) - 1] != "->"})
    t, r = s.pick(reach), s.pick(g.names)
    doc = [s.pick(gen.DOCS)] if s.chance(1, 6) else []
    name = ["->", s.pick(["n", r, t])] if s.chance(1, 3) else []
    where = s.pick([t, "_"]) if g.ws is not None else t
    bad_range = s.pick(["[b-a]", "[#x62-a]", "[a-c1-0x]", "[^b-a]", "[xé-a]", "[#u0062-#x61]", "[#--#t]", "[#U0001f600-#U0001f5ff]"])
    big = s.pick(["'#U00110000'", '"a#Uffffffffb"', "#U00200000"])
    kind, bad = s.below(17), True
    if kind == 0:
        how, new = "a grammar rule uses an undefined symbol", [doc + [r, "::="] + nest(s, [s.pick(NOPE)]) + name + [";"]]
    elif kind == 1:
        how, new = "a token rule uses an undefined symbol", chain(s, where, s.pick(NOPE))
    elif kind == 2:
        how, new = "a token rule refers to itself", chain(s, t, t)
    elif kind == 3:
        how, new = "a fragment refers to itself", [[where, ":=="] + nest(s, ["yy"]) + [";"]] + chain(s, "yy", "yy")
    elif kind == 4:
        if not refs:
            raise Discard()
        how, new = "a grammar rule is a token rule as well", [doc + [s.pick(refs), ":=="] + nest(s, ["'q'"]) + [";"]]
    elif kind == 5:
        how, new = "a token rule is a grammar rule as well", [doc + [s.pick(used), "::="] + nest(s, ["'q'"]) + name + [";"]]
    elif kind == 6:
        how, new = "a character range is reversed", [[where, ":=="] + nest(s, [bad_range]) + [";"]]
    elif kind == 7:
        how, new = "a grammar rule uses a character set", [doc + [r, "::="] + nest(s, [s.pick(["[a]", "[^b]", "[a-z]"])]) + name + [";"]]
    elif kind == 8:
        how, new = "a token rule uses a grammar rule", chain(s, where, r)
    elif kind == 16:
        how, new = "there is no grammar rule", []
        rules = [x for x in rules if "::=" not in x]
        if not rules:
            raise Discard()
    elif kind == 9:
        how, new = "an escape is beyond Unicode", [s.pick([[where, ":=="], [r, "::="]]) + nest(s, [big]) + [";"]]
    else:
        bad = False
        if kind == 10:
            how, new = "a one-character range", [[where, ":=="] + nest(s, [s.pick(["[a-a]", "[^#x61-a]", "[#--#-]", "[a-ab-b]"])]) + [";"]]
        elif kind == 11:
            how, new = "a fragment is used twice", [[where, ":=="] + nest(s, ["yy"]) + nest(s, ["yy"]) + [";"]] + chain(s, "yy", "xx") + [["xx", ":=="] + nest(s, ["'q'"]) + [";"]]
        elif kind == 12:
            how, new = "an alternative is named after a rule", [doc + [r, "::="] + ["'q'"] + ["->", s.pick([r, t])] + [";"]]
        elif kind == 13:
            how, new = "a token uses another token", [[where, ":=="] + nest(s, ["yy"]) + [";"], ["yy", ":==", "'q'", ";"], [r, "::=", "yy", "'a'", ";"]]
        elif kind == 14:
            how, new = "an unused token rule", [["yy", ":=="] + nest(s, ["'q'"]) + [";"]]
        else:
            how, new = "another rule", [["yy", "::="] + nest(s, ["'q'"]) + [";"]]
    for x in new:
        i = s.below(len(rules) + 1)
        rules.insert(i, x)
    text = " ".join(t for x in rules for t in x)
    case = f"{how}: {text!r}"
    if ref.ebnf_parse(text) is None:
        raise Discard()

    def load():
        gr = TOOL.grammars[-1]
        return type(gr)(gr.parse(list(gr.tokenize(text))))

    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            load()
    except (ValueError, OverflowError) as e:
        err = e
    except RecursionError:
        raise Fail(f"loading the grammar does not end\n{case}")
    except Exception as e:
        if bad:
            raise Fail(f"loading the grammar fails with {type(e).__name__}: {e}\n{case}")
        err = e
    if bad and err is None:
        raise Fail(f"the grammar is accepted\n{case}")
    if not bad and err is not None:
        raise Fail(f"the grammar is rejected: {err}\n{case}")
    return True, [how], case


# ---------------------------------------------------------------- C25

def truthful(case, msg, toks, end, missed, name):
    """The message of an error: what was expected and what was found, at the token found."""
    k = re.search(r"(\d+):(\d+)", msg)
    if not k:
        raise Fail(f"the error names no position: {msg}\n{case}")
    at = (int(k[1]), int(k[2]))
    places = [i for i in range(len(toks) + 1) if (toks[i][2] if i < len(toks) else end)[:2] == at]
    if not places:
        raise Fail(f"the error is at no token: {msg}\n{case}")
    i = places[0]
    exp = {e for j, e in missed if j == i}
    if not exp:
        raise Fail(f"the error is at token {i}, where nothing is missed: {msg}\n{case}")
    found = toks[i][0] if i < len(toks) else "EOF"
    m = re.search(r"expected (\S+), found (\S+) at (\S+?)\.\.(\d+):(\d+)$", msg)
    if m:
        if name(m[2]) != found:
            raise Fail(f"the token found is not {m[2]} but {found}: {msg}\n{case}")
        if name(m[1]) not in exp:
            raise Fail(f"{m[1]} is not expected at token {i}, but {exp}: {msg}\n{case}")
        b = toks[i][3] if i < len(toks) else end
        if (int(m[4]), int(m[5])) != b[:2]:
            raise Fail(f"the span does not end where token {i} ends, {b}: {msg}\n{case}")
    else:  # worded in another way
        words = {name(w) for w in re.findall(r"\w+", msg)}
        if found not in words or not exp & words:
            raise Fail(f"the error does not name {found} and one of {exp}: {msg}\n{case}")
    return i


def c25_text(s):
    ok, bad = True, []
    for _ in range(5):
        text, how = gen.ebnf_text(s, (SPEC, SIMPLE))
        try:
            want, bad, end = ref.ebnf_tokens(text)
            toks = [t for t in want if t[0] is not None]
            p = ref.Tracing(ref.SPEC_RULES, toks, 30000)
            ok = bool(bad) or p.accepts("Grammar")
        except (ref.Fuel, ref.Ambiguous, RecursionError):
            raise Discard()
        if not ok:
            break
    if bad:
        raise Discard("unmatched text")
    case = f"grammar text {text!r}"
    if ok:
        return False, ["accepted"], case
    mode = s.below(3)
    if mode == 0:
        r = rust_ask(case, text, bad)
        e = r.get("error")
        if r["tree"] is not None or e is None:
            raise Fail(f"the generated parser does not reject it\n{case}")
        exp, found, i = e
        exp, found = ["EOF" if x is None else x for x in exp], "EOF" if found is None else found
        there = {x for j, x in p.missed if j == i}
        if not there or not exp or not set(exp) <= there:
            raise Fail(f"the generated parser's error says {exp} at token {i}, where {there} are missed\n{case}")
        if found != (toks[i][0] if i < len(toks) else "EOF"):
            raise Fail(f"the generated parser's error says {found} at token {i}, which is {toks[i:i + 1]}\n{case}")
        return i > 0, ["the generated parser", how], case
    what = "specified"
    if mode == 1 and hand_coded():
        what = "hand-coded"
    try:
        t, err, _ = quiet(lambda: parse_with(what, text))
    except Crash as e:
        raise Fail(f"the {what} parser: {e}\n{case}")
    if err is None:
        raise Fail(f"the {what} parser accepts it\n{case}")
    i = truthful(case, str(err), toks, end, p.missed, lambda n: n)
    return i > 0, [f"the {what} parser", how], case


def parse_with(what, text):
    if what == "hand-coded":
        return TOOL.hand_parser.parse(list(TOOL.ns["tokenize"](TOOL.hand_regexes, text)))
    g = TOOL.grammars[-1]
    return g.parse(list(g.tokenize(text)))


def c25_grammar(s):
    g = gen.GramGen(s)
    text, order = g.render()
    case = f"grammar {text!r}"
    try:
        if ref.ebnf_parse(text) is None:
            raise Discard("layout merged tokens")
    except ref.Ambiguous:
        raise Discard()
    try:
        t, err, out = quiet(lambda: load_text(text))
    except Crash as e:
        raise Fail(f"loading the grammar: {e}\n{case}")
    if err is not None:
        raise Fail(f"the grammar is rejected: {err} {out[:200]!r}\n{case}")
    exprs = [(k, g.token_expr(k)) for k in order]
    names = {}
    for k in order:
        if k:
            names[TOOL.symbol(k[1]) if k[0] == "implicit" else k[1]] = k
    rules = {n: [(a, rules_of(e)) for a, e in alters] for n, alters in g.rules.items()}
    m = ref.Matcher(g.tg.rules)

    def cands(t, i):
        for k, e in exprs:
            j = m.match(e, t, i)
            if j is not None:
                yield k, j

    def tie(first, other):
        if first is None:
            raise ref.Ambiguous("tie with whitespace")

    labels, texts, far = ["loaded grammar"], [], 0
    for _ in range(1 + s.below(4)):
        inp = g.input()
        texts.append(inp)
        try:
            want, bad, end = ref.longest(inp, cands, tie)
            if bad:
                labels.append("unmatched text")
                continue
            toks = [x for x in want if x[0] is not None]
            p = ref.Tracing(rules, toks)
            ok = p.accepts(g.names[0])
        except (ref.Fuel, ref.Ambiguous, RecursionError):
            labels.append("input skipped")
            continue
        c = f"{case}\ninput {inp!r}"
        try:
            node, err, out = quiet(lambda: t.parse(list(t.tokenize(inp))))
        except Crash as e:
            raise Fail(f"parsing with the loaded grammar: {e}\n{c}")
        if (err is None) != ok:
            raise Fail(f"the loaded grammar {'accepts' if err is None else f'rejects ({err})'} an input the PEG {'accepts' if ok else 'rejects'}\n{c}")
        if ok:
            labels.append("input accepted")
            continue
        labels.append("input rejected")
        i = truthful(c, str(err), toks, end, p.missed, lambda n: names.get(n, n))
        far = max(far, i)
    return far > 0, labels, f"{case}\ninputs {texts!r}"


def c25(s):
    return c25_text(s) if s.chance(2, 5) else c25_grammar(s)


# ---------------------------------------------------------------- known findings

def known_probes(pid):
    """{signature: whether the specific input still fails}"""
    T = TOOL

    def load(text):
        g = T.grammars[-1]
        return type(T.grammars[-1])(g.parse(list(g.tokenize(text))))

    def fails(f):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return f()
        except Exception:
            return True

    def case_fold():
        g = load('g ::= "A" b ; b ::= "a" ; _ :== " "+ ;')
        try:
            g.parse(list(g.tokenize("a A")))
            return True
        except ValueError:
            return False

    def inverted():
        g = load("g ::= t ; t :== '<' [^] '>' ; _ :== ' '+ ;")
        try:
            g.parse(list(g.tokenize("<\n>")))
            return False
        except ValueError:
            return True

    def rust():
        return "panic" in RUST.ask("a é")

    def variants():
        rc, out, _ = tool.bootstrap(SPEC + ' extra ::= "<" -> error | ">" "<" | ">" ">" ; ')
        m = out and re.search(r"enum PtExtra<.*?\n}", out, re.S)
        names = re.findall(r"^    (\w+)\b[^!]*?[,(]", m[0], re.M) if m else []
        return len(set(names)) < len(names)

    table = {
        "C19": {"rust-tokenizer-non-ascii": rust, "inverted-empty-set": inverted},
        "C20": {"implicit-token-case": case_fold, "inverted-empty-set": inverted},
        "C21": {"rust-tokenizer-non-ascii": rust},
        "C22": {"variant-names": variants},
        "C23": {},
        "C24": {},
        "C25": {},
    }
    return {sig: fails(f) for sig, f in table[pid].items()}


def read_known(root, pid):
    out = {}
    with open(f"{root}/known_findings.txt", encoding="utf-8") as f:
        for l in f:
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
            if m and m[1] == pid:
                out[m[2]] = m[3].strip()
    return out


RULE = {
    "C19": "generated token rules and texts, grammar texts for the three tokenizers of the specification; non-trivial: several tokens of different rules, or more than three tokens",
    "C20": "generated and mutated grammar texts; generated grammars with inputs; non-trivial: a text of more than 12 characters, or an input of more than one token",
    "C22": "generated grammars appended to the specification, with inputs; non-trivial: an input of more than one token",
    "C25": "generated and mutated grammar texts, and generated grammars with inputs, that are rejected; non-trivial: the error is not at the first token",
    "C24": "generated documented rules appended to the specification; non-trivial: at least two documented items",
    "C23": "generated grammars with one defect, or with something that resembles one; non-trivial: all",
    "C21": "generated and mutated grammar texts through the tool and the generated parser, and the specification with other layout; non-trivial: a text of more than 12 characters",
}
ASSUME = {
    "C19": ["token rules do not repeat something that can match nothing"],
    "C20": ["grammars without left recursion, without repetition of something that can match nothing, whose implicit tokens have different names", "no token ties with an earlier whitespace rule"],
    "C22": ["as C20", "at most four alternatives in a row, with different names", "no unmatched non-ASCII text"],
    "C23": ["defects in rules that the grammar uses"],
    "C24": ["documentation of the first definition of a rule, and of alternatives of rules with several"],
    "C21": ["rustfmt as installed"],
    "C25": ["as C20", "the text consists of tokens"],
}
FN = {"C19": c19, "C20": c20, "C21": c21, "C22": None, "C23": c23, "C24": docs.case, "C25": c25}
COUNT = {"quick": {"C19": 240000, "C20": 80000, "C21": 60000, "C23": 30000, "C24": 800, "C25": 60000}, "thorough": {"C19": 6000000, "C20": 1500000, "C21": 1500000, "C23": 1500000, "C24": 10000, "C25": 1000000}}
SECS = {"quick": 240, "thorough": 780}
# Rounds, batches per round, grammars per batch, inputs per grammar.
CODEGEN = {"quick": (1, 8, 9, 150), "thorough": (12, 8, 12, 600)}
LAYOUTS = {"quick": 60, "thorough": 600}


def main():
    global TOOL, RUST, SPEC, SIMPLE
    pid, tier, seed, root, binary = sys.argv[1:6]
    replay = sys.argv[7] if len(sys.argv) > 7 else None
    t0 = time.time()
    seed = int(seed)
    with open(f"{tool.REPO}/pangram/self-spec.ebnf", encoding="utf-8") as f:
        SPEC = f.read()
    with open(f"{tool.REPO}/pangram/simple.ebnf", encoding="utf-8") as f:
        SIMPLE = f.read()
    try:
        TOOL = engine.limited(tool.load, 200)
    except engine.Hang:
        TOOL = types.SimpleNamespace(error="it does not end", grammars=[])
    RUST = tool.Rust(binary)
    docs.SPEC, docs.READER = SPEC, os.path.join(os.path.dirname(binary), "pangram-docs")
    os.makedirs(f"{root}/replays", exist_ok=True)
    os.makedirs(f"{root}/evidence", exist_ok=True)
    problem, tape, mode, index, extra = None, None, "case", None, {}
    tot = {"evals": 0, "discarded": 0, "labels": {}, "hashes": set(), "samples": [], "known": {}, "fail": None}
    fixed = 0
    if TOOL.error is not None or not TOOL.grammars:
        problem = f"the tool fails on its own specification: {TOOL.error}"
    if replay:
        d = json.load(open(replay))
        fn = {"case": FN[pid], "layout": c21_layout}.get(d["mode"])
        if problem is None and pid == "C21":
            problem = c21_fixed()
        if problem is None and d["mode"] == "grammar":
            problem = codegen.replay(TOOL, SPEC, d, os.environ["CARGO_TARGET_DIR"], (quiet, conv, peg_same, show, Crash))
        if problem is None and fn:
            status, detail, _ = engine.run_one(fn, engine.Src(tape=d["tape"]))
            problem = detail if status == "fail" else None
        if problem:
            print(problem)
            print(f"VIOLATION property={pid} replay={replay}")
            sys.exit(1)
        print("the case passes")
        sys.exit(0)
    known = read_known(root, pid)
    if problem is None:
        if pid == "C21":
            fixed += 1
            problem = c21_fixed()
            mode = "fixed"
            if problem is None:
                lt = engine.explore(c21_layout, pid + "-layout", seed, LAYOUTS[tier], SECS[tier] / 3)
                tot["evals"] += lt["evals"]
                tot["discarded"] += lt["discarded"]
                tot["labels"].update(lt["labels"])
                tot["hashes"] |= lt["hashes"]
                if lt["fail"]:
                    mode = "layout"
                    index, tape, problem = lt["fail"]
                    tape, problem, _ = engine.shrink(c21_layout, tape, problem, 40)
        if problem is None and pid == "C22":
            mode = "grammar"
            lib = (quiet, conv, peg_same, show, Crash)
            rounds, batches, count, inputs = CODEGEN[tier]
            r, f = codegen.run(TOOL, SPEC, seed, rounds, batches, count, inputs, SECS[tier], os.environ["CARGO_TARGET_DIR"], lib)
            for k in ("evals", "discarded", "labels", "hashes", "samples"):
                tot[k] = r[k]
            tot["labels"]["grammars"] = r["grammars"]
            if f:
                problem, index, extra = f["problem"], f["k"], f
        elif problem is None:
            mode = "case"
            r = engine.explore(FN[pid], pid, seed, COUNT[tier][pid], SECS[tier])
            for k in ("evals", "discarded"):
                tot[k] += r[k]
            for k, v in r["labels"].items():
                tot["labels"][k] = tot["labels"].get(k, 0) + v
            tot["hashes"] |= r["hashes"]
            tot["samples"] += r["samples"]
            tot["known"] = r["known"]
            if r["fail"]:
                index, tape, problem = r["fail"]
                tape, problem, _ = engine.shrink(FN[pid], tape, problem)
            for sig, (i, n) in sorted(r["known"].items()):
                if sig not in known and problem is None:
                    problem, tape, index = f"fails as {sig}", engine.Src(engine.seed_of(seed, pid, i)), i
                    engine.run_one(FN[pid], tape)
                    tape = tape.tape
        if problem is None:
            for sig, bad in known_probes(pid).items():
                if bad and sig in known:
                    print(f"KNOWN-FINDING: property={pid} {known[sig]}")
                elif bad:
                    problem, mode = f"the probe for {sig} fails", "fixed"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evals"], "distinct_nontrivial": len(tot["hashes"]), "discarded": tot["discarded"], "rule": RULE[pid],
            "labels": dict(sorted(tot["labels"].items())), "known_findings_met": {k: v[1] for k, v in tot["known"].items()}, "samples": tot["samples"][:6] or ["none"],
        },
        "assumptions": ASSUME[pid], "wall_s": round(time.time() - t0, 1), "violations": 1 if problem else 0,
    }
    with open(f"{root}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if problem:
        path = f"{root}/replays/{pid}-{seed}-{mode if index is None else index}.json"
        with open(path, "w") as f:
            json.dump({"mode": mode, "tape": tape or [], **extra, "problem": problem}, f)
        print(problem)
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    print(f"{pid} held: {tot['evals']} cases, {len(tot['hashes'])} distinct non-trivial, {tot['discarded']} discarded, {ev['wall_s']} s")


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
