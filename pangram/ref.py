"""Reference tokenizer and parser for grammar files, written from the text of
self-spec.ebnf, and reference semantics of token rules and grammars."""

LITS = [(":==", "ColEqEq"), (";", "Sem"), ("_", "Usc"), ("|", "Bar"), ("::=", "ColColEq"), ("->", "MinGt"),
        ("?", "Qst"), ("*", "Ast"), ("+", "Pls"), ("(", "Lp"), (")", "Rp")]
HEX = "0123456789abcdefABCDEF"
LOWER = "abcdefghijklmnopqrstuvwxyz"


class Ambiguous(Exception):
    """The documentation and the tool differ (a listed finding), or the documentation is silent."""


def esc(s, i):
    """End of an escape sequence at i, or None."""
    if s[i:i + 1] != "#" or i + 1 >= len(s):
        return None
    n = {"x": 2, "u": 4, "U": 8}.get(s[i + 1])
    if n is None:
        return i + 2
    j = i + 2 + n
    return j if j <= len(s) and all(c in HEX for c in s[i + 2:j]) else None


def t_symbol(s, i):
    if s[i] not in LOWER:
        return None
    j = i + 1
    while j < len(s) and (s[j] in LOWER or s[j] in "0123456789-"):
        j += 1
    return j


def t_string(s, i):
    q = s[i]
    if q not in "'\"":
        return None
    j = i + 1
    while j < len(s):
        if s[j] == q:
            return j + 1 if j > i + 1 else None
        if s[j] == "#":
            if s[j + 1:j + 2] == "\n":
                raise Ambiguous("inverted-empty-set")
            j += 1
        j += 1
    return None


def t_set(s, i):
    if s[i] != "[":
        return None
    j = i + 1
    if s[j:j + 1] == "^":
        j += 1

    def char(j):
        if j >= len(s) or s[j] in "^-]":
            return None
        return esc(s, j) if s[j] == "#" else j + 1

    while True:
        k = char(j)
        if k is None:
            break
        j = k
        if s[j:j + 1] == "-":
            k = char(j + 1)
            if k is None:
                return None
            j = k
    return j + 1 if s[j:j + 1] == "]" else None


def t_doc(s, i):
    if not s.startswith("/**", i):
        return None
    j = s.find("*/", i + 3)
    return None if j < 0 else j + 2


def t_ws(s, i):
    if s[i] in " \t\n\r":
        j = i
        while j < len(s) and s[j] in " \t\n\r":
            j += 1
        return j
    if s.startswith("/**/", i):
        return i + 4
    if s.startswith("/*", i) and s[i + 2:i + 3] not in ("*", ""):
        j = s.find("*/", i + 3)
        return None if j < 0 else j + 2
    return None


def advance(loc, text):
    line, col, offs = loc
    for c in text:
        if c == "\n":
            line, col = line + 1, 1
        else:
            col += 1
        offs += 1
    return line, col, offs


def candidates(s, i):
    for text, name in LITS:
        if s.startswith(text, i):
            yield name, i + len(text)
    for name, f in (("Symbol", t_symbol), ("StringLiteral", t_string), ("CharacterSet", t_set),
                    ("CharacterLiteral", lambda s, i: esc(s, i)), ("Doc", t_doc), (None, t_ws)):
        j = f(s, i)
        if j is not None:
            yield name, j


def longest(s, cands_at, tie=None):
    """-> ([(name, text, a, b)] with None for whitespace, [unmatched locations])"""
    out, bad = [], []
    i, loc = 0, (1, 1, 0)
    while i < len(s):
        best, end = None, i
        for name, j in cands_at(s, i):
            if j > end:
                best, end = (name,), j
            elif tie and best and j == end and j > i:
                tie(best[0], name)
        if best is None:
            end = i + 1
        b = advance(loc, s[i:end])
        if best is None:
            bad.append(loc)
        else:
            out.append((best[0], s[i:end], loc, b))
        i, loc = end, b
    return out, bad, loc


class Reject(Exception):
    pass


class EbnfParser:
    """grammar ::= rule+, as specified; trees as (name, children, span) or (name, text, span)."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else "EOF"

    def leaf(self):
        n, text, a, b = self.t[self.i]
        self.i += 1
        return (n, text, (a, b))

    def take(self, name):
        if self.peek() != name:
            raise Reject(f"{name} at token {self.i}")
        return self.leaf()

    @staticmethod
    def node(name, ch):
        spans = [c[2] for c in ch if c[2] is not None]
        span = (min(a for a, _ in spans), max(b for _, b in spans)) if spans else None
        return (name, ch, span)

    def grammar(self):
        rules = []
        while self.i < len(self.t) or not rules:
            rules.append(self.rule())
        return self.node("Grammar", rules)

    def rule(self):
        ch = []
        if self.peek() == "Doc":
            ch.append(self.leaf())
        if self.peek() == "Usc":
            ch += [self.leaf(), self.take("ColEqEq"), self.alternation(), self.take("Sem")]
            return self.node("Rule.WhitespaceRule", ch)
        ch.append(self.take("Symbol"))
        if self.peek() == "ColEqEq":
            ch += [self.leaf(), self.alternation(), self.take("Sem")]
            return self.node("Rule.TokenRule", ch)
        ch.append(self.alter("FirstAlter", "ColColEq"))
        while self.peek() == "Bar" or (self.peek() == "Doc" and self.peek(1) == "Bar"):
            ch.append(self.alter("SubseqAlter", "Bar"))
        ch.append(self.take("Sem"))
        return self.node("Rule.GrammarRule", ch)

    def alter(self, name, start):
        ch = []
        if self.peek() == "Doc":
            ch.append(self.leaf())
        ch += [self.take(start), self.concatenation()]
        if self.peek() == "MinGt":
            # A failing optional name is simply not there; what follows then rejects.
            ch.append(self.node("AlterName", [self.leaf(), self.take("Symbol")]))
        return self.node(name, ch)

    def alternation(self):
        ch = [self.concatenation()]
        while self.peek() == "Bar":
            ch += [self.leaf(), self.concatenation()]
        return self.node("Alternation", ch)

    STARTS = ("Lp", "Symbol", "StringLiteral", "CharacterSet", "CharacterLiteral")

    def concatenation(self):
        ch = [self.repetition()]
        while self.peek() in self.STARTS:
            ch.append(self.repetition())
        return self.node("Concatenation", ch)

    def repetition(self):
        s = self.singular()
        kind = {"Qst": "Maybe", "Ast": "Any", "Pls": "Many"}.get(self.peek())
        if kind:
            return self.node(f"Repetition.{kind}", [s, self.leaf()])
        return self.node("Repetition.One", [s])

    def singular(self):
        k = self.peek()
        if k == "Lp":
            return self.node("Singular.Nested", [self.leaf(), self.alternation(), self.take("Rp")])
        if k in self.STARTS:
            return self.node(f"Singular.{k}", [self.leaf()])
        raise Reject(f"singular at token {self.i}")


def ebnf_tokens(text):
    out, bad, end = longest(text, candidates)
    return out, bad, end


def ebnf_parse(text):
    """-> tree or None. May raise Ambiguous."""
    out, bad, _ = ebnf_tokens(text)
    if bad:
        return None
    try:
        return EbnfParser([t for t in out if t[0] is not None]).grammar()
    except Reject:
        return None


# ------------------------------------------------------------ token rules
# ("lit", s) ("set", inverted, [(a, b)]) ("frag", name) ("seq", [..]) ("alt", [..]) ("rep", mode, e)

class Fuel(Exception):
    pass


class Matcher:
    """Backtracking matcher: ends in order of preference; the first is the match."""

    def __init__(self, rules, fuel=20000):
        self.rules = rules
        self.fuel = fuel

    def ends(self, e, s, i):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = e[0]
        if k == "lit":
            if s.startswith(e[1], i):
                yield i + len(e[1])
        elif k == "set":
            if i < len(s):
                if e[1] and not e[2] and s[i] == "\n":
                    raise Ambiguous("inverted-empty-set")
                if any(a <= s[i] <= b for a, b in e[2]) != e[1]:
                    yield i + 1
        elif k == "frag":
            yield from self.ends(self.rules[e[1]], s, i)
        elif k == "seq":
            yield from self.seq(e[1], 0, s, i)
        elif k == "alt":
            for x in e[1]:
                yield from self.ends(x, s, i)
        else:
            yield from self.rep(e[2], {"?": (0, 1), "*": (0, None), "+": (1, None)}[e[1]], s, i)

    def seq(self, es, n, s, i):
        if n == len(es):
            yield i
            return
        for j in self.ends(es[n], s, i):
            yield from self.seq(es, n + 1, s, j)

    def rep(self, e, bounds, s, i):
        lo, hi = bounds
        if hi is None or hi > 0:
            for j in self.ends(e, s, i):
                if j == i:
                    raise Ambiguous("repetition of nothing")
                yield from self.rep(e, (max(0, lo - 1), None if hi is None else hi - 1), s, j)
        if lo == 0:
            yield i

    def match(self, e, s, i):
        for j in self.ends(e, s, i):
            return j
        return None


# ------------------------------------------------------------ grammars
# ("tok", name) ("ref", rule) ("seq", [..]) ("alt", [..]) ("rep", mode, e)

class Peg:
    """PEG reading of a grammar over tokens (name, text, a, b)."""

    def __init__(self, rules, toks, fuel=6000):
        self.rules = rules  # {name: [(alter name or None, e)]}
        self.t = toks
        self.fuel = fuel
        self.backtracks = 0

    def run(self, e, i):
        """-> (children, end) or None"""
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = e[0]
        if k == "tok":
            if i < len(self.t) and self.t[i][0] == e[1]:
                n, text, a, b = self.t[i]
                return [(n, text, (a, b))], i + 1
            return None
        if k == "ref":
            alters = self.rules[e[1]]
            for name, x in alters:
                r = self.run(x, i)
                if r is not None:
                    full = e[1] if len(alters) == 1 else (e[1], name)
                    return [EbnfParser.node(full, r[0])], r[1]
                self.backtracks += 1
            return None
        if k == "seq":
            out, j = [], i
            for x in e[1]:
                r = self.run(x, j)
                if r is None:
                    self.backtracks += j > i
                    return None
                out += r[0]
                j = r[1]
            return out, j
        if k == "alt":
            for x in e[1]:
                r = self.run(x, i)
                if r is not None:
                    return r
                self.backtracks += 1
            return None
        out, j, n = [], i, 0
        while e[1] != "?" or n < 1:
            r = self.run(e[2], j)
            if r is None:
                break
            out += r[0]
            j = r[1]
            n += 1
        if e[1] == "+" and n == 0:
            return None
        return out, j


def _spec():
    """The specification's grammar rules, written down independently of its file."""
    T, R = lambda n: ("tok", n), lambda n: ("ref", n)
    S, A = lambda *x: ("seq", list(x)), lambda *x: ("alt", list(x))
    opt, any_, many = (lambda m: lambda x: ("rep", m, x))("?"), (lambda x: ("rep", "*", x)), (lambda x: ("rep", "+", x))
    doc = opt(T("Doc"))
    return {
        "Grammar": [(None, many(R("Rule")))],
        "Rule": [("TokenRule", S(doc, T("Symbol"), T("ColEqEq"), R("Alternation"), T("Sem"))),
                 ("WhitespaceRule", S(doc, T("Usc"), T("ColEqEq"), R("Alternation"), T("Sem"))),
                 ("GrammarRule", S(doc, T("Symbol"), R("FirstAlter"), any_(R("SubseqAlter")), T("Sem")))],
        "Alternation": [(None, S(R("Concatenation"), any_(S(T("Bar"), R("Concatenation")))))],
        "FirstAlter": [(None, S(doc, T("ColColEq"), R("Concatenation"), opt(R("AlterName"))))],
        "SubseqAlter": [(None, S(doc, T("Bar"), R("Concatenation"), opt(R("AlterName"))))],
        "AlterName": [(None, S(T("MinGt"), T("Symbol")))],
        "Concatenation": [(None, many(R("Repetition")))],
        "Repetition": [("Maybe", S(R("Singular"), T("Qst"))), ("Any", S(R("Singular"), T("Ast"))), ("Many", S(R("Singular"), T("Pls"))), ("One", R("Singular"))],
        "Singular": [("Nested", S(T("Lp"), R("Alternation"), T("Rp")))] + [(n, T(n)) for n in ("Symbol", "StringLiteral", "CharacterSet", "CharacterLiteral")],
    }


SPEC_RULES = _spec()


class Tracing(Peg):
    """Notes which tokens a PEG reading of a text looks for in vain, and where."""

    def __init__(self, rules, toks, fuel=6000):
        super().__init__(rules, toks, fuel)
        self.missed = set()  # (index of the token, expected)

    def run(self, e, i):
        r = super().run(e, i)
        if e[0] == "tok" and r is None:
            self.missed.add((i, e[1]))
        return r

    def accepts(self, first):
        r = self.run(("ref", first), 0)
        if r is not None and r[1] < len(self.t):
            self.missed.add((r[1], "EOF"))
            return False
        return r is not None
