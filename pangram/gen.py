"""Generators: grammar file texts, tokenizer rules, grammars with inputs."""
from ref import *

WS = [" ", " ", " ", "\n", "\t", "  ", "\r\n", "/* c */", "/**/", "/*x*/", "/* ** a\n*b **/", "/*/ */", "\n\n  "]
DOCS = ["/** doc */", "/***/", "/**\n * A doc.\n *\n * More.\n */", "/** é **/", "/**x*/", "/** * / **/", "/****/"]
SYMS = ["a", "b", "rule", "x-y", "t0", "z9-", "if", "q--r"]
CHARS = list("abcxyzAZ059 .+*?^$(){}[]|\\-#'\"/:;_=<>&~,!%@`") + ["\n", "\t", "\r", "é", "λ", "\U0001f600", "\x00", "\x7f"]


# ---------------------------------------------------------------- spelling

def hexed(s, c):
    forms = [f"#U{ord(c):08x}"]
    if ord(c) < 0x10000:
        forms.append(f"#u{ord(c):04X}")
    if ord(c) < 0x100:
        forms.append(f"#x{ord(c):02x}")
    return s.pick(forms)


def spell(s, c, special, more=""):
    """Spells one character, escaped if it is special."""
    short = {"\t": "#t", "\n": "#n", "\r": "#r"}
    if s.chance(1, 12):
        return hexed(s, c)
    if c in short and s.chance(2, 3):
        return short[c]
    if c in special or (c in more and s.chance(1, 4)):
        return "#" + c if s.chance(7, 8) else hexed(s, c)
    return c


def spell_string(s, text):
    q = s.pick("'\"")
    return q + "".join(spell(s, c, "#" + q, "'\"") for c in text) + q


def spell_char(s, c):
    if c in "#'\"-^]" and s.chance(2, 3):
        return "#" + c
    if c in "\t\n\r" and s.chance(2, 3):
        return {"\t": "#t", "\n": "#n", "\r": "#r"}[c]
    return hexed(s, c)


def spell_set(s, inverted, ranges):
    out = "[" + ("^" if inverted else "")
    for a, b in ranges:
        out += spell(s, a, "^-]#", "'\"")
        if a != b or s.chance(1, 12):
            out += "-" + spell(s, b, "^-]#")
    return out + "]"


# ---------------------------------------------------------------- grammar file texts

class Ebnf:
    """Random derivations of the specification, as token texts."""

    def __init__(self, s, budget):
        self.s = s
        # Now and then a file with many rules, long sequences and long literals.
        self.wide = s.chance(1, 15)
        self.left = 10 * budget if self.wide else budget
        self.deep = 0

    def doc(self):
        if self.wide and self.s.chance(1, 8):
            return ["/**" + self.s.pick([" ", "\n * ", "*", "x"]) * (20 + self.s.size(300)) + "*/"]
        return [self.s.pick(DOCS)] if self.s.chance(1, 6) else []

    def more(self):
        return self.s.chance(5, 6) if self.wide and self.left > 0 else False

    def sym(self):
        if self.wide and self.s.chance(1, 6):
            return "long-name" + self.s.pick(["-", "x", "0", "-part"]) * (1 + self.s.size(60))
        return self.s.pick(SYMS)

    def rules(self):
        out = []
        n = 1 + self.s.size(60 if self.wide else 6)
        for _ in range(n):
            out += self.rule()
        return out

    def rule(self):
        k = self.s.weighted([4, 3, 1])
        out = self.doc()
        if k == 1:
            return out + [self.sym(), ":=="] + self.alternation(False) + [";"]
        if k == 2:
            return out + ["_", ":=="] + self.alternation(False) + [";"]
        out.append(self.sym())
        out += self.doc() + ["::="] + self.concat(True) + self.name()
        while self.more() or self.s.chance(2, 5):
            out += self.doc() + ["|"] + self.concat(True) + self.name()
        return out + [";"]

    def name(self):
        return ["->", self.sym()] if self.s.chance(1, 4) else []

    def alternation(self, g):
        out = self.concat(g)
        while self.s.chance(1, 4) or (self.deep < 2 and self.more()):
            out += ["|"] + self.concat(g)
        return out

    def concat(self, g):
        out = self.rep(g)
        while (self.more() or self.s.chance(2, 5)) and self.left > 0:
            out += self.rep(g)
        return out

    def rep(self, g):
        self.left -= 1
        k = self.s.weighted([5, 4, 3, 2, 2 if self.left > 0 and self.deep < 5 else 0])
        if k == 4:
            self.deep += 1
            out = ["("] + self.alternation(g) + [")"]
            self.deep -= 1
        elif k == 0:
            out = [self.sym()]
        elif k == 1:
            out = [spell_string(self.s, "".join(self.s.pick(CHARS) for _ in range(1 + self.s.size(300 if self.wide and self.s.chance(1, 3) else 3))))]
        elif k == 2:
            out = [spell_set(self.s, self.s.chance(1, 3), gen_ranges(self.s, 0))]
        else:
            out = [spell_char(self.s, self.s.pick(CHARS))]
        m = self.s.below(6)
        return out + (["?", "*", "+"][m - 3:m - 2] if m >= 3 else [])


def gen_ranges(s, least=1):
    out = []
    for _ in range(max(least, s.below(4))):
        a = s.pick(CHARS)
        b = s.pick(CHARS) if s.chance(1, 3) else a
        out.append((min(a, b), max(a, b)))
    return out


def join(s, toks, dense=None):
    """Token texts with random layout around them."""
    dense = s.below(3) if dense is None else dense
    out = []
    for t in toks:
        if dense == 0 or (dense == 1 and s.chance(1, 2)):
            out.append(s.pick(WS))
            while s.chance(1, 5):
                out.append(s.pick(WS))
        out.append(t)
    if s.chance(1, 3):
        out.append(s.pick(WS))
    return "".join(out)


FRAG = [":==", "::=", ";", "_", "|", "->", "?", "*", "+", "(", ")", "a", "b-c", "'x'", '"', "'", "[a-z]", "[^]", "[]", "[a-]", "[^^]", "[", "]",
        "#n", "#x4", "#x41", "#", "#u12", "##", "/*", "*/", "/**", "/**/", "/***/", "/** d */", "-", ":", "=", ">", " ", "\n", "é", "A", "0", "~", "#U0001f600", "\t"]


def mutate(s, text):
    for _ in range(1 + s.size(3)):
        k = s.below(5)
        i = s.below(len(text) + 1)
        j = min(len(text), i + 1 + s.size(8))
        if k == 0:
            text = text[:i] + s.pick(FRAG) + text[i:]
        elif k == 1:
            text = text[:i] + text[j:]
        elif k == 2:
            text = text[:i] + s.pick(FRAG) + text[j:]
        elif k == 3:
            a = s.below(len(text) + 1)
            text = text[:a] + text[i:j] + text[a:]
        else:
            a = s.below(len(text) + 1)
            b = min(len(text), a + 1 + s.size(8))
            text = text[:i] + text[a:b] + text[j:]
    return text


def mutate_toks(s, toks):
    toks = list(toks)
    for _ in range(1 + s.size(2)):
        i = s.below(len(toks) + 1)
        k = s.below(4)
        if k == 0:
            toks.insert(i, s.pick(FRAG))
        elif k == 1 and toks:
            del toks[i - 1]
        elif k == 2 and toks:
            toks.insert(i, s.pick(toks))
        elif toks:
            j = s.below(len(toks))
            i = min(i, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
    return toks


def ebnf_text(s, corpus=()):
    """-> (text, how)"""
    if corpus and s.chance(1, 25):
        text = s.pick(corpus)
        return (mutate(s, text) if s.chance(3, 4) else text), "specification"
    if s.chance(1, 8):
        return "".join(s.pick(FRAG) for _ in range(s.size(14))), "fragments"
    toks = Ebnf(s, 2 + s.size(30)).rules()
    k = s.weighted([5, 3, 3])
    if k == 1:
        toks = mutate_toks(s, toks)
    text = join(s, toks)
    if k == 2:
        text = mutate(s, text)
    return text, ["derived", "token edits", "text edits"][k]


# ---------------------------------------------------------------- token rules

def nullable(e, rules):
    k = e[0]
    if k == "lit":
        return not e[1]
    if k in ("set", "tok"):
        return False
    if k == "frag":
        return nullable(rules[e[1]], rules)
    if k == "seq":
        return all(nullable(x, rules) for x in e[1])
    if k == "alt":
        return any(nullable(x, rules) for x in e[1])
    return e[1] in "?*" or nullable(e[2], rules)


class TokGen:
    def __init__(self, s, alphabet):
        self.s = s
        self.abc = alphabet
        self.rules = {}
        # Many alternatives, long literals and long repetitions; these then are
        # few and not nested, or matching takes forever.
        self.wide = False
        self.reps = 0

    def has_rep(self, e):
        k = e[0]
        if k == "frag":
            return self.has_rep(self.rules[e[1]])
        return k == "rep" or (k in ("seq", "alt") and any(self.has_rep(x) for x in e[1]))

    def much(self):
        return self.wide and self.s.chance(1, 2)

    def char(self):
        return self.s.pick(self.abc)

    def atom(self, depth):
        s = self.s
        k = s.weighted([5, 4, 2 if self.rules else 0, 2 if depth > 0 else 0])
        if k == 0:
            return ("lit", "".join(self.char() for _ in range(1 + s.size(60 if self.much() else 2))))
        if k == 1:
            rs = []
            if s.chance(1, 40):
                return ("set", False, [])
            for _ in range(1 + s.size(12 if self.much() else 2)):
                a, b = self.char(), self.char()
                if rs and s.chance(1, 3):
                    a = rs[-1][1]
                if not s.chance(1, 2):
                    b = a
                rs.append((min(a, b), max(a, b)))
            return ("set", s.chance(1, 5), rs)
        if k == 2:
            f = s.pick(list(self.rules))
            if self.wide and self.has_rep(self.rules[f]):
                return ("lit", self.char())
            return ("frag", f)
        return self.alt(depth - 1)

    def rep(self, depth):
        e = self.atom(depth)
        m = self.s.weighted([6, 1, 1, 2])
        if m == 0:
            return e
        mode = "?*+"[m - 1]
        if mode != "?" and nullable(e, self.rules):
            return e
        if self.wide:
            if self.reps >= 2 or self.has_rep(e):
                return e
            self.reps += 1
        return ("rep", mode, e)

    def rule(self, depth):
        self.reps = 0
        return self.alt(depth)

    def seq(self, depth):
        es = [self.rep(depth)]
        while self.s.chance(1, 3) or (self.much() and len(es) < 12):
            es.append(self.rep(depth))
        return es[0] if len(es) == 1 else ("seq", es)

    def alt(self, depth):
        es = [self.seq(depth)]
        while self.s.chance(1, 4) or (self.much() and self.s.chance(1, 2) and len(es) < 12):
            es.append(self.seq(depth))
            if not self.wide and self.s.chance(1, 5):
                es[-1] = self.tweak(self.s.pick(es[:-1]))
        return es[0] if len(es) == 1 else ("alt", es)

    def tweak(self, e):
        """Almost the same."""
        s, k = self.s, e[0]
        if k == "lit":
            i = s.below(len(e[1]))
            return s.pick([("lit", e[1] + self.char()), ("lit", e[1][:i] + self.char() + e[1][i + 1:]), ("lit", e[1][i:] + e[1][:i])])
        if k == "set":
            if not e[2]:
                return ("set", False, [(self.char(),) * 2])
            i = s.below(len(e[2]))
            a, b = e[2][i]
            c = self.char()
            return s.pick([("set", not e[1], e[2]), ("set", e[1], e[2][:i] + [(min(a, c), max(a, c))] + e[2][i + 1:]), ("set", e[1], e[2] + [(c, c)])])
        if k in ("seq", "alt"):
            i = s.below(len(e[1]))
            x = e[1][i]
            es = s.pick([
                lambda: e[1][:i] + [self.tweak(x)] + e[1][i + 1:],
                lambda: e[1][:i] + [self.tweak(x)] + e[1][i + 1:],
                lambda: e[1] + [x] if k == "seq" else e[1][::-1],
                lambda: e[1][:-1] if len(e[1]) > 2 else e[1][::-1],
                lambda: e[1][i:] + e[1][:i],
            ])()
            return (k, es)
        if k == "rep":
            if s.chance(1, 4):
                return e[2]
            if s.chance(1, 3):
                x = self.tweak(e[2])
                return ("rep", "?" if nullable(x, self.rules) else e[1], x)
            return ("rep", "?" if nullable(e[2], self.rules) else s.pick("?*+"), e[2])
        return e

    def sample(self, e, depth=0):
        """A text that e may match."""
        s, k = self.s, e[0]
        if k == "lit":
            return e[1]
        if k == "set":
            if not e[2]:
                return self.char()
            if not e[1]:
                a, b = s.pick(e[2])
                return s.pick([a, b, chr((ord(a) + ord(b)) // 2)])
            ok = [c for c in self.abc if not any(a <= c <= b for a, b in e[2])]
            return s.pick(ok) if ok else "~"
        if k == "frag":
            return self.sample(self.rules[e[1]], depth)
        if k == "seq":
            return "".join(self.sample(x, depth) for x in e[1])
        if k == "alt":
            return self.sample(s.pick(e[1]), depth)
        n = {"?": s.below(2), "*": s.below(3), "+": 1 + s.below(3)}[e[1]]
        if n and e[1] != "?" and self.much():
            n = 1 + s.size(40)
        return "".join(self.sample(e[2], depth) for _ in range(n))


def to_python(e, rules):
    """A Python pattern for a token rule, for the tool's tokenize()."""
    import re
    k = e[0]
    if k == "lit":
        return re.escape(e[1])
    if k == "set":
        if not e[2]:
            return "(?!)"
        return "[" + ("^" if e[1] else "") + "".join(f"\\U{ord(a):08x}-\\U{ord(b):08x}" for a, b in e[2]) + "]"
    if k == "frag":
        return f"(?:{to_python(rules[e[1]], rules)})"
    if k == "seq":
        return "".join(f"(?:{to_python(x, rules)})" for x in e[1])
    if k == "alt":
        return "(?:" + "|".join(to_python(x, rules) for x in e[1]) + ")"
    return f"(?:{to_python(e[2], rules)}){e[1]}"


def spell_expr(s, e, top=False):
    """Token texts of a token rule or grammar rule expression."""
    k = e[0]
    if k == "lit":
        if len(e[1]) == 1 and s.chance(1, 4):
            return [spell_char(s, e[1])]
        return [spell_string(s, e[1])]
    if k == "set":
        return [spell_set(s, e[1], e[2])]
    if k in ("frag", "ref", "tok"):
        return [e[1]]
    if k == "implicit":
        if len(e[1]) == 1 and s.chance(1, 6):
            return [spell_char(s, e[1])]
        return [spell_string(s, e[1])]
    if k == "seq":
        out = []
        for x in e[1]:
            out += spell_part(s, x)
        return out
    if k == "alt":
        out = []
        for i, x in enumerate(e[1]):
            out += (["|"] if i else []) + spell_seq(s, x)
        return out if top else ["("] + out + [")"]
    inner = spell_expr(s, e[2])
    if e[2][0] in ("seq", "rep"):
        inner = ["("] + inner + [")"]
    return inner + [e[1]]


def spell_part(s, x):
    """One element of a sequence."""
    out = spell_expr(s, x)
    if x[0] == "seq" or s.chance(1, 15):
        out = ["("] + out + [")"]
    return out


def spell_seq(s, x):
    return spell_expr(s, x) if x[0] in ("seq", "rep") else spell_part(s, x)


# ---------------------------------------------------------------- grammars

# Literals whose implicit token names are all different.
LITERALS = ["+", "-", "*", "(", ")", "if", "fi", "==", "=", ",", "->", ":", "é", "do", "$", "\\", "[", "?", "a{2}", "\U0001f600", ".*", "&&", "a|b", "\t", "#", "##n", "#x41", "'", '"', "r#t#n", "\\d", "]", "^", "A", "AB", "0", "10"]


class GramGen:
    wide = False

    def __init__(self, s):
        self.s = s
        s_ = s
        abc = s_.pick(["ab01+-(=if, \n", "ab01+-(=if, \n", "abcdxy", "abcdxy", "abcdxy", "a{1}?*.|$^", "aλ\U0001f600\U0001f601é", "#nrt\n\r\t", "#xuU0041", "'\"#[]^-\\", "~\x7f\x00\uffff\U0010ffff\\n"])
        self.tg = TokGen(s, abc)
        # Now and then a large grammar with long inputs.
        wide = self.wide = self.tg.wide = s.chance(1, 40)
        # Fragments and token rules; a token rule may use those before it.
        self.defs = []  # (kind, name, payload) in file order: token rules, whitespace rules
        for i in range(s.below(12 if wide else 3)):
            self.tg.rules[f"f{i}"] = self.tg.rule(2)
            self.defs.append(("tok", f"f{i}"))
        self.frags = list(self.tg.rules)
        self.tnames = []
        for i in range(1 + s.below(20 if wide else 3)):
            self.tg.rules[f"t{i}"] = self.tg.rule(2)
            self.tnames.append(f"t{i}")
            self.defs.append(("tok", f"t{i}"))
        self.ws = None
        if s.chance(3, 4):
            self.ws = ("rep", "+", ("set", False, [(" ", " "), ("\n", "\n")])) if s.chance(2, 3) else self.tg.rule(1)
        self.lits = [s.pick(LITERALS) for _ in range(1 + s.below(20 if wide else 3))]
        # Grammar rules, generated last to first.
        n = 1 + s.below(20 if wide else 5)
        self.names = [f"r{i}" for i in range(n)]
        if s.chance(1, 6):
            self.names[0] = "grammar"
        self.rules = {}
        self.null = {}
        for i in reversed(range(n)):
            self.at = i
            alters = []
            for _ in range(1 + s.size(3) + (s.below(9) if s.chance(1, 12) else 0)):
                self.left = 25 if wide and s.chance(1, 3) else 6
                name = s.pick(["one", "two", "three"]) if s.chance(1, 3) else None
                alters.append((name, self.concat(True, 2)))
            self.rules[self.names[i]] = alters
            self.null[self.names[i]] = any(self.nullable(e) for _, e in alters)
        self.rules = {n: self.rules[n] for n in self.names}

    def nullable(self, e):
        k = e[0]
        if k in ("tok", "implicit"):
            return False
        if k == "ref":
            return self.null.get(e[1], True)
        if k == "seq":
            return all(self.nullable(x) for x in e[1])
        if k == "alt":
            return any(self.nullable(x) for x in e[1])
        return e[1] in "?*" or self.nullable(e[2])

    def concat(self, leftmost, depth):
        es = []
        while True:
            e = self.rep(leftmost, depth)
            leftmost = leftmost and self.nullable(e)
            es.append(e)
            if self.left <= 0 or not (self.s.chance(1, 2) or self.left > 6):
                break
        return es[0] if len(es) == 1 else ("seq", es)

    def rep(self, leftmost, depth):
        s = self.s
        self.left -= 1
        refs = self.names[self.at + 1:] if leftmost else self.names
        k = s.weighted([4, 3, 4 if refs else 0, 2 if depth > 0 and self.left > 0 else 0])
        if k == 0:
            e = ("tok", s.pick(self.tnames))
        elif k == 1:
            e = ("implicit", s.pick(self.lits))
        elif k == 2:
            e = ("ref", s.pick(refs))
        else:
            es = [self.concat(leftmost, depth - 1)]
            while s.chance(2, 5):
                es.append(self.concat(leftmost, depth - 1))
            e = es[0] if len(es) == 1 else ("alt", es)
        m = s.weighted([6, 2, 2, 2])
        if m and (m == 1 or not self.nullable(e)):
            e = ("rep", "?*+"[m - 1], e)
        return e

    def uses(self, e, out):
        if e[0] in ("tok", "implicit"):
            out.append(e)
        elif e[0] in ("seq", "alt"):
            for x in e[1]:
                self.uses(x, out)
        elif e[0] == "rep":
            self.uses(e[2], out)

    def render(self):
        """-> (text, token order: [(key, expr)] with key ("tok", name) / ("implicit", text) / None for whitespace, whitespace position)"""
        s = self.s
        items = [("g", n) for n in self.names]
        first = items.pop(0)
        others = list(self.defs) + [("ws", None)] * (self.ws is not None)
        # File order: any, as long as the first grammar rule stays the first.
        order = [first]
        pool = others + items
        while pool:
            i = s.below(len(pool))
            order.append(pool.pop(i))
        if s.chance(1, 2):
            k = s.below(len(others) + 1)
            for o in others[:k]:
                order.remove(o)
                order.insert(0, o)
        # A rule may be defined several times; every definition adds alternatives.
        toks, file = [], []
        for kind, name in order:
            if kind == "g":
                alters = self.rules[name]
                cut = s.below(len(alters)) if s.chance(1, 4) else 0
                file.append(("g", name, alters[:cut]) if cut else ("g", name, alters))
                if cut:
                    file.append(("g2", name, alters[cut:]))
            elif kind == "ws":
                file.append(("t", "_", self.ws))
            else:
                e = self.tg.rules[name]
                if e[0] == "alt" and s.chance(1, 3):
                    cut = 1 + s.below(len(e[1]) - 1)
                    file.append(("t", name, wrap(e[1][:cut])))
                    file.append(("t", name, wrap(e[1][cut:])))
                else:
                    file.append(("t", name, e))
        # Second parts may come later.
        late = [f for f in file if f[0] == "g2"]
        if late and s.chance(1, 2):
            file = [f for f in file if f[0] != "g2"] + late
        rank = {}
        used = set()
        for f in file:
            if f[0] == "t":
                rank.setdefault(None if f[1] == "_" else ("tok", f[1]), len(rank))
                toks += ([s.pick(DOCS)] if s.chance(1, 8) else []) + [f[1], ":=="] + spell_expr(s, f[2], True) + [";"]
            else:
                toks += ([s.pick(DOCS)] if s.chance(1, 8) else []) + [f[1]]
                for i, (alter, e) in enumerate(f[2]):
                    us = []
                    self.uses(e, us)
                    for u in us:
                        used.add(u)
                        if u[0] == "implicit":
                            rank.setdefault(u, len(rank))
                    toks += ([s.pick(DOCS)] if i and s.chance(1, 8) else []) + (["|"] if i else ["::="])
                    toks += spell_seq(s, e) + (["->", alter] if alter else [])
                toks.append(";")
        text = join(s, toks, 1 + s.below(2) if s.chance(1, 2) else 0)
        if [t[1] for t in ebnf_tokens(text)[0] if t[0] is not None] != toks:
            text = " ".join(toks)
        order = [k for k in sorted(rank, key=lambda k: rank[k]) if k is None or k in used]
        return text, order

    def token_expr(self, key):
        if key is None:
            return self.ws
        return self.tg.rules[key[1]] if key[0] == "tok" else ("lit", key[1])

    # ------------------------------------------------------------ inputs

    def sentence(self, e, out, depth=0):
        if len(out) > (150 if self.wide else 25) or depth > 60:
            return
        k = e[0]
        if k in ("tok", "implicit"):
            out.append(self.tg.sample(self.token_expr(e)))
        elif k == "ref":
            alters = self.rules[e[1]]
            i = self.s.below(len(alters)) if depth < 12 else len(alters) - 1
            self.sentence(alters[i][1], out, depth + 1)
        elif k == "seq":
            for x in e[1]:
                self.sentence(x, out, depth + 1)
        elif k == "alt":
            self.sentence(self.s.pick(e[1]), out, depth + 1)
        else:
            n = {"?": self.s.below(2), "*": self.s.below(3), "+": 1 + self.s.below(2)}[e[1]]
            if n and e[1] != "?" and self.wide and self.s.chance(1, 3):
                n = 1 + self.s.size(12 if depth > 6 else 60)
            for _ in range(n):
                self.sentence(e[2], out, depth + 1)

    def input(self):
        s = self.s
        out = []
        self.sentence(("ref", self.names[0]), out)
        k = s.below(4)
        if k == 1 and out:
            i = s.below(len(out))
            s.pick([lambda: out.pop(i), lambda: out.insert(i, s.pick(out)), lambda: out.insert(i, self.tg.sample(("tok", 0) and self.token_expr(("tok", s.pick(self.tnames)))))])()
        text = ""
        for t in out:
            if self.ws is not None and s.chance(1, 2):
                text += self.tg.sample(self.ws)
            text += t
        if k == 2:
            i = s.below(len(text) + 1)
            text = text[:i] + s.pick(["a", "b", "0", "+", "é", "(", "\n", "f"]) + text[i + s.below(2):]
        return text[:1000 if self.wide else 120]


def wrap(es):
    return es[0] if len(es) == 1 else ("alt", es)
