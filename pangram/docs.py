"""C24: documentation comments of a grammar and the documentation of the generated code. Documented rules are appended to
the tool's specification; the generated file is read with syn (the program in docs/), not as text."""
import re, subprocess
import tool
from engine import Fail
from tool import camel

WORDS = ["one", "a-b", "`x`", "\"q\"", "'s'", "*", "**", "/", "//", "/*", "///", "#", "##", "\\", "\\n", "{}", "{0}", "%s", "é", "\U0001f600", "::=", ":==", "|", ";", "->", "_", "[x]", "(", ")", "<b>", "&", "- item", "1. item", "!", "@", "\t", "rule+", "doc"]
READER = None
SPEC = ""


class Doc:
    """One documentation comment: its lines, and a spelling of it."""

    def __init__(self, s, n):
        lines = []
        for i in range(1 + s.size(4)):
            if 0 < i and s.chance(1, 4):
                lines.append("")
                continue
            words = [s.pick(WORDS) for _ in range(s.below(4))]
            words.insert(s.below(len(words) + 1), f"mark{n}n{i}")
            lines.append((s.pick(["", "", "  ", "    "]) if i else "") + " ".join(words).replace("*/", "* /").strip())
        while not lines[-1]:
            lines.pop()
        self.lines = lines
        pad = s.pick(["", " ", "   ", "\t"])
        style = s.below(4)
        if style == 0 and len(lines) == 1 and not lines[0].startswith("*"):
            self.text = f"/**{s.pick([' ', ''])}{lines[0]}{s.pick([' ', '  '])}*/"
        elif style == 1 and all(not l.startswith((" ", "*")) for l in lines):
            # Without asterisks in front of the lines.
            self.text = "/**\n" + "".join(f"{pad}{l}\n" for l in lines) + pad + "*/"
        elif style == 2 and not lines[0].startswith("*"):
            # The text begins on the first line.
            self.text = f"/** {lines[0]}\n" + "".join(f"{pad} * {l}".rstrip() + "\n" for l in lines[1:]) + f"{pad} */"
        else:
            star = s.pick([" *", "*", "\t*"])
            self.text = "/**" + s.pick(["", " "]) + "\n" + "".join(f"{pad}{star}{s.pick([' ', '']) if l[:1] not in (' ', '*', '/') else ' '}{l}".rstrip(" ") + s.pick(["", "", " "]) + "\n" for l in lines) + pad + " */"


def make(s):
    """-> (text to append, the same without documentation, {path: lines}, {path: marks that may be there too})"""
    n = 0
    want, loose = {}, {}
    parts = []  # text or Doc

    def doc(paths, num=1, den=2):
        nonlocal n
        if not s.chance(num, den):
            return []
        n += 1
        d = Doc(s, n)
        for p in paths:
            want[p] = d.lines
        return [d]

    def later(paths):
        """Documentation of a further definition: on these types or nowhere."""
        nonlocal n
        if not s.chance(1, 4):
            return []
        n += 1
        for p in paths:
            loose.setdefault(p, []).append(f"mark{n}n")
        return [Doc(s, n)]

    count = 2 + s.below(6)
    names = [f"w{i}" + s.pick(["", "-x", "-long-name"]) for i in range(count)]
    more = []  # definitions that come later
    for i, name in enumerate(names):
        ty = "Pt" + camel(name)
        kind = s.below(4)
        if kind == 0:
            # A token, defined once or twice.
            user = ["tokuser-" + name, "::=", name, ";"]
            body = [f'"@@{i}"'] + s.pick([[], ["|", f'"@{i}@"'], ["+"], ["[0-9]", "*"]])
            d = doc([f"TokenType::{camel(name)}", ty]) + [name, ":=="] + body + [";"]
            if s.chance(1, 3):
                more.append(later([f"TokenType::{camel(name)}", ty]) + [name, ":==", f'"@{i}!"', ";"])
            parts += s.pick([user + d, d + user])
        elif kind == 1:
            # Part of a token, which has no type of its own.
            parts += doc([]) + [name, ":==", f'"%{i}"', ";", f"of-{name}", ":==", name, name, ";", f"user-{name}", "::=", f"of-{name}", ";"]
        elif kind == 2:
            # A rule with one alternative.
            parts += doc([ty]) + [name, "::="] + s.pick([[f'"<{i}>"'], [f'"<{i}>"', "?"], [f'"<{i}>"', "(", f'"<{i}<"', "|", f'">{i}>"', ")"], ["symbol", f'"<{i}>"', "+"]]) + [";"]
        else:
            alters = 2 + s.below(3)
            d = doc([ty])
            out = [name]
            early = 1 + s.below(alters)
            for a in range(alters):
                if a == early:
                    out += [";"]
                    more.append(later([ty]) + [name])
                    out, first = more[-1], out
                    parts += d + first
                    d = []
                out += doc([f"{ty}::{camel(f'alt-{a}')}"]) + ["::=" if a in (0, early) else "|", f'"<{i}-{a}>"'] + s.pick([[], [f'"{i}"'], ["symbol"], [f'"<{i}{a}<"', "*"]]) + ["->", f"alt-{a}"]
            out += [";"]
            if early == alters:
                parts += d + out
    for m in more:
        parts += m
    if s.chance(1, 4):
        parts += doc([]) + ["_", ":==", '"@~@"', ";"]
    text, bare = "\n", "\n"
    for p in parts:
        if isinstance(p, Doc):
            text += s.pick(["", "\n", "/* other */ "]) + p.text + s.pick(["\n", " ", ""])
        else:
            text += p + s.pick([" ", " ", "\n", " /* mark0n0 */ "])
            bare += p + " "
    return text, bare, want, loose


def read(out):
    p = subprocess.run([READER], input=out, capture_output=True, text=True, encoding="utf-8")
    docs, code = [], None
    for l in p.stdout.split("\n"):
        if not l:
            continue
        k, v = l.split("\t", 1)
        if k == "error":
            raise Fail(f"the generated parser is not valid Rust: {v}")
        v = bytes.fromhex(v).decode()
        if k == "code":
            code = v
        else:
            docs.append((k, [l[1:] if l.startswith(" ") else l for l in v.split("\n")]))
    if code is None:
        raise Fail(f"the generated parser cannot be read: {p.stderr[-300:]}")
    return docs, code


def case(s):
    text, bare, want, loose = make(s)
    show = f"rules {text!r}"
    rc, out, msg = tool.bootstrap(SPEC + text)
    if rc != 0 or out is None:
        raise Fail(f"the tool fails: {msg[-300:]}\n{show}")
    try:
        docs, code = read(out)
    except Fail as e:
        raise Fail(f"{e}\n{show}")
    got = dict(docs)
    for path, lines in want.items():
        g = got.get(path)
        if g is None:
            raise Fail(f"{path} has no documentation, expected {lines}\n{show}")
        g, lines = [l.rstrip() for l in g], [l.rstrip() for l in lines]
        if (g[:len(lines)] if path in loose else g) != lines:
            raise Fail(f"{path} is documented as {g}, expected {lines}\n{show}")
    for path, lines in docs:
        for mark in re.findall(r"mark\d+n", "\n".join(lines)):
            if mark not in "\n".join(want.get(path, [])) and mark not in loose.get(path, []):
                raise Fail(f"documentation of something else ({mark}) is given for {path}\n{show}")
    labels = [f"{len(want)} documented" if len(want) < 8 else "8+ documented"]
    if s.chance(1, 4):
        rc, out, msg = tool.bootstrap(SPEC + bare)
        if rc != 0 or out is None:
            raise Fail(f"the tool fails without the documentation: {msg[-300:]}\n{show}")
        if read(out)[1] != code:
            raise Fail(f"the generated code depends on the documentation\n{show}")
        labels.append("compared with the code without documentation")
    return len(want) >= 2, labels, show
