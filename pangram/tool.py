"""Runs the bootstrap tool of /repo in a scratch directory and keeps hold of what it builds."""
import contextlib, io, os, resource, select, shutil, subprocess, sys, tempfile, types, warnings

REPO = os.environ.get("PANGRAM_REPO", "/repo")


def camel(x):
    """The name in the generated code of a symbol."""
    x = "".join(map(str.title, x.split("-")))
    return x + "_" if x in ("Self", "All", "EOF", "ERR", "FLAT") else x


class Tool:
    """Namespace of the script, the hand-coded tokenizer and parser, and the grammar read from the specification."""

    def __init__(self):
        self.ns = None
        self.hand_regexes = None
        self.hand_parser = None
        self.grammars = []
        self.error = None
        self.output = None

        self.symbols = {}

    def case(self, x):
        return camel(x)

    def symbol(self, text):
        """The name of the implicit token of a literal: that of the one token of a grammar with nothing else."""
        if text not in self.symbols:
            try:
                g = self.grammars[-1]
                quoted = "".join(c if c.isalnum() and c.isascii() else f"#U{ord(c):08x}" for c in text)
                with contextlib.redirect_stdout(io.StringIO()):
                    h = type(g)(g.parse(list(g.tokenize(f"g ::= '{quoted}' ;"))))
                    name, _ = [t.name for t in h.tokenize(text)]
            except Exception:
                name = self.ns["AstLiteral"](text).as_symbol()
            self.symbols[text] = name
        return self.symbols[text]


def scratch():
    d = tempfile.mkdtemp(prefix="pangram-")
    os.mkdir(f"{d}/pangram")
    os.mkdir(f"{d}/src")
    os.mkdir(f"{d}/bin")
    for f in ("bootstrap.py", "self-spec.ebnf", "simple.ebnf"):
        shutil.copy(f"{REPO}/pangram/{f}", f"{d}/pangram/{f}")
    with open(f"{d}/bin/rustfmt", "w") as f:
        f.write("#!/bin/sh\nexit 0\n")
    os.chmod(f"{d}/bin/rustfmt", 0o755)
    return d


def load():
    """Executes the script in this process."""
    t = Tool()
    d = scratch()
    old_cwd, old_path = os.getcwd(), os.environ["PATH"]
    try:
        os.chdir(f"{d}/pangram")
        os.environ["PATH"] = f"{d}/bin:{old_path}"
        with open("bootstrap.py", encoding="utf-8") as f:
            code = compile(f.read(), "bootstrap.py", "exec")
        mod = types.ModuleType("__main__")
        ns = mod.__dict__
        ns["__file__"] = "bootstrap.py"

        def prof(frame, event, arg):
            if event != "call" or frame.f_code.co_filename != "bootstrap.py":
                return
            name = frame.f_code.co_name
            if name == "tokenize" and t.hand_regexes is None:
                args = list(frame.f_locals.values())
                if len(args) >= 2 and isinstance(args[0], (list, tuple)):
                    t.hand_regexes = list(args[0])
            elif name == "parse" and t.hand_parser is None:
                me = frame.f_locals.get("self")
                if type(me).__name__ == "Parser":
                    t.hand_parser = me
            elif name == "__init__":
                me = frame.f_locals.get("self")
                if hasattr(type(me), "tokenize") and hasattr(type(me), "parse"):
                    t.grammars.append(me)

        out = io.StringIO()
        real = sys.modules.get("__main__")
        sys.setprofile(prof)
        try:
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                exec(code, ns)
        except BaseException as e:
            t.error = f"{type(e).__name__}: {e}"
        finally:
            sys.setprofile(None)
        t.ns = ns
        if os.path.exists("../src/test_pangram.rs"):
            with open("../src/test_pangram.rs", encoding="utf-8") as f:
                t.output = f.read()
    finally:
        os.chdir(old_cwd)
        os.environ["PATH"] = old_path
        shutil.rmtree(d)
    return t


def bootstrap(spec_text, fmt=False):
    """Runs the script as a program on the given specification -> (exit code, generated parser, messages)"""
    d = scratch()
    try:
        with open(f"{d}/pangram/self-spec.ebnf", "w", encoding="utf-8", newline="") as f:
            f.write(spec_text)
        env = dict(os.environ)
        if not fmt:
            env["PATH"] = f"{d}/bin:{env['PATH']}"
        env["RUSTUP_TOOLCHAIN"] = "stable"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        try:
            p = subprocess.run([sys.executable, "-W", "ignore", "bootstrap.py"], cwd=f"{d}/pangram", env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return 1, None, "the tool does not end"
        out = None
        if os.path.exists(f"{d}/src/test_pangram.rs"):
            with open(f"{d}/src/test_pangram.rs", encoding="utf-8") as f:
                out = f.read()
        return p.returncode, out, (p.stdout + p.stderr)[-800:]
    finally:
        shutil.rmtree(d)


def build_regenerated(text, target):
    """Builds the driver around another generated parser -> (program or None, messages)"""
    here = os.path.dirname(os.path.abspath(__file__))
    d = f"{target}/regenerated"
    os.makedirs(f"{d}/src", exist_ok=True)
    shutil.copy(f"{here}/rs/Cargo.lock", f"{d}/Cargo.lock")
    for f, a, b in (("Cargo.toml", "pangram-diff", "pangram-regenerated"), ("src/main.rs", "/repo/src/test_pangram.rs", "test_pangram.rs")):
        with open(f"{here}/rs/{f}", encoding="utf-8") as i, open(f"{d}/{f}", "w", encoding="utf-8") as o:
            o.write(i.read().replace(a, b))
    with open(f"{d}/Cargo.lock", encoding="utf-8") as i:
        lock = i.read().replace("pangram-diff", "pangram-regenerated")
    with open(f"{d}/Cargo.lock", "w", encoding="utf-8") as o:
        o.write(lock)
    with open(f"{d}/src/test_pangram.rs", "w", encoding="utf-8") as o:
        o.write(text)
    p = subprocess.run(["cargo", "build", "-q", "--release", "--offline", "--manifest-path", f"{d}/Cargo.toml"], capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-600:]
    return f"{target}/release/pangram-regenerated", ""


def child(binary):
    """A program that answers each line with a line; it dies when it uses too much memory."""
    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

    return subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, preexec_fn=limit)


def answer(p, line):
    """-> the answer; None if the program died or does not answer"""
    try:
        p.stdin.write(line + "\n")
        p.stdin.flush()
        if select.select([p.stdout], [], [], 30)[0]:
            r = p.stdout.readline()
            if r:
                return r
    except BrokenPipeError:
        pass
    p.kill()
    p.wait()
    return None


class Rust:
    """The generated parser, behind a pipe."""

    def __init__(self, binary):
        self.binary = binary
        self.pid = None

    def ask(self, text):
        import json
        if self.pid != os.getpid():
            self.p = child(self.binary)
            self.pid = os.getpid()
        line = answer(self.p, text.encode("utf-8").hex())
        if line is None:
            self.pid = None
            return {"panic": "the process died or does not answer".encode().hex()}
        return json.loads(line)
