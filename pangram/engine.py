"""A small property-testing engine: choices come from a recorded tape, so that
shrinking and replaying need nothing but the tape."""
import hashlib, json, multiprocessing, os, random, signal, sys, time, traceback


class Src:
    def __init__(self, seed=None, tape=None):
        self.rng = random.Random(seed) if tape is None else None
        self.replay = tape
        self.tape = []

    def below(self, n):
        if n <= 1:
            return 0
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.tape)
            v = min(self.replay[i], n - 1) if i < len(self.replay) else 0
        self.tape.append(v)
        return v

    def chance(self, num, den):
        return self.below(den) >= den - num

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, ws):
        v = self.below(sum(ws))
        for i, w in enumerate(ws):
            if v < w:
                return i
            v -= w

    def size(self, m):
        b = self.below(m.bit_length() + 1)
        return self.below(min(m, (1 << b) - 1) + 1)


class Discard(Exception):
    """The case is outside the property's domain."""


class Fail(Exception):
    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.case = case


class Known(Exception):
    """Fails exactly as a listed known finding does."""

    def __init__(self, sig):
        super().__init__(sig)
        self.sig = sig


def seed_of(seed, pid, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()[:8], "big")


class Hang(BaseException):
    """A case takes thousands of times longer than cases do."""


LIMIT = 40  # seconds; the slowest cases take well under one


def _hang(*_):
    raise Hang()


def limited(f, seconds=LIMIT):
    signal.signal(signal.SIGALRM, _hang)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)


def run_one(fn, src):
    """-> (status, detail, result)"""
    try:
        return "pass", None, limited(lambda: fn(src))
    except Hang:
        return "fail", "the case does not end", None
    except Discard:
        return "discard", None, None
    except Known as e:
        return "known", e.sig, None
    except Fail as e:
        return "fail", str(e), None
    except RecursionError:
        return "discard", None, None


def _work(a):
    fn, pid, seed, lo, hi, deadline = a
    acc = {"evals": 0, "discarded": 0, "labels": {}, "hashes": [], "samples": [], "known": {}, "fail": None}
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        src = Src(seed_of(seed, pid, i))
        status, detail, res = run_one(fn, src)
        acc["evals"] += 1
        if status == "discard":
            acc["discarded"] += 1
        elif status == "known":
            acc["known"].setdefault(detail, [i, 0])[1] += 1
        elif status == "fail":
            acc["fail"] = (i, src.tape, detail)
            break
        else:
            nontrivial, labels, desc = res
            for l in labels:
                acc["labels"][l] = acc["labels"].get(l, 0) + 1
            if nontrivial:
                acc["hashes"].append(hashlib.sha256(desc.encode("utf-8", "surrogatepass")).digest()[:8])
                if i % 499 == 7 and len(acc["samples"]) < 3:
                    acc["samples"].append(desc[:1500])
    return acc


def shrink(fn, tape, msg, seconds=30):
    """Delete and lower choices while the case keeps failing."""
    end = time.time() + seconds
    best, best_msg, evals = list(tape), msg, 0

    def fails(t):
        nonlocal best, best_msg, evals
        evals += 1
        src = Src(tape=t)
        status, detail, _ = run_one(fn, src)
        if status == "fail" and (len(src.tape), src.tape) < (len(best), best):
            best, best_msg = src.tape, detail
            return True
        return False

    changed = True
    while changed and time.time() < end:
        changed = False
        n = max(1, len(best) // 2)
        while n >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if fails(best[:i] + best[i + n:]):
                    changed = True
                else:
                    i += n
            n //= 2
        for i in range(len(best)):
            if time.time() >= end:
                break
            if i < len(best) and best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if i < len(best) and v < best[i] and fails(best[:i] + [v] + best[i + 1:]):
                        changed = True
                        break
    return best, best_msg, evals


def explore(fn, pid, seed, cases, seconds, jobs=8):
    """Runs `cases` cases on several processes; stops early at a failure or the deadline."""
    t0 = time.time()
    deadline = t0 + seconds
    step = max(1, min(250, cases // (jobs * 4) + 1))
    work = [(fn, pid, seed, lo, min(cases, lo + step), deadline) for lo in range(0, cases, step)]
    tot = {"evals": 0, "discarded": 0, "labels": {}, "hashes": set(), "samples": [], "known": {}, "fail": None}
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs) as pool:
        for a in pool.imap(_work, work):
            tot["evals"] += a["evals"]
            tot["discarded"] += a["discarded"]
            for k, v in a["labels"].items():
                tot["labels"][k] = tot["labels"].get(k, 0) + v
            tot["hashes"].update(a["hashes"])
            if len(tot["samples"]) < 6:
                tot["samples"] += a["samples"]
            for k, v in a["known"].items():
                tot["known"].setdefault(k, [v[0], 0])[1] += v[1]
            if a["fail"] and not tot["fail"]:
                tot["fail"] = a["fail"]
                pool.terminate()
                break
    return tot
