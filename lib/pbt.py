"""A small property-based testing engine (choice-sequence based, in the manner of Hypothesis/minithesis).

A check is a function case(d, ctx): it draws from d, runs boxes through ctx and raises Violation when the property is
broken. Every random choice goes through d, so a case is a list of integers that can be replayed and shrunk.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import sut as sutmod

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class Discard(Exception):
    pass


class Draw:
    """Source of choices: random (recorded) or replayed."""

    def __init__(self, rng=None, choices=None, scale=1.0):
        self.rng = rng
        self.replay = choices
        self.pos = 0
        self.rec = []
        self.labels = {}
        self.nontrivial = False
        self.key = None
        self.sample = None
        self.scale = scale

    def _take(self, hi, pick):
        """An integer in [0, hi]."""
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            if v > hi:
                v = hi
        else:
            v = pick()
        self.pos += 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        if hi <= lo:
            return lo
        return lo + self._take(hi - lo, lambda: self.rng.randint(0, hi - lo))

    def small(self, lo, hi, mean=3.0):
        """Skewed to small values, but every value in range is possible."""
        if hi <= lo:
            return lo

        def pick():
            if self.rng.random() < 0.08:
                return self.rng.randint(0, hi - lo)
            return min(hi - lo, int(self.rng.expovariate(1.0 / mean)))
        return lo + self._take(hi - lo, pick)

    def count(self, lo, hi, big, p=0.04):
        """Few, but now and then many"""
        return self.int(hi + 1, big) if self.bool(p) else self.int(lo, hi)

    def bool(self, p=0.5):
        if p <= 0 or p >= 1:
            return p >= 1
        return self._take(1, lambda: 1 if self.rng.random() < p else 0) == 1

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: (weight, value); the first is the simplest."""
        pairs = [x for x in pairs if x[0] > 0]
        total = sum(w for w, _ in pairs)

        def pick():
            x = self.rng.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._take(len(pairs) - 1, pick)][1]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def shuffled(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1


def report_of(sut, r):
    """What a sanitizer says, in a few lines"""
    text = r.err.decode("utf-8", "replace")
    out = [l for l in text.split("\n") if "runtime error" in l or "ERROR: AddressSanitizer" in l or re.match(r"(READ|WRITE) of size", l)][:3]
    offs = re.findall(r"driver-asan\+(0x[0-9a-f]+)\)", text)[:8]
    if offs:
        try:
            p = subprocess.run(["addr2line", "-f", "-i", "-s", "-p", "-e", sut.exe] + offs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            out += ["  " + l for l in p.stdout.decode().split("\n") if l]
        except OSError:
            pass
    return "\n".join(out) if out else text[-600:]


class Ctx:
    """What a case needs to run boxes; records what was run for the replay file."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.suts = {}
        self.log = []
        self.extra_execs = 0

    def sut(self, variant="plain"):
        if variant not in self.suts:
            self.suts[variant] = sutmod.Sut(variant)
        return self.suts[variant]

    def run(self, args, stdin=b"", variant="plain", expect_crash_ok=False, files=None, **kw):
        s = self.sut(variant)
        r = s.run(args, stdin, **kw)
        self.log.append((variant, list(args), stdin, dict(kw), r))
        if len(self.log) > 40:
            del self.log[1]
        if r.signal in (24, 14) or (r.signal == 9 and r.cpu_ms > 3000):
            raise Violation("no end after %d ms of CPU time (killed)" % r.cpu_ms)
        if r.crashed and not expect_crash_ok:
            if r.code == 99:
                raise Violation("sanitizer report: " + report_of(s, r))
            raise Violation("boxes crashed: code %d; stderr %r" % (r.code, r.err[-600:]))
        return r

    def file(self, name, data, variants=("plain",)):
        """Same file for all variants in use; returns the path (scratch of the first variant)."""
        return self.sut(variants[0]).write(name, data)

    def close(self):
        for s in self.suts.values():
            s.close()
        self.suts = {}


def _show(x):
    if isinstance(x, bytes):
        return x.decode("utf-8", "backslashreplace")
    return x


def dump_log(log):
    out = []
    for variant, args, stdin, kw, r in log:
        out.append({"variant": variant, "args": [_show(a) for a in args], "stdin": _show(stdin)[:20000],
                    "options": {k: _show(v) for k, v in kw.items()}, "result": r.brief()})
    return out


def dump_files(ctx):
    files = {}
    for v, s in ctx.suts.items():
        for root, _, names in os.walk(s.scratch):
            for n in names:
                p = os.path.join(root, n)
                if n.startswith(".driver"):
                    continue
                try:
                    if os.path.getsize(p) < 65536:
                        files[os.path.relpath(p, s.scratch)] = open(p, "rb").read().decode("utf-8", "backslashreplace")
                except OSError:
                    pass
    return files


ORACLE_ERRORS = (AssertionError, IndexError, KeyError, ValueError, TypeError, UnicodeError, AttributeError)


CASE_SECONDS = 120      # a case that takes longer (an oracle lost in its own search) is given up


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class limit:
    """with limit(seconds): what takes longer than that discards the case"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.t0 = time.monotonic()
        self.left = signal.alarm(0)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if self.left:
            signal.alarm(max(1, int(self.left - (time.monotonic() - self.t0))))
        if t is CaseTimeout:
            raise Discard() from None
        return False


def run_case(fn, d, ctx):
    """Returns None, or the message of a violation."""
    ctx.log = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        try:
            fn(d, ctx)
        finally:
            signal.alarm(0)
    except CaseTimeout:
        d.label("given up after %d seconds" % CASE_SECONDS)
        d.nontrivial = False
        ctx.close()
        ctx.suts.clear()
        return None
    except Violation as v:
        return str(v) or "violation"
    except Discard:
        d.label("discarded")
        d.nontrivial = False
        return None
    except ORACLE_ERRORS:
        return "the observed behaviour could not be interpreted: " + traceback.format_exc(limit=-4)
    return None


def rng_for(prop, part, seed, idx):
    h = hashlib.sha256(("%s/%s/%d/%d" % (prop, part, seed, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def _worker(wid, nw, prop, part, fn, tier, seed, n, deadline, scale, stop, conn):
    ctx = Ctx(prop, tier, seed)
    evals = 0
    keys = set()
    labels = {}
    samples = []
    fail = None
    try:
        for idx in range(wid, n, nw):
            if stop.value >= 0 and stop.value < idx:
                break
            if time.monotonic() > deadline:
                labels["stopped at the time cap"] = 1
                break
            d = Draw(rng_for(prop, part, seed, idx), scale=scale)
            msg = run_case(fn, d, ctx)
            evals += 1
            for k, v in d.labels.items():
                labels[k] = labels.get(k, 0) + 1
            if d.nontrivial:
                k = hashlib.blake2b(repr(d.key if d.key is not None else tuple(d.rec)).encode("utf-8", "surrogateescape"), digest_size=8).digest()
                if k not in keys:
                    keys.add(k)
                    if len(samples) < 2:
                        samples.append({"case": idx, "part": part, "what": d.sample if d.sample is not None else
                                        dump_log(ctx.log[-1:])})
            if msg:
                fail = (idx, list(d.rec), msg)
                with stop.get_lock():
                    if stop.value < 0 or stop.value > idx:
                        stop.value = idx
                break
        execs = sum(s.execs for s in ctx.suts.values())
        conn.send(("ok", evals, keys, labels, samples, fail, execs))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        ctx.close()
        conn.close()


def explore(prop, part, fn, tier, seed, n, cap_s, workers=None, scale=1.0):
    workers = workers or min(8, os.cpu_count() or 1)
    n = max(1, n)
    workers = min(workers, n)
    stop = mp.Value("q", -1)
    deadline = time.monotonic() + cap_s
    procs = []
    for w in range(workers):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(w, workers, prop, part, fn, tier, seed, n, deadline, scale, stop, b))
        p.start()
        b.close()
        procs.append((p, a))
    tot = dict(evaluations=0, keys=set(), labels={}, samples=[], fail=None, execs=0)
    err = None
    for p, a in procs:
        try:
            m = a.recv()
        except EOFError:
            m = ("error", "worker ended without a result")
        p.join()
        if m[0] == "error":
            err = m[1]
            continue
        _, e, k, l, s, f, x = m
        tot["evaluations"] += e
        tot["keys"] |= k
        for kk, vv in l.items():
            tot["labels"][kk] = tot["labels"].get(kk, 0) + vv
        tot["samples"] += s
        tot["execs"] += x
        if f and (tot["fail"] is None or f[0] < tot["fail"][0]):
            tot["fail"] = f
    if err and not tot["fail"]:
        raise RuntimeError(err)
    return tot


# --- shrinking --------------------------------------------------------------------------------------------------

def shrink(fn, ctx, rec, budget=900, seconds=45.0, scale=1.0):
    t0 = time.monotonic()
    state = {"n": 0}

    def fails(c):
        if state["n"] >= budget or time.monotonic() - t0 > seconds:
            return None
        state["n"] += 1
        d = Draw(choices=c, scale=scale)
        m = run_case(fn, d, ctx)
        return (list(d.rec), m) if m else None

    best = list(rec)
    msg = None

    def attempt(c):
        nonlocal best, msg
        f = fails(c)
        if f and (len(f[0]), f[0]) < (len(best), best):
            best, msg = f
            return True
        return False

    improved = True
    while improved and state["n"] < budget and time.monotonic() - t0 < seconds:
        improved = False
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2)
        for size in (16, 4, 1):
            i = 0
            while i < len(best):
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
        i = 0
        while i < len(best):
            lo, v = 0, best[i]
            if v > 0 and attempt(best[:i] + [v - 1] + best[i + 1:]):
                improved = True
                hi = v - 1
                while lo < hi and i < len(best):
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1:]):
                        hi = mid
                    else:
                        lo = mid + 1
            i += 1
    return best, msg


def confirm(fn, ctx, rec, times=3, scale=1.0):
    """Replays; returns the message if it fails every time."""
    msg = None
    for _ in range(times):
        d = Draw(choices=list(rec), scale=scale)
        msg = run_case(fn, d, ctx)
        if not msg:
            return None
    return msg


class Part:
    """One generator/oracle pair of a check."""

    def __init__(self, name, fn, quick, thorough, rule, scale_thorough=1.0):
        self.name, self.fn, self.quick, self.thorough, self.rule = name, fn, quick, thorough, rule
        self.scale_thorough = scale_thorough


def load_known(prop):
    try:
        data = json.load(open(os.path.join(VERIF, "KNOWN_FINDINGS.json"), encoding="utf-8"))
    except OSError:
        return []
    return [f for f in data.get("findings", []) if f.get("property") == prop]


def main(prop, parts, level="exploration", known_checks=None, assumptions=None, argv=None):
    """Runs a check. known_checks: {finding id: function(ctx) -> True if the finding still reproduces}."""
    argv = sys.argv[1:] if argv is None else argv
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if "--replay" in argv:
        return replay(prop, parts, argv[argv.index("--replay") + 1])
    only = argv[argv.index("--part") + 1] if "--part" in argv else None
    factor = float(argv[argv.index("--factor") + 1]) if "--factor" in argv else 1.0
    import build
    try:
        for v in ("plain", "asan"):
            build.build(v)
    except build.BuildError as e:
        print("build failed:\n" + str(e))
        return 2
    cap = 420.0 if tier == "quick" else 3 * 3600.0
    evaluations, execs = 0, 0
    keys = set()
    labels, samples, rules, byp = {}, [], [], {}
    violation = None
    for part in parts:
        if only and part.name != only:
            continue
        n = int((2 * part.quick if tier == "quick" else part.thorough) * factor)
        scale = 1.0 if tier == "quick" else part.scale_thorough
        left = cap - (time.monotonic() - t0)
        if left < 5:
            labels["time cap reached before part " + part.name] = 1
            continue
        tp = time.monotonic()
        tot = explore(prop, part.name, part.fn, tier, seed, n, left, scale=scale)
        evaluations += tot["evaluations"]
        execs += tot["execs"]
        keys |= {part.name.encode() + k for k in tot["keys"]}
        byp[part.name] = {"evaluations": tot["evaluations"], "distinct_nontrivial": len(tot["keys"]),
                          "boxes_runs": tot["execs"], "wall_s": round(time.monotonic() - tp, 2),
                          "classes": dict(sorted(tot["labels"].items()))}
        samples += tot["samples"][:3]
        rules.append("[%s] %s" % (part.name, part.rule))
        if tot["fail"]:
            violation = handle_failure(prop, part, tot["fail"], seed, tier, scale)
            if violation:
                break
            labels["not reproducible, dropped: " + part.name] = 1
    known = []
    if not violation:
        ctx = Ctx(prop, tier, seed)
        for f in load_known(prop):
            chk = (known_checks or {}).get(f["id"])
            if chk is not None and chk(ctx):
                known.append(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        ctx.close()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": " ".join(rules),
                       "samples": samples[:8], "boxes_runs": execs, "parts": byp, "notes": labels,
                       "known_findings_reproduced": known},
          "assumptions": assumptions or [], "wall_s": round(time.monotonic() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    print("%s %s: held on %d cases (%d distinct non-trivial, %d runs of boxes), %.1f s"
          % (prop, tier, evaluations, len(keys), execs, time.monotonic() - t0))
    return 0


def handle_failure(prop, part, fail, seed, tier, scale):
    idx, rec, msg = fail
    ctx = Ctx(prop, tier, seed)
    try:
        first = confirm(part.fn, ctx, rec, scale=scale)
        if not first:
            print("case %d of %s/%s failed once and not again (%s)" % (idx, prop, part.name, msg[:300]))
            return None
        best, _ = shrink(part.fn, ctx, rec, scale=scale)
        m = confirm(part.fn, ctx, best, scale=scale)
        if not m:
            best, m = rec, confirm(part.fn, ctx, rec, times=1, scale=scale) or first
        d = Draw(choices=list(best), scale=scale)
        m = run_case(part.fn, d, ctx) or m
        data = {"property": prop, "part": part.name, "seed": seed, "case": idx, "choices": best, "original": rec,
                "scale": scale, "message": m, "sample": d.sample, "runs": dump_log(ctx.log), "files": dump_files(ctx)}
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = "%s-%s-%s.json" % (prop, part.name, hashlib.sha256(repr(best).encode()).hexdigest()[:10])
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
            json.dump(data, f, indent=1, default=repr)
        print("%s/%s case %d: %s" % (prop, part.name, idx, m[:3000]))
        if ctx.log:
            v, a, si, kw, r = ctx.log[-1]
            print("last run: boxes %s" % " ".join(repr(_show(x)) for x in a))
            print("  stdin: %r" % (si[:400] if si else si))
            print("  exit %s stdout %r stderr %r" % (r.code, r.out[:600], r.err[:300]))
        return os.path.relpath(path, VERIF)
    finally:
        ctx.close()


def replay(prop, parts, path):
    data = json.load(open(path, encoding="utf-8"))
    part = [p for p in parts if p.name == data["part"]][0]
    ctx = Ctx(prop, "quick", data["seed"])
    d = Draw(choices=data["choices"], scale=data.get("scale", 1.0))
    m = run_case(part.fn, d, ctx)
    print(json.dumps(dump_log(ctx.log), indent=1, ensure_ascii=False))
    for k, v in dump_files(ctx).items():
        print("--- file %s\n%s" % (k, v))
    ctx.close()
    if m:
        print(m)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the case passes")
    return 0
