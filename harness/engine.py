"""A small property-based testing engine: choice sequences, boundary-biased
generation, integrated shrinking, replay files, classification and counting.

Why not Hypothesis: the code under test runs on PyPy 3.9 with zigpy 0.25, the
installed Hypothesis only runs on CPython 3.12 where that zigpy does not import
(see DESIGN.md).  The core idea is the same as Hypothesis's: a case is a pure
function of a finite sequence of integers; random generation draws the sequence
from a PRNG, shrinking edits the sequence and re-runs the function.
"""
import ast
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
FAST = os.environ.get("VERIF_FAST")  # stop at the first violation, without shrinking it
OUT = os.environ.get("VERIF_OUT")  # where evidence/ and replays/ go; default: /verif
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for this case."""


class Discard(Exception):
    """The case is outside the property's domain (counted; kept rare)."""


class Stuck(SystemExit):
    """A case is busy without end (a SystemExit because asyncio lets that through)."""


CPU_LIMIT = 90
STUCK = "still busy after %d s of processor time, without letting virtual time pass" % CPU_LIMIT


def _stuck(signum, frame):
    raise Stuck(STUCK)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def mine_constants(repo):
    """Integers written in the code under test: magic values worth trying."""
    found = set()
    top = os.path.join(repo, "zigpy_cc")
    for base, dirs, files in os.walk(top):
        dirs.sort()
        for name in sorted(files):
            if not name.endswith(".py") or name == "definition.py":
                continue
            try:
                with open(os.path.join(base, name), "rb") as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and 0 <= v < 1 << 64:
                        found.update((v, v + 1, max(v - 1, 0)))
                    elif isinstance(v, bytes) and 0 < len(v) <= 8:
                        found.add(int.from_bytes(v, "little"))
                        found.add(int.from_bytes(v, "big"))
    return sorted(found)


class Data:
    """The source of every choice a case makes."""

    dictionary = []
    _dict_cache = {}

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.rec = []
        self.labels = {}
        self.interesting = False
        self.story = []

    # -- primitive -----------------------------------------------------
    def _pick(self, lo, hi):
        rng = self.rng
        span = hi - lo
        k = rng.random()
        if span <= 3 or k < 0.55:
            return rng.randint(lo, hi)
        if k < 0.75:
            c = rng.random()
            if c < 0.2:
                return lo
            if c < 0.4:
                return hi
            if c < 0.5:
                return lo + 1
            if c < 0.6:
                return hi - 1
            e = 1 << rng.randint(0, max(span.bit_length() - 1, 0))
            return max(lo, min(hi, lo + e + rng.choice((-1, 0, 1))))
        if k < 0.9:
            key = (lo, hi)
            pool = self._dict_cache.get(key)
            if pool is None:
                pool = [v for v in self.dictionary if lo <= v <= hi]
                self._dict_cache[key] = pool
            if pool:
                return pool[rng.randrange(len(pool))]
            return rng.randint(lo, hi)
        return lo + min(span, int(rng.expovariate(1 / 3.0)))

    def int(self, lo, hi):
        """An integer in [lo, hi]; simplest value is lo."""
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = min(v, hi - lo)
            self.rec.append(v)
            return lo + v
        v = self._pick(lo, hi)
        self.rec.append(v - lo)
        return v

    def uniform(self, lo, hi):
        if self.replay is not None:
            return self.int(lo, hi)
        v = self.rng.randint(lo, hi)
        self.rec.append(v - lo)
        return v

    def weighted(self, *weights):
        """Index chosen with the given integer weights; simplest is 0."""
        if self.replay is not None:
            return self.int(0, len(weights) - 1)
        r = self.rng.randrange(sum(weights))
        for i, w in enumerate(weights):
            if r < w:
                break
            r -= w
        self.rec.append(i)
        return i

    def bool(self, p=0.5):
        if self.replay is not None:
            return bool(self.int(0, 1))
        v = self.rng.random() < p
        self.rec.append(int(v))
        return v

    # -- derived -------------------------------------------------------
    def choice(self, seq):
        return seq[self.uniform(0, len(seq) - 1)]

    def u8(self):
        return self.int(0, 0xFF)

    def u16(self):
        return self.int(0, 0xFFFF)

    def u32(self):
        return self.int(0, 0xFFFFFFFF)

    def bytes(self, lo, hi):
        n = self.int(lo, hi)
        style = self.weighted(5, 1, 1, 1)
        if style == 0:
            return bytes([self.uniform(0, 255) for _ in range(n)])
        if style == 1:
            return bytes([self.choice((0xFE, 0x00, 0x01, 0xFF)) for _ in range(n)])
        if style == 2:
            return bytes([self.u8()]) * n
        return bytes([self.u8() for _ in range(n)])

    def eui(self):
        return bytes([self.uniform(0, 255) for _ in range(8)])

    def sample(self, seq, k):
        pool = list(seq)
        out = []
        for _ in range(min(k, len(pool))):
            out.append(pool.pop(self.uniform(0, len(pool) - 1)))
        return out

    def chunks(self, data):
        """Split bytes into a generated sequence of non-empty chunks."""
        mode = self.weighted(3, 2, 2, 4)
        n = len(data)
        if n == 0:
            return []
        if mode == 0:
            return [data]
        if mode == 1:
            return [data[i : i + 1] for i in range(n)]
        if mode == 2:
            k = self.int(1, n)
            return [data[i : i + k] for i in range(0, n, k)]
        cuts = sorted({self.uniform(0, n) for _ in range(self.int(1, 8))} - {0, n})
        out, prev = [], 0
        for c in cuts + [n]:
            out.append(data[prev:c])
            prev = c
        return out

    # -- bookkeeping ---------------------------------------------------
    def label(self, name):
        self.labels[name] = 1

    def nontrivial(self, name=None):
        self.interesting = True
        if name:
            self.labels[name] = 1

    def show(self, fmt, *args):
        self.story.append(fmt % args if args else fmt)


class Part:
    """One executable statement of (part of) a property.

    fn(d) for random parts; fn(d, case) with case drawn from `cases` for sweeps
    (cases: list of JSON-serialisable values, enumerated completely).
    """

    def __init__(self, name, fn, quick=0, thorough=None, cases=None, rule=""):
        self.name = name
        self.fn = fn
        # given for one process
        self.quick = quick * 3
        self.thorough = (thorough if thorough is not None else quick * 20) * 6
        self.cases = cases
        self.rule = rule


def _execute(part, d, case):
    """Returns None, or the failure message."""
    old = signal.signal(signal.SIGPROF, _stuck)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 5)
    try:
        if part.cases is not None:
            part.fn(d, case)
        else:
            part.fn(d)
        return None
    except Stuck:
        return STUCK
    except Discard:
        d.labels["discarded"] = 1
        return None
    except (KeyboardInterrupt, MemoryError):
        raise
    except Violation as e:
        return str(e)
    except BaseException as e:  # the code under test raised where it must not
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (os.path.relpath(f.filename, REPO), f.lineno)
                 for f in tb if f.filename.startswith(REPO + "/zigpy_cc")]
        return "unexpected %s: %s%s" % (
            type(e).__name__, e, " (raised through %s)" % where[-1] if where else
            " (in %s:%d)" % (os.path.basename(tb[-1].filename), tb[-1].lineno))


def shrink(part, rec, case, message, deadline, max_runs=1500):
    """Smaller choice sequences that still fail."""
    best, best_msg = list(rec), message
    runs = 0

    def attempt(cand):
        nonlocal best, best_msg, runs
        if runs >= max_runs or time.monotonic() > deadline:
            return False
        runs += 1
        d = Data(replay=cand)
        msg = _execute(part, d, case)
        if msg is None:
            return False
        new = list(d.rec)
        if (len(new), new) < (len(best), best):
            best, best_msg = new, msg
            return True
        return False

    improved = True
    while improved and runs < max_runs and time.monotonic() < deadline:
        improved = False
        size = max(len(best) // 2, 1)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size :]):
                    improved = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if i < len(best) and best[i]:
                if attempt(best[:i] + [0] + best[i + 1 :]):
                    improved = True
                    continue
                lo, hi = 0, best[i]
                while lo < hi - 1 and i < len(best):
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1 :]):
                        improved = True
                        hi = mid
                    else:
                        lo = mid
    return best, best_msg, runs


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    fields = dict(
                        p.split("=", 1) for p in line.split()[1:3] if "=" in p)
                    out.append((fields["property"], fields["sig"], line))
    return out


def _run_slice(pid, module, tier, seed, worker, workers, stop, started, budget):
    """Every workers-th case of every part, beginning with the worker-th."""
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    known = [k for k in known_findings() if k[0] == pid]
    out = {"evaluations": 0, "discarded": 0, "seen": set(), "labels": {}, "samples": [],
           "parts": {}, "violations": [], "findings": [], "cut_short": [], "sweeps": {}}
    nparts = len(module.PARTS)

    def report(part, d, case, message, i):
        sig = "%s:%s" % (part.name, message)
        for _, ksig, line in known:
            if hashlib.sha1(sig.encode()).hexdigest()[:12] == ksig:
                out["findings"].append(line)
                return False
        stop[index] = 1
        if FAST:
            out["violations"].append((index, i, message, None))
            return True
        if message.startswith(STUCK):
            rec, msg, runs, story = d.rec, message, 0, d.story
        else:
            if part.cases is None or d.rec:
                rec, msg, runs = shrink(
                    part, d.rec, case, message, time.monotonic() + 30)
            else:
                rec, msg, runs = d.rec, message, 0
            dd = Data(replay=rec)
            _execute(part, dd, case)
            story = dd.story
        out["violations"].append((index, i, msg, {
            "property": pid, "part": part.name, "tier": tier, "seed": seed,
            "choices": rec, "case": case, "message": msg,
            "story": story, "shrink_runs": runs, "first_message": message,
        }))
        return True

    for index, part in enumerate(module.PARTS):
        if FAST and any(stop[:]):
            break
        pp = out["parts"][part.name] = {"evaluations": 0, "seen": 0, "wall_s": 0.0}
        sampled = 0
        part_start = time.monotonic()
        deadline = started + budget * (index + 1) / nparts
        if part.cases is not None:
            cases = list(part.cases(tier) if callable(part.cases) else part.cases)
        else:
            cases = range(int((part.quick if tier == "quick" else part.thorough) * scale))
        full = True
        for i in range(worker, len(cases), workers):
            if stop[index]:
                full = False
                break
            if time.monotonic() > deadline:
                full = False
                out["cut_short"].append(part.name)
                break
            case = cases[i] if part.cases is not None else None
            d = Data(seed="%s/%s/%s/%d" % (seed, pid, part.name, i))
            msg = _execute(part, d, case)
            out["evaluations"] += 1
            pp["evaluations"] += 1
            if "discarded" in d.labels:
                out["discarded"] += 1
            for name in d.labels:
                key = part.name + ": " + name
                out["labels"][key] = out["labels"].get(key, 0) + 1
            if d.interesting:
                if part.cases is not None:
                    ident = (part.name, repr(case), tuple(d.rec))
                else:
                    ident = (part.name, tuple(d.rec))
                h = hash(ident)
                if h not in out["seen"]:
                    out["seen"].add(h)
                    pp["seen"] += 1
                    if sampled < 3 and d.story:
                        sampled += 1
                        out["samples"].append((index, i, d.story[:40]))
            if msg is not None and report(part, d, case, msg, i):
                full = False
                break
        if part.cases is not None:
            out["sweeps"][part.name] = full
        pp["wall_s"] = round(time.monotonic() - part_start, 2)
    return out


def _slices(args, workers):
    """The results of all workers, each its own process."""
    import mmap
    import pickle
    import tempfile

    stop = mmap.mmap(-1, 64)
    if workers == 1:
        return [_run_slice(*args[:4], 0, 1, stop, *args[4:])]
    sys.stdout.flush()
    children = []
    for k in range(workers):
        fd, path = tempfile.mkstemp(prefix="verif-slice-")
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                res = _run_slice(*args[:4], k, workers, stop, *args[4:])
                with open(path, "wb") as f:
                    pickle.dump(res, f)
                rc = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        children.append((pid, path))
    results, failed = [], []
    for k, (pid, path) in enumerate(children):
        try:
            _, status = os.waitpid(pid, 0)
            if status == 0:
                with open(path, "rb") as f:
                    results.append(pickle.load(f))
            else:
                failed.append((k, status))
        finally:
            os.unlink(path)
    for k, status in failed:
        # for instance ended for lack of memory: its share once more, alone
        print("worker %d ended with status %d, repeating its share" % (k, status),
              file=sys.stderr)
        results.append(_run_slice(*args[:4], k, workers, stop, *args[4:]))
    return results


def run_check(pid, module, tier, seed):
    started = time.monotonic()
    Data.dictionary = mine_constants(REPO)
    Data._dict_cache = {}
    budget = float(os.environ.get(
        "VERIF_BUDGET", "120" if tier == "quick" else "780"))
    workers = int(os.environ.get("VERIF_JOBS", 0)) or (
        1 if FAST else max(1, min(8, os.cpu_count() or 1)))
    results = _slices((pid, module, tier, seed, started, budget), workers)

    names = [part.name for part in module.PARTS]
    seen = set()
    labels, per_part = {}, {}
    for r in results:
        seen |= r["seen"]
        for key, n in r["labels"].items():
            labels[key] = labels.get(key, 0) + n
        for name, pp in r["parts"].items():
            q = per_part.setdefault(
                name, {"evaluations": 0, "nontrivial": 0, "wall_s": 0.0})
            q["evaluations"] += pp["evaluations"]
            q["nontrivial"] += pp["seen"]
            q["wall_s"] = max(q["wall_s"], pp["wall_s"])
    samples = []
    for index, name in enumerate(names):
        mine = sorted((i, story) for r in results for x, i, story in r["samples"]
                      if x == index)
        samples += [{"part": name, "case": story} for _, story in mine[:3]]
    violations = []
    for index, name in enumerate(names):
        mine = [v for r in results for v in r["violations"] if v[0] == index]
        if not mine:
            continue
        _, _, msg, blob = min(
            mine, key=lambda v: (len(v[3]["choices"]) if v[3] else 0, v[1]))
        path = "none"
        if blob is not None:
            h = hashlib.sha1(json.dumps([name, blob["choices"], blob["case"]],
                                        sort_keys=True).encode()).hexdigest()[:10]
            os.makedirs(os.path.join(OUT or VERIF, "replays"), exist_ok=True)
            path = os.path.join(OUT or VERIF, "replays", "%s-%s.json" % (pid, h))
            with open(path, "w") as f:
                json.dump(blob, f, indent=1)
        violations.append((name, msg, path))
    findings = sorted({line for r in results for line in r["findings"]})
    evaluations = sum(r["evaluations"] for r in results)
    cut_short = [n for n in names if any(n in r["cut_short"] for r in results)]

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(seen),
            "rule": module.RULE,
            "samples": samples,
            "parts": per_part,
            "classes": dict(sorted(labels.items())),
            "discarded": sum(r["discarded"] for r in results),
            "sweeps_enumerated_completely": {
                n: all(r["sweeps"].get(n, False) for r in results)
                for n in names if any(n in r["sweeps"] for r in results)},
            "cut_short_by_time_budget": cut_short,
            "processes": workers,
        },
        "assumptions": list(getattr(module, "ASSUMES", [])),
        "wall_s": round(time.monotonic() - started, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(OUT or VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(OUT or VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for line in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, line.split(None, 3)[3]))
    for name, msg, path in violations:
        print("part %s: %s" % (name, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s%s" % (
        pid, tier, seed, evaluations, len(seen),
        len(violations), evidence["wall_s"],
        " (cut short: %s)" % ",".join(cut_short) if cut_short else ""))
    return 1 if violations else 0


def replay(pid, module, path):
    with open(path) as f:
        blob = json.load(f)
    for part in module.PARTS:
        if part.name == blob["part"]:
            d = Data(replay=blob["choices"])
            msg = _execute(part, d, blob["case"])
            for line in d.story:
                print("  " + line)
            if msg is None:
                print("replay: the property holds for this case")
                return 0
            print("replay: " + msg)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
    print("no part named " + blob["part"], file=sys.stderr)
    return 2
