"""Choice-tape property-based testing engine.

A case is a pure function of a *tape*: the list of integers returned by Source.draw.
Fresh tapes come from a seeded PRNG, others are mutations of tapes that reached new
branches of the code under test.  A failing tape is shrunk and saved as the replay.
"""
import json
import multiprocessing
import os
import random as _pyrandom
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from multiprocessing import connection

MAX_TAPE = 6000
CASE_TIMEOUT = 3.0
SHARD_TIMEOUT = 400.0


class Discard(Exception):
    """The case is outside the domain of the property."""


class Overrun(Discard):
    """The case drew too many choices."""


class CaseTimeout(BaseException):
    """The case took too long: inconclusive, never a violation."""


class Violation(Exception):
    def __init__(self, message, /, **detail):
        super().__init__(message)
        self.message = message
        self.detail = detail


class Source:
    """Every random choice of a case goes through draw(n) -> 0 <= i < n."""
    __slots__ = ("tape", "bounds", "_replay", "_pos", "_rng", "_len")

    def __init__(self, rng=None, replay=None):
        self.tape = []
        self.bounds = []
        self._replay = replay or ()
        self._len = len(self._replay)
        self._pos = 0
        self._rng = rng

    def draw(self, n):
        if n <= 1:
            return 0
        pos = self._pos
        if pos < self._len:
            self._pos = pos + 1
            v = self._replay[pos]
            if v >= n:
                v = v % n
        elif self._rng is not None:
            v = int(self._rng.random() * n) if n < (1 << 50) else self._rng.randrange(n)
        else:
            v = 0
        self.tape.append(v)
        self.bounds.append(n)
        if len(self.tape) > MAX_TAPE:
            raise Overrun("tape too long")
        return v

    def integer(self, lo, hi):
        """lo..hi inclusive; lo is the simplest."""
        return lo + self.draw(hi - lo + 1)

    def chance(self, num, den=100):
        """True with probability num/den; False is the simplest."""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        total = 0
        for w, _ in pairs:
            total += w
        v = self.draw(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def shuffled(self, seq):
        out = list(seq)
        for i in range(len(out) - 1, 0, -1):
            # 0 keeps the element where it is
            j = i - self.draw(i + 1)
            out[i], out[j] = out[j], out[i]
        return out

    def subset(self, seq, num=50):
        return [x for x in seq if self.chance(num)]


class Ctx:
    """Per-shard statistics."""

    def __init__(self):
        self.labels = Counter()
        self.nontrivial_keys = set()
        self.checks = 0
        self.samples = []
        self.excluded = Counter()
        self.harness = 0
        self.harness_text = []
        self._want = 0
        self._pending = []

    def begin(self, want):
        self._want = want
        self._pending = []

    def end(self, keep):
        if keep and self._pending:
            self.samples.append(self._pending[0])
        self._pending = []

    def label(self, name):
        self.labels[name] += 1

    def check(self, n=1):
        self.checks += n

    def nontrivial(self, key):
        self.nontrivial_keys.add(hash(key))

    @property
    def wants_sample(self):
        return self._want

    def sample(self, obj):
        if self._want:
            self._pending.append(obj)


class Target:
    def __init__(self, name, fn, quick, thorough, shards=16, exhaustive=False, guided=True,
                 isolated=False):
        self.name = name
        self.fn = fn              # fn(src, ctx), or fn(shard, nshards, ctx) if exhaustive
        self.quick = quick        # total number of cases
        self.thorough = thorough
        self.shards = shards
        self.exhaustive = exhaustive
        self.guided = guided
        self.isolated = isolated  # every shard in a process that has run nothing else


# ------------------------------------------------------------------------------------------
# coverage of /repo/d42 through sys.monitoring

class Coverage:
    TOOL = 3

    def __init__(self):
        self.count = 0
        self.seen = set()
        self.by_off = {}
        self.ok = False

    def start(self, root):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, "vp")
        except ValueError:
            return
        codes = set()
        for name, mod in list(sys.modules.items()):
            f = getattr(mod, "__file__", None)
            if not f or not f.startswith(root + os.sep):
                continue
            for obj in list(vars(mod).values()):
                self._collect(obj, f, codes, set())
        ev = mon.events

        def on_line(code, line):
            key = (code, line)
            if key not in self.seen:
                self.seen.add(key)
                self.count += 1
            return mon.DISABLE

        def on_branch(code, off, dest):
            key = (code, off, dest)
            if key not in self.seen:
                self.seen.add(key)
                self.count += 1
                d = self.by_off.setdefault((code, off), [])
                d.append(dest)
                if len(d) > 1:
                    return mon.DISABLE
            return None
        mon.register_callback(self.TOOL, ev.LINE, on_line)
        mon.register_callback(self.TOOL, ev.BRANCH, on_branch)
        for code in codes:
            mon.set_local_events(self.TOOL, code, ev.LINE | ev.BRANCH)
        self.ok = True

    def _collect(self, obj, f, codes, visited):
        if id(obj) in visited:
            return
        visited.add(id(obj))
        if isinstance(obj, type):
            for v in list(vars(obj).values()):
                self._collect(v, f, codes, visited)
            return
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if isinstance(obj, property):
            for g in (obj.fget, obj.fset):
                if g is not None:
                    self._collect(g, f, codes, visited)
            return
        code = getattr(obj, "__code__", None)
        if code is not None and getattr(code, "co_filename", "").startswith("/"):
            self._code(code, codes)

    def _code(self, code, codes):
        if code in codes:
            return
        codes.add(code)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                self._code(c, codes)


COV = Coverage()


# ------------------------------------------------------------------------------------------

def _on_alarm(signum, frame):
    raise CaseTimeout()


def execute(fn, tape, rng, ctx):
    """Returns (status, source, violation). status in ok/discard/violation/timeout."""
    src = Source(rng=rng, replay=tape)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        fn(src, ctx)
        return "ok", src, None
    except Discard:
        return "discard", src, None
    except Violation as v:
        return "violation", src, v
    except CaseTimeout:
        return "timeout", src, None
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        if type(e).__name__ == "Hostile":       # a hostile value met the oracle, not the code
            return "discard", src, None
        # the harness failed on this case: counted, shown, and fatal when it is not rare
        ctx.harness += 1
        if len(ctx.harness_text) < 2:
            ctx.harness_text.append(traceback.format_exc())
        return "harness", src, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def mutate(rng, corpus):
    tape, bounds = corpus[int(rng.random() * len(corpus))]
    tape = list(tape)
    bounds = list(bounds)
    for _ in range(1 + int(rng.random() * 4)):
        if not tape:
            break
        op = rng.random()
        i = int(rng.random() * len(tape))
        if op < 0.55:
            tape[i] = rng.randrange(bounds[i])
        elif op < 0.70:
            j = min(len(tape), i + 1 + int(rng.random() * 8))
            del tape[i:j], bounds[i:j]
        elif op < 0.85:
            j = min(len(tape), i + 1 + int(rng.random() * 8))
            tape[i:i] = tape[i:j]
            bounds[i:i] = bounds[i:j]
        else:
            other, ob = corpus[int(rng.random() * len(corpus))]
            if other:
                k = int(rng.random() * len(other))
                tape[i:] = other[k:]
                bounds[i:] = ob[k:]
    if rng.random() < 0.3 and tape:
        i = int(rng.random() * len(tape))
        del tape[i:], bounds[i:]
    return tape


def shrink(fn, tape, first, budget=4000, seconds=40.0):
    """Greedy tape shrinking; keeps any violation of the target."""
    ctx = Ctx()
    deadline = time.monotonic() + seconds
    best = list(tape)
    best_v = first
    seen = set()
    runs = 0

    def attempt(cand):
        nonlocal best, best_v, runs
        key = tuple(cand)
        if key in seen or runs >= budget or time.monotonic() > deadline:
            return False
        seen.add(key)
        runs += 1
        status, src, v = execute(fn, cand, None, ctx)
        if status != "violation":
            return False
        new = list(src.tape)
        while new and new[-1] == 0:
            new.pop()
        if (len(new), new) < (len(best), best):
            best, best_v = new, v
            return True
        return False

    attempt(best)
    improved = True
    while improved and runs < budget and time.monotonic() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                elif any(best[i:i + size]) and attempt(
                        best[:i] + [0] * min(size, len(best) - i) + best[i + size:]):
                    improved = True
                    i += size
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            while i < len(best) and best[i] > 0:
                v = best[i]
                for cand in (0, v // 2, v - 1):
                    if cand < v and attempt(best[:i] + [cand] + best[i + 1:]):
                        improved = True
                        break
                else:
                    break
    # re-run once more to get the message that belongs to the final tape
    status, src, v = execute(fn, best, None, ctx)
    if status == "violation":
        best_v = v
    return best, best_v, runs


def run_shard(args):
    (target_idx, shard, n, seed, deadline, prop) = args
    target = _TARGETS[target_idx]
    ctx = Ctx()
    res = {"target": target.name, "cases": 0, "discards": 0, "timeouts": 0, "truncated": False,
           "violation": None, "error": None}
    try:
        if target.exhaustive:
            # a shard of an exhaustive target takes seconds; one that hangs is inconclusive
            signal.setitimer(signal.ITIMER_REAL, SHARD_TIMEOUT)
            try:
                res["cases"] = target.fn(shard, target.shards, ctx)
            except Violation as v:
                res["violation"] = (None, v.message, v.detail, 0)
            except CaseTimeout:
                res["timeouts"] += 1
                res["truncated"] = True
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        else:
            _random_shard(target, shard, n, seed, deadline, ctx, res)
    except BaseException:
        res["error"] = traceback.format_exc()
    res["labels"] = ctx.labels
    res["checks"] = ctx.checks
    res["nontrivial"] = ctx.nontrivial_keys
    res["samples"] = ctx.samples
    res["excluded"] = ctx.excluded
    res["harness"] = ctx.harness
    res["harness_text"] = ctx.harness_text
    res["corpus"] = getattr(ctx, "corpus_size", 0)
    return res


def _random_shard(target, shard, n, seed, deadline, ctx, res):
    rng = _pyrandom.Random(f"{seed}:{target.name}:{shard}")
    corpus = []
    sample_at = {3, n // 3, n - 2} if shard % 8 == 0 else set()
    for i in range(n):
        if time.monotonic() > deadline:
            res["truncated"] = True
            break
        tape = ()
        if target.guided and corpus and rng.random() < 0.3:
            tape = mutate(rng, corpus)
        before = COV.count
        ctx.begin(i in sample_at)
        status, src, v = execute(target.fn, tape, rng, ctx)
        ctx.end(status == "ok")
        if status == "ok":
            res["cases"] += 1
        elif status in ("discard", "harness"):
            res["discards"] += 1
            if i in sample_at:
                sample_at.add(i + 1)
        elif status == "timeout":
            res["timeouts"] += 1
            if os.environ.get("VP_DEBUG"):
                print("TIMEOUT", target.name, json.dumps(src.tape), file=sys.stderr, flush=True)
            if res["timeouts"] > max(5, n // 100):
                res["truncated"] = True
                break
        else:
            res["cases"] += 1
            tape2, v2, runs = shrink(target.fn, src.tape, v)
            res["violation"] = (tape2, v2.message, v2.detail, runs)
            break
        if status != "timeout" and COV.count != before and len(src.tape) < 400 and len(corpus) < 400:
            corpus.append((tuple(src.tape), tuple(src.bounds)))
    ctx.corpus_size = len(corpus)


_TARGETS = []


def init_worker():
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(1500)
    COV.start(os.environ.get("VP_REPO", "/repo"))


def run_targets(targets, tier, seed, cap_seconds, prop, scale=1.0):
    global _TARGETS
    _TARGETS = targets
    deadline = time.monotonic() + cap_seconds
    jobs = []
    for ti, t in enumerate(targets):
        total = int((t.quick if tier == "quick" else t.thorough) * scale)
        if t.exhaustive:
            for sh in range(t.shards):
                jobs.append((ti, sh, 0, seed, deadline, prop))
        else:
            shards = min(t.shards, max(1, total))
            for sh in range(shards):
                n = total // shards + (1 if sh < total % shards else 0)
                jobs.append((ti, sh, n, seed, deadline, prop))
    jobs.sort(key=lambda job: not targets[job[0]].isolated)
    procs = max(1, min(os.cpu_count() or 1, len(jobs)))
    return Workers(procs, jobs, cap_seconds + 120).run()


def worker_main(conn, others):
    for other in others:
        other.close()
    init_worker()
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        res = run_shard(job)
        try:
            conn.send(res)
        except (BrokenPipeError, OSError):
            os._exit(0)
        except Exception:
            # something in the result cannot be sent
            conn.send({**res, "violation": jsonable_violation(res["violation"]),
                       "samples": [repr(x) for x in res["samples"]],
                       "error": res["error"] or traceback.format_exc()})


def jsonable_violation(v):
    if v is None:
        return None
    tape, message, detail, runs = v
    return tape, str(message), {k: repr(x) for k, x in detail.items()}, runs


class Workers:
    """Forked workers, each behind a pipe of its own: there is no lock that a worker which is
    killed (after a violation, or for want of memory) could leave taken."""

    def __init__(self, count, jobs, limit):
        self.mp = multiprocessing.get_context("fork")
        self.jobs = list(reversed(jobs))
        self.left = len(jobs)
        self.failed = {}                # job -> number of workers that died on it
        self.limit = time.monotonic() + limit
        self.busy = {}                  # connection -> (process, job)
        self.count = count

    def start(self):
        ours, theirs = self.mp.Pipe()
        proc = self.mp.Process(target=worker_main, args=(theirs, [ours, *self.busy]), daemon=True)
        proc.start()
        theirs.close()
        self.give(ours, proc)

    def give(self, conn, proc):
        job = self.jobs.pop()
        self.busy[conn] = (proc, job)
        conn.send(job)

    def lost(self, job, why):
        target_idx = job[0]
        return {"target": _TARGETS[target_idx].name, "cases": 0, "discards": 0, "timeouts": 0,
                "truncated": True, "violation": None, "error": why, "labels": Counter(),
                "checks": Counter(), "nontrivial": set(), "samples": [], "excluded": Counter(),
                "harness": 0, "harness_text": [], "corpus": 0}

    def run(self):
        results = []
        try:
            for _ in range(self.count):
                self.start()
            while self.busy:
                ready = connection.wait(list(self.busy), max(0.0, self.limit - time.monotonic()))
                if not ready:
                    for proc, job in self.busy.values():
                        results.append(self.lost(job, "no answer in time"))
                    return results
                for conn in ready:
                    proc, job = self.busy.pop(conn)
                    try:
                        res = conn.recv()
                    except (EOFError, OSError):
                        res = None
                    if res is None:
                        conn.close()
                        proc.join(5)
                        self.failed[job] = self.failed.get(job, 0) + 1
                        if self.failed[job] < 2:
                            self.jobs.append(job)
                        else:
                            results.append(self.lost(job, f"worker died ({proc.exitcode})"))
                        if self.jobs:
                            self.start()
                        continue
                    results.append(res)
                    if res["violation"]:
                        # let nothing else run: one minimal reproduction is enough
                        self.busy[conn] = (proc, job)
                        return results
                    if _TARGETS[job[0]].isolated:
                        conn.close()
                        if self.jobs:
                            self.start()
                    elif self.jobs:
                        self.give(conn, proc)
                    else:
                        self.busy[conn] = (proc, None)
                        conn.close()
                        del self.busy[conn]
            return results
        finally:
            for conn, (proc, _) in self.busy.items():
                proc.kill()


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)
