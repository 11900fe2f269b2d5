"""C17: after set_seed(k), the values are a function of k and the schemas."""
import atexit
import os
import pickle
import signal
import struct
import subprocess
import sys

from ..common import *          # noqa: F401,F403
from ..c17_worker import values as run_here
from ..engine import Target
from .. import gen, rx
from ..model import depth
from .pins import BASIC

RULE = ("a case is a seed and a sequence of schemas without unfixed uuid4, datetime or date, generated "
        "twice in this process (with other work in between) and once in each of three to eight "
        "interpreters with other hash seeds and settings (kept running, or fresh); non-trivial: the sequence of values "
        "changes when the seed does")
ASSUMPTIONS = ["the eight other interpreters stand for all hash seeds; they are CPython 3.12",
               "generation that raises must raise the same exception type at the same place"]

CONFIGS = [
    {"PYTHONHASHSEED": "1", "TZ": "Asia/Tokyo"},
    {"PYTHONHASHSEED": "31337", "PYTHONOPTIMIZE": "1", "PYTHONUTF8": "0", "LC_ALL": "C"},
    {"PYTHONHASHSEED": "4294967295", "PYTHONUTF8": "1"},
]
# an effect of one bit of a hash shows in half of the interpreters: many are needed to be sure
MORE = CONFIGS + [{"PYTHONHASHSEED": str(n), "TZ": tz, "PYTHONOPTIMIZE": opt} for n, tz, opt in
                  [(2, "UTC", "2"), (3, "America/New_York", ""), (77, "Asia/Kolkata", ""),
                   (1001, "UTC", "1"), (65537, "Pacific/Apia", "")]]


class Peer:
    def __init__(self, config):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        repo = os.environ.get("VP_REPO", "/repo")
        env.update(config, PYTHONDONTWRITEBYTECODE="1", VP_REPO=repo, PYTHONPATH=repo)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.proc = subprocess.Popen([sys.executable, os.path.join(here, "c17_worker.py")],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                     cwd="/")

    def send(self, data):
        self.proc.stdin.write(struct.pack("<Q", len(data)) + data)
        self.proc.stdin.flush()

    def read(self, n):
        buf = b""
        while len(buf) < n:
            part = self.proc.stdout.read(n - len(buf))
            if not part:
                raise EOFError("the other interpreter died")
            buf += part
        return buf

    def receive(self):
        n, = struct.unpack("<Q", self.read(8))
        return pickle.loads(self.read(n))

    def close(self):
        try:
            self.proc.kill()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc.wait()
        except Exception:
            pass


PEERS = []
OWNER = None


def drop_peers():
    global PEERS
    if OWNER == os.getpid():
        for p in PEERS:
            p.close()
    PEERS = []


def peers():
    global OWNER, PEERS
    if OWNER != os.getpid() or not PEERS:
        PEERS = [Peer(c) for c in MORE]
        OWNER = os.getpid()
        atexit.register(drop_peers)
    return PEERS


def ask(ps, seed, specs):
    data = pickle.dumps((seed, specs))
    try:
        for p in ps:
            p.send(data)
        return [p.receive() for p in ps]
    except BaseException:
        # out of step, or dead: start over next time
        drop_peers()
        raise


def strip(s):
    """No unfixed uuid4, datetime, date; no harness-only data."""
    p = {}
    for k, v in s.p.items():
        if k == "rx":
            continue
        if isinstance(v, S):
            v = strip(v)
        elif k in ("elements", "types"):
            v = [strip(x) for x in v]
        elif k == "items":
            v = [(key, strip(x), o) for key, x, o in v]
        p[k] = v
    if s.kind in ("uuid4", "datetime", "date") and "value" not in p:
        return S("int")
    return S(s.kind, **p)


def gen_seed(src):
    f = src.draw(8)
    if f == 0:
        return src.pick([0, 1, -1, 42, 2 ** 64, -2 ** 40, 10 ** 30])
    if f == 1:
        return gen.gen_text(src)
    if f == 2:
        return gen.gen_bytes(src)
    if f == 3:
        return gen.gen_float(src)
    if f == 4:
        return bytearray(gen.gen_bytes(src))
    return src.draw(1 << 32)


def pattern_spec(src):
    """Regexes are where draws depend on built-up alphabets."""
    f = src.draw(4)
    if f == 0:
        node = rx.gen_class(src, wide=src.chance(50))
        lo = 1 + src.draw(6)
        prog = rx.Prog(("rep", node, lo, None, False, "{%d,}" % lo), "", "")
    elif f == 1:
        return S("str", pattern=src.pick(
            [r"[^abc]+", r"[^\w]{5}", r"[^\d]{5}", r"\W{4}", r"\D{4}", r"\S{4}", r"\s{4}", r"[\W\d]{6}",
             r"[^\W\d]{6}", r"(a|b|c|d){8}", r"[^a]{3}|[^b]{3}|[^c]{3}", r"[a-zA-Z0-9_]{9}", r".{8}",
             r"[^\s]{4}", r"[^0-9a-fA-F]{6}", r"[\w]{7}", r"\w{3}-\d{3}", r"(?P<x>[^x]{4})\d*"]))
    else:
        prog = rx.gen_prog(src)
    if not rx.compiles(prog.pattern) or not rx.satisfiable(prog.node):
        raise Discard("pattern")
    return S("str", pattern=prog.pattern)


def noise(src, specs):
    """Work between the two runs that must not matter."""
    import random
    from d42 import fake, schema, validate
    f = src.draw(6)
    if f == 0:
        return "nothing"
    if f == 1:
        for s in (schema.uuid4, schema.datetime, schema.date, schema.str.regex(r"[^q]{3}"),
                  schema.list(schema.int), schema.any(schema.int, schema.str)):
            call(fake, s)
        return "fake others"
    if f == 2:
        random.seed()
        return "reseed the random module"
    if f == 3:
        for s in specs[:4]:
            sch = build(s)
            v = call(fake, sch)
            call(validate, sch, v)
            call(repr, sch)
            call(lambda: sch % v)
        return "validate, print and substitute"
    if f == 4:
        from d42.generation import Random
        Random().set_seed("other")
        return "another seed"
    keep = [object() for _ in range(src.draw(50))]
    del keep
    return "allocations"


def judge(seed, specs, src, ctx, ps, batch=False):
    texts = [to_src(s) for s in specs]
    info = dict(seed=repr(seed), schemas=texts + texts[:12][::-1])
    from d42.generation import Random
    if isinstance(call(Random().set_seed, seed), Raised):
        raise Discard("not a seed")
    schemas = [build(s) for s in specs]
    first = run_here(seed, specs, schemas)
    what = noise(src, specs)
    same = run_here(seed, specs, schemas)
    again = run_here(seed, specs)
    # the runs are compared before anything else can interfere
    def differ(a, b, msg, **kw):
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
            raise Violation(msg, seed=info["seed"], index=i,
                            schema=None if i is None else info["schemas"][i],
                            first=None if i is None else repr(a[i])[:300],
                            other=None if i is None else repr(b[i])[:300],
                            sequence=info["schemas"][:(i or 0) + 1][-6:], **kw)
        ctx.check()
    differ(first, same, "the same seed and schema objects gave other values in the same process",
           in_between=what)
    differ(first, again, "the same seed and schemas gave other values in the same process",
           in_between=what)
    for config, got in zip(MORE, ask(ps, seed, specs)):
        differ(first, got, "another interpreter gave other values", configuration=config)
    ctx.label("between:" + what)
    ctx.label("seed:" + type(seed).__name__)
    other = run_here("vp-other-seed", specs)
    if other != first:
        ctx.nontrivial((info["seed"], tuple(info["schemas"])))
    for s in specs:
        ctx.label("kind:" + s.kind)
    if ctx.wants_sample:
        ctx.sample({"seed": info["seed"], "schemas": info["schemas"][:8],
                    "values": [repr(x)[:80] for x in first[:8]]})


def one_spec(src, opt):
    if src.chance(30):
        s = pattern_spec(src)
        f = src.draw(4)
        if f == 1:
            return S("list", mode="typed", type=s, len=src.integer(0, 4))
        if f == 2:
            return S("dict", items=[("a", s, src.chance(50)), ("b", S("bool"), True)])
        if f == 3:
            return S("any", types=[s, S("float"), S("bytes")])
        return s
    return strip(gen.gen_spec(src, opt=opt))


def case(src, ctx):
    opt = gen.Opt(sat=not src.chance(10), special=src.chance(10))
    specs = []
    for _ in range(src.integer(1, 8)):
        try:
            specs.append(one_spec(src, opt))
        except Discard:
            pass
    if not specs:
        raise Discard("nothing")
    for s in specs:
        build(s)                # discards what the DSL refuses
    # three of the interpreters, for speed
    judge(gen_seed(src), specs, src, ctx, peers()[:3])


def case_fresh(src, ctx):
    """A long sequence, in interpreters that have done nothing else."""
    opt = gen.Opt(special=False)
    specs = [strip(s) for s, _ in BASIC] if src.chance(50) else []
    for _ in range(60):
        try:
            s = one_spec(src, opt)
            build(s)
        except Discard:
            continue
        specs.append(s)
        if len(src.tape) > 4000:
            break
    signal.setitimer(signal.ITIMER_REAL, 30)
    ps = [Peer(c) for c in MORE]
    try:
        judge(gen_seed(src), specs, src, ctx, ps)
    finally:
        for p in ps:
            p.close()


def case_repeat(src, ctx):
    """One schema many times over: a draw that goes wrong rarely shows in the length of the run."""
    simple = [S(k) for k in ("str", "bytes", "list", "dict", "any", "int", "float", "bool")]
    f = src.draw(4)
    if f < 2:
        spec = src.pick(simple)
    elif f == 2:
        spec = strip(gen.spec_of_kind(src.pick(["str", "bytes", "list", "dict", "any", "int", "float"]),
                                      src, 1, gen.Opt()))
    else:
        spec = one_spec(src, gen.Opt())
    build(spec)
    specs = [spec] * (150 if depth(spec) < 2 else 40)
    if src.chance(30):
        specs = specs[:60] + simple * 8
    judge(gen_seed(src), specs, src, ctx, peers())


def targets():
    return [Target("sequences", case, 16000, 400000),
            Target("repeat", case_repeat, 600, 15000),
            Target("fresh", case_fresh, 48, 2000)]
