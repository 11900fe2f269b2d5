"""C07: histories of operations over a pool; nothing that exists ever changes."""
import collections
import decimal
import os
import pickle
import re
import signal

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen
from ..model import skey, spec_of, vkey, walk

RULE = ("a case is a history of 6-30 operations over a pool of schemas and caller-owned values "
        "(refinements, combinators, substitution, generation, validation, representation, indexing, "
        "iteration, mutation of previously passed or returned containers), after which every schema, "
        "value and earlier result is compared with its snapshot and a sample of operations is "
        "repeated; non-trivial: the history creates at least two schemas by operations")

OPT = gen.Opt(sat=False, random_kinds=False)
SEED = 20240229


def clean(spec):
    """No draws from the clock or the OS in seeded output."""
    return all(x.has("value") for x in walk(spec) if x.kind in ("uuid4", "datetime", "date"))


def scrub(text):
    """Addresses of unprintable objects differ between copies."""
    return re.sub(r"0x[0-9a-f]{8,}", "0x", text) if isinstance(text, str) else text


def canon(x):
    """Comparable image of the outcome of an operation."""
    from d42.declaration import Schema
    if isinstance(x, Raised):
        return ("raised", type(x.exc).__name__, scrub(call(str, x.exc)))
    if isinstance(x, Schema):
        return ("schema", skey(spec_of(x)), call(repr, x))
    if isinstance(x, (list, tuple)) and any(isinstance(i, Schema) for i in x):
        return tuple(canon(i) for i in x)
    if isinstance(x, list) and all(isinstance(i, str) for i in x):
        return ("texts", tuple(scrub(i) for i in x))
    return ("value", vkey(x))


HOSTILE = [(1, 2), {1, 2}, frozenset({1}), 1 + 2j, ..., int, len, range(3), bytearray(b"a"),
           decimal.Decimal("1.5"), float("nan"), float("inf"), 10 ** 5000, [...], {...: ...},
           gen.MyInt(3), gen.MyStr("abc"), gen.Opaque()]


def hostile(v, src):
    """Something that cannot be converted to a schema, somewhere inside v."""
    return gen.inject(v, src, src.pick(HOSTILE))


def with_default(v, src):
    """One of the dicts inside v becomes a defaultdict and loses a key."""
    spots = [p for p in gen.positions(v) if type(gen.get_at(v, p)) is dict]
    if not spots:
        return v
    path = src.pick(spots)
    d = collections.defaultdict(src.pick([list, dict, int, str]), gen.get_at(v, path))
    if d and src.chance(70):
        del d[src.pick(list(d))]
    return gen.replace_at(v, path, d)


def open_spec(src):
    """A schema that accepts members it does not name, inside unions and lists."""
    inner = [S("dict", items=[("a", gen.spec_of_kind(src.pick(["int", "str", "none", "bool"]), src, 0,
                                                     OPT), src.chance(40))], ell=1),
             S("dict"), S("list"), S("any"), S("dict", items=[], ell=0)]
    a, b = src.pick(inner), src.pick(inner)
    f = src.draw(6)
    if f == 0:
        return a
    if f == 1:
        return S("list", mode="typed", type=a)
    if f == 2:
        return S("list", mode="elements", elements=[a], head=True, tail=True)
    if f == 3:
        return S("dict", items=[("k", S("any", types=[a, b]), False)], ell=1)
    return S("any", types=[a, b] + ([S("int")] if f == 4 else []))


def render(result):
    from d42.validation import Formatter
    r = call(lambda: [e.format(Formatter()) for e in result.get_errors()])
    return scrub(repr(r))


class Pool:
    def __init__(self, src, ctx):
        self.src = src
        self.ctx = ctx
        self.schemas = []       # [schema, snapshot, probes, how]
        self.values = []        # caller-owned plain values
        self.results = []       # (ValidationResult, rendered)
        self.ops = []           # (name, thunk-maker, canon of outcome)
        self.live = []          # (name, thunk-maker, the arguments themselves)
        self.log = []
        self.made = 0

    def seeded(self, schema):
        from d42 import fake
        from d42.generation import Random
        Random().set_seed(SEED)
        return canon(call(fake, schema))

    def image(self, schema, probes):
        spec = spec_of(schema)
        verdicts = []
        for v in probes:
            errs = errors_of(schema, v)
            verdicts.append(repr(errs) if isinstance(errs, Raised) else
                            tuple(fmt_errors(errs)))
        out = (skey(spec), call(repr, schema), tuple(verdicts))
        if clean(spec):
            out += (self.seeded(schema),)
        return out

    def add(self, schema, how, probes=()):
        probes = [copy_plain(v) for v in probes] + [self.value() for _ in range(1)]
        probes = [copy_plain(v) for v in probes]
        self.schemas.append([schema, self.image(schema, probes), probes, how])

    def value(self):
        if self.values and self.src.chance(60):
            return self.src.pick(self.values)
        v = gen.gen_plain(self.src, 2)
        self.values.append(v)
        return v

    def near(self, schema):
        """A value that has to do with the schema."""
        try:
            v = gen.conf(spec_of(schema), self.src, partial=self.src.chance(30))
        except Discard:
            v = self.value()
        if self.src.chance(30):
            v = gen.perturb(v, self.src)
        if self.src.chance(10):
            v = hostile(v, self.src)
        if self.src.chance(15):
            v = with_default(v, self.src)
        self.values.append(v)
        return v

    def pick(self, kinds=None):
        pool = self.schemas
        if kinds:
            pool = [e for e in pool if type(e[0]).__name__ in kinds] or self.schemas
        return self.src.pick(pool)[0]

    def run(self, name, fn, *args):
        """fn(*args); args that are plain values are checked for mutation."""
        keep = [copy_plain(a) for a in args]
        before = [vkey(a) for a in args]
        out = call(fn, *args)
        for a, b in zip(args, before):
            if vkey(a) != b:
                raise Violation(f"{name} mutated a value passed in", argument=vsrc(a),
                                history=self.log)
        self.log.append(f"{name}({', '.join(vsrc(a)[:120] for a in args)})")
        self.ops.append((name, fn, keep, canon(out)))
        if any(type(a) in (list, dict) for a in args):
            self.live.append((name, fn, args))
        return out

    def check(self, when):
        for schema, snap, probes, how in self.schemas:
            now = self.image(schema, probes)
            self.ctx.check()
            if now != snap:
                part = ("structure", "repr", "verdicts", "seeded output")
                diff = [part[i] for i, (a, b) in enumerate(zip(snap, now)) if a != b]
                raise Violation(f"a schema changed ({', '.join(diff)}) {when}", schema=how,
                                before=repr(snap)[:700], after=repr(now)[:700], history=self.log)
        for result, text in self.results:
            if render(result) != text:
                raise Violation(f"an earlier validation result changed {when}", before=text,
                                after=render(result), history=self.log)


def refine(pool, src):
    from d42 import optional, schema as d
    s = pool.pick()
    k = type(s).__name__
    i = lambda: gen.gen_int(src) if src.chance(50) else src.integer(0, 4)   # noqa: E731
    junk = lambda: src.pick([None, "x", 1.5, [], object])                     # noqa: E731
    m, args = None, ()
    if k == "IntSchema":
        m = src.pick(["__call__", "min", "max"])
        args = (i(),)
    elif k == "FloatSchema":
        m = src.pick(["__call__", "min", "max", "precision"])
        args = (src.integer(1, 15),) if m == "precision" else (gen.gen_float(src),)
    elif k == "StrSchema":
        m = src.pick(["__call__", "len", "alphabet", "contains", "regex"])
        args = {"__call__": (gen.gen_text(src),), "alphabet": (gen.gen_text(src),),
                "contains": (gen.gen_text(src, 2),),
                "regex": (src.pick(["a", "[a-z]+", r"\d{2}", "(", "^x$"]),)}.get(m)
    elif k in ("BoolSchema", "BytesSchema"):
        m, args = "__call__", (src.chance(50),) if k == "BoolSchema" else (gen.gen_bytes(src),)
    elif k == "AnySchema":
        m = "__call__"
        args = tuple(pool.pick() for _ in range(src.integer(0, 3)))
    elif k == "ListSchema":
        m = src.pick(["__call__", "len"])
        els = [pool.pick() for _ in range(src.integer(0, 3))]
        if src.chance(30):
            els.insert(0, ...)
        if src.chance(30):
            els.append(...)
        args = (pool.pick(),) if src.chance(30) else (els,)
    elif k == "DictSchema":
        m = "__call__"
        keys = {}
        for _ in range(src.integer(0, 3)):
            key = gen.gen_key(src)
            keys[optional(key) if src.chance(30) else key] = pool.pick()
        if src.chance(20):
            keys[...] = ...
        args = (keys,)
    if m is None:
        return None
    if m == "len":
        args = src.pick([(src.integer(0, 4),), (src.integer(0, 3), ...), (..., src.integer(0, 5)),
                         (src.integer(0, 2), src.integer(2, 5))])
    if args and src.chance(8):
        args = (junk(),) + args[1:]
    base = s
    if src.chance(40) and k not in ("TypeAliasSchema",):
        base = type(s)()        # refinements of a fresh type mostly succeed
    owned = [a for a in args if type(a) in (list, dict)]
    shots = [(type(a), list(a) if type(a) is list else list(a.items())) for a in owned]
    out = call(getattr(base, m), *args)
    pool.log.append(f"{call(repr, base)}.{m}{call(repr, args)}")
    for a, (t, before) in zip(owned, shots):
        now = list(a) if t is list else list(a.items())
        if len(now) != len(before) or any(x is not y if t is list else
                                          (x[0] is not y[0] or x[1] is not y[1])
                                          for x, y in zip(now, before)):
            raise Violation("a declaration mutated its argument", history=pool.log)
    if owned and not isinstance(out, Raised) and src.chance(40):
        twice = call(getattr(base, m), *args)
        if canon(twice) != canon(out):
            raise Violation("declaring twice with the same container gives another schema",
                            history=pool.log)
    copies = tuple(list(a) if type(a) is list else dict(a) if type(a) is dict else a for a in args)
    pool.ops.append((m, lambda base=base, m=m, c=copies: getattr(base, m)(*c), [], canon(out)))
    if not isinstance(out, Raised):
        pool.made += 1
        pool.add(out, f"{call(repr, base)}.{m}{call(repr, args)}")
    # the caller goes on using its containers
    for a in owned:
        if src.chance(60):
            if type(a) is list:
                src.pick([a.clear, a.reverse, lambda: a.append(d.none),
                          lambda: a.insert(0, d.str("mutated"))])()
            else:
                src.pick([a.clear, lambda: a.update({"mutated": d.none}),
                          lambda: a.popitem() if a else None,
                          lambda: a.update({k: d.str("mutated") for k in list(a)[:1]
                                            if k is not ...})])()
            pool.log.append("caller mutates the container passed to the last declaration")
            fresh = tuple(list(x) if type(x) is list else dict(x) if type(x) is dict else x
                          for x in args)
            got, want = call(getattr(base, m), *args), call(getattr(base, m), *fresh)
            if canon(got) != canon(want):
                raise Violation("declaring with a container that was changed in place gives another "
                                "schema than with a copy of it", got=repr(canon(got))[:600],
                                want=repr(canon(want))[:600], history=pool.log)
    return out


def mutate_value(v, src):
    """Mutate a plain container in place, at any depth."""
    spots = [p for p in gen.positions(v) if type(gen.get_at(v, p)) in (list, dict)]
    if not spots:
        return False
    x = gen.get_at(v, src.pick(spots))
    if type(x) is list:
        f = src.draw(4)
        if f == 0 or not x:
            x.append("mutated")
        elif f == 1:
            x[src.draw(len(x))] = "mutated"
        elif f == 2:
            del x[src.draw(len(x))]
        else:
            x.clear()
    else:
        f = src.draw(4)
        if f == 0 or not x:
            x["mutated"] = 1
        elif f == 1:
            x[src.pick(list(x))] = "mutated"
        elif f == 2:
            del x[src.pick(list(x))]
        else:
            x.clear()
    return True


def step(pool, src):
    from d42 import fake, represent, substitute, validate, validate_or_fail
    from d42.utils import from_native, make_required
    op = src.weighted([(16, "refine"), (5, "union"), (5, "add"), (9, "subst"), (5, "validate"),
                       (2, "fail"), (4, "fake"), (2, "represent"), (4, "make_required"),
                       (3, "getitem"), (3, "iter"), (4, "from_native"), (2, "eq"), (12, "mutate"),
                       (2, "alias"), (2, "facade"), (2, "contains")])
    made = None
    if op == "refine":
        refine(pool, src)
        return
    if op == "mutate":
        if pool.values:
            v = src.pick(pool.values)
            if mutate_value(v, src):
                pool.log.append(f"caller mutates a value, now {vsrc(v)[:200]}")
        return
    s = pool.pick()
    if op == "union":
        t = pool.pick()
        made = pool.run("union", lambda: s | t)
    elif op == "add":
        s, t = pool.pick(("DictSchema",)), pool.pick(("DictSchema",))
        made = pool.run("add", lambda: s + t)
    elif op == "subst":
        v = pool.near(s)
        made = pool.run("substitute", lambda x: s % x if src_free else substitute(s, x), v)
    elif op == "validate":
        v = pool.near(s)
        # the result refers to the value: hand over a private copy, so that only the library could
        # change the result afterwards
        v = copy_plain(v)
        r = call(validate, s, v)
        if not isinstance(r, Raised):
            pool.results.append((r, render(r)))
        pool.run("validate", lambda x: render(validate(s, x)), copy_plain(v))
        return
    elif op == "fail":
        pool.run("validate_or_fail", lambda x: validate_or_fail(s, x), pool.near(s))
        return
    elif op == "fake":
        if clean(spec_of(s)):
            seed = src.draw(1000)

            def go():
                from d42.generation import Random
                Random().set_seed(seed)
                return ~s if seed % 2 else fake(s)
            out = pool.run("fake", go)
            if not isinstance(out, Raised):
                pool.values.append(out)     # the caller may mutate what it was given
        return
    elif op == "represent":
        pool.run("represent", lambda: represent(s))
        return
    elif op == "make_required":
        s = pool.pick(("DictSchema",))
        keys = None
        if src.chance(60) and type(s).__name__ == "DictSchema":
            keys = src.subset(list(s.keys()))
            if src.chance(10):
                keys.append("missing")
        kind = src.pick([list, tuple, set])
        arg = kind(keys) if keys is not None else None
        before = None if arg is None else (kind, list(arg))
        made = pool.run("make_required", lambda: make_required(s, None if before is None else
                                                              kind(before[1])))
        again = call(make_required, s, arg)
        if before is not None and (kind, list(arg)) != before:
            raise Violation("make_required mutated the keys passed in", history=pool.log,
                            keys=repr(before[1]), after=repr(list(arg)))
        if canon(again) != canon(made):
            raise Violation("make_required on equal inputs gives another result",
                            history=pool.log, keys=repr(arg))
    elif op == "getitem":
        s = pool.pick(("DictSchema",))
        if type(s).__name__ != "DictSchema":
            return
        keys = list(s.keys())
        k = src.pick(keys) if keys else "a"
        pool.run("getitem", lambda: s[k])
        return
    elif op == "iter":
        s = pool.pick(("DictSchema", "AnySchema"))
        if type(s).__name__ in ("DictSchema", "AnySchema"):
            out = pool.run("iter", lambda: list(s))
            if isinstance(out, list):
                out.clear()
        return
    elif op == "contains":
        s = pool.pick(("DictSchema",))
        if type(s).__name__ == "DictSchema":
            pool.run("contains", lambda: ("a" in s, len(list(s.keys()))))
        return
    elif op == "from_native":
        made = pool.run("from_native", from_native, pool.value())
    elif op == "eq":
        if src.chance(50):
            t = pool.pick()
            pool.run("eq", lambda: (s == t, s != t))
        else:
            pool.run("eq-value", lambda x: (s == x, s != x), pool.value())
        return
    elif op == "alias":
        from d42 import schema as d
        made = pool.run("alias", lambda: d.alias("X", s))
    elif op == "facade":
        from d42 import schema as d
        k = src.pick(["int", "str", "list", "dict", "any", "float", "none", "bool"])
        made = pool.run("facade", lambda: getattr(d, k))
    from d42.declaration import Schema
    if isinstance(made, Schema):
        pool.made += 1
        pool.add(made, pool.log[-1])


src_free = True     # `%` and substitute are the same operation


def case(src, ctx):
    from d42 import schema as d
    pool = Pool(src, ctx)
    for name in ("int", "str", "list", "dict", "any", "float"):
        if src.chance(40):
            pool.add(getattr(d, name), "schema." + name)
    for _ in range(src.integer(1, 4)):
        spec = open_spec(src) if src.chance(8) else gen.gen_spec(src, depth=src.draw(3), opt=OPT)
        try:
            probe = [gen.conf(spec, src)]
        except Discard:
            probe = []
        pool.add(build(spec, src), to_src(spec), probe)
    for _ in range(src.integer(6, 30)):
        if len(pool.schemas) > 25:
            break
        step(pool, src)
    pool.check("after the history")
    # equal inputs, equal results, whatever happened in between
    for _ in range(min(8, len(pool.ops))):
        name, fn, args, want = src.pick(pool.ops)
        got = canon(call(fn, *[copy_plain(a) for a in args]))
        ctx.check()
        if got != want:
            raise Violation(f"repeating {name} on equal inputs gives another result",
                            first=repr(want)[:600], now=repr(got)[:600], history=pool.log)
    # the same objects, changed in place, count for what they are now
    for _ in range(min(4, len(pool.live))):
        name, fn, args = src.pick(pool.live)
        call(fn, *args)
        if not mutate_value(src.pick([a for a in args if type(a) in (list, dict)]), src):
            continue
        want = canon(call(fn, *[copy_plain(a) for a in args]))
        got = canon(call(fn, *args))
        if got == want:
            call(fn, *args)
            mutate_value(src.pick([a for a in args if type(a) in (list, dict)]), src)
            got = canon(call(fn, *args))
            want = canon(call(fn, *[copy_plain(a) for a in args]))
        ctx.check()
        if got != want:
            raise Violation(f"{name} on a value that was changed in place gives another result than "
                            "on a copy of it", value=[vsrc(a) for a in args],
                            copy_gives=repr(want)[:600], it_gives=repr(got)[:600],
                            history=pool.log)
    pool.check("after repeating operations")
    ctx.label("made:" + str(min(pool.made, 12)))
    if pool.made >= 2:
        ctx.nontrivial(tuple(pool.log))
    if ctx.wants_sample:
        ctx.sample({"history": pool.log[:12]})


# ------------------------------------------------------------------------------------------
# orders: the outcome of an operation does not depend on what ran before it in the process

def perform(op):
    """One self-contained operation: (name, spec, ...)."""
    from d42 import fake, represent, schema, substitute, validate, validate_or_fail
    from d42.generation import Random
    from d42.utils import from_native, make_required, rollout
    from d42.validation import Formatter
    from ..model import build as make
    name, *args = op
    if name == "native":
        return from_native(copy_plain(args[0]))
    if name == "rollout":
        return rollout(copy_plain(args[0]))
    s = make(args[0])
    if name == "subst":
        return substitute(s, copy_plain(args[1]))
    if name == "mod":
        return s % copy_plain(args[1])
    if name == "validate":
        return [e.format(Formatter()) for e in validate(s, copy_plain(args[1])).get_errors()]
    if name == "fail":
        return validate_or_fail(s, copy_plain(args[1]))
    if name == "repr":
        return represent(s)
    if name == "indent":
        return represent(s, indent=args[1])
    if name == "eq":
        t = make(args[1])
        return [s == t, s != t]
    if name == "eqv":
        return [s == args[1], s != args[1]]
    if name == "add":
        return s + make(args[1])
    if name == "union":
        return s | make(args[1])
    if name == "required":
        return make_required(s, list(args[1]) if args[1] is not None else None)
    if name == "fake":
        Random().set_seed(args[1])
        return fake(s)
    if name == "loose":
        # consumes draws; the outcome is not compared
        call(fake, s)
        return None
    if name == "again":
        return schema.list(s) if args[1] else schema.alias("A", s)
    raise AssertionError(name)


def gen_ops(src):
    specs = []
    for _ in range(src.integer(1, 3)):
        spec = open_spec(src) if src.chance(20) else gen.gen_spec(src, depth=src.draw(4), opt=OPT)
        specs.append(spec)
        for _ in range(src.draw(3)):
            try:
                specs.append(gen.twin_spec(spec, src, OPT))
            except Discard:
                pass
    values = []
    for _ in range(src.integer(1, 3)):
        v = gen.gen_plain(src, src.draw(3))
        values += [v] + [gen.twin_value(v, src) for _ in range(src.draw(3))]
    for spec in list(specs):
        try:
            v = gen.conf(spec, src, partial=src.chance(40))
        except Discard:
            continue
        values.append(v)
        if src.chance(40):
            values.append(gen.twin_value(v, src))
        if src.chance(40):
            values.append(gen.perturb(v, src))
        if src.chance(25):
            values.append(hostile(v, src))
    ops = []
    for _ in range(src.integer(2, 24)):
        name = src.weighted([(3, "native"), (6, "subst"), (2, "mod"), (5, "validate"), (3, "fail"),
                             (3, "repr"), (1, "indent"), (3, "eq"), (2, "eqv"), (2, "add"),
                             (2, "union"), (3, "required"), (4, "fake"), (1, "loose"),
                             (1, "again"), (1, "rollout")])
        s = src.pick(specs)
        if name in ("add", "required"):
            s = src.pick([x for x in specs if x.kind == "dict"] or [s])
        if name == "native":
            ops.append((name, src.pick(values)))
        elif name == "rollout":
            ops.append((name, src.pick([{"a.b": 1, "a.c": 2}, {"a": {"b": 1}}, {"a.b.c": 0, "b": 1},
                                        {"a.b": True, "a.c": 0.0}])))
        elif name in ("subst", "mod", "validate", "fail", "eqv"):
            ops.append((name, s, src.pick(values)))
        elif name in ("eq", "add", "union"):
            t = src.pick([x for x in specs if x.kind == s.kind]) if src.chance(60) \
                else src.pick(specs)
            ops.append((name, s, t))
        elif name == "required":
            keys = [k for k, _, _ in s.p.get("items", [])] if s.kind == "dict" else []
            ops.append((name, s, src.subset(keys) if src.chance(70) else None))
        elif name == "fake":
            ops.append((name, s, src.draw(4)) if clean(s) else ("loose", s))
        elif name == "indent":
            ops.append((name, s, src.pick([0, 1, 2, 8])))
        elif name == "again":
            ops.append((name, s, src.chance(50)))
        else:
            ops.append((name, s))
    return ops


def in_child(ops, order):
    """Outcomes of the operations, run in this order in a process that has run none before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = [None] * len(ops)
            for i in order:
                out[i] = repr(canon(call(perform, ops[i])))
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        except BaseException:
            os._exit(1)
    os.close(w)
    try:
        with open(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        _, status = os.waitpid(pid, 0)
    if status or not data:
        raise RuntimeError(f"the child failed: {status}")
    return pickle.loads(data)


def show_op(op):
    return f"{op[0]}({', '.join(to_src(a) if isinstance(a, S) else vsrc(a)[:300] for a in op[1:])})"


def case_orders(src, ctx):
    ops = gen_ops(src)
    n = len(ops)
    first = list(range(n))
    second = first[::-1]
    if n > 2 and src.chance(25):
        second = src.shuffled(second)
    a, b = in_child(ops, first), in_child(ops, second)
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check()
        if x != y:
            j = second.index(i)
            raise Violation("the outcome of an operation depends on the operations before it",
                            operation=show_op(ops[i]),
                            after_these=[show_op(ops[k]) for k in first[:i]], gives=x[:900],
                            but_after_these=[show_op(ops[k]) for k in second[:j]],
                            it_gives=y[:900])
    ctx.label("ops:" + str(n // 4 * 4))
    raised = sum(x.startswith("('raised'") for x in a)
    ctx.label("raised:" + ("none" if not raised else "some" if raised < n else "all"))
    if n - raised >= 2:
        ctx.nontrivial(tuple(show_op(o) for o in ops))
    if ctx.wants_sample:
        ctx.sample({"operations": [show_op(o)[:300] for o in ops[:12]]})


# ------------------------------------------------------------------------------------------
# reentrant: operations in the middle of an operation, called by the hooks of a custom type

def case_reentrant(src, ctx):
    import random
    from d42 import fake, represent, substitute, validate
    from .c16 import custom_types, wrap
    log = custom_types()["Log"]
    spec = gen.gen_spec(src, depth=src.integer(1, 3), opt=OPT)
    tree = wrap(spec, src, src.pick([30, 60]))
    if not any(s.kind == "wrapped" for s in walk(tree)):
        tree = S("list", mode="typed", type=S("wrapped", target=tree, make=wrap(
            S("none"), gen_always(src), 100).p["make"]))
    custom = build(tree)
    if isinstance(custom, Raised):
        raise Discard("build")
    values = []
    for _ in range(3):
        v = gen.near_value(spec, src)[1]
        values.append([v, v] if tree.kind == "list" and spec.kind != "list" else v)
    other = [build(gen.twin_spec(spec, src, OPT)) if src.chance(30) else
             build(gen.gen_spec(src, depth=src.draw(3), opt=OPT)) for _ in range(2)]
    others = other + [custom]
    more = values + [gen.gen_plain(src, 2) for _ in range(2)]
    between = []
    for _ in range(src.integer(1, 3)):
        s, v = src.pick(others), src.pick(more)
        name, fn = src.pick([("validate", lambda s=s, v=v: errors_of(s, v)),
                             ("validate and render", lambda s=s, v=v: fmt_errors(errors_of(s, v))),
                             ("substitute", lambda s=s, v=v: substitute(s, copy_plain(v))),
                             ("repr", lambda s=s: represent(s)), ("fake", lambda s=s: fake(s)),
                             ("==", lambda s=s, v=v: (s == v, s == other[0])),
                             ("iter", lambda s=s: list(s))])
        between.append((name, s, v, fn))
    state = {"inside": False, "ran": 0}

    def busy():
        if state["inside"] or state["ran"] > 40:
            return
        state["inside"] = True
        kept = random.getstate()
        try:
            state["ran"] += 1
            for _, _, _, fn in between:
                call(fn)
        finally:
            random.setstate(kept)
            state["inside"] = False

    def outcome(x):
        if isinstance(x, Raised):
            return ("raised", type(x.exc).__name__, scrub(call(str, x.exc)))
        return x

    def sub(v):
        r = substitute(custom, copy_plain(v))
        random.seed(SEED)
        made = call(fake, r)
        return (repr(r), [fmt_errors(errors_of(r, w)) for w in values],
                ("raised", type(made.exc).__name__) if isinstance(made, Raised) else vkey(made))

    def seeded():
        random.seed(SEED)
        return [vkey(fake(custom)) for _ in range(2)]
    ops = [("represent", lambda: represent(custom))]
    if clean(spec):
        ops.append(("fake", seeded))
    for v in values:
        ops += [("validate", lambda v=v: render(validate(custom, v))),
                ("validate with its paths", lambda v=v: [repr(list(e.path)) for e in
                                                         validate(custom, v).get_errors()]),
                ("substitute", lambda v=v: sub(v) if clean(spec) else repr(substitute(custom, copy_plain(v)))),
                ("==", lambda v=v: (custom == v, custom != v))]
    for name, fn in ops:
        log.calls.clear()
        log.busy = None
        want = outcome(call(fn))
        log.busy = busy
        state["ran"] = 0
        try:
            got = outcome(call(fn))
        finally:
            log.busy = None
            log.calls.clear()
        ctx.check()
        if got != want:
            raise Violation(f"{name} gives another result when a custom member does something else while "
                            "it runs", schema=to_src(tree), values=[vsrc(v)[:300] for v in values],
                            in_between=[f"{n}: {call(repr, s)[:200]} {vsrc(v)[:100]}" for n, s, v, _ in between],
                            undisturbed=repr(want)[:700], disturbed=repr(got)[:700])
        if state["ran"]:
            ctx.label("disturbed:" + name)
            ctx.nontrivial((name, to_src(tree), vsrc(values[0])))
    # two iterations of one schema at a time
    for s in [*other, custom]:
        if type(s).__name__ in ("AnySchema", "DictSchema"):
            want = [id(x) for x in s]
            a, b, got = iter(s), iter(s), []
            for x in a:
                got.append(id(x))
                next(b, None)
                list(s)
            ctx.check()
            if got != want:
                raise Violation("an iteration is disturbed by another one of the same schema",
                                schema=call(repr, s))
    if ctx.wants_sample:
        ctx.sample({"schema": to_src(tree)[:300], "in between": [n for n, _, _, _ in between]})


class gen_always:
    """Wraps whatever is asked."""
    def __init__(self, src):
        self.src = src

    def __getattr__(self, name):
        return getattr(self.src, name)

    def chance(self, num, den=100):
        return True


def targets():
    return [Target("histories", case, 16000, 700000),
            Target("deep", gen.deep(case), 1000, 60000),
            Target("wide", gen.wide(case), 1000, 60000),
            Target("small", gen.small(case), 8000, 300000),
            Target("reentrant", case_reentrant, 6000, 250000),
            # a worker of its own per shard: nothing may have run in the process before the fork
            Target("orders", case_orders, 6000, 300000, shards=32, guided=False, isolated=True)]
