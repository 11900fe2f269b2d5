"""C15: equality is structural between schemas, validation against values."""
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen
from ..model import build as model_build, conforms, skey, spec_of, walk
from .c10 import extra_zoo
from .pins import BASIC

RULE = ("a case is a pool of a schema, an independent build, single-parameter variants and look-alikes "
        "(`...` against any, typed against exact, absent against trivial), compared pairwise and in "
        "triples, with values that tell them apart; and schema == value against validation; "
        "non-trivial: a distinct pair for which a separating value was found, or a pair that compares "
        "equal, or a distinct (schema, value) comparison")

OPT = gen.Opt(sat=False, special=True)


# ------------------------------------------------------------------------------------------
# single changes

def subst_node(spec, target, new):
    """spec with the node object `target` replaced (first occurrence)."""
    if spec is target:
        return new, True
    p = dict(spec.p)
    if spec.kind == "list":
        if p.get("mode") == "typed":
            p["type"], done = subst_node(p["type"], target, new)
            return S(spec.kind, **p), done
        els = list(p.get("elements", ()))
        for i, e in enumerate(els):
            els[i], done = subst_node(e, target, new)
            if done:
                p["elements"] = els
                return S(spec.kind, **p), True
        return spec, False
    if spec.kind == "dict":
        items = list(p.get("items", ()))
        for i, (k, s, o) in enumerate(items):
            s2, done = subst_node(s, target, new)
            if done:
                items[i] = (k, s2, o)
                p["items"] = items
                return S(spec.kind, **p), True
        return spec, False
    if spec.kind == "any":
        ts = list(p.get("types", ()))
        for i, t in enumerate(ts):
            t2, done = subst_node(t, target, new)
            if done:
                p["types"] = ts[:i] + gen.flat_any(t2) + ts[i + 1:]
                return S(spec.kind, **p), True
        return spec, False
    if spec.kind == "alias":
        p["target"], done = subst_node(p["target"], target, new)
        return S(spec.kind, **p), done
    return spec, False


def without(s, *names):
    return S(s.kind, **{k: v for k, v in s.p.items() if k not in names})


def change(s, src):
    """A variant of one node."""
    k, p = s.kind, s.p
    f = src.draw(12)
    if f == 0:
        return gen.gen_spec(src, depth=src.draw(2), opt=OPT)
    if f == 1:
        return src.pick([S("any"), S("alias", name="N", target=s), S("any", types=gen.flat_any(s)),
                         S("none"), S("list"), S("dict"), S("dict", items=[], ell=0),
                         S("list", mode="elements", elements=[], head=True)])
    if k in ("bool", "bytes", "uuid4", "datetime", "date"):
        if "value" in p and src.chance(30):
            return S(k)
        return S(k, value=gen.scalar_of(k, src))
    if k in ("int", "float"):
        n = src.pick(["min", "max", "value"] + (["precision"] if k == "float" else []))
        if n in p and src.chance(30):
            return without(s, n)
        if n == "precision":
            return s.with_(precision=src.integer(1, 15))
        base = p.get(n, p.get("value", p.get("min", p.get("max"))))
        if base is None or src.chance(30):
            v = gen.scalar_of(k, src, True)
        else:
            v = gen.tweak(base, src)
            if type(v) is not type(base):
                v = gen.scalar_of(k, src)
        if n == "value":
            return S(k, value=v, precision=p.get("precision"))
        return without(s, "value").with_(**{n: v})
    if k == "str":
        n = src.pick(["len", "min_len", "max_len", "alphabet", "substr", "pattern", "value"])
        if n in p and src.chance(40):
            return without(s, n, "rx")
        if n == "pattern":
            return S("str", pattern=src.pick(["a", "^a$", "b|a", "", "^ab?$", "[a-c]", "[a-b]"]))
        q = without(s, "pattern", "rx", "value", *(("len", "min_len", "max_len")
                                                   if n == "len" else ("len",) if "len" in n else ()))
        if n in ("alphabet", "substr", "value"):
            v = gen.tweak(p[n], src) if n in p else gen.gen_text(src)
            if not isinstance(v, str):
                v = "ab"
            return q.with_(**{n: v}) if n != "value" else S("str", value=v)
        return q.with_(**{n: max(0, p.get(n, 1) + src.integer(-1, 1))})
    if k == "list":
        mode = p.get("mode")
        g = src.draw(8)
        if g == 0:
            return without(s, "len", "min_len", "max_len")
        if g == 1:
            q = without(s, "len", "min_len", "max_len")
            return q.with_(**src.pick([{"len": src.draw(4)}, {"min_len": src.draw(3)},
                                       {"max_len": src.draw(4)}]))
        if mode == "elements":
            els = list(p["elements"])
            q = without(s, "len", "min_len", "max_len")
            i = src.draw(len(els) + 1)
            if g == 2:
                return _lst(q, els, not p.get("head"), p.get("tail"))
            if g == 3:
                return _lst(q, els, p.get("head"), not p.get("tail"))
            if g == 4:      # `...` traded for an element that accepts anything
                if p.get("head"):
                    return _lst(q, [S("any")] + els, False, p.get("tail"))
                if p.get("tail"):
                    return _lst(q, els + [S("any")], p.get("head"), False)
                if els and els[0].kind == "any":
                    return _lst(q, els[1:], True, False)
            if g == 5 and els:
                return _lst(q, els[:i] + els[i + 1:] if i < len(els) else els[:-1], p.get("head"),
                            p.get("tail"))
            if g == 6 and len(els) == 1:
                return S("list", mode="typed", type=els[0])
            if g == 7 and len(els) > 1:
                return _lst(q, src.shuffled(els), p.get("head"), p.get("tail"))
            return _lst(q, els[:i] + [gen.gen_spec(src, depth=0, opt=OPT)] + els[i:], p.get("head"),
                        p.get("tail"))
        if mode == "typed":
            return src.pick([S("list"), S("list", mode="elements", elements=[p["type"]]),
                             S("list", mode="elements", elements=[p["type"]], head=True),
                             S("list", mode="elements", elements=[], head=True)])
        return src.pick([S("list", mode="typed", type=S("any")), S("list", mode="elements", elements=[]),
                         S("list", mode="elements", elements=[], head=True),
                         S("list", mode="typed", type=S("int"))])
    if k == "dict":
        if "items" not in p:
            return S("dict", items=[], ell=0 if src.chance(50) else None)
        items = list(p["items"])
        g = src.draw(6)
        if g == 0:
            return S("dict", items=items, ell=None if "ell" in p else len(items))
        if g == 1 and items:
            i = src.draw(len(items))
            items[i] = (items[i][0], items[i][1], not items[i][2])
        elif g == 2 and items:
            items.pop(src.draw(len(items)))
        elif g == 3 and items:
            i = src.draw(len(items))
            new = gen.gen_key(src)
            if not any(new == x for x, _, _ in items):
                items[i] = (new, items[i][1], items[i][2])
        elif g == 4 and len(items) > 1:
            items = src.shuffled(items)
        else:
            new = gen.gen_key(src)
            if not any(new == x for x, _, _ in items):
                items.append((new, gen.gen_spec(src, depth=0, opt=OPT), src.chance(40)))
        ell = p.get("ell")
        return S("dict", items=items, ell=ell if ell is None else min(ell, len(items)))
    if k == "any":
        if "types" not in p:
            return S("any", types=[S("none"), S("int")])
        ts = list(p["types"])
        g = src.draw(4)
        if g == 0 and len(ts) > 1:
            ts.pop(src.draw(len(ts)))
        elif g == 1 and len(ts) > 1:
            ts = src.shuffled(ts)
        elif g == 2:
            ts.append(ts[src.draw(len(ts))])
        else:
            ts += gen.flat_any(gen.gen_spec(src, depth=0, opt=OPT))
        return S("any", types=ts)
    if k == "alias":
        return src.pick([p["target"], s.with_(name=p.get("name", "") + "2")])
    return S("bool")


def _lst(q, els, head, tail):
    if not els and (head or tail):
        head, tail = True, False
    return q.with_(mode="elements", elements=els).__class__(
        "list", **{**{k: v for k, v in q.p.items() if k not in ("head", "tail", "elements", "mode")},
                   "mode": "elements", "elements": els, "head": True if head else None,
                   "tail": True if tail else None})


def variant(spec, src):
    node = src.pick(list(walk(spec)))
    return subst_node(spec, node, change(node, src))[0]


# ------------------------------------------------------------------------------------------

def text(s):
    """A label of a case: its declaration, or how it was derived."""
    return s if isinstance(s, str) else to_src(s)


def eq(a, b, sa, sb):
    """a == b with its consistency checks."""
    r = call(lambda: a == b)
    if not isinstance(r, bool):
        raise Violation("== between schemas does not give a bool", left=text(sa), right=text(sb),
                        got=repr(r))
    for name, fn, want in (("b == a", lambda: b == a, r), ("a != b", lambda: a != b, not r),
                           ("b != a", lambda: b != a, not r)):
        got = call(fn)
        if got is not want:
            raise Violation(f"{name} is inconsistent with a == b", a=text(sa), b=text(sb),
                            equal=r, got=repr(got))
    return r


def placeholders(v, src):
    """`...` where substitution takes it."""
    path = src.pick(gen.positions(v))
    x = gen.get_at(v, path)
    if type(x) is list and x:
        f = src.draw(3)
        return gen.replace_at(v, path, ([...] if f == 1 else []) + x + ([...] if f != 1 else []))
    if type(x) is dict and x:
        return gen.replace_at(v, path, {**x, src.pick(list(x)): ...})
    return v


def derivation(src, last):
    """(text, function that derives a schema, values to look at); `last` is the previous one's
    parameters, so that neighbours differ in one of them."""
    from d42 import substitute
    from d42.utils import from_native, make_required
    if last is not None and src.chance(75):
        op, spec, v, w = last
        f = src.draw(3)
        if f == 0:
            spec = variant(spec, src)
        elif op in ("substitute", "from_native"):
            v = gen.perturb(v, src) if src.chance(60) else placeholders(v, src)
        elif op == "make_required":
            v = v[:-1]
        else:
            w = variant(w, src)
    else:
        op = src.weighted([(6, "substitute"), (1, "from_native"), (2, "+"), (2, "|"), (1, "make_required")])
        spec = gen.spec_dict(src, 2, OPT) if op in ("+", "make_required") else gen.gen_spec(
            src, opt=gen.Opt(sat=op == "substitute"))
        v = w = None
        if op == "substitute":
            v = gen.conf(spec, src, partial=True)
            if src.chance(40):
                v = placeholders(v, src)
        elif op == "from_native":
            v = gen.gen_plain(src, 2)
        elif op == "make_required":
            v = [k for k, _, _ in spec.p.get("items", ()) if src.chance(50)]
        else:
            w = gen.spec_dict(src, 2, OPT) if op == "+" else gen.gen_spec(src, 1, OPT)
    if op == "substitute":
        fn, shown = lambda: substitute(build(spec), v), f"{to_src(spec)} % {vsrc(v)}"
    elif op == "from_native":
        fn, shown = lambda: from_native(v), f"from_native({vsrc(v)})"
    elif op == "make_required":
        fn, shown = lambda: make_required(build(spec), v), f"make_required({to_src(spec)}, {vsrc(v)})"
    elif op == "+":
        fn, shown = lambda: build(spec) + build(w), f"{to_src(spec)} + {to_src(w)}"
    else:
        fn, shown = lambda: build(spec) | build(w), f"{to_src(spec)} | {to_src(w)}"
    return (op, spec, v, w), shown, fn


def case_derived(src, ctx):
    """Schemas that come out of operations, against declared and derived neighbours."""
    pool, last = [], None
    for _ in range(src.integer(2, 4)):
        last, shown, fn = derivation(src, last)
        a = call(fn)
        if isinstance(a, Raised):
            continue
        twin = call(fn)
        if isinstance(twin, Raised) or not eq(a, twin, shown, shown) or not eq(a, a, shown, shown):
            raise Violation("repeating an operation gives a schema that is not equal", schema=shown,
                            got=repr(twin) if isinstance(twin, Raised) else call(repr, twin))
        spec = spec_of(a)
        if model.malformed(spec):
            continue
        pool.append((spec, a, shown))
        for _ in range(2):
            t = variant(spec, src)
            b = call(model.build, t)
            if not isinstance(b, Raised):
                pool.append((t, b, to_src(t)))
    if not pool:
        raise Discard("nothing derived")
    vals = []
    for s, _, _ in pool:
        for _ in range(3):
            try:
                vals.append(gen.near_value(s, src)[1])
            except Discard:
                pass
    for i, (s, a, sa) in enumerate(pool):
        for t, b, sb in pool[i + 1:]:
            e = eq(a, b, sa, sb)
            ctx.check()
            for v in vals:
                x, y = conforms_safe(s, v), conforms_safe(t, v)
                if x is not None and y is not None and x != y:
                    ctx.nontrivial((sa, sb))
                    ctx.label("derived:separated")
                    if e:
                        raise Violation("schemas that accept different values are equal", a=sa, b=sb,
                                        accepted_by_one=vsrc(v))
            if e:
                ctx.label("derived:equal")
                ctx.nontrivial((sa, sb))
                for v in vals:
                    x, y = accepts(a, v), accepts(b, v)
                    if not isinstance(x, Raised) and x is not y:
                        raise Violation("equal schemas give different verdicts", a=sa, b=sb,
                                        value=vsrc(v))
    if ctx.wants_sample:
        ctx.sample({"schemas": [x[2][:200] for x in pool]})


def case(src, ctx):
    spec = gen.gen_spec(src, opt=OPT)
    specs = [spec]
    for _ in range(src.integer(1, 4)):
        specs.append(variant(src.pick(specs), src))
    built = []
    for s in specs:
        a = call(model.build, s)
        if not isinstance(a, Raised):
            built.append((s, a))
    if not built:
        raise Discard("build")
    vals = []
    for s, a in built:
        twin = build(s)
        if not eq(a, twin, s, s) or not eq(a, a, s, s):
            raise Violation("independent builds of the same declaration are not equal",
                            schema=to_src(s))
        ctx.check(2)
        for _ in range(3):
            vals.append(gen.near_value(s, src)[1])
    n = len(built)
    table = {}
    for i in range(n):
        for j in range(i, n):
            table[i, j] = table[j, i] = eq(built[i][1], built[j][1], built[i][0], built[j][0])
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if table[i, j] and table[j, k] and not table[i, k]:
                    raise Violation("== is not transitive", a=to_src(built[i][0]),
                                    b=to_src(built[j][0]), c=to_src(built[k][0]))
    for i in range(n):
        for j in range(i + 1, n):
            (s, a), (t, b) = built[i], built[j]
            if skey(s) == skey(t):
                if not table[i, j]:
                    raise Violation("equal declarations are not equal", a=to_src(s), b=to_src(t))
                continue
            ctx.check()
            sep = None
            for v in vals:
                x, y = conforms(s, v), conforms(t, v)
                if x is not None and y is not None and x != y:
                    sep = v
                    break
            if sep is not None:
                ctx.nontrivial((to_src(s), to_src(t)))
                ctx.label("separated:" + s.kind)
                if table[i, j]:
                    raise Violation("schemas that accept different values are equal", a=to_src(s),
                                    b=to_src(t), accepted_by_one=vsrc(sep))
            if table[i, j]:
                ctx.label("equal variants")
                ctx.nontrivial((to_src(s), to_src(t)))
                for v in vals:
                    if accepts(a, v) != accepts(b, v) and not isinstance(accepts(a, v), Raised):
                        raise Violation("equal schemas give different verdicts", a=to_src(s),
                                        b=to_src(t), value=vsrc(v))
    if ctx.wants_sample:
        ctx.sample({"schemas": [to_src(s)[:200] for s, _ in built], "equal pairs": sum(
            table[i, j] for i in range(n) for j in range(i))})


def compare(spec, schema, v, ctx):
    got, neg = call(lambda: schema == v), call(lambda: schema != v)
    want = accepts(schema, v)
    if isinstance(want, Raised):
        raise Discard("C08's")
    ctx.check()
    try:
        shown = vsrc(v)[:800]
    except RecursionError:
        shown = "<deep>"
    if got is not want or neg is not (not want):
        raise Violation("schema == value is not validation", schema=to_src(spec), value=shown,
                        eq=repr(got), ne=repr(neg), validates=want)
    ctx.nontrivial((to_src(spec), shown))
    if type(v) in (type(None), bool, int, float, str, bytes, list, dict):
        back, nback = call(lambda: v == schema), call(lambda: v != schema)
        if back is not want or nback is not (not want):
            raise Violation("value == schema is not validation", schema=to_src(spec), value=shown,
                            eq=repr(back), ne=repr(nback), validates=want)


def own_parts(schema):
    """Values that hold the declaration of the schema: its members, properties, class, text."""
    from d42 import optional
    props = schema.props
    out = [props, type(schema), [schema], (schema,), {"a": schema}, call(repr, schema), schema.type,
           [repr(schema)], {"type": schema}, {}, [], None]
    for name in list(props):
        x = props.get(name)
        out += [x, [x], {name: x}, name]
        if isinstance(x, (list, tuple)):
            out += [list(x), tuple(x), list(x)[::-1]]
        if isinstance(x, dict):
            out += [dict(x), {k: y[0] for k, y in x.items()}, list(x), [y[0] for y in x.values()],
                    {optional(k) if y[1] else k: y[0] for k, y in x.items()}, list(x.values())]
    from d42.declaration import Schema
    return [x for x in out if not isinstance(x, Schema)]


def case_values(src, ctx):
    spec = gen.gen_spec(src, opt=OPT)
    schema = build(spec, src)
    for _ in range(4):
        f = src.draw(7)
        if f == 6:
            # the schema's own declaration is a value too
            compare(spec, schema, src.pick(own_parts(schema)), ctx)
            continue
        if f < 4:
            v = gen.near_value(spec, src)[1]
        elif f == 4:
            v = gen.gen_hostile(src)[1]
        else:
            try:
                v = gen.inject(gen.conf(spec, src), src, gen.gen_hostile(src)[1])
            except Discard:
                continue
        compare(spec, schema, v, ctx)
        m = conforms_safe(spec, v)
        if m is not None and call(lambda: schema == v) is not m and gen_plain_only(v):
            raise Violation("schema == value disagrees with the reference semantics",
                            schema=to_src(spec), value=vsrc(v))
    if ctx.wants_sample:
        ctx.sample({"schema": to_src(spec)[:300], "value": vsrc(v)[:200]})


def gen_plain_only(v):
    from ..subst import is_plain
    return is_plain(v)


def conforms_safe(spec, v):
    try:
        return conforms(spec, v)
    except Exception:
        return None


def _look_alikes():
    """Hand-written families of near twins, compared pairwise."""
    A, I, I1, N = S("any"), S("int"), S("int", value=1), S("none")

    def L(els, head=None, tail=None, **p):
        return S("list", mode="elements", elements=els, head=head, tail=tail, **p)

    def T(t, **p):
        return S("list", mode="typed", type=t, **p)

    def D(*items, ell=None):
        return S("dict", items=[(k, s, o) for k, s, o in items], ell=ell)
    nan = float("nan")
    fam = [
        [S("list"), L([]), L([], head=True), L([A]), L([A], head=True), L([A], tail=True),
         L([A], head=True, tail=True), L([A, A]), L([A, A], head=True), T(A), T(I), L([I]),
         L([I], head=True), L([I], tail=True), L([I], head=True, tail=True), L([A, I]), L([I, A]),
         L([A, I, A]), S("list", len=0), S("list", len=1), S("list", min_len=1), S("list", max_len=1),
         S("list", min_len=1, max_len=1), T(A, len=1), T(I, len=1), L([I], len=1), L([I1]), L([N]),
         T(L([A])), T(L([], head=True)), L([S("list")]), L([T(A)]), L([I], tail=True, len=1),
         L([I], tail=True, min_len=1), L([I], tail=True, max_len=3), L([I], tail=True, len=3)],
        [S("dict"), D(), D(ell=0), D(("a", A, False)), D(("a", A, True)), D(("a", I, False)),
         D(("a", I, True)), D(("a", I, False), ell=0), D(("a", I, False), ell=1),
         D(("a", I, True), ell=1), D(("b", I, False)), D(("a", I, False), ("b", A, True)),
         D(("b", A, True), ("a", I, False)), D(("a", I, False), ("b", A, False)), D(("a", I1, False)),
         D((1, I, False)), D((True, I, False)), D((None, I, False)), D(("a", D(), False)),
         D(("a", D(ell=0), False)), D(("a", S("dict"), False)), D(("...", I, False))],
        [A, S("any", types=[A]), S("any", types=[I]), S("any", types=[I, N]), S("any", types=[N, I]),
         S("any", types=[I, I]), S("any", types=[I1, N]), I, N, S("alias", name="A", target=I),
         S("alias", name="B", target=I), S("alias", name="A", target=A), S("alias", name="A", target=N),
         S("any", types=[I, N, N]), S("alias", name="A", target=S("any", types=[I, N]))],
        [S("float"), S("float", value=nan), S("float", value=float("inf")), S("float", value=0.0),
         S("float", value=-0.0), S("float", value=1.0), S("float", value=1.0, precision=1),
         S("float", value=1.0, precision=2), S("float", min=1.0), S("float", max=1.0),
         S("float", min=1.0, max=1.0), S("float", precision=1), S("float", precision=2),
         S("float", min=float("-inf")), S("int", value=1), S("int", min=1), S("int", max=1),
         S("int", min=1, max=1), S("int"), S("bool"), S("bool", value=True), S("bool", value=False),
         S("int", value=0), S("int", value=True)],
        [S("str"), S("str", value=""), S("str", len=0), S("str", min_len=0), S("str", max_len=0),
         S("str", alphabet=""), S("str", substr=""), S("str", pattern=""), S("str", pattern="^$"),
         S("str", value="a"), S("str", substr="a"), S("str", pattern="a"), S("str", alphabet="a"),
         S("str", len=1), S("str", min_len=1), S("str", max_len=1), S("str", min_len=1, max_len=1),
         S("str", alphabet="ab"), S("str", alphabet="ba"), S("str", alphabet="a", len=1),
         S("str", alphabet="a", min_len=1), S("str", alphabet="a", substr="a"), S("bytes"),
         S("bytes", value=b""), S("bytes", value=b"a")],
        [S("date"), S("datetime"), *[s for s, _ in BASIC if s.kind in ("date", "datetime", "uuid4")],
         S("uuid4")],
    ]
    return fam


def exhaustive(shard, nshards, ctx):
    import datetime as dt
    n = 0
    vals = [None, True, False, 0, 1, 2, 0.0, -0.0, 1.0, 1.04, 1.06, 1.004, 1.006, float("nan"),
            float("inf"), "", "a", "b", "ab", "aa", "...", b"", b"a", [], [None], [1], [2], ["x"], [1, 1],
            [1, 2], [1, "x"], ["x", 1], ["x", 1, "y"], [1, 1, 1], [[]], [[1]], [{}], {}, {"a": 1},
            {"a": 2}, {"a": "x"}, {"b": 1}, {"a": 1, "b": 2}, {1: 1}, {None: 1}, {"a": {}},
            {"a": {"x": 1}}, {"...": 1}, {"a": "x", "b": 1}, dt.date(2020, 1, 1),
            dt.datetime(2020, 1, 1), -1, [1, 2, 3, 4]]
    vals += [w for _, ws in BASIC for w in ws]
    wraps = [lambda x: x, lambda x: S("list", mode="typed", type=x),
             lambda x: S("list", mode="elements", elements=[x, S("int")], tail=True),
             lambda x: S("dict", items=[("k", x, False)]),
             lambda x: S("dict", items=[("k", x, True)], ell=1),
             lambda x: S("any", types=[S("bytes", value=b"zz"), *gen.flat_any(x)]),
             lambda x: S("alias", name="W", target=x)]
    vwraps = [lambda v: v, lambda v: [v], lambda v: [v, 1], lambda v: {"k": v}, lambda v: {"k": v},
              lambda v: v, lambda v: v]
    for f, fam in enumerate(_look_alikes()):
        if f % nshards != shard % max(1, nshards):
            continue
        for wrap, vw in zip(wraps, vwraps):
            specs = [wrap(s) for s in fam]
            specs = [s for s in specs if not isinstance(call(model_build, s), Raised)]
            schemas = [build(s) for s in specs]
            twins = [build(s) for s in specs]
            table = [[conforms(s, vw(v)) for v in vals] for s in specs]
            for i in range(len(specs)):
                if not eq(schemas[i], twins[i], specs[i], specs[i]):
                    raise Violation("independent builds of the same declaration are not equal",
                                    schema=to_src(specs[i]))
                for v in vals:
                    compare(specs[i], schemas[i], vw(v), ctx)
                for j in range(len(specs)):
                    e = eq(schemas[i], schemas[j], specs[i], specs[j])
                    n += 1
                    ctx.check()
                    if i == j:
                        continue
                    sep = [v for v, x, y in zip(vals, table[i], table[j])
                           if x is not None and y is not None and x != y]
                    if sep and e:
                        raise Violation("schemas that accept different values are equal",
                                        a=to_src(specs[i]), b=to_src(specs[j]),
                                        accepted_by_one=vsrc(vw(sep[0])))
    return n


def case_long(src, ctx):
    """Long declarations that differ in one spot."""
    from d42 import schema
    from d42.utils import from_native
    v, w = gen.long_pair(src)
    makes = [("from_native(v)", from_native)]
    if isinstance(v, str) and isinstance(w, str):
        makes += [("schema.str.alphabet(v)", lambda x: schema.str.alphabet(x)),
                  ("schema.str.contains(v)", lambda x: schema.str.contains(x)),
                  ("schema.str.regex(v)", lambda x: schema.str.regex("^" + x.replace(".", "b") + "$"))]
    if isinstance(v, list) and isinstance(w, list) and len(v) > 1:
        makes += [("schema.any(*v)", lambda x: schema.any(*[from_native(y) for y in x]))]
    name, make = src.pick(makes)
    a, b, c = call(make, v), call(make, copy_plain(v)), call(make, w)
    if any(isinstance(x, Raised) for x in (a, b, c)):
        raise Discard("refused")
    info = dict(make=name, v=vsrc(v), w=vsrc(w))
    ctx.check(2)
    if not (call(lambda: a == b) is True and call(lambda: b == a) is True):
        raise Violation("independent builds of the same declaration are not equal", **info)
    same = call(lambda: a == c) is True or call(lambda: c == a) is True
    if name == "schema.str.alphabet(v)":
        if set(v) != set(w) and same:
            raise Violation("schemas that accept different values are equal", **info)
    elif name == "schema.str.regex(v)":
        if v.replace(".", "b") != w.replace(".", "b") and same:
            raise Violation("schemas that accept different values are equal", **info)
    elif same and (name != "schema.any(*v)" or any(accepts(a, x) is not accepts(c, x) for x in v + w)):
        raise Violation("schemas that accept different values are equal", **info)
    ctx.nontrivial((name, vsrc(v), vsrc(w)))


def targets():
    return [Target("lookalikes", exhaustive, 1, 1, exhaustive=True),
            Target("variants", case, 30000, 1200000),
            Target("values", case_values, 30000, 800000),
            Target("deep", gen.deep(case), 800, 50000),
            Target("long", case_long, 900, 40000),
            Target("wide", gen.wide(case), 1500, 100000),
            Target("small", gen.small(case), 15000, 600000),
            Target("small-values", gen.small(case_values), 15000, 600000),
            Target("derived", case_derived, 16000, 600000)]
