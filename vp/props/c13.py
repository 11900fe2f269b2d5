"""C13: unions, dict sums, make_required, aliases, indexing and iteration mean what their parts mean."""
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, rng
from ..model import conforms, sat, skey, spec_of, walk
from .c06 import merged

RULE = ("a case is a combination (union of 2-4 operands in any nesting and spelling; sum of 2-3 dict "
        "schemas; make_required; alias, nested and in containers; indexing and iteration) with values "
        "near each operand and the combination; the verdict must follow from the verdicts on the "
        "operands and from the reference model; non-trivial: distinct (combination, value) on which "
        "the operands disagree, or the combination and an operand disagree")

OPT = gen.Opt(sat=False, special=False, levels=20)
OPT_SAT = gen.Opt(sat=True, levels=20)


def near(spec, src):
    return gen.near_value(spec, src)[1]


def verdict(schema, v, **info):
    r = accepts(schema, v)
    if isinstance(r, Raised):
        raise Discard("C08's")
    return r


def generated(schema, src):
    """A generated value or None."""
    from d42 import fake
    if not sat(spec_of(schema), hereditary=True):
        return None
    with rng.controlled(src):
        r = call(fake, schema)
    return None if isinstance(r, Raised) else (r,)


# ------------------------------------------------------------------------------------------

def join(parts, src, d):
    """A union of (spec, schema) pairs, spelled and nested in some way; also its flat specs."""
    while len(parts) > 1:
        f = src.draw(4)
        if f == 0:
            (sa, a, fa), (sb, b, fb) = parts[0], parts[1]
            parts = [(f"{sa} | {sb}", call(lambda: a | b), fa + fb)] + parts[2:]
        elif f == 1:
            (sa, a, fa), (sb, b, fb) = parts[-2], parts[-1]
            parts = parts[:-2] + [(f"({sa} | {sb})", call(lambda: a | b), fa + fb)]
        else:
            n = src.integer(1, len(parts))
            group = parts[:n]
            parts = [(f"schema.any({', '.join(g[0] for g in group)})",
                      call(d.any, *[g[1] for g in group]),
                      [x for g in group for x in g[2]])] + parts[n:]
            if n == 1 and src.chance(70):
                continue
    return parts[0]


def case_union(src, ctx):
    from d42 import schema as d
    specs = []
    for _ in range(src.integer(2, 4)):
        s = gen.again(specs, src, OPT) if specs and src.chance(15) else \
            gen.gen_spec(src, depth=src.draw(3), opt=OPT)
        specs.append(s)
    if src.chance(25):
        specs.append(specs[0])
    memo = {} if src.chance(50) else None
    ops = [build(s, src, memo) for s in specs]
    text, u, _ = join([(to_src(s), o, gen.flat_any(s)) for s, o in zip(specs, ops)], src, d)
    if isinstance(u, Raised):
        raise Violation("a union of schemas was refused", union=text, got=repr(u))
    alts = [t for s in specs for t in gen.flat_any(s)]
    got = call(lambda: sorted(repr(skey(spec_of(x))) for x in u))
    if isinstance(got, Raised) or got != sorted(repr(skey(t)) for t in alts):
        raise Violation("iterating the union does not give its alternatives", union=text,
                        iterated=repr(call(lambda: list(u)))[:800],
                        expected=[to_src(t) for t in alts])
    vals = [near(src.pick(specs), src) for _ in range(4)]
    w = generated(u, src)
    if w:
        vals.append(w[0])
    for v in vals:
        parts = [verdict(o, v) for o in ops]
        got = verdict(u, v)
        ctx.check()
        if got != any(parts):
            raise Violation("the union does not accept exactly what its operands accept", union=text,
                            value=vsrc(v), union_accepts=got, operands=parts)
        want = conforms(S("any", types=alts), v)
        if want is not None and got != want:
            raise Violation("the union disagrees with the reference semantics", union=text,
                            value=vsrc(v), union_accepts=got)
        if len(set(parts)) > 1:
            ctx.nontrivial((text, vsrc(v)))
            ctx.label("operands disagree")
    if w and not any(verdict(o, w[0]) for o in ops):
        raise Violation("a value generated from the union is accepted by no operand", union=text,
                        value=vsrc(w[0]))
    if ctx.wants_sample:
        ctx.sample({"union": text[:300], "value": vsrc(v)[:200], "accepted": got})


# ------------------------------------------------------------------------------------------

def dict_spec(src, depth=1, pool=None):
    """pool: member specs of earlier operands, which may occur again."""
    f = src.draw(12)
    if f == 0:
        return S("dict")
    items = {}
    for _ in range(src.integer(0, 4)):
        # few keys, so that they collide
        key = src.pick(["a", "a", "b", "b", "c", "id", 1, True, None, (1, 2)]) if src.chance(80) \
            else gen.gen_key(src)
        if items and src.chance(20):
            key = gen.related_key(src, items)
        if pool and src.chance(35):
            member = gen.again(pool, src, OPT_SAT)
        else:
            member = gen.gen_spec(src, depth=src.draw(depth + 1), opt=OPT_SAT)
            if pool is not None:
                pool.append(member)
        items[key] = (member, src.chance(40))
    items = [(k, s, o) for k, (s, o) in items.items()]
    ell = src.draw(len(items) + 1) if src.chance(35) else None
    return S("dict", items=items, ell=ell)


def members(spec, schema, text):
    """d[key], keys() and iteration expose exactly what was declared."""
    items = spec.p.get("items", ())
    got = call(lambda: list(schema))
    want = [k for k, _, _ in items]
    if isinstance(got, Raised) or not same_keys([k for k in got if k is not ...], want):
        raise Violation("iteration does not give the declared keys", schema=text,
                        got=repr(got), expected=repr(want))
    got = call(lambda: list(schema.keys()))
    if isinstance(got, Raised) or not same_keys([k for k in got if k is not ...], want):
        raise Violation("keys() does not give the declared keys", schema=text,
                        got=repr(got), expected=repr(want))
    for k, s, _ in items:
        m = call(lambda: schema[k])
        if isinstance(m, Raised):
            raise Violation("a declared key cannot be indexed", schema=text, key=repr(k), got=repr(m))
        if skey(spec_of(m)) != skey(s):
            raise Violation("d[key] is not the declared member", schema=text, key=repr(k),
                            got=call(repr, m), expected=to_src(s))
    for k in ("no such key", ..., 12345, None, b"a"):
        if k is not ... and any(x == k for x in want):
            continue
        m = call(lambda: schema[k])
        if not isinstance(m, Raised) or not isinstance(m.exc, KeyError):
            raise Violation("indexing an undeclared key does not raise KeyError", schema=text,
                            key=repr(k), got=repr(m))


def same_keys(a, b):
    return len(a) == len(b) and all(any(eq_key(x, y) for y in b) for x in a)


def mix(vals, src):
    out = {}
    for v in src.shuffled(vals):
        if isinstance(v, dict):
            out.update(v)
    if out and src.chance(40):
        out.pop(src.pick(list(out)))
    return out


def case_sum(src, ctx):
    n = 2 if src.chance(75) else 3
    pool = []
    specs = [dict_spec(src, 1, pool) for _ in range(n)]
    if src.chance(6):
        specs[src.draw(n)] = gen.twin_spec(specs[0], src, OPT_SAT)
        if any(s.kind != "dict" for s in specs):
            raise Discard("another kind")
    memo = {} if src.chance(70) else None       # members may be one object in several operands
    ops = [build(s, None, memo) for s in specs]
    text = " + ".join(to_src(s) for s in specs)
    want = specs[0]
    for s in specs[1:]:
        want = merged(want, s)
    total = call(lambda: ops[0] + ops[1])
    if n == 3 and not isinstance(total, Raised):
        total = call(lambda: total + ops[2])
        right = call(lambda: ops[0] + (ops[1] + ops[2]))
        if not isinstance(right, Raised) and not isinstance(total, Raised):
            vs = [near(want, src) for _ in range(2)]
            for v in vs:
                if verdict(total, v) != verdict(right, v):
                    raise Violation("the sum depends on the grouping", sum=text, value=vsrc(v))
    if isinstance(total, Raised):
        raise Violation("a sum of dict schemas was refused", sum=text, got=repr(total))
    members(want, total, text)
    twin = build(want)
    vals = [near(want, src) for _ in range(3)] + [near(src.pick(specs), src)]
    try:
        vals.append(mix([gen.conf(s, src) for s in specs], src))
    except Discard:
        pass
    w = generated(total, src)
    if w:
        vals.append(w[0])
    for v in vals:
        got, model = verdict(total, v), conforms(want, v)
        ctx.check()
        if got != verdict(twin, v) or (model is not None and got != model):
            raise Violation("d1 + d2 does not accept what d1's keys overridden and extended by d2's "
                            "accept", sum=text, value=vsrc(v), accepts=got, expected=model,
                            errors=fmt_errors(errors_of(total, v)))
        parts = [verdict(o, v) for o in ops]
        if any(p != got for p in parts):
            ctx.nontrivial((text, vsrc(v)))
    ctx.label("sum:" + "+".join("relaxed" if s.has("ell") else "strict" if s.has("items") else "bare"
                                for s in specs[:2]))
    if set(k for k, _, _ in specs[0].p.get("items", ())) & set(
            k for k, _, _ in specs[1].p.get("items", ())):
        ctx.label("sum:override")
    if ctx.wants_sample:
        ctx.sample({"sum": text[:400], "value": vsrc(v)[:200], "accepted": got})


def case_required(src, ctx):
    from d42.utils import make_required
    spec = dict_spec(src)
    if src.chance(6):
        # many keys
        n = gen.gen_size(src, [9, 12, 17, 33, 65, 100])
        few = [gen.gen_spec(src, depth=0, opt=OPT_SAT) for _ in range(2)]
        key = src.pick([lambda i: f"k{i}", lambda i: i])
        spec = S("dict", items=[(key(i), src.pick(few), src.chance(60)) for i in range(min(n, 600))],
                 ell=n if src.chance(30) else None)
    schema = build(spec)
    text = to_src(spec)
    members(spec, schema, text)
    items = spec.p.get("items", ())
    declared = [k for k, _, _ in items]
    if src.chance(35):
        arg, keys = None, declared
        r = call(make_required, schema) if src.chance(50) else call(make_required, schema, None)
    else:
        keys = src.shuffled(src.subset(declared, src.pick([20, 50, 50, 90])))
        if keys and src.chance(10):
            keys = keys + [src.pick(keys)]
        arg = src.pick([list, tuple, set])(keys)
        r = call(make_required, schema, arg)
    if isinstance(r, Raised):
        raise Violation("make_required refused declared keys", schema=text, keys=repr(arg),
                        got=repr(r))
    vals = [near(spec, src) for _ in range(3)]
    try:
        v = gen.conf(spec, src)
        vals.append(v)
        full = dict(v)
        for k, s, _ in items:
            if k not in full:
                full[k] = gen.conf(s, src)
        vals.append(full)
        for k in src.shuffled(list(full))[:2 if len(full) < 9 else 6]:
            less = dict(full)
            less.pop(k)
            vals.append(less)
    except Discard:
        pass
    w = generated(r, src)
    if w:
        vals.append(w[0])
    for v in vals:
        base, got = verdict(schema, v), verdict(r, v)
        want = base and isinstance(v, dict) and all(k in v for k in keys)
        ctx.check()
        if got != want:
            raise Violation("make_required does not accept exactly the accepted values that have the "
                            "keys", schema=text, keys=repr(arg), value=vsrc(v), before=base, after=got)
        if base != got:
            ctx.nontrivial((text, repr(arg), vsrc(v)))
            ctx.label("required: now rejected")
    again = call(make_required, r, keys)
    if isinstance(again, Raised):
        raise Violation("make_required refuses its own result", schema=text, keys=repr(arg), got=repr(again))
    for v in vals:
        if verdict(again, v) != verdict(r, v):
            raise Violation("making the same keys required again changes what is accepted", schema=text,
                            keys=repr(arg), value=vsrc(v))
    members(spec, r, f"make_required({text}, {arg!r})")
    if ctx.wants_sample:
        ctx.sample({"schema": text[:300], "keys": repr(arg), "value": vsrc(v)[:200], "accepted": got})


def wrap(spec, src, how):
    if how == 1:
        return S("list", mode="typed", type=spec)
    if how == 2:
        return S("dict", items=[("a", spec, src.chance(40))], ell=1 if src.chance(30) else None)
    if how == 3:
        return S("any", types=[S("none"), spec])
    if how == 4:
        return S("list", mode="elements", elements=[spec, S("int")], head=True, tail=True)
    if how == 5:
        return S("alias", name="Outer", target=spec)
    return spec


def case_alias(src, ctx):
    spec = gen.gen_spec(src, depth=src.draw(3), opt=OPT)
    seed = src.draw(6)
    name = src.pick(["Alias", "", "a b", "é", "schema.int"])
    aliased = S("alias", name=name, target=spec)
    if src.chance(20):
        aliased = S("alias", name="Again", target=aliased)

    class Fixed:
        """Both wrappings draw the same."""
        def chance(self, num, den=100):
            return False
    a, b = wrap(aliased, Fixed(), seed), wrap(spec, Fixed(), seed)
    if seed == 3:
        b = S("any", types=[t for x in b.p["types"] for t in gen.flat_any(x)])
    sa, sb = build(a), build(b)
    vals = [near(b, src) for _ in range(4)]
    for schema in (sa, sb):
        w = generated(schema, src)
        if w:
            vals.append(w[0])
    for v in vals:
        got, want = verdict(sa, v), verdict(sb, v)
        ctx.check()
        if got != want:
            raise Violation("the alias does not accept exactly what its target accepts",
                            alias=to_src(a), value=vsrc(v), alias_accepts=got, target_accepts=want)
        model = conforms(b, v)
        if model is not None and got != model:
            raise Violation("the alias disagrees with the reference semantics", alias=to_src(a),
                            value=vsrc(v), alias_accepts=got)
        ctx.nontrivial((to_src(a), vsrc(v)))
    if ctx.wants_sample:
        ctx.sample({"alias": to_src(a)[:300], "value": vsrc(v)[:200], "accepted": got})


def targets():
    return [Target("union", case_union, 30000, 1200000),
            Target("sum", case_sum, 30000, 1200000),
            Target("required", case_required, 30000, 1000000),
            Target("alias", case_alias, 25000, 800000),
            Target("wide-union", gen.wide(case_union), 1500, 60000),
            Target("wide-sum", gen.wide(case_sum), 1500, 60000),
            Target("wide-required", gen.wide(case_required), 1500, 60000),
            Target("small-union", gen.small(case_union), 15000, 600000),
            Target("small-sum", gen.small(case_sum), 15000, 600000),
            Target("small-required", gen.small(case_required), 15000, 500000)]
