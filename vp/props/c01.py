"""C01: every outcome of the random draws is a value that validates against its own schema."""
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, rng
from ..model import S, malformed, sat, spec_of
from .pins import BASIC, INF, _d, _l, pinned_target

RULE = ("a case is a satisfiable schema (DSL, `+`, `|`, or the result of a substitution) generated "
        "from under controlled draws (all minimal, all maximal, or any outcome per draw); "
        "non-trivial: the schema has a constraint or member, and at least one draw or fixed value "
        "decides the result")
ASSUMPTIONS = [
    "regex constraints use the constructs listed in C09; uuid4/datetime/date draws use the OS and clock",
    "`any` with an unsatisfiable alternative and unsatisfiable typed element schemas are excluded "
    "from the random search and tracked as known findings",
]


def describe(schema):
    t = call(repr, schema)
    return t if isinstance(t, str) else repr(t)


def draw_and_check(schema, src, ctx, mode=None, source=None):
    from d42 import fake
    with rng.controlled(src, mode) as ctl:
        v = call(fake, schema)
    ctx.check()
    if isinstance(v, Raised):
        if isinstance(v.exc, MemoryError):
            raise Discard("memory")
        raise Violation("fake raised for a satisfiable schema", schema=source or describe(schema),
                        got=repr(v), draws=ctl.n, mode=ctl.mode)
    errs = errors_of(schema, v)
    if isinstance(errs, Raised):
        raise Violation("validate raised for a generated value", schema=source or describe(schema),
                        value=vsrc(v), got=repr(errs))
    if errs:
        raise Violation("a generated value is rejected by its own schema",
                        schema=source or describe(schema), value=vsrc(v)[:2000],
                        errors=fmt_errors(errs), draws=ctl.n, mode=ctl.mode)
    ctx.label(f"mode:{ctl.mode}")
    return v


OPT = gen.Opt(sat=True, levels=30, unsat_optional=True)
OPT_SPECIAL = gen.Opt(sat=True, levels=30, special=True, unsat_optional=True)


def _run(src, ctx, spec, schema, n):
    vals = []
    for i in range(n):
        vals.append(draw_and_check(schema, src, ctx, source=to_src(spec)))
    label_spec(ctx, spec)
    if spec.p:
        ctx.nontrivial((to_src(spec), vsrc(vals[0])))
    if ctx.wants_sample:
        ctx.sample({"schema": to_src(spec), "values": [vsrc(v)[:300] for v in vals[:2]]})


def _opt(src):
    return OPT_SPECIAL if src.chance(15) else OPT


def case_specs(src, ctx):
    spec = gen.gen_spec(src, opt=_opt(src))
    if not sat(spec, hereditary=True):
        raise Discard("unsat")
    _run(src, ctx, spec, build(spec, src), 3)


def case_scalars(src, ctx):
    k = src.pick(["int", "float", "float", "str", "str", "str"])
    spec = gen.spec_of_kind(k, src, 0, _opt(src))
    if not sat(spec, hereditary=True):
        raise Discard("unsat")
    _run(src, ctx, spec, build(spec, src), 6)


def case_lists(src, ctx):
    """Every list form against every length constraint it can satisfy."""
    atoms = [S("int", value=1), S("int"), S("str", len=1), S("none"), S("bool"),
             S("list", mode="elements", elements=[S("int", value=1)], tail=True),
             S("dict", items=[("k", S("int"), True)])]
    form = src.pick(["plain", "typed", "exact", "head", "tail", "contains", "ell"])
    p = {}
    m = 0
    if form == "typed":
        p.update(mode="typed", type=src.pick(atoms))
    elif form != "plain":
        m = 0 if form == "ell" else src.integer(0 if form == "exact" else 1, 4)
        p.update(mode="elements", elements=[src.pick(atoms) for _ in range(m)])
        if form in ("tail", "contains", "ell"):
            p["head"] = True
        if form in ("head", "contains"):
            p["tail"] = True
    g = src.draw(5)
    extra = 0 if form == "exact" else src.pick([0, 1, 2, 3, 5, 10, 16, 17, 33, 40, 70])
    if g == 1:
        p["len"] = m + extra
    elif g == 2:
        p["min_len"] = m + extra if src.chance(70) else src.integer(0, m)
    elif g == 3:
        p["max_len"] = m + extra
    elif g == 4:
        hi = m + extra
        p.update(min_len=src.integer(0, hi), max_len=hi)
        if form == "exact":
            p["min_len"] = src.integer(0, m)
    spec = S("list", **p)
    if not sat(spec, hereditary=True):
        raise Discard("unsat")
    _run(src, ctx, spec, build(spec, src), 4)


def placeholders(v, src):
    """Put `...` where substitution documents it: list ends, dict values, relaxed dicts."""
    path = src.pick(gen.positions(v))
    x = gen.get_at(v, path)
    if type(x) is list and x:
        f = src.draw(3)
        return gen.replace_at(v, path, ([...] if f else []) + x + ([...] if f != 1 else []))
    if type(x) is dict and x:
        y = dict(x)
        y[src.pick(list(y))] = ...
        return gen.replace_at(v, path, y)
    return v


def case_substituted(src, ctx):
    from d42 import substitute
    from d42.substitution.errors import SubstitutionError
    spec = gen.gen_spec(src, opt=_opt(src))
    if not sat(spec, hereditary=True):
        raise Discard("unsat")
    schema = build(spec, src)
    steps = []
    for _ in range(src.integer(1, 2)):
        try:
            v = gen.conf(spec, src, partial=True)
        except Discard:
            raise Discard("conf")
        if src.chance(45):
            v = placeholders(v, src)
        r = call(substitute, schema, v)
        if isinstance(r, Raised):
            if isinstance(r.exc, SubstitutionError):
                continue
            raise Discard("substitution is C12's")
        schema = r
        steps.append(v)
        spec = spec_of(schema)
        if malformed(spec):
            raise Violation("substitution left `...` where a schema is needed",
                            schema=describe(schema), steps=[vsrc(x) for x in steps])
    if not steps:
        raise Discard("no substitution")
    # patterns read back have no AST; conf needs it only for further substitution
    if not sat(spec, hereditary=True):
        raise Discard("unsat result")
    for _ in range(3):
        v = draw_and_check(schema, src, ctx)
    ctx.label("substituted" + ("+placeholder" if any("..." in vsrc(x) for x in steps) else ""))
    ctx.nontrivial((describe(schema), vsrc(v)))
    if ctx.wants_sample:
        ctx.sample({"result": describe(schema), "substituted": [vsrc(x) for x in steps]})


def case_combined(src, ctx):
    """Dict merges and unions of schemas that are themselves combined."""
    from d42 import schema
    from d42.utils import make_required
    opt = _opt(src)
    f = src.draw(3)
    if f == 0:
        a, b = gen.spec_dict(src, 2, opt), gen.spec_dict(src, 2, opt)
        r = build(a, src) + build(b, src)
        txt = f"{to_src(a)} + {to_src(b)}"
    elif f == 1:
        a, b = gen.gen_spec(src, 1, opt), gen.gen_spec(src, 1, opt)
        r = build(a, src) | build(b, src)
        if src.chance(50):
            r = schema.list(r).len(src.integer(0, 5), ...)
        txt = describe(r)
    else:
        a = gen.spec_dict(src, 2, opt)
        r = make_required(build(a, src))
        txt = f"make_required({to_src(a)})"
    if not sat(spec_of(r), hereditary=True):
        raise Discard("unsat")
    for _ in range(3):
        v = draw_and_check(r, src, ctx, source=txt)
    ctx.nontrivial((txt, vsrc(v)))
    if ctx.wants_sample:
        ctx.sample({"schema": txt, "value": vsrc(v)[:300]})


# corners, each under the extreme outcomes of the draws and under 40 pseudo-random ones
CORNERS = [s for s, _ in BASIC] + [
    S("int", min=2 ** 63), S("int", max=-2 ** 63), S("int", min=-2 ** 70, max=-2 ** 69),
    S("int", min=0, max=0), S("int", min=2 ** 31), S("int", max=-2 ** 31 - 1),
    S("float", min=1e10), S("float", max=-1e10), S("float", min=0.1, max=0.3),
    S("float", min=0.1, max=0.3, precision=1), S("float", min=0.15, max=0.16, precision=1),
    S("float", min=1.001, max=1.009, precision=2), S("float", min=0.0, max=5e-324),
    S("float", min=-INF, max=INF), S("float", min=INF), S("float", max=-INF),
    S("float", min=-1.7e308, max=1.7e308), S("float", precision=1), S("float", precision=15),
    S("float", min=1e16, max=1e16 + 2, precision=3), S("float", min=-0.05, max=0.05, precision=1),
    S("str", min_len=33), S("str", min_len=64), S("str", len=100), S("str", max_len=0),
    S("str", alphabet="a", min_len=40), S("str", substr="x" * 40), S("str", substr="ab", len=2),
    S("str", substr="ab", max_len=3), S("str", substr="ab", min_len=40),
    S("str", alphabet="ab", substr="ba", len=5), S("str", alphabet=""),
    S("str", alphabet="", max_len=3), S("str", substr="", len=0),
    S("list", min_len=17), S("list", len=40), S("list", max_len=0),
    S("list", mode="typed", type=S("int"), min_len=20),
    S("list", mode="typed", type=S("int"), len=0),
    _l([S("int")], head=True, len=5), _l([S("int")], tail=True, min_len=1),
    _l([S("int"), S("str")], head=True, tail=True, len=2),
    _l([S("int")], head=True, tail=True, min_len=3, max_len=4), _l([], head=True, len=3),
    _d(("a", S("int"), True), ("b", S("str", len=3), True), ell=1),
    _d(("a", S("int", min=2, max=1), True), ("b", S("int", min=2, max=1), True)),
    _d(("a", S("int", min=2, max=1), True), ("b", S("int"), False), ell=2),
    S("any", types=[S("int", min=2 ** 63), S("str", min_len=50)]),
]


def corners(shard, nshards, ctx):
    import random
    from ..engine import Source
    n = 0
    for spec in CORNERS:
        if not sat(spec, hereditary=True):
            continue
        try:
            schema = build(spec)
        except Discard:
            continue
        for mode in [1, 2] + [3] * 10 + [0] * 30:
            draw_and_check(schema, Source(rng=random.Random(n)), ctx, mode, to_src(spec))
            n += 1
    return n


def _probe(spec, value=None):
    """True while the finding is there: some draw raises or gives a non-conforming value."""
    def run():
        import random
        from ..engine import Ctx, Source
        schema = build(spec)
        for i in range(30):
            try:
                draw_and_check(schema, Source(rng=random.Random(i)), Ctx(), (1, 2, 0)[i % 3])
            except Violation:
                return True
        return False
    return run


UNSAT = S("int", min=2, max=1)
PROBES = {
    "any-unsat-alternative": _probe(S("any", types=[S("int"), UNSAT])),
    "typed-unsat-element": _probe(S("list", mode="typed", type=UNSAT)),
}


def targets():
    return [Target("corners", corners, 0, 0, shards=1, exhaustive=True),
            Target("specs", case_specs, 30000, 1500000),
            Target("scalars", case_scalars, 40000, 2000000),
            Target("lists", case_lists, 20000, 600000),
            Target("substituted", case_substituted, 20000, 800000),
            Target("combined", case_combined, 10000, 400000),
            Target("deep", gen.deep(case_specs), 6000, 300000),
            Target("wide", gen.wide(case_specs), 6000, 300000),
            Target("small", gen.small(case_specs), 15000, 800000)]
