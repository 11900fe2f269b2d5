"""C05: whatever S % v accepts, S accepts."""
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, rng, subst
from ..model import conforms, malformed, sat, spec_of

RULE = ("a case is a schema S, a plain value v with R = S % v, and third values w (generated from R, "
        "conforming to R by construction, perturbations of those and of v, values near S); "
        "non-trivial: R accepted at least one w other than v")


def check(spec, schema, v, R, src, ctx, extra=()):
    from d42 import fake
    rspec = spec_of(R)
    if malformed(rspec):
        raise Discard("C12's")
    cands = [v, *extra]
    with rng.controlled(src):
        w = call(fake, R)
    if not isinstance(w, Raised):
        cands.append(w)
    for _ in range(2):
        try:
            cands.append(gen.conf(rspec, src))
        except Discard:
            pass
    cands.append(gen.near_value(spec, src)[1])
    for w in list(cands):
        for _ in range(2):
            cands.append(gen.perturb(w, src))
        if src.chance(20):
            cands.append(gen.perturb(gen.perturb(w, src), src))
    n = 0
    for w in cands:
        if accepts(R, w) is True:
            n += 1
            ctx.check()
            got = accepts(schema, w)
            if got is not True:
                raise Violation("S % v accepts a value that S rejects", schema=to_src(spec),
                                substituted=vsrc(v), result=call(repr, R), accepted=vsrc(w),
                                errors=fmt_errors(errors_of(schema, w))
                                if got is False else repr(got))
            if conforms(rspec, w) is True and conforms(spec, w) is False:
                raise Violation("S % v admits a value that does not conform to S",
                                schema=to_src(spec), substituted=vsrc(v), result=call(repr, R),
                                admitted=vsrc(w))
    ctx.label("accepted:" + str(min(n, 9)))
    label_spec(ctx, spec)
    if n > 1:
        ctx.nontrivial((to_src(spec), vsrc(v)))
    if ctx.wants_sample:
        ctx.sample({"schema": to_src(spec), "substituted": vsrc(v), "accepted": n})


def case(src, ctx):
    opt = gen.Opt(sat=not src.chance(10), special=src.chance(15))
    check(*subst.start(src, opt), src, ctx)


def case_floats(src, ctx):
    """The float tolerance next to bounds and to already fixed values."""
    from d42 import substitute
    import math
    base = gen.gen_float(src)
    prec = src.integer(1, 15) if src.chance(40) else None
    p = {"precision": prec}
    if src.chance(40):
        p["value"] = base
    if src.chance(50):
        p["min"] = src.pick([base, math.nextafter(base, -math.inf), base - abs(base) * 1e-10])
    if src.chance(50):
        p["max"] = src.pick([base, math.nextafter(base, math.inf), base + abs(base) * 1e-10])
    spec = S("float", **p)

    def near():
        w = base
        for _ in range(src.integer(0, 2)):
            w = src.pick([w * (1 + 9e-10), w * (1 - 9e-10), math.nextafter(w, math.inf),
                          math.nextafter(w, -math.inf), w * (1 + 4e-10),
                          w + 10.0 ** -(prec or 9) * 0.4, w - 10.0 ** -(prec or 9) * 0.4])
        return w
    schema = build(spec, src)
    v = near()
    if not math.isfinite(v):
        raise Discard("overflow")
    wrap = src.draw(4)
    if wrap == 1:
        spec, schema, v0 = S("dict", items=[("a", spec, src.chance(50))]), None, v
        v = {"a": v}
    elif wrap == 2:
        spec, schema = S("list", mode="typed", type=spec), None
        v = [v, near()]
    elif wrap == 3:
        spec, schema = S("any", types=[spec, S("none")]), None
    schema = schema or build(spec)
    R = call(substitute, schema, v)
    if isinstance(R, Raised):
        raise Discard("refused")
    extra = []
    for _ in range(6):
        w = near()
        extra.append({"a": w} if wrap == 1 else [w, near()] if wrap == 2 else w)
    check(spec, schema, v, R, src, ctx, extra)


def targets():
    return [Target("specs", case, 60000, 2500000),
            Target("floats", case_floats, 30000, 600000),
            Target("deep", gen.deep(case), 6000, 300000),
            Target("wide", gen.wide(case), 5000, 300000),
            Target("small", gen.small(case), 50000, 1500000)]
