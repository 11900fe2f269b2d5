"""C04: substitution pins the value."""
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, rng, subst
from ..model import conforms, malformed, sat, spec_of, walk
from ..subst import carries, contains_lists, expand, keeps, slack

RULE = ("a case is a satisfiable schema S (possibly itself a substitution result) and a plain value "
        "v, complete or partial, for which R = S % v succeeds; non-trivial: v pins data at a "
        "non-root position, or S has constraints")
ASSUMPTIONS = ["equality of floats is up to the documented tolerance, widened by a declared precision"]


def check(spec, schema, v, R, src, ctx):
    from d42 import fake
    info = dict(schema=to_src(spec), value=vsrc(v))
    rsrc = call(repr, R)
    rspec = spec_of(R)
    if malformed(rspec):
        raise Violation("the result is not usable: `...` in place of a schema", result=rsrc, **info)
    eps = slack(spec)
    full = conforms(spec, v)
    if full is True:
        got = accepts(R, v)
        if got is not True:
            raise Violation("v conforms to S but S % v does not accept it", result=rsrc,
                            got=repr(got), errors=fmt_errors(errors_of(R, v)), **info)
    why = keeps(spec, v, rspec)
    if why:
        raise Violation(f"not kept: {why}", result=rsrc, **info)
    cands = []
    for _ in range(2):
        with rng.controlled(src) as ctl:
            w = call(fake, R)
        if isinstance(w, Raised):
            raise Violation("the result cannot be generated from", result=rsrc, got=repr(w), **info)
        why = carries(v, w, eps)
        if why:
            raise Violation(f"a generated value does not carry the substituted data: {why}",
                            result=rsrc, generated=vsrc(w), **info)
        ctx.check()
        cands.append(w)
    if full is not True and not contains_lists(spec):
        try:
            w = expand(spec, v, src)
        except Discard:
            w = v
        if conforms(spec, w) is True and carries(v, w, 0.0) is None:
            got = accepts(R, w)
            if got is not True:
                raise Violation("v completed with conforming values for the unspecified keys is "
                                "not accepted", result=rsrc, completed=vsrc(w),
                                errors=fmt_errors(errors_of(R, w)), **info)
            ctx.label("completed")
            cands.append(w)
    cands.append(v)
    for w in list(cands):
        for _ in range(2):
            cands.append(gen.perturb(w, src))
    n = 0
    for w in cands:
        if accepts(R, w) is True:
            n += 1
            why = carries(v, w, eps)
            if why:
                raise Violation(f"an accepted value does not carry the substituted data: {why}",
                                result=rsrc, accepted=vsrc(w), **info)
            ctx.check()
    ctx.label("accepted:" + str(min(n, 9)))
    ctx.label("v:" + ("conforming" if full is True else "partial"))
    label_spec(ctx, spec)
    if spec.p or isinstance(v, (list, dict)):
        ctx.nontrivial((to_src(spec), vsrc(v)))
    if ctx.wants_sample:
        ctx.sample({**info, "result": rsrc})




OPT = gen.Opt(sat=True, levels=20)
OPT_SPECIAL = gen.Opt(sat=True, levels=20, special=True)


def case(src, ctx):
    spec, schema, v, R = subst.start(src, OPT_SPECIAL if src.chance(15) else OPT)
    if not sat(spec, hereditary=True):
        raise Discard("unsat")
    check(spec, schema, v, R, src, ctx)


def case_full(src, ctx):
    spec, schema, v, R = subst.start(src, OPT, partial=False)
    if not sat(spec, hereditary=True):
        raise Discard("unsat")
    check(spec, schema, v, R, src, ctx)


def case_lists(src, ctx):
    """List windows: several positions fit."""
    from d42 import substitute
    atoms = [S("int"), S("int", value=1), S("int", min=2), S("str"), S("any"),
             S("any", types=[S("int", value=1), S("str")]),
             S("dict", items=[("k", S("int"), False), ("o", S("str"), True)]),
             S("dict", items=[("k", S("int"), False)], ell=1)]
    m = src.integer(1, 3)
    spec = S("list", mode="elements", elements=[src.pick(atoms) for _ in range(m)],
             head=True if src.chance(60) else None, tail=True if src.chance(60) else None)
    if src.chance(20):
        spec = S("list", mode="typed", type=src.pick(atoms))
    pool = [1, 2, 3, "a", None, {"k": 1}, {"k": 2, "o": "x"}, {"k": 3, "z": 1}, {}]
    v = [src.pick(pool) for _ in range(src.integer(0, 4))]
    if src.chance(50):
        v = gen.conf(spec, src, partial=src.chance(40))
    if not subst.is_plain(v):
        raise Discard("not plain")
    schema = build(spec)
    R = call(substitute, schema, v)
    if isinstance(R, Raised):
        raise Discard("refused")
    check(spec, schema, v, R, src, ctx)


def case_long(src, ctx):
    """Long values: the result must not accept one that differs in one spot."""
    from d42 import substitute
    v, w = gen.long_pair(src)
    spec = gen.open_for(v, src)
    schema = build(spec)
    R = call(substitute, schema, copy_plain(v))
    info = dict(schema=to_src(spec), value=vsrc(v))
    if isinstance(R, Raised):
        raise Discard("refused")
    if conforms(spec, v) is True and accepts(R, v) is not True:
        raise Violation("the result does not accept the value", **info)
    ctx.check()
    if accepts(R, w) is True and carries(v, w, 0.0):
        raise Violation(f"an accepted value does not carry the substituted data: {carries(v, w, 0.0)}",
                        accepted=vsrc(w), **info)
    ctx.nontrivial((to_src(spec), vsrc(v), vsrc(w)))


def targets():
    return [Target("specs", case, 50000, 2000000),
            Target("complete", case_full, 25000, 800000),
            Target("lists", case_lists, 20000, 600000),
            Target("deep", gen.deep(case), 6000, 300000),
            Target("long", case_long, 3000, 100000),
            Target("wide", gen.wide(case), 5000, 300000),
            Target("small", gen.small(case), 40000, 1500000)]
