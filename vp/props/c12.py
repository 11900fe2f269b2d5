"""C12: substitution fails with SubstitutionError only, its results are usable, and it is idempotent."""
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, rng, subst
from ..model import conforms, malformed, sat, skey, spec_of, walk
from .c10 import extra_zoo
from .pins import BASIC

RULE = ("a case is a schema (or an earlier substitution result) and any value: conforming, partial, "
        "perturbed, hostile (alone, injected anywhere, as a key), with `...` placeholders anywhere; "
        "usability of the result is judged when S is satisfiable in every part; non-trivial: a "
        "distinct (schema, value) pair that was substituted, or refused although v is not plain")
ASSUMPTIONS = ["cyclic and thousands-deep values are left out: they exhaust the interpreter's stack",
               "usability of a result is judged only if every part of S is satisfiable: "
               "substitution may make an optional part required"]


def hostile(src):
    f = src.draw(12)
    if f == 0:
        from d42 import schema as d
        return src.pick([d.int, d.str("a"), d.any, d.dict({"a": d.int}), d.list([...])])
    if f == 1:
        z = [x for x in extra_zoo() if x[0] not in ("cyclic", "deep")]
        return src.pick(z)[1]
    return gen.gen_hostile(src)[1]


def place_ellipsis(v, src):
    """Put `...` somewhere: as an element, as a dict value, as an entry."""
    path = src.pick(gen.positions(v))
    x = gen.get_at(v, path)
    f = src.draw(5)
    if type(x) is list and f < 3:
        i = src.pick([0, len(x), src.draw(len(x) + 1)])
        return gen.replace_at(v, path, x[:i] + [...] + x[i:])
    if type(x) is dict and f < 3:
        x = dict(x)
        if f == 0:
            x[...] = ...
        elif x and f == 1:
            x[src.pick(list(x))] = ...
        else:
            x[src.pick([..., gen.gen_key(src)])] = src.pick([..., 1])
        return gen.replace_at(v, path, x)
    return gen.replace_at(v, path, ...)


def check(spec, schema, v, src, ctx):
    """Returns the result or None."""
    from d42 import fake, substitute
    from d42.substitution.errors import SubstitutionError
    info = dict(schema=to_src(spec), value=safe(v))

    def bad(msg, **kw):
        raise Violation(msg, **info, **kw)
    R = call(substitute, schema, v)
    R2 = call(lambda: schema % v)
    if isinstance(R, Raised):
        if not isinstance(R.exc, SubstitutionError):
            bad("substitute raised something other than SubstitutionError", got=repr(R))
        if not isinstance(R2, Raised) or not isinstance(R2.exc, SubstitutionError):
            bad("% does not do what substitute does", substitute=repr(R), percent=repr(R2))
        text = call(str, R.exc)
        if not isinstance(text, str):
            bad("the SubstitutionError does not render", got=repr(text))
        ctx.check()
        ctx.label("refused")
        if not subst.is_plain(v):
            ctx.nontrivial((info["schema"], info["value"]))
        return None
    from d42.declaration import Schema
    if not isinstance(R, Schema):
        bad("substitute returned something that is not a schema", got=repr(R))
    rsrc = call(repr, R)
    if isinstance(R2, Raised) or skey(spec_of(R2)) != skey(spec_of(R)):
        bad("% does not do what substitute does", result=rsrc, percent=call(repr, R2))
    if isinstance(rsrc, Raised):
        bad("the result cannot be represented", got=repr(rsrc))
    rspec = spec_of(R)
    if malformed(rspec):
        bad("the result has `...` in place of a schema", result=rsrc)
    ctx.nontrivial((info["schema"], info["value"]))
    if all(sat(x) for x in walk(spec)):
        for _ in range(2):
            with rng.controlled(src):
                w = call(fake, R)
            if isinstance(w, Raised):
                bad("the result cannot be generated from", result=rsrc, got=repr(w))
            got = accepts(R, w)
            if got is not True:
                bad("the result does not accept what it generates", result=rsrc, generated=safe(w),
                    errors=fmt_errors(errors_of(R, w)) if got is False else repr(got))
            ctx.check()
    if subst.is_plain(v):
        again = call(substitute, R, v)
        if isinstance(again, Raised):
            bad("substituting the same value again fails", result=rsrc, got=repr(again))
        if call(lambda: again == R) is not True or call(lambda: again != R) is not False:
            bad("substituting the same value again gives an unequal schema", result=rsrc,
                again=call(repr, again))
        if skey(spec_of(again), ordered=False) != skey(rspec, ordered=False):
            bad("substituting the same value again gives another schema", result=rsrc,
                again=call(repr, again))
        ctx.check()
        ctx.label("idempotent")
    else:
        ctx.label("substituted, not plain")
    return R


def safe(v):
    try:
        return vsrc(v)[:1500]
    except RecursionError:
        return "<deep>"


def value(spec, src):
    f = src.draw(12)
    try:
        v = gen.conf(spec, src, partial=src.chance(45))
    except Discard:
        v = gen.gen_plain(src, 2)
    if f < 3:
        return v
    if f < 5:
        return gen.perturb(v, src)
    if f < 8:
        v = place_ellipsis(v, src)
        return place_ellipsis(v, src) if src.chance(30) else v
    if f < 10:
        return gen.inject(v, src, hostile(src))
    if f == 10:
        return hostile(src)
    return place_ellipsis(gen.inject(v, src, hostile(src)), src)


def case(src, ctx):
    spec = gen.gen_spec(src, opt=gen.Opt(sat=not src.chance(15), special=src.chance(20), huge=True,
                                         obj_keys=src.chance(20)))
    schema = build(spec, src)
    v = None
    for _ in range(3):
        v = value(spec, src)
        R = check(spec, schema, v, src, ctx)
        if R is not None and src.chance(50):
            rspec = spec_of(R)
            v2 = value(rspec, src)
            check(rspec, R, v2, src, ctx)
            ctx.label("second step")
    label_spec(ctx, spec)
    if ctx.wants_sample:
        ctx.sample({"schema": to_src(spec), "value": safe(v)[:300],
                    "substituted": R is not None})


def case_loose(src, ctx):
    """Untyped lists, dicts and any, where conversion and placeholders meet."""
    pool = [S("list"), S("list", len=2), S("list", min_len=1), S("list", max_len=1), S("any"),
            S("dict"), S("dict", items=[]), S("dict", items=[], ell=0), S("list", mode="typed",
                                                                          type=S("any")),
            S("list", mode="typed", type=S("dict")), S("list", mode="elements", elements=[],
                                                       head=True),
            S("any", types=[S("list"), S("dict")]),
            S("list", mode="elements", elements=[S("int"), S("list")], tail=True),
            S("list", mode="elements", elements=[S("dict")], head=True),
            S("list", mode="elements", elements=[S("any"), S("str")], head=True, tail=True),
            S("list", mode="elements", elements=[S("dict", items=[("a", S("int"), False),
                                                                  ("b", S("str"), True)])],
              head=True, tail=True),
            S("dict", items=[("a", S("list"), False), ("b", S("any"), True)], ell=2),
            S("any", types=[S("list", mode="typed", type=S("int")), S("list", len=2)])]
    spec = src.pick(pool)
    if src.chance(30):
        spec = S("dict", items=[("x", spec, src.chance(50)), ("y", src.pick(pool), False)])
    schema = build(spec, src)
    for _ in range(2):
        v = src.pick([lambda: gen.gen_plain(src, 2), lambda: [gen.gen_plain(src, 1)
                                                              for _ in range(src.integer(0, 3))],
                      lambda: {src.pick("abxy"): gen.gen_plain(src, 1)
                               for _ in range(src.integer(0, 3))},
                      lambda: value(spec, src)])()
        for _ in range(src.draw(3)):
            v = place_ellipsis(v, src)
        if src.chance(25):
            v = gen.inject(v, src, hostile(src))
        check(spec, schema, v, src, ctx)


def exhaustive(shard, nshards, ctx):
    from .c09 import _Seq
    n = 0
    bad = [x for x in gen.zoo() + extra_zoo() if x[0] not in ("cyclic", "deep")]
    specs = [s for s, _ in BASIC] + [S(k) for k in gen.KINDS_FLAT] + [S("list"), S("dict"), S("any")]
    for i, spec in enumerate(specs):
        if i % nshards != shard:
            continue
        for wrap in range(4):
            s = (spec, S("list", mode="typed", type=spec),
                 S("dict", items=[("a", spec, False), ("b", S("int"), True)]),
                 S("any", types=[S("none"), spec]))[wrap]
            schema = build(s)
            vals = [v for _, v in bad] + [w for b, ws in BASIC if b is spec for w in ws]
            for v in vals:
                v = ([v, v] if wrap == 1 else {"a": v} if wrap == 2 else v)
                check(s, schema, v, _Seq(f"{i}"), ctx)
                n += 1
    return n


def _probe(spec, value):
    """True while substitution returns a schema that accepts nothing."""
    def run():
        from d42 import fake, substitute
        r = call(substitute, build(spec), value)
        return not isinstance(r, Raised) and isinstance(call(fake, r), Raised)
    return run


_UNSAT = S("int", min=2, max=1)
PROBES = {
    "placeholder-unsat-optional": _probe(S("dict", items=[("a", _UNSAT, True)]), {"a": ...}),
    "partial-unsat-member": _probe(S("dict", items=[("a", _UNSAT, False)]), {}),
}


def targets():
    return [Target("pinned", exhaustive, 1, 1, exhaustive=True),
            Target("specs", case, 30000, 1200000),
            Target("loose", case_loose, 40000, 1000000),
            Target("deep", gen.deep(case), 2500, 120000),
            Target("wide", gen.wide(case), 4000, 200000),
            Target("small", gen.small(case), 30000, 1000000)]
