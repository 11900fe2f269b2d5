"""C02: the verdict of validate equals the reference semantics."""
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen
from ..model import S, conforms, to_src, vsrc, walk, depth
from .pins import BASIC, pinned_target

RULE = ("a case is a schema spec (any kind, nested) built through the DSL with a value that "
        "conforms by construction, is a one- or two-step perturbation of such a value, or is "
        "unrelated; non-trivial: the spec declares at least one constraint, member or fixed value")


def check(spec, schema, value, ctx, how):
    want = conforms(spec, value)
    got = accepts(schema, value)
    if isinstance(got, Raised):
        raise Violation("validate raised", schema=to_src(spec), value=vsrc(value), got=repr(got))
    ctx.check()
    if want is None:
        ctx.label("verdict:tolerance-band")
        return
    ctx.label(f"{how}:{'accept' if want else 'reject'}")
    if got != want:
        raise Violation(
            "validate accepts a value that does not conform" if got else
            "validate rejects a value that conforms", schema=to_src(spec), value=vsrc(value),
            errors=[] if got else fmt_errors(errors_of(schema, value)))
    eq = call(lambda: schema == value)
    if eq is not want:
        raise Violation("schema == value disagrees with conformance", schema=to_src(spec),
                        value=vsrc(value), got=repr(eq), want=want)


OPT = gen.Opt(sat=True, special=True, levels=30, obj_keys=True)
OPT_ANY = gen.Opt(sat=False, special=True, levels=30)


def _case(src, ctx, spec):
    schema = build(spec, src)
    label_spec(ctx, spec)
    nontrivial = len(spec.p) > 0
    vals = []
    for _ in range(4):
        how, v = gen.near_value(spec, src)
        if src.chance(12):
            how, v = how + "-subclassed", gen.subclassed(v, src)
        check(spec, schema, v, ctx, how)
        vals.append(v)
        if nontrivial:
            ctx.nontrivial((to_src(spec), vsrc(v)))
    if ctx.wants_sample:
        ctx.sample({"schema": to_src(spec), "values": [vsrc(v) for v in vals]})


def case(src, ctx):
    opt = OPT_ANY if src.chance(25) else OPT
    _case(src, ctx, gen.gen_spec(src, opt=opt))


def case_flat(src, ctx):
    """Scalars and flat lists: dense boundary testing."""
    opt = OPT_ANY if src.chance(25) else OPT
    _case(src, ctx, gen.gen_spec(src, depth=src.draw(2), opt=opt))


def case_list_forms(src, ctx):
    """Lists of small scalar alternatives: position logic of exact/head/tail/contains/len."""
    atoms = [S("int", value=1), S("int", value=2), S("int"), S("str", value="a"), S("none"),
             S("any", types=[S("int", value=1), S("str")]), S("any"),
             S("list", mode="typed", type=S("int")), S("dict", items=[("k", S("int"), False)])]
    pool = [1, 2, 3, "a", "b", None, [], [1], ["a"], {"k": 1}, {"k": "a"}, True]
    form = src.draw(6)
    m = src.integer(0 if form == 0 else 1, 3)
    els = [src.pick(atoms) for _ in range(m)]
    if form == 5:
        s = S("list", mode="typed", type=src.pick(atoms))
    elif form == 4:
        s = S("list", mode="elements", elements=[], head=True)
    else:
        s = S("list", mode="elements", elements=els, head=(form in (2, 3)) or None,
              tail=(form in (1, 3)) or None)
    if src.chance(30):
        n = max(src.integer(0, 5), m)
        if form == 0:
            n = m
        s = s.with_(**src.pick([{"len": n}, {"min_len": min(n, m)}, {"max_len": n}]))
    schema = build(s)
    label_spec(ctx, s)
    for _ in range(6):
        v = [src.pick(pool) for _ in range(src.integer(0, 5))]
        if src.chance(40):
            v = gen.conf(s, src)
            if src.chance(60):
                v = gen.tweak(v, src)
        check(s, schema, v, ctx, "listform")
        ctx.nontrivial((to_src(s), vsrc(v)))


def case_long(src, ctx):
    """Long fixed values, alphabets and substrings against values that differ in one spot."""
    v, w = gen.long_pair(src)
    if src.chance(40):
        while isinstance(v, (list, dict)):
            if not v:
                raise Discard("empty")
            v = v[0] if isinstance(v, list) else next(iter(v.values()))
            w = w if not isinstance(w, (list, dict)) else "w"
    if isinstance(v, str) and src.chance(60):
        x = "x" + v + "y"
        w = w if isinstance(w, str) else "w"
        spec = src.pick([S("str", substr=v), S("str", len=len(v)), S("str", alphabet=v), S("str", max_len=len(v)),
                         S("str", min_len=len(v))])
        vals = [v, w, x, v[:-1], "x" + w + "y"]
    elif isinstance(v, (str, bytes, bool, int)):
        spec = S(type(v).__name__, value=v)
        vals = [v, w]
    else:
        spec = gen.open_for(v, src)
        vals = [v, w]
    schema = build(spec)
    for x in vals:
        check(spec, schema, x, ctx, "long")
        ctx.nontrivial((to_src(spec)[:100], len(to_src(spec)), hash(vsrc(x)) if len(vsrc(x)) > 500 else vsrc(x)))


def targets():
    return [pinned_target(lambda spec, schema, v, ctx: check(spec, schema, v, ctx, "pinned")),
            Target("specs", case, 60000, 3000000),
            Target("flat", case_flat, 60000, 3000000),
            Target("list-forms", case_list_forms, 25000, 1000000),
            Target("deep", gen.deep(case), 8000, 300000),
            Target("long", case_long, 3000, 100000),
            Target("wide", gen.wide(case), 6000, 300000),
            Target("small", gen.small(case), 40000, 1500000)]
