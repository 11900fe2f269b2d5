"""C06: repr(schema) is DSL source that rebuilds an equal schema."""
import ast
import datetime
import uuid

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen
from ..model import S, depth, skey, spec_of, walk
from .pins import BASIC, INF, NAN, _d, _l, pinned_target

RULE = ("a case is a schema spec without aliases declared through the DSL (refinements in random "
        "order, `|`, `+`, make_required), represented and evaluated back; non-trivial: the spec has "
        "a declared property or member")
ASSUMPTIONS = ["plain built-in values only: subclasses of str/int/..., and dict keys or tzinfo objects "
               "whose own repr is not an expression over the listed names, are outside"]


def env():
    from d42 import optional, schema
    return {"schema": schema, "optional": optional, "UUID": uuid.UUID, "datetime": datetime}


def check(spec, schema, ctx, source=None, name=None):
    from d42 import represent
    info = {"schema": source or to_src(spec)}
    text = call(repr, schema)
    if isinstance(text, Raised):
        raise Violation("repr raised", got=repr(text), **info)
    again = call(represent, schema)
    if again != text or call(repr, schema) != text:
        raise Violation("repr is not deterministic", repr=text, got=repr(again), **info)
    try:
        ast.parse(text, mode="eval")
    except (SyntaxError, ValueError) as e:
        raise Violation("repr is not an expression", repr=text, got=repr(e), **info)
    back = call(eval, text, env())
    if isinstance(back, Raised):
        raise Violation("repr does not evaluate", repr=text, got=repr(back), **info)
    if call(lambda: (back == schema, schema == back)) != (True, True):
        raise Violation("the evaluated repr is another schema", repr=text, back=call(repr, back),
                        **info)
    text2 = call(repr, back)
    if text2 != text:
        raise Violation("the evaluated repr has another repr", repr=text, back=repr(text2), **info)
    # the order of dict keys is the schema's own; everything else is the declared spec's
    got = spec_of(back)
    if (skey(spec, ordered=False) != skey(got, ordered=False)
            or skey(spec_of(schema)) != skey(got)):
        raise Violation("the evaluated repr lost or changed a declaration", repr=text,
                        back=to_src(spec_of(back)), **info)
    ctx.check()
    label_spec(ctx, spec)
    ctx.label("depth:" + str(depth(spec)))
    if spec.p:
        ctx.nontrivial(info["schema"])
    if ctx.wants_sample:
        ctx.sample({**info, "repr": text})


OPT = gen.Opt(sat=False, alias=False, special=True, huge=True, huge_len=True)


def case(src, ctx):
    spec = gen.gen_spec(src, opt=OPT)
    check(spec, build(spec, src), ctx)


def case_scalar(src, ctx):
    spec = gen.spec_of_kind(src.pick(["int", "float", "str", "str", "list", "bytes", "datetime",
                                      "date", "uuid4", "bool"]), src, 0, OPT)
    check(spec, build(spec, src), ctx)


def merged(a, b):
    """The spec of a + b."""
    items = {k: (s, o) for k, s, o in a.p.get("items", ())}
    order = [k for k, _, _ in a.p.get("items", ())]
    ell = a.get("ell")
    seq = order[:]
    if ell is not None:
        seq.insert(min(ell, len(seq)), ...)
    bseq = [k for k, _, _ in b.p.get("items", ())]
    if b.get("ell") is not None:
        bseq.insert(min(b.p["ell"], len(bseq)), ...)
    bi = {k: (s, o) for k, s, o in b.p.get("items", ())}
    for k in bseq:
        if not any(eq_key(k, x) for x in seq):
            seq.append(k)
    out = []
    ell = None
    for k in seq:
        if k is ...:
            ell = len(out)
            continue
        s, o = bi[k] if k in bi else items[k]
        out.append((k, s, o))
    return S("dict", items=out, ell=ell)


def case_combined(src, ctx):
    from d42.utils import make_required
    a = gen.spec_dict(src, 2, OPT)
    sa = build(a, src)
    if src.chance(50):
        b = gen.spec_dict(src, 2, OPT)
        spec = merged(a, b)
        check(spec, sa + build(b, src), ctx, source=f"{to_src(a)} + {to_src(b)}")
    else:
        if not a.has("items"):
            raise Discard("no keys")
        keys = src.subset([k for k, _, _ in a.p["items"]])
        spec = a.with_(items=[(k, s, o and k not in keys) for k, s, o in a.p["items"]])
        check(spec, make_required(sa, keys), ctx, source=f"make_required({to_src(a)}, {keys!r})")


def case_nested(src, ctx):
    """Containers inside containers, empty or with a member or two: where layout decides."""
    f = src.draw(8)
    if f < 5:
        spec = [S("list", mode="elements", elements=[]), S("dict", items=[], ell=None),
                S("dict", items=[], ell=0), S("list", mode="elements", elements=[], head=True),
                S("dict")][f]
    elif f == 5:
        spec = gen.spec_of_kind(src.pick(["str", "int", "bytes", "datetime", "float"]), src, 0, OPT)
    else:
        spec = gen.gen_spec(src, 1, OPT)
    for _ in range(src.integer(1, 7)):
        g = src.draw(6)
        more = [gen.gen_spec(src, 0, OPT)] if src.chance(25) else []
        if g < 2:
            els = src.shuffled([spec] + more)
            spec = S("list", mode="elements", elements=els)
            if src.chance(35):
                spec = spec.with_(**{src.pick(["head", "tail"]): True})
            if src.chance(20):
                spec = spec.with_(**{src.pick(["len", "min_len"]): len(els)})
        elif g == 2:
            spec = S("list", mode="typed", type=spec)
            if src.chance(30):
                spec = spec.with_(**src.pick([{"len": 2}, {"min_len": 0}, {"max_len": 3},
                                              {"min_len": 1, "max_len": 2}]))
        elif g < 5:
            items = [(gen.gen_key(src), spec, src.chance(30))]
            for m in more:
                k = gen.related_key(src, [items[0][0]]) if src.chance(40) else gen.gen_key(src)
                if not k == items[0][0]:
                    items.append((k, m, src.chance(30)))
            spec = S("dict", items=items, ell=src.draw(len(items) + 1) if src.chance(30) else None)
        else:
            # an any directly in an any is joined to it by the DSL
            types = [t for s in [spec] + more
                     for t in (s.p["types"] if s.kind == "any" and s.has("types") else [s])]
            spec = S("any", types=src.shuffled(types))
    check(spec, build(spec, src), ctx)


EXTRA = [
    S("int", value=10 ** 5000), S("int", min=-10 ** 5000, max=10 ** 5000),
    S("float", value=INF), S("float", value=-INF), S("float", value=NAN),
    S("float", min=-INF, max=INF), S("float", value=-0.0), S("float", value=1e300, precision=15),
    _l([], len=0), S("list", mode="typed", type=S("any"), len=0),
    _l([_l([], head=True)], head=True, tail=True, min_len=0),
    S("list", mode="typed", type=_l([S("dict", items=[("a", S("dict"), True)], ell=0)])),
    S("any", types=[S("list", mode="typed", type=S("dict", items=[("a", S("int"), True)])),
                    _d(("b", _d(("c", _l([S("str", value="\n")]), False)), True), ell=0)]),
    S("dict", items=[(None, S("int"), True), ((1, 2), S("int"), False), (b"", S("none"), True),
                     (-0.5, S("any"), False), ("it's", S("bool"), True)], ell=2),
    S("datetime", value=datetime.datetime(2020, 1, 1, 1, 30, fold=1,
                                          tzinfo=datetime.timezone(datetime.timedelta(hours=-3)))),
    S("str", pattern="^[\\w'\"]+\\n$"), S("str", value="\ud800\u2028'\"\\"),
    S("str", alphabet="'\"\\", substr="'", min_len=1, max_len=2),
    S("dict", items=[(float("inf"), S("int"), False)]),
]


def _no_alias(spec):
    return all(x.kind != "alias" for x in walk(spec))


def targets():
    pairs = [(s, [None]) for s, _ in BASIC if _no_alias(s)] + [(s, [None]) for s in EXTRA]
    return [pinned_target(lambda spec, schema, v, ctx: check(spec, schema, ctx), pairs),
            Target("specs", case, 50000, 2500000),
            Target("scalar", case_scalar, 40000, 1500000),
            Target("nested", case_nested, 20000, 800000),
            Target("combined", case_combined, 20000, 800000),
            Target("deep", gen.deep(case), 6000, 300000),
            Target("wide", gen.wide(case), 4000, 300000),
            Target("small", gen.small(case), 20000, 800000)]
