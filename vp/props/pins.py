"""Explicit (spec, value) pairs: earlier findings and hand-written corners, always tried first."""
import datetime as dt
import uuid

from ..engine import Discard, Target, Violation
from ..common import build
from ..model import S, to_src

NAN, INF = float("nan"), float("inf")
U4 = uuid.UUID("12345678-1234-4234-8234-123456781234")
U1 = uuid.UUID("12345678-1234-1234-8234-123456781234")


def _l(els, head=None, tail=None, **p):
    return S("list", mode="elements", elements=els, head=head, tail=tail, **p)


I, T = S("int"), S("str")
I1, I2 = S("int", value=1), S("int", value=2)


def _d(*items, ell=None):
    return S("dict", items=list(items), ell=ell)


BASIC = [
    (S("float", value=NAN), [NAN, 1.0, INF]),
    (S("float", value=INF), [INF, -INF, 1.0, NAN]),
    (S("float", value=1.5, precision=1), [NAN, INF, -INF, 1e308, 1.52, 1.6]),
    (S("float", min=0.0), [NAN, INF, 0.0, -0.0, -1e-300]),
    (S("float", max=0.0), [NAN, -INF, 0.0, 5e-324]),
    (S("float", value=1e300, precision=15), [1e300, 1e299, 1.7e308]),
    (S("float", value=0.1 + 0.2), [0.3, 0.3001]),
    (S("int", value=1), [True, 1, 1.0, "1"]),
    (S("bool", value=True), [1, True, False]),
    (I, [10 ** 5000, True]),
    (S("str", pattern="^a$"), ["a", "a\n", "ba", "b\na"]),
    (S("str", pattern="a|b"), ["xay", "", "c"]),
    (S("str", alphabet="ab"), ["", "ab", "abc", "B"]),
    (S("str", alphabet=""), ["", "a"]),
    (S("str", substr=""), ["", "a"]),
    (S("str", len=0), ["", "a"]),
    (S("str", value="a", len=1, alphabet="a", substr="a"), ["a", "b", "aa"]),
    (S("uuid4"), [U4, U1, str(U4)]),
    (S("uuid4", value=U4), [U4, U1]),
    (S("date"), [dt.date(2020, 1, 1), dt.datetime(2020, 1, 1)]),
    (S("date", value=dt.date(2020, 1, 1)), [dt.date(2020, 1, 1), dt.datetime(2020, 1, 1)]),
    (S("datetime"), [dt.date(2020, 1, 1), dt.datetime(2020, 1, 1)]),
    (S("datetime", value=dt.datetime(2020, 1, 1)),
     [dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc), dt.datetime(2020, 1, 1)]),
    (S("list", mode="elements", elements=[], head=True), [[], [1], (1,)]),
    (_l([]), [[], [1]]),
    (_l([I1], head=True, tail=True), [[], [1], [2], [2, 1], [1, 2], [2, 1, 2]]),
    (_l([I1, I2], head=True, tail=True), [[], [1], [1, 2], [1, 1, 2], [2, 1], [1, 3, 1, 2, 0]]),
    (_l([I1, I2], head=True), [[], [2], [1, 2], [1, 2, 3], [0, 1, 2]]),
    (_l([I1, I2], tail=True), [[], [1], [1, 2], [1, 2, 3], [0, 1, 2]]),
    (_l([I1, T], tail=True, len=3), [[1, "a"], [1, "a", None], [1, "a", 2, 3]]),
    (_l([I1], head=True, min_len=1), [[], [1], [2, 1]]),
    (_l([I1], head=True, max_len=2), [[1], [2, 1], [3, 2, 1]]),
    (_l([I1, I1]), [[1], [1, 1], [1, 1, 1]]),
    (S("list", mode="typed", type=I, len=2), [[1], [1, 2], [1, "a"]]),
    (S("list", min_len=1, max_len=2), [[], [1], [1, 2], [1, 2, 3]]),
    (_d(("a", I, False), ("b", T, True)), [{}, {"a": 1}, {"a": 1, "b": "x"}, {"a": 1, "b": 1},
                                           {"a": 1, "c": 1}, {"b": "x"}, {"a": 1, 1: 1}]),
    (_d(("a", I, False), ell=1), [{}, {"a": 1}, {"a": 1, "c": 1}, {"a": "x", "c": 1}]),
    (_d(("a", I, True), ell=0), [{}, {"a": 1}, {"c": 1}, {"a": "x"}, {...: ...}]),
    (_d(), [{}, {"a": 1}]),
    (S("dict", items=[], ell=0), [{}, {"a": 1}, []]),
    (_d((None, I, False), (1, T, False)), [{None: 1, 1: "a"}, {None: 1, True: "a"}, {None: 1}]),
    (S("any"), [None, ..., object()]),
    (S("any", types=[I1, T]), [1, "x", 2, None, True]),
    (S("any", types=[_d(("a", I, False)), _d(("b", I, False))]),
     [{"a": 1}, {"b": 1}, {"a": 1, "b": 1}, {}]),
    (S("alias", name="X", target=S("any", types=[S("none"), I])), [None, 1, "a"]),
    (S("list", mode="typed", type=S("alias", name="X", target=_l([I], tail=True))),
     [[], [[1]], [[1, 2]], [["a"]], [[]]]),
]


def pinned_target(fn, pairs=None, name="pinned"):
    pairs = BASIC if pairs is None else pairs

    def run(shard, nshards, ctx):
        n = 0
        for spec, values in pairs:
            try:
                schema = build(spec)
            except Discard as e:
                raise Violation("a documented form of declaration is refused", schema=to_src(spec),
                                got=str(e))
            for v in values:
                fn(spec, schema, v, ctx)
                n += 1
        return n
    return Target(name, run, 0, 0, shards=1, exhaustive=True)
