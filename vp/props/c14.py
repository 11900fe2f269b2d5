"""C14: from_native(v) accepts v, generates v, rejects everything else; other kinds are refused."""
import datetime as dt
import decimal
import fractions
import uuid

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, rng
from ..model import strictly_differs, vkey

RULE = ("a case is a plain value v (scalars of every kind incl. non-finite floats, nested lists and "
        "dicts with odd keys) with perturbed values w, or a value with one unsupported member at any "
        "position; non-trivial: a distinct (v, w) pair where w differs from v and must be rejected, or "
        "a distinct refused value")


def unsupported():
    from d42 import optional, schema
    return [("tuple", (1, 2)), ("emptytuple", ()), ("set", {1}), ("frozenset", frozenset()),
            ("bytearray", bytearray(b"a")), ("memoryview", memoryview(b"a")), ("range", range(2)),
            ("decimal", decimal.Decimal("1")), ("fraction", fractions.Fraction(1, 2)),
            ("complex", 1j), ("object", object()), ("opaque", gen.Opaque()), ("class", int),
            ("function", len), ("lambda", lambda: 1), ("generator", (x for x in ())),
            ("ellipsis", ...), ("notimplemented", NotImplemented), ("time", dt.time(1)),
            ("timedelta", dt.timedelta(1)), ("timezone", dt.timezone.utc),
            ("uuid1", uuid.UUID("12345678-1234-1234-8234-123456781234")),
            ("uuid3", uuid.uuid3(uuid.NAMESPACE_DNS, "x")), ("uuid5", uuid.uuid5(uuid.NAMESPACE_DNS, "x")),
            ("uuid-nil", uuid.UUID(int=0)), ("uuid-max", uuid.UUID(int=2 ** 128 - 1)),
            ("uuid-variant", uuid.UUID("12345678-1234-4234-0234-123456781234")),
            ("namedtuple", gen.NT(1, 2)), ("dictkeys", {}.keys()), ("iter", iter(())),
            ("exception", ValueError()), ("module", decimal), ("nocopy", gen.NoCopy()),
            ("schema", schema.int), ("schema-fixed", schema.str("a")), ("slots", gen.Slots()),
            ("dict-ellkey", {...: 1}), ("dict-ell", {...: ...}), ("dict-ellval", {"a": ...}),
            ("list-ell", [...]), ("list-ell2", [..., 1]), ("optional", optional("a")),
            ("dict-optional", {optional("a"): 1}), ("dict-schema", {"a": schema.int}),
            ("list-schema", [schema.int]), ("nil", _nil())] + \
           [(n, v) for n, v in gen.zoo() if n not in ("cyclic", "deep") and not is_plain(v)]


def is_plain(v):
    if isinstance(v, list):
        return all(is_plain(x) for x in v)
    if isinstance(v, dict):
        from d42 import optional
        return all(k is not ... and not isinstance(k, optional) and is_plain(x) for k, x in v.items())
    return v is None or isinstance(v, (bool, int, float, str, bytes, dt.date)) \
        or isinstance(v, uuid.UUID) and v.version == 4


def _nil():
    from niltype import Nil
    return Nil


def check_plain(v, src, ctx):
    from d42 import fake
    from d42.utils import from_native
    s = call(from_native, v)
    if isinstance(s, Raised):
        raise Violation("from_native refuses a plain value", value=vsrc(v), got=repr(s))
    info = dict(value=vsrc(v), schema=call(repr, s))
    got = accepts(s, v)
    if got is not True:
        raise Violation("from_native(v) does not accept v", got=repr(got),
                        errors=fmt_errors(errors_of(s, v)) if got is False else "", **info)
    with rng.controlled(src):
        w = call(fake, s)
    if isinstance(w, Raised) or vkey(w) != vkey(v):
        raise Violation("from_native(v) does not generate v", generated=repr(w) if isinstance(
            w, Raised) else vsrc(w), **info)
    if call(lambda: s == v) is not True:
        raise Violation("from_native(v) != v", **info)
    ctx.check(3)
    return s, info


def reject(s, info, v, w, ctx):
    if not strictly_differs(v, w):
        return
    got = accepts(s, w)
    ctx.check()
    if isinstance(got, Raised):
        return      # C08's
    if got:
        raise Violation("from_native(v) accepts another value", other=vsrc(w), **info)
    ctx.nontrivial((info["value"], vsrc(w)))
    ctx.label("rejected:" + (type(w).__name__ if type(w) is not type(v) else "same type"))


def plain(src):
    f = src.draw(100)
    if gen.WIDE[0] > 100:
        return gen.wide_plain(src)
    if f >= 97:
        return gen.deep_plain(src)
    if f >= 96:
        return gen.wide_plain(src)
    return gen.gen_plain(src, src.integer(0, 3), special=src.chance(30))


def case(src, ctx):
    v = plain(src)
    s, info = check_plain(v, src, ctx)
    ws = [gen.perturb(v, src) for _ in range(5)]
    ws.append(gen.perturb(gen.perturb(v, src), src))
    ws.append(gen.gen_plain(src, 1))
    # every container with one member dropped, doubled, or swapped
    paths = gen.positions(v, 60)
    if len(info["value"]) > 600:
        paths = src.shuffled(paths)[:4]
    for path in paths:
        x = gen.get_at(v, path)
        if type(x) is list and x:
            i = src.draw(len(x))
            ws += [gen.replace_at(v, path, y) for y in (x[:i] + x[i + 1:], x + [x[i]], x[::-1],
                                                        tuple(x), [], x[1:])]
        elif type(x) is dict and x:
            k = src.pick(list(x))
            d = dict(x)
            d.pop(k)
            ws += [gen.replace_at(v, path, y) for y in (d, {**x, "extra key": None}, {},
                                                        list(x.items()))]
        elif path:
            ws.append(gen.replace_at(v, path, gen.tweak(x, src)))
    for w in ws:
        reject(s, info, v, w, ctx)
    if ctx.wants_sample:
        ctx.sample({"value": info["value"][:300], "rejected among": len(ws)})


def case_refused(src, ctx):
    from d42.utils import from_native
    label, bad = src.pick(unsupported())
    f = src.draw(4)
    if f == 0 and not src.chance(10):
        v = bad
    else:
        v = plain(src)
        if not isinstance(v, (list, dict)):
            v = [v] if f == 1 else {"a": v}
        path = src.pick([p for p in gen.positions(v) if p] or [()])
        x = gen.get_at(v, path)
        if f == 3 and type(x) is list:
            v = gen.replace_at(v, path, x + [bad])
        elif f == 3 and type(x) is dict:
            v = gen.replace_at(v, path, {**x, "bad": bad})
        else:
            v = gen.replace_at(v, path, bad)
    r = call(from_native, v)
    ctx.check()
    if not isinstance(r, Raised):
        raise Violation("from_native does not refuse a value with a part of another kind",
                        part=label, value=vsrc(v), result=call(repr, r))
    if not isinstance(r.exc, ValueError):
        raise Violation("from_native refuses with something other than ValueError", part=label,
                        value=vsrc(v), got=repr(r))
    ctx.label("refused:" + label)
    ctx.nontrivial(vsrc(v))


CORE = [None, True, False, 0, 1, -1, 2, 10 ** 5000, 0.0, -0.0, 1.0, 0.1, 1e300, float("nan"),
        float("inf"), -float("inf"), "", "a", "A", "0", "None", "\ud800", b"", b"a", b"\x00",
        uuid.UUID("12345678-1234-4234-8234-123456781234"),
        uuid.UUID("12345678-1234-4234-9234-123456781234"),
        dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc),
        dt.datetime(2020, 1, 1, 0, 0, 0, 1), dt.date(2020, 1, 1), dt.date(2020, 1, 2),
        [], [None], [1], [1, 1], [1, 2], [2, 1], [[]], [{}], {}, {"a": 1}, {"a": 2}, {"b": 1},
        {"a": 1, "b": 1}, {"a": None}, {"a": []}, {"a": {}}, {"a": {"a": 1}}, {1: 1}, {None: None},
        {(1,): [1]}, {b"a": 1}, [[1], [2]], [[2], [1]], {"a": [1, {"b": 2}]}, {"a": [1, {"b": 3}]}]


def exhaustive(shard, nshards, ctx):
    """Every pair of a catalogue of values, alone and nested."""
    from .c09 import _Seq
    n = 0
    wraps = [lambda x: x, lambda x: [x], lambda x: {"k": x}, lambda x: [0, x, "z"],
             lambda x: {"k": [x], "m": None}]
    for i, a in enumerate(CORE):
        if i % nshards != shard:
            continue
        for wrap in wraps:
            v = wrap(a)
            s, info = check_plain(v, _Seq("x"), ctx)
            for b in CORE:
                reject(s, info, v, wrap(b), ctx)
                reject(s, info, v, b, ctx)
                n += 1
            for label, bad in unsupported() + gen.zoo():
                w = wrap(bad)
                if type(bad) in (str, int, float, bytes, list, dict, bool, dt.datetime, dt.date):
                    continue
                reject(s, info, v, w, ctx) if not isinstance(bad, (
                    str, int, float, bytes, list, dict, dt.date, uuid.UUID)) else None
    return n


def case_long(src, ctx):
    v, w = gen.long_pair(src)
    s, info = check_plain(v, src, ctx)
    reject(s, info, v, w, ctx)


def targets():
    return [Target("pairs", exhaustive, 1, 1, exhaustive=True),
            Target("values", case, 50000, 2000000),
            Target("long", case_long, 3000, 100000),
            Target("wide", gen.wide(case), 1500, 60000),
            Target("small", gen.small(case), 20000, 800000),
            Target("refused", case_refused, 30000, 600000)]
