"""C11: refinements commute: every order is refused, or every order gives the same schema."""
import itertools
import math

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, rx
from ..model import skey, spec_of

RULE = ("a case is a multiset of 2-5 refinement calls of one type, optionally after a fixed value (or "
        "after list elements / a list type), applied in every order; the exhaustive target takes every "
        "set of up to four calls from a catalogue; non-trivial: a distinct case in which at least one "
        "order got past its first call")

NAN, INF = float("nan"), float("inf")


def run_order(start, calls):
    s = start
    for i, (m, args) in enumerate(calls):
        s = call(getattr(s, m), *args)
        if isinstance(s, Raised):
            return s, i
    return s, len(calls)


def text(start, calls):
    return repr(call(repr, start)) + "".join(f".{m}({', '.join(vsrc(a) for a in args)})"
                                             for m, args in calls)


def check(start, calls, ctx):
    from d42.declaration import DeclarationError
    first = None
    deepest = 0
    seen = []
    for order in itertools.permutations(calls):
        out, n = run_order(start, order)
        deepest = max(deepest, n)
        if isinstance(out, Raised) and not isinstance(out.exc, DeclarationError):
            raise Violation("an order raised something other than DeclarationError",
                            order=text(start, order), got=repr(out))
        if first is None:
            first, first_order = out, order
            key = None if isinstance(out, Raised) else skey(spec_of(out))
            if not isinstance(out, Raised):
                seen = probes(out)
                verdict = [accepts(out, v) for v in seen]
            continue
        ctx.check()
        if isinstance(out, Raised) != isinstance(first, Raised):
            raise Violation("one order is refused, another is not", accepted=text(
                start, first_order if isinstance(out, Raised) else order),
                refused=text(start, order if isinstance(out, Raised) else first_order),
                error=repr(out if isinstance(out, Raised) else first))
        if isinstance(out, Raised):
            continue
        if not (out == first) or out != first or not (first == out):
            raise Violation("two orders give unequal schemas", one=text(start, first_order),
                            other=text(start, order), first=call(repr, first),
                            second=call(repr, out))
        if skey(spec_of(out)) != key or call(repr, out) != call(repr, first):
            raise Violation("two orders give different schemas", one=text(start, first_order),
                            other=text(start, order), first=call(repr, first),
                            second=call(repr, out))
        if [accepts(out, v) for v in seen] != verdict:
            raise Violation("two orders give schemas with different verdicts",
                            one=text(start, first_order), other=text(start, order))
    if deepest:
        ctx.nontrivial((text(start, sorted(calls, key=repr))))
    ctx.label("refused" if isinstance(first, Raised) else "accepted")
    return not isinstance(first, Raised)


def probes(schema):
    p = spec_of(schema).p
    out = []
    for n in ("value", "min", "max"):
        if n in p and isinstance(p[n], (int, float)):
            out += [p[n], p[n] + 1, p[n] - 1]
            if isinstance(p[n], float):
                out += [math.nextafter(p[n], INF), round(p[n], 1) if math.isfinite(p[n]) else 0.0]
    for n in ("len", "min_len", "max_len"):
        if n in p and 0 <= p[n] < 50:
            out += ["a" * p[n], "a" * (p[n] + 1), [1] * p[n], [1] * (p[n] + 1)]
    return out + ["", "ab", "abc", 0, 1, 0.5, []]


# ------------------------------------------------------------------------------------------

LENS = [("len", (0,)), ("len", (1,)), ("len", (2,)), ("len", (3,)), ("len", (-1,)), ("len", (0, ...)),
        ("len", (2, ...)), ("len", (3, ...)), ("len", (..., 0)), ("len", (..., 1)), ("len", (..., 2)),
        ("len", (1, 2)), ("len", (2, 2)), ("len", (0, 1)), ("len", (3, 1)), ("len", (3, 5)),
        ("len", (..., ...)), ("len", (None,))]
STR = LENS + [("alphabet", (a,)) for a in ("", "a", "ab", "abc", "bc", "\n")] + \
    [("contains", (a,)) for a in ("", "a", "ab", "c", "abab", "\n")] + \
    [("regex", (a,)) for a in ("", "a", "^ab$", "^$", "c", "(", "[ab]+", "^ab\n$")]
INT = [(m, (v,)) for m in ("min", "max") for v in (0, 1, 2, 3, -1, True, 2 ** 70, -2 ** 70, 1.0, "x")]
FLOAT = [(m, (v,)) for m in ("min", "max") for v in (0.0, 1.0, 1.5, 1.54, 2.0, -1.0, INF, -INF, NAN, 1)] \
    + [("precision", (v,)) for v in (1, 2, 15, 0, 16)]


def cases():
    from d42 import schema as d
    i = d.int

    def declared(kind, *args):
        """The type, plain and called with each argument; a refused value has no orders to compare."""
        out = [call(kind, a) for a in args]
        return [kind] + [s for s in out if not isinstance(s, Raised)]
    for start in declared(d.str, "", "a", "ab", "abc", "ab\n"):
        for n in (2, 3):
            yield from ((start, c) for c in itertools.combinations(STR, n))
        for c in itertools.combinations_with_replacement(STR, 2):
            if c[0] is c[1]:
                yield start, c
        # one call of each method
        if start.props.value is not None:
            for ln in LENS[:16]:
                for a, b, r in itertools.product(STR[18:24], STR[24:30], STR[30:]):
                    yield start, (ln, a, b)
    for start in declared(d.int, 1, 0, 2 ** 70):
        for n in (2, 3):
            yield from ((start, c) for c in itertools.combinations_with_replacement(INT, n))
    for start in declared(d.float, 1.5, 1.0, NAN, INF):
        for n in (2, 3):
            yield from ((start, c) for c in itertools.combinations_with_replacement(FLOAT, n))
    for start in declared(d.list, [], [i], [i, i], [...], [..., i], [i, ...], [..., i, i, ...], i):
        for n in (2, 3):
            yield from ((start, c) for c in itertools.combinations_with_replacement(LENS, n))


def exhaustive(shard, nshards, ctx):
    n = 0
    for k, (start, calls) in enumerate(cases()):
        if k % nshards == shard:
            check(start, list(calls), ctx)
            n += 1
    return n


def gen_call(kind, fixedv, src):
    def near_len():
        if fixedv is not None and src.chance(75):
            return len(fixedv) + src.integer(-1, 1)
        return src.integer(0, 6)
    if kind in ("str", "list"):
        m = "len" if kind == "list" else src.pick(["len", "alphabet", "contains", "regex"])
    elif kind == "int":
        m = src.pick(["min", "max"])
    else:
        m = src.pick(["min", "max", "precision"])
    if m == "len":
        a, b = near_len(), near_len()
        return m, src.pick([(a,), (a, ...), (..., a), (min(a, b), max(a, b)), (a, b)])
    if m in ("min", "max"):
        if fixedv is not None and src.chance(75):
            if kind == "int":
                return m, (fixedv + src.pick([0, 1, -1]) * src.pick([1, 1, 10]),)
            return m, (src.pick([fixedv, math.nextafter(fixedv, INF), math.nextafter(fixedv, -INF),
                                 fixedv * (1 + 5e-10), fixedv * (1 - 5e-10), fixedv - 1.0,
                                 fixedv + 1.0]),)
        return m, (gen.gen_int(src) if kind == "int" else gen.gen_float(src, src.chance(20)),)
    if m == "precision":
        return m, (src.integer(1, 15),)
    if isinstance(fixedv, str) and src.chance(75):
        k = src.draw(len(fixedv) + 1)
        part = fixedv[k:k + src.integer(0, 3)]
        if m == "alphabet":
            return m, (src.pick([fixedv, fixedv + "z", fixedv[1:], part]),)
        if m == "contains":
            return m, (src.pick([part, part, fixedv, part + "z"]),)
        import re
        return m, (src.pick([re.escape(part), "^" + re.escape(fixedv) + "$", re.escape(part) + "z$"]),)
    if m == "regex":
        return m, (rx.gen_prog(src, 1).pattern,)
    return m, (gen.gen_text(src, 4),)


def case(src, ctx):
    from d42 import schema as d
    kind = src.pick(["str", "str", "str", "int", "float", "float", "list"])
    start, fixedv = getattr(d, kind), None
    if src.chance(55):
        if kind == "list":
            els = [build(gen.gen_spec(src, depth=0)) for _ in range(src.integer(0, 3))]
            fixedv = list(els)
            if src.chance(30):
                els.insert(0, ...)
            if src.chance(30):
                els.append(...)
            start = call(start, els)
            if isinstance(start, Raised):
                raise Discard("elements")
        else:
            fixedv = gen.scalar_of(kind, src)
            start = call(start, fixedv)
            if isinstance(start, Raised):
                raise Discard("value")
    n = src.integer(2, 4) if kind != "str" else src.integer(2, 4)
    calls = [gen_call(kind, fixedv, src) for _ in range(n)]
    ok = check(start, calls, ctx)
    ctx.label(kind + ("+value" if fixedv is not None else ""))
    if ctx.wants_sample:
        ctx.sample({"start": call(repr, start), "calls": text("", calls), "accepted": ok})


def targets():
    return [Target("sets", exhaustive, 1, 1, exhaustive=True),
            Target("random", case, 40000, 1500000)]
