"""C10: a declaration raises DeclarationError and changes nothing, or yields a consistent schema."""
import datetime as dt
import re
import uuid

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, rx
from ..model import S, skey, spec_of, walk

RULE = ("a case is a chain of declaration calls on one type with valid, boundary, contradictory and "
        "hostile arguments; the exhaustive target walks every chain over a small argument catalogue "
        "(extending each accepted one); non-trivial: a distinct chain whose last call was refused on "
        "an already constrained receiver, or that carries a fixed value")

NAN, INF = float("nan"), float("inf")
U4 = uuid.UUID("12345678-1234-4234-8234-123456781234")
U1 = uuid.UUID("12345678-1234-1234-8234-123456781234")


class BadRepr:
    def __repr__(self):
        raise RuntimeError("no repr")


class BadEq:
    def __eq__(self, other):
        raise RuntimeError("no eq")

    __hash__ = None

    def __repr__(self):
        return "<badeq>"


class BadBool:
    def __bool__(self):
        raise RuntimeError("no bool")

    def __len__(self):
        raise RuntimeError("no len")

    def __repr__(self):
        return "<badbool>"


def extra_zoo():
    cyc = []
    cyc.append(cyc)
    deep = []
    for _ in range(3000):
        deep = [deep]
    from niltype import Nil
    return [("badrepr", BadRepr()), ("badeq", BadEq()), ("badbool", BadBool()), ("cyclic", cyc),
            ("deep", deep), ("nil", Nil), ("type-str", str), ("badrepr-list", [BadRepr()]),
            ("badrepr-dict", {"a": BadRepr()}), ("badrepr-key", {BadRepr(): 1})]


# ------------------------------------------------------------------------------------------
# which property a successful call declares

def declares(kind, method, args):
    if method == "__call__":
        return {"list": ("mode",), "dict": ("items",), "any": ("types",)}.get(kind, ("value",))
    if method == "len":
        if len(args) == 1:
            return ("len",)
        return tuple(n for n, a in zip(("min_len", "max_len"), args) if a is not ...)
    return {"contains": ("substr",), "regex": ("pattern",)}.get(method, (method,))


def fixed(s):
    """(True, value) if every member is fixed."""
    p = s.p
    if s.kind == "none":
        return True, None
    if "value" in p:
        return True, p["value"]
    if s.kind == "list" and p.get("mode") == "elements" and not p.get("head") \
            and not p.get("tail"):
        parts = [fixed(e) for e in p["elements"]]
        return all(ok for ok, _ in parts), [v for _, v in parts]
    if s.kind == "dict" and "items" in p and not any(o for _, _, o in p["items"]):
        parts = [(k, fixed(x)) for k, x, _ in p["items"]]
        return all(f[0] for _, f in parts), {k: f[1] for k, f in parts}
    if s.kind == "alias":
        return fixed(p["target"])
    return False, None


def show(args):
    return ", ".join(call_src(a) for a in args)


def call_src(a):
    from d42.declaration import Schema
    if isinstance(a, Schema):
        return to_src(spec_of(a))
    if type(a) in (list, tuple):
        try:
            return ("[%s]" if type(a) is list else "(%s)") % ", ".join(call_src(x) for x in a[:8])
        except RecursionError:
            return "<deep list>"
    if type(a) is dict:
        return "{" + ", ".join(f"{call_src(k)}: {call_src(x)}" for k, x in list(a.items())[:8]) + "}"
    try:
        return vsrc(a)[:200]
    except Exception:
        return f"<{type(a).__name__}>"


def image(schema):
    return skey(spec_of(schema)), repr(call(repr, schema))


def contradicts(spec, v, method, args):
    """Does the fixed value break the constraint, whatever the result says?"""
    numbers = [a for a in args if isinstance(a, (int, float))]
    if method in ("min", "max") and isinstance(v, (int, float)) and len(numbers) == 1:
        return v < args[0] if method == "min" else v > args[0]
    if method == "len" and isinstance(v, (str, list)) and numbers:
        n = len(v)
        if len(args) == 1:
            return n != args[0]
        return args[0] is not ... and n < args[0] or args[1] is not ... and n > args[1]
    if isinstance(v, str) and isinstance(args[0] if args else None, str):
        if method == "alphabet":
            return any(c not in args[0] for c in v)
        if method == "contains":
            return args[0] not in v
        if method == "regex":
            return re.search(args[0], v) is None
    return False


def apply(schema, kind, method, args, trail, ctx):
    """One declaration call with all its checks.  Returns the new schema or None."""
    from d42.declaration import DeclarationError, Schema
    before = image(schema)
    src_args = show(args)
    here = f"{trail}.{method}({src_args})"

    def bad(msg, **kw):
        raise Violation(msg, chain=here[:1500], **kw)
    if method == "|":
        out = call(lambda: schema | args[0])
    elif method == "alias":
        from d42 import schema as d
        out = call(d.alias, args[0], schema)
    else:
        out = call(getattr(schema, method), *args)
    ctx.check()
    after = image(schema)
    if before != after:
        bad("the call changed its receiver", before=repr(before)[:600], after=repr(after)[:600])
    spec = spec_of(schema)
    if isinstance(out, Raised):
        if not isinstance(out.exc, DeclarationError):
            bad("the call raised something other than DeclarationError", got=repr(out))
        text = call(str, out.exc)
        if not isinstance(text, str):
            bad("the DeclarationError does not render", got=repr(text))
        if spec.p:
            ctx.nontrivial(here)
        ctx.label(f"{kind}.{method}:refused")
        return None
    if not isinstance(out, Schema):
        bad("the call returned something that is not a schema", got=type(out).__name__)
    if method not in ("|", "alias"):
        for n in declares(kind, method, args):
            if spec.has(n):
                bad(f"an already declared property ({n}) was declared again",
                    result=call(repr, out))
    was, v = fixed(spec)
    if was and contradicts(spec, v, method, args):
        bad("a constraint that contradicts the fixed value was accepted", value=vsrc(v)[:300],
            result=call(repr, out))
    if kind in ("int", "float", "str", "bytes", "uuid4", "bool", "datetime", "date", "list") \
            and method not in ("|", "alias"):
        ok, v = fixed(spec_of(out))
        if ok:
            errs = errors_of(out, v)
            if isinstance(errs, Raised):
                bad("the schema cannot validate its own fixed value", got=repr(errs))
            if errs:
                bad("the fixed value does not conform to the schema", value=vsrc(v)[:300],
                    errors=fmt_errors(errs))
            ctx.nontrivial(here)
            ctx.label(f"{kind}:fixed")
    ctx.label(f"{kind}.{method}:accepted")
    return out


# ------------------------------------------------------------------------------------------
# exhaustive chains over small catalogues

def catalogue(kind):
    from d42 import optional, schema as d
    junk = [None, "1", 2.0, [], object()]
    if kind == "int":
        return [("__call__", (v,)) for v in (0, 3, -1, True, 10 ** 5000, *junk)] + \
               [(m, (v,)) for m in ("min", "max") for v in (0, 3, 4, 2, -10 ** 5000, 10 ** 5000,
                                                            True, *junk)]
    if kind == "float":
        fs = (0.0, 1.5, -1.5, 1.6, NAN, INF, -INF, 1e300, -0.0)
        return [("__call__", (v,)) for v in (*fs, 1, None)] + \
               [(m, (v,)) for m in ("min", "max") for v in (*fs, 1, "x")] + \
               [("precision", (v,)) for v in (1, 2, 15, 16, 0, -1, True, 1.0, None, 10 ** 5000)]
    if kind == "str":
        lens = [(0,), (2,), (3,), (-1,), (True,), (None,), (2.0,), (2, ...), (3, ...), (..., 2),
                (..., 1), (1, 2), (3, 4), (2, 1), (..., ...), ("a",), (1, "a"), ("a", 1),
                (..., None), (None, ...), (10 ** 5000,), (..., True), (True, ...), (False,), (..., False),
                (False, True), (True, 2), (0, False)]
        return [("__call__", (v,)) for v in ("", "ab", "a\n", 1, None, b"ab")] + \
               [("len", v) for v in lens] + \
               [("alphabet", (v,)) for v in ("", "ab", "abc", "a\n", 5, None)] + \
               [("contains", (v,)) for v in ("", "a", "ab", "c", 5, None)] + \
               [("regex", (v,)) for v in ("", "a", "^ab$", "^a$", "(", "a{99999999999}", 5, None,
                                          "c", b"a")]
    if kind in ("bool", "bytes", "uuid4", "datetime", "date"):
        vals = {"bool": (True, False, 1, 0), "bytes": (b"", b"a", bytearray(b"a"), "a"),
                "uuid4": (U4, U1, str(U4), gen.MyUUID(int=U4.int, version=4), uuid.UUID(int=0)),
                "datetime": (dt.datetime(2020, 1, 1), dt.date(2020, 1, 1), "2020-01-01",
                             dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)),
                "date": (dt.date(2020, 1, 1), dt.datetime(2020, 1, 1), dt.time(1))}[kind]
        return [("__call__", (v,)) for v in (*vals, None, [], 5)]
    if kind == "list":
        i, s = d.int(1), d.str
        lists = [[], [i], [i, i], [i, s], [...], [..., i], [i, ...], [..., i, ...], [..., ...],
                 [i, ..., i], [..., ..., i], [1], [i, 1], [..., i, i, ...], [d.list([i])], [None],
                 [d.none, d.dict({"a": i})]]
        lens = [(0,), (1,), (2,), (-1,), (None,), (1.0,), (1, ...), (2, ...), (..., 1), (..., 0),
                (..., 2), (1, 2), (0, 1), (2, 1), (..., ...), ("a",), (1, "a"), (True,),
                (10 ** 5000,), (-5, 10 ** 5000), (..., True), (True, ...), (False,), (..., False),
                (False, True), (True, 2)]
        return [("__call__", (v,)) for v in (*lists, i, d.any, (i,), None, 5, "a", {}, ...)] + \
               [("len", v) for v in lens]
    if kind == "dict":
        i = d.int(1)
        return [("__call__", (v,)) for v in (
            {}, {"a": i}, {optional("a"): i}, {...: ...}, {"a": i, ...: ...}, {...: i}, {"a": ...},
            {"a": 1}, {"a": None}, {1: i, None: i}, {optional("a"): ...}, {"a": i, optional("a"): d.str},
            {optional(optional("a")): i}, {"a": d.dict}, {"a": int}, [], None, 5, i, {"a": {"b": i}},
            {gen.NoCopy(): i}, {NAN: i}, {10 ** 5000: i}, {10 ** 5000: 1}, {BadRepr(): 1},
            {BadRepr(): ...})]
    if kind == "any":
        i = d.int(1)
        return [("__call__", v) for v in (
            (i,), (i, d.str), (d.any,), (d.any(i),), (1,), (i, 1), (None,), (int,), ([i],),
            (d.any(i, d.any(d.none)), d.bool), (BadRepr(),))]
    return []


COMMON = [("|", 1), ("|", None), ("|", "s"), ("alias", "X"), ("alias", None)]
KINDS = ("none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date", "list", "dict",
         "any")


def exhaustive(shard, nshards, ctx):
    from d42 import schema as d
    count = 0
    work = [(k, i) for k in KINDS for i in range(max(1, len(catalogue(k))))]
    for w, (kind, i) in enumerate(work):
        if w % nshards != shard:
            continue
        cat = catalogue(kind)
        # hostile arguments in every argument position of the receiver
        if i == 0:
            for method, nargs in methods(kind):
                for label, v in gen.zoo() + extra_zoo():
                    variants = [(v,)] if nargs != 2 else [(v,), (v, ...), (..., v), (1, v), (v, 1)]
                    if method == "__call__" and kind == "list":
                        variants += [([v],), ([d.int, v],), ([v, ...],), ([v, d.int],)]
                    if method == "__call__" and kind == "dict":
                        variants += [({"a": v},), ({...: v},)]
                        try:
                            variants += [({v: d.int},), ({v: 1},), ({v: ...},)]
                        except Exception:
                            pass        # the caller cannot even make that dict
                    if method == "__call__" and kind == "any":
                        variants += [(d.int, v), (v, d.int)]
                    for args in variants:
                        apply(getattr(d, kind), kind, method, args, f"schema.{kind}", ctx)
                        count += 1
            for label, v in gen.zoo() + extra_zoo():
                apply(getattr(d, kind), kind, "|", (v,), f"schema.{kind}", ctx)
                apply(getattr(d, kind), kind, "alias", (v,), f"schema.{kind}", ctx)
                r = call(d.alias, "X", v)
                from d42.declaration import DeclarationError
                if not isinstance(r, Raised) or not isinstance(r.exc, DeclarationError):
                    raise Violation("alias of a value that is not a schema was not refused with "
                                    "DeclarationError", value=call_src(v), got=repr(call(repr, r))[:300])
                count += 2
        if not cat:
            continue
        stack = [(getattr(d, kind), f"schema.{kind}", 0, cat[i:i + 1])]
        while stack:
            s, trail, depth, cands = stack.pop()
            for method, args in cands:
                out = apply(s, kind, method, args, trail, ctx)
                count += 1
                if out is not None and depth < 5 and type(out) is type(s):
                    stack.append((out, f"{trail}.{method}({show(args)})", depth + 1, cat))
                    for m, v in COMMON:
                        apply(out, kind, m, (v,), f"{trail}.{method}({show(args)})", ctx)
                        count += 1
    return count


def methods(kind):
    if kind == "none":
        return []
    out = [("__call__", 1)]
    if kind in ("int", "float"):
        out += [("min", 1), ("max", 1)]
    if kind == "float":
        out += [("precision", 1)]
    if kind in ("str", "list"):
        out += [("len", 2)]
    if kind == "str":
        out += [("alphabet", 1), ("contains", 1), ("regex", 1)]
    return out


# ------------------------------------------------------------------------------------------
# random chains

OPT = gen.Opt(sat=False, special=True)


def small(src, pool):
    """A schema for a container, often fixed."""
    from d42 import schema as d
    f = src.draw(4)
    if f == 0 and pool:
        return src.pick(pool)
    if f < 3:
        k = src.pick(["int", "str", "float", "bytes", "bool"])
        return getattr(d, k)(gen.scalar_of(k, src, True))
    return call(build, gen.gen_spec(src, depth=1, opt=OPT))


def argument(kind, method, src, pool, fixedv):
    """Arguments related to what is already fixed, unrelated, or hostile."""
    from d42 import optional
    if src.chance(7):
        z = gen.zoo() + extra_zoo()
        v = src.pick(z)[1]
        return (v,) if method != "len" or src.chance(50) else src.pick([(v, ...), (..., v), (1, v)])
    if method == "__call__":
        if kind == "list":
            if src.chance(20):
                return (small(src, pool),)
            els = [small(src, pool) for _ in range(src.integer(0, 4))]
            if els and src.chance(20):
                # a longer list, mostly of fixed elements
                els = [src.pick(els) for _ in range(gen.gen_size(src, [5, 6, 7, 8, 9, 12, 17, 33, 65, 130, 300]))]
            if src.chance(30):
                els.insert(0, ...)
            if src.chance(30):
                els.append(...)
            if src.chance(5):
                els.insert(src.draw(len(els) + 1), src.pick([..., 1, None]))
            return (els,)
        if kind == "dict":
            keys = {}
            for _ in range(src.integer(0, 3)):
                k = gen.gen_key(src)
                keys[optional(k) if src.chance(30) else k] = small(src, pool)
            if src.chance(25):
                keys[...] = ...
            if src.chance(8):
                keys[src.pick(["a", ..., optional("b")])] = src.pick([..., 1, None])
            return (keys,)
        if kind == "any":
            return tuple(small(src, pool) for _ in range(src.integer(1, 3)))
        return (gen.scalar_of(kind, src, True),)
    if method in ("min", "max"):
        if fixedv is not None and isinstance(fixedv, (int, float)) and src.chance(70):
            import math
            if isinstance(fixedv, float):
                return (src.pick([fixedv, math.nextafter(fixedv, INF), math.nextafter(fixedv, -INF),
                                  fixedv * (1 + 5e-10), fixedv * (1 - 5e-10), -fixedv]),)
            return (fixedv + src.pick([0, 1, -1]),)
        return (gen.gen_int(src) if kind == "int" else gen.gen_float(src, True),)
    if method == "precision":
        return (src.integer(-1, 17),)
    if method == "len":
        n = src.integer(-1, 5)
        if hasattr(fixedv, "__len__") and src.chance(70):
            n = len(fixedv) + src.integer(-1, 1)
        if src.chance(10):
            n = bool(n) if n in (0, 1) else gen.MyInt(n)
            return src.pick([(n,), (n, ...), (..., n)])
        return src.pick([(n,), (n, ...), (..., n), (n, n + src.integer(-1, 2)), (0, n)])
    if isinstance(fixedv, str) and src.chance(75):
        i = src.draw(len(fixedv) + 1)
        part = fixedv[i:i + src.integer(0, 4)]
        if method == "alphabet":
            return (src.pick([fixedv, fixedv[1:], "".join(sorted(set(fixedv))), fixedv.upper(),
                              fixedv + "x"]),)
        if method == "contains":
            return (src.pick([part, part.swapcase(), part + "x", fixedv, fixedv * 2]),)
        import re
        return (src.pick([re.escape(part), "^" + re.escape(part) + "$", "^" + re.escape(fixedv) + "$",
                          re.escape(fixedv) + "x", "^$"]),)
    if method == "regex":
        if src.chance(50):
            return (rx.gen_prog(src, 2).pattern,)
        return (src.pick(["(", "[", "*", "a{2,1}", "(?P<a>b", "(?<=a+)b", "\\", "a**", "(?i)a", "",
                          "a{4294967295}", "(?P=x)", "\\1", "[b-a]", "(?z)", "x" * 3000]),)
    return (gen.gen_text(src),)


def case(src, ctx):
    from d42 import schema as d
    pool = []
    for _ in range(src.integer(1, 3)):
        kind = src.pick(["int", "float", "float", "str", "str", "str", "list", "list", "list",
                         "dict", "any", "bytes", "uuid4", "datetime", "date", "bool"])
        s, trail = getattr(d, kind), f"schema.{kind}"
        for step in range(src.integer(1, 7)):
            ms = [m for m, _ in methods(kind)]
            if step == 0 and src.chance(60):
                m = "__call__"
            else:
                m = src.pick(ms + ms + ["|", "alias"])
            ok, v = fixed(spec_of(s))
            if m == "|":
                args = (src.pick(pool) if pool and src.chance(50)
                        else gen.gen_hostile(src)[1],)
            elif m == "alias":
                args = (src.pick(["X", "", "a b"]),)
            else:
                args = argument(kind, m, src, pool, v if ok else None)
            if kind == "list" and m == "len" and not ok and s.props.elements is not None:
                el = spec_of(s).get("elements")
                if el is not None and src.chance(60):
                    n = len(el) + src.integer(-1, 1)
                    args = src.pick([(n,), (n, ...), (..., n), (n, n + 1)])
            out = apply(s, kind, m, args, trail, ctx)
            if out is not None and m not in ("|", "alias"):
                s, trail = out, f"{trail}.{m}({show(args)})"
            elif out is not None and src.chance(30):
                pool.append(out)
        pool.append(s)
    if ctx.wants_sample:
        ctx.sample({"last": trail[:300]})


def targets():
    return [Target("chains", exhaustive, 1, 1, exhaustive=True),
            Target("random", case, 60000, 2000000)]
