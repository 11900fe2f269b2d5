"""Reference model: an AST of schemas (S) that does not use d42, with its own semantics.

conforms(spec, value) -> True / False / None, None being "don't care": values in the narrow band
around the documented float tolerance, whose verdict the properties leave open.
"""
import datetime as _dt
import math
import re
import uuid
from fractions import Fraction

_REL = Fraction(1, 10 ** 9)


class S:
    """One schema node.  p holds the declared properties (a missing key means undeclared).

    kinds and properties
      none | bool(value) | int(value,min,max) | float(value,min,max,precision)
      str(value,len,min_len,max_len,alphabet,substr,pattern,[rx]) | bytes(value)
      uuid4(value) | datetime(value) | date(value)
      list(mode=None|'typed'|'elements', type, elements, head, tail, len, min_len, max_len)
          head: starts with `...`; tail: ends with `...`;  `[...]` is head without elements
      dict(items=None|[(key, S, optional)], ell=None|position of `...: ...`)
      any(types=None|[S])
      alias(name, target)
    """
    __slots__ = ("kind", "p")

    def __init__(self, kind, **p):
        self.kind = kind
        self.p = {k: v for k, v in p.items() if v is not None}

    def get(self, name):
        return self.p.get(name)

    def has(self, name):
        return name in self.p

    def with_(self, **p):
        q = dict(self.p)
        q.update(p)
        return S(self.kind, **q)

    def children(self):
        k = self.kind
        if k == "list":
            if self.p.get("mode") == "typed":
                return [self.p["type"]]
            return list(self.p.get("elements") or ())
        if k == "dict":
            return [s for _, s, _ in (self.p.get("items") or ())]
        if k == "any":
            return list(self.p.get("types") or ())
        if k == "alias":
            return [self.p["target"]]
        return []

    def __repr__(self):
        return to_src(self)


def walk(spec):
    yield spec
    for c in spec.children():
        yield from walk(c)


def depth(spec):
    return 1 + max((depth(c) for c in spec.children()), default=0)


def size(spec):
    return 1 + sum(size(c) for c in spec.children())


# ------------------------------------------------------------------------------------------
# printing (for replays and samples)

def vsrc(v):
    if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
        return f"float({str(v)!r})"
    if type(v) is list:
        return "[" + ", ".join(vsrc(x) for x in v) + "]"
    if type(v) is dict:
        return "{" + ", ".join(f"{vsrc(k)}: {vsrc(x)}" for k, x in v.items()) + "}"
    if v is ...:
        return "..."
    try:
        return repr(v)
    except ValueError:
        return hex(v) if isinstance(v, int) else f"<{type(v).__name__} without repr>"
    except RecursionError:
        return f"<recursive {type(v).__name__}>"
    except Exception:
        return f"<{type(v).__name__} without repr>"


def _len_src(p):
    if "len" in p:
        return f".len({vsrc(p['len'])})"
    if "min_len" in p and "max_len" in p:
        return f".len({vsrc(p['min_len'])}, {vsrc(p['max_len'])})"
    if "min_len" in p:
        return f".len({vsrc(p['min_len'])}, ...)"
    if "max_len" in p:
        return f".len(..., {vsrc(p['max_len'])})"
    return ""


def to_src(s):
    k, p = s.kind, s.p
    r = f"schema.{k}"
    if k == "alias":
        return f"schema.alias({p.get('name')!r}, {to_src(p['target'])})"
    if k == "any":
        return r if "types" not in p else r + "(" + ", ".join(map(to_src, p["types"])) + ")"
    if k == "dict":
        if "items" not in p:
            return r
        parts = []
        ell = p.get("ell")
        for i, (key, sub, opt) in enumerate(p["items"]):
            if ell == i:
                parts.append("...: ...")
            ks = f"optional({vsrc(key)})" if opt else vsrc(key)
            parts.append(f"{ks}: {to_src(sub)}")
        if ell is not None and ell >= len(p["items"]):
            parts.append("...: ...")
        return r + "({" + ", ".join(parts) + "})"
    if k == "list":
        mode = p.get("mode")
        if mode == "typed":
            r += f"({to_src(p['type'])})"
        elif mode == "elements":
            parts = [to_src(e) for e in p["elements"]]
            if p.get("head"):
                parts.insert(0, "...")
            if p.get("tail"):
                parts.append("...")
            r += "([" + ", ".join(parts) + "])"
        return r + _len_src(p)
    if "value" in p:
        r += f"({vsrc(p['value'])})"
    if k in ("int", "float"):
        for n in ("min", "max", "precision"):
            if n in p:
                r += f".{n}({vsrc(p[n])})"
    if k == "str":
        for n, m in (("alphabet", "alphabet"), ("substr", "contains"), ("pattern", "regex")):
            if n in p:
                r += f".{m}({p[n]!r})"
        r += _len_src(p)
    return r


# ------------------------------------------------------------------------------------------
# canonical structure, for strict comparison

def vkey(v):
    """Type-strict canonical key of a plain value."""
    if isinstance(v, float):
        if math.isnan(v):
            return ("float", "nan")
        return (type(v).__name__, v.hex())
    if isinstance(v, list):
        return (type(v).__name__, tuple(vkey(x) for x in v))
    if isinstance(v, dict):
        return (type(v).__name__, tuple(sorted(((vkey(k), vkey(x)) for k, x in v.items()),
                                               key=repr_key)))
    if isinstance(v, tuple):
        return (type(v).__name__, tuple(vkey(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted((vkey(x) for x in v), key=repr_key)))
    if isinstance(v, bool) or v is None or v is ...:
        return (type(v).__name__, str(v))
    if isinstance(v, int):
        return (type(v).__name__, hex(v))
    if isinstance(v, (str, bytes)):
        return (type(v).__name__, v)
    if isinstance(v, (_dt.datetime, _dt.date, uuid.UUID)):
        return (type(v).__name__, repr(v), getattr(v, "fold", 0))
    return (type(v).__name__, id(v))


def repr_key(k):
    return repr(k)


def skey(s, ordered=True):
    """Canonical key of a spec.  ordered=False forgets the order of dict keys."""
    out = []
    for n in sorted(s.p):
        if n == "rx":
            continue
        v = s.p[n]
        if isinstance(v, S):
            v = skey(v, ordered)
        elif n in ("types", "elements"):
            v = tuple(skey(x, ordered) for x in v)
        elif n == "items":
            v = [(vkey(k), skey(x, ordered), bool(o)) for k, x, o in v]
            if not ordered:
                v.sort(key=repr_key)
            v = tuple(v)
        elif n == "ell":
            v = v if ordered else True
        else:
            v = vkey(v)
        out.append((n, v))
    return (s.kind, tuple(out))


# ------------------------------------------------------------------------------------------
# semantics

def _all(results):
    unknown = False
    for r in results:
        if r is False:
            return False
        if r is None:
            unknown = True
    return None if unknown else True


def _any(results):
    unknown = False
    for r in results:
        if r is True:
            return True
        if r is None:
            unknown = True
    return None if unknown else False


def float_fixed(v, f, precision):
    """Does the float v equal the fixed value f, up to the documented tolerance?"""
    if math.isnan(f) or math.isnan(v):
        return math.isnan(f) and math.isnan(v)
    if math.isinf(f) or math.isinf(v):
        return v == f
    if v == f:
        return True
    a, b = Fraction(v), Fraction(f)
    if precision is None:
        d, m = abs(a - b), max(abs(a), abs(b))
        if d <= m * _REL / 2:
            return True
        if d >= m * _REL * 2:
            return False
        return None
    scale = 10 ** precision
    a *= scale
    b *= scale
    eps = max(Fraction(1, 10 ** 6), abs(a) / 2 ** 50, abs(b) / 2 ** 50)
    if eps >= Fraction(1, 4):
        return False if abs(a - b) > 4 * eps + 2 else None
    for x in (a, b):
        frac = x - (x.numerator // x.denominator)
        if abs(frac - Fraction(1, 2)) <= eps:
            return None if abs(a - b) <= 2 else False
    return round(a) == round(b)


def _eq(v, f):
    try:
        return bool(v == f)
    except Exception:
        return False


def conforms(s, v):
    k, p = s.kind, s.p
    if k == "none":
        return v is None
    if k == "bool":
        return isinstance(v, bool) and ("value" not in p or v == p["value"])
    if k == "int":
        if not isinstance(v, int):
            return False
        if "value" in p and v != p["value"]:
            return False
        return not ("min" in p and v < p["min"]) and not ("max" in p and v > p["max"])
    if k == "float":
        if not isinstance(v, float):
            return False
        res = True
        if "value" in p:
            res = float_fixed(v, p["value"], p.get("precision"))
        if "min" in p and not v >= p["min"]:
            res = False
        if "max" in p and not v <= p["max"]:
            res = False
        return res
    if k == "str":
        if not isinstance(v, str):
            return False
        if "value" in p and v != p["value"]:
            return False
        n = len(v)
        if "len" in p and n != p["len"]:
            return False
        if "min_len" in p and n < p["min_len"]:
            return False
        if "max_len" in p and n > p["max_len"]:
            return False
        if "substr" in p and p["substr"] not in v:
            return False
        if "alphabet" in p and any(c not in p["alphabet"] for c in v):
            return False
        if "pattern" in p and re.search(p["pattern"], v) is None:
            return False
        return True
    if k == "bytes":
        return isinstance(v, bytes) and ("value" not in p or v == p["value"])
    if k == "uuid4":
        return (isinstance(v, uuid.UUID) and v.version == 4
                and ("value" not in p or v == p["value"]))
    if k == "datetime":
        return isinstance(v, _dt.datetime) and ("value" not in p or _eq(v, p["value"]))
    if k == "date":
        return isinstance(v, _dt.date) and ("value" not in p or _eq(v, p["value"]))
    if k == "any":
        if "types" not in p:
            return True
        return _any(conforms(t, v) for t in p["types"])
    if k == "alias":
        return conforms(p["target"], v)
    if k == "dict":
        if not isinstance(v, dict):
            return False
        if "items" not in p:
            return True
        if "ell" not in p:
            declared = {key for key, _, _ in p["items"]}
            for key in v:
                if key not in declared:
                    return False
        res = []
        for key, sub, opt in p["items"]:
            if key in v:
                res.append(conforms(sub, v[key]))
            elif not opt:
                return False
        return _all(res)
    if k == "list":
        if not isinstance(v, list):
            return False
        n = len(v)
        if "len" in p and n != p["len"]:
            return False
        if "min_len" in p and n < p["min_len"]:
            return False
        if "max_len" in p and n > p["max_len"]:
            return False
        mode = p.get("mode")
        if mode is None:
            return True
        if mode == "typed":
            return _all(conforms(p["type"], x) for x in v)
        els = p["elements"]
        m = len(els)
        if p.get("head") and p.get("tail"):
            return _any(_all(conforms(e, v[i + j]) for j, e in enumerate(els))
                        for i in range(0, n - m + 1))
        if n < m:
            return False
        if p.get("head"):
            return _all(conforms(e, v[n - m + j]) for j, e in enumerate(els))
        if p.get("tail"):
            return _all(conforms(e, v[j]) for j, e in enumerate(els))
        if n != m:
            return False
        return _all(conforms(e, v[j]) for j, e in enumerate(els))
    raise AssertionError(k)


# ------------------------------------------------------------------------------------------
# satisfiability

def _len_bounds(p):
    lo, hi = 0, None
    if "len" in p:
        lo = hi = p["len"]
    if "min_len" in p:
        lo = max(lo, p["min_len"])
    if "max_len" in p:
        hi = p["max_len"] if hi is None else min(hi, p["max_len"])
    return lo, hi


def len_bounds(s):
    """(lowest, highest or None) length a str/list spec allows by its len constraints."""
    return _len_bounds(s.p)


def sat(s, hereditary=False):
    """Is there a conforming value?  hereditary: also in every sub-schema but optional ones."""
    k, p = s.kind, s.p
    if k in ("none", "bool", "bytes", "uuid4", "datetime", "date"):
        return True
    if k in ("int", "float"):
        if "value" in p:
            return conforms(s, p["value"]) is not False
        lo, hi = p.get("min"), p.get("max")
        if k == "float" and ((lo is not None and math.isnan(lo))
                             or (hi is not None and math.isnan(hi))):
            return False
        return lo is None or hi is None or lo <= hi
    if k == "str":
        if "value" in p:
            return conforms(s, p["value"])
        if "pattern" in p:
            return True         # by construction of the generator
        lo, hi = _len_bounds(p)
        if hi is not None and (hi < 0 or lo > hi):
            return False
        sub = p.get("substr", "")
        if hi is not None and len(sub) > hi:
            return False
        if "alphabet" in p:
            if any(c not in p["alphabet"] for c in sub):
                return False
            if not p["alphabet"] and max(lo, len(sub)) > 0:
                return False
        return True
    if k == "any":
        if "types" not in p:
            return True
        f = all if hereditary else any
        return f(sat(t, hereditary) for t in p["types"])
    if k == "alias":
        return sat(p["target"], hereditary)
    if k == "dict":
        return all(o or sat(sub, hereditary) for _, sub, o in p.get("items", ()))
    if k == "list":
        lo, hi = _len_bounds(p)
        if hi is not None and (hi < 0 or lo > hi):
            return False
        mode = p.get("mode")
        if mode == "typed":
            if hereditary:
                return sat(p["type"], True)
            return lo <= 0 or sat(p["type"])
        if mode == "elements":
            m = len(p["elements"])
            if hi is not None and m > hi:
                return False
            if not p.get("head") and not p.get("tail") and m < lo:
                return False
            return all(sat(e, hereditary) for e in p["elements"])
        return True
    raise AssertionError(k)


# ------------------------------------------------------------------------------------------
# d42 <-> spec

def build(s, src=None, memo=None):
    """Declare the spec through the public DSL; src varies the order and form of the calls.
    A spec that occurs more than once (the same object) mostly becomes one schema object; memo
    extends that over several calls."""
    if memo is None:
        memo = None if src is not None and src.chance(30) else {}
    return _build(s, src, memo)


def _build(s, src, memo):
    if memo is None:
        return _declare(s, src, memo)
    hit = memo.get(id(s))
    if hit is None:
        hit = memo[id(s)] = (s, _declare(s, src, memo))
    return hit[1]


def _declare(s, src, memo):
    from d42 import optional, schema
    k, p = s.kind, s.p
    if k == "wrapped":                  # C16: a forwarding custom type around the target
        return p["make"](_build(p["target"], src, memo))
    if k == "alias":
        return schema.alias(p.get("name"), _build(p["target"], src, memo))
    if k == "any":
        if "types" not in p:
            return schema.any
        subs = [_build(t, src, memo) for t in p["types"]]
        form = src.draw(3) if src is not None and len(subs) > 1 else 0
        if form == 1:
            r = subs[0]
            for x in subs[1:]:
                r = r | x
            return r
        if form == 2:
            i = src.draw(len(subs))
            return schema.any(*subs[:i], schema.any(*subs[i:]))
        return schema.any(*subs)
    if k == "dict":
        if "items" not in p:
            return schema.dict
        pairs = []
        for key, sub, opt in p["items"]:
            pairs.append((optional(key) if opt else key, _build(sub, src, memo)))
        ell = p.get("ell")
        if ell is not None:
            pairs.insert(min(ell, len(pairs)), (..., ...))
        if src is not None and len(pairs) > 1 and src.chance(25):
            i = 1 + src.draw(len(pairs) - 1)
            return schema.dict(dict(pairs[:i])) + schema.dict(dict(pairs[i:]))
        return schema.dict(dict(pairs))
    if k == "list":
        r = schema.list
        mode = p.get("mode")
        if mode == "typed":
            r = r(_build(p["type"], src, memo))
        elif mode == "elements":
            els = [_build(e, src, memo) for e in p["elements"]]
            if p.get("head"):
                els.insert(0, ...)
            if p.get("tail"):
                els.append(...)
            r = r(els)
        return _apply_len(r, p)
    r = getattr(schema, k)
    if "value" in p:
        r = r(p["value"])
    calls = []
    if k in ("int", "float"):
        for n in ("min", "max", "precision"):
            if n in p:
                calls.append((n, p[n]))
    elif k == "str":
        for n, m in (("alphabet", "alphabet"), ("substr", "contains"), ("pattern", "regex")):
            if n in p:
                calls.append((m, p[n]))
        if "len" in p or "min_len" in p or "max_len" in p:
            calls.append(("len", None))
    if src is not None and len(calls) > 1:
        calls = src.shuffled(calls)
    for m, arg in calls:
        r = _apply_len(r, p) if m == "len" else getattr(r, m)(arg)
    return r


def _apply_len(r, p):
    if "len" in p:
        return r.len(p["len"])
    if "min_len" in p and "max_len" in p:
        return r.len(p["min_len"], p["max_len"])
    if "min_len" in p:
        return r.len(p["min_len"], ...)
    if "max_len" in p:
        return r.len(..., p["max_len"])
    return r


_KINDS = None


def spec_of(schema):
    """Read a d42 schema back into a spec through its public props.  Custom types give None."""
    global _KINDS
    from niltype import Nil
    if _KINDS is None:
        from d42.declaration import types as t
        _KINDS = [(t.NoneSchema, "none"), (t.BoolSchema, "bool"), (t.IntSchema, "int"),
                  (t.FloatSchema, "float"), (t.StrSchema, "str"), (t.BytesSchema, "bytes"),
                  (t.UUID4Schema, "uuid4"), (t.DateTimeSchema, "datetime"), (t.DateSchema, "date"),
                  (t.ListSchema, "list"), (t.DictSchema, "dict"), (t.AnySchema, "any"),
                  (t.GenericTypeAliasSchema, "alias")]
    for cls, kind in _KINDS:
        if isinstance(schema, cls):
            break
    else:
        return S("custom", cls=type(schema).__name__)
    props = schema.props
    if kind == "none":
        return S("none")
    if kind == "alias":
        name = props.name
        return S("alias", name=None if name is Nil else name, target=spec_of(props.type))
    if kind == "any":
        return S("any") if props.types is Nil else S("any", types=[spec_of(t) for t in props.types])
    if kind == "dict":
        if props.keys is Nil:
            return S("dict")
        items, ell = [], None
        for key, (sub, opt) in props.keys.items():
            if key is ...:
                ell = len(items)
            else:
                items.append((key, S("ellipsis") if sub is ... else spec_of(sub), bool(opt)))
        return S("dict", items=items, ell=ell)
    out = {}
    if kind == "list":
        if props.type is not Nil:
            out.update(mode="typed", type=spec_of(props.type))
        elif props.elements is not Nil:
            els = list(props.elements)
            out["mode"] = "elements"
            if els and els[0] is ...:
                out["head"] = True
                els = els[1:]
            if els and els[-1] is ...:
                out["tail"] = True
                els = els[:-1]
            out["elements"] = [S("ellipsis") if e is ... else spec_of(e) for e in els]
        names = ("len", "min_len", "max_len")
    elif kind == "int":
        names = ("value", "min", "max")
    elif kind == "float":
        names = ("value", "min", "max", "precision")
    elif kind == "str":
        names = ("value", "len", "min_len", "max_len", "alphabet", "substr", "pattern")
    else:
        names = ("value",)
    for n in names:
        v = getattr(props, n)
        if v is not Nil:
            out[n] = v
    return S(kind, **out)


def malformed(s):
    """A spec read back from a schema has `...` where no schema operation can cope with it."""
    return any(x.kind == "ellipsis" for x in walk(s))


# ------------------------------------------------------------------------------------------
# strict comparison of plain values (C14)

def strictly_differs(a, b):
    """a, b plain.  True if they differ in kind, content, length, key set or a nested member,
    leaving aside True/1 and the float tolerance (those give False)."""
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(a, bool) != isinstance(b, bool):
        other = b if isinstance(a, bool) else a
        if isinstance(other, int):
            return a != b       # True vs 1: identified; True vs 2 or 0: different
        return True
    if isinstance(a, float) and isinstance(b, float):
        return float_fixed(a, b, None) is False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b) or any(strictly_differs(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return True
        return any(strictly_differs(a[k], b[k]) for k in a)
    if type(a) is not type(b):
        return True
    return a != b
