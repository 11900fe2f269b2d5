"""Shared by C04, C05, C12: substitution cases and the relations between S, v and S % v."""
import datetime as dt
import math
import uuid

from .common import *          # noqa: F401,F403
from . import gen
from .model import S, malformed, sat, skey, spec_of, walk

PLAIN = (type(None), bool, int, float, str, bytes, uuid.UUID, dt.datetime, dt.date)


def is_plain(v):
    if type(v) is list:
        return all(is_plain(x) for x in v)
    if type(v) is dict:
        return all(is_plain(x) for x in v.values()) and not any(k is ... for k in v)
    return type(v) in PLAIN


def plain_value(spec, src, partial=True):
    """A plain value that has a fair chance to substitute."""
    f = src.draw(10)
    try:
        v = gen.conf(spec, src, partial=partial and f < 6)
    except Discard:
        v = gen.gen_plain(src, 2)
    if f == 9:
        v = gen.perturb(v, src)
    if not is_plain(v):
        raise Discard("not plain")
    return v


def start(src, opt, partial=True):
    """(spec, schema, v, R): R = schema % v succeeded; the schema may itself be a result."""
    from d42 import substitute
    from d42.substitution.errors import SubstitutionError
    spec = gen.gen_spec(src, opt=opt)
    schema = build(spec, src)
    for step in range(2):
        v = plain_value(spec, src, partial)
        r = call(substitute, schema, v)
        if isinstance(r, Raised):
            if isinstance(r.exc, SubstitutionError):
                raise Discard("refused")
            raise Discard("C12's")
        if step == 1 or not src.chance(20):
            return spec, schema, v, r
        schema, spec = r, spec_of(r)
        if malformed(spec):
            raise Discard("malformed")


def slack(spec):
    """Largest rounding a declared precision allows, 0 if none."""
    return max((10.0 ** -s.p["precision"] for s in walk(spec)
                if s.kind == "float" and s.has("precision")), default=0.0)


def carries(v, w, eps):
    """Does w carry the substituted data v?  Returns None or where it does not."""
    if isinstance(v, dict):
        if not isinstance(w, dict):
            return "a dict was substituted"
        for k in v:
            if k not in w:
                return f"key {k!r} is missing"
            r = carries(v[k], w[k], eps)
            if r:
                return f"[{k!r}] {r}"
        return None
    if isinstance(v, list):
        if not isinstance(w, list):
            return "a list was substituted"
        if len(v) != len(w):
            return f"length {len(w)} instead of {len(v)}"
        for i, (a, b) in enumerate(zip(v, w)):
            r = carries(a, b, eps)
            if r:
                return f"[{i}] {r}"
        return None
    if isinstance(v, float):
        if not isinstance(w, float):
            return "a float was substituted"
        if v == w or (math.isnan(v) and math.isnan(w)):
            return None
        if math.isfinite(v) and math.isfinite(w):
            # two floats one unit of precision apart may both be rounded to the one between them
            noise = 8 * (math.ulp(v) + math.ulp(w)) if eps else 0.0
            if abs(v - w) <= max(2e-9 * max(abs(v), abs(w)), eps * (1 + 1e-9) + noise):
                return None
        return "another float"
    if isinstance(v, bool) != isinstance(w, bool) and not (isinstance(w, int)
                                                          and isinstance(v, int)):
        return "another kind"
    if isinstance(v, (str, bytes, uuid.UUID, type(None))) and not isinstance(w, type(v)):
        return "another kind"
    if isinstance(v, (int, dt.date)) and not isinstance(w, (int, dt.date)):
        return "another kind"
    return None if v == w else "another value"


def keeps(s, v, r):
    """Unspecified dict keys keep their schema and optionality, given keys are required.
    s: spec of S, r: spec of R.  Returns None or what was not kept."""
    if s.kind == "alias":
        return keeps(s.p["target"], v, r.p["target"]) if r.kind == "alias" else None
    if s.kind == "any":
        if not s.has("types") or r.kind != "any" or not r.has("types"):
            return None
        for t in r.p["types"]:
            why = [keeps(alt, v, t) for alt in s.p["types"] if alt.kind == t.kind]
            if why and all(why):
                return f"in an alternative: {why[0]}"
        return None
    if s.kind == "dict":
        if r.kind != "dict" or not isinstance(v, dict) or not s.has("items"):
            return None
        if s.has("ell") != r.has("ell"):
            return "`...: ...` was " + ("dropped" if s.has("ell") else "added")
        got = {k: (sub, opt) for k, sub, opt in r.p.get("items", ())}
        want = {k: (sub, opt) for k, sub, opt in s.p["items"]}
        for k in v:
            if k not in got:
                return f"key {k!r} was not pinned"
            if got[k][1]:
                return f"key {k!r} is still optional"
            if k in want:
                why = keeps(want[k][0], v[k], got[k][0])
                if why:
                    return f"[{k!r}] {why}"
        for k, (sub, opt) in want.items():
            if k in v:
                continue
            if k not in got:
                return f"key {k!r} was dropped"
            if got[k][1] != opt:
                return f"optionality of key {k!r} changed"
            if skey(sub, ordered=False) != skey(got[k][0], ordered=False):
                return f"schema of key {k!r} changed"
        for k in got:
            if k not in want and k not in v:
                return f"key {k!r} appeared"
        return None
    if s.kind == "list":
        if r.kind != "list" or not isinstance(v, list) or r.get("mode") != "elements":
            return None
        els = r.p["elements"]
        if len(els) != len(v) or r.get("head") or r.get("tail"):
            return None
        if s.get("mode") == "typed":
            pairs = [(s.p["type"], i) for i in range(len(v))]
        elif s.get("mode") == "elements":
            m = len(s.p["elements"])
            if s.get("head") and s.get("tail"):
                return None
            first = len(v) - m if s.get("head") else 0
            if first < 0:
                return None
            pairs = [(e, first + j) for j, e in enumerate(s.p["elements"]) if first + j < len(v)]
        else:
            return None
        for sub, i in pairs:
            why = keeps(sub, v[i], els[i])
            if why:
                return f"[{i}] {why}"
    return None


def contains_lists(spec):
    return any(x.kind == "list" and x.get("head") and x.get("tail") for x in walk(spec))


def expand(spec, v, src, depth=2):
    """Add conforming values for declared keys that v does not give (some optional ones too)."""
    if spec.kind == "alias":
        return expand(spec.p["target"], v, src, depth)
    if spec.kind == "dict" and isinstance(v, dict):
        if not spec.has("items"):
            return v
        out = {}
        for k, sub, opt in spec.p["items"]:
            if k in v:
                out[k] = expand(sub, v[k], src, depth - 1)
            elif not opt or (src.chance(50) and sat(sub)):
                out[k] = gen.conf(sub, src, depth - 1)
        for k in v:
            if k not in out:
                out[k] = v[k]
        if "ell" in spec.p and spec.p["items"] and src.chance(30):
            out.setdefault(gen.gen_key(src), gen.gen_plain(src, 1))
        return out
    if spec.kind == "list" and isinstance(v, list):
        if spec.get("mode") == "typed":
            return [expand(spec.p["type"], x, src, depth - 1) for x in v]
        if spec.get("mode") == "elements":
            els = spec.p["elements"]
            if spec.get("head") and spec.get("tail"):
                return v
            first = len(v) - len(els) if spec.get("head") else 0
            if first < 0 or first + len(els) > len(v):
                return v
            out = list(v)
            for j, e in enumerate(els):
                out[first + j] = expand(e, v[first + j], src, depth - 1)
            return out
    return v
