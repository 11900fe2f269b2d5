"""Helpers shared by the property modules."""
from . import gen, model
from collections import defaultdict

from .engine import CaseTimeout, Discard, Violation
from .model import S, to_src, vsrc


class Raised:
    """An exception that came out of the code under test."""
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        try:
            text = str(self.exc)
        except Exception:
            text = "<no message>"
        return f"{type(self.exc).__name__}: {text[:300]}"


def call(fn, *args, **kwargs):
    """Result of the call, or Raised.  Engine signals pass through."""
    try:
        return fn(*args, **kwargs)
    except (Discard, Violation, CaseTimeout, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return Raised(e)


def build(spec, src=None, memo=None):
    """Build; a spec that the DSL refuses is outside the domain (the generators aim not to)."""
    r = call(model.build, spec, src, memo)
    if isinstance(r, Raised):
        raise Discard(f"build: {r!r}")
    return r


def errors_of(schema, value):
    """List of validation errors, or Raised."""
    from d42 import validate
    r = call(validate, schema, value)
    if isinstance(r, Raised):
        return r
    return call(lambda: list(r.get_errors()))


def accepts(schema, value):
    """True / False / Raised."""
    from d42 import validate
    r = call(validate, schema, value)
    if isinstance(r, Raised):
        return r
    return call(lambda: not r.has_errors())


def fmt_errors(errs):
    from d42.validation import Formatter
    out = []
    for e in errs[:5]:
        t = call(e.format, Formatter())
        out.append(repr(t) if isinstance(t, Raised) else t[:300])
    return out


def snapshot(v):
    """Deep, type-strict key of a (possibly hostile) value, for mutation checks."""
    return model.vkey(v)


def eq_key(a, b):
    """As a dict compares keys; a hostile key may be equal to itself by identity only."""
    try:
        return a is b or (hash(a) == hash(b) and bool(a == b))
    except Exception:
        return False


def copy_plain(v):
    if type(v) is list:
        return [copy_plain(x) for x in v]
    if type(v) is dict:
        return {k: copy_plain(x) for k, x in v.items()}
    if type(v) is tuple:
        return tuple(copy_plain(x) for x in v)
    if type(v) is defaultdict:
        return defaultdict(v.default_factory, {k: copy_plain(x) for k, x in v.items()})
    return v


def label_spec(ctx, spec):
    ctx.label("kind:" + spec.kind)
    for s in model.walk(spec):
        if s.kind == "list" and s.get("mode"):
            form = s.get("mode")
            if form == "elements":
                form = {(False, False): "exact", (True, False): "tail", (False, True): "head",
                        (True, True): "contains"}[(bool(s.get("head")), bool(s.get("tail")))]
            ctx.label("list:" + form + ("+len" if any(s.has(n) for n in
                                                      ("len", "min_len", "max_len")) else ""))
        elif s.kind == "dict" and s.has("ell"):
            ctx.label("dict:relaxed")
        elif s.kind == "str" and s.has("pattern"):
            ctx.label("str:regex")
        elif s.kind == "float" and s.has("precision"):
            ctx.label("float:precision")


__all__ = ["eq_key", "Raised", "call", "build", "errors_of", "accepts", "fmt_errors", "snapshot",
           "copy_plain", "label_spec", "Discard", "Violation", "S", "to_src", "vsrc", "gen", "model"]
