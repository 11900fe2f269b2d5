"""C08: validation never raises, errors render, validate_or_fail and format_result report them."""
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen
from ..model import conforms
from .pins import BASIC

RULE = ("a case is a schema spec with hostile values (non-finite and huge numbers, foreign numeric "
        "types, subclasses of built-ins, odd keys, opaque objects, cycles) alone, nested in a "
        "conforming value at any position, or as keys; the exhaustive target crosses every pinned "
        "schema with every hostile value; non-trivial: a distinct (schema, value) pair for which at "
        "least one error was reported or a hostile part was accepted")

OPT = gen.Opt(sat=False, special=True, levels=30, huge=True, huge_len=True, obj_keys=True)


def check(spec, schema, value, ctx, show):
    from d42 import validate, validate_or_fail
    from d42.validation import (Formatter, ValidationException, format_result)

    def bad(msg, **kw):
        raise Violation(msg, schema=to_src(spec), value=show, **kw)
    r = call(validate, schema, value)
    if isinstance(r, Raised):
        bad("validate raised", got=repr(r))
    errs = call(lambda: list(r.get_errors()))
    if isinstance(errs, Raised):
        bad("the result has no errors to read", got=repr(errs))
    has = call(r.has_errors)
    if has is not bool(errs):
        bad("has_errors() disagrees with get_errors()", has_errors=repr(has), errors=len(errs))
    texts = []
    for e in errs:
        if not callable(getattr(e, "format", None)):
            bad("an error does not render to a non-empty message", error=vsrc(e)[:300])
        t = call(e.format, Formatter())
        if not isinstance(t, str) or not t.strip():
            bad("an error does not render to a non-empty message",
                error=type(e).__name__, got=repr(t))
        t2 = call(e.format, Formatter("root"))
        if not isinstance(t2, str) or not t2.strip():
            bad("an error does not render under another root",
                error=type(e).__name__, got=repr(t2))
        texts.append(t)
    ctx.check()
    out = call(validate_or_fail, schema, value)
    if not errs:
        if out is not True:
            bad("validate_or_fail is not True although there are no errors", got=repr(out))
    else:
        if not isinstance(out, Raised):
            bad("validate_or_fail returned although there are errors", got=repr(out),
                errors=texts[:3])
        if not isinstance(out.exc, ValidationException):
            bad("validate_or_fail raised something other than ValidationException", got=repr(out))
        msg = str(out.exc)
        why = lines(msg, texts)
        if why:
            bad(f"the exception does not carry one line per error: {why}", message=msg[:1500],
                errors=[t[:300] for t in texts[:6]])
        if not isinstance(out.exc, AssertionError):
            bad("ValidationException is not an AssertionError")
    fr = call(format_result, r)
    if isinstance(fr, Raised) or not isinstance(fr, list):
        bad("format_result raised", got=repr(fr))
    if not errs and fr:
        bad("format_result is not empty although there are no errors", got=repr(fr)[:500])
    if errs:
        if len(fr) < len(errs) or any(t not in line for t, line in
                                      zip(texts, fr[len(fr) - len(errs):])):
            if not any("0x" in t for t in texts):
                bad("format_result does not list the errors", got=repr(fr)[:800],
                    errors=[t[:300] for t in texts[:6]])
    eq = call(lambda: schema == value)
    if eq is not (not errs):
        bad("schema == value disagrees with validate", got=repr(eq), errors=texts[:3])
    return len(errs)


def lines(msg, texts):
    """Every error, in order, starting a line of its own; nothing else."""
    pos = 0
    for i, t in enumerate(texts):
        at = msg.find(t, pos)
        if at < 0:
            return f"error {i + 1} is missing"
        lead = msg[pos:at]
        if i and "\n" not in lead:
            return f"error {i + 1} does not start a line"
        if lead.strip(" \n-*\t"):
            return f"foreign text before error {i + 1}: {lead[:80]!r}"
        pos = at + len(t)
    if msg[pos:].strip(" \n-*\t"):
        return f"foreign text after the last error: {msg[pos:][:80]!r}"
    return None


def safe_src(v):
    try:
        return vsrc(v)[:1500]
    except RecursionError:
        return f"<deep or cyclic {type(v).__name__}>"


def deep(n, kind):
    v = []
    for _ in range(n):
        v = [v] if kind else {"a": v}
    return v


def cyclic(kind):
    if kind:
        v = [1]
        v.append(v)
        return v
    v = {"a": 1}
    v["b"] = v
    return v


def hostile(src):
    f = src.draw(20)
    if f == 19:
        return "cyclic", cyclic(src.draw(2))
    if f == 18:
        return "deep", deep(src.pick([50, 400, 3000]), src.draw(2))
    return gen.gen_hostile(src, 1)


def case(src, ctx):
    spec = gen.gen_spec(src, opt=OPT)
    schema = build(spec, src)
    for _ in range(3):
        f = src.draw(10)
        label, new = hostile(src)
        if f == 0:
            v = new
        else:
            try:
                v = gen.conf(spec, src)
            except Discard:
                v = gen.gen_plain(src, 2)
            if f == 9:
                label, v = "perturbed", gen.perturb(gen.perturb(v, src), src)
            else:
                v = gen.inject(v, src, new)
                if f > 6:
                    l2, new2 = hostile(src)
                    try:
                        v = gen.inject(v, src, new2)
                    except (TypeError, ValueError, RecursionError):
                        pass
        show = safe_src(v)
        n = check(spec, schema, v, ctx, show)
        ctx.label(("rejected:" if n else "accepted:") + label.replace("-in-list", "")
                  .replace("-in-dict", ""))
        ctx.nontrivial((to_src(spec), show))
    if ctx.wants_sample:
        ctx.sample({"schema": to_src(spec), "value": show[:300], "errors": n})


def pairs():
    """Each pinned schema, alone and as a member, with each hostile value, alone and as a member."""
    for spec, _ in BASIC:
        for wrap in range(4):
            if wrap == 0:
                s, f = spec, lambda v: v
            elif wrap == 1:
                s, f = S("list", mode="typed", type=spec), lambda v: [v, v]
            elif wrap == 2:
                s = S("dict", items=[("a", spec, False), ("b", spec, True)])
                f = lambda v: {"a": v, "b": v}      # noqa: E731
            else:
                s, f = S("any", types=[S("none"), spec, S("alias", name="A", target=spec)]), \
                    lambda v: v
            yield s, f


def exhaustive(shard, nshards, ctx):
    n = 0
    for i, (spec, f) in enumerate(pairs()):
        if i % nshards != shard:
            continue
        schema = build(spec)
        for label, v in gen.zoo() + [("cyclic", cyclic(0)), ("cyclic", cyclic(1)),
                                     ("deep", deep(3000, 1)), ("deep", deep(3000, 0))]:
            w = f(v)
            show = f"{label} in {safe_src(w)}"
            k = check(spec, schema, w, ctx, show)
            n += 1
            if k or conforms_safe(spec, w):
                ctx.nontrivial((to_src(spec), label))
    return n


def conforms_safe(spec, w):
    try:
        return conforms(spec, w) is True
    except Exception:
        return False


def targets():
    return [Target("pinned", exhaustive, 1, 1, exhaustive=True),
            Target("specs", case, 60000, 1500000),
            Target("deep", gen.deep(case), 4000, 200000),
            Target("wide", gen.wide(case), 2000, 200000),
            Target("small", gen.small(case), 30000, 800000)]
