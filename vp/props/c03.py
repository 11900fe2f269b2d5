"""C03: every reported error is true, is asked for by the schema, and points at its sub-value."""
import datetime as dt
import re
import uuid

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen
from ..model import conforms, float_fixed, skey, spec_of, vkey
from .pins import BASIC, pinned_target

RULE = ("a case is a schema spec with perturbed (often several times), unrelated or hostile values; "
        "non-trivial: validation reported at least one error")

TYPES = {"none": type(None), "bool": bool, "int": int, "float": float, "str": str, "bytes": bytes,
         "uuid4": uuid.UUID, "datetime": dt.datetime, "date": dt.date, "list": list, "dict": dict}


def same(a, b):
    if a is b:
        return True
    try:
        return vkey(a) == vkey(b)
    except Exception:
        return False


def has_key(d, key):
    return any(eq_key(k, key) for k in d)


def operands(path):
    return [op.operand for op in path]


def resolve(value, ops):
    for k in ops:
        value = value[k]
    return value


def nodes_at(spec, value, ops):
    """Spec nodes whose constraints may be reported at this path of the value."""
    if spec.kind == "alias":
        yield from nodes_at(spec.p["target"], value, ops)
        return
    if not ops:
        yield spec
        return
    key, rest = ops[0], ops[1:]
    p = spec.p
    if spec.kind == "dict":
        for k, sub, _ in p.get("items", ()):
            if eq_key(k, key):
                yield from nodes_at(sub, value[key], rest)
    elif spec.kind == "list" and isinstance(key, int) and not isinstance(key, bool):
        n = len(value)
        if not 0 <= key < n:
            return
        if p.get("mode") == "typed":
            yield from nodes_at(p["type"], value[key], rest)
        elif p.get("mode") == "elements":
            els = p["elements"]
            if p.get("head") and p.get("tail"):
                for j, e in enumerate(els):
                    if key - j >= 0:
                        yield from nodes_at(e, value[key], rest)
                return
            start = max(0, n - len(els)) if p.get("head") else 0
            if 0 <= key - start < len(els):
                yield from nodes_at(els[key - start], value[key], rest)


def _param(nodes, kinds, name, want):
    return any(n.kind in kinds and n.has(name) and same(n.p[name], want) for n in nodes)


def _len(x):
    try:
        return len(x)
    except TypeError:
        return None


def judge(err, sub, nodes):
    """None if the error is true and asked for; else what is wrong with it."""
    name = type(err).__name__
    if name == "TypeValidationError":
        t = err.expected_type
        if isinstance(sub, t):
            return f"the sub-value is an instance of {t}"
        if not any(TYPES.get(n.kind) is t for n in nodes):
            return f"no schema at this path asks for {t}"
    elif name == "ValueValidationError":
        want = err.expected_value
        for n in nodes:
            if n.has("value") and same(n.p["value"], want):
                if n.kind == "float":
                    if not isinstance(sub, float):
                        continue
                    if float_fixed(sub, n.p["value"], n.get("precision")) is not True:
                        return None
                    return "the sub-value equals the fixed value"
                try:
                    differs = not (sub == want)
                except Exception:
                    differs = True
                return None if differs else "the sub-value equals the fixed value"
        return "no schema at this path has that fixed value"
    elif name == "MinValueValidationError":
        if not _param(nodes, ("int", "float"), "min", err.min_value):
            return "no schema at this path has that min"
        if sub >= err.min_value:
            return "the sub-value is not below min"
    elif name == "MaxValueValidationError":
        if not _param(nodes, ("int", "float"), "max", err.max_value):
            return "no schema at this path has that max"
        if sub <= err.max_value:
            return "the sub-value is not above max"
    elif name == "LengthValidationError":
        if not _param(nodes, ("str", "list"), "len", err.length):
            return "no schema at this path has that len"
        if _len(sub) is None or len(sub) == err.length:
            return "the length is right"
    elif name == "MinLengthValidationError":
        if not _param(nodes, ("str", "list"), "min_len", err.min_length):
            return "no schema at this path has that min len"
        if _len(sub) is None or len(sub) >= err.min_length:
            return "the length is not below min len"
    elif name == "MaxLengthValidationError":
        if not _param(nodes, ("str", "list"), "max_len", err.max_length):
            return "no schema at this path has that max len"
        if _len(sub) is None or len(sub) <= err.max_length:
            return "the length is not above max len"
    elif name == "AlphabetValidationError":
        if not _param(nodes, ("str",), "alphabet", err.alphabet):
            return "no schema at this path has that alphabet"
        if not isinstance(sub, str) or all(c in err.alphabet for c in sub):
            return "every character is in the alphabet"
    elif name == "SubstrValidationError":
        if not _param(nodes, ("str",), "substr", err.substr):
            return "no schema at this path has that substring"
        if not isinstance(sub, str) or err.substr in sub:
            return "the substring is there"
    elif name == "RegexValidationError":
        if not _param(nodes, ("str",), "pattern", err.pattern):
            return "no schema at this path has that pattern"
        if not isinstance(sub, str) or re.search(err.pattern, sub):
            return "the pattern matches"
    elif name == "MissingElementValidationError":
        i = err.index
        if not isinstance(sub, list) or i < len(sub):
            return "the element exists"
        for n in nodes:
            if n.kind == "list" and n.get("mode") == "elements":
                m = len(n.p["elements"])
                if n.get("head") and n.get("tail"):
                    if i < max(len(sub), 1) - 1 + m:
                        return None
                elif i < m:
                    return None
        return "no list schema at this path declares that element"
    elif name == "ExtraElementValidationError":
        i = err.index
        if not isinstance(sub, list) or not 0 <= i < len(sub):
            return "there is no such element"
        if not any(n.kind == "list" and n.get("mode") == "elements" and not n.get("head")
                   and not n.get("tail") and len(n.p["elements"]) <= i for n in nodes):
            return "no list schema at this path forbids that element"
    elif name == "MissingKeyValidationError":
        if not isinstance(sub, dict) or has_key(sub, err.missing_key):
            return "the key is present"
        if not any(n.kind == "dict" and any(same(k, err.missing_key) and not o
                                            for k, _, o in n.p.get("items", ())) for n in nodes):
            return "no dict schema at this path requires that key"
    elif name == "ExtraKeyValidationError":
        if not isinstance(sub, dict) or not any(k is err.extra_key or same(k, err.extra_key)
                                                for k in sub):
            return "there is no such key"
        if not any(n.kind == "dict" and n.has("items") and not n.has("ell")
                   and not has_key([k for k, _, _ in n.p["items"]], err.extra_key)
                   for n in nodes):
            return "no dict schema at this path forbids that key"
    elif name == "SchemaMismatchValidationError":
        for n in nodes:
            if n.kind == "any" and n.has("types"):
                got = [skey(spec_of(x)) for x in err.expected_schemas]
                if got != [skey(t) for t in n.p["types"]]:
                    continue
                if conforms(n, sub) is True:
                    return "an alternative accepts the sub-value"
                return None
        return "no union at this path has these alternatives"
    elif name == "InvalidUUIDVersionValidationError":
        if not isinstance(sub, uuid.UUID) or sub.version == 4:
            return "the sub-value is a version 4 UUID"
        if err.actual_version != sub.version or err.expected_version != 4:
            return "wrong versions"
        if not any(n.kind == "uuid4" for n in nodes):
            return "no schema at this path asks for a UUID"
    else:
        return f"unknown kind of error {name}"
    return None


def key_text(k):
    try:
        return repr(k)
    except Exception:
        return hex(k) if isinstance(k, int) else None


def path_text(ops, root="_"):
    parts = [key_text(k) for k in ops]
    if any(t is None for t in parts):
        return None
    return root + "".join(f"[{t}]" for t in parts)


def check_errors(spec, value, errs, ctx, via):
    from d42.validation import Formatter
    from d42.validation.errors import ValidationError
    src_ = to_src(spec)

    def bad(msg, err, **kw):
        text = call(err.format, Formatter())
        raise Violation(msg, via=via, schema=src_, value=vsrc(value)[:1500],
                        error=repr(text)[:600], **kw)
    all_ops = []
    for e in errs:
        if not isinstance(e, ValidationError):
            raise Violation("something other than an error is reported", via=via, schema=src_,
                            value=vsrc(value)[:1500], got=vsrc(e)[:300])
        ops = call(operands, e.path)
        if isinstance(ops, Raised):
            bad("the path cannot be read", e, got=repr(ops))
        all_ops.append(ops)
        sub = call(resolve, value, ops)
        if isinstance(sub, Raised):
            bad("the path leads nowhere", e, path=repr(ops), got=repr(sub))
        if not same(sub, e.actual_value):
            bad("the path does not lead to the reported sub-value", e, path=repr(ops)[:300],
                reached=vsrc(sub)[:300], reported=vsrc(e.actual_value)[:300])
        nodes = list(nodes_at(spec, value, ops))
        wrong = call(judge, e, sub, nodes)
        if isinstance(wrong, Raised):
            if isinstance(wrong.exc, gen.Hostile):
                continue                    # the value refuses to be looked at by the oracle
            wrong = repr(wrong)
        if wrong:
            bad(f"the error is not true: {wrong}", e, path=repr(ops)[:300])
        ctx.check()
        ctx.label(type(e).__name__.replace("ValidationError", "") + f"@{min(len(ops), 4)}")
    # an index or key that is reported twice stands for a sibling's
    facts = []
    for e, ops in zip(errs, all_ops):
        fact = [getattr(e, n) for n in ("index", "missing_key", "extra_key") if hasattr(e, n)]
        if not fact:
            continue
        for e2, ops2, fact2 in facts:
            if type(e) is type(e2) and (fact[0] is fact2 or type(fact[0]) is type(fact2) is int
                                        and fact[0] == fact2) and len(ops) == len(ops2) \
                    and all(eq_key(a, b) for a, b in zip(ops, ops2)):
                bad("the same index or key is reported twice", e)
        if len(facts) < 40:
            facts.append((e, ops, fact[0]))
    # messages name the path; rendering one error changes no error
    texts = []
    for e, ops in zip(errs, all_ops):
        name = type(e).__name__
        text = call(e.format, Formatter())
        if isinstance(text, Raised):
            bad("the error does not render", e, got=repr(text))
        texts.append(text)
        shown = list(ops)
        if name == "MissingKeyValidationError":
            shown.append(e.missing_key)
        elif name == "MissingElementValidationError":
            shown.append(e.index)
        if shown:
            want = path_text(shown)
            if want is not None and not re.search(re.escape(want) + r"(?!\[)", text):
                bad("the message does not name the path", e, path=want)
        elif re.match(r"(Value|Key|Element)( <class '[^']*'>)? at _", text):
            bad("the message names a path although the error is at the root", e)
        if name == "ExtraKeyValidationError":
            kt = key_text(e.extra_key)
            if kt is not None and kt not in text:
                bad("the message does not name the extra key", e)
        if name == "ExtraElementValidationError" and not re.search(rf"\b{e.index}\b", text):
            bad("the message does not name the extra index", e)
    for e, ops, text in zip(errs, all_ops, texts):
        again = operands(e.path)
        if len(again) != len(ops) or any(a is not b and a != b for a, b in zip(again, ops)):
            bad("rendering changed an error's path", e, before=repr(ops), after=repr(again))
        if call(e.format, Formatter()) != text and "0x" not in text:
            bad("rendering is not repeatable", e)
        alt = call(e.format, Formatter("root"))
        if ops and isinstance(alt, str):
            want = path_text(ops, "root")
            if want is not None and want not in alt:
                bad("the message does not name the path under another root", e, got=alt)


def check(spec, schema, value, ctx):
    errs = errors_of(schema, value)
    if isinstance(errs, Raised):
        raise Discard("C08's")
    check_errors(spec, value, errs, ctx, "validate")
    return len(errs)


def check_subst(spec, schema, value, ctx):
    """The validator that substitution uses reports true errors too."""
    from d42.substitution import SubstitutorValidator
    r = call(lambda: list(schema.__accept__(SubstitutorValidator(), value=value).get_errors()))
    if isinstance(r, Raised):
        return
    check_errors(spec, value, r, ctx, "substitution")


OPT = gen.Opt(sat=False, special=True, levels=30, huge=True, huge_len=True, obj_keys=True)


def make_value(spec, src):
    f = src.draw(10)
    if f < 2:
        return gen.near_value(spec, src)[1]
    try:
        v = gen.conf(spec, src)
    except Discard:
        v = gen.gen_plain(src, 2)
    if src.chance(10):
        v = gen.subclassed(v, src)
    if f < 9:
        for _ in range(src.integer(1, 4)):
            v = gen.perturb(v, src)
        return v
    return gen.inject(v, src, gen.gen_hostile(src)[1])


def _case(src, ctx, spec):
    schema = build(spec, src)
    n = 0
    for i in range(3):
        v = make_value(spec, src)
        k = check(spec, schema, v, ctx)
        n += k
        if k:
            ctx.nontrivial((to_src(spec), vsrc(v)))
            ctx.label("errors:" + (str(k) if k < 4 else "4+"))
        if i == 0:
            check_subst(spec, schema, v, ctx)
    if ctx.wants_sample and n:
        ctx.sample({"schema": to_src(spec), "value": vsrc(v), "errors": fmt_errors(
            errors_of(schema, v))})


def case(src, ctx):
    _case(src, ctx, gen.gen_spec(src, opt=OPT))


def case_deep(src, ctx):
    """Nested containers, so that paths are long and have siblings."""
    if src.chance(15):
        return _case(src, ctx, gen.deep_spec(src, OPT))
    spec = gen.gen_spec(src, depth=0, opt=OPT)
    for _ in range(src.integer(2, 5)):
        sib = gen.gen_spec(src, depth=0, opt=OPT)
        f = src.draw(6)
        if f == 0:
            spec = S("dict", items=[("a", sib, src.chance(30)), ("b", spec, False)],
                     ell=0 if src.chance(30) else None)
        elif f == 1:
            spec = S("list", mode="typed", type=spec)
        elif f == 2:
            spec = S("alias", name="X", target=S("dict", items=[(1, spec, False), (0, sib, True)]))
        else:
            spec = S("list", mode="elements", elements=[spec, sib] if f != 4 else [sib, spec],
                     head=True if f in (3, 5) else None, tail=True if f == 5 else None)
    _case(src, ctx, spec)


def targets():
    return [pinned_target(lambda spec, schema, v, ctx: (check(spec, schema, v, ctx),
                                                        check_subst(spec, schema, v, ctx))),
            Target("specs", case, 90000, 2000000),
            Target("deep", case_deep, 60000, 1000000),
            Target("wide", gen.wide(case), 4000, 200000),
            Target("small", gen.small(case), 50000, 1000000)]
