"""C16: a forwarding custom type behaves like the built-in it wraps, in every position."""
import random

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, subst
from ..model import conforms, sat, vkey, walk
from .c12 import hostile, place_ellipsis
from .pins import BASIC

RULE = ("a case is a schema tree with a random set of nodes wrapped in forwarding custom types (one to "
        "three layers) next to the same tree without them, and values of every kind; non-trivial: at "
        "least one hook of a wrapped node below the root ran")
ASSUMPTIONS = ["an `any` that is itself an alternative of an `any` is not wrapped: d42 flattens it, which "
               "a custom type cannot ask for",
               "substitution through a wrapped node may return the wrapped or the bare result; both are "
               "tried"]

# keyword arguments that d42 knows nothing about
EXTRA = [{"vp_extra": 1}, {"vp_extra": [1], "other": None}, {"strict": True, "partial": False},
         {"tag": "", "_x": 0}]

_CACHE = {}


def custom_types():
    """Forwarding types, written the ways a user would; they log the calls their hooks get."""
    if _CACHE:
        return _CACHE
    from niltype import Nil
    from d42.custom_type import CustomSchema, Props, register_type

    class Log:
        calls = []
        busy = None         # what the hooks do besides forwarding

        @classmethod
        def hook(cls, *call):
            cls.calls.append(call)
            if cls.busy is not None:
                cls.busy()

    def forward(inner, visitor, **kwargs):
        out = inner.__accept__(visitor, **kwargs)
        if Log.busy is not None:
            Log.busy()
        return out

    class ForwardProps(Props):
        @property
        def inner(self):
            return self.get("inner")

    class Forward(CustomSchema[ForwardProps]):
        """Keeps the custom type around the result of a substitution."""

        def __call__(self, inner):
            return self.__class__(self.props.update(inner=inner))

        def __represent__(self, visitor, *, indent=0, **kwargs):
            Log.hook("represent", visitor, Nil, Nil, kwargs)
            return forward(self.props.inner, visitor, indent=indent, **kwargs)

        def __generate__(self, visitor, **kwargs):
            Log.hook("generate", visitor, Nil, Nil, kwargs)
            return forward(self.props.inner, visitor, **kwargs)

        def __validate__(self, visitor, *, value=Nil, path=Nil, **kwargs):
            Log.hook("validate", visitor, value, path, kwargs)
            return forward(self.props.inner, visitor, value=value, path=path, **kwargs)

        def __substitute__(self, visitor, *, value=Nil, **kwargs):
            Log.hook("substitute", visitor, value, Nil, kwargs)
            inner = forward(self.props.inner, visitor, value=value, **kwargs)
            return self.__class__(self.props.update(inner=inner))

    class Bare(Forward):
        """Returns the substituted built-in itself."""

        def __substitute__(self, visitor, *, value=Nil, **kwargs):
            Log.hook("substitute", visitor, value, Nil, kwargs)
            return forward(self.props.inner, visitor, value=value, **kwargs)

    class Plain(Forward):
        """Takes everything through **kwargs; holds the inner schema in the instance's props only."""

        def __represent__(self, visitor, **kwargs):
            kw = {k: v for k, v in kwargs.items() if k != "indent"}
            Log.hook("represent", visitor, Nil, Nil, kw)
            return forward(self.props.inner, visitor, **kwargs)

        def __validate__(self, visitor, **kwargs):
            kw = {k: v for k, v in kwargs.items() if k not in ("value", "path")}
            Log.hook("validate", visitor, kwargs["value"], kwargs["path"], kw)
            return forward(self.props.inner, visitor, **kwargs)

        def __substitute__(self, visitor, **kwargs):
            kw = {k: v for k, v in kwargs.items() if k != "value"}
            Log.hook("substitute", visitor, kwargs["value"], Nil, kw)
            return self.__class__(self.props.set("inner",
                                                 forward(self.props.inner, visitor, **kwargs)))

    register_type("vp_forward", Forward)
    register_type("vp_bare", Bare)
    register_type("vp_plain", Plain)
    _CACHE.update(Log=Log, classes=[("vp_forward", Forward), ("vp_bare", Bare), ("vp_plain", Plain)])
    return _CACHE


def maker(src):
    from d42 import schema
    ct = custom_types()
    layers = src.weighted([(7, 1), (2, 2), (1, 3)])
    names = [src.pick(ct["classes"]) for _ in range(layers)]

    def make(inner):
        for name, cls in names:
            c = getattr(schema, name)
            if type(c) is not cls:
                raise Violation("register_type does not expose the type on the facade",
                                name=name, got=repr(type(c)))
            inner = c(inner)
        return inner
    return make


def wrap(spec, src, rate, in_any=False, top=True):
    """The spec with some nodes replaced by "wrapped" nodes."""
    def sub(s, **kw):
        return wrap(s, src, rate, top=False, **kw)
    p = dict(spec.p)
    k = spec.kind
    if k == "list" and "type" in p:
        p["type"] = sub(p["type"])
    elif k == "list" and "elements" in p:
        p["elements"] = [sub(e) for e in p["elements"]]
    elif k == "dict" and "items" in p:
        p["items"] = [(key, sub(s), opt) for key, s, opt in p["items"]]
    elif k == "any" and "types" in p:
        p["types"] = [sub(t, in_any=True) for t in p["types"]]
    elif k == "alias":
        p["target"] = sub(p["target"])
    new = S(k, **p)
    if src.chance(rate) and not (in_any and k == "any"):
        return S("wrapped", target=new, make=maker(src))
    return new


def error_key(e):
    from d42.validation import Formatter
    path = getattr(e, "path", None)
    ops = [(type(op).__name__, op.operand) for op in path] if path is not None else None
    text = call(e.format, Formatter())
    return (type(e).__name__, [(n, type(o).__name__, vkey(o)) for n, o in ops or ()],
            repr(text) if isinstance(text, Raised) else text)


def errors_key(errs):
    return repr(errs) if isinstance(errs, Raised) else [error_key(e) for e in errs]


def outcome(r):
    if isinstance(r, Raised):
        return (type(r.exc).__name__, repr(r))
    return "ok"


class Pair:
    def __init__(self, spec, plain, custom, src, ctx, info, steps=2):
        self.spec, self.plain, self.custom = spec, plain, custom
        self.src, self.ctx, self.info = src, ctx, info
        self.steps = steps

    def bad(self, msg, **kw):
        raise Violation(msg, **self.info, **kw)

    def log(self):
        log = custom_types()["Log"].calls
        out = list(log)
        log.clear()
        return out

    def kwargs_seen(self, calls, visitor, kwargs, what):
        """Hooks called by the visitor we drove must have got our keyword arguments."""
        for hook, vis, value, path, kw in calls:
            if vis is visitor:
                self.ctx.check()
                if kw != kwargs:
                    self.bad(f"extra keyword arguments of {what} did not reach a custom member",
                             hook=hook, passed=repr(kwargs), received=repr(kw))

    # -------------------------------------------------------------------------------- repr
    def represent(self):
        from d42 import represent
        from d42.representation import Representor
        a, b = call(repr, self.plain), call(repr, self.custom)
        self.ctx.check()
        if isinstance(a, Raised):
            if not isinstance(b, Raised):
                self.bad("printed, although the built-in is not", plain=repr(a), custom=b)
            return
        if a != (repr(b) if isinstance(b, Raised) else b):
            self.bad("the printed form differs", plain=a, custom=repr(b))
        kwargs = self.src.pick([{}, *EXTRA])
        name = self.src.pick(["schema", "s", "d42.schema"])
        width = self.src.pick([4, 2, 0, 3])
        indent = self.src.pick([0, 4, 1, 7])
        self.log()
        r = Representor(name, width)
        x = call(self.plain.__accept__, r, indent=indent, **kwargs)
        y = call(self.custom.__accept__, r, indent=indent, **kwargs)
        calls = self.log()
        if repr(x) != repr(y):
            self.bad("the printed form differs", plain=x, custom=y,
                     representor=f"Representor({name!r}, {width})", indent=indent, kwargs=kwargs)
        self.kwargs_seen(calls, r, kwargs, "represent")
        if call(represent, self.custom) != a:
            self.bad("represent() differs from repr()", plain=a,
                     custom=repr(call(represent, self.custom)))

    # -------------------------------------------------------------------------------- validate
    def validate(self, value):
        from d42 import validate, validate_or_fail
        from d42.validation import Validator
        self.log()
        a = errors_of(self.plain, value)
        b = errors_of(self.custom, value)
        calls = self.log()
        self.ctx.check()
        ka, kb = errors_key(a), errors_key(b)
        if ka != kb:
            self.bad("validation differs", value=vsrc_safe(value), plain=ka, custom=kb)
        if any(c[0] == "validate" for c in calls):
            self.ctx.label("hook:validate")
            if not isinstance(a, Raised) and a:
                self.ctx.label("hook:errors")
        self.located(calls, value)
        kwargs = self.src.pick([{}, *EXTRA])
        if kwargs or self.src.chance(30):
            v = self.src.pick([Validator, None])
            if v is None:
                from d42.substitution import SubstitutorValidator as v
            v = v()
            x = call(lambda: self.plain.__accept__(v, value=value, **kwargs).get_errors())
            self.log()
            y = call(lambda: self.custom.__accept__(v, value=value, **kwargs).get_errors())
            calls = self.log()
            if errors_key(x) != errors_key(y):
                self.bad("validation with keyword arguments differs", value=vsrc_safe(value),
                         kwargs=kwargs, plain=errors_key(x), custom=errors_key(y),
                         validator=type(v).__name__)
            self.kwargs_seen(calls, v, kwargs, "validate")
        if self.src.chance(20):
            x = call(validate_or_fail, self.plain, value)
            y = call(validate_or_fail, self.custom, value)
            if (outcome(x), repr(x)) != (outcome(y), repr(y)):
                self.bad("validate_or_fail differs", value=vsrc_safe(value), plain=repr(x),
                         custom=repr(y))
            from d42.declaration import Schema
            if not isinstance(value, Schema):
                x, y = call(lambda: self.plain == value), call(lambda: self.custom == value)
                if repr(x) != repr(y):
                    self.bad("== differs", value=vsrc_safe(value), plain=repr(x), custom=repr(y))
        return a

    def located(self, calls, value):
        """Each hook gets the path at which its value lies."""
        if not subst.is_plain(value):
            return
        for hook, vis, val, path, kw in calls:
            if hook != "validate":
                continue
            ops = [op.operand for op in path]
            try:
                at = gen.get_at(value, ops)
            except (KeyError, IndexError, TypeError):
                self.bad("a custom member got a path that does not exist in the value",
                         value=vsrc_safe(value), path=repr(path))
            self.ctx.check()
            if at is not val:
                self.bad("a custom member got the path of another part of the value",
                         value=vsrc_safe(value), path=repr(path), at_path=vsrc_safe(at),
                         received=vsrc_safe(val))
            if ops:
                self.ctx.label("hook:below-root")
                self.deep = True

    deep = False

    # -------------------------------------------------------------------------------- generate
    def generate(self):
        from d42 import fake
        from d42.generation import Generator, Random, RegexGenerator
        seed = self.src.draw(1 << 30)
        random.seed(seed)
        a = call(fake, self.plain)
        random.seed(seed)
        self.log()
        b = call(fake, self.custom)
        calls = self.log()
        if any(c[0] == "generate" for c in calls):
            self.ctx.label("hook:generate")
        if isinstance(a, Raised):
            return None
        if isinstance(b, Raised):
            if sat(self.spec, hereditary=True):
                self.bad("generation fails", plain=vsrc_safe(a), custom=repr(b))
            return None
        self.ctx.check()
        if accepts(self.plain, a) is True:
            if accepts(self.plain, b) is False:
                self.bad("generation yields a value the built-in rejects", generated=vsrc_safe(b),
                         errors=fmt_errors(errors_of(self.plain, b)))
            if sat(self.spec, hereditary=True) and conforms(self.spec, b) is False \
                    and conforms(self.spec, a) is not False:
                self.bad("generation yields a non-conforming value", generated=vsrc_safe(b))
        if self.src.chance(20):
            r = Random()
            g = Generator(r, RegexGenerator(r))
            self.log()
            kwargs = self.src.pick(EXTRA)
            call(self.custom.__accept__, g, **kwargs)
            self.kwargs_seen(self.log(), g, kwargs, "generate")
        return b

    # -------------------------------------------------------------------------------- substitute
    def substitute(self, value):
        from d42 import substitute
        from d42.substitution import Substitutor
        a = call(substitute, self.plain, value)
        self.log()
        b = call(substitute, self.custom, value)
        calls = self.log()
        if any(c[0] == "substitute" for c in calls):
            self.ctx.label("hook:substitute")
        self.ctx.check()
        if outcome(a) != outcome(b):
            self.bad("substitution differs", value=vsrc_safe(value),
                     plain=call(repr, a), custom=call(repr, b))
        if self.src.chance(25):
            s, kwargs = Substitutor(), self.src.pick(EXTRA)
            self.log()
            c = call(self.custom.__accept__, s, value=value, **kwargs)
            calls = self.log()
            if outcome(c) != outcome(b):
                self.bad("substitution with keyword arguments differs", value=vsrc_safe(value),
                         without=call(repr, b), with_=call(repr, c))
            self.kwargs_seen(calls, s, kwargs, "substitute")
            c = call(lambda: self.custom % value)
            if outcome(c) != outcome(b):
                self.bad("% differs from substitute", value=vsrc_safe(value),
                         substitute=call(repr, b), percent=call(repr, c))
        if isinstance(a, Raised):
            self.ctx.label("refused")
            return
        self.ctx.label("substituted")
        x, y = call(repr, a), call(repr, b)
        if repr(x) != repr(y):
            self.bad("the results of the substitution print differently", value=vsrc_safe(value),
                     plain=repr(x), custom=repr(y))
        spec = call(model.spec_of, a)
        if isinstance(spec, Raised) or model.malformed(spec) or self.steps <= 0:
            return
        nxt = Pair(spec, a, b, self.src, self.ctx,
                   dict(self.info, substituted=vsrc_safe(value)), self.steps - 1)
        values = [value]
        try:
            values.append(gen.conf(spec, self.src))
        except Discard:
            pass
        values += [gen.perturb(v, self.src) for v in list(values) if subst.is_plain(v)]
        for v in values:
            nxt.validate(v)
        nxt.generate()
        if self.src.chance(30):
            nxt.substitute(self.src.pick(values))


def vsrc_safe(v):
    r = call(vsrc, v)
    return repr(r) if isinstance(r, Raised) else r


def wrapped_src(spec):
    """Source-like text of the wrapped tree."""
    if spec.kind == "wrapped":
        return "Custom(" + wrapped_src(spec.p["target"]) + ")"
    p = spec.p
    if spec.kind == "list" and "type" in p:
        return "list(" + wrapped_src(p["type"]) + ")"
    if spec.kind == "list" and "elements" in p:
        els = [wrapped_src(e) for e in p["elements"]]
        return "list([" + ", ".join(["..."] * bool(p.get("head")) + els
                                    + ["..."] * bool(p.get("tail"))) + "])"
    if spec.kind == "dict" and "items" in p:
        return "dict({" + ", ".join(f"{vsrc(k)}: {wrapped_src(s)}" for k, s, _ in p["items"]) + "})"
    if spec.kind == "any" and "types" in p:
        return "any(" + ", ".join(wrapped_src(t) for t in p["types"]) + ")"
    if spec.kind == "alias":
        return f"alias({p.get('name')!r}, {wrapped_src(p['target'])})"
    return to_src(spec)


def run(spec, src, ctx, values=()):
    rate = src.pick([15, 40, 100])
    w = wrap(spec, src, rate)
    if not any(True for s in _walk(w) if s.kind == "wrapped"):
        w = S("wrapped", target=w, make=maker(src))
    plain = build(spec)
    custom = call(model.build, w, src)
    info = dict(schema=to_src(spec), wrapped=wrapped_src(w))
    if isinstance(custom, Raised):
        raise Violation("a tree with custom types cannot be declared", **info, got=repr(custom))
    pair = Pair(spec, plain, custom, src, ctx, info)
    pair.represent()
    made = pair.generate()
    vals = list(values)
    if made is not None:
        vals.append(made)
    for _ in range(3):
        vals.append(gen.near_value(spec, src)[1])
    v = vals[-1]
    f = src.draw(4)
    if f == 0:
        vals.append(gen.inject(v, src, hostile(src)))
    elif f == 1:
        vals.append(place_ellipsis(v, src))
    elif f == 2:
        vals.append(hostile(src))
    for v in vals:
        pair.validate(v)
    subs = list(vals)
    try:
        subs.append(gen.conf(spec, src, partial=True))
    except Discard:
        pass
    for v in subs[-4:]:
        pair.substitute(v)
    label_spec(ctx, spec)
    n = sum(s.kind == "wrapped" for s in _walk(w))
    ctx.label("wrapped:" + str(min(n, 5)))
    if pair.deep:
        ctx.nontrivial((info["schema"], info["wrapped"]))
    if ctx.wants_sample:
        ctx.sample(dict(info, values=[vsrc_safe(v)[:200] for v in vals]))


def _walk(w):
    yield w
    for c in ([w.p["target"]] if w.kind == "wrapped" else w.children()):
        yield from _walk(c)


def case(src, ctx):
    opt = gen.Opt(sat=not src.chance(15), special=src.chance(15),
                  obj_keys=src.chance(15))
    run(gen.gen_spec(src, opt=opt), src, ctx)


POSITIONS = ["exact", "head", "tail", "contains", "typed", "dict", "dict-optional", "dict-relaxed",
             "any", "any-last", "alias", "alias-in-list", "list-in-list", "dict-in-dict", "typed-len"]


def place(pos, s):
    I = S("int")
    if pos == "typed":
        return S("list", mode="typed", type=s)
    if pos == "typed-len":
        return S("list", mode="typed", type=s, min_len=1, max_len=2)
    if pos == "list-in-list":
        return S("list", mode="elements", elements=[I, S("list", mode="elements", elements=[s, s])])
    if pos == "dict-in-dict":
        return S("dict", items=[("a", I, False), ("b", S("dict", items=[("c", s, False)]), True)])
    if pos.startswith("dict"):
        return S("dict", items=[("a", I, True), ("k", s, pos == "dict-optional")],
                 ell=1 if pos == "dict-relaxed" else None)
    if pos == "any":
        return S("any", types=[s, S("none")])
    if pos == "any-last":
        return S("any", types=[S("none"), S("dict", items=[("zz", I, False)]), s])
    if pos == "alias":
        return S("alias", name="N", target=s)
    if pos == "alias-in-list":
        return S("list", mode="typed", type=S("alias", name="N", target=s))
    return S("list", mode="elements", elements=[s, I],
             head=pos in ("head", "contains") or None, tail=pos in ("tail", "contains") or None)


def case_positions(src, ctx):
    """One or two container levels around a pinned or generated member, which is always wrapped."""
    if src.chance(40):
        spec, values = src.pick(BASIC)
    else:
        spec, values = gen.gen_spec(src, depth=1), []
    inner = spec
    for _ in range(src.integer(1, 2)):
        pos = src.pick(POSITIONS)
        if pos.startswith("any") and spec.kind == "any":
            pos = "typed"
        ctx.label("position:" + pos)
        spec = place(pos, spec)
    outer = []
    for v in values[:3]:
        try:
            base = gen.conf(spec, src)
        except Discard:
            break
        outer.append(gen.replace_at(base, src.pick(gen.positions(base)), v))
    del inner
    run(spec, src, ctx, outer)


def case_partial(src, ctx):
    """Custom types that lack hooks: the documented defaults."""
    from niltype import Nil
    from d42 import fake, schema, substitute, validate
    from d42.custom_type import CustomSchema, Props, register_type
    hooks = src.subset(["__represent__", "__generate__", "__validate__", "__substitute__"])
    name = src.pick(["Foo", "Money", "X1"])
    from d42.validation import ValidationResult

    def h_represent(self, visitor, *, indent=0, **kw):
        return f"R{indent}"

    def h_generate(self, visitor, **kw):
        return 5

    def h_validate(self, visitor, *, value=Nil, path=Nil, **kw):
        return ValidationResult()

    def h_substitute(self, visitor, *, value=Nil, **kw):
        return self.__class__(self.props.update(v=value))
    table = {"__represent__": h_represent, "__generate__": h_generate,
             "__validate__": h_validate, "__substitute__": h_substitute}
    cls = type(CustomSchema)(name, (CustomSchema,), {h: table[h] for h in hooks})
    cls.__orig_bases__ = (CustomSchema[Props],)
    attr = "vp_" + name.lower()
    register_type(attr, cls)
    c = getattr(schema, attr)
    ctx.check()
    if type(c) is not cls:
        raise Violation("register_type does not expose the type on the facade", got=repr(type(c)))
    if getattr(schema, attr) is c:
        ctx.label("shared-instance")
    # in a list, so that indent and the visitors pass through a container
    tree = schema.list([c, schema.int(1)])
    inner = f"R{4}" if "__represent__" in hooks else f"<{name}>"
    want = f"schema.list([\n    {inner},\n    schema.int(1)\n])"
    if repr(tree) != want:
        raise Violation("the printed form of a list with a custom member", got=repr(tree), want=want)
    for hook, fn in (("__generate__", lambda: fake(tree)),
                     ("__validate__", lambda: validate(tree, [7, 1]))):
        r = call(fn)
        if hook in hooks and isinstance(r, Raised):
            raise Violation("a custom type with the hook fails", hook=hook, got=repr(r))
        if hook not in hooks and not (isinstance(r, Raised)
                                      and isinstance(r.exc, NotImplementedError)):
            raise Violation("a custom type without the hook does not say so", hook=hook, got=repr(r))
    r = call(substitute, tree, [7, 1])
    if {"__validate__", "__substitute__"} <= set(hooks):
        if isinstance(r, Raised) or r.props.elements[0].props.get("v") != 7:
            raise Violation("a custom type with the hook fails", hook="__substitute__", got=repr(r))
    elif not (isinstance(r, Raised) and isinstance(r.exc, NotImplementedError)):
        raise Violation("a custom type without the hooks does not say so", got=repr(r))
    ctx.nontrivial((name, tuple(hooks)))


def targets():
    return [Target("trees", case, 16000, 600000),
            Target("deep", gen.deep(case), 2000, 100000),
            Target("wide", gen.wide(case), 1500, 100000),
            Target("small", gen.small(case), 8000, 300000),
            Target("positions", case_positions, 16000, 600000),
            Target("partial", case_partial, 200, 2000, shards=1)]
