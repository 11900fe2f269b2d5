"""C09: a generated string matches the whole pattern, or generation refuses."""
import itertools
import re

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import rng, rx

RULE = ("a case is a pattern rendered from a generated regex program (literals and escapes, dot, \\d "
        "\\w, classes, groups, alternation, quantifiers, end anchors; or with one unsupported "
        "construct) with several controlled draws (all-minimal, all-maximal, mixed) and repeat caps; "
        "the oracle is re.fullmatch; non-trivial: distinct (pattern, generated string)")


def text(p):
    return p if len(p) < 600 else p[:600] + "..."


def once(pattern, cap, ctx, src, mode, flags_ok=True):
    """One generated string for the pattern, or Raised."""
    from d42.generation import Random, RegexGenerator
    with rng.controlled(src, mode):
        if cap is None:
            gen_ = RegexGenerator(Random())
        else:
            gen_ = RegexGenerator(Random(), max_repeat=cap)
        return call(gen_.generate, pattern)


def matches(pattern, out, what, ctx, cap):
    if not isinstance(out, str):
        raise Violation(f"{what} did not return a string", pattern=text(pattern), got=repr(out),
                        max_repeat=cap)
    ctx.check()
    if re.fullmatch(pattern, out) is None:
        raise Violation(f"{what} does not match the whole pattern", pattern=text(pattern),
                        generated=repr(out)[:600], max_repeat=cap)
    ctx.nontrivial((pattern, out))


def constructs(n, acc):
    t = n[0]
    if t == "class":
        acc.add("negated class" if n[1] else "class")
    elif t == "rep":
        acc.add("lazy" if n[4] else "greedy")
        acc.add("open repeat" if n[3] is None else "bounded repeat")
        if n[2] > 32 or (n[3] or 0) > 32:
            acc.add("repeat over 32")
        constructs(n[1], acc)
    elif t == "group":
        acc.add({"": "capturing", "?:": "non-capturing"}.get(n[1], "named"))
        constructs(n[2], acc)
    elif t in ("seq", "alt"):
        if t == "alt":
            acc.add("alternation")
        for c in n[1]:
            constructs(c, acc)
    else:
        acc.add(t)
    return acc


def case(src, ctx):
    prog = rx.gen_prog(src)
    p = prog.pattern
    if not rx.compiles(p):
        raise Discard("pattern does not compile")
    if not rx.satisfiable(prog.node):
        raise Discard("nothing matches the pattern")
    cap = src.pick([None, None, 0, 1, 2, 5, 31, 33, 64, 100])
    for mode in (1, 2, 3, 0, None):
        out = once(p, cap, ctx, src, mode)
        if isinstance(out, Raised):
            raise Violation("generation from supported constructs raised", pattern=text(p),
                            got=repr(out), max_repeat=cap)
        matches(p, out, "the generated string", ctx, cap)
    # end to end
    from d42 import fake, schema, validate
    s = call(schema.str.regex, p)
    if isinstance(s, Raised):
        raise Violation("schema.str refuses a supported pattern", pattern=text(p), got=repr(s))
    with rng.controlled(src):
        out = call(fake, s)
    if isinstance(out, Raised):
        raise Violation("fake raised", pattern=text(p), got=repr(out))
    matches(p, out, "fake(schema.str.regex(p))", ctx, None)
    if call(lambda: validate(s, out).has_errors()) is not False:
        raise Violation("schema.str.regex(p) rejects its own string", pattern=text(p),
                        generated=repr(out)[:600])
    acc = constructs(prog.node, set())
    for c in acc:
        ctx.label(c)
    if prog.pre or prog.post:
        ctx.label("anchored")
    ctx.label("max_repeat:" + str(cap))
    if ctx.wants_sample:
        ctx.sample({"pattern": p[:200], "generated": out[:100], "constructs": sorted(acc)})


def case_unsupported(src, ctx):
    prog = rx.gen_unsupported(src)
    p = prog.pattern
    if not rx.compiles(p):
        raise Discard("pattern does not compile")
    raised = 0
    for mode in (1, 2, 3, None):
        out = once(p, None, ctx, src, mode)
        if isinstance(out, Raised):
            if not isinstance(out.exc, Exception):
                raise Violation("refused with something that is not an Exception",
                                pattern=text(p), got=repr(out))
            raised += 1
            ctx.check()
            ctx.nontrivial((p, mode))
            continue
        matches(p, out, "with an unsupported construct, the generated string", ctx, None)
    from d42 import fake, schema
    s = call(schema.str.regex, p)
    if not isinstance(s, Raised):
        with rng.controlled(src):
            out = call(fake, s)
        if not isinstance(out, Raised):
            matches(p, out, "with an unsupported construct, fake(schema.str.regex(p))", ctx, None)
    ctx.label("refused" if raised == 4 else "sometimes refused" if raised else "never refused")
    if ctx.wants_sample:
        ctx.sample({"pattern": p[:200], "refused": raised})


class _Seq:
    """A source for the exhaustive target: a fixed pseudo-random walk, no tape."""

    def __init__(self, seed):
        import random
        self.r = random.Random(seed)

    def draw(self, n):
        return self.r.randrange(n) if n > 1 else 0

    def weighted(self, pairs):
        return pairs[self.draw(len(pairs))][1]

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, num, den=100):
        return self.draw(den) >= den - num

    def integer(self, lo, hi):
        return lo + self.draw(hi - lo + 1)


ATOMS = ["a", ".", "\\d", "\\w", "[a-c]", "[^a]", "[^a-z0-9]", "(a|b)", "(?:ab)", "(?P<n>x)", "\\.",
         "[\\d_]", "[^\\w]", "[^\\d]", "\\n", "[\\]\\-^]", "(a|)", "(|ab|[0-9])", "(?:a(b(c)))"]
QUANTS = ["", "*", "+", "?", "{0}", "{1}", "{3}", "{0,}", "{2,}", "{,3}", "{0,1}", "{2,5}", "{31,33}",
          "{32}", "{33}", "{40,}", "{0,64}", "{44}", "{44,44}", "{43,45}", "{100}", "{,40}"]
ITEMS = ["a", "z", "0", "_", "\\d", "\\w", "a-f", "0-9", "A-Z", " -~", "!-/", "\\]", "\\\\", "\\^", "-",
         "é", "\\n", "À-ÿ", "\\x00-\\x1f", "\\u0400-\\u04ff", "\\x21-\\x7e", ".", "$", "|"]


def grid():
    for a in ATOMS:
        for q in QUANTS:
            if "|" in a and a != "(a|b)" and len(q) > 3:
                continue        # fullmatch backtracks exponentially
            for lazy in ("", "?"):
                if lazy and not q:
                    continue
                for pre, post in (("", ""), ("^", "$"), ("\\A", "\\Z"), ("x", "y"), ("(", ")+")):
                    if pre == "(" and (q not in ("", "?", "{1}", "{3}") or "|" in a):
                        continue
                    yield pre + a + q + lazy + post
    for neg in ("", "^"):
        for n in (1, 2):
            for items in itertools.product(ITEMS, repeat=n):
                if n == 2 and "-" in items and items[1] != "-":
                    continue
                yield "[" + neg + "".join(items) + "]"
                if n == 1:
                    yield "[" + neg + items[0] + "]{3}"
    yield from ("", "^", "$", "^$", "()", "a|b", "a|bc|", "|", "(?:)", "^a|b$", "[^\\n]", "a{2}{3}",
                "(a{2}){3}", "((a)|(b))*", "(?P<a>x)(?P<b>y)?", "\\.\\*\\+", "[.]", "[*]", "\\x41",
                "\\u00e9", "\\U0001f600", "[\\U0001f600-\\U0001f64f]", "\\\\d", "\\[a\\]", "a{,}", "a{",
                "{", "}", "]", "a{1", "a{x}", "[]]", "[^]]", "[a-]", "[-a]", "[a\\-z]", "[[]")




def exhaustive(shard, nshards, ctx):
    n = 0
    for i, p in enumerate(grid()):
        if i % nshards != shard or not rx.compiles(p):
            continue
        src = _Seq(p)
        for cap in (None, 0, 3):
            for mode in (1, 2, 3, 3, 3, 0):
                out = once(p, cap, ctx, src, mode)
                if isinstance(out, Raised):
                    raise Violation("generation from supported constructs raised",
                                    pattern=p, got=repr(out), max_repeat=cap)
                matches(p, out, "the generated string", ctx, cap)
                n += 1
    for i, p in enumerate(rx.UNSUPPORTED):
        if i % nshards != shard or not rx.compiles(p):
            continue
        for pre, post in (("", ""), ("a", ""), ("", "b"), ("(", ")"), ("(?:", ")+"), ("x|", "")):
            if "\\1" in p and pre in ("(",) or "(1)" in p and pre == "(":
                continue
            q = pre + p + post
            if not rx.compiles(q):
                continue
            src = _Seq(q)
            for mode in (1, 2, 3, 3, 3, 0):
                out = once(q, None, ctx, src, mode)
                n += 1
                if not isinstance(out, Raised):
                    matches(q, out, "with an unsupported construct, the generated string", ctx,
                            None)
    return n


def targets():
    return [Target("grid", exhaustive, 1, 1, exhaustive=True),
            Target("supported", case, 40000, 1500000),
            Target("unsupported", case_unsupported, 20000, 500000)]
