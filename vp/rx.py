"""Regex programs as ASTs, with rendering and an independent sampler of matching strings.

Nodes (tuples):
  ('lit', ch) ('dot',) ('cat', 'd'|'w') ('class', negated, items) ('seq', [..]) ('alt', [..])
  ('group', kind, node) kind: '' | '?:' | '?P<name>'
  ('rep', node, lo, hi|None, lazy)  ('anchor', text) ('unsup', text)
class items: ('c', ch) ('r', a, b) ('d',) ('w',)
"""
import re
import string

SPECIAL = set(".^$*+?{}[]\\|()")
PRINTABLE = string.ascii_letters + string.digits + string.punctuation + " "
CLASS_CHARS = string.ascii_letters + string.digits + "_-^]\\.$ /é\n\t€"


class Prog:
    __slots__ = ("node", "pre", "post", "pattern", "supported")

    def __init__(self, node, pre="", post="", supported=True):
        self.node = node
        self.pre = pre
        self.post = post
        self.pattern = pre + render(node) + post
        self.supported = supported


def _esc_class(c, src=None):
    if c in "\\]^-[&~|":
        return "\\" + c
    return {"\n": "\\n", "\t": "\\t"}.get(c, c)


def _esc(c):
    if c in SPECIAL:
        return "\\" + c
    return {"\n": "\\n", "\t": "\\t"}.get(c, c)


def render(n):
    t = n[0]
    if t == "lit":
        return n[2] if len(n) > 2 else _esc(n[1])
    if t == "dot":
        return "."
    if t == "cat":
        return "\\" + n[1]
    if t == "class":
        body = ""
        for it in n[2]:
            if it[0] == "c":
                body += _esc_class(it[1])
            elif it[0] == "r":
                body += _esc_class(it[1]) + "-" + _esc_class(it[2])
            else:
                body += "\\" + it[0]
        return "[" + ("^" if n[1] else "") + body + "]"
    if t == "seq":
        out = ""
        for c in n[1]:
            r = render(c)
            out += "(?:" + r + ")" if c[0] == "alt" else r
        return out
    if t == "alt":
        return "|".join(render(c) for c in n[1])
    if t == "group":
        return "(" + n[1] + render(n[2]) + ")"
    if t == "rep":
        inner = render(n[1])
        if n[1][0] in ("seq", "alt", "rep") or (n[1][0] == "lit" and len(n[1]) > 2
                                                and len(n[1][1]) != 1):
            inner = "(?:" + inner + ")"
        return inner + n[5] + ("?" if n[4] else "")
    if t in ("anchor", "unsup"):
        return n[1]
    raise AssertionError(t)


def quant(src, lo, hi):
    if (lo, hi) == (0, None):
        return src.pick(["*", "{0,}"])
    if (lo, hi) == (1, None):
        return src.pick(["+", "{1,}"])
    if (lo, hi) == (0, 1):
        return src.pick(["?", "{0,1}"])
    if hi is None:
        return "{%d,}" % lo
    if lo == hi:
        return "{%d}" % lo
    if lo == 0:
        return src.pick(["{0,%d}" % hi, "{,%d}" % hi])
    return "{%d,%d}" % (lo, hi)


def gen_class(src, wide=True):
    neg = src.chance(35)
    items = []
    for _ in range(src.integer(1, 4)):
        k = src.weighted([(4, "c"), (4, "r"), (1, "d"), (1, "w")])
        if k == "c":
            items.append(("c", src.pick(CLASS_CHARS)))
        elif k == "r":
            a, b = src.pick(_RANGES if wide else _RANGES[:6])
            items.append(("r", a, b))
        else:
            items.append((k,))
    return ("class", neg, items)


_RANGES = [("a", "f"), ("0", "9"), ("A", "Z"), ("a", "z"), ("3", "3"), ("x", "z"),
           (" ", "~"), ("!", "/"), (" ", "/"), ("0", "z"), ("\t", "\r"), ("À", "ÿ"), ("А", "я"),
           ("!", "~")]

_LIT_FORMS = [("a", "\\x61"), ("b", "\\u0062"), ("\n", "\\n"), ("\t", "\\t"), ("#", "\\#"),
              ("\0", "\\0"), ("é", "\\xe9"), ("-", "\\-"), ("/", "/"), ("A", "\\101")]
_LITS = string.ascii_lowercase + string.digits + "ABC _-/é€.^$*+?{}[]\\|()\"'#&~!\n😀"


SIZES = []      # see gen.SIZES


class _State:
    def __init__(self):
        self.groups = 0
        self.budget = 0


def gen_node(src, st, depth, rep):
    """rep: product of the repeat counts around this node, kept bounded."""
    kinds = [(6, "lit"), (2, "dot"), (3, "cat"), (4, "class")]
    if depth > 0:
        kinds += [(4, "seq"), (3, "alt"), (4, "group"), (5, "rep")]
    k = src.weighted(kinds)
    if k == "lit":
        if src.chance(15):
            c, form = src.pick(_LIT_FORMS)
            return ("lit", c, form)
        return ("lit", src.pick(_LITS))
    if k == "dot":
        return ("dot",)
    if k == "cat":
        return ("cat", src.pick("dw"))
    if k == "class":
        return gen_class(src)
    if k == "seq":
        return ("seq", [gen_node(src, st, depth - 1, rep) for _ in range(src.integer(1, 4))])
    if k == "alt":
        alts = [gen_node(src, st, depth - 1, rep) for _ in range(src.integer(2, 4))]
        if src.chance(15):
            alts[src.draw(len(alts))] = ("seq", [])
        return ("group", src.pick(["", "?:"]), ("alt", alts))
    if k == "group":
        kind = src.pick(["", "?:", "?P<n%d>"])
        if "%d" in kind:
            st.groups += 1
            kind = kind % st.groups
        inner = gen_node(src, st, depth - 1, rep)
        if src.chance(30):
            inner = ("alt", [inner, gen_node(src, st, depth - 1, rep)])
        return ("group", kind, inner)
    if rep == 1 and src.chance(4):
        # many repetitions of one character
        n = src.pick([31, 32, 33, 34, 63, 64, 65, 100, 101, 128, 129, 200, 257])
        if SIZES and src.chance(50):
            n = src.pick(SIZES) + src.integer(-1, 2)
        lo, hi = src.pick([(n, None), (n, n), (0, n), (n, n + 2), (n - 1, n)])
        if n < 1000:
            inner = gen_node(src, st, 0, 60)
            return ("rep", inner, lo, hi, src.chance(30), quant(src, lo, hi))
    lim = max(1, 60 // rep)
    form = src.draw(7)
    if form == 0:
        lo, hi = 0, None
    elif form == 1:
        lo, hi = 1, None
    elif form == 2:
        lo, hi = 0, 1
    elif form == 3:
        lo, hi = src.integer(0, min(4, lim)), None
    elif form == 4:
        lo = src.integer(0, min(3, lim))
        hi = min(lo + src.integer(0, 5), lim)
        lo = min(lo, hi)
    elif form == 5:
        lo = hi = src.integer(0, min(5, lim))
    else:
        lo = src.integer(0, lim)
        hi = src.integer(lo, lim)
    if rep > 1 and hi is None:
        hi = min(lo + 2, max(lo, lim))
    inner_rep = rep * max(4, hi or 8)
    inner = gen_node(src, st, depth - 1 if inner_rep <= 40 else 0, inner_rep)
    if inner[0] == "rep":
        inner = ("group", "?:", inner)
    return ("rep", inner, lo, hi, src.chance(30), quant(src, lo, hi))


def gen_prog(src, depth=None):
    """A pattern of supported constructs only."""
    if depth is None:
        depth = src.integer(0, 4)
    st = _State()
    if src.chance(70):
        node = ("seq", [gen_node(src, st, depth, 1) for _ in range(src.integer(1, 4))])
    else:
        node = gen_node(src, st, depth, 1)
    pre = src.weighted([(6, ""), (2, "^"), (1, "\\A")])
    post = src.weighted([(6, ""), (2, "$"), (1, "\\Z")])
    return Prog(node, pre, post)


def _leaves(n, path=()):
    t = n[0]
    if t in ("lit", "cat", "class"):
        yield path
    elif t in ("seq", "alt"):
        for i, c in enumerate(n[1]):
            yield from _leaves(c, path + ((1, i),))
    elif t == "group":
        yield from _leaves(n[2], path + ((2, None),))
    elif t == "rep":
        yield path
        yield from _leaves(n[1], path + ((1, None),))


def _change(n, path, src):
    if path:
        (i, j), rest = path[0], path[1:]
        c = n[i] if j is None else n[i][j]
        c = _change(c, rest, src)
        if j is not None:
            c = n[i][:j] + [c] + n[i][j + 1:]
        return n[:i] + (c,) + n[i + 1:]
    t = n[0]
    if t == "lit":
        return ("lit", near_char(n[1], src))
    if t == "cat":
        return ("cat", "w" if n[1] == "d" else "d")
    if t == "class":
        items = list(n[2])
        i = src.draw(len(items) + 1)
        if i == len(items):
            return ("class", not n[1], items)
        it = items[i]
        if it[0] == "c":
            items[i] = ("c", near_char(it[1], src))
        elif it[0] == "r":
            items[i] = ("r",) + src.pick([r for r in _RANGES if r != it[1:]])
        else:
            items[i] = ("w",) if it[0] == "d" else ("d",)
        return ("class", n[1], items)
    lo, hi = n[2], n[3]
    if lo == hi:
        lo = hi = max(0, lo + src.pick([-1, 1]))
    elif hi is None or src.chance(50):
        lo = max(0, lo + src.pick([-1, 1]))
        hi = hi if hi is None else max(lo, hi)
    else:
        hi = max(lo, hi + src.pick([-1, 1]))
    return ("rep", n[1], lo, hi, n[4], quant(src, lo, hi))


def near_char(c, src):
    """A character of the same look: the other case, the neighbour."""
    if c.isdecimal() and c.isascii():
        return src.pick([d for d in "0123456789" if d != c])
    if c.swapcase() != c and len(c.swapcase()) == 1 and src.chance(40):
        return c.swapcase()
    return src.pick([x for x in "abcxyz_ -.,!" if x != c])


def twin(prog, src):
    """The pattern with one literal, class or count changed."""
    spots = list(_leaves(prog.node))
    if not spots or src.chance(10):
        return Prog(prog.node, src.pick(["", "^"]), src.pick(["", "$"]), prog.supported)
    # the last ones: what a shortened pattern has lost
    path = spots[-1] if src.chance(40) else src.pick(spots)
    return Prog(_change(prog.node, path, src), prog.pre, prog.post, prog.supported)


UNSUPPORTED = ["(?=a)", "(?!b)", "(?<=a)", "(?<!a)", "\\s", "\\S", "\\D", "\\W", "(?>a+)", "a++",
               "a*+", "a?+", "[\\s]", "[^\\s]", "[\\D]", "[^\\W]", "[\\Sa]", "(a)\\1", "(?P<g>b)(?P=g)",
               "(c)?(?(1)d|e)", "\\d++", "(?:ab)*+", "[^\\S]", "[a\\D]", "[\\W\\d]", "x{2,3}+",
               "(?>ab|a)", "(?=.*z)", "(?!.)", "(?<!^)"]


def gen_unsupported(src):
    """A pattern with at least one unsupported construct, placed anywhere."""
    prog = gen_prog(src, src.integer(0, 2))
    bad = src.pick(UNSUPPORTED)
    # numbered backreferences need to be the first group of the pattern
    if "\\1" in bad or "(1)" in bad:
        node = ("seq", [("unsup", bad), prog.node])
    else:
        place = src.draw(4)
        u = ("unsup", bad)
        if place == 0:
            node = ("seq", [u, prog.node])
        elif place == 1:
            node = ("seq", [prog.node, u])
        elif place == 2:
            node = ("seq", [("group", "?:", ("alt", [prog.node, u]))])
        else:
            node = ("seq", [prog.node, ("rep", ("group", "?:", u), 0, 2, False, "{0,2}")])
    return Prog(node, prog.pre, prog.post, supported=False)


# ------------------------------------------------------------------------------------------

def class_ok(n, c):
    hit = False
    for it in n[2]:
        if it[0] == "c":
            hit = it[1] == c
        elif it[0] == "r":
            hit = it[1] <= c <= it[2]
        elif it[0] == "d":
            hit = c.isdecimal()
        else:
            hit = c.isalnum() or c == "_"
        if hit:
            break
    return hit != n[1]


_POOL = PRINTABLE + "é\t\nЖ"


def sample(n, src):
    """A string matching the node."""
    t = n[0]
    if t == "lit":
        return n[1]
    if t == "dot":
        return src.pick(PRINTABLE + "é\t")
    if t == "cat":
        return src.pick("0123456789" if n[1] == "d" else "abcXYZ019_")
    if t == "class":
        pool = [c for c in _POOL if class_ok(n, c)]
        if not pool:
            pool = [chr(i) for i in range(0x2000) if class_ok(n, chr(i))]
        if not pool:
            return ""
        return src.pick(pool)
    if t == "seq":
        return "".join(sample(c, src) for c in n[1])
    if t == "alt":
        return sample(src.pick(n[1]), src)
    if t == "group":
        return sample(n[2], src)
    if t == "rep":
        lo, hi = n[2], n[3]
        if hi is None:
            hi = lo + 3
        return "".join(sample(n[1], src) for _ in range(src.integer(lo, min(hi, lo + 4))))
    return ""


def satisfiable(n):
    """A class that no character satisfies makes the pattern unsatisfiable; be conservative."""
    if n[0] == "class":
        return any(class_ok(n, c) for c in _POOL) or any(class_ok(n, chr(i))
                                                         for i in range(0x2000))
    if n[0] in ("seq", "alt"):
        return all(satisfiable(c) for c in n[1])
    if n[0] == "group":
        return satisfiable(n[2])
    if n[0] == "rep":
        return satisfiable(n[1])
    return True


def compiles(pattern):
    try:
        re.compile(pattern)
        return True
    except Exception:
        return False
