"""C18: rollout undoes the flattening of a nested mapping."""
import itertools

from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen
from .c12 import hostile

RULE = ("a case is a nested mapping of depth <= 52, mostly <= 12 (or an exhaustively enumerated small one), a separator, "
        "a placement of optional on leaves and an order of the flat keys; non-trivial: at least one flat "
        "key has a separator")
ASSUMPTIONS = ["keys and separator are such that splitting a joined key gives the keys back: `a:` with "
               "`::` is ambiguous, no inverse exists",
               "a leaf is anything but a non-empty mapping; a separator is a non-empty string"]

SEPARATORS = [".", "/", "__", "::", "->", " ", "-", "|", "*", "\\", "$", "^", "[", "..", "ab", "é", "\n",
              "\0", "a", "0", "=>", "%s", "{}", "😀"]


class Node:
    """A nested mapping: entries (key, is_optional, Node or leaf payload), plus `...: ...`."""
    __slots__ = ("entries", "ell")

    def __init__(self, entries, ell=None):
        self.entries = entries
        self.ell = ell          # position of `...: ...`


def to_dict(node):
    from d42 import optional
    out = {}
    for i, (k, opt, sub) in enumerate(node.entries):
        if node.ell == i:
            out[...] = ...
        out[optional(k) if opt else k] = to_dict(sub) if isinstance(sub, Node) else sub
    if node.ell is not None:
        out[...] = ...
    return out


def flat_pairs(node, sep, prefix=()):
    """[(path, is_optional, payload)] for every leaf."""
    out = []
    for k, opt, sub in node.entries:
        if isinstance(sub, Node):
            out += flat_pairs(sub, sep, prefix + (k,))
        else:
            out.append((prefix + (k,), opt, sub))
    return out


def compare(node, got, where=()):
    """None, or what differs between the mapping and what rollout returned."""
    from d42 import optional
    if not isinstance(got, dict):
        return f"{where}: {type(got).__name__} instead of a mapping"
    seen = {}
    for k, v in got.items():
        if k is ...:
            seen[("ell", "...")] = v
        elif isinstance(k, optional):
            seen[("opt", k.key)] = v
        elif isinstance(k, str):
            seen[("str", k)] = v
        else:
            return f"{where}: unexpected key {k!r}"
    if len(seen) != len(got):
        return f"{where}: duplicate keys"
    want = {("opt" if opt else "str", k): sub for k, opt, sub in node.entries}
    if node.ell is not None:
        want[("ell", "...")] = ...
    if set(want) != set(seen):
        return f"{where}: keys {sorted(map(repr, seen))} instead of {sorted(map(repr, want))}"
    for k, sub in want.items():
        v = seen[k]
        if isinstance(sub, Node):
            r = compare(sub, v, where + (k[1],))
            if r:
                return r
        elif type(sub) is dict:
            if v != {} or not isinstance(v, dict):
                return f"{where + (k[1],)}: {v!r} instead of an empty mapping"
        elif v is not sub:
            return f"{where + (k[1],)}: the leaf value was replaced"
    return None


def safe(v):
    r = call(repr, v)
    return repr(r) if isinstance(r, Raised) else r[:1500]


def judge(node, sep, order, ctx, default=False):
    from d42 import optional
    from d42.utils import rollout
    pairs = flat_pairs(node, sep)
    for path, _, _ in pairs:
        if sep.join(path).split(sep) != list(path):
            raise Discard("ambiguous")
    flat = {}
    items = [(optional(sep.join(p)) if opt else sep.join(p), v) for p, opt, v in pairs]
    if node.ell is not None:
        items.append((..., ...))
    for i in order(len(items)):
        flat[items[i][0]] = items[i][1]
    if len(flat) != len(items):
        raise Discard("duplicate flat keys")
    before = list(flat.items())
    kw = {} if default and sep == "." else {"separator": sep}
    r = call(rollout, flat, **kw)
    ctx.check()
    info = dict(nested=safe(to_dict(node)), flat=safe(flat), separator=sep)
    if isinstance(r, Raised):
        raise Violation("rollout raised on a flattened mapping", **info, got=repr(r))
    what = compare(node, r)
    if what:
        raise Violation("rollout does not give the nested mapping back", **info, got=safe(r),
                        differs=what)
    after = list(flat.items())
    if len(after) != len(before) or any(a[0] is not b[0] or a[1] is not b[1]
                                        for a, b in zip(before, after)):
        raise Violation("rollout changed its argument", **info, after=safe(flat))
    if any(len(p) > 1 for p, _, _ in pairs):
        ctx.nontrivial((info["flat"], sep))
    return pairs


def identity(node, sep, ctx, default=False):
    from d42.utils import rollout
    nested = to_dict(node)
    if any(sep in k for k in keys_of(node)):
        raise Discard("a key has the separator")
    kw = {} if default and sep == "." else {"separator": sep}
    shot = safe(nested)
    r = call(rollout, nested, **kw)
    ctx.check()
    if isinstance(r, Raised):
        raise Violation("rollout raised on a nested mapping", nested=shot, separator=sep,
                        got=repr(r))
    what = compare(node, r)
    if what:
        raise Violation("rollout of a nested mapping is not the identity", nested=shot,
                        separator=sep, got=safe(r), differs=what)
    what = compare(node, nested)
    if what:
        raise Violation("rollout changed its argument", nested=shot, after=safe(nested),
                        differs=what)


def keys_of(node):
    for k, _, sub in node.entries:
        yield k
        if isinstance(sub, Node):
            yield from keys_of(sub)


def payload(src):
    from d42 import schema
    f = src.draw(9)
    if f == 0:
        return {}
    if f == 1:
        return src.pick([schema.int, schema.dict({"a.b": schema.int}), schema.any, schema.none])
    if f == 2:
        return src.pick([[], [{"a.b": 1}], ["a.b"], ({"a.b": 1},), {"a.b"}, "a.b", ..., None, 0, ""])
    if f == 3:
        v = hostile(src)
        return None if isinstance(v, dict) else v
    if f == 4:
        from d42 import optional
        return src.pick([optional("a.b"), optional("a"), True, 1.5])
    return object()


def gen_key(src, sep, pool):
    f = src.draw(8)
    if f < 5:
        return src.pick(pool)
    if f == 5:
        return ""
    if f == 6:
        return gen.gen_text(src)
    # characters of the separator, without the separator
    return "".join(src.pick(list(sep) + ["a", "b"]) for _ in range(src.integer(1, 4)))


def gen_node(src, sep, depth, pool, budget, inner_opt=False):
    n = src.weighted([(3, 1), (4, 2), (3, 3), (1, 5), (1, 9)])
    entries, taken = [], set()
    for _ in range(n):
        if budget[0] <= 0 and entries:
            break
        budget[0] -= 1
        k = gen_key(src, sep, pool)
        if sep in k:
            continue
        nest = depth > 1 and src.chance(55)
        opt = src.chance(35 if not nest else 20) and (not nest or inner_opt)
        if (k, opt) in taken:
            continue
        taken.add((k, opt))
        if nest:
            sub = gen_node(src, sep, depth - 1, pool, budget, inner_opt)
            if not sub.entries:
                sub = object()
        else:
            sub = payload(src)
        entries.append((k, opt, sub))
    return Node(entries)


POOLS = [list("abcd"), ["a", "aa", "aaa", "b"], ["x", "y"], ["user", "id", "name", "items", "0", "1"],
         ["a", "A", "é", "e"], ["k%d" % i for i in range(30)]]


def setup(src, inner_opt=False):
    sep = src.pick(SEPARATORS) if src.chance(60) else "."
    if src.chance(10):
        sep = gen.gen_text(src) or "."
    deep = src.chance(15)
    node = gen_node(src, sep, src.integer(5, 12) if deep else src.integer(1, 4), src.pick(POOLS),
                    [src.pick([12, 12, 40, 120])], inner_opt)
    if node.entries and src.chance(8):
        # a chain: one long path
        for _ in range(src.integer(1, 40)):
            k = gen_key(src, sep, POOLS[0])
            if sep not in k:
                node = Node([(k, False, node)])
    if src.chance(25):
        node.ell = src.draw(len(node.entries) + 1)
    return sep, node


def depth(node):
    return 1 + max((depth(s) for _, _, s in node.entries if isinstance(s, Node)), default=0)


def case(src, ctx):
    sep, node = setup(src)

    def order(n):
        f = src.draw(4)
        if f == 0:
            return range(n)
        if f == 1:
            return reversed(range(n))
        return src.shuffled(range(n))
    pairs = judge(node, sep, order, ctx, default=src.chance(50))
    identity(node, sep, ctx, default=src.chance(50))
    ctx.label(f"depth:{min(depth(node), 13)}")
    ctx.label(f"leaves:{min(len(pairs), 20)}")
    if any(o for _, o, _ in pairs):
        ctx.label("optional")
    if node.ell is not None:
        ctx.label("ellipsis")
    ctx.label("separator:" + ("default" if sep == "." else "one" if len(sep) == 1 else "longer"))
    if ctx.wants_sample:
        ctx.sample({"nested": safe(to_dict(node))[:300], "separator": sep})


def case_identity(src, ctx):
    """Any nested mapping without separators, optional on inner keys included."""
    sep, node = setup(src, inner_opt=True)
    identity(node, sep, ctx, default=src.chance(50))
    if depth(node) > 1:
        ctx.nontrivial(("identity", safe(to_dict(node)), sep))


def _shapes(keys, depth):
    subs = list(_shapes(keys, depth - 1)) if depth > 1 else []
    out = []
    for combo in itertools.product(range(2 + len(subs)), repeat=len(keys)):
        if any(combo):
            out.append([(k, None if c == 1 else subs[c - 2]) for k, c in zip(keys, combo) if c])
    return out


def instantiate(shape, mask):
    """mask: iterator of booleans, one per leaf."""
    return Node([(k, False, instantiate(s, mask)) if s is not None else (k, next(mask), object())
                 for k, s in shape])


def leaves(shape):
    return sum(1 if s is None else leaves(s) for _, s in shape)


def exhaustive(shard, nshards, ctx):
    n = 0
    i = 0
    for keys, d in ((("a", "b"), 3), (("a", "b", "ab"), 2), (("", "a"), 3)):
        for shape in _shapes(keys, d):
            k = leaves(shape)
            if k > 4:
                continue
            i += 1
            if i % nshards != shard:
                continue
            for mask in itertools.product((False, True), repeat=k):
                for ell in (None, 0):
                    if k == 4 and ell is not None:
                        continue
                    m = k + (ell is not None)
                    for perm in itertools.permutations(range(m)):
                        for sep in (".", "::"):
                            node = instantiate(shape, iter(mask))
                            node.ell = ell
                            judge(node, sep, lambda _: perm, ctx, default=sep == "." and n % 2)
                            n += 1
                node = instantiate(shape, iter(mask))
                identity(node, ".", ctx)
    return n


def targets():
    return [Target("small", exhaustive, 0, 0, shards=16, exhaustive=True),
            Target("mappings", case, 40000, 2000000),
            Target("nested", case_identity, 10000, 400000)]
