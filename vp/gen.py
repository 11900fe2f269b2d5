"""Generators: specs, conforming values, perturbed values, plain values, the hostile zoo."""
import ast
import dataclasses
import datetime as dt
import decimal
import enum
import fractions
import itertools
import json
import math
import os
import pathlib
import re
import sys
import unicodedata
import uuid
from array import array
from collections import (ChainMap, Counter, OrderedDict, UserDict, UserList, UserString, defaultdict, deque,
                         namedtuple)
from types import MappingProxyType, SimpleNamespace

from . import rx
from .engine import Discard
from .model import S, conforms, len_bounds, sat, walk

# ------------------------------------------------------------------------------------------
# dictionary of literals found in the code under test

LITERALS = []       # written into the replay file: tapes depend on them
DICT_INTS = []
DICT_STRS = []
DICT_FLOATS = []
# those that the pinned code does not have: what a change compares with is what it depends on
NOVEL_INTS = []
NOVEL_STRS = []
NOVEL_FLOATS = []
NOVEL_CHARS = []
SIZES = []          # novel ints that are usable as a size
_BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_literals.json")
_FOLD = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
         ast.LShift: lambda a, b: a << b if b < 200 else 0, ast.FloorDiv: lambda a, b: a // b if b else 0,
         ast.Pow: lambda a, b: a ** b if 0 <= b < 100 and abs(a) < 1e6 else 0,
         ast.Mod: lambda a, b: a % b if b else 0, ast.BitOr: lambda a, b: a | b}


def _fold(node):
    """The value of an arithmetic expression of int literals, or None."""
    if isinstance(node, ast.Constant) and type(node.value) is int:
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = _fold(node.operand)
        return None if v is None else -v
    if isinstance(node, ast.BinOp) and type(node.op) in _FOLD:
        a, b = _fold(node.left), _fold(node.right)
        if a is not None and b is not None and not (type(node.op) is ast.LShift and b < 0):
            return _FOLD[type(node.op)](a, b)
    return None


def literals(root):
    ints, strs, floats = set(), set(), set()
    for base, dirs, files in os.walk(os.path.join(root, "d42")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py") or "migration" in base:
                continue
            try:
                tree = ast.parse(open(os.path.join(base, f), encoding="utf-8").read())
            except SyntaxError:
                continue
            for node in ast.walk(tree):
                v = _fold(node)
                if v is not None:
                    if abs(v) < 10 ** 30:
                        ints.add(v)
                elif isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bytes):
                        v = v.decode("latin1")
                    if isinstance(v, str) and 0 < len(v) <= 40:
                        strs.add(v)
                    elif isinstance(v, float):
                        floats.add(v)
    return sorted(ints), sorted(strs), sorted(floats)


def harvest(root):
    ints, strs, floats = literals(root)
    use_literals(ints, strs, floats)


def use_literals(ints, strs, floats):
    LITERALS[:] = [ints, strs, floats]
    DICT_INTS[:] = ints
    DICT_STRS[:] = [s for s in strs if len(s) <= 12]
    DICT_FLOATS[:] = floats
    try:
        base = json.load(open(_BASE))
    except OSError:
        base = {"ints": ints, "strs": strs, "floats": floats}
    NOVEL_INTS[:] = [i for i in ints if i not in set(base["ints"])]
    NOVEL_STRS[:] = [s for s in strs if s not in set(base["strs"])]
    NOVEL_FLOATS[:] = [x for x in floats if x not in set(base["floats"])]
    NOVEL_CHARS[:] = sorted({c for s in NOVEL_STRS if len(s) <= 12 for c in s})
    SIZES[:] = [i for i in NOVEL_INTS if 5 <= i <= 2000]
    rx.SIZES[:] = SIZES


def gen_size(src, usual):
    """One of the usual sizes, or one next to a literal that a change brought in."""
    if SIZES and src.chance(40):
        return max(0, src.pick(SIZES) + src.integer(-1, 2))
    return src.pick(usual)


# ------------------------------------------------------------------------------------------
# scalars

# A small world: few scalars, few keys, small containers, so that values meet each other, bounds
# and declarations much more often than in the large one.
SMALL = [False]


def small(fn):
    """The same case in the small world."""
    def run(src, ctx):
        SMALL[0] = True
        try:
            return fn(src, ctx)
        finally:
            SMALL[0] = False
    return run


def deep(fn):
    """The same case, mostly on chains of containers with something long at the end."""
    def run(src, ctx):
        DEEP[0] = 700
        try:
            return fn(src, ctx)
        finally:
            DEEP[0] = 20
    return run


def wide(fn):
    """The same case, mostly on containers of five to eighteen members."""
    def run(src, ctx):
        WIDE[0], DEEP[0] = 800, 0
        try:
            return fn(src, ctx)
        finally:
            WIDE[0], DEEP[0] = 15, 20
    return run


_SMALL_DATES = [dt.date(2020, 1, 1), dt.date(2020, 1, 2)]
_SMALL_TIMES = [dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 1, 1), dt.datetime(2020, 1, 2),
                dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)]
_SMALL_UUIDS = [uuid.UUID(int=n << 64, version=4) for n in (1, 2)]

_INTS = [0, 1, -1, 2, 3, 5, 7, 10, 31, 32, 33, 42, 63, 64, 100, 127, 128, 255, 256, 257, 1000,
         -5, -6, -100, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63,
         -2 ** 63, -2 ** 63 - 1, 2 ** 64, 10 ** 18, 10 ** 25]


def gen_int(src):
    if SMALL[0]:
        return src.pick([0, 1, 2, 3, -1])
    if NOVEL_INTS and src.chance(8):
        return src.pick(NOVEL_INTS) * src.pick([1, 1, 1, -1]) + src.integer(-1, 1)
    f = src.draw(12)
    if f < 5:
        return src.integer(0, 9) - (4 if src.chance(30) else 0)
    if f < 8:
        return src.pick(_INTS)
    if f < 9 and DICT_INTS:
        return src.pick(DICT_INTS) + src.integer(-1, 1)
    if f < 11:
        return src.integer(-300, 300)
    return src.draw(1 << 66) - (1 << 65)


_FLOATS = [0.0, 1.0, -1.0, 0.5, 0.1, 0.15, 0.25, 1.5, 2.5, 3.14, 0.125, -0.5, 2.675, 1.005, 0.045,
           99.995, 100.0, 1e-9, 1e-15, 1e9, 1e15, 1e16, 1e17, 123456.789, -0.001, -2.5, -99.99,
           9007199254740993.0, 0.30000000000000004, 1e300, -1e300, 5e-324, 2.2250738585072014e-308,
           1.7976931348623157e308, -1.7976931348623157e308, 9.223372036854775807e18, -1e19, 1e19,
           -0.0]


def gen_float(src, special=False):
    if SMALL[0]:
        if special and src.chance(10):
            return src.pick([math.nan, math.inf, -math.inf])
        return src.pick([0.0, 1.0, 2.0, 0.5, 1.5, -1.0, -0.0])
    if (NOVEL_FLOATS or NOVEL_INTS) and src.chance(6):
        x = float(src.pick(NOVEL_FLOATS + NOVEL_INTS))
        return src.pick([x, -x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x + 0.5, x / 2])
    f = src.draw(10)
    if f < 4:
        return src.pick(_FLOATS)
    if f < 6:
        return src.integer(-50, 50) / src.pick([1, 2, 4, 5, 10, 100])
    if f < 8:
        return round(src.integer(-10 ** 6, 10 ** 6) / 10 ** src.integer(0, 6), 6)
    if f < 9 or not special:
        return (src.draw(1 << 53) - (1 << 52)) * 2.0 ** (src.integer(-80, 40) - 20)
    return src.pick([float("nan"), float("inf"), float("-inf")])


_CHARS = "abcABC019 _-"
_CHARS2 = ("éЖ€😀\n\t\r\0\"'\\{}[](),.:#%`~\u2028\x85\ud800"
           "e\u0301\u0327ﬁßİıſK\u212aÅ１²ǅ\u200b\ufeff\xa0\xad\u202e\uac00\u1100\u1161")


def gen_char(src):
    if SMALL[0]:
        return src.pick("ab" if src.chance(90) else "aA1 ")
    if NOVEL_CHARS and src.chance(6):
        return src.pick(NOVEL_CHARS)
    if src.chance(85):
        return src.pick(_CHARS)
    return src.pick(_CHARS2)


_STRS = ["", "a", "abc", "id", "name", "...", "Ellipsis", "0", "None", "schema.int", "a.b", " ",
         "'", '"', "\n", "\\", "'''", "{x}", "%s", "ab" * 10, "x" * 33, "banana", "optional",
         "e\u0301", "é", "cafe\u0301", "\u212a", "K", "ﬁ", "fi", "STRASSE", "straße", " a", "a ", "a\n",
         "\ufeffa", "１２", "12", "1_2", "+1", "true", "null", "1.0", "1e3", "\u1100\u1161", "\uac00",
         "a.c", "a*b", "^a", "[ab]", "a-z", "a-c", "\\d", "%d", "a|b", "(a)", "$", "a?", "a+", "?", "*",
         "A-Za-z0-9", "[a-c]", "^abc"]


def gen_text(src, max_len=6):
    if SMALL[0]:
        return "".join(gen_char(src) for _ in range(src.integer(0, min(max_len, 3))))
    if NOVEL_STRS and src.chance(6):
        return src.pick(["", "", "a"]) + src.pick(NOVEL_STRS) + src.pick(["", "", "b"])
    if SIZES and src.chance(3):
        return "".join(gen_char(src) for _ in range(3)) * (gen_size(src, [3]) // 3) + gen_char(src) * src.integer(0, 3)
    f = src.draw(10)
    if f < 6:
        return "".join(gen_char(src) for _ in range(src.integer(0, max_len)))
    if f < 8:
        return src.pick(_STRS)
    if f < 9 and DICT_STRS:
        return src.pick(DICT_STRS)
    if src.chance(15):
        part = "".join(gen_char(src) for _ in range(src.integer(1, 4)))
        n = src.pick([60, 100, 128, 255, 256, 257, 300, 512, 700, 1100])
        v = (part * n)[:n]
        i = src.draw(n)
        return v[:i] + gen_char(src) + v[i:]
    return gen_char(src) * src.integer(0, 40)


def gen_bytes(src):
    if SMALL[0]:
        return src.pick([b"", b"a", b"b", b"ab", b"\xff"])
    f = src.draw(6)
    if f < 4:
        return bytes(src.draw(256) for _ in range(src.integer(0, 4)))
    if f < 5:
        if src.chance(15):
            n = src.pick([33, 64, 100, 256, 300, 1100])
            return bytes(i * 7 % 256 for i in range(n)) if src.chance(50) else bytes([src.draw(256)]) * n
        return src.pick([b"", b"abc", b"\x00", b"\xff\xfe", b"'", b'"'])
    return gen_text(src).encode("utf-8", "replace")


def foreign_uuid(x, src):
    """The digits of x, whose version digit is 4, with a variant that has no versions."""
    n = x.int & ~(0xC << 60) & ~(0xF << 76) | (4 << 76)
    return uuid.UUID(int=n | (src.pick([0, 4, 0xC, 0xE]) << 60))


def gen_uuid4(src):
    if SMALL[0]:
        return src.pick(_SMALL_UUIDS)
    return uuid.UUID(int=src.draw(1 << 128), version=4)


_TZ = [None, None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=3)),
       dt.timezone(-dt.timedelta(hours=5, minutes=30)), dt.timezone(dt.timedelta(seconds=1)),
       dt.timezone(dt.timedelta(hours=3), "MSK")]


def gen_datetime(src):
    if SMALL[0]:
        return src.pick(_SMALL_TIMES)
    if src.chance(15):
        return src.pick([dt.datetime.min, dt.datetime.max, dt.datetime(2000, 1, 1),
                         dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)])
    us = src.pick([0, 0, 1, 999999, 123000])
    return dt.datetime(src.integer(1900, 2100), src.integer(1, 12), src.integer(1, 28),
                       src.draw(24), src.draw(60), src.draw(60), us, tzinfo=src.pick(_TZ),
                       fold=int(src.chance(8)))


def gen_date(src):
    if SMALL[0]:
        return src.pick(_SMALL_DATES)
    if src.chance(15):
        return src.pick([dt.date.min, dt.date.max, dt.date(2000, 1, 1)])
    return dt.date(src.integer(1900, 2100), src.integer(1, 12), src.integer(1, 28))


_KEYS = ["a", "b", "c", "id", "name", "k", "x", "", "a b", "é", "0", "...", "a.b", "'", '"q"',
         "\n", "optional", "value", "types", "keys", "user", "user_id", "user_ids", "ids", "aa", "ab",
         "a_b", "B", "_", "__", "1"]
_KEYS_ODD = [0, 1, 2, -1, 1.5, None, True, (1, 2), (), ("a", None), b"k", b"", 2 ** 70, -0.5,
             frozenset(), "κλειδί", "e\u0301", "é", "ﬁ", "A", "Id", "id ", " id", "1", "True"]


def gen_key(src, odd=True):
    if SMALL[0]:
        if odd and src.chance(12):
            return src.pick([0, 1, None, True, 1.0, ("a",), ("a", "b"), b"a", ""])
        return src.pick(["a", "b", "c", "d", "ab"])
    if NOVEL_STRS and src.chance(6):
        return src.pick(NOVEL_STRS)
    if NOVEL_INTS and odd and src.chance(2):
        return src.pick(NOVEL_INTS)
    f = src.draw(20)
    if f < 16 or not odd:
        return src.pick(_KEYS)
    if f < 18:
        if src.chance(70):
            return src.pick(_KEYS_ODD)
        f = src.draw(6)
        if f == 0:
            return gen_float(src)
        if f == 1:
            return gen_int(src)
        if f == 2:
            return gen_bytes(src)
        return tuple(src.pick(_KEYS_ODD if src.chance(50) else _KEYS)
                     for _ in range(src.integer(1, 3)))
    if f < 19 and DICT_STRS:
        return src.pick(DICT_STRS)
    return gen_text(src, 3)


def _repr(x):
    try:
        return repr(x)
    except ValueError:          # an int of thousands of digits
        return "?"


def related_key(src, keys):
    """A key that resembles one of the given keys: a prefix, an extension, another case or type."""
    k = src.pick(list(keys))
    if isinstance(k, str):
        return src.pick([k + "_id", k + "s", k + "_", k + " ", k + ".x", k[:-1], k.upper(), k.title(),
                         " " + k, "_" + k, k + k, k + "0", k[:1], k[::-1], k.encode("utf-8", "replace"),
                         (k,), k + "_id_2", "x" + k, k + "?", k.swapcase()])
    if isinstance(k, (int, float)) and abs(k) < 1e100:
        return src.pick([_repr(k), -k, _repr(k), (k,), [k][0] + 1])
    if type(k) is tuple:
        return src.pick([k + (src.pick(_KEYS),), k[:-1], k[::-1], k + k, (k,), k[1:], _repr(k),
                         k[:-1] + (src.pick(_KEYS),), frozenset(k[:1]) if src.chance(50) else k + (None,)])
    if type(k) is bytes:
        return src.pick([k + b"x", k[:-1], k.decode("latin-1"), k.upper(), _repr(k), (k,)])
    return src.pick([(k,), None, (k, 1)])


def gen_scalar(src, special=False):
    k = src.weighted([(1, "none"), (2, "bool"), (4, "int"), (3, "float"), (4, "str"), (1, "bytes"),
                      (1, "uuid4"), (1, "datetime"), (1, "date")])
    return scalar_of(k, src, special)


def scalar_of(k, src, special=False):
    if k == "none":
        return None
    if k == "bool":
        return src.chance(50)
    if k == "int":
        return gen_int(src)
    if k == "float":
        return gen_float(src, special)
    if k == "str":
        return gen_text(src)
    if k == "bytes":
        return gen_bytes(src)
    if k == "uuid4":
        return gen_uuid4(src)
    if k == "datetime":
        return gen_datetime(src)
    if k == "date":
        return gen_date(src)
    raise AssertionError(k)


def gen_plain(src, depth=2, special=False, odd_keys=True):
    """A plain value: the domain of from_native."""
    f = src.draw(10)
    if SMALL[0] and f < 3:
        return src.pick([[], {}, None, 0, "", False, [[]], {"a": {}}, [{}]])
    if depth <= 0 or f < 5:
        return gen_scalar(src, special)
    if f < 7:
        return [gen_plain(src, depth - 1, special, odd_keys) for _ in range(src.integer(0, 4))]
    out = {}
    for _ in range(src.integer(0, 4)):
        out[gen_key(src, odd_keys)] = gen_plain(src, depth - 1, special, odd_keys)
    return out


def deep_plain(src, levels=None):
    """A value nested many levels deep, with a little around the chain."""
    v = gen_plain(src, 1)
    if levels is None:
        levels = src.integer(4, 20) if src.chance(60) else src.integer(21, 100)
    lists = src.pick([0, 50, 50, 100])
    for _ in range(levels):
        if src.chance(lists):
            v = [v]
            if src.chance(20):
                v.insert(src.draw(2), gen_scalar(src))
        else:
            v = {gen_key(src): v}
            if src.chance(20):
                v.setdefault(gen_key(src), gen_scalar(src))
    return v


def long_pair(src):
    """Two long values that differ in one spot, somewhere inside."""
    n = max(2, gen_size(src, [33, 65, 100, 201, 257, 501, 513, 1000, 1025]))
    n = n if n < 5000 else 1025
    if SIZES and src.chance(40):
        n = min(5000, n + sum(src.pick(SIZES) for _ in range(2)))
    i = src.pick([0, n - 1, n // 2, src.draw(n), src.draw(n)])
    f = src.draw(6)
    if f == 0:
        base = src.pick(["a" * n, "ab" * n, "".join(chr(97 + j % 26) for j in range(n)), " " * n])[:n]
        v, w = base, base[:i] + src.pick("Zz .\n0") + base[i + 1:]
    elif f == 1:
        base = src.pick([b"a" * n, bytes(j % 256 for j in range(n)), b"\0" * n])
        v, w = base, base[:i] + bytes([base[i] ^ src.pick([1, 32, 128])]) + base[i + 1:]
    elif f == 2:
        v = src.pick([list(range(n)), [0] * n, ["x"] * n, [None] * n])
        w = v[:i] + [src.pick([-1, True, "y", 1.5])] + v[i + 1:]
    elif f == 3:
        n = min(n, 600)
        i = min(i, n - 1)
        v = {f"k{j}": j for j in range(n)}
        w = {(f"k{j}" if j != i or src.chance(50) else f"K{j}"): (j if j != i else -j - 1)
             for j in range(n)}
    elif f == 4:
        v = src.pick([1, -1]) * (10 ** min(n, 3000) + 7)
        w = v + src.pick([1, -1, 10 ** (min(n, 3000) - 1)])
    else:
        m = max(2, min(40, n))
        i = min(i, m - 1)
        inner = [src.pick(["abc", 1, None, b"x"])] * m
        v = [list(inner) for _ in range(m)]
        w = [list(x) for x in v]
        w[i][src.draw(m)] = "other"
    if v == w:
        raise Discard("the same")
    for _ in range(src.draw(3)):
        k = src.pick(_KEYS[:5])
        v, w = ([v], [w]) if src.chance(50) else ({k: v}, {k: w})
    return (v, w) if src.chance(70) else (w, v)


def open_for(v, src):
    """A spec without constraints that admits the plain value."""
    if src.chance(15):
        return S("any")
    if isinstance(v, dict):
        if src.chance(30):
            return S("dict")
        return S("dict", items=[(k, open_for(x, src), src.chance(20)) for k, x in v.items()])
    if isinstance(v, list):
        if len(v) > 1 or src.chance(30):
            return S("list")
        return S("list", mode="elements", elements=[open_for(x, src) for x in v])
    return S({type(None): "none"}.get(type(v)) or type(v).__name__)


def wide_keys(src, n):
    """Many keys, some of them odd or related to others."""
    key = src.pick([lambda i: f"k{i}", lambda i: f"k{i}", lambda i: i, lambda i: "k" * i, lambda i: (i,)])
    keys = [key(i) for i in range(n)]
    if src.chance(60):
        for _ in range(src.integer(1, 6)):
            i = src.draw(n)
            keys[i] = gen_key(src) if src.chance(40) else related_key(src, keys)
    return src.shuffled(list(dict.fromkeys(keys)))


def wide_plain(src):
    n = gen_size(src, [6, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 200, 256, 257])
    f = src.draw(4)
    few = [gen_plain(src, 1) for _ in range(3)]
    if f == 0:
        return [src.pick(few) for _ in range(n)]
    if f == 1:
        return list(range(n))
    if f == 2:
        return {k: src.pick(few) for k in wide_keys(src, n)}
    return {src.pick(["a", 1, (0,)]): "x" * n, "b": bytes(n), "c": [i * i for i in range(n)]}


# ------------------------------------------------------------------------------------------
# specs

class Opt:
    """What gen_spec may produce."""

    def __init__(self, sat=True, alias=True, regex=True, special=False, fixed=True, odd_keys=True,
                 big=True, random_kinds=True, any_=True, obj_keys=False, unsat_optional=False, levels=9, huge=False,
                 huge_len=False):
        self.sat = sat                  # hereditarily satisfiable by construction
        self.alias = alias
        self.regex = regex
        self.special = special          # nan/inf among fixed floats and bounds
        self.fixed = fixed              # fixed values
        self.odd_keys = odd_keys
        self.big = big                  # bounds outside the generator's defaults
        self.random_kinds = random_kinds    # unfixed uuid4/datetime/date
        self.any_ = any_
        self.obj_keys = obj_keys        # dict keys that are objects: uncopyable, equal to nothing
        self.unsat_optional = unsat_optional    # optional members that no value satisfies
        self.huge_len = huge_len        # such bounds on lengths: nothing can be generated from them
        self.huge = huge                # ints with thousands of digits, which have no repr
        self.levels = levels            # of a deep chain: comparing schemas takes time 2 ** levels


DEFAULT = Opt()
KINDS_FLAT = ("none", "bool", "int", "float", "str", "bytes", "uuid4", "datetime", "date")


def gen_spec(src, depth=None, opt=DEFAULT):
    if depth is None and SMALL[0]:
        depth = src.integer(1, 3)
    if depth is None:
        f = src.draw(1000)
        if f >= 1000 - WIDE[0] - DEEP[0]:
            return wide_spec(src, opt) if f >= 1000 - WIDE[0] else deep_spec(src, opt)
        depth = src.weighted([(2, 0), (3, 1), (5, 2), (3, 3), (1, 4)])
    w = [(2, "none"), (3, "bool"), (6, "int"), (5, "float"), (8, "str"), (2, "bytes"),
         (2, "uuid4"), (2, "datetime"), (2, "date")]
    if depth > 0:
        w += [(16, "list"), (16, "dict"), (8, "any"), (4 if opt.alias else 0, "alias")]
    else:
        w += [(2, "list"), (2, "dict"), (1, "any")]
    if SMALL[0]:
        w = [(1, "none"), (1, "bool"), (5, "int"), (2, "float"), (5, "str"), (1, "bytes"), (1, "uuid4"),
             (1, "datetime"), (1, "date"), (9 if depth > 0 else 4, "list"),
             (9 if depth > 0 else 4, "dict"), (4 if depth > 0 else 2, "any"),
             (1 if opt.alias and depth > 0 else 0, "alias")]
    return spec_of_kind(src.weighted(w), src, depth, opt)


DEEP = [20]      # per mille of the specs are deep chains
WIDE = [15]      # and have many members on one level


def deep_spec(src, opt, levels=None):
    """A long chain of containers: every level holds one member that goes on, so that values and
    errors stay small while paths, indentation and recursion get long."""
    s = gen_spec(src, src.draw(2), opt)
    if src.chance(25 if DEEP[0] < 100 else 60):      # something long at the end of it
        n = src.pick([8, 9, 10, 12, 16, 17, 20, 33])
        s = src.pick([
            S("list", mode="typed", type=gen_spec(src, 0, opt),
              **src.pick([{"len": n}, {"min_len": n}, {"min_len": n - 1, "max_len": n}])),
            S("str", **src.pick([{"len": n}, {"min_len": n}, {"len": n, "alphabet": "ab"}])),
            S("list", mode="elements", elements=[gen_spec(src, 0, opt) for _ in range(n)])])
    same = src.draw(12) if src.chance(25) else None     # one container all the way
    small = [i for i in SIZES if i <= opt.levels]
    if levels is None and small and src.chance(30):
        levels = min(src.pick(small) + src.integer(0, 1), opt.levels)
    if levels is None:
        levels = src.integer(2, 6) if DEEP[0] > 100 and src.chance(80) else \
            src.integer(2, min(12, opt.levels)) if src.chance(80) or opt.levels < 13 else \
            src.integer(13, opt.levels)
    for _ in range(levels):
        f = src.draw(12) if same is None else same
        if f < 4:
            items = {}
            if src.chance(30):
                items[gen_key(src, opt.odd_keys)] = (gen_spec(src, 0, opt), src.chance(40))
            items[gen_key(src, opt.odd_keys)] = (s, src.chance(20))
            if src.chance(30):
                items.setdefault(gen_key(src, opt.odd_keys), (gen_spec(src, 0, opt), src.chance(40)))
            items = [(k, sub, o) for k, (sub, o) in items.items()]
            s = S("dict", items=items, ell=len(items) if src.chance(25) else None)
        elif f < 7:
            els = [s]
            if src.chance(30):
                els.insert(src.draw(2), gen_spec(src, 0, opt))
            s = S("list", mode="elements", elements=els)
        elif f < 8:
            form = src.pick([{"head": True}, {"tail": True}, {"head": True, "tail": True}])
            s = S("list", mode="elements", elements=[s], max_len=1, **form)
        elif f < 10:
            s = S("list", mode="typed", type=s, **src.pick([{"len": 1}, {"max_len": 1, "min_len": 1}]))
        elif f < 11:
            types = [s, gen_spec(src, 0, opt)]
            s = S("any", types=[t for x in src.shuffled(types) for t in flat_any(x)])
            if len(s.p["types"]) > 8:
                s = s.p["types"][0]
        elif opt.alias:
            s = S("alias", name=src.pick(["Alias", "T"]), target=s)
    return s


def wide_spec(src, opt):
    """Many members on one level."""
    n = gen_size(src, [10, 11, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 120]) if WIDE[0] < 100 \
        else src.integer(5, 18)
    small = [gen_spec(src, 0 if WIDE[0] < 100 else src.draw(2), opt) for _ in range(4)]
    f = src.draw(4) if WIDE[0] < 100 else src.pick([0, 0, 1, 1, 1, 2, 3])
    if f == 0:
        form = src.pick([{}, {}, {"head": True}, {"tail": True}, {"head": True, "tail": True}])
        return S("list", mode="elements", elements=[src.pick(small) for _ in range(n)], **form)
    if f == 1:
        items = [(k, src.pick(small), src.chance(30)) for k in wide_keys(src, n)]
        return S("dict", items=items, ell=len(items) if src.chance(30) else None)
    if f == 2:
        types = [t for _ in range(n) for t in flat_any(gen_spec(src, 0, opt))]
        return S("any", types=types)
    s = S("list", mode="typed", type=small[0])
    return s.with_(**src.pick([{"len": n}, {"min_len": n}, {"min_len": n - 1, "max_len": n}]))


def spec_of_kind(k, src, depth, opt):
    if k == "none":
        return S("none")
    if k in ("bool", "bytes", "uuid4", "datetime", "date"):
        if (opt.fixed and src.chance(50)) or (not opt.random_kinds
                                              and k in ("uuid4", "datetime", "date")):
            return S(k, value=scalar_of(k, src))
        return S(k)
    if k == "int":
        return spec_int(src, opt)
    if k == "float":
        return spec_float(src, opt)
    if k == "str":
        return spec_str(src, opt)
    if k == "list":
        return spec_list(src, depth, opt)
    if k == "dict":
        return spec_dict(src, depth, opt)
    if k == "any":
        if depth <= 0 or src.chance(12):
            return S("any")
        types = []
        for _ in range(src.integer(1, 4)):
            sub = again(types, src, opt) if types and src.chance(12) else gen_spec(src, depth - 1, opt)
            types += flat_any(sub)
        return S("any", types=types)
    if k == "alias":
        return S("alias", name=src.pick(["Alias", "T", "Id", "a b"]),
                 target=gen_spec(src, depth - 1, opt))
    raise AssertionError(k)


TWINS = {int: (float, bool), bool: (int, float), float: (int, bool)}


def twin_value(v, src):
    """An equal value of another type, or of another sign, somewhere inside v."""
    spots = [p for p in positions(v)
             if type(get_at(v, p)) in (int, bool, float) and get_at(v, p) in (0, 1, 2, 5)]
    if not spots:
        return perturb(v, src)
    path = src.pick(spots)
    x = get_at(v, path)
    if x == 0 and src.chance(50):
        new = src.pick([-0.0, 0.0])
    else:
        new = src.pick(TWINS[type(x)])(x)
    return replace_at(v, path, new)


def twin_spec(spec, src, opt):
    """The same schema but for one constraint or member."""
    def change(s, i):
        """i: [number of nodes before the one to change]"""
        i[0] -= 1
        if i[0] == -1:
            return _twin(s, src, opt)
        p = dict(s.p)
        for n in ("type", "target"):
            if n in p:
                p[n] = change(p[n], i)
        if "types" in p:
            p["types"] = [t for x in p["types"] for t in flat_any(change(x, i))]
        if "elements" in p:
            p["elements"] = [change(x, i) for x in p["elements"]]
        if "items" in p:
            p["items"] = [(k, change(x, i), o) for k, x, o in p["items"]]
        return S(s.kind, **p)
    nodes = list(walk(spec))
    return change(spec, [src.draw(len(nodes))])


def _twin(s, src, opt):
    p = s.p
    if "value" in p and s.kind in ("int", "float", "bool") and p["value"] in (0, 1) and len(p) == 1:
        v = src.pick([True, False, 1, 0, 1.0, 0.0, -0.0])
        return S(type(v).__name__, value=v)
    if s.kind == "dict" and p.get("items"):
        items = list(p["items"])
        i = src.draw(len(items))
        k, x, o = items[i]
        f = src.draw(3)
        if f == 0:
            items[i] = (k, x, not o)
        elif f == 1:
            items.reverse()
        else:
            return S("dict", items=items, ell=None if "ell" in p else len(items))
        return S("dict", **{**p, "items": items})
    if s.kind == "list" and p.get("mode") == "elements" and p["elements"]:
        return S("list", **{**p, "elements": p["elements"][::-1], "len": None, "min_len": None,
                            "max_len": None, "head": None if p.get("head") else True})
    if s.kind == "any" and p.get("types"):
        return S("any", types=p["types"][::-1])
    if s.kind in ("int", "float", "str", "bytes") and src.chance(70):
        t = _near_scalar(s, src)
        if t is not None and not (opt.sat and not sat(t)):
            return t
    return spec_of_kind(s.kind, src, 1, opt)


def _near_scalar(s, src):
    """The scalar schema with one of its constraints a little off."""
    p = dict(s.p)
    names = [n for n in p if p[n] is not None and n != "rx"]
    if not names:
        return None
    n = src.pick(names)
    v = p[n]
    if n == "pattern":
        prog = rx.twin(p["rx"], src) if p.get("rx") is not None else None
        if prog is None or not rx.compiles(prog.pattern) or not rx.satisfiable(prog.node):
            return None
        return S("str", **{**p, "pattern": prog.pattern, "rx": prog})
    if n in ("len", "min_len", "max_len", "precision"):
        p[n] = max(1 if n == "precision" else 0, v + src.pick([-1, 1]))
    elif isinstance(v, str):
        if not v:
            return None
        i = len(v) - 1 if src.chance(40) else src.draw(len(v))
        p[n] = v[:i] + rx.near_char(v[i], src) + v[i + 1:]
    elif isinstance(v, bytes):
        if not v:
            return None
        i = len(v) - 1 if src.chance(40) else src.draw(len(v))
        p[n] = v[:i] + bytes([v[i] ^ src.pick([1, 32, 128])]) + v[i + 1:]
    elif isinstance(v, int):
        p[n] = v + src.pick([-1, 1])
    elif isinstance(v, float) and math.isfinite(v):
        p[n] = src.pick([math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v + 1.0, -v])
    return S(s.kind, **p)


def again(specs, src, opt):
    """One of the specs once more (the same object), or one that differs from it in a single part."""
    s = src.pick(specs)
    return s if src.chance(50) else twin_spec(s, src, opt)


def flat_any(s):
    if s.kind == "any" and s.has("types"):
        return s.p["types"]
    return [s]


def _pair(lo, hi, src, opt):
    """Order bounds unless unsatisfiable specs are wanted."""
    if lo is not None and hi is not None and lo > hi and (opt.sat or src.chance(80)):
        return hi, lo
    return lo, hi


def spec_int(src, opt):
    f = src.draw(8)
    if opt.huge and src.chance(5):
        return S("int", **src.pick([{"min": _HUGE}, {"max": -_HUGE}, {"value": _HUGE}, {"max": _HUGE},
                                    {"min": -_HUGE, "max": _HUGE}, {"min": _HUGE - 1, "max": _HUGE}]))
    if f < 2 and opt.fixed:
        v = gen_int(src)
        p = {"value": v}
        if src.chance(30):
            p["min"] = v - abs(gen_int(src)) * src.draw(2)
        if src.chance(30):
            p["max"] = v + abs(gen_int(src)) * src.draw(2)
        return S("int", **p)
    lo = gen_int(src) if src.chance(55) else None
    hi = gen_int(src) if src.chance(55) else None
    if lo is not None and src.chance(25):
        hi = lo + src.integer(0, 2)
    if not opt.big:
        lo = lo if lo is None or abs(lo) < 2 ** 62 else 5
        hi = hi if hi is None or abs(hi) < 2 ** 62 else 5
    lo, hi = _pair(lo, hi, src, opt)
    return S("int", min=lo, max=hi)


def spec_float(src, opt):
    prec = src.integer(1, 2 if SMALL[0] else 15) if src.chance(35) else None
    f = src.draw(8)
    if f < 2 and opt.fixed:
        v = gen_float(src, opt.special)
        p = {"value": v, "precision": prec}
        if src.chance(30) and not math.isnan(v):
            p["min"] = v - abs(gen_float(src)) * src.draw(2)
        if src.chance(30) and not math.isnan(v):
            p["max"] = v + abs(gen_float(src)) * src.draw(2)
        if any(isinstance(x, float) and math.isnan(x) for n, x in p.items() if n != "value"):
            p.pop("min", None)
            p.pop("max", None)
        return S("float", **p)
    lo = gen_float(src, opt.special) if src.chance(60) else None
    hi = gen_float(src, opt.special) if src.chance(60) else None
    if lo is not None and src.chance(30):
        hi = lo + src.pick([0.0, 0.01, 0.05, 0.1, 1.0, 1e-12])
    if opt.sat or src.chance(90):
        lo = None if lo is not None and math.isnan(lo) else lo
        hi = None if hi is not None and math.isnan(hi) else hi
    if not opt.big:
        lo = lo if lo is None or abs(lo) < 1e12 else 5.0
        hi = hi if hi is None or abs(hi) < 1e12 else 5.0
    lo, hi = _pair(lo, hi, src, opt)
    return S("float", min=lo, max=hi, precision=prec)


def gen_len(src, big=True):
    if SMALL[0]:
        return src.integer(0, 3)
    if SIZES and src.chance(10):
        return gen_size(src, [3])
    f = src.draw(12)
    if f < 7:
        return src.integer(0, 4)
    if f < 9:
        return src.integer(0, 40)
    if f < 10 and big:
        return src.pick([15, 16, 17, 31, 32, 33, 34, 40, 64, 65])
    return src.integer(0, 3)


def _len_props(src, opt, lowest, exact=None, cap=200):
    """len / min_len / max_len allowing at least one length >= lowest (if opt.sat)."""
    f = src.draw(4)
    n = gen_len(src, opt.big)
    n = n if n in SIZES else min(n, cap)
    if opt.huge_len and src.chance(4):
        return src.pick([{"max_len": _HUGE}, {"min_len": max(n, 0), "max_len": _HUGE}])
    if not opt.sat and src.chance(12):
        n = -n
        lowest = 0 if src.chance(50) else -10
    if f == 0:
        return {"len": max(n, lowest)}
    if f == 1:
        return {"min_len": n - (src.integer(0, 3) if src.chance(10) else 0)}
    if f == 2:
        return {"max_len": max(n, lowest)}
    m = max(n + src.integer(0, 5), lowest)
    if not opt.sat and src.chance(10):
        m = n - 1
    return {"min_len": n, "max_len": m}


def spec_str(src, opt):
    f = src.draw(10)
    if f < 2 and opt.regex and not (SMALL[0] and src.chance(60)):
        if src.chance(60):
            prog = rx.gen_prog(src)
        else:
            prog = rx.Prog(("rep", rx.gen_class(src, wide=False), 1, None, False, "+"),
                           src.pick(["", "^"]), src.pick(["", "$"]))
        if not rx.compiles(prog.pattern) or not rx.satisfiable(prog.node):
            raise Discard("pattern")
        return S("str", pattern=prog.pattern, rx=prog)
    if f < 4 and opt.fixed:
        v = gen_text(src)
        p = {"value": v}
        if src.chance(25):
            p.update(src.pick([{"len": len(v)}, {"min_len": len(v)}, {"max_len": len(v)},
                               {"min_len": max(0, len(v) - 1), "max_len": len(v) + 1}]))
        if src.chance(20):
            p["alphabet"] = "".join(dict.fromkeys(v + gen_text(src, 3)))
        if src.chance(20):
            i = src.draw(len(v) + 1)
            p["substr"] = v[i:i + src.integer(0, 3)]
        return S("str", **p)
    p = {}
    if src.chance(40):
        a = src.pick(["abc", "ab", "a", "0123456789", "aé€", "abca", "xyz \n", "_-", "xa-c", "a-c", "0-9a", "^ab",
                      "[a]", "a.", "\\d", "-a", "]-", "A-C_", "a|b", ",", "a,b", "ac", "{a}", "Aa"]) \
            if src.chance(70) else gen_text(src)
        if SMALL[0]:
            a = src.pick(["ab", "a", "abc", "b", ""])
        p["alphabet"] = a
    if src.chance(35):
        if "alphabet" in p and (opt.sat or src.chance(80)):
            a = p["alphabet"]
            p["substr"] = "".join(src.pick(a) for _ in range(src.integer(0, 3))) if a else ""
        else:
            p["substr"] = gen_text(src, 4)
    low = len(p.get("substr", ""))
    if src.chance(55):
        p.update(_len_props(src, opt, low))
    s = S("str", **p)
    if opt.sat and not sat(s):
        for n in ("len", "min_len", "max_len"):
            p.pop(n, None)
        s = S("str", **p)
    return s


def spec_list(src, depth, opt):
    p = {}
    f = src.draw(10) if depth > 0 else 9
    if f < 3:
        p["mode"] = "typed"
        p["type"] = gen_spec(src, depth - 1, opt)
        if src.chance(50):
            p.update(_len_props(src, opt, 0, cap=40))
    elif f < 8:
        p["mode"] = "elements"
        form = src.weighted([(4, "exact"), (3, "head"), (3, "tail"), (3, "contains"), (1, "ell")])
        if form == "ell":
            p.update(elements=[], head=True)
        else:
            lo = 0 if form == "exact" else 1
            els = [gen_spec(src, depth - 1, opt) for _ in range(src.integer(lo, 3))]
            if len(els) > 1 and src.chance(20):
                els[src.draw(len(els) - 1) + 1] = again(els[:1], src, opt)
            p["elements"] = els
            if form in ("tail", "contains"):
                p["head"] = True
            if form in ("head", "contains"):
                p["tail"] = True
        m = len(p["elements"])
        if src.chance(30):
            g = src.draw(4)
            extra = src.integer(0, 3) if form != "exact" else 0
            if g == 0:
                p["len"] = m + extra
            elif g == 1:
                p["min_len"] = src.integer(0, m) if src.chance(40) else m
            elif g == 2:
                p["max_len"] = m + src.integer(0, 3)
            else:
                p["min_len"] = src.integer(0, m)
                p["max_len"] = m + src.integer(0, 3)
    elif src.chance(60):
        p.update(_len_props(src, opt, 0, cap=60))
    return S("list", **p)


def gen_unsat(src):
    """A schema that no value satisfies."""
    a = src.pick([S("int", min=5, max=3), S("float", min=1.0, max=0.5), S("int", min=1, max=0)])
    f = src.draw(4)
    if f == 1:
        return S("dict", items=[("a", a, False)])
    if f == 2:
        return S("list", mode="elements", elements=[S("int"), a])
    if f == 3:
        return S("any", types=[a, S("int", min=2, max=1)])
    return a


def spec_dict(src, depth, opt):
    if depth <= 0 or src.chance(10):
        return S("dict") if src.chance(50) else S("dict", items=[],
                                                  ell=0 if src.chance(50) else None)
    items = {}
    for _ in range(src.integer(0, 4)):
        key = gen_key(src, opt.odd_keys)
        if items and src.chance(15):
            key = related_key(src, items)
            if not opt.odd_keys and not isinstance(key, str):
                key = str(key)
        if opt.obj_keys and src.chance(6):
            key = src.pick(obj_keys())
        sub = again([x for x, _ in items.values()], src, opt) if items and src.chance(12) \
            else gen_spec(src, depth - 1, opt)
        items[key] = (sub, src.chance(35))
        if opt.unsat_optional and items[key][1] and src.chance(12):
            items[key] = (gen_unsat(src), True)
    items = [(k, s, o) for k, (s, o) in items.items()]
    ell = None
    if src.chance(40):
        ell = len(items) if src.chance(70) else src.draw(len(items) + 1)
    return S("dict", items=items, ell=ell)


# ------------------------------------------------------------------------------------------
# conforming values, constructively

HUGE = 4


def conf(s, src, depth=2, partial=False):
    """A value that conforms to s (checked by the caller when it matters).  Discards if none.
    partial: dict keys may be missing (for substitution)."""
    k, p = s.kind, s.p
    if k == "none":
        return None
    if k in ("bool", "bytes", "uuid4", "datetime", "date"):
        if "value" in p:
            return p["value"]
        if k == "date" and src.chance(5):
            return gen_datetime(src)
        return scalar_of(k, src)
    if k == "int":
        if "value" in p:
            return p["value"]
        lo, hi = p.get("min"), p.get("max")
        if lo is not None and hi is not None:
            if lo > hi:
                raise Discard("unsat int")
            f = src.draw(4)
            return lo if f == 0 else hi if f == 1 else src.integer(lo, hi)
        if lo is not None:
            return lo + (abs(gen_int(src)) if src.chance(60) else 0)
        if hi is not None:
            return hi - (abs(gen_int(src)) if src.chance(60) else 0)
        return src.chance(50) if src.chance(5) else gen_int(src)
    if k == "float":
        if "value" in p:
            v = p["value"]
            if src.chance(25) and not math.isnan(v) and not math.isinf(v):
                for w in (v * (1 + 1e-12), v + 10.0 ** -(p.get("precision", 15) + 2)):
                    if conforms(s, w):
                        return w
            return v
        lo, hi = p.get("min"), p.get("max")
        if (lo is not None and math.isnan(lo)) or (hi is not None and math.isnan(hi)):
            raise Discard("nan bound")
        if lo is not None and hi is not None:
            if lo > hi:
                raise Discard("unsat float")
            f = src.draw(4)
            if f == 0:
                return lo
            if f == 1:
                return hi
            if math.isinf(lo) or math.isinf(hi):
                v = gen_float(src)
                return v if lo <= v <= hi else lo
            v = lo / 2 + hi / 2 if f == 2 else lo + (hi / 2 - lo / 2) * (src.draw(1000) / 500.0)
            return min(max(v, lo), hi)
        if lo is not None:
            v = lo + abs(gen_float(src)) if src.chance(60) else lo
            return v if v >= lo else lo
        if hi is not None:
            v = hi - abs(gen_float(src)) if src.chance(60) else hi
            return v if v <= hi else hi
        return gen_float(src, special=src.chance(10))
    if k == "str":
        return conf_str(s, src)
    if k == "any":
        if "types" not in p:
            return gen_plain(src, depth)
        ok = [t for t in p["types"] if sat(t)]
        if not ok:
            raise Discard("unsat any")
        return conf(src.pick(ok), src, depth, partial)
    if k == "alias":
        return conf(p["target"], src, depth, partial)
    if k == "dict":
        out = {}
        if "items" not in p:
            for _ in range(src.integer(0, 2)):
                out[gen_key(src)] = gen_plain(src, depth - 1)
            return out
        items = p["items"]
        if src.chance(30):
            items = src.shuffled(items)
        for key, sub, opt in items:
            if opt and (src.chance(45) or not sat(sub)):
                continue
            if partial and src.chance(40):
                continue
            out[key] = conf(sub, src, depth - 1, partial)
        if "ell" in p and (not partial or not p["items"]) and src.chance(50):
            for _ in range(src.integer(1, 2)):
                key = related_key(src, [k for k, _, _ in items]) if items and src.chance(35) \
                    else gen_key(src)
                if not any(key == k for k, _, _ in items):
                    out.setdefault(key, gen_plain(src, depth - 1))
        return out
    if k == "list":
        lo, hi = len_bounds(s)
        lo = max(lo, 0)
        if hi is not None and hi < lo:
            raise Discard("unsat list")
        mode = p.get("mode")
        if mode == "elements":
            els = p["elements"]
            m = len(els)
            if not p.get("head") and not p.get("tail"):
                return [conf(e, src, depth - 1, partial) for e in els]
            need = max(0, lo - m)
            room = (hi - m) if hi is not None else need + 3
            if room < need or room < 0:
                raise Discard("unsat list")
            n = src.integer(need, room if room < 50 else need + 3)
            fill = [filler(els, src, depth) for _ in range(n)]
            vals = [conf(e, src, depth - 1, partial) for e in els]
            if p.get("head") and p.get("tail"):
                i = src.draw(len(fill) + 1)
                return fill[:i] + vals + fill[i:]
            return fill + vals if p.get("head") else vals + fill
        top = lo + 3
        if hi is not None:
            top = min(top, hi) if not src.chance(25) else min(hi, lo + 40)
        n = src.integer(lo, top)
        if src.chance(4 if SIZES else 1) and (mode != "typed" or sat(p["type"])):
            n = gen_size(src, [17, 33, 65, 100, 101, 129, 257])
            n = max(lo, n if hi is None else min(n, hi))
            few = [conf(p["type"], src, depth - 1, partial) if mode == "typed" else gen_plain(src, 0)
                   for _ in range(2)]
            one = src.draw(n + 1)
            return [_copied(few[i == one]) for i in range(n)]
        if mode == "typed":
            if not sat(p["type"]):
                return [] if lo == 0 else _discard()
            return [conf(p["type"], src, depth - 1, partial) for _ in range(n)]
        return [gen_plain(src, depth - 1) for _ in range(n)]
    raise AssertionError(k)


def _discard():
    raise Discard("unsat")


def filler(els, src, depth):
    """An arbitrary list element; often one that resembles a declared element."""
    if els and src.chance(40):
        try:
            return conf(src.pick(els), src, depth - 1)
        except Discard:
            return None
    return gen_plain(src, depth - 1)


def alpha_of(p):
    return p.get("alphabet")


def conf_str(s, src):
    p = s.p
    if "value" in p:
        return p["value"]
    if "pattern" in p:
        prog = p.get("rx")
        if prog is None:
            raise Discard("no sampler")
        v = rx.sample(prog.node, src)
        if src.chance(25) and not prog.pre:
            v = gen_text(src, 3) + v
        if src.chance(25) and not prog.post:
            v = v + gen_text(src, 3)
        return v
    lo, hi = len_bounds(s)
    sub = p.get("substr", "")
    lo = max(lo, len(sub), 0)
    if hi is not None and hi < lo:
        raise Discard("unsat str")
    top = lo + 3
    if hi is not None:
        top = hi if src.chance(25) else min(top, hi)
    n = src.integer(lo, max(lo, top)) - len(sub)
    if src.chance(6 if SIZES else 2):
        # a long one, of few different characters
        n = gen_size(src, [33, 64, 100, 256, 257, 1000])
        n = max(lo, n if hi is None else min(n, hi)) - len(sub)
        letters = [gen_char(src) for _ in range(3)] if alpha_of(p) is None else alpha_of(p)
        if letters and all(c in letters for c in sub if alpha_of(p) is not None):
            part = "".join(src.pick(letters) for _ in range(min(n, 7)))
            rest = (part * (n // len(part) + 1))[:n] if part else ""
            i = src.pick([0, len(rest), len(rest) // 2])
            return rest[:i] + sub + rest[i:]
    alpha = p.get("alphabet")
    if alpha is not None:
        if any(c not in alpha for c in sub) or (not alpha and n > 0 and lo > 0):
            raise Discard("unsat str")
        if not alpha:
            return sub
        rest = "".join(src.pick(alpha) for _ in range(n))
    else:
        rest = "".join(gen_char(src) for _ in range(n))
    i = src.draw(len(rest) + 1)
    return rest[:i] + sub + rest[i:]


# ------------------------------------------------------------------------------------------
# perturbation: change one thing somewhere inside a value

def positions(v, limit=400):
    """All paths of a value, as tuples of keys."""
    out = [()]
    stack = [((), v)]
    while stack and len(out) < limit:
        path, x = stack.pop()
        if type(x) is list:
            for i, y in enumerate(x):
                out.append(path + (i,))
                stack.append((path + (i,), y))
        elif type(x) is dict:
            for k, y in x.items():
                out.append(path + (k,))
                stack.append((path + (k,), y))
    return out


def get_at(v, path):
    for k in path:
        v = v[k]
    return v


def replace_at(v, path, new):
    """A copy of v with the sub-value at path replaced (containers along the path are copied)."""
    if not path:
        return new
    k = path[0]
    if isinstance(v, list):
        out = list(v)
    else:
        out = dict(v)
    out[k] = replace_at(v[k], path[1:], new)
    return out


def tweak(x, src, special=True):
    """Change one value a little (or a lot)."""
    f = src.draw(10)
    if f == 0:
        return gen_plain(src, 1, special)
    if f == 1:
        return src.pick([None, True, False, 0, 1, "", "a", [], {}, 0.0, b""])
    if x is None:
        return src.pick([False, 0, "", [], {}])
    if isinstance(x, bool):
        return src.pick([not x, int(x), str(x), None, float(x)])
    if isinstance(x, int):
        if f < 3:
            return src.pick([str(x) if abs(x) < 10 ** 99 else "9" * 99,
                             float(x) if abs(x) < 2 ** 60 else -x, [x], x != 0])
        return x + src.pick([1, -1, 1, -1, 2, -2, 10, 2 ** 40, -x - x])
    if isinstance(x, float):
        if f < 3:
            return src.pick([str(x), [x], int(x) if math.isfinite(x) and abs(x) < 1e18 else 0])
        if f < 4 and special:
            return src.pick([float("nan"), float("inf"), float("-inf")])
        if not math.isfinite(x):
            return gen_float(src)
        d = src.pick([1, 1, 2, 3, 6, 8, 10, 15, 16])
        g = src.draw(5)
        if g == 0:
            return math.nextafter(x, math.inf)
        if g == 1:
            return math.nextafter(x, -math.inf)
        if g == 2:
            return x * (1 + 10.0 ** -d)
        if g == 3:
            return -x
        return x + src.pick([1, -1]) * 10.0 ** -d
    if isinstance(x, str):
        g = src.draw(9)
        i = src.draw(len(x) + 1)
        if g < 2:
            return x[:i] + gen_char(src) + x[i:]
        if g < 4 and x:
            return x[:i] + x[i + 1:] if i < len(x) else x[:-1]
        if g < 6 and x:
            i = min(i, len(x) - 1)
            return x[:i] + gen_char(src) + x[i + 1:]
        if g == 6:
            return x.swapcase()
        if g == 7:
            return src.pick([x + "\n", x.encode("utf-8", "replace"), [x], list(x), x.strip(), x + " ",
                             x.casefold(), *(unicodedata.normalize(n, x) for n in ("NFC", "NFD", "NFKC"))])
        return gen_text(src)
    if isinstance(x, bytes):
        return src.pick([x + b"\0", x[:-1], x.decode("latin1"), bytearray(x), x[::-1]])
    if isinstance(x, uuid.UUID):
        return src.pick([uuid.UUID(int=x.int ^ 1, version=4), uuid.UUID(int=x.int, version=1),
                         uuid.UUID(int=0), str(x), x.int, x.hex, foreign_uuid(x, src),
                         uuid.UUID(int=x.int ^ (1 << 127), version=4)])
    if isinstance(x, dt.datetime):
        out = [x.date(), x.isoformat(), x.replace(tzinfo=None), x.replace(tzinfo=dt.timezone.utc),
               x.time()]
        try:
            out += [x + dt.timedelta(microseconds=1), x - dt.timedelta(days=1)]
        except OverflowError:
            pass
        f = src.pick(["year", "month", "day", "hour", "minute", "second", "microsecond"])
        try:
            new = src.pick([0, 1, 2, 28, 30, 59, 500000, getattr(x, f) + 1, getattr(x, f) - 1])
            out += [x.replace(**{f: new}, fold=src.draw(2))] * 3
        except (OverflowError, ValueError):
            pass
        out += [x.replace(fold=1 - x.fold), x.replace(tzinfo=dt.timezone(dt.timedelta(hours=1)))]
        return src.pick(out)
    if isinstance(x, dt.date):
        out = [dt.datetime(x.year, x.month, x.day), x.isoformat()]
        try:
            out += [x + dt.timedelta(days=1), x - dt.timedelta(days=1)]
        except OverflowError:
            pass
        return src.pick(out)
    if isinstance(x, list):
        g = src.draw(8)
        i = src.draw(len(x) + 1)
        if g < 2:
            return x[:i] + [gen_plain(src, 1, special)] + x[i:]
        if g < 4 and x:
            i = min(i, len(x) - 1)
            return x[:i] + x[i + 1:]
        if g == 4 and x:
            return x + [x[src.draw(len(x))]]
        if g == 5 and len(x) > 1:
            return src.shuffled(x)
        if g == 6:
            return src.pick([tuple(x), x + x, [x], x[::-1], []])
        return x[:i]
    if isinstance(x, dict):
        g = src.draw(8)
        out = dict(x)
        if g < 2:
            key = related_key(src, out) if out and src.chance(45) else gen_key(src)
            out[key] = gen_plain(src, 1, special)
            return out
        if g < 5 and out:
            out.pop(src.pick(list(out)))
            return out
        if g == 5 and out:
            k = src.pick(list(out))
            key = related_key(src, [k]) if src.chance(50) else gen_key(src)
            val = out.pop(k)
            out[key] = val
            return out
        if g == 6:
            return src.pick([{}, list(out.items()), list(out), [out]])
        return dict(reversed(list(out.items())))
    return gen_plain(src, 1, special)


def perturb(v, src, special=True):
    pos = positions(v)
    # favour the leaves and their parents over the root
    path = src.pick(pos)
    return replace_at(v, path, tweak(get_at(v, path), src, special))


def near_value(s, src, special=True):
    """conforming / perturbed / unrelated value for a spec; returns (label, value)."""
    f = src.weighted([(4, "conform"), (9, "perturb"), (2, "perturb2"), (1, "unrelated")])
    if f == "unrelated":
        return f, gen_plain(src, 2, special)
    try:
        v = conf(s, src)
    except Discard:
        return "unsat", gen_plain(src, 2, special)
    if f == "conform":
        return f, v
    v = perturb(v, src, special)
    if f == "perturb2":
        v = perturb(v, src, special)
    return f, v


# ------------------------------------------------------------------------------------------
# hostile zoo (C08, C10, C12)

class MyStr(str):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyBytes(bytes):
    pass


class MyUUID(uuid.UUID):
    pass


class MyDate(dt.date):
    pass


class MyDateTime(dt.datetime):
    pass


class MyOrdered(OrderedDict):
    pass


class MyEnumStr(str, enum.Enum):
    A = "a"
    ABC = "abc"


class MyEnumInt(enum.IntEnum):
    ONE = 1
    TWO = 2


def subclass_of(x, src):
    """The same value as an instance of a subclass of its type."""
    t = type(x)
    if t is int:
        if x in (1, 2) and src.chance(30):
            return MyEnumInt(x)
        return MyInt(x)
    if t is str:
        if x in ("a", "abc") and src.chance(30):
            return MyEnumStr(x)
        return MyStr(x)
    if t is float:
        return MyFloat(x)
    if t is bytes:
        return MyBytes(x)
    if t is list:
        return MyList(x)
    if t is dict:
        return src.pick([MyDict, OrderedDict, MyOrdered])(x)
    if t is uuid.UUID:
        return MyUUID(int=x.int)
    if t is dt.datetime:
        return MyDateTime(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, x.tzinfo,
                          fold=x.fold)
    if t is dt.date:
        return MyDate(x.year, x.month, x.day)
    return x


def subclassed(v, src, percent=None):
    """v with some of its parts (values and dict keys) replaced by subclass instances."""
    if percent is None:
        percent = src.pick([20, 50, 100])
    if type(v) is list:
        v = [subclassed(x, src, percent) for x in v]
    elif type(v) is dict:
        v = {(subclass_of(k, src) if src.chance(percent // 4) else k): subclassed(x, src, percent)
             for k, x in v.items()}
    return subclass_of(v, src) if src.chance(percent) else v


def _copied(v):
    """Containers are copied, the rest is shared (some values cannot be copied)."""
    if type(v) is list:
        return [_copied(x) for x in v]
    if type(v) is dict:
        return {k: _copied(x) for k, x in v.items()}
    return v


class Opaque:
    def __repr__(self):
        return "<opaque>"


class Slots:
    __slots__ = ()


class Hostile(ValueError, TypeError):
    """Raised by hostile values."""


class NoCopy:
    def __deepcopy__(self, memo):
        raise Hostile("cannot copy")

    def __reduce_ex__(self, proto):
        raise Hostile("cannot pickle")

    def __repr__(self):
        return "<nocopy>"


class Anything:
    """Has every attribute but no special method."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __call__(self, *args, **kwargs):
        return self

    def __repr__(self):
        return "<anything>"


class BadLen:
    def __len__(self):
        raise Hostile("no length")

    def __iter__(self):
        raise Hostile("no items")

    def __repr__(self):
        return "<badlen>"


class BadEq:
    def __eq__(self, other):
        raise Hostile("not comparable")

    __hash__ = object.__hash__

    def __repr__(self):
        return "<badeq>"


class BadBool:
    def __bool__(self):
        raise Hostile("ambiguous")

    def __repr__(self):
        return "<badbool>"


class BadHash:
    def __hash__(self):
        raise Hostile("no hash")

    def __repr__(self):
        return "<badhash>"


class Plain(enum.Enum):
    A = "a"
    B = 1
    C = None
    D = [1]


class Flag(enum.IntFlag):
    A = 1
    B = 2


@dataclasses.dataclass
class Data:
    a: int


def _genfn():
    yield 1


NT = namedtuple("NT", "x y")
_HUGE = 10 ** 5000


def zoo():
    """Fresh hostile values: (label, value)."""
    return [
        ("nan", float("nan")), ("inf", float("inf")), ("-inf", float("-inf")),
        ("hugeint", _HUGE), ("-hugeint", -_HUGE), ("bigint", 2 ** 2000), ("-0.0", -0.0),
        ("maxfloat", sys.float_info.max), ("denormal", 5e-324),
        ("decimal", decimal.Decimal("1.5")), ("decimal-nan", decimal.Decimal("NaN")),
        ("decimal-snan", decimal.Decimal("sNaN")), ("fraction", fractions.Fraction(1, 3)),
        ("complex", 1 + 2j), ("tuple", (1, 2)), ("emptytuple", ()), ("set", {1, 2}),
        ("frozenset", frozenset({1})), ("bytearray", bytearray(b"abc")),
        ("memoryview", memoryview(b"abc")), ("range", range(3)),
        ("mystr", MyStr("abc")), ("myint", MyInt(3)), ("myfloat", MyFloat(1.5)),
        ("mylist", MyList([1, 2])), ("mydict", MyDict(a=1)), ("mybytes", MyBytes(b"abc")),
        ("myuuid", MyUUID("12345678123442348234123456781234")),
        ("mydate", MyDate(2020, 1, 1)), ("mydatetime", MyDateTime(2020, 1, 1)),
        ("uuid1", uuid.UUID("12345678-1234-1234-8234-123456781234")),
        ("uuid-nil", uuid.UUID(int=0)), ("uuid-max", uuid.UUID(int=2 ** 128 - 1)),
        ("uuid5", uuid.uuid5(uuid.NAMESPACE_DNS, "x")),
        ("uuid-ncs", uuid.UUID("12345678-1234-4123-4234-123456781234")),
        ("uuid-ms", uuid.UUID("12345678-1234-4123-c234-123456781234")),
        ("datetime-aware", dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)),
        ("datetime-naive", dt.datetime(2020, 1, 1)), ("date", dt.date(2020, 1, 1)),
        ("time", dt.time(1, 2)), ("timedelta", dt.timedelta(1)),
        ("opaque", Opaque()), ("object", object()), ("slots", Slots()), ("nocopy", NoCopy()),
        ("class", Opaque), ("function", _genfn), ("generator", _genfn()), ("lambda", lambda: 1),
        ("module", math), ("type", int), ("exception", ValueError("x")), ("ellipsis", ...),
        ("notimplemented", NotImplemented), ("surrogate", "\ud800"), ("nul", "a\0b"),
        ("longstr", "x" * 5000), ("ordereddict", OrderedDict(a=1)),
        ("defaultdict", defaultdict(list, {"a": 1})), ("namedtuple", NT(1, 2)),
        ("dict-oddkeys", {1: 1, None: 2, (1,): 3, 1.5: 4, b"k": 5}),
        ("dict-nankey", {float("nan"): 1}), ("dict-ellkey", {...: 1}), ("dict-ell", {...: ...}),
        ("dict-hugekey", {_HUGE: 1}), ("dict-objkey", {Opaque(): 1}),
        ("dict-nocopykey", {NoCopy(): 1}), ("list-ell", [...]), ("list-ell2", [1, ..., 2]),
        ("list-ellends", [..., 1, ...]), ("nested", [[[[[{}]]]]]), ("dictkeys", {}.keys()),
        ("empty-iter", iter(())), ("zip", zip()), ("bigstr-dict", {"k" * 300: ["v" * 300]}),
        ("braces", "{0} {x} %s %d"), ("newline", "a\n - b"), ("true", True), ("list-huge", [_HUGE]),
        ("tuple-huge", (_HUGE,)), ("set-obj", {Opaque}), ("mystr-key", {MyStr("a"): 1}),
        ("decimal-inf", decimal.Decimal("Infinity")), ("intbool", MyInt(1)),
        ("dict-samerepr", {Opaque(): 1, Opaque(): 2, Opaque(): 3}),
        ("dict-samenan", {float("nan"): 1, float("nan"): 1}),
        ("deque", deque([1, 2])), ("userdict", UserDict(a=1)), ("userlist", UserList([1])),
        ("userstring", UserString("abc")), ("mappingproxy", MappingProxyType({"a": 1})),
        ("namespace", SimpleNamespace(a=1)), ("array", array("i", [1, 2])), ("chainmap", ChainMap({"a": 1})),
        ("count", itertools.count()), ("regex", re.compile("a")), ("path", pathlib.PurePosixPath("/a")),
        ("enum", Plain.A), ("enum-int", Plain.B), ("enum-none", Plain.C), ("enum-list", Plain.D), ("dataclass", Data(1)), ("slice", slice(1, 2)), ("mock", Anything()),
        ("badlen", BadLen()), ("badeq", BadEq()), ("badbool", BadBool()), ("counter", Counter("aab")),
        ("str-hash", "a" * 300 + "\ud800"), ("timezone", dt.timezone.utc), ("property", property()),
        ("method", "x".join), ("badeq-dict", {"a": BadEq(), "b": BadBool()}), ("badlist", [BadEq(), BadEq()]),
        ("mybool-like", MyInt(True)), ("intflag", Flag.A | Flag.B), ("strenum", MyEnumStr.A),
        ("badhash-list", [BadHash()]), ("dict-cmp", {1: "a", "1": "b", (1, "x"): 0, None: 1}),
        ("dict-sametext", {Opaque(): 1, MyStr("a"): 2, Opaque(): {Opaque(): 1, Opaque(): 2}}),
    ]


_OBJ_KEYS = []


def obj_keys():
    """Hashable keys that are the same object in the schema and in the values."""
    if not _OBJ_KEYS:
        nan = float("nan")
        _OBJ_KEYS.extend([NoCopy(), Opaque(), object(), nan, Slots(), math, _genfn, Opaque,
                          (NoCopy(),), (nan, 1), MyStr("my"), MyInt(7), _HUGE, frozenset({Slots}),
                          dt.date(2020, 1, 1), decimal.Decimal("1.5"), 1 + 2j, uuid.UUID(int=5),
                          NT(1, 2), "\ud800", range(3), iter(())])
    return _OBJ_KEYS


def gen_hostile(src, depth=1):
    """(label, value): from the zoo, possibly nested in a container, or a plain value."""
    z = zoo()
    label, v = src.pick(z)
    f = src.draw(6) if depth > 0 else 0
    if f == 4:
        return label + "-in-list", [gen_plain(src, 0), v]
    if f == 5:
        return label + "-in-dict", {gen_key(src): v}
    return label, v


def inject(v, src, new):
    """Put `new` somewhere inside v: replace a position, or add an element or a key."""
    path = src.pick(positions(v))
    x = get_at(v, path)
    f = src.draw(3)
    if f == 1 and type(x) is list:
        i = src.draw(len(x) + 1)
        return replace_at(v, path, x[:i] + [new] + x[i:])
    if f == 2 and type(x) is dict:
        d = dict(x)
        try:
            hash(new)
            if src.chance(50):
                d[new] = 1
            else:
                d["hostile"] = new
        except TypeError:
            d["hostile"] = new
        return replace_at(v, path, d)
    return replace_at(v, path, new)
