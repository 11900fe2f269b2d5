"""C19: the v1-to-v2 migration rewrites imports of mapped names and nothing else."""
import ast
import contextlib
import importlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import tokenize
import warnings
from collections import Counter

from ..c19_table import TABLE
from ..common import *          # noqa: F401,F403
from ..engine import Target
from .. import gen, pygen

RULE = ("a case is a generated Python module (import forms of mapped and other names interleaved with "
        "arbitrary statements, shared lines, continuations, comments, three kinds of line breaks), or a "
        "directory of such files with encodings, migrated through the command line; input and output are "
        "compared as ASTs; non-trivial: the module has a top-level import of a mapped name")
ASSUMPTIONS = ["no local name is bound twice within one import statement",
               "comments inside a rewritten import statement may go, all others stay",
               "a name's counterpart is the object that the committed copy of the table names"]

warnings.simplefilter("ignore")


def mapped(module, name):
    return name in TABLE.get(module, {})


# ------------------------------------------------------------------------------------------
# oracle

_RESOLVED = {}


def resolve(module, name):
    """The object that `from module import name` binds, or Raised."""
    key = (module, name)
    if key not in _RESOLVED:
        def go():
            m = importlib.import_module(module)
            if hasattr(m, name):
                return getattr(m, name)
            return importlib.import_module(f"{module}.{name}")
        _RESOLVED[key] = call(go)
    return _RESOLVED[key]


def counterpart(module, name, new_module, new_name):
    """Is new_module.new_name the v2 counterpart of the v1 name?"""
    want = TABLE[module][name]
    if (new_module, new_name) == want:
        return True
    a, b = resolve(*want), resolve(new_module, new_name)
    return not isinstance(a, Raised) and not isinstance(b, Raised) and a is b


def bindings(node):
    return [(node.module, a.name, a.asname or a.name) for a in node.names]


def concerned(node):
    return (isinstance(node, ast.ImportFrom) and node.level == 0
            and any(mapped(node.module, a.name) for a in node.names))


def dump(node):
    return ast.dump(node, include_attributes=False)


def replaced(old, new):
    """None, or what is wrong with the statements that stand where `old` stood."""
    got = []
    for n in new:
        got += bindings(n)
    left = list(got)
    for module, name, local in bindings(old):
        for i, (m, n, loc) in enumerate(left):
            if loc != local:
                continue
            if mapped(module, name):
                if counterpart(module, name, m, n):
                    break
            elif (m, n) == (module, name):
                break
        else:
            return f"no import binds {local!r} to the counterpart of {module}.{name}"
        del left[i]
    if left:
        return f"extra bindings {left}"
    return None


def judge_ast(old, new):
    """None, or the first difference that the property does not allow."""
    i = 0
    for node in old.body:
        if concerned(node):
            want = len(node.names)
            part, n = [], 0
            while i < len(new.body) and n < want:
                x = new.body[i]
                if not isinstance(x, ast.ImportFrom) or x.level:
                    break
                part.append(x)
                n += len(x.names)
                i += 1
            r = replaced(node, part)
            if r:
                return f"line {node.lineno}: {r}"
        else:
            if i >= len(new.body):
                return f"the statement of line {node.lineno} is gone"
            if dump(node) != dump(new.body[i]):
                return f"line {node.lineno}: {dump(node)[:200]} became {dump(new.body[i])[:200]}"
            i += 1
    if i != len(new.body):
        return f"{len(new.body) - i} statements more than before"
    return None


def comments(source, skip=()):
    """Comments outside the given line ranges, in order."""
    out = []
    source = source.replace("\r\n", "\n").replace("\r", "\n")
    for t in tokenize.tokenize(io.BytesIO(source.encode()).readline):
        if t.type == tokenize.COMMENT and not any(a <= t.start[0] <= b for a, b in skip):
            out.append(t.string)
    return out


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def parse(source):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return call(ast.parse, source)


def judge(source, ctx, rewrite=None, mapping=None):
    """Returns the rewritten source or None."""
    from d42.migration import migrate_v1_to_v2 as m
    rewrite = rewrite or m.rewrite_imports
    mapping = m.mapping if mapping is None else mapping
    old = parse(source)
    if isinstance(old, Raised):
        raise Discard("not a module")
    for n in old.body:
        if isinstance(n, ast.ImportFrom):
            names = [a.asname or a.name for a in n.names]
            if len(set(names)) != len(names):
                raise Discard("a name bound twice in one import")
    touched = [n for n in old.body if concerned(n)]
    out = call(rewrite, source, mapping)
    ctx.check()
    info = dict(source=repr(source))
    if isinstance(out, Raised):
        raise Violation("rewrite_imports raised on a valid module", **info, got=repr(out))
    if out is None:
        if touched:
            raise Violation("rewrite_imports reports nothing to do", **info,
                            but=f"line {touched[0].lineno} imports a mapped name")
        return None
    if not isinstance(out, str):
        raise Violation("rewrite_imports returned something else than source", **info,
                        got=repr(out)[:300])
    new = parse(out)
    if isinstance(new, Raised):
        raise Violation("the rewritten module is not valid Python", **info, got=repr(new),
                        rewritten=repr(out))
    what = judge_ast(old, new)
    if what:
        raise Violation("the rewritten module differs in something else", **info, differs=what,
                        rewritten=repr(out))
    skip = [(n.lineno, n.end_lineno) for n in touched]
    a = call(comments, source, skip)
    b = call(comments, out)
    if not isinstance(a, Raised) and (isinstance(b, Raised) or not subsequence(a, b)):
        raise Violation("a comment outside the rewritten imports is gone", **info,
                        before=a, after=repr(b), rewritten=repr(out))
    again = call(rewrite, out, mapping)
    if isinstance(again, Raised) or (again is not None
                                     and dump(parse(again)) != dump(new)):
        raise Violation("rewriting the rewritten module changes it again", **info, rewritten=repr(out),
                        again=repr(again))
    return out


# ------------------------------------------------------------------------------------------
# modules

OTHER_MODULES = ["os", "typing", "collections.abc", "district42.json_schema", "district43", "d42",
                 "valera.utils", "jj", "vedro", "district42_exp_types", "blahblah.x", "revolted",
                 "d42.declaration", "schemas", "district"]
OTHER_NAMES = ["path", "Any", "Mapping", "schema", "optional", "fake", "validate", "Nil", "foo", "x1",
               "Schema", "eq", "__version__", "_private", "IntSchemaX", "Schem", "errors"]
LOCALS = ["s", "sch", "µ", "ª", "opt", "_", "x", "schema", "é", "имя", "日本", "ﬁ", "match", "type", "case", "_1", "a" * 40]
COMMENTS = ["# comment", "#", "# from district42 import schema", "# noqa: F401", "# é 😀",
            "#!x", "# ; x = 1", "# \\", "# type: ignore", "# '''", "#\tx \x0c y"]
SIMPLE = ["x = 1", "pass", "x: int = 2", "y: str", "assert True", "del_ = None", "'docstring'",
          "'é😀'; z = 1", "x = 'from district42 import schema'", "x = \"a;b#c\"", "import os",
          "import district42", "import district42.types as t, valera", "import valera.errors",
          "from district42 import *", "from . import schema", "from .district42 import schema",
          "from .. import validate", "from ..valera import validate as v", "from .types import IntSchema",
          "from ... import fake", "print(x)" , "x = [1,\n 2]", "x = (  # c\n 1\n)", "x = {\n}",
          "x = '''a\nfrom district42 import schema\nb'''", "x = \"\"\"é\n\n;\"\"\"",
          "f'{1}'", "f\"{'a'}é{x!r:>{10}}\"", "x = b'\\x00'", "x = lambda: (yield)", "x = 'a' \\\n 'b'",
          "x = 1 + \\\n  2", "global_ = {}", "x = [a for a in 'é']", "x = r'\\'", "x = 'a\\\nb'",
          "from os import path", "from typing import (Any,\n    List)", "raise_ = 0", "...",
          "x = 'a\x0cb'", "x = '\x85\u2028\x1c'", "(y := 5)", "x = 0xFF; y = 1_000", "-x", "x @= y",
          "type X = int", "await_ = 1", "x, *y = 1, 2", "x = '''\r\n'''", "x = '''a\rb'''"]
COMPOUND = ["if x:\n    from district42 import schema\nelse:\n    from valera import validate",
            "def f():\n    from district42 import schema, optional\n    return schema",
            "def f():\n    '''doc\n    from district42 import schema\n    '''\n",
            "class A:\n    from district42.types import IntSchema as I\n    x = 1",
            "try:\n    from district42 import schema\nexcept ImportError:\n    schema = None\nfinally:\n    pass",
            "if 1: from district42 import schema", "for i in ():\n\tpass", "while 0: pass",
            "@property\ndef g(self): ...", "async def h():\n    async with x as y:\n        await y",
            "with open('é') as f, x: from valera import eq; y = 1",
            "match x:\n    case {'a': 1}:\n        from blahblah import fake\n    case _: pass",
            "class B(A, metaclass=M):\n    '''é'''\n\n    def m(self): return '''\nx\n'''",
            "if x:\n    pass  # c\n# dedented comment\n\n    # indented comment\nelif y:\n  pass",
            "def k(a, /, b=1, *c, d: int = 2, **e) -> 'x': return (a,\n  b)",
            "if TYPE_CHECKING:\n    from district42.types import Schema", "class C: pass",
            "try: pass\nexcept* E: pass"]


def gen_name(src, module):
    """A name to import from a module: mapped, or not."""
    if module in TABLE and src.chance(70):
        return src.pick(sorted(TABLE[module]))
    if src.chance(20):
        other = src.pick(sorted(TABLE))
        return src.pick(sorted(TABLE[other]))
    return src.pick(OTHER_NAMES)


def spaces(src, least=1):
    f = src.draw(12)
    if f == 0:
        return " " * (least + 1)
    if f == 1:
        return "\t"
    if f == 2:
        return " \\\n" + src.pick(["", "  ", "\t"])
    if f == 3:
        return "\\\n "
    return " " * least


def gen_import(src):
    module = src.pick(sorted(TABLE)) if src.chance(80) else src.pick(OTHER_MODULES)
    n = src.weighted([(5, 1), (4, 2), (3, 3), (1, 6), (1, 12)])
    names, taken = [], set()
    for _ in range(n):
        name = gen_name(src, module)
        local = src.pick(LOCALS) if src.chance(30) else None
        if src.chance(4):
            local = name
        if (local or name) in taken:
            continue
        taken.add(local or name)
        names.append((name, local))
    dots = module
    if "." in module and src.chance(8):
        dots = module.replace(".", src.pick([" . ", ". ", " .", " .\\\n "]))
    level = src.pick([".", "..", "...", ". "]) if src.chance(6) else ""

    def one(pair, sp):
        name, local = pair
        return name if local is None else f"{name}{sp()}as{sp()}{local}"
    style = src.draw(6)
    if style < 3:
        sp = lambda: spaces(src)        # noqa: E731
        body = src.pick([", ", ",", " , "]).join(one(p, sp) for p in names)
        if src.chance(8):
            body = body.replace(", ", ", \\\n    ")
        return f"from{sp()}{level}{dots}{sp()}import{sp()}{body}"
    nl = "\n"

    def sp():
        return src.pick([" ", " ", "  ", "\n  ", " # c\n", "\\\n "]) if src.chance(15) else " "
    parts = [one(p, sp) for p in names]
    if style == 3:
        body = "(" + ", ".join(parts) + src.pick(["", ",", " ", " ,"]) + ")"
    elif style == 4:
        tail = src.pick(["", "  # one", "  # from valera import validate", "  # é)", " # ("])
        body = "(" + nl + nl.join("    " + p + "," + tail for p in parts) + nl + ")"
    else:
        body = "(  " + src.pick(COMMENTS) + nl + ("," + nl + nl + "\t").join(parts) + nl + " )"
    return f"from {level}{dots} import{src.pick(['', ' '])}{body}"


def gen_simple(src):
    f = src.draw(6)
    if f == 0:
        s = "x = " + repr(gen.gen_text(src))
        return s
    if f == 1:
        return f"x = {gen.gen_plain(src, 1, special=False)!r}".replace("datetime.", "") \
            if src.chance(30) else "x = '" + src.pick(["é", "\t", "😀", "a;b", "#"]) + "'"
    return src.pick(SIMPLE)


def echo(text, src):
    """A statement that quotes an import that is to be rewritten, or its counterpart."""
    tree = parse(text)
    if isinstance(tree, Raised):
        return "pass"
    node = tree.body[0]
    lines = [ast.unparse(node)]
    for a in node.names:
        if node.level == 0 and mapped(node.module, a.name):
            m, n = TABLE[node.module][a.name]
            lines.append(f"from {m} import {n}" + (f" as {a.asname}" if a.asname else ""))
        else:
            lines.append(f"import {a.name}")
    if node.level == 0:
        by = {}
        for a in node.names:
            m, n = TABLE.get(node.module, {}).get(a.name, (node.module, a.name))
            by.setdefault(m, []).append(n + (f" as {a.asname}" if a.asname else ""))
        lines += [f"from {m} import {', '.join(ns)}" for m, ns in by.items()]
    line = src.pick(lines)
    return src.pick([line, "# " + line + "\npass", "pass # " + line, f"'''\n{line}\n'''",
                     f"x = {line!r}", f"def f():\n    {line}\n", f"if x:\n    {line}\n",
                     f"try:\n    {line}\nexcept ImportError:\n    pass\n",
                     f"pass; {line}", f"{line}; {line}"])


def gen_module(src):
    """Source text; imports are about half of the statements."""
    out, imports = [], []
    echoes = src.chance(30)
    if src.chance(15):
        out.append(src.pick(["#!/usr/bin/env python\n", "# -*- coding: utf-8 -*-\n", "\n\n", "\x0c\n",
                             "#!/bin/sh\n# coding: utf-8\n", "  \n", "\\\n\n"]))
    if src.chance(15):
        out.append(src.pick(["'''doc'''\n", "'''doc\nfrom district42 import schema\n'''; ",
                             "\"doc\"  # c\n", "\"\"\"é\n\"\"\"\n"]))
    if src.chance(10):
        out.append("from __future__ import annotations" + src.pick(["\n", "; "]))
    n = src.weighted([(3, 1), (4, 2), (4, 4), (2, 8), (1, 16)])
    for i in range(n):
        f = src.draw(10)
        last = i == n - 1
        if f < 6 and echoes and imports and src.chance(40):
            s = echo(src.pick(imports), src)
            simple = not s.endswith("\n")
        elif f < 6:
            s, simple = gen_import(src), True
            imports.append(s)
            if echoes and src.chance(30):
                s = echo(s, src)
                simple = not s.endswith("\n")
        elif f < 8:
            s, simple = gen_simple(src), True
        elif f < 9:
            s, simple = pygen.statement(src, gen_import)
        else:
            s, simple = src.pick(COMPOUND), False
        if not simple and out and out[-1].rstrip(" \t\\\n\r\x0c").endswith(";"):
            out.append("pass\n")                # a compound statement begins its line
        out.append(s)
        if last and src.chance(40):
            out.append(src.pick(["", "", ";", "  ", "  # end", "\\\n", " ; # end"]) if simple else "")
            break
        if simple:
            out.append(src.weighted([(10, "\n"), (3, "; "), (2, ";"), (1, " ;"), (1, ";\n"), (1, " ; \\\n"),
                                     (2, "  " + src.pick(COMMENTS) + "\n"), (1, "\n\n\n"), (1, "  \n"),
                                     (1, "\n" + src.pick(COMMENTS) + "\n"), (1, "\n\x0c\n"), (1, "\n\x0c"),
                                     (1, "\n    " + src.pick(COMMENTS) + "\n"), (1, ";  # c\n"),
                                     (1, "\n \x0c"), (1, "\t\n\t\n")]))
        else:
            out.append("\n" * src.integer(1, 2))
    text = "".join(out)
    nl = src.weighted([(8, "\n"), (2, "\r\n"), (1, "\r"), (1, None)])
    if nl is None:
        text = "".join(src.pick(["\n", "\r\n", "\r"]) if c == "\n" else c for c in text)
    elif nl != "\n":
        text = text.replace("\r\n", "\n").replace("\n", nl)
    return text


def case(src, ctx):
    source = gen_module(src)
    out = judge(source, ctx)
    old = ast.parse(source)
    touched = [n for n in old.body if concerned(n)]
    labels(ctx, source, old, touched)
    if touched:
        ctx.nontrivial(source)
    if ctx.wants_sample:
        ctx.sample({"source": source[:600], "rewritten": None if out is None else out[:600]})


def labels(ctx, source, old, touched):
    if not touched:
        ctx.label("nothing to do")
    lines = Counter()
    for n in old.body:
        lines[n.lineno] += 1
        if n.end_lineno != n.lineno:
            lines[n.end_lineno] += 1
    for n in touched:
        if n.end_lineno != n.lineno:
            ctx.label("import:multi-line")
        if lines[n.lineno] > 1 or lines[n.end_lineno] > 1:
            ctx.label("import:shares its line")
        if any(a.asname for a in n.names):
            ctx.label("import:aliased")
        if any(not mapped(n.module, a.name) for a in n.names):
            ctx.label("import:mixed")
        if len({TABLE[n.module][a.name][0] for a in n.names if mapped(n.module, a.name)}) > 1:
            ctx.label("import:several targets")
    if not source.endswith("\n"):
        ctx.label("no trailing newline")
    if "\r" in source:
        ctx.label("carriage returns")
    if not source.isascii():
        ctx.label("non-ascii")


# ------------------------------------------------------------------------------------------
# every mapped name, every import form, every neighbour

def exhaustive(shard, nshards, ctx):
    n = 0
    forms = ["from {m} import {n}", "from {m} import {n} as y", "from {m} import ({n})",
             "from {m} import ({n},)", "from {m} import (\n    {n} as y,  # c\n)",
             "from {m} import nope, {n}", "from {m} import {n}, nope as z", "from {m} import \\\n {n}",
             "from {m} import {n} as {n}", "from {m} import {n}, {o}", "from {m} import {o} as q, {n}"]
    around = ["{}", "{}\n", "x = 1\n{}\ny = 2\n", "x = 1; {}; y = 2\n", "x = 'é'; {}", "{}; x = 'é'",
              "{}  # c\n", "'''d'''; {}\n", "def f():\n    pass\n{}\nclass A: pass",
              "x = '''\n'''; {}\n", "{0}; {0}\n", "{}\r\nx = 1\r\n", "# c\n\n{};\n", "\x0c{}\n",
              "if 1:\n    {0}\n{0}\n"]
    names = [(m, k) for m in sorted(TABLE) for k in sorted(TABLE[m])]
    for i, (m, k) in enumerate(names):
        if i % nshards != shard:
            continue
        others = sorted(TABLE[m])
        o = others[(others.index(k) + 1) % len(others)]
        for f in forms:
            stmt = f.format(m=m, n=k, o=o)
            for a in around:
                if "    {0}" in a and "\n" in stmt:
                    continue
                try:
                    judge(a.format(stmt), ctx)
                except Discard:
                    continue
                n += 1
                ctx.nontrivial((stmt, a))
        # relative, nested, star, plain imports of the same name: nothing to do
        for s in (f"from .{m} import {k}", f"from . import {k}", f"if 1:\n    from {m} import {k}",
                  f"import {m}", f"from {m}x import {k}", f"from {m} import *", f"from {m} import {k}_",
                  f"def f():\n    from {m} import {k}", f"x = 'from {m} import {k}'",
                  f"'''\nfrom {m} import {k}\n'''", f"# from {m} import {k}"):
            judge(s, ctx)
            n += 1
    return n


def exhaustive_targets(shard, nshards, ctx):
    """Every target can be imported, in an interpreter that has imported nothing else, too."""
    from d42.migration.migrate_v1_to_v2 import mapping
    n = 0
    want = {(m, k) for m in TABLE for k in TABLE[m]}
    have = {(m, k) for m in mapping for k in mapping[m]}
    if shard == 0 and want - have:
        raise Violation("names are no longer mapped", names=repr(sorted(want - have)))
    groups = {}
    for m in sorted(mapping):
        for k in sorted(mapping[m]):
            groups.setdefault(mapping[m][k][0], []).append((m, k, mapping[m][k][1]))
    for i, mod in enumerate(sorted(groups)):
        if i % nshards != shard:
            continue
        for m, k, name in groups[mod]:
            n += 1
            ctx.check()
            r = resolve(mod, name)
            if isinstance(r, Raised):
                raise Violation("a target of the mapping cannot be imported", v1=f"{m}.{k}",
                                v2=f"{mod}.{name}", got=repr(r))
            if mapped(m, k) and not counterpart(m, k, mod, name):
                raise Violation("a v1 name is mapped to something that is not its counterpart",
                                v1=f"{m}.{k}", v2=f"{mod}.{name}",
                                expected=".".join(TABLE[m][k]))
            ctx.nontrivial((m, k))
        code = f"from {mod} import " + ", ".join(sorted({x for _, _, x in groups[mod]}))
        env = dict(os.environ, PYTHONPATH=os.environ.get("VP_REPO", "/repo"),
                   PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True,
                           cwd="/", timeout=120)
        if p.returncode:
            raise Violation("the targets cannot be imported in a fresh interpreter", code=code,
                            got=p.stderr[-600:])
    return n


# ------------------------------------------------------------------------------------------
# files and directories, through the command line

ENCODINGS = [("utf-8", "", b""), ("utf-8", "", b""), ("utf-8", "# coding: utf-8\n", b""),
             ("utf-8-sig", "", b"\xef\xbb\xbf"), ("latin-1", "# -*- coding: latin-1 -*-\n", b""),
             ("cp1251", "#!/usr/bin/env python\n# vim: set fileencoding=cp1251 :\n", b""),
             ("iso8859-15", "# coding=iso8859-15\n", b"")]


def decode(data):
    """Source text as the compiler sees it."""
    enc, _ = tokenize.detect_encoding(io.BytesIO(data).readline)
    return data.decode(enc), enc


def case_files(src, ctx):
    from d42 import _main
    root = tempfile.mkdtemp(prefix="vp-c19-")
    try:
        base = os.path.join(root, "schemas")
        os.mkdir(base)
        dirs = [""]
        for d in ("sub", "sub/deep", "наши", ".hidden", "__pycache__", "a.py"):
            if src.chance(30):
                os.makedirs(os.path.join(base, d), exist_ok=True)
                dirs.append(d)
        files = {}
        for i in range(src.integer(1, 4)):
            enc, cookie, bom = src.pick(ENCODINGS)
            name = src.pick(["a.py", "b.py", "é.py", "__init__.py", "test_x.py", "c.pyi", "d.txt",
                             "e.py.bak", "noext", ".h.py"])
            rel = os.path.join(src.pick(dirs), f"{i}{name}" if name != "__init__.py" else name)
            if rel in files:
                continue
            f = src.draw(8)
            if f == 0:
                text = "from district42 import (\n"          # not Python
            elif f == 1:
                text = src.pick(["", "\n", "# c\n"])
            else:
                text = gen_module(src)
            try:
                data = bom + (cookie + text).encode("utf-8" if bom else enc)
            except UnicodeEncodeError:
                continue
            files[rel] = data
            with open(os.path.join(base, rel), "wb") as fh:
                fh.write(data)
        outside = os.path.join(root, "outside.py")
        with open(outside, "wb") as fh:
            fh.write(b"from district42 import schema\n")
        argv, sys.argv = sys.argv, ["d42", "v1-to-v2", base + src.pick(["", "/"])]
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                r = call(_main.run)
        finally:
            sys.argv = argv
        info = dict(files={k: repr(v)[:600] for k, v in files.items()})
        ctx.check()
        if isinstance(r, Raised):
            raise Violation("the migration of a directory raised", **info, got=repr(r))
        with open(outside, "rb") as fh:
            if fh.read() != b"from district42 import schema\n":
                raise Violation("a file outside the directory was rewritten", **info)
        seen = sorted(os.path.relpath(os.path.join(d, f), base)
                      for d, _, fs in os.walk(base) for f in fs)
        if seen != sorted(os.path.normpath(f) for f in files):
            raise Violation("the migration added or removed files", **info, after=seen)
        for rel, data in files.items():
            with open(os.path.join(base, rel), "rb") as fh:
                now = fh.read()
            judge_file(rel, data, now, info, ctx)
        for rel in files:
            ctx.label("file:" + os.path.splitext(rel)[1])
    finally:
        shutil.rmtree(root, ignore_errors=True)


def judge_file(rel, data, now, info, ctx):
    python = rel.endswith(".py") and not any(
        p == "__pycache__" or p.startswith(".") for p in rel.split("/")[:-1])
    valid = False
    if rel.endswith(".py") and not python and now == data:
        return                  # whether these directories are visited is not the property's concern
    if rel.endswith(".py"):
        tree = parse(data)
        valid = not isinstance(tree, Raised)
    if not valid:
        if now != data:
            raise Violation("a file that is not a Python module was changed", **info, file=rel,
                            after=repr(now)[:600])
        return
    text, enc = decode(data)
    touched = [n for n in tree.body if concerned(n)]
    if any(len({a.asname or a.name for a in n.names}) != len(n.names) for n in touched):
        return
    if not touched:
        if now != data and (isinstance(parse(now), Raised) or dump(parse(now)) != dump(tree)):
            raise Violation("a module with nothing to migrate was changed", **info, file=rel,
                            after=repr(now)[:600])
        return
    ctx.nontrivial((rel, data))
    new = parse(now)
    if isinstance(new, Raised):
        raise Violation("a migrated file is not valid Python", **info, file=rel, got=repr(new),
                        after=repr(now)[:600])
    what = judge_ast(tree, new)
    if what:
        if now == data and unencodable(tree, enc):
            ctx.label("left alone: normalised name not in the encoding")
            return
        raise Violation("a migrated file differs in something else", **info, file=rel, differs=what,
                        after=repr(now)[:600])
    back = call(decode, now)
    if isinstance(back, Raised) or back[1] != enc:
        raise Violation("a migrated file changed its encoding", **info, file=rel,
                        after=repr(now)[:600])
    ctx.label("file:" + enc)


def unencodable(tree, enc):
    for n in tree.body:
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                try:
                    (a.asname or a.name).encode(enc)
                except UnicodeEncodeError:
                    return True
    return False


def targets():
    return [Target("targets", exhaustive_targets, 0, 0, shards=6, exhaustive=True),
            Target("forms", exhaustive, 0, 0, shards=16, exhaustive=True),
            Target("modules", case, 60000, 3000000),
            Target("files", case_files, 4000, 150000)]
