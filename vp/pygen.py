"""Python source: a grammar of statements, and the statements of the standard library."""
import ast
import functools
import os
import sysconfig

NAMES = ["x", "y", "f", "A", "é", "_", "schema", "district42", "T"]


def name(src):
    return src.pick(NAMES)


def expr(src, depth=2):
    """An expression that needs no parentheses where it is put by this module."""
    if depth <= 0 or src.chance(25):
        return src.pick(["x", "y", "1", "-2", "0.5", "1j", "'é'", "b'\\x00'", "None", "...", "True", "''",
                         "\"from district42 import schema\"", "'''a\nb'''", "r'\\d'", "f'{x}'", "()", "[]",
                         "{}", "'a' 'b'", "f'''{x!r:>{y}}\n{{'''", "u'x'", "rb'\\'", "1_0", "0x_f", "x.y"])
    e = lambda: expr(src, depth - 1)        # noqa: E731
    f = src.draw(22)
    if f == 0:
        return f"({e()} {src.pick(['+', '-', '*', '/', '//', '%', '**', '@', '<<', '>>', '|', '&', '^'])} {e()})"
    if f == 1:
        return f"({e()} {src.pick(['and', 'or'])} {e()})"
    if f == 2:
        op = src.pick(["<", "<=", "==", "!=", ">", ">=", "in", "not in", "is", "is not"])
        return f"(x {op} {e()} {op} y)"
    if f == 3:
        return f"({src.pick(['not ', '-', '+', '~'])}{e()})"
    if f == 4:
        return f"({e()} if {e()} else {e()})"
    if f == 5:
        return "[" + ", ".join(e() for _ in range(src.draw(4))) + src.pick(["]", "\n]", ",]" if False else " ]"])
    if f == 6:
        return "{" + ", ".join(f"{e()}: {e()}" for _ in range(src.draw(3))) + "}"
    if f == 7:
        return "{" + ", ".join(e() for _ in range(src.integer(1, 3))) + "}"
    if f == 8:
        return f"[{e()} for {name(src)} in {e()} if {e()}]"
    if f == 9:
        return "{" + f"{e()}: {e()} for {name(src)}, _ in {e()}" + "}"
    if f == 10:
        return "{" + f"{e()} for {name(src)} in {e()}" + "}"
    if f == 11:
        return f"({e()} for {name(src)} in {e()})"
    if f == 12:
        return f"(lambda {src.pick(['', 'a', 'a, /, b=1', '*a, **k', '*, k=2'])}: {e()})"
    if f == 13:
        return f"f({e()}, *{e()}, k={e()}, **{e()})"
    if f == 14:
        return f"x[{src.pick(['1', ':', '1:2', '::3', '1, 2:3', '...', '*y'])}]"
    if f == 15:
        return f"(z := {e()})"
    if f == 16:
        return f"({e()}, *{e()})"
    if f == 17:
        return f"({e()}).attr"
    if f == 18:
        return f"(  # c\n {e()}\n)"
    if f == 19:
        return f"({e()} \\\n  + {e()})"
    if f == 20:
        return "{**" + e() + "}"
    return f"f(\n    {e()},\n)"


def simple(src, depth=2):
    """A simple statement that is valid at the top level of a module."""
    e = lambda: expr(src, depth)            # noqa: E731
    f = src.draw(13)
    if f == 0:
        return f"{src.pick(['x', 'x.y', 'x[0]', 'x, *y', '[x, y]', 'x = y', '(x)'])} = {e()}"
    if f == 1:
        return f"x {src.pick(['+', '-', '*', '/', '//', '%', '**', '@', '<<', '>>', '|', '&', '^'])}= {e()}"
    if f == 2:
        return f"{src.pick(['x', 'x.y', '(x)', 'x[0]'])}: {e()}" + (f" = {e()}" if src.chance(50) else "")
    if f == 3:
        return "del " + src.pick(["x", "x, y", "(x)", "x[0]", "x.y", "schema"])
    if f == 4:
        return "raise" + src.pick(["", f" {e()}", f" {e()} from {e()}"])
    if f == 5:
        return "assert " + e() + (f", {e()}" if src.chance(50) else "")
    if f == 6:
        return src.pick(["global x", "global schema, y", "pass"])
    if f == 7:
        return f"type {src.pick(['X', 'X[T]', 'X[T: int, *Ts, **P]'])} = {e()}"
    if f == 8:
        return "import " + src.pick(["os", "os.path", "os as o, sys", "district42.types", "valera as v"])
    return e()


def body(src, depth, imports, indent, func=False, loop=False):
    """The lines of a block, each of them indented."""
    out = []
    for _ in range(src.weighted([(5, 1), (3, 2), (1, 3)])):
        f = src.draw(8)
        if f < 3:
            s = imports(src)
            s = s if "\n" not in s else "pass"
        elif f == 3 and depth > 0:
            out += [indent + line if line else line for line in
                    compound(src, depth - 1, imports, func, loop).split("\n")] \
                if src.chance(100) else []
            continue
        elif f == 4 and func:
            s = src.pick(["return", "return x", "yield", "yield x", "x = yield", "nonlocal_ = 1", "return (yield)"])
        elif f == 5 and loop:
            s = src.pick(["break", "continue"])
        else:
            s = simple(src, 1)
        if "\n" in s:
            s = "pass"              # the lines of a string or of a continuation must not be indented
        out.append(indent + s + src.pick(["", "", "", ";", "  # c", "; pass"]))
    return out


def compound(src, depth, imports, func=False, loop=False):
    """A compound statement, without a line break at its end."""
    ind = src.pick(["    ", "    ", "\t", " "])

    def block(head, fn=func, lp=loop):
        if src.chance(12):
            return [f"{head}: {src.pick(['pass', 'x = 1; y = 2', 'import os', '...', 'x', 'raise'])}"]
        return [f"{head}:"] + body(src, depth, imports, ind, fn, lp)
    e = lambda: one_line(expr(src, 1))      # noqa: E731
    f = src.draw(12)
    out = []
    if f < 4:
        for _ in range(src.weighted([(4, 0), (3, 1), (1, 2)])):
            out.append("@" + src.pick(["x", "x.y", "f(1)", "f(a)(b)", "x[0]", "(y := x)", "schema"]))
        if f == 0:
            params = src.pick(["", "[T]", "[T: (int, str)]"])
            bases = src.pick(["", "()", "(A)", "(A, metaclass=M)", "(*x, **y)", "(A, B, k=1)"])
            out += block(f"class {name(src)}{params}{bases}", False, False)
        else:
            way = "async " if f == 1 else ""
            params = src.pick(["", "", "[T]", "[**P]", "[*Ts]"])
            args = src.pick(["", "a", "a, b=1", "*a, **k", "a, /, b, *, c", "a: int = 1", "*, c: 'x' = 2", "*a: *x"])
            ret = src.pick(["", " -> x", " -> 'schema'"])
            out += block(f"{way}def {name(src)}{params}({args}){ret}", True, False)
    elif f == 4:
        out += block(f"if {e()}")
        for _ in range(src.draw(3)):
            out += block(f"elif {e()}")
        if src.chance(50):
            out += block("else")
    elif f == 5:
        out += block(f"for {src.pick(['x', 'x, y', '*x, y', 'x.y', 'x[0]'])} in {e()}", func, True)
        if src.chance(50):
            out += block("else")
    elif f == 6:
        out += block(f"while {e()}", func, True)
        if src.chance(50):
            out += block("else")
    elif f == 7:
        out += block("try")
        star = src.pick(["", "", "*"])
        n = src.draw(3)
        for i in range(n):
            out += block(f"except{star} {src.pick(['E', 'E as x', '(E, F)'])}" if star or i < n - 1 or src.chance(70)
                         else "except", func and not star, loop and not star)
        if n and src.chance(40):
            out += block("else")
        if not n or src.chance(40):
            out += block("finally")
    elif f == 8:
        out += block("with " + src.pick(["x", "x as y", "x, y", "x as y, f() as z", "(x as y, z)", "(x)", "x as (a, b)"]))
    elif f == 9:
        out.append(f"match {e()}:")
        for p in src.shuffled(["1", "None", "'a' | 'b'", "[x, *_]", "{'a': 1, **r}", "A(1, k=x)", "x as y", "-1j",
                               "x.y", "(1, 2)", "[]", "{}", "str() as s"])[:src.integer(1, 3)]:
            inner = block(f"case {p}" + src.pick(["", " if x"]))
            out += [ind + line for line in inner]
    elif f == 10:
        out.append("async def f():")
        kind = src.pick(["async for x in y", "async with x as y", "async with x, y"])
        out += [ind + line for line in block(kind, True, kind.startswith("async for"))]
        out.append(ind + src.pick(["await x", "return await x", "x = [await y async for y in z]", "yield x"]))
    else:
        out += block("if x", func, loop)
    return "\n".join(out)


def one_line(s):
    return s if "\n" not in s else "x"


def statement(src, imports):
    """(text, simple)"""
    if src.chance(45):
        s = simple(src)
        return s, True
    if src.chance(30) and library():
        return src.pick(library()).rstrip("\n"), False
    return compound(src, src.draw(3), imports), False


@functools.lru_cache(1)
def library():
    """Top-level statements of the standard library, with the comments above them."""
    root = sysconfig.get_paths().get("stdlib") or ""
    names = ["ast", "bisect", "calendar", "cmd", "codecs", "contextlib", "csv", "dataclasses", "enum", "functools",
             "heapq", "html/entities", "inspect", "io", "keyword", "locale", "mailbox", "numbers", "opcode",
             "operator", "os", "platform", "queue", "random", "re/_parser", "sched", "shlex", "signal", "site",
             "smtplib", "socket", "ssl", "stat", "string", "tabnanny", "token", "tokenize", "typing", "types",
             "unittest/mock", "asyncio/__init__", "asyncio/tasks", "email/header", "zipapp", "pydoc_data/topics"]
    out = []
    for n in names:
        try:
            with open(os.path.join(root, n + ".py"), encoding="utf-8", newline="") as fh:
                text = fh.read()
            tree = ast.parse(text)
        except (OSError, SyntaxError, ValueError):
            continue
        lines = text.splitlines(keepends=True)
        if "\x0c" in text or len(text.split("\n")) - (text.endswith("\n")) != len(lines):
            continue
        end = 0
        for node in tree.body:
            if node.lineno - 1 < end and getattr(node, "decorator_list", None) is None:
                continue
            part = "".join(lines[end:node.end_lineno])
            end = node.end_lineno
            if len(part) < 4000 and "__future__" not in part:
                out.append(part)
    return out
