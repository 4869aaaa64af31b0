"""Structured control flow.  Every control-flow construct, at every program position and
nested in every other one (systematic enumeration of construct trees), is compiled by the
abstract interpreter; the emitted code's control-flow graph is compared by simulation with
the graph of the documented meaning, for all values of all conditions."""
from .common import *

FLOOR = 250
LOOPS = {"while", "while-not", "for", "for-expr-start", "for_"}
H = lambda n: ("h", n)


def shapes():
    """one representative of each control-flow construct family with body slot B -> statements"""
    yield "if", lambda B: [("if", [(False, H("c"), B)], None)]
    yield "if-not", lambda B: [("if", [(True, H("c"), B)], None)]
    yield "if-else", lambda B: [("if", [(False, H("c"), [("assert", H("t"))])], B)]
    yield "if-not-else", lambda B: [("if", [(True, H("c"), B)], [("assert", H("el"))])]
    for n in (1, 2, 3):
        for negs in ((False,) * n, (True,) * n):
            for els in (False, True):
                yield "if-%delif%s%s" % (n, "-not" if negs[0] else "", "-else" if els else ""), (
                    lambda B, n=n, negs=negs, els=els: [("if", [(False, H("c0"), [("assert", H("t0"))])] + [(negs[i], H("c%d" % (i + 1)), B if i == n - 1 else [("assert", H("t%d" % (i + 1)))]) for i in range(n)],
                                                         [("assert", H("el"))] if els else None)])
    yield "elif-first-body", lambda B: [("if", [(False, H("c0"), B), (False, H("c1"), [("assert", H("t1"))])], None)]
    yield "while", lambda B: [("while", False, H("c"), B)]
    yield "while-not", lambda B: [("while", True, H("c"), B)]
    yield "for", lambda B: [("decl", "int", "n", H("n0")), ("for", "k", ("i", 1), ("v", "n"), [("assert", ("+", H("body"), ("v", "k")))] + B)]
    yield "for-expr-start", lambda B: [("decl", "int", "n", H("n0")), ("for", "k", ("v", "n"), ("i", 9), B + [("assert", ("+", H("body"), ("v", "k")))])]
    yield "for_", lambda B: [("for_", ("i", 0), ("i", 5), B)]


def leaf_bodies():
    yield "assert", [("assert", H("x"))]
    yield "empty", []
    yield "two", [("assert", H("x")), ("assert", H("y"))]
    yield "exit", [("exit", H("x"))]


def breaks():
    yield "while-break", [("while", False, H("c"), [("assert", H("p")), ("break",)])]
    yield "while-if-break", [("while", False, H("c"), [("assert", H("p")), ("if", [(False, H("d"), [("break",)])], None), ("assert", H("q"))])]
    yield "while-else-break", [("while", True, H("c"), [("if", [(False, H("d"), [("assert", H("p"))]), (False, H("d2"), [("break",)])], [("break",)]), ("assert", H("q"))])]
    yield "while-while-break", [("while", False, H("c"), [("while", False, H("d"), [("if", [(False, H("e"), [("break",)])], None)]), ("if", [(False, H("e2"), [("break",)])], None), ("assert", H("q"))])]
    yield "while-after-inner-while-break", [("while", False, H("c"), [("while", False, H("d"), [("assert", H("p"))]), ("break",)])]
    yield "while-for-break", [("while", False, H("c"), [("for", "k", ("i", 0), ("i", 3), [("if", [(False, H("d"), [("break",)])], None)]), ("assert", H("q"))])]


def exits():
    b = lambda n: ("block", n, [("assert", H("in_" + n)), ("exit", ("i", 1))])
    yield "jump-two-blocks", [("assert", H("x")), ("jump", "two"), b("one"), b("two")]
    yield "jump-first", [("jump", "one"), b("one"), b("two")]
    yield "jump-chain", [("jump", "one"), ("block", "one", [("jump", "two")]), b("two")]
    yield "jump-back", [("jump", "one"), ("block", "one", [("if", [(False, H("c"), [("jump", "two")])], None), ("exit", ("i", 0))]), ("block", "two", [("assert", H("z")), ("jump", "one")])]
    yield "jump-nested", [("jump", "one"), ("block", "one", [("jump", "inner"), ("block", "inner", [("jump", "two")])]), b("two")]
    for n in (1, 2, 3):
        for els in (None, "last"):
            yield "switch-%d%s" % (n, "-else" if els else ""), (
                [("assert", H("x")), ("switch", H("sw"), [(H("o%d" % i), "b%d" % i) for i in range(n)], els)] + [b("b%d" % i) for i in range(n)] + [b("last")])
    yield "switch-ints", [("switch", H("sw"), [(("i", 4), "b4"), (("i", 0), "b0"), (("i", 9), "b4")], None), b("b0"), b("b4")]
    yield "switch-in-block", [("jump", "one"), ("block", "one", [("switch", H("sw"), [(H("o1"), "two"), (H("o2"), "in")], "two"), ("block", "in", [("exit", H("i"))])]), b("two")]
    yield "switch-only-else", [("switch", H("sw"), [], "one"), b("one")]
    yield "exit", [("exit", H("x")), b("one")]
    yield "exit-0", [("exit", ("i", 0))]
    yield "exit-in-if", [("if", [(False, H("c"), [("exit", H("x"))])], [("exit", H("y"))]), ("exit", ("i", 1))]
    yield "jump-in-if", [("if", [(False, H("c"), [("jump", "one")]), (True, H("c2"), [("jump", "two")])], None), ("assert", H("z")), ("exit", ("i", 1)), b("one"), b("two")]
    yield "jump-in-while", [("while", False, H("c"), [("jump", "one")]), ("exit", ("i", 0)), b("one")]
    yield "jump-in-for", [("for", "k", ("i", 0), ("i", 4), [("if", [(False, H("c"), [("jump", "one")])], None)]), ("exit", ("i", 0)), b("one")]
    yield "switch-in-if", [("if", [(False, H("c"), [("switch", H("sw"), [(H("o"), "one")], None)])], None), ("exit", ("i", 0)), b("one")]
    yield "assert-msg", [("line", ['assert({x}, "msg")'], ["%E {x}", "assert"]), ("exit", ("i", 1))]


def go(ctx, rule, name, body):
    def f():
        src, rf = L.program(body)
        return equiv(ctx, src, rf, marks=False)
    ctx.ob(rule, name, f)


def sizes(ctx, tail):
    """chains and depths far beyond those of the shapes: counters, names and conditions that depend on the number"""
    b = lambda n: ("block", n, [("assert", H("in_" + n)), ("exit", ("i", 1))])
    for n in (4, 5, 7, 8, 9, 10, 11, 16, 17, 26, 33) + ((64, 101) if ctx.thorough else ()):
        for els in (False, True):
            for neg in (lambda i: False, lambda i: i % 3 == 1):
                body = [("if", [(neg(i), H("c%d" % i), [("assert", H("t%d" % i))]) for i in range(n)], [("assert", H("el"))] if els else None)]
                go(ctx, "size", "if-%delif%s%s" % (n - 1, "-not" if neg(1) else "", "-else" if els else ""), body + tail)
            go(ctx, "size", "switch-%d%s" % (n, "-else" if els else ""), [("switch", H("sw"), [(H("o%d" % i), "b%d" % (i * 7 % n if n % 7 else i)) for i in range(n)], "last" if els else None)] + [b("b%d" % i) for i in range(n)] + [b("last")])
        go(ctx, "size", "while-%d-breaks" % n, [("while", False, H("c"), sum([[("assert", H("p%d" % i)), ("if", [(False, H("d%d" % i), [("break",)])], None)] for i in range(n)], []))] + tail)
        go(ctx, "size", "jump-chain-%d" % n, [("jump", "b0")] + [("block", "b%d" % i, [("assert", H("x%d" % i)), ("jump", "b%d" % (i + 1)) if i < n - 1 else ("exit", ("i", 1))]) for i in range(n)])
    nest = {"if": lambda i, B: [("if", [(False, H("c%d" % i), B)], None)], "if-not": lambda i, B: [("if", [(True, H("c%d" % i), B)], None)], "else": lambda i, B: [("if", [(False, H("c%d" % i), [("assert", H("t%d" % i))])], B)],
            "elif": lambda i, B: [("if", [(False, H("c%d" % i), [("assert", H("t%d" % i))]), (False, H("d%d" % i), B)], None)],
            "while": lambda i, B: [("while", i % 2 == 1, H("c%d" % i), B)], "for": lambda i, B: [("for", "k%d" % i, ("i", 0), ("i", 3), B)]}
    for n in (3, 4, 5, 6, 8, 12):
        for k, f in list(nest.items()) + [("mixed", None), ("loops", None)]:
            if n == 12 and k in ("for", "loops"):
                continue
            B = [("assert", H("deep"))]
            for i in range(n):
                g = f or list(nest.values())[i % len(nest) if k == "mixed" else 4 + i % 2]
                B = [("assert", H("p%d" % i))] + g(i, B) + [("assert", H("q%d" % i))]
            go(ctx, "size", "%s-deep-%d" % (k, n), B + tail)
        B = [("break",)]
        for i in range(n):
            B = [("if", [(i % 2 == 1, H("c%d" % i), B)], None), ("assert", H("q%d" % i))] + ([("break",)] if i % 3 == 2 else [])
            B = [("while", False, H("w%d" % i), B)] if i % 3 == 2 else B
        go(ctx, "size", "break-deep-%d" % n, [("while", False, H("w"), B)] + tail)
    many = []
    for i in range(140 if not ctx.thorough else 300):
        many += list(nest.values())[i % len(nest)](i, [("assert", H("x%d" % i))])
    go(ctx, "size", "many", many + tail)


def run(ctx):
    ctx.rule("size", "… in chains of many branches, options and breaks, nested deeply, and in programs with very many of them")
    ctx.rule("flow", "the emitted control-flow graph simulates the documented meaning of the construct")
    ctx.rule("nest", "… of every construct nested in every other")
    ctx.rule("place", "… at every program position")
    ctx.rule("exits", "jump/switch/exit transfer control to exactly the named destination")
    tail = [("assert", H("after")), ("exit", ("i", 1))]
    sh = list(shapes())
    for n, f in sh:
        for bn, b in leaf_bodies():
            go(ctx, "flow", n + "/" + bn, f(list(b)) + tail)
    for n, b in breaks():
        go(ctx, "flow", n, b + tail)
    for n, b in exits():
        go(ctx, "exits", n, b)

    sizes(ctx, tail)

    def ren(x, suf):
        # hole and loop variable names of the inner construct made distinct
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "h":
                return ("h", x[1] + suf)
            if len(x) == 2 and x[0] == "v":
                return ("v", x[1] + suf)
            if x and x[0] == "for":
                return ("for", x[1] + suf) + tuple(ren(y, suf) for y in x[2:])
            if x and x[0] == "decl":
                return ("decl", x[1], x[2] + suf, ren(x[3], suf))
            return tuple(ren(y, suf) for y in x)
        if isinstance(x, list):
            return [ren(y, suf) for y in x]
        return x
    for n1, f1 in sh:
        for n2, f2 in sh:
            if not ctx.thorough and ("3elif" in n1 + n2 or "2elif" in n1 + n2):
                continue
            if n2 == "for_" and n1 in LOOPS:
                continue        # unbounded stack growth: known finding of C02
            inner = ren(f2([("assert", H("deep"))]), "_i")
            go(ctx, "nest", n1 + ">" + n2, f1(inner + [("assert", H("fin"))]) + tail)
    for n1, f1 in sh:
        if not ctx.thorough and "3elif" in n1:
            continue
        for cn, body in L.contexts(f1([("assert", H("x"))])).items():
            if n1 == "for_" and cn in ("while", "for", "deep"):
                continue        # unbounded stack growth: known finding of C02
            go(ctx, "place", n1 + "@" + cn, body)
    for n1, b in breaks():
        for cn, body in L.contexts(b, ["func", "block", "if", "else", "while", "for"]).items():
            go(ctx, "place", n1 + "@" + cn, body)
    if ctx.thorough:
        for n1, f1 in sh:
            for n2, f2 in sh:
                for n3, f3 in sh:
                    if "elif" in n1 + n2 + n3 and not all(s in ("if-1elif-else", "if", "while", "for", "for_", "if-else") for s in (n1, n2, n3)):
                        continue
                    if "for_" in (n2, n3) and ({n1, n2} & LOOPS):
                        continue
                    i3 = ren(f3([("assert", H("deep"))]), "_j")
                    i2 = ren(f2(i3 + [("assert", H("mid"))]), "_i")
                    go(ctx, "nest", n1 + ">" + n2 + ">" + n3, f1(i2 + [("assert", H("fin"))]) + tail)
    ctx.assumptions += ["TEAL opcode semantics as in sa/teal.py", "a hole stands for any expression of the hole's type"]
