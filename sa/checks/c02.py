"""Stack discipline.  Every statement kind at every program position leaves the AVM stack
exactly as it found it, never underflows it, and a function returns exactly its declared
values on top of the caller's stack (stack-effect dataflow over the emitted code)."""
from .common import *
from ..families import statements, H
from .. import lang as L

FLOOR = 150


def place(st, cname, probe=True):
    """source lines, reference lines of statement st in context cname, with markers around"""
    body = [("mark", "0")] + st.body + [("mark", "1")]
    ctx = L.contexts(body, [cname])[cname]
    g = L.Gen()
    src = st.pre + L.body_src(ctx)
    rf = L.body_ref(g, ctx)
    src += L.body_src(st.funcs)
    rf += L.body_ref(g, st.funcs)
    return src, rf


def positions(name, st):
    for c in L.contexts([]):
        if c == "inner_group" and name.startswith("while-break") and False:
            continue
        if st.funcs and c in ():
            continue
        yield c


def run(ctx):
    ctx.rule("neutral", "between any two statements the stack is exactly what it was before the first")
    ctx.rule("discard", "an assignment of several values consumes every one of them, kept or discarded")
    ctx.rule("for_", "a counted loop without a variable leaves nothing behind")
    ctx.rule("returns", "a call leaves exactly the declared return values above the caller's operands")
    for n, st in statements().items():
        for c in positions(n, st):
            def f(st=st, c=c):
                src, rf = place(st, c)
                return equiv(ctx, src, rf, st.types, marks=True)
            ctx.ob("neutral", n + "@" + c, f)
    # every pattern of kept and discarded values
    for n in range(1, 6):
        for mask in range(2 ** n):
            for c in ("main", "func", "block", "while", "if"):
                def f(n=n, mask=mask, c=c):
                    keep = [i for i in range(n) if mask >> i & 1]
                    fn = ("func", "mv", [], ["int"] * n, [("return", [H("r%d" % i) for i in range(n)])])
                    body = [("decl", "int", "v%d" % i, None) for i in keep] + [("mark", "0"), ("set", ["v%d" % i if i in keep else "_" for i in range(n)], ("call", "mv", [])), ("mark", "1")] + [("assert", ("v", "v%d" % i)) for i in keep]
                    g = L.Gen()
                    cx = L.contexts(body, [c])[c]
                    return equiv(ctx, L.body_src(cx) + L.body_src([fn]), L.body_ref(g, cx) + L.body_ref(g, [fn]), marks=True)
                if n < 5 or c == "main":
                    ctx.ob("discard", "%d-values-keep-%s@%s" % (n, bin(mask)[2:], c), f)
    # operands waiting below a call
    for nr in (0, 1, 2, 3):
        for na in (0, 1, 2, 3):
            def f(nr=nr, na=na):
                fn = ("func", "fn", [("p%d" % i, "int") for i in range(na)], ["int"] * nr,
                      [("mark", "B")] + [("assert", ("v", "p%d" % i)) for i in range(na)] + [("while", False, H("w"), [("if", [(False, H("iw"), [("return", [H("q%d" % i) for i in range(nr)])])], None), ("mark", "W")])] + [("return", [H("r%d" % i) for i in range(nr)])])
                args = [H("a%d" % i) for i in range(na)]
                if nr == 0:
                    b = [("call", "fn", args), ("mark", "1")]
                elif nr == 1:
                    b = [("assert", ("+", H("below"), ("call", "fn", args))), ("mark", "1")]
                else:
                    b = [("decl", "int", "v%d" % i, None) for i in range(nr)] + [("set", ["v%d" % i for i in range(nr)], ("call", "fn", args))] + [("assert", ("v", "v%d" % i)) for i in range(nr)] + [("mark", "1")]
                src, rf = L.program(b + [("exit", ("i", 1)), fn])
                return equiv(ctx, src, rf, {"a%d" % i: "int" for i in range(3)}, marks=True)
            ctx.ob("returns", "%d-args-%d-returns" % (na, nr), f)
    for c in L.contexts([]):
        def f(c=c):
            body = [("mark", "0"), ("for_", ("i", 0), ("i", 3), [("assert", H("x"))]), ("mark", "1")]
            src, rf = L.program(L.contexts(body, [c])[c], ideal_for_=True)
            return equiv(ctx, src, rf, marks=True)
        ctx.ob("for_", "after-loop@" + c, f)
        def f(c=c):
            # as built, apart from the counter left behind, the loop is balanced
            body = [("for_", ("i", 0), ("i", 3), [("mark", "0"), ("assert", H("x")), ("mark", "1")])]
            src, rf = L.program(L.contexts(body, [c])[c])
            return equiv(ctx, src, rf, marks=True)
        if c not in ("while", "for", "deep"):
            ctx.ob("for_", "body@" + c, f)
