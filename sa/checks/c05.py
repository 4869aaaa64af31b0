"""Scratch slots.  A variable holds the value of the last assignment to it, whatever statements,
loops, calls and groups run in between: programs with variables in every kind of scope are
compared with reference code in which every variable has a location of its own."""
from .common import *
from ..families import H, line, itemdecl, boxdecl, field_set, field_get, STRUCT, ITEM_T

FLOOR = 80
EX = ("exit", ("i", 1))


def decls(p, n):
    return [("decl", "int", "%s%d" % (p, i), H("%s%d" % (p, i))) for i in range(n)]


def late(p, n):
    """declared without a value, assigned afterwards in reverse order"""
    return [("decl", "int", "%s%d" % (p, i), None) for i in range(n)] + [("set", ["%s%d" % (p, i)], H("%s%d" % (p, i))) for i in reversed(range(n))]


def reads(p, n):
    return [("assert", ("v", "%s%d" % (p, i))) for i in range(n)]


def func(name, args, nlocals, body=(), rets=False, before=()):
    ps = [("%s_a%d" % (name, i), "int") for i in range(args)]
    pre = name + "_l"
    b = list(before) + decls(pre, nlocals) + list(body) + reads(pre, nlocals) + [("assert", ("v", a)) for a, t in ps]
    return ("func", name, ps, ["int"] if rets else [], b + [("return", [("v", ps[0][0])] if rets and ps else [H("ret")] if rets else [])])


def call(name, args, tag=""):
    return ("call", name, [H("%s%s_x%d" % (name, tag, i)) for i in range(args)])


def events():
    """what may happen between the assignment and the use of a variable: name -> (statements, functions)"""
    yield "later-decl", decls("w", 2) + reads("w", 2), []
    yield "while-locals", [("while", False, H("wc"), decls("w", 2) + reads("w", 2))], []
    yield "for", [("for", "k", ("i", 0), ("i", 3), decls("w", 2) + reads("w", 2) + [("assert", ("v", "k"))])], []
    yield "for-for", [("for", "k", ("i", 0), ("i", 3), [("for", "j", ("i", 0), ("i", 2), decls("w", 1) + [("assert", ("+", ("v", "j"), ("v", "k")))] + reads("w", 1)), ("assert", ("v", "k"))])], []
    yield "for-then-decl", [("for", "k", ("i", 0), ("i", 3), [("assert", ("v", "k"))])] + decls("w", 2) + reads("w", 2), []
    yield "decl-for-decl", decls("w", 1) + [("for", "k", ("i", 0), ("i", 3), [("assert", ("v", "k"))] + decls("u", 1) + [("while", False, H("c"), decls("t", 1) + reads("t", 1))] + reads("u", 1))] + decls("y", 1) + reads("w", 1) + reads("y", 1), []
    yield "while-while", [("while", False, H("wc"), decls("w", 1) + [("while", True, H("wd"), decls("u", 2) + reads("u", 2) + reads("w", 1))] + decls("y", 1) + reads("w", 1) + reads("y", 1))], []
    yield "if-locals", [("if", [(False, H("c"), decls("w", 1) + reads("w", 1)), (False, H("d"), decls("u", 2) + reads("u", 2))], decls("t", 1) + reads("t", 1))] + decls("y", 1) + reads("y", 1), []
    yield "if-decl-outlives", [("if", [(False, H("c"), late("w", 1))], None), ("set", ["w0"], H("w_set"))] + decls("y", 1) + reads("w", 1) + reads("y", 1), []
    for a in (0, 1, 3):
        for l in (0, 1, 2):
            if a + l:
                yield "call-%d-args-%d-locals" % (a, l), [call("cf", a)], [func("cf", a, l)]
    yield "call-value", [("decl", "int", "w", call("cf", 2)), ("assert", ("v", "w"))], [func("cf", 2, 1, rets=True)]
    yield "call-call", [call("cf", 1)], [func("cf", 1, 2, [call("cg", 2)]), func("cg", 2, 2)]
    yield "call-call-reversed", [call("cf", 1)], [func("cg", 2, 2), func("cf", 1, 2, [call("cg", 2)])]
    yield "call-nested-args", [("call", "cf", [call("cg", 1), call("cg", 1, "b")])], [func("cf", 2, 1), func("cg", 1, 1, rets=True)]
    yield "call-with-loops", [call("cf", 1)], [func("cf", 1, 1, [("for", "q", ("i", 0), ("i", 2), decls("w", 1) + reads("w", 1) + [("assert", ("v", "q")), call("cg", 1)])] + [("while", False, H("wc"), decls("u", 1) + reads("u", 1))]), func("cg", 1, 1)]
    yield "call-after-loop-in-func", [call("cf", 1)], [func("cf", 1, 0, [("for", "q", ("i", 0), ("i", 2), [("assert", ("v", "q"))])] + decls("w", 1) + [call("cg", 1)] + reads("w", 1)), func("cg", 1, 1)]
    yield "struct", [itemdecl(), ("set", ["_"], H("zz")), line("log(it)", ["load $it", "log"])], []
    yield "group", [("group", [("inner", [("Fee", H("fee"))]), ("inner", [("Amount", H("am"))])])], []
    yield "inner", [("inner", [("Fee", H("fee"))])], []
    yield "two-result-op", [("decl", "int", "w", None), ("decl", "int", "u", None), line("w, u = asset_holding_get(AssetBalance, {x}, {y})", ["%E {x}", "%E {y}", "asset_holding_get AssetBalance", "store $w", "store $u"]), ("assert", ("v", "w")), ("assert", ("v", "u"))], []


def holders(n, ev, fs, d=decls):
    """a variable-holding scope around the event: name -> program"""
    V = d("v", n)
    R = reads("v", n)
    b = lambda nm, s: ("block", nm, s)
    yield "main", V + ev + R + [EX] + fs
    yield "block", [("jump", "b"), b("b", V + ev + R + [EX])] + fs
    yield "block-after-func", [("jump", "b")] + fs + [b("b", V + ev + R + [EX])]
    yield "block-func-inside", [("jump", "b"), b("b", V + ev + R + [EX] + fs)]
    yield "main+block", decls("m", 2) + [("jump", "b"), b("b", V + ev + R + reads("m", 2) + [EX])] + fs
    yield "block+nested-after-func", [("jump", "b"), b("b", decls("o", 2) + [("jump", "n")] + fs + [b("n", V + ev + R + reads("o", 2) + [EX])])]
    yield "second-block", [("if", [(False, H("hc"), [("jump", "c")])], None), ("jump", "b"), b("b", decls("s", 4) + reads("s", 4) + [EX]), b("c", V + ev + R + [EX])] + fs
    yield "func", [("call", "hf", []), EX, ("func", "hf", [], [], V + ev + R + [("return", [])])] + fs
    yield "func-after", decls("m", 1) + [("call", "hf", [])] + reads("m", 1) + [EX] + fs + [("func", "hf", [("hp", "int")], [], V + ev + R + [("assert", ("v", "hp")), ("return", [])])]
    yield "while", [("while", False, H("hc"), V + ev + R), EX] + fs
    P = decls("p", 1) + reads("p", 1)
    yield "while+later", decls("m", 1) + [("while", False, H("hc"), V + ev + R)] + P + reads("m", 1) + [EX] + fs
    yield "for-in-while+later", [("while", False, H("hc"), [("for", "h", ("i", 0), ("i", 4), V + ev + R + [("assert", ("v", "h"))])] + P), EX] + fs
    yield "func-while+later", decls("m", 1) + [("call", "hf", [])] + reads("m", 1) + [EX, ("func", "hf", [("hp", "int")], [], [("while", False, H("hc"), V + ev + R)] + P + [("assert", ("v", "hp")), ("return", [])])] + fs
    yield "block-while+later", decls("m", 1) + [("jump", "b"), b("b", [("while", False, H("hc"), V + ev + R)] + P + reads("m", 1) + [EX]), b("c", decls("c", 1) + reads("c", 1) + [EX])] + fs
    yield "for", decls("m", 1) + [("for", "h", ("i", 0), ("i", 4), V + ev + R + [("assert", ("v", "h"))])] + reads("m", 1) + [EX] + fs
    yield "if-else", [("if", [(False, H("hc"), [("assert", H("hx"))])], V + ev + R), EX] + fs


def fixcalls(body):
    """give the holder function's call its argument"""
    out = []
    arity = {s[1]: len(s[2]) for s in body if s[0] == "func"}
    for s in body:
        if s[0] == "call" and s[1] == "hf":
            s = ("call", "hf", [H("hf_x%d" % i) for i in range(arity["hf"])])
        out.append(s)
    return out


def run(ctx):
    ctx.rule("hold", "variables keep their value across the event, in every scope that can hold variables")
    ctx.rule("flag", "the slot of the inner group flag is no variable's slot")
    ctx.rule("limit", "programs with any number of variables are compiled to slots 0..255 or rejected")
    T = dict(ITEM_T)
    for en, ev, fs in events():
        for n in (0, 1, 3) if ctx.thorough else (2,):
            for dn, d in (("", decls), ("-late", late)):
                if dn and not (ctx.thorough or "call" in en):
                    continue
                for hn, body in holders(n, ev, fs, d):
                    body = fixcalls(body)
                    def f(body=body, en=en):
                        src, rf = L.program(body)
                        grp = ("inner" in en or "group" in en)
                        return either_group(ctx, (STRUCT if en == "struct" else []) + src, rf, T)
                    ctx.ob("flag" if en in ("group", "inner") else "hold", "%s@%s/%d%s" % (en, hn, n, dn), f)
    # the flag: groups between uses of variables declared everywhere, macro on for plain inner transactions
    grp = ("group", [("inner", [("Fee", H("g1"))]), ("inner", [("Fee", H("g2"))])])
    inn = ("inner", [("Fee", H("g3"))])
    f2 = func("cf", 1, 2, [grp])
    f3 = func("cf", 1, 2, [inn])
    flag = {
        "main": decls("v", 2) + [grp] + reads("v", 2) + [inn] + reads("v", 2) + [EX],
        "func": decls("v", 2) + [inn, call("cf", 1)] + reads("v", 2) + [EX, f2],
        "block-late": decls("v", 1) + [grp, ("jump", "b"), f2, ("block", "b", decls("w", 4) + [call("cf", 1), inn] + reads("w", 4) + reads("v", 1) + [EX])],
        "func-last": [grp, ("jump", "b"), ("block", "b", decls("w", 3) + [call("cf", 1), grp_again()] + reads("w", 3) + [EX]), f3],
        "no-vars": [grp, inn, EX],
        "loop": decls("v", 1) + [("for", "k", ("i", 0), ("i", 3), decls("w", 1) + [grp, inn] + reads("w", 1) + [("assert", ("v", "k"))])] + reads("v", 1) + [EX],
    }
    for n, body in flag.items():
        def f(body=body):
            src, rf = L.program(body)
            return either_group(ctx, src, rf, {})
        ctx.ob("flag", n, f)
    # limits
    for where in ("main", "block", "func", "func-nested-while", "funcs", "block-after-func", "group"):
        for n in (150, 201, 202, 254, 255, 256, 257, 300) if ctx.thorough else (150, 202, 256, 300):
            def f(where=where, n=n):
                k = 3 if where == "func" else n
                if where == "main":
                    body = decls("v", n) + reads("v", n) + [EX]
                elif where == "block":
                    body = decls("u", 20) + [("jump", "b"), ("block", "b", decls("v", n - 20) + reads("v", n - 20) + reads("u", 20) + [EX])]
                elif where == "func":
                    body = decls("u", 20) + [call("cf", 2)] + reads("u", 20) + [EX, func("cf", 2, n - 22)]
                elif where == "func-nested-while":
                    body = [call("cf", 1), EX, func("cf", 1, n // 2, [("while", False, H("c"), decls("v", n // 2) + reads("v", n // 2))])]
                elif where == "funcs":
                    m = 10
                    body = [call("cf%d" % i, 2) for i in range(m)] + [EX] + [func("cf%d" % i, 2, n // m - 2, [call("cf%d" % (i + 1), 2)] if i < m - 1 else []) for i in range(m)]
                elif where == "block-after-func":
                    body = [("jump", "b"), func("cf", 1, n - 11), ("block", "b", decls("v", 10) + [call("cf", 1)] + reads("v", 10) + [EX])]
                else:
                    body = [call("cf", 1), EX, func("cf", 1, n - 1, [grp])]
                src, rf = L.program(body)
                return either_group(ctx, src, rf, {}, reject=n > 150)
            ctx.ob("limit", "%s-%d" % (where, n), f)
    ctx.assumptions += ["TEAL opcode semantics as in sa/teal.py", "a hole stands for any expression of its type"]


def grp_again():
    return ("group", [("inner", [("Fee", H("g4"))])])


def either_group(ctx, src, rf, types, reject=False):
    return either(ctx, src, rf, types) if reject else equiv(ctx, src, rf, types)
