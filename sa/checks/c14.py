"""Names.  A name denotes the innermost definition that is visible where it is used, and nothing else:
definitions of every kind are placed at every place of a program with nested blocks, functions and loops, and
used at every place; a scope rule written down independently says which of the programs are valid and what
each use denotes."""
from .common import *
from ..families import STRUCT, SIZE

FLOOR = 200
EX = ("exit", ("i", 1))
H = lambda n: ("h", n.replace("-", "_").replace("'", ""))

# place -> scope (a path); in the order of the program text
PLACES = [("start", ""), ("if", ""), ("elif", ""), ("else", ""), ("while", ".w"), ("while-if", ".w"), ("while-while", ".w.w"), ("while-end", ".w"), ("for", ".r"), ("for_", ".q"), ("main-end", ""),
          ("A", ".A"), ("A-while", ".A.w"), ("A-end", ".A"), ("N", ".A.N"), ("N-end", ".A.N"), ("FN", ".A.N.FN"), ("FA", ".A.FA"), ("FA-while", ".A.FA.w"), ("B", ".B"), ("FM", ".FM"), ("FM-if", ".FM"), ("FM-for", ".FM.r"), ("FM-end", ".FM"), ("FZ", ".FZ")]
SCOPE = dict(PLACES)
ORDER = {p: i for i, (p, s) in enumerate(PLACES)}


def program(put, defs=()):
    """the program with the statements put[place] at each place; defs: (scope, function or block) definitions"""
    g = lambda p: list(put.get(p, []))
    d = lambda s: [x for t, x in defs if t == s]
    ret = [("return", [])]
    mark = lambda n: [("assert", H(n))]
    return (g("start") + [("if", [(False, H("c1"), g("if") + mark("m1")), (True, H("c2"), g("elif") + mark("m2"))], g("else") + mark("m3"))]
            + [("while", False, H("c3"), g("while") + [("if", [(False, H("c4"), g("while-if") + mark("m4"))], None), ("while", True, H("c5"), g("while-while") + mark("m5"))] + g("while-end") + mark("m6"))]
            + [("for", "k1", ("i", 0), ("i", 3), g("for") + mark("m7")), ("for_", ("i", 1), ("i", 4), g("for_") + mark("m8"))] + g("main-end")
            + [("call", "fm", []), ("call", "fz", []), ("if", [(False, H("c6"), [("jump", "ba")])], None), ("jump", "bb")]
            + [("block", "ba", g("A") + [("while", False, H("c7"), g("A-while") + mark("m9"))] + g("A-end") + [("call", "fa", []), ("jump", "bn"),
                ("block", "bn", g("N") + [("assert", H("ma"))] + g("N-end") + [("call", "fn", []), EX, ("func", "fn", [], [], g("FN") + mark("mb") + ret)] + d(".A.N")),
                ("func", "fa", [], [], g("FA") + [("while", False, H("c8"), g("FA-while") + mark("mc"))] + ret)] + d(".A"))]
            + [("block", "bb", g("B") + mark("md") + [EX] + d(".B"))]
            + [("func", "fm", [], [], g("FM") + [("if", [(False, H("c9"), g("FM-if") + mark("me"))], None), ("for", "k2", ("i", 0), ("i", 3), g("FM-for") + mark("mf"))] + g("FM-end") + ret),
               ("func", "fz", [], [], g("FZ") + mark("mg") + ret)] + d(""))


def within(inner, outer):
    return inner == outer or inner.startswith(outer + ".")


def func_of(scope):
    """the function a scope is in (a path ending in it), or None"""
    parts = scope.split(".")
    for i in range(len(parts), 0, -1):
        if parts[i - 1].startswith("F"):
            return ".".join(parts[:i])
    return None


def sees(use, d):
    """whether a variable or constant defined at place d can be read at place use"""
    return ORDER[d] < ORDER[use] and within(SCOPE[use], SCOPE[d])


def assigns(use, d):
    f = func_of(SCOPE[use])
    return sees(use, d) and (f is None or within(SCOPE[d], f))


def line(src, ref):
    return ("line", [src], ref)


# ------------------------------------------------------------- kinds of definitions with their uses
KINDS = {
    "int": (lambda t: [("decl", "int", "x@" + t, H("v" + t))],
            {"read": lambda t: [("assert", ("v", "x@" + t))],
             "assign": lambda t: [("set", ["x@" + t], H("w")), ("assert", ("v", "x@" + t))],
             "assign-2": lambda t: [line("_, x = asset_holding_get(AssetBalance, {y}, {z})", ["%E {y}", "%E {z}", "asset_holding_get AssetBalance", "pop", "store $x@" + t]), ("assert", ("v", "x@" + t))]}),
    "struct": (lambda t: [line("Item x = {st}", ["%E {st}", "store $x@" + t])],
               {"read": lambda t: [line("log(x.dd)", ["load $x@" + t, "extract 41 3", "log"]), line("log(x)", ["load $x@" + t, "log"])],
                "assign": lambda t: [line("x.dd = {b3}", ["%E {b3}", "load $x@" + t, "swap", "replace2 41", "store $x@" + t]), line("log(x)", ["load $x@" + t, "log"])],
                "assign-all": lambda t: [line("x = {st}", ["%E {st}", "store $x@" + t]), line("log(x)", ["load $x@" + t, "log"])]}),
    "box": (lambda t: [line("box<Item> x = Box({b})", ["%E {b}", "store $x@" + t])],
            {"read": lambda t: [line("log(x.dd)", ["load $x@" + t, "pushint 41", "pushint 3", "box_extract", "log"])],
             "write": lambda t: [line("x.dd = {b3}", ["%E {b3}", "store $tmp_", "load $x@" + t, "pushint 41", "load $tmp_", "box_replace"])]}),
    "const": (lambda t: [line("const int XX = %s" % N(t), [])],
              {"read": lambda t: [line("assert(XX)", ["pushint " + N(t), "assert"])], "operand": lambda t: [line("log(itob({y} + XX))", ["%E {y}", "pushint " + N(t), "+", "itob", "log"])]}),
}
TYPES = {"st": "bytes[%d]" % SIZE, "b3": "bytes[3]", "b": "bytes"}


def N(t):
    return str(100 + ORDER[t]) if t in ORDER else "99"


def some(ctx, n, *key):
    """one obligation in n in the quick tier"""
    import zlib
    return ctx.thorough or zlib.crc32(repr(key).encode()) % n == 0


def top(body):
    return [("line", STRUCT, [])] + body


def decide(ctx, body, valid):
    src, rf = L.program(top(body))
    if valid:
        return equiv(ctx, src, rf, types=TYPES, post=lambda p, r, d: unique_labels(p, d))
    return rejected(ctx, src, TYPES)


def maybe(ctx, body):
    src, rf = L.program(top(body))
    return either(ctx, src, rf, TYPES, post=lambda p, r, d: unique_labels(p, d))


NAMES = ["xx", "x1", "x_", "x__y", "xX", "_x", "__x", "int", "bytes", "end", "endx", "else", "elsewhere", "elif", "elif2", "ifx", "if", "not", "notx", "not_", "return", "returned", "break", "breaker", "while", "whiles", "for", "fort", "in", "inx", "func", "funcs", "block", "blocks", "jump", "jumps",
         "switch", "switches", "exit", "exits", "assert", "asserts", "log", "logs", "pop", "itob", "b", "bz", "txn", "global", "const", "constx", "struct", "structs", "box", "boxes", "teal", "teals", "router", "inner_txn", "inner_group", "uint8", "uint64", "bigint", "addr", "bool", "_inner_group_flag", "l0_end", "l1_while",
         "__func__fm", "func__fm", "bb", "ba", "ba__bn", "k1", "x" * 80, "main", "program", "version", "pragma", "public", "true", "e", "load", "store", "method", "callsub", "itob1", "sizeof", "cast", "X", "Xx", "XX", "x2y", "i", "l", "o", "tl", "slot", "a" * 2, "err", "return_", "x_1", "x_10", "x_11"]


def run(ctx):
    ctx.rule("variable", "a variable, box reference or constant can be used after its definition in its scope and the scopes within, and nowhere else; functions can not assign to variables outside of them")
    ctx.rule("two", "of two variables of one name each use denotes the one that is visible; defining one where another is visible is rejected")
    ctx.rule("loop", "the variable of a counted loop can be used in the loop only, function arguments in the function only")
    ctx.rule("function", "a call reaches the innermost function of that name whose scope encloses the call, wherever in it it is defined; other calls are rejected")
    ctx.rule("block", "a jump reaches the innermost block of that name whose scope encloses the jump; other jumps are rejected")
    ctx.rule("kinds", "names of variables, functions, blocks and fields are kept apart")
    ctx.rule("names", "a name is taken as a whole: what is defined under any name is what is used under it, or the name is rejected")
    pl = [p for p, s in PLACES]
    for k, (define, uses) in KINDS.items():
        ok = lambda un, u, d, k=k: assigns(u, d) if un.startswith("assign") else sees(u, d)
        for d in pl:
            # all valid uses together
            for un, use in uses.items():
                put = {d: define(d)}
                for u in pl:
                    if ok(un, u, d):
                        put[u] = use(d)
                ctx.ob("variable", "%s %s %s" % (k, d, un), lambda put=put: decide(ctx, program(put), True))
            for u in pl:
                for un, use in uses.items():
                    if u == d or ok(un, u, d):
                        continue
                    # what can not be read is not tried in every way
                    if not (k == "int" and un == "read") and not some(ctx, 12 if not sees(u, d) else 3, k, d, un, u):
                        continue
                    ctx.ob("variable", "%s %s not %s %s" % (k, d, un, u), lambda d=d, u=u, define=define, use=use: decide(ctx, program({d: define(d), u: use(d)}), False))
            put = {d: use(d) + define(d)}
            ctx.ob("variable", "%s %s not before in place" % (k, d), lambda put=put: decide(ctx, program(put), False))
        for d1 in pl:
            for d2 in pl:
                if ORDER[d1] > ORDER[d2]:
                    continue
                k2s = [k] if k == "const" or not ctx.thorough else [x for x in KINDS if x != "const"]
                for k2 in k2s:
                    clash = d1 == d2 or sees(d2, d1)
                    put = {d1: define(d1)}
                    put[d2] = put.get(d2, []) + KINDS[k2][0](d2)
                    if not clash:
                        for u in pl:
                            for kk, d in ((k, d1), (k2, d2)):
                                if sees(u, d):
                                    put[u] = put.get(u, []) + KINDS[kk][1]["read"](d)
                                if assigns(u, d) and kk == "int" and (ctx.thorough or u in (d1, d2, "B", "A-end")):
                                    put[u] = put.get(u, []) + KINDS[kk][1]["assign"](d)
                    if k != "int" and not some(ctx, 6, k, d1, d2):
                        continue
                    ctx.ob("two", "%s %s %s %s" % (k, d1, k2, d2), lambda put=put, clash=clash: decide(ctx, program(put), not clash))
        if k != "const":
            own = {"int": "int x = {y} + x", "struct": "Item x = x", "box": "box<Item> x = OpenBox(x)"}[k]
            for d in pl:
                ctx.ob("variable", "%s %s not in its own declaration" % (k, d), lambda d=d, own=own: decide(ctx, program({d: [line(own, [])]}), False))
            own = {"int": "x = x + 1", "struct": "x = x", "box": "x.dd = x.dd"}[k]
            for d in pl:
                ctx.ob("variable", "%s %s in its own assignment" % (k, d), lambda d=d, own=own, define=define, k=k: decide(ctx, program({d: define(d) + [line(own, {"int": ["load $x@" + d, "pushint 1", "+", "store $x@" + d], "struct": ["load $x@" + d, "store $x@" + d],
                       "box": ["load $x@" + d, "pushint 41", "pushint 3", "box_extract", "store $tmp_", "load $x@" + d, "pushint 41", "load $tmp_", "box_replace"]}[k])] + KINDS[k][1]["read"](d)}), True))
    # loops and arguments
    loop = lambda b=(): ("for", "x@l", ("i", 0), ("i", 5), [("assert", ("v", "x@l"))] + list(b))
    rd, de = [("assert", ("v", "x@l"))], [("decl", "int", "x@d", H("d"))]
    for d in pl:
        put = {d: [loop()]}
        for u in pl:
            if u == d:
                continue
            if not some(ctx, 8 if not within(SCOPE[u], SCOPE[d]) else 3, "for", d, u):
                continue
            ctx.ob("loop", "for %s use %s" % (d, u), lambda d=d, u=u: decide(ctx, program({d: [loop()], u: rd}), False))
            # a variable of that name elsewhere; it always gets its value
            if u in ("if", "elif", "else", "while-if", "FM-if"):
                continue
            bad = sees(d, u)
            use = {d: [loop()], u: de}
            if not bad:
                for v in pl:
                    if sees(v, u):
                        use[v] = use.get(v, []) + [("assert", ("v", "x@d"))]
            ctx.ob("loop", "for %s decl %s" % (d, u), lambda use=use, bad=bad: decide(ctx, program(use), not bad))
        for n, b, v in (("after", [loop()] + rd, False), ("before", rd + [loop()], False), ("decl-after", [loop()] + de + [("assert", ("v", "x@d"))], True), ("decl-before", de + [loop()], False),
                        ("again", [loop(), loop()], True), ("nested", [loop([loop()])], False), ("decl-in", [loop(de)], False), ("while-in", [loop([("while", False, H("lc"), rd + [("if", [(False, H("ld"), rd)], rd)])])], True),
                        ("assign", [loop([("set", ["x@l"], H("la"))])], True), ("limits", [("for", "x@l", ("v", "x@l"), ("i", 5), [])], False), ("limits-end", [("for", "x@l", ("i", 0), ("v", "x@l"), [])], None)):
            if v is not None and some(ctx, 3, n, d):
                ctx.ob("loop", "%s %s" % (n, d), lambda d=d, b=b, v=v: decide(ctx, program({d: b}), v))
    fun = lambda args, body: [("func", "ff", args, [], body + [("return", [])])]
    for d in pl:
        f = fun([("x@a", "int")], [("assert", ("v", "x@a"))])
        use = {d: [("call", "ff", [H("arg")])] + [("decl", "int", "x@d", H("d"))]}
        if SCOPE[d] != "":
            for v in pl:
                if sees(v, d):
                    use[v] = use.get(v, []) + [("assert", ("v", "x@d"))]
        ctx.ob("loop", "argument and variable of %s" % d, lambda use=use, f=f, d=d: decide(ctx, program(use, [("", f[0])]), SCOPE[d] != ""))
        ctx.ob("loop", "argument used in %s" % d, lambda f=f, d=d: decide(ctx, program({d: [("assert", ("v", "x@a"))]}, [("", f[0])]), False))
    for s in ("", ".A", ".A.N", ".B"):
        for n, args, body, v in (("twice", [("x@a", "int"), ("x@b", "int")], [], False), ("again", [("x@a", "int")], [("decl", "int", "x@b", H("d"))], False), ("in-loop", [("x@a", "int")], [("while", False, H("lc"), [("decl", "int", "x@b", H("d"))])], False),
                                 ("read", [("x@a", "int"), ("y@a", "int")], [("while", False, H("lc"), [("assert", ("v", "x@a"))]), ("set", ["x@a"], ("v", "y@a")), ("assert", ("v", "x@a"))], True)):
            ctx.ob("loop", "argument %s %s" % (n, s), lambda s=s, args=args, body=body, v=v: decide(ctx, program({}, [(s, fun(args, body)[0])]), v))
    # functions and blocks
    SC = ["", ".A", ".A.N", ".B"]
    for bits in range(1, 16):
        where = [s for i, s in enumerate(SC) if bits >> i & 1]
        target = lambda u: max([s for s in where if within(SCOPE[u], s)], key=len, default=None)
        for kind in ("function", "block"):
            if kind == "function":
                defs = [(s, ("func", "x@f" + s, [], [], [("assert", H("f%d" % SC.index(s))), ("return", [])])) for s in where]
                use = lambda s: [("call", "x@f" + s, [])]
            else:
                defs = [(s, ("block", "x@b" + s, [("assert", H("f%d" % SC.index(s))), EX])) for s in where]
                use = lambda s: [("if", [(False, H("jc"), [("jump", "x@b" + s)])], None)]
            put = {u: use(target(u)) for u in pl if target(u) is not None}
            ctx.ob(kind, "in %s" % (where,), lambda put=put, defs=defs: decide(ctx, program(put, defs), True))
            for u in pl:
                if target(u) is None:
                    ctx.ob(kind, "in %s not from %s" % (where, u), lambda u=u, defs=defs, use=use: decide(ctx, program({u: use("")}, defs), False))
            for s in where:
                # a second one in the same scope, as the definitions of x are placed last
                ctx.ob(kind, "in %s twice in %s" % (where, s), lambda put=put, defs=defs, s=s: decide(ctx, program(put, defs + [d for d in defs if d[0] == s]), False))
    for s in SC:
        u = {"": "main-end", ".A": "A-end", ".A.N": "N-end", ".B": "B"}[s]
        three = [(s, ("func", "x@f", [("y", "int")], ["int"], [("assert", H("fm")), ("return", [("v", "y")])])), (s, ("block", "x@b", [("assert", H("bm")), EX]))]
        body = [("decl", "int", "x@v", H("v")), ("set", ["x@v"], ("call", "x@f", [("v", "x@v")])), ("assert", ("v", "x@v")), line("assert(Txn.Fee)", ["txn Fee", "assert"]), ("if", [(False, ("v", "x@v"), [("jump", "x@b")])], None)]
        ctx.ob("kinds", "variable, function and block of one name in %s" % s, lambda u=u, body=body, three=three: decide(ctx, program({u: body}, three), True))
        ctx.ob("kinds", "a variable is not called in %s" % s, lambda u=u, body=body: decide(ctx, program({u: [body[0], ("call", "x@v", [])]}), False))
        ctx.ob("kinds", "a variable is not jumped to in %s" % s, lambda u=u, body=body: decide(ctx, program({u: [body[0], ("if", [(False, H("c"), [("jump", "x")])], None)]}), False))
        ctx.ob("kinds", "a function is not jumped to in %s" % s, lambda u=u, three=three: decide(ctx, program({u: [("if", [(False, H("c"), [("jump", "x")])], None)]}, three[:1]), False))
        ctx.ob("kinds", "a block is not called in %s" % s, lambda u=u, three=three: decide(ctx, program({u: [("call", "x", [])]}, three[1:]), False))
        ctx.ob("kinds", "a function is not a value in %s" % s, lambda u=u, three=three: decide(ctx, program({u: [("assert", ("v", "x"))]}, three[:1]), False))
        ctx.ob("kinds", "a block is not a value in %s" % s, lambda u=u, three=three: decide(ctx, program({u: [("assert", ("v", "x"))]}, three[1:]), False))
    for n in NAMES:
        v, w = n + "@n", "x@o"
        two = [("decl", "int", w, H("o")), ("decl", "int", v, H("n")), ("assert", ("v", w)), ("assert", ("v", v)), ("set", [v], H("n2")), ("set", [w], ("v", v)), ("assert", ("+", ("v", w), ("v", v)))]
        for u in ("start", "while-while", "N", "FM", "FA-while"):
            if not some(ctx, 6, n, u):
                continue
            ctx.ob("names", "variable %s in %s" % (n[:20], u), lambda u=u, two=two: maybe(ctx, program({u: two})))
        ctx.ob("names", "loop %s" % n[:20], lambda w=w, v=v: maybe(ctx, program({"main-end": [("decl", "int", w, H("o")), ("for", v, ("i", 0), ("v", w), [("assert", ("v", w)), ("assert", ("v", v))])]})))
        fs = [("", ("func", w, [], [], [("assert", H("fo")), ("return", [])])), ("", ("func", v, [("x@a", "int"), (n + "@a", "int")], ["int"], [("assert", ("v", "x@a")), ("return", [("v", n + "@a")])]))]
        ctx.ob("names", "function %s" % n[:20], lambda fs=fs, v=v, w=w: maybe(ctx, program({"A": [("call", w, []), ("decl", "int", "r", ("call", v, [H("p"), H("q")])), ("assert", ("v", "r")), ("call", w, [])]}, fs)))
        bs = [(s, ("block", b, [("assert", H(b[0] + "b")), EX])) for s, b in ((".A", w), (".A", v))]
        ctx.ob("names", "block %s" % n[:20], lambda bs=bs, v=v, w=w: maybe(ctx, program({"A": [("if", [(False, H("ja"), [("jump", w)]), (False, H("jb"), [("jump", v)])], None)]}, bs)))
    ctx.assumptions += ["the scope rule: blocks, functions, while and for loops have scopes of their own, the branches of an if do not (README, docs/language.rst and the compiler agree); functions and blocks are visible before their definition, variables and constants are not"]
