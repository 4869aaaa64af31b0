"""Function calls.  Arguments reach the parameters of their position, return values the names of
their position, from every call site and through every return, whatever calls what."""
import itertools

from .common import *
from .types_rel import *
from ..families import H, line, STRUCT
from .. import lang as L

FLOOR = 150
TYPES = ["int", "uint8", "bytes", "bytes[32]", "Item", "addr", "bigint", "uint64"]


def use(v, t):
    if t.startswith("box<"):
        return line("log(%s.bb)" % L.nm(v), ["load $" + v, "pushint 8", "pushint 32", "box_extract", "log"])
    op = "assert" if kind(t)[0] == "int" else "log"
    return line("%s(%s)" % (op, L.nm(v)), ["load $" + v, op])


def call_args(ts, where="main"):
    """f called with one hole per parameter"""
    fn = ("func", "f", [("p%d" % i, t) for i, t in enumerate(ts)], [], [use("p%d" % i, t) for i, t in enumerate(ts)] + [("return", [])])
    c = ("call", "f", [H("a%d" % i) for i in range(len(ts))])
    types = {"a%d" % i: t for i, t in enumerate(ts)}
    if where == "main":
        body = [("mark", "0"), c, ("mark", "1"), ("exit", ("i", 1)), fn]
    elif where == "func":
        body = [("call", "g", []), ("exit", ("i", 1)), ("func", "g", [], [], [("mark", "0"), c, ("mark", "1"), ("return", [])]), fn]
    elif where == "func-after":
        body = [("call", "g", []), ("exit", ("i", 1)), fn, ("func", "g", [], [], [("mark", "0"), c, ("mark", "1"), ("return", [])])]
    elif where == "block":
        body = [("jump", "b"), ("block", "b", [("mark", "0"), c, ("mark", "1"), ("exit", ("i", 1))]), fn]
    elif where == "block-local":
        body = [("jump", "b"), ("block", "b", [("mark", "0"), c, ("mark", "1"), ("exit", ("i", 1)), fn])]
    elif where == "block-func":
        body = [("jump", "b"), ("block", "b", [("call", "g", []), ("exit", ("i", 1)), ("func", "g", [], [], [("mark", "0"), c, ("mark", "1"), ("return", [])])]), fn]
    elif where == "loop":
        body = [("while", False, H("w"), [("mark", "0"), c, ("mark", "1")]), ("exit", ("i", 1)), fn]
    return body, types


def simple(ctx, body, types=None, pre=None):
    src, rf = L.program(body)
    return equiv(ctx, (DEFS if pre is None else pre) + src, rf, types or {}, marks=True)


def ret(n, early, ts=None, extra=None):
    """function of n results that may return early inside of constructs `early`"""
    ts = ts or ["int"] * n
    k = [0]

    def r():
        k[0] += 1
        return ("return", [H("r%d_%d" % (k[0], i)) for i in range(n)])

    def wrap(cs):
        if not cs:
            return [("mark", "R"), r()]
        c, inner = cs[0], wrap(cs[1:])
        k[0] += 1
        h = H("c%d" % k[0])
        m = ("mark", "M%d" % k[0])
        return {"if": [("if", [(False, h, inner)], None), m], "ifnot-else": [("if", [(True, h, inner)], [m, r()])], "elif": [("if", [(False, h, [m]), (False, H("d%d" % k[0]), inner)], None)],
                "else": [("if", [(False, h, [m])], inner)], "elif-else": [("if", [(False, h, [m]), (True, H("d%d" % k[0]), [r()])], inner)],
                "while": [("while", False, h, inner + [m]), m], "for": [("for", "i%d" % k[0], ("i", 0), ("i", 5), inner + [m]), m]}[c]
    body = wrap(early) + [("mark", "E"), r()]
    types = {}
    for j in range(1, k[0] + 1):
        for i in range(n):
            types["r%d_%d" % (j, i)] = ts[i]
    return ("func", "f", [], list(ts), body), types


def receive(n, ts=None, keep=None):
    ts = ts or ["int"] * n
    if n == 0:
        return [("call", "f", []), ("mark", "1")]
    return ([("decl", t, "v%d" % i, None) for i, t in enumerate(ts)] + [("mark", "0"), ("set", ["v%d" % i for i in range(n)], ("call", "f", [])), ("mark", "1")]
            + [use("v%d" % i, t) for i, t in enumerate(ts)])


RETEXPR = {  # source of a returned expression -> reference, type
    '"a, b"': ('pushbytes "a, b"', "bytes"), '"f(a"': ('pushbytes "f(a"', "bytes"), '"a)"': ('pushbytes "a)"', "bytes"), '"a\\"b, c"': ('pushbytes "a\\"b, c"', "bytes"), '", "': ('pushbytes ", "', "bytes"), '"["': ('pushbytes "["', "bytes"),
    "'a, b'": ('pushbytes "a, b"', "bytes"), "'a(b'": ('pushbytes "a(b"', "bytes"), "'say \"hi, you\"'": ('pushbytes "say \\"hi, you\\""', "bytes"), '"it\'s"': ('pushbytes "it\'s"', "bytes"),
    "concat({x}, {y})": ("%E {x}; %E {y}; concat", "bytes"), 'concat("a,b", {y})': ('pushbytes "a,b"; %E {y}; concat', "bytes"), "Concat({x}, {y}, {z})": (None, "bytes"),
    "extract3({x}, 1, 2)": ("%E {x}; pushint 1; pushint 2; extract3", "bytes"), "({i} + {j})": ("%E {i}; %E {j}; +", "int"), "{i} + {j}": ("%E {i}; %E {j}; +", "int"), "(({i} + {j}) * 2)": ("%E {i}; %E {j}; +; pushint 2; *", "int"),
    "Txn.ApplicationArgs[1]": ("txna ApplicationArgs 1", "bytes"), "Gtxn[+1].Amount": ("txn GroupIndex; pushint 1; +; gtxns Amount", "int"), "Global.MinTxnFee": ("global MinTxnFee", "int"), "12": ("pushint 12", "int"),
    "select({i}, {j}, ({i} + 1))": ("%E {i}; %E {j}; %E {i}; pushint 1; +; select", "any"), "btoi(concat({x}, \"),\"))": ('%E {x}; pushbytes "),"; concat; btoi', "int"), "!{i}": ("%E {i}; !", "int"),
    "g({i}, {j})": ("%E {i}; %E {j}; callsub F_g", "int"), "g(g(1, 2), {j})": ("pushint 1; pushint 2; callsub F_g; %E {j}; callsub F_g", "int"), "Cast({x}, bytes[2])": ("%E {x}; dup; len; pushint 2; ==; assert", "bytes[2]"),
}


def run(ctx):
    ctx.rule("arguments", "every parameter holds the argument of its position")
    ctx.rule("nested", "arguments that are calls themselves are evaluated in order")
    ctx.rule("parameters", "parameters can be assigned, passed on and used after other calls")
    ctx.rule("returns", "every return value reaches the name of its position")
    ctx.rule("early", "a return at any nesting leaves exactly the return values")
    ctx.rule("return-text", "the expressions of a return statement are split where they end")
    ctx.rule("call-graph", "calls between functions in every scope and order reach the function of that name")
    ctx.rule("forms", "every way to write a function header means the same")
    ctx.rule("reject", "functions that may end without return and wrong returns are rejected")
    for n in range(0, 17):
        for where in ("main", "func", "func-after", "block", "block-local", "block-func", "loop") if n < 5 or ctx.thorough else ("main", "func"):
            def f(n=n, where=where):
                body, types = call_args([TYPES[i % len(TYPES)] for i in range(n)], where)
                return simple(ctx, body, types)
            ctx.ob("arguments", "%d@%s" % (n, where), f)
    for t, u in itertools.product(TYPES + ["box<Item>"], repeat=2):
        def f(t=t, u=u):
            body, types = call_args([t, u])
            return simple(ctx, body, types)
        ctx.ob("arguments", t + "," + u, f)
        if ctx.thorough:
            for v in TYPES:
                def f(t=t, u=u, v=v):
                    body, types = call_args([t, u, v], "func")
                    return simple(ctx, body, types)
                ctx.ob("arguments", "%s,%s,%s" % (t, u, v), f)
    f2 = ("func", "f", [("p", "int"), ("q", "int")], ["int"], [("mark", "F"), ("return", [("+", ("v", "p"), ("v", "q"))])])
    g2 = ("func", "g", [("p@g", "int"), ("q@g", "int")], ["int"], [("mark", "G"), ("assert", ("v", "q@g")), ("return", [("v", "p@g")])])
    C = lambda n, *a: ("call", n, list(a))
    nests = {"f(f,f)": C("f", C("f", H("a"), H("b")), C("f", H("c"), H("d"))), "f(a,f(b,c))": C("f", H("a"), C("f", H("b"), H("c"))), "f(f(a,b),c)": C("f", C("f", H("a"), H("b")), H("c")),
             "f(g,f)": C("f", C("g", H("a"), H("b")), C("f", H("c"), H("d"))), "g(f(g,g),f)": C("g", C("f", C("g", H("a"), H("b")), C("g", H("c"), H("d"))), C("f", H("e"), H("x"))), "deep": C("f", C("f", C("f", C("f", H("a"), H("b")), H("c")), H("d")), H("e")),
             "f(1,g)": C("f", ("i", 1), C("g", ("i", 2), H("x"))), "f(a+g,b)": C("f", ("+", H("a"), ("raw", "f({b}, {c})", ["%E {b}", "%E {c}", "callsub F_f"])), H("d"))}
    for nm_, e in nests.items():
        for how in ("assert", "decl", "arg", "in-func", "cond", "while", "return"):
            def f(e=e, how=how):
                if how == "assert":
                    b = [("assert", e)]
                elif how == "decl":
                    b = [("decl", "int", "v", e), ("assert", ("v", "v"))]
                elif how == "arg":
                    b = [("assert", ("call", "g", [H("y1"), e]))]
                elif how == "cond":
                    b = [("if", [(False, H("y1"), [("mark", "1")]), (True, e, [("mark", "2")])], None)]
                elif how == "while":
                    b = [("while", False, e, [("mark", "1")])]
                elif how == "in-func":
                    b = [("call", "h", [])]
                else:
                    b = [("assert", ("call", "h", []))]
                fs = [f2, g2]
                if how == "in-func":
                    fs = fs + [("func", "h", [], [], [("assert", e), ("mark", "h"), ("return", [])])]
                if how == "return":
                    fs = [("func", "h", [], ["int"], [("return", [e])])] + fs
                return simple(ctx, b + [("mark", "Z"), ("exit", ("i", 1))] + fs, {k: "int" for k in ("a", "b", "c", "d", "e", "x")})
            ctx.ob("nested", nm_ + "@" + how, f)
    # parameters as variables
    for t, u in itertools.product(["int", "bytes", "Item", "bytes[32]"], repeat=2):
        def f(t=t, u=u):
            g = ("func", "g", [("a", u), ("b", t)], [], [use("a", u), ("set", ["a"], H("ga")), use("b", t), use("a", u), ("return", [])])
            fn = ("func", "f", [("p", t), ("q", u)], [], [("call", "g", [("v", "q"), ("v", "p")]), use("p", t), ("set", ["p"], H("np")), use("q", u), use("p", t), ("call", "g", [("v", "q"), ("v", "p")]), use("q", u), use("p", t), ("return", [])])
            return simple(ctx, [("call", "f", [H("x"), H("y")]), ("call", "g", [H("y2"), H("x2")]), ("exit", ("i", 1)), fn, g], {"x": t, "y": u, "x2": t, "y2": u, "ga": u, "np": t})
        ctx.ob("parameters", t + "," + u, f)
    for n in range(0, 9):
        ts = [TYPES[(i * 3 + n) % len(TYPES)] for i in range(n)]
        for where in ("main", "func", "block", "while", "if", "else", "for", "inner_group"):
            def f(n=n, ts=ts, where=where):
                fn, types = ret(n, [], ts)
                body = L.contexts(receive(n, ts), [where])[where]
                # the caller of context "func" is also called f
                body = body + [fn] if where not in ("func",) else [("call", "h", []), ("exit", ("i", 1)), ("func", "h", [], [], receive(n, ts) + [("mark", "Q"), ("return", [])]), fn]
                return simple(ctx, body, types)
            ctx.ob("returns", "%d@%s" % (n, where), f)
    for ts in itertools.product(["int", "bytes", "uint8", "Item"], repeat=3):
        def f(ts=ts):
            fn, types = ret(3, [], list(ts))
            return simple(ctx, receive(3, list(ts)) + [("exit", ("i", 1)), fn], types)
        ctx.ob("returns", ",".join(ts), f)
    CON = ["if", "ifnot-else", "elif", "else", "elif-else", "while", "for"]
    for n in (0, 1, 2, 3) if not ctx.thorough else range(0, 6):
        for d in (1, 2, 3) if ctx.thorough else (1, 2):
            for cs in itertools.product(CON, repeat=d):
                def f(n=n, cs=cs):
                    fn, types = ret(n, list(cs))
                    body = [("assert", ("+", H("below"), ("call", "f", [])))] if n == 1 else receive(n)
                    return simple(ctx, body + [("mark", "Z"), ("exit", ("i", 1)), fn], types)
                ctx.ob("early", "%d-%s" % (n, "/".join(cs)), f)
    GD = ["func g(p: int, q: int) int:", "    assert(q)", "    return p", "end"]
    GR = ["F_g:", "store $q", "store $p", "load $q", "assert", "load $p", "retsub"]
    ht = {"x": "bytes", "y": "bytes", "z": "bytes", "i": "int", "j": "int"}
    items = [(k, (r or "%E {x}; %E {y}; concat; %E {z}; concat", t)) for k, (r, t) in RETEXPR.items()]
    pairs = [[a] for a in items] + [[a, b] for a in items for b in (items if ctx.thorough else [("{i}", ("%E {i}", "int")), items[0], items[3], items[6], items[11], items[-2]])] + [[b, a] for a in items for b in [("{i}", ("%E {i}", "int")), items[3], items[6]]] + [[("{i}", ("%E {i}", "int")), a, ("{x}", ("%E {x}", "bytes"))] for a in items]
    for ps in pairs:
        for sep in (", ", ",", " , "):
            if sep != ", " and len(ps) != 3:
                continue
            def f(ps=ps, sep=sep):
                n = len(ps)
                ts = [p[1][1] if p[1][1] != "any" else "int" for p in ps]
                src = ["%s v%d" % (t, i) for i, t in enumerate(ts)] + ["%s = f()" % ", ".join("v%d" % i for i in range(n))] + L.body_src([use("v%d" % i, t) for i, t in enumerate(ts)]) + ["exit(1)", "func f() %s:" % ", ".join(ts), "    return " + sep.join(p[0] for p in ps), "end"] + GD
                rf = ["callsub F_f"] + ["store $v%d" % i for i in range(n)] + L.body_ref(L.Gen(), [use("v%d" % i, t) for i, t in enumerate(ts)]) + ["pushint 1", "return", "F_f:"]
                for p in reversed(ps):
                    rf += p[1][0].split("; ") if not p[1][0].startswith("pushbytes") else [p[1][0]] if "; " not in p[1][0] else p[1][0].split("; ")
                return equiv(ctx, src, rf + ["retsub"] + GR, ht)
            ctx.ob("return-text", sep.join(p[0] for p in ps), f)
    # call graphs
    def fn(name, calls, ret_=1, pre=(), post=()):
        body = [("assert", H("in_" + name))] + list(pre)
        for c in calls:
            body.append(("assert", ("call", c, [])))
        return ("func", name, [], ["int"], body + list(post) + [("return", [H("r_" + name)])])
    graphs = {"chain": {"u": "v", "v": "w", "w": "z", "z": ""}, "diamond": {"u": "vw", "v": "z", "w": "z", "z": ""}, "all": {"u": "vwz", "v": "wz", "w": "z", "z": ""}, "twice": {"u": "vv", "v": "ww", "w": "", "z": "u"}}
    for gn, gr in graphs.items():
        for order in itertools.permutations("uvwz") if ctx.thorough or gn == "diamond" else ["uvwz", "zwvu", "vzuw", "wuzv"]:
            ctx.ob("call-graph", gn + " " + "".join(order), lambda gr=gr, order=order: simple(ctx, [("assert", ("call", "u", [])), ("assert", ("call", "z", [])), ("mark", "m"), ("exit", ("i", 1))] + [fn(n, gr[n]) for n in order]))
        for split in itertools.product((0, 1), repeat=4):
            # functions of the block may call those of the program and of the block
            ok = all(split["uvwz".index(c)] == 0 or split[i] == 1 for i, n in enumerate("uvwz") for c in gr[n])
            if not ok:
                continue
            def f(gr=gr, split=split):
                inner = [fn(n, gr[n]) for i, n in enumerate("uvwz") if split[i]]
                outer = [fn(n, gr[n]) for i, n in enumerate("uvwz") if not split[i]]
                calls = [("assert", ("call", n, [])) for n in "uvwz"]
                return simple(ctx, [("jump", "bb"), ("block", "bb", calls + [("mark", "m"), ("exit", ("i", 1))] + inner)] + outer)
            ctx.ob("call-graph", gn + " block " + "".join(map(str, split)), f)
    for names in (["f", "ff", "f_f"], ["a", "a1", "a1_b"], ["exit_", "return_", "if_"], ["func1", "block1", "main"], ["x", "_x", "__x"], ["store1", "load1", "pop1"], ["end1", "else1", "elif1"]):
        def f(names=names):
            return simple(ctx, [("assert", ("call", n, [])) for n in names] + [("mark", "m"), ("exit", ("i", 1))] + [fn(n, names[i + 1:]) for i, n in enumerate(names)])
        ok = all(n[0].isalpha() for n in names)
        if ok:
            ctx.ob("call-graph", "names " + ",".join(names), f)
    for n in ("b", "log", "swap", "sha256", "err", "len", "assert_"):
        # the name of an opcode: not the opcode instead of the function
        ctx.ob("call-graph", "name of an opcode " + n, lambda n=n: either(ctx, ["%s()" % n, "exit(1)", "func %s():" % n, "    assert({x})", "    return", "end"], ["callsub F_f", "pushint 1", "return", "F_f:", "%E {x}", "assert", "retsub"]))
        ctx.ob("call-graph", "name of an opcode %s, value" % n, lambda n=n: either(ctx, ["assert(%s({x}))" % n, "exit(1)", "func %s(p: int) int:" % n, "    return p + 1", "end"], ["%E {x}", "callsub F_f", "assert", "pushint 1", "return", "F_f:", "store $p", "load $p", "pushint 1", "+", "retsub"]))
    # headers
    for hd, acc in {"func f(p: int, q: bytes) int, bytes:": True, "func f(p: int,q: bytes) int,bytes:": False, "func f(p: int,  q: bytes)  int,  bytes:": False, "func f(p: int, q: bytes)int, bytes:": False, "func f(p:int, q:bytes) int, bytes:": False,
                    "func f( p: int, q: bytes ) int, bytes:": False, "func f(p: int, q: bytes) int, bytes :": False, "func f (p: int, q: bytes) int, bytes:": False, "func  f(p: int, q: bytes) int, bytes:": False, "func f(p: int, q: bytes) (int, bytes):": False,
                    "func f(p: int, q: bytes) -> int, bytes:": False, "func f(p: int, q: bytes) int bytes:": False, "func f(p: int, q: bytes) int, bytes,:": False, "func f(p: int, q: bytes,) int, bytes:": False, "func f(p: int q: bytes) int, bytes:": False, "func f(p: int, q: bytes) int, bytes: x": False,
                    "func f(p: int, q: bytes) int, bytes: # comment": False, "func f(p: int, q: bytes) ,int, bytes:": False, "func f(p: int, q: bytes) int,, bytes:": False}.items():
        def f(hd=hd, acc=acc):
            src = ["int a", "bytes b", "a, b = f({x}, {y})", "assert(a)", "log(b)", "exit(1)", hd, "    assert(p)", "    log(q)", "    return {r}, {s}", "end"]
            rf = ["%E {x}", "%E {y}", "callsub F_f", "store $a", "store $b", "load $a", "assert", "load $b", "log", "pushint 1", "return", "F_f:", "store $q", "store $p", "load $p", "assert", "load $q", "log", "%E {s}", "%E {r}", "retsub"]
            return (equiv if acc else either)(ctx, src, rf, {"x": "int", "y": "bytes", "r": "int", "s": "bytes"})
        ctx.ob("forms", hd, f)
    for st, acc in {"return": True, "return ": False, "return  # nothing": False}.items():
        ctx.ob("forms", st, lambda st=st, acc=acc: (equiv if acc else either)(ctx, ["f()", "exit(1)", "func f():", "    assert({x})", "    " + st, "end"], ["callsub F_f", "pushint 1", "return", "F_f:", "%E {x}", "assert", "retsub"]))
    for st, acc in {"return {x}": True, "return  {x}": False, "return {x} ": False, "return ({x})": False, "return {x} # c": False, "return ({x} + 1)": False}.items():
        ctx.ob("forms", st, lambda st=st, acc=acc: (equiv if acc else either)(ctx, ["assert(f())", "exit(1)", "func f() int:", "    " + st, "end"], ["callsub F_f", "assert", "pushint 1", "return", "F_f:", "%E {x}"] + (["pushint 1", "+"] if "+ 1" in st else []) + ["retsub"], {"x": "int"}))
    for after in ("", "# a comment"):
        ctx.ob("forms", "after the return: " + repr(after), lambda after=after: equiv(ctx, ["f()", "exit(1)", "func f():", "    return", "    " + after, "end"], ["callsub F_f", "pushint 1", "return", "F_f:", "retsub"]))
    # a path without return
    V = ["    return", "end"]
    for nme, body in {"empty": [], "statement": ["assert({x})"], "comment": ["# return"], "return in if": ["if {c}:", "    return", "end"], "return in if and else": ["if {c}:", "    return", "else:", "    return", "end"], "return in while": ["while {c}:", "    return", "end"],
                      "statement after return": ["return", "assert({x})"], "exit": ["exit(1)"], "return in for": ["for i in 0:3:", "    return", "end"], "group": ["inner_group:", "    return", "end"], "teal": ["teal:", "    retsub", "end"]}.items():
        ctx.ob("reject", "ends with " + nme, lambda body=body: rejected(ctx, ["f()", "exit(1)", "func f():"] + ["    " + l for l in body] + ["end"]))
        ctx.ob("reject", "in block, ends with " + nme, lambda body=body: rejected(ctx, ["jump b", "block b:", "    f()", "    exit(1)", "    func f():"] + ["        " + l for l in body] + ["    end", "end"]))
    for nme, src in {"main": ["return", "exit(1)"], "main if": ["if {c}:", "    return", "end", "exit(1)"], "block": ["jump b", "block b:", "    return", "    exit(1)", "end"], "value in main": ["return 1", "exit(1)"]}.items():
        ctx.ob("reject", "return in " + nme, lambda src=src: rejected(ctx, src))
    for nme, src in {"too few": ["return {x}"], "too many": ["return {x}, {y}, {z}"], "none": ["return"], "trailing": ["return {x}, {y},"], "leading": ["return , {x}"], "empty": ["return {x},, {y}"], "tuple": ["return ({x}, {y})"], "space": ["return {x} {y}"]}.items():
        ctx.ob("reject", "two values, " + nme, lambda src=src: rejected(ctx, ["int a", "int b", "a, b = f()", "exit(1)", "func f() int, int:"] + ["    " + l for l in src] + ["end"], {"x": "int", "y": "int", "z": "int"}))
    for nme, src in {"unknown": ["zz()", "exit(1)"], "in sibling block": ["jump a", "block a:", "    f()", "    exit(1)", "end", "block b:", "    exit(1)", "    func f():", "        return", "    end", "end"],
                     "in inner block": ["f()", "jump b", "block b:", "    exit(1)", "    func f():", "        return", "    end", "end"], "variable": ["int f", "f()", "exit(1)"], "block": ["f()", "exit(1)", "block f:", "    exit(1)", "end"]}.items():
        ctx.ob("reject", "call of " + nme, lambda src=src: rejected(ctx, src))
    ctx.assumptions += ["recursion is not specified: the variables of a function have fixed slots"]
