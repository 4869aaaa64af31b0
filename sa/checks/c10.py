"""Router.  The emitted dispatch is compared with the documented one for every number of routes,
OnCompletion, argument and return type at every position, and wherever router and functions stand."""
import itertools

from .common import *
from .types_rel import *

FLOOR = 150
OC = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5}
ARGS = ["int", "uint64", "uint8", "bytes", "bytes[1]", "bytes[32]", "bytes[300]", "addr", "bigint", "Item", "Other", "uint8[4]"]
RETS = ["int", "uint64", "bytes", "bytes[9]", "addr", "bigint", "Item", "uint8[4]"]


def oc_ref(oc):
    if oc == "CreateApplication":
        return ["txn ApplicationID", "pushint 0", "==", "assert"]
    return ["txn OnCompletion", "pushint %d" % OC[oc], "==", "assert"]


def arg_ref(i, t):
    out = ["txna ApplicationArgs %d" % i]
    k, n = kind(t)
    if k == "int":
        out += ["btoi"]
        if n < 8:
            out += ["dup", "bitlen", "pushint %d" % (8 * n), "<=", "assert"]
    elif n:
        out += ["dup", "len", "pushint %d" % n, "==", "assert"]
    return out


class F:
    def __init__(self, name, args=(), rets=(), oc="NoOp", dec=None, public=True, body=None):
        self.name, self.args, self.rets, self.oc, self.public = name, list(args), list(rets), oc, public
        self.dec = dec if dec is not None else ["@public(%s)" % ("" if oc == "NoOp" else "OnCompletion=" + oc)]
        self.body = body


def func_src(f):
    out = (f.dec if f.public else []) + ["func %s(%s)%s:" % (f.name, ", ".join("p%d: %s" % (i, t) for i, t in enumerate(f.args)), " " + ", ".join(f.rets) if f.rets else "")]
    for i, t in enumerate(f.args):
        out.append("    %s(p%d)" % ("assert" if kind(t)[0] == "int" else "log", i))
    out.append("    return%s" % (" " + ", ".join("{r_%s_%d}" % (f.name, i) for i in range(len(f.rets))) if f.rets else ""))
    return out + ["end"]


def func_ref(f):
    out = ["F_%s:" % f.name]
    out += ["store $%s_p%d" % (f.name, i) for i in reversed(range(len(f.args)))]
    for i, t in enumerate(f.args):
        out += ["load $%s_p%d" % (f.name, i), "assert" if kind(t)[0] == "int" else "log"]
    out += ["%%E {r_%s_%d}" % (f.name, i) for i in reversed(range(len(f.rets)))]
    return out + ["retsub"]


def router_ref(routes):
    out = ['pushbytes "%s"' % f.name for f in routes] + ["txna ApplicationArgs 0", "match " + " ".join("R_" + f.name for f in routes), "err"]
    for f in routes:
        out += ["R_%s:" % f.name] + oc_ref(f.oc)
        for i, t in enumerate(f.args):
            out += arg_ref(i + 1, t)
        out.append("callsub F_" + f.name)
        if f.rets:
            # the values are concatenated in the order of the return statement, the first is on top
            for i, r in enumerate(f.rets):
                conv = ["itob"] if kind(r)[0] == "int" else []
                out += conv if i == 0 else ["store $acc_", "store $val_", "load $acc_", "load $val_"] + conv + ["concat"]
            out += ["store $acc_", "pushbytes 0x151f7c75", "load $acc_", "concat", "log"]
        out += ["pushint 1", "return"]
    return out


def hole_types(fs):
    return {"r_%s_%d" % (f.name, i): t for f in fs for i, t in enumerate(f.rets)}


def check(ctx, routes, funcs, pre=(), preref=(), types=None, block=False, extra=()):
    src = ["router:"] + ["    " + f.name for f in routes] + ["end"]
    if block:
        fs = []
        for f in funcs:
            fs += func_src(f)
        src = ["jump bb", "block bb:"] + ["    " + l for l in list(pre) + src + (fs if block == "in" else [])] + ["end"] + ([] if block == "in" else fs)
    else:
        src = list(pre) + src
        for f in funcs:
            src += list(extra) + func_src(f)
    ref = list(preref) + router_ref(routes)
    for f in funcs:
        ref += func_ref(f)
    return equiv(ctx, DEFS + src, ref, dict(hole_types(funcs), **(types or {})))


def run(ctx):
    ctx.rule("arg", "argument i of a route is application argument i, checked and converted to its type")
    ctx.rule("args", "several arguments are passed in order")
    ctx.rule("return", "return values are logged with the ARC-4 prefix, in order, ints as 8 bytes")
    ctx.rule("on-completion", "a route is only taken with its OnCompletion")
    ctx.rule("routes", "each route reaches the function of its name, other values of the first argument fail")
    ctx.rule("position", "routers work in the main program, after other statements and in blocks")
    ctx.rule("reject", "routes to missing or private functions and unknown decorator parameters are rejected")
    for t in ARGS:
        ctx.ob("arg", t, lambda t=t: check(ctx, [f := F("ma", [t])], [f]))
        ctx.ob("arg", t + " after others", lambda t=t: check(ctx, [f := F("ma", ["int", "bytes", t])], [f]))
        ctx.ob("arg", t + " before others", lambda t=t: check(ctx, [f := F("ma", [t, "bytes[5]", "uint8"])], [f]))
        for u in ARGS:
            ctx.ob("args", t + "," + u, lambda t=t, u=u: check(ctx, [f := F("ma", [t, u])], [f]))
            if ctx.thorough:
                for v in ARGS:
                    ctx.ob("args", "%s,%s,%s" % (t, u, v), lambda t=t, u=u, v=v: check(ctx, [f := F("ma", [t, u, v])], [f]))
    for n in range(0, 16):
        ctx.ob("args", "%d" % n, lambda n=n: check(ctx, [f := F("ma", [ARGS[i % len(ARGS)] for i in range(n)])], [f]))
    # two routes with arguments of the same position and different types
    for t, u in itertools.permutations(["int", "bytes", "bytes[9]", "uint8", "uint64", "Item"], 2):
        ctx.ob("args", "two routes %s/%s" % (t, u), lambda t=t, u=u: check(ctx, fs := [F("ma", [t, u]), F("mb", [u])], fs))
    for n in range(1, 4):
        for rs in itertools.product(RETS if n < 2 or ctx.thorough and n < 3 else ["int", "bytes", "bytes[9]"], repeat=n):
            ctx.ob("return", ",".join(rs), lambda rs=rs: check(ctx, [f := F("ma", [], rs)], [f]))
    for rs in (["int"] * 4, ["bytes"] * 5, ["int", "bytes", "int", "bytes", "Item", "int"], ["bytes", "int"] * 4, ["int"] * 8):
        ctx.ob("return", ",".join(rs), lambda rs=rs: check(ctx, [f := F("ma", [], rs)], [f]))
        ctx.ob("return", ",".join(rs) + " args", lambda rs=rs: check(ctx, [f := F("ma", ["int", "bytes"], rs)], [f]))
    for oc in list(OC) + ["CreateApplication"]:
        for dec in (None, ["@public(OnCompletion=%s)" % oc], ["@public( OnCompletion=%s )" % oc], ["@public(OnCompletion = %s)" % oc]):
            f = F("ma", ["int"], [], oc, dec)
            ctx.ob("on-completion", "%s %s" % (oc, dec), lambda f=f: check(ctx, [f], [f]))
        for oc2 in list(OC) + ["CreateApplication"]:
            ctx.ob("on-completion", "%s/%s" % (oc, oc2), lambda oc=oc, oc2=oc2: check(ctx, fs := [F("ma", ["int"], [], oc), F("mb", [], ["int"], oc2)], fs))
            ctx.ob("on-completion", "%s/%s reversed" % (oc, oc2), lambda oc=oc, oc2=oc2: check(ctx, (fs := [F("ma", ["int"], [], oc), F("mb", [], ["int"], oc2)])[::-1], fs))
    ocs = list(OC) + ["CreateApplication"]
    for n in (1, 2, 3, 5, 8, 16, 40):
        def many(n=n, rev=False):
            fs = [F("m%d" % i, [ARGS[(i + j) % len(ARGS)] for j in range(i % 4)], [RETS[(i + j) % len(RETS)] for j in range(i % 3)], ocs[i % 7]) for i in range(n)]
            return check(ctx, fs[::-1] if rev else fs, fs)
        ctx.ob("routes", "%d" % n, many)
        ctx.ob("routes", "%d reversed" % n, lambda many=many: many(rev=True))
    names = ["a", "aa", "a_b", "A", "Abc", "router", "route", "route_a", "main", "x1", "_x", "match", "err", "public", "swap", "NoOp", "func1", "end1", "l0_end", "if_", "assert_"]
    for nm in names:
        ctx.ob("routes", "name " + nm, lambda nm=nm: check(ctx, fs := [F(nm, ["int"]), F("zz", ["bytes"])], fs))
    for a, b in itertools.permutations(["a", "aa", "a_a", "route_a"], 2):
        ctx.ob("routes", "names %s %s" % (a, b), lambda a=a, b=b: check(ctx, fs := [F(a, ["int"]), F(b, ["bytes"])], fs))
    pub = lambda n, *a, **k: F(n, *a, **k)
    ctx.ob("routes", "private function between", lambda: check(ctx, [(fs := [F("ma", ["int"]), F("priv", ["bytes"], ["int"], public=False), F("mb", ["bytes"])])[0], fs[2]], fs))
    ctx.ob("routes", "public function not routed", lambda: check(ctx, [(fs := [F("ma", ["int"]), F("other", ["bytes"], ["int"]), F("mb", ["bytes"])])[2]], fs))
    ctx.ob("routes", "other decorator", lambda: check(ctx, fs := [F("ma", ["int"], dec=["@other()", "@public()"]), F("mb", dec=["@public()", "@abc(X=Y)"])], fs))
    ctx.ob("routes", "comment between decorator and function", lambda: check(ctx, fs := [F("ma", ["int"], oc="OptIn", dec=["@public(OnCompletion=OptIn)", "# comment", ""]), F("mb", dec=["@public()", "# func x():", "# @public(OnCompletion=OptIn)"])], fs))
    ctx.ob("routes", "comments and blanks", lambda: check(ctx, fs := [F("ma", ["int"]), F("mb")], fs, extra=["", "# a comment", ""]))
    ctx.ob("routes", "also called", lambda: check(ctx, fs := [F("ma", ["int"], ["int"]), F("mb", ["bytes"])], fs, pre=["assert(ma({q}))", "mb({s})"], preref=["%E {q}", "callsub F_ma", "assert", "%E {s}", "callsub F_mb"], types={"q": "int", "s": "bytes"}))
    ctx.ob("position", "after if", lambda: check(ctx, fs := [F("ma", ["int"]), F("mb")], fs, pre=["if {c}:", "    exit({x})", "end"], preref=["%E {c}", "bz L", "%E {x}", "return", "L:"], types={"c": "int", "x": "int"}))
    ctx.ob("position", "after while", lambda: check(ctx, fs := [F("ma", ["int"]), F("mb")], fs, pre=["while {c}:", "    assert({x})", "end"], preref=["W:", "%E {c}", "bz L", "%E {x}", "assert", "b W", "L:"], types={"c": "int", "x": "int"}))
    ctx.ob("position", "variables", lambda: check(ctx, fs := [F("ma", ["int", "bytes"]), F("mb", ["int"])], fs, pre=["int v = {x}", "bytes w = {y}", "assert(v)", "log(w)"], preref=["%E {x}", "store $v", "%E {y}", "store $w", "load $v", "assert", "load $w", "log"], types={"x": "int", "y": "bytes"}))
    for where in ("in", "out"):
        ctx.ob("position", "block " + where, lambda where=where: check(ctx, fs := [F("ma", ["int"], ["bytes"]), F("mb")], fs, block=where))
        ctx.ob("position", "block and statements " + where, lambda where=where: check(ctx, fs := [F("ma", ["uint8"], ["int", "bytes"], "OptIn"), F("mb")], fs, block=where, pre=["assert({x})"], preref=["%E {x}", "assert"], types={"x": "int"}))
    one = ["func mp():", "    return", "end"]
    for n, src in {"missing": ["router:", "    ma", "    zz", "end", "@public()", "func ma():", "    return", "end"], "private": ["router:", "    mp", "end"] + one, "other decorator": ["router:", "    mp", "end", "@private()"] + one,
                   "only function": ["router:", "    zz", "end"], "two names": ["router:", "    mp mp", "end", "@public()"] + one, "arguments": ["router:", "    mp()", "end", "@public()"] + one, "trailing": ["router: x", "    mp", "end", "@public()"] + one,
                   "twice": ["router:", "    mp", "    mp", "end", "@public()"] + one, "block name": ["router:", "    bb", "end", "block bb:", "    exit(1)", "end"], "builtin": ["router:", "    log", "end"], "unclosed": ["router:", "    mp"], "unclosed empty": ["router:"],
                   "inner function": ["router:", "    mp", "end", "block bb:", "    exit(1)", "    @public()"] + ["    " + l for l in one] + ["end"]}.items():
        ctx.ob("reject", n, lambda src=src: rejected(ctx, src))
    for d in ("@public(OnCompletion=Pay)", "@public(OnCompletion=Foo)", "@public(OnCompletion=)", "@public(OnCompletion)", "@public(OptIn)", "@public(onCompletion=OptIn)", "@public(OnCompletion=OptIn, X=Y)", "@public(X=Y)", "@public(OnCompletion=1)", '@public(OnCompletion="OptIn")', "@public(OnCompletion=OptIn OptIn)",
              "@public(OnCompletion==OptIn)", "@public(OnCompletion=optin)", "@public(OnCompletion=NoOp=OptIn)", "@public(OnCompletion=Appl)", "@public", "@public()x", "@Public()", "@ public()", "@public(OnCompletion=OptIn", "@public(OnCompletion=NoOp,OnCompletion=OptIn)"):
        ctx.ob("reject", d, lambda d=d: rejected(ctx, ["router:", "    mp", "end", d] + one))
    for ds in (["@public()", "@public(OnCompletion=OptIn)"], ["@public(OnCompletion=OptIn)", "@public()"]):
        ctx.ob("reject", "".join(ds), lambda ds=ds: rejected(ctx, ["router:", "    mp", "end"] + ds + one))
    for s in ("assert({x})", "end", "struct A:", "block b:", "const int K = 1", "int v"):
        ctx.ob("reject", "decorated " + s, lambda s=s: rejected(ctx, ["router:", "    mp", "end", "@public()", s] + one, {"x": "int"}))
    ctx.ob("reject", "decorator at the end", lambda: rejected(ctx, ["router:", "    mp", "end"] + one + ["@public()"]))
    ctx.ob("reject", "decorator at the end, blank", lambda: rejected(ctx, ["router:", "    mp", "end"] + one + ["@public()", "", "# c"]))
    ctx.assumptions += ["arguments of boxes and more than 15 arguments are not specified; the encoding of uint8 results is not documented"]
