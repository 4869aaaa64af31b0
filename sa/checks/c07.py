"""Type checking.  Every place a typed value can be put - declarations, assignments of one or
several values, constants, arguments and results of functions, fields of structs and boxes, keys of
boxes, operands of opcodes and operators, arguments of the standard library, assertions - accepts a
value exactly when it fits the declared type, at every nesting, and rejects the program otherwise."""
import json
import os

from .common import *
from ..families import line
from ..teal import OPS
from .. import lang as L
from .. import avm
from .types_rel import *

FLOOR = 400
EX = ("exit", ("i", 1))
GOODBAD = [("int", "int"), ("int", "any"), ("int", "uint8"), ("int", "bytes"), ("int", "bytes[8]"), ("int", "uint<9>"), ("uint8", "uint8"), ("uint8", "int"), ("uint8", "any"), ("uint8", "uint<2>"), ("uint8", "bytes[1]"),
           ("bytes", "bytes"), ("bytes", "any"), ("bytes", "bytes[5]"), ("bytes", "int"), ("bytes", "Item"), ("bytes", "uint8"), ("bytes[9]", "bytes[9]"), ("bytes[9]", "bytes[8]"), ("bytes[9]", "bytes[10]"), ("bytes[9]", "bytes"),
           ("bytes[9]", "any"), ("bytes[9]", "Other"), ("bytes[9]", "int"), ("addr", "addr"), ("addr", "bytes[32]"), ("addr", "bytes"), ("addr", "any"), ("addr", "bytes[31]"), ("Item", "Item"), ("Item", "bytes[52]"), ("Item", "bytes[51]"),
           ("Item", "bytes"), ("Item", "any"), ("Item", "Other"), ("Item", "int"), ("uint8[4]", "uint8[4]"), ("uint8[4]", "bytes[4]"), ("uint8[4]", "uint8[3]"), ("uint8[4]", "bytes"), ("bigint", "bigint"), ("bigint", "int"),
           ("box<Item>", "box<Item>"), ("box<Item>", "box<Other>"), ("box<Item>", "Item"), ("box<Item>", "bytes"), ("box<Item>", "any"), ("Item", "box<Item>"), ("bytes[52]", "box<Item>"), ("bytes", "box<Item>"),
           ("int", "list:"), ("bytes", "list:"), ("int", "list:int"), ("int", "list:int,int"), ("bytes", "list:bytes,bytes"), ("bytes", "none")]


def fn(name, args, rets, body):
    return ("func", name, args, rets, body)


def declarable(U):
    """may U be written as the return type of a function?"""
    return not (U == "any" or U == "none" or U[:4] in ("list", "uint", "box<") and "uint8" not in U)


def var(v, T):
    """a declared variable of type T without touching its value"""
    if T.startswith("box<"):
        return line("%s %s = Box({key})" % (T, v), ["%E {key}", "store $" + v])
    return line("%s %s" % (T, v), [])


def useof(v, T):
    return line("assert(%s)" % v, ["load $" + v, "assert"]) if kind(T)[0] == "int" else line("log(%s)" % v, ["load $" + v, "log"])


def fieldpos(T, box):
    """storing into a field of type T at offset 8 of a struct"""
    n = kind(T)[1]
    conv = []
    if kind(T)[0] == "int":
        conv = ["itob"] + (["extract 7 1"] if n == 1 else [])
    pre = ["struct Holder:", "    h1: int", "    h2: %s" % T, "    h3: bytes[2]", "end"]
    if box:
        return pre, [line("box<Holder> hv = Box({key})", ["%E {key}", "store $hv"]), line("hv.h2 = {x}", ["%E {x}"] + conv + ["store $t_", "load $hv", "pushint 8", "load $t_", "box_replace"])]
    return pre, [line("Holder hv = {hold}", ["%E {hold}", "store $hv"]), line("hv.h2 = {x}", ["%E {x}"] + conv + ["store $t_", "load $hv", "pushint 8", "load $t_", "replace3", "store $hv"])]


def positions(T):
    """name -> (pre lines, body, funcs)"""
    P = {}
    v = var("v", T)
    sized = kind(T)[0] in ("int",) or isinstance(kind(T)[1], int)
    if not T.startswith("box<"):
        P["decl"] = ([], [line("%s v = {x}" % T, ["%E {x}", "store $v"])], [])
        P["field"] = fieldpos(T, False) + ([],) if sized else None
        P["box-field"] = fieldpos(T, True) + ([],) if sized else None
    P["assign"] = ([], [v, line("v = {x}", ["%E {x}", "store $v"])], [])
    for nm, rets, vals, names, st in (("1st", ["@", "int"], [H("x"), ("i", 7)], "v, w", ["store $v", "store $w"]), ("2nd", ["int", "@"], [("i", 7), H("x")], "w, v", ["store $w", "store $v"]),
                                      ("3rd", ["int", "bytes", "@"], [("i", 7), H("key"), H("x")], "w, _, v", ["store $w", "pop", "store $v"])):
        P["assign-" + nm] = ([], [v, ("decl", "int", "w", None), line("%s = fm()" % names, ["callsub F_fm"] + st)], [fn("fm", [], rets, [("return", vals)])])
    P["arg"] = ([], [line("f({x})", ["%E {x}", "callsub F_f"])], [fn("f", [("p", T)], [], [useof("p", T), ("return", [])])])
    P["arg-2nd"] = ([], [line("f(1, {x}, 2)", ["pushint 1", "%E {x}", "pushint 2", "callsub F_f"])], [fn("f", [("o", "int"), ("p", T), ("q", "int")], [], [useof("p", T), ("return", [])])])
    P["arg-last"] = ([], [line("f(1, 2, {x})", ["pushint 1", "pushint 2", "%E {x}", "callsub F_f"])], [fn("f", [("o", "int"), ("q", "int"), ("p", T)], [], [useof("p", T), ("return", [])])])
    if not T.startswith("box<"):
        P["return"] = ([], [("decl", T, "v", ("call", "f", []))], [fn("f", [], [T], [("return", [H("x")])])])
        P["return-early"] = ([], [("decl", T, "v", ("call", "f", []))], [fn("f", [], [T], [("if", [(False, H("c"), [("return", [H("x")])])], None), ("return", [H("good")])])])
        P["return-2nd"] = ([], [("decl", T, "v", None), ("decl", "int", "w", None), ("set", ["w", "v"], ("call", "f", []))], [fn("f", [], ["int", T], [("return", [("i", 5), H("x")])])])
        P["return-1st"] = ([], [("decl", T, "v", None), ("decl", "int", "w", None), ("set", ["v", "w"], ("call", "f", []))], [fn("f", [], [T, "int"], [("return", [H("x"), ("i", 5)])])])
        P["arg-of-arg"] = ([], [line("f(g({x}))", ["%E {x}", "callsub F_g", "callsub F_f"])], [fn("f", [("p", "int")], [], [("assert", ("v", "p")), ("return", [])]), fn("g", [("p", T)], ["int"], [useof("p", T), ("return", [("i", 3)])])])
    return {k: p for k, p in P.items() if p is not None}


H = lambda n: ("h", n)


def wrap(where, body):
    """the statements inside other constructs"""
    c = H("cw")
    return {"main": lambda: body,
            "if": lambda: [("if", [(False, c, body)], None)],
            "elif": lambda: [("if", [(False, c, [("assert", H("cx"))]), (False, H("cy"), body)], None)],
            "else": lambda: [("if", [(False, c, [("assert", H("cx"))])], body)],
            "while": lambda: [("while", False, c, body)],
            "for": lambda: [("for", "k", ("i", 0), ("i", 3), body)],
            "for_": lambda: [("for_", ("i", 0), ("i", 3), body)],
            "while-if-else": lambda: [("while", False, c, [("if", [(True, H("cz"), [("assert", H("cx"))])], body)])],
            "inner_group": lambda: [("group", body)]}[where]()


def run(ctx):
    ctx.rule("place", "a place of type T accepts a value of type U exactly when it fits")
    ctx.rule("nested", "... wherever the statement stands")
    ctx.rule("source", "... whatever kind of expression the value comes from")
    ctx.rule("op", "every opcode and operator checks the type of every operand")
    ctx.rule("stdlib", "standard library functions check number and types of their arguments")
    ctx.rule("key", "keys of boxes are bytes, assertions are ints")
    ctx.rule("const", "constants match their type")
    ctx.rule("arity", "calls have as many arguments, assignments as many names and returns as many values as declared")
    ctx.rule("single", "an expression of no value or of several values is rejected where one value is needed")
    for Tt, U in GOODBAD + ([(a, b) for a in TARGETS for b in VALUES if (a, b) not in GOODBAD] if ctx.thorough else []):
        want = fits(Tt, U)
        if want is None:
            continue
        for pn, (pre, body, funcs) in positions(Tt).items():
            if "list:" in U or U == "none":
                if U == "list:int" and pn != "decl":
                    continue
            if pn.startswith("assign-") and not declarable(U):
                continue
            ctx.ob("place", "%s %s<-%s" % (pn, Tt, U), lambda T=Tt, U=U, want=want, pre=pre, body=body, funcs=funcs: decide(ctx, pre, body, funcs, T, U, want))
    REP = [("int", "int"), ("int", "bytes"), ("bytes", "int"), ("bytes[9]", "bytes[9]"), ("bytes[9]", "bytes[8]"), ("bytes[9]", "any"), ("uint8", "int"), ("Item", "bytes"), ("Item", "Item")]
    for Tt, U in REP:
        for pn, (pre, body, funcs) in positions(Tt).items():
            if pn.startswith("assign-") and not declarable(U) or pn.startswith("return"):
                continue
            for w in ("if", "elif", "else", "while", "for", "while-if-else") + (("inner_group",) if not funcs else ()):
                ctx.ob("nested", "%s@%s %s<-%s" % (pn, w, Tt, U), lambda T=Tt, U=U, pre=pre, body=body, funcs=funcs, w=w: decide(ctx, pre, wrap(w, body), funcs, T, U, fits(T, U)))
            if not funcs:
                def infunc(T=Tt, U=U, pre=pre, body=body, w="main"):
                    return decide(ctx, pre, [("call", "hf", [])], [fn("hf", [], [], body + [("return", [])])], T, U, fits(T, U))
                ctx.ob("nested", "%s@func %s<-%s" % (pn, Tt, U), infunc)

            def inblock(T=Tt, U=U, pre=pre, body=body, funcs=funcs):
                return decide(ctx, pre, None, funcs, T, U, fits(T, U), [("jump", "bb"), ("block", "bb", body + [EX])])
            ctx.ob("nested", "%s@block %s<-%s" % (pn, Tt, U), inblock)
        for w in ("if", "elif", "else", "while", "for", "while-if-else"):
            def ret(T=Tt, U=U, w=w):
                return decide(ctx, [], [("decl", T, "v", ("call", "f", []))], [fn("f", [], [T], wrap(w, [("return", [H("x")])]) + [("return", [H("good")])])], T, U, fits(T, U))
            ctx.ob("nested", "return@%s %s<-%s" % (w, Tt, U), ret)
    sources(ctx)
    ops(ctx)
    stdlib(ctx)
    keys(ctx)
    consts(ctx)
    arity(ctx)
    single(ctx)
    ctx.assumptions += ["conditions, loop bounds, exit values and fields of inner transactions have no documented type and are not required to be type checked"]


def decide(ctx, pre, body, funcs, T, U, want, whole=None):
    types = {"x": U, "x2": "list:any,any", "x3": "list:any,any,any", "key": "bytes", "hold": "bytes[%d]" % (10 + (kind(T)[1] if isinstance(kind(T)[1], int) else 0)), "good": T, "cw": "int", "cx": "int", "cy": "int", "cz": "int", "c": "int"}
    prog_ = (whole + funcs) if whole is not None else body + [EX] + funcs
    src, rf = L.program(prog_)
    src = DEFS + list(pre) + [l.replace("@", U) if l.startswith("func ") else l for l in src]
    if want:
        return equiv(ctx, src, rf, types)
    return rejected(ctx, src, types)


def sources(ctx):
    """values out of every kind of expression, put into an int and a bytes[9] place"""
    decls = [line("int va = {i}", ["%E {i}", "store $va"]), line("uint8 vu = {u}", ["%E {u}", "store $vu"]), line("bytes vb = {b}", ["%E {b}", "store $vb"]), line("bytes[9] v9 = {n9}", ["%E {n9}", "store $v9"]),
             line("Item vi = {it}", ["%E {it}", "store $vi"]), line("Other vo = {oo}", ["%E {oo}", "store $vo"])]
    ty = {"i": "int", "u": "uint8", "b": "bytes", "n9": "bytes[9]", "it": "Item", "oo": "Other", "p": "any", "q": "any", "xx": "any"}
    fs = [fn("gi", [], ["int"], [("return", [H("i")])]), fn("gb", [], ["bytes[9]"], [("return", [H("n9")])]), fn("g2", [], ["bytes[9]", "int"], [("return", [H("n9"), H("i")])])]
    E_ = {"va": ("int", ["load $va"]), "vu": ("uint8", ["load $vu"]), "vb": ("bytes", ["load $vb"]), "v9": ("bytes[9]", ["load $v9"]), "vi": ("Item", ["load $vi"]), "vo": ("Other", ["load $vo"]),
          "vi.bb": ("bytes[32]", ["load $vi", "extract 8 32"]), "vi.cc": ("uint8", ["load $vi", "extract 40 1", "btoi"]), "vi.dd": ("bytes[3]", ["load $vi", "extract 41 3"]), "gi()": ("int", ["callsub F_gi"]), "gb()": ("bytes[9]", ["callsub F_gb"]),
          "{p} + {q}": ("int", ["%E {p}", "%E {q}", "+"]), "sha256({p})": ("bytes", ["%E {p}", "sha256"]), "app_global_get({p})": ("any", ["%E {p}", "app_global_get"]), "Txn.Sender": ("bytes[32]", ["txn Sender"]), "Txn.Fee": ("int", ["txn Fee"]),
          "bzero(9)": ("bytes[9]", ["pushint 9", "bzero"]), "bzero(8)": ("bytes[8]", ["pushint 8", "bzero"]), "SizeOf(Other)": ("int", ["pushint 9"]), "256": ("uint<2>", ["pushint 256"]), "255": ("uint8", ["pushint 255"]),
          '"123456789"': ("bytes[9]", ['pushbytes "123456789"']), '"12345678"': ("bytes[8]", ['pushbytes "12345678"']), "g2()": ("list:bytes,int", ["callsub F_g2"])}
    for e, (U, ref) in E_.items():
        for Tt in ("int", "uint8", "bytes", "bytes[9]", "bytes[32]", "Item", "Other"):
            for pn in ("assign", "arg-2nd", "return", "field", "box-field"):
                pp = positions(Tt).get(pn)
                want = fits(Tt, U)
                if pp is None or want is None:
                    continue

                def f(e=e, U=U, ref=ref, T=Tt, pn=pn, pp=pp, want=want):
                    pre, body, funcs = pp

                    def sub(b):
                        if isinstance(b, tuple) and b[:1] == ("line",):
                            out = []
                            for l in b[2]:
                                out += ref if l == "%E {x}" else [l]
                            return ("line", [l.replace("{x}", e) for l in b[1]], out)
                        if b == ("h", "x"):
                            return ("raw", e, ref)
                        if isinstance(b, tuple):
                            return tuple(sub(y) for y in b)
                        if isinstance(b, list):
                            return [sub(y) for y in b]
                        return b
                    body, funcs = sub(body), sub(funcs)
                    if pn == "return":
                        funcs = [fn("f", [], [T], decls + [funcs[0][4][0]])] + funcs[1:]
                        b = body
                    else:
                        b = decls + body
                    src, rf = L.program(b + [EX] + funcs + fs)
                    src = DEFS + list(pre) + src
                    t = dict(ty, key="bytes", hold="bytes[%d]" % (10 + (kind(T)[1] or 0)))
                    return equiv(ctx, src, rf, t) if want else rejected(ctx, src, t)
                ctx.ob("source", "%s %s<-%s" % (pn, Tt, e), f)


def ops(ctx):
    from ..exprs import BINARY, UNARY
    T_ = {"U": "int", "B": "bytes", ".": "any"}
    wrong = {"U": ["bytes", "bytes[8]", "Item", "list:int,int", "list:"], "B": ["int", "uint8", "list:bytes,bytes", "list:"], ".": ["list:int,int", "list:"]}
    right = {"U": ["any", "int", "uint8"], "B": ["any", "bytes", "bytes[5]", "Item"], ".": ["any", "int", "bytes"]}
    for o in list(BINARY) + list(UNARY):
        a = OPS[o]["Args"]
        for i, c in enumerate(a):
            for t in wrong[c] + right[c]:
                def f(o=o, a=a, i=i, c=c, t=t):
                    ty = {"x%d" % j: T_[d] for j, d in enumerate(a)}
                    ty["x%d" % i] = t
                    e = "%s{x0}" % o if len(a) == 1 else "{x0} %s {x1}" % o
                    r = OPS[o]["Returns"]
                    src = DEFS + ["log(%s)" % e if r == "B" else "assert(%s)" % e, "exit(1)"]
                    if t in wrong[c]:
                        return rejected(ctx, src, ty)
                    return equiv(ctx, src, ["%%E {x%d}" % j for j in range(len(a))] + [o, "log" if r == "B" else "assert", "pushint 1", "return"], ty)
                ctx.ob("op", "%s operand %d %s" % (o, i, t), f)
    skip = {"return", "err", "b", "bz", "bnz", "callsub", "retsub", "bzero", "pop", "push", "switch", "match", "intcblock", "bytecblock", "pushints", "pushbytess", "proto", "dupn", "popn", "bury", "dig", "cover", "uncover",
            "frame_dig", "frame_bury", "dup", "dup2", "swap", "select"}
    for o, d in OPS.items():
        a = d.get("Args", "")
        if o in BINARY or o in UNARY or o in skip or not a or not o.replace("_", "").isalnum() or not o[0].isalpha():
            continue
        n = d["Size"] - 1
        if d["Size"] == 0 or n > 2:
            continue
        imm = [avm.fields(o)[0] if k == avm.FIELD else "1" for k in avm.IMM.get(o, [])]
        if avm.LABEL in avm.IMM.get(o, []):
            continue
        rets = d.get("Returns", "")
        for i, c in enumerate(a):
            for t in [wrong[c][0], wrong[c][-1]] + [right[c][1]]:
                def f(o=o, a=a, i=i, c=c, t=t, imm=imm, rets=rets):
                    ty = {"x%d" % j: T_[k] for j, k in enumerate(a)}
                    ty["x%d" % i] = t
                    e = "%s(%s)" % (o, ", ".join(list(imm) + ["{x%d}" % j for j in range(len(a))]))
                    if len(rets) == 0:
                        st = e
                    else:
                        st = ", ".join("_" for r in rets) + " = " + e
                    src = DEFS + [st, "exit(1)"]
                    if t in wrong[c]:
                        return rejected(ctx, src, ty)
                    ok, rej = compile_all(ctx, src, ty)
                    if rej:
                        raise Violation("a correctly typed call of %s is rejected: %s" % (o, exc_text(rej[0])), where_of(rej[0]), src_text(src), sub="rejected")
                    return "accepted"
                ctx.ob("op", "%s arg %d %s" % (o, i, t), f)


STD = {
    # name -> (well-typed argument templates, [(bad arguments)])
    "Cast-int": ("Cast({i}, uint8)", ["Cast({b}, uint8)", "Cast({l}, uint8)", "Cast({v}, uint8)", "Cast({i})", "Cast({i}, uint8, uint8)", "Cast()", "Cast({i}, bytes)", "Cast({i}, 8)", "Cast({i}, Undefined)", "Cast({i}, {i2})", 'Cast({i}, "int")']),
    "Cast-bytes": ("Cast({b}, bytes[9])", ["Cast({i}, bytes[9])", "Cast({b}, int)", "Cast({b}, uint8)", "Cast({l}, bytes[9])", "Cast({i}, Item)", "Cast({b}, bytes[9], 1)"]),
    "Convert": ("Convert({i}, bytes)", ["Convert({b}, bytes)", "Convert({i}, int)", "Convert({i})", "Convert({i}, bytes, 8)", "Convert({l}, bytes)", "Convert({i}, 8)", "Convert({v}, bytes)"]),
    "ToBytes": ("ToBytes({i}, 4)", ["ToBytes({b}, 4)", "ToBytes({i})", "ToBytes({i}, 4, 4)", "ToBytes({i}, {i2})", 'ToBytes({i}, "4")', "ToBytes({l}, 4)", "ToBytes({i}, int)", "ToBytes({v}, 4)"]),
    "FromBytes": ("FromBytes({b}, int)", ["FromBytes({i}, int)", "FromBytes({b})", "FromBytes({b}, int, int)", "FromBytes({b}, 8)", "FromBytes({l}, int)", "FromBytes({v}, int)"]),
    "Concat": ("Concat({b}, {b2})", ["Concat({b}, {i})", "Concat({i}, {b})", "Concat({i})", "Concat()", "Concat({b}, {l})", "Concat({b}, {b2}, 3)", "Concat({v}, {b})"]),
    "Rpad": ("Rpad({b}, 9)", ["Rpad({i}, 9)", "Rpad({b})", "Rpad({b}, 9, 9)", "Rpad({b}, {i})", 'Rpad({b}, "9")', "Rpad({l}, 9)", "Rpad(9, {b})", "Rpad({v}, 9)"]),
    "Lpad": ("Lpad({b}, 9)", ["Lpad({i}, 9)", "Lpad({b})", "Lpad({b}, 9, 9)", "Lpad({b}, {i})", 'Lpad({b}, "9")', "Lpad({l}, 9)", "Lpad(9, {b})", "Lpad({v}, 9)"]),
    "SizeOf": ("SizeOf(Item)", ["SizeOf({i})", "SizeOf()", "SizeOf(Item, Other)", "SizeOf(Undefined)", "SizeOf(5)", 'SizeOf("Item")']),
    "bzero": ("bzero({i})", ["bzero({b})", "bzero()", "bzero({i}, {i2})", "bzero({l})", 'bzero("a")']),
    "EnsureType": ("EnsureType({b}, bytes[9])", ["EnsureType({b})", "EnsureType()", "EnsureType({b}, bytes[9], bytes[9])", "EnsureType({l}, bytes[9])", "EnsureType({b}, 9)", "EnsureType({b}, Undefined)", "EnsureType({v}, int)"]),
    "UncheckedCast": ("UncheckedCast({b}, bytes[9])", ["UncheckedCast({b})", "UncheckedCast()", "UncheckedCast({b}, 9)", "UncheckedCast({b}, Undefined)", "UncheckedCast({l}, int)", "UncheckedCast({b}, int, int)", "UncheckedCast({v}, int)", "UncheckedCast({l}, int, int, int)"]),
    "ARC28Event": ('ARC28Event("e(uint64)", {b})', ['ARC28Event("e(uint64)", {i})', "ARC28Event({b}, {b2})", "ARC28Event()", 'ARC28Event("e()", {l})', "ARC28Event(5)", 'ARC28Event("e()", {b}, 7)', 'ARC28Event("e()", {v})']),
    "Address": ('Address("RIKLQ5HEVXAOAWYSW2LGQFYGWVO4J6LIAQQ72ZRULHZ4KS5NRPCCKYPCUU")', ["Address({b})", "Address()", 'Address("A", "B")', "Address(5)", "Address({i})"]),
    "Error": ("Error()", ["Error({i})", 'Error("a")']),
    "pop": ("pop()", ["pop({i})", "pop(1)"]),
    "unknown": ("SizeOf(Item)", ["Foo({i})", "sizeOf(Item)", "Sizeof(Item)", "SIZEOF(Item)", "toBytes({i}, 8)", "unknown_op({i})", "undefined()"]),
}


def stdlib(ctx):
    ty = {"i": "int", "i2": "int", "b": "bytes", "b2": "bytes[4]", "l": "list:int,int", "v": "list:"}
    for n, (good, bads) in STD.items():
        def g(good=good):
            src = DEFS + ["Error()" if good == "Error()" else "_ = " + good, "exit(1)"]
            ok, rej = compile_all(ctx, src, ty)
            if rej:
                raise Violation("a correct call `%s` is rejected: %s" % (good, exc_text(rej[0])), where_of(rej[0]), src_text(src), sub="rejected")
            return "accepted"
        ctx.ob("stdlib", n + " good", g)
        for b in bads:
            for form in ("_ = %s", "assert(%s)", "log(concat({b2}, %s))", "bytes[9] v9 = %s", "%s"):
                ctx.ob("stdlib", form % b, lambda b=b, form=form: rejected(ctx, DEFS + [form % b, "exit(1)"], ty))


def keys(ctx):
    for how in ("", "Open", "Create"):
        for t in ("int", "uint8", "list:", "list:bytes,bytes"):
            ctx.ob("key", "%sBox key %s" % (how, t), lambda how=how, t=t: rejected(ctx, DEFS + ["box<Item> v = %sBox({x})" % how, "exit(1)"], {"x": t}))
        for t in ("bytes", "any", "bytes[3]", "Item", "addr"):
            ctx.ob("key", "%sBox key %s" % (how, t), lambda how=how, t=t: equiv(ctx, DEFS + ["box<Item> v = %sBox({x})" % how, "exit(1)"],
                   ["%E {x}"] + {"": [], "Open": ["dup", "box_len", "assert", "pushint 52", "==", "assert"], "Create": ["dup", "pushint 52", "box_create", "assert"]}[how] + ["store $v", "pushint 1", "return"], {"x": t}))
    for t in ("bytes", "bytes[8]", "Item", "addr", "list:", "list:int,int", "none", "bigint"):
        ctx.ob("key", "assert " + t, lambda t=t: rejected(ctx, DEFS + ["assert({x})", "exit(1)"], {"x": t}))
        ctx.ob("key", "assert-msg " + t, lambda t=t: rejected(ctx, DEFS + ['assert({x}, "no")', "exit(1)"], {"x": t}))
    for t in ("int", "uint8", "any", "uint<3>"):
        ctx.ob("key", "assert " + t, lambda t=t: equiv(ctx, DEFS + ["assert({x})", "exit(1)"], ["%E {x}", "assert", "pushint 1", "return"], {"x": t}))


def consts(ctx):
    bad = ['const int K = "abc"', "const int K = 0x41", "const bytes K = 5", 'const int K = {x}', "const bytes K = abc", "const int K = 1 + 2", 'const bytes K = "a" b', "const int K = K2", "const uint8 K = 3", "const Item K = 3", "const bool K = 1",
           "const int K = -1", "const int K = 1.5", "const int K = 18446744073709551616", "const int K =", "const int K", "const bytes[3] K = \"abc\"", 'const bytes K = "abc', "const bytes K = 0x", "const bytes K = 0xabc", "const bytes K = 0xzz",
           'const addr K = "abc"', "const bigint K = 5"]
    for b in bad:
        ctx.ob("const", b, lambda b=b: rejected(ctx, DEFS + [b, "exit(1)"]))
        ctx.ob("const", "nested " + b, lambda b=b: rejected(ctx, DEFS + ["jump bb", "block bb:", "    " + b, "    exit(1)", "end"]))
    for g, u in {"const int K = 5": ["pushint 5"], 'const bytes K = "ab c"': ['pushbytes "ab c"'], "const bytes K = 0x00ff": ["pushbytes 0x00ff"], "const int K = 18446744073709551615": ["pushint 18446744073709551615"]}.items():
        w = "log" if "bytes" in g else "assert"
        ctx.ob("const", "ok " + g, lambda g=g, u=u, w=w: equiv(ctx, DEFS + [g, "%s(K)" % w, "exit(1)"], u + [w, "pushint 1", "return"]))


def arity(ctx):
    F = ["func f0():", "    return", "end", "func f1(a: int):", "    return", "end", "func f2(a: int, b: bytes) int:", "    return a", "end", "func g2() int, int:", "    return {r1}, {r2}", "end", "func g3() int, int, int:", "    return {r1}, {r2}, {r3}", "end"]
    bad = ["f0({x})", "f1()", "f1({x}, {x})", "_ = f2({x})", "_ = f2({x}, {b}, {x})", "_ = f2({b}, {x})", "_ = f2()", "undefined()", "int v = g2()", "int v = f0()", "int v = log({b})", "_ = f0()", "_ = g2()", "a, b, c = g2()", "_, _, _ = g2()", "_, _ = g3()",
           "_, _ = f2({x}, {b})", "f2({x}, {b})", "g2()", "g3()", "sqrt({x})", "{x} + {x}" if False else "len({b})", "concat({b}, {b})", "_ = sqrt()", "_ = sqrt({x}, {x})", "_ = concat({b})", "_ = concat({b}, {b}, {b})", "log()", "log({b}, {b})", "app_global_put({b})",
           "app_global_put({b}, {x}, {x})", "_ = extract(1, {b})", "_ = extract({b})", "_ = extract(1, 2, {b}, {b})", "_, _ = box_get()", "_ = box_get({b})", "_, _, _ = box_get({b})", "box_get({b})", "pop()", "Concat({b}, {b})", "SizeOf(Item)"]
    ty = {"x": "int", "b": "bytes", "r1": "int", "r2": "int", "r3": "int"}
    for b in bad:
        D = ["int a", "int c", "int b"] if "a, b, c" in b else []
        ctx.ob("arity", b, lambda b=b, D=D: rejected(ctx, DEFS + D + [b, "exit(1)"] + F, ty))
        ctx.ob("arity", "nested " + b, lambda b=b, D=D: rejected(ctx, DEFS + D + ["while {x}:", "    if {x}:", "        assert({x})", "    else:", "        " + b, "    end", "end", "exit(1)"] + F, ty))
    for n, fl in {"missing": ["func h() int:", "    return", "end"], "extra": ["func h():", "    return {x}", "end"], "one-of-two": ["func h() int, int:", "    return {x}", "end"], "three-of-two": ["func h() int, int:", "    return {x}, {x}, {x}", "end"],
                  "two-of-one": ["func h() int:", "    return {x}, {x}", "end"], "call-of-two": ["func h() int, int:", "    return g2()", "end"], "void-call": ["func h() int:", "    return f0()", "end"],
                  "early-missing": ["func h() int:", "    if {x}:", "        return", "    end", "    return {x}", "end"], "early-extra": ["func h() int:", "    if {x}:", "        return {x}, {x}", "    end", "    return {x}", "end"]}.items():
        ctx.ob("arity", "return " + n, lambda fl=fl: rejected(ctx, DEFS + ["exit(1)"] + fl + F, ty))


def single(ctx):
    """log() has no value, box_get() has two"""
    F = ["func f0():", "    return", "end", "func g2() int, int:", "    return {r1}, {r2}", "end", "func hf(a: int) int:", "    return a", "end"]
    B = ["block b1:", "    exit(1)", "end"]
    for e in ("log({b})", "box_get({b})", "f0()", "g2()", "push({x})" , "Error()"):
        P = {"assert": ["assert(%s)" % e], "exit": ["if {x}:", "    exit(%s)" % e, "end"], "if": ["if %s:" % e, "    assert({x})", "end"], "if-not": ["if not %s:" % e, "    assert({x})", "end"], "elif": ["if {x}:", "    assert({x})", "elif %s:" % e, "    assert({x})", "end"],
             "while": ["while %s:" % e, "    assert({x})", "end"], "left": ["assert(%s == {x})" % e], "right": ["assert({x} == %s)" % e], "plus": ["assert({x} + %s)" % e], "unary": ["assert(!%s)" % e], "group": ["assert(({x} == %s))" % e], "declare": ["int v = %s" % e],
             "declare-bytes": ["bytes v = %s" % e], "discard": ["_ = %s" % e], "assign": ["int v", "v = %s" % e], "op-any": ["app_global_put({b}, %s)" % e], "op-int": ["_ = sqrt(%s)" % e], "op-bytes": ["_ = sha256(%s)" % e], "op-1": ["_ = concat(%s, {b})" % e], "call": ["_ = hf(%s)" % e],
             "index": ["log(Txn.ApplicationArgs[%s])" % e], "gtxn": ["log(Gtxn[%s].Note)" % e], "gtxn-array": ["log(Gtxn[%s].ApplicationArgs[0])" % e], "gtxn-array-2": ["log(Gtxn[{x}].ApplicationArgs[%s])" % e], "itxn": ["log(Itxn.Logs[%s])" % e],
             "inner": ["inner_txn:", "    TypeEnum: Pay", "    Note: %s" % e, "end"], "inner-array": ["inner_txn:", "    TypeEnum: Appl", "    ApplicationArgs[0]: %s" % e, "end"], "concat": ["log(Concat({b}, %s))" % e], "cast": ["_ = Cast(%s, bytes[3])" % e],
             "uncheckedcast": ["_ = UncheckedCast(%s, int)" % e], "ensure": ["_ = EnsureType(%s, bytes[3])" % e], "frombytes": ["_ = FromBytes(%s, int)" % e], "tobytes": ["_ = ToBytes(%s, 8)" % e], "rpad": ["_ = Rpad(%s, 8)" % e], "key": ["box<Item> v = Box(%s)" % e],
             "field": ["Item v", "v.aa = %s" % e]}
        for n, s in P.items():
            ctx.ob("single", "%s %s" % (n, e), lambda s=s: rejected(ctx, DEFS + s + ["exit(1)"] + F, {"x": "int", "b": "bytes", "r1": "int", "r2": "int"}))
        ctx.ob("single", "switch " + e, lambda e=e: rejected(ctx, DEFS + ["switch %s:" % e, "    {x}: b1", "end"] + B + F, {"x": "int", "b": "bytes", "r1": "int", "r2": "int"}))
        ctx.ob("single", "option " + e, lambda e=e: rejected(ctx, DEFS + ["switch {x}:", "    1: b1", "    %s: b1" % e, "end"] + B + F, {"x": "int", "b": "bytes", "r1": "int", "r2": "int"}))
        ctx.ob("single", "return " + e, lambda e=e: rejected(ctx, DEFS + ["exit(1)", "func q() int:", "    return %s" % e, "end"] + F, {"x": "int", "b": "bytes", "r1": "int", "r2": "int"}))
