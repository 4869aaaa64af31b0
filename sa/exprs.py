"""Catalogue of Tealish expressions with their documented meaning (reference TEAL), and of
the syntactic positions an expression can occupy."""
from .lang import *
from .families import STRUCT, ITEM_T, itemdecl, boxdecl, field_get, H, line

BINARY = {
    # documented math/logic operators (docs/language.rst, avm_operators): operand type, result type
    **{o: ("int", "int") for o in ["+", "-", "*", "/", "%", "|", "&", "^", "&&", "||", "<", ">", "<=", ">="]},
    **{o: ("any", "int") for o in ["==", "!="]},
    **{o: ("bytes", "bytes") for o in ["b+", "b-", "b/", "b*", "b%", "b|", "b&", "b^"]},
    **{o: ("bytes", "int") for o in ["b==", "b!=", "b<", "b>", "b<=", "b>="]},
}
UNARY = {"!": ("int", "int"), "~": ("int", "int"), "b~": ("bytes", "bytes")}


class Ex:
    """src/ref: the expression and its documented evaluation; out: result type;
    value: usable where the grammar asks for a Value (operands)"""

    def __init__(self, src, ref, out="any", types=None, pre=(), decl=(), funcs=(), value=True):
        self.src, self.ref, self.out = src, list(ref), out
        self.types, self.pre, self.decl, self.funcs, self.value = dict(types or {}), list(pre), list(decl), list(funcs), value

    @property
    def raw(self):
        return ("raw", self.src, self.ref)


def h(n):
    return "%%E {%s}" % n


def expressions():
    X = {}
    for o, (t, r) in BINARY.items():
        X["bin " + o] = Ex("{a} %s {b}" % o, [h("a"), h("b"), o], r, {"a": t, "b": t}, value=False)
        X["group " + o] = Ex("({a} %s {b})" % o, [h("a"), h("b"), o], r, {"a": t, "b": t})
    for o, (t, r) in UNARY.items():
        X["un " + o] = Ex("%s{a}" % o, [h("a"), o], r, {"a": t})
    X["nest-left"] = Ex("({a} - {b}) / {c}", [h("a"), h("b"), "-", h("c"), "/"], "int", value=False)
    X["nest-right"] = Ex("{a} - ({b} / {c})", [h("a"), h("b"), h("c"), "/", "-"], "int", value=False)
    X["nest-both"] = Ex("(({a} - {b}) / ({c} % {d}))", [h("a"), h("b"), "-", h("c"), h("d"), "%", "/"], "int")
    X["nest-unary"] = Ex("!({a} - !{b})", [h("a"), h("b"), "!", "-", "!"], "int")
    X["int"] = Ex("{n:digits}", ["pushint {n:digits}"], "int")
    X["bytes"] = Ex('"{s:note}"', ['pushbytes "{s:note}"'], "bytes")
    X["bytes-words"] = Ex('"{s:note} two, (three) [4]: x = 5 and {s2:note}"', ['pushbytes "{s:note} two, (three) [4]: x = 5 and {s2:note}"'], "bytes")
    X["bytes-slashes"] = Ex('"http://{s:note} // {s2:note}"', ['pushbytes "http://{s:note} // {s2:note}"'], "bytes")
    X["bytes-hash"] = Ex('"{s:note} # {s2:note}"', ['pushbytes "{s:note} # {s2:note}"'], "bytes")
    X["var"] = Ex("va", ["load $va"], "int", decl=[("decl", "int", "va", H("va0"))], types={"va0": "int"})
    X["var-bytes"] = Ex("vb", ["load $vb"], "bytes", decl=[("decl", "bytes", "vb", H("vb0"))], types={"vb0": "bytes"})
    X["const-int"] = Ex("KONST_A", ["pushint {kv:digits}"], "int", decl=[line("const int KONST_A = {kv:digits}", [])])
    X["const-bytes"] = Ex("KONST_B", ['pushbytes "{kb:note}"'], "bytes", decl=[line('const bytes KONST_B = "{kb:note}"', [])])
    X["const-hex"] = Ex("KONST_H", ["pushbytes 0x{kh:hex}"], "bytes", decl=[line("const bytes KONST_H = 0x{kh:hex}", [])])
    for n, v in {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5, "Pay": 1, "Acfg": 3, "Axfer": 4, "Afrz": 5, "Appl": 6}.items():
        X["enum " + n] = Ex(n, ["pushint %d" % v], "int")
    X["txn"] = Ex("Txn.Sender", ["txn Sender"], "bytes[32]")
    X["txn-int"] = Ex("Txn.Fee", ["txn Fee"], "int")
    X["txna"] = Ex("Txn.ApplicationArgs[{i_max255:digits}]", ["txna ApplicationArgs {i_max255:digits}"], "bytes")
    X["txnas"] = Ex("Txn.ApplicationArgs[{ix}]", [h("ix"), "txnas ApplicationArgs"], "bytes")
    X["txnas-expr"] = Ex("Txn.ApplicationArgs[{ix} + {iy}]", [h("ix"), h("iy"), "+", "txnas ApplicationArgs"], "bytes")
    X["gtxn"] = Ex("Gtxn[3].Sender", ["gtxn 3 Sender"], "bytes[32]")
    X["gtxns"] = Ex("Gtxn[{gi}].Amount", [h("gi"), "gtxns Amount"], "int")
    X["gtxns-expr"] = Ex("Gtxn[{gi} - {gj}].Amount", [h("gi"), h("gj"), "-", "gtxns Amount"], "int")
    X["gtxn+"] = Ex("Gtxn[+{r_max15:digits}].Amount", ["txn GroupIndex", "pushint {r_max15:digits}", "+", "gtxns Amount"], "int")
    X["gtxn-"] = Ex("Gtxn[-{r_max15:digits}].Receiver", ["txn GroupIndex", "pushint {r_max15:digits}", "-", "gtxns Receiver"], "bytes")
    X["gtxna"] = Ex("Gtxn[15].Accounts[{i_max255:digits}]", ["gtxna 15 Accounts {i_max255:digits}"], "bytes")
    X["gtxnas"] = Ex("Gtxn[0].Accounts[{ix}]", [h("ix"), "gtxnas 0 Accounts"], "bytes")
    X["gtxnsa"] = Ex("Gtxn[{gi}].Accounts[{i_max255:digits}]", [h("gi"), "gtxnsa Accounts {i_max255:digits}"], "bytes")
    X["gtxnsas"] = Ex("Gtxn[{gi}].Accounts[{ix}]", [h("gi"), h("ix"), "gtxnsas Accounts"], "bytes")
    X["gtxn+a"] = Ex("Gtxn[+{r_max15:digits}].ApplicationArgs[{i_max255:digits}]", ["txn GroupIndex", "pushint {r_max15:digits}", "+", "gtxnsa ApplicationArgs {i_max255:digits}"], "bytes")
    X["gtxn-as"] = Ex("Gtxn[-{r_max15:digits}].ApplicationArgs[{ix}]", ["txn GroupIndex", "pushint {r_max15:digits}", "-", h("ix"), "gtxnsas ApplicationArgs"], "bytes")
    X["itxn"] = Ex("Itxn.CreatedAssetID", ["itxn CreatedAssetID"], "int")
    X["itxna"] = Ex("Itxn.Logs[{i_max255:digits}]", ["itxna Logs {i_max255:digits}"], "bytes")
    X["itxnas"] = Ex("Itxn.Logs[{ix}]", [h("ix"), "itxnas Logs"], "bytes")
    X["global"] = Ex("Global.Round", ["global Round"], "int")
    X["global-bytes"] = Ex("Global.CreatorAddress", ["global CreatorAddress"], "bytes")
    X["op1"] = Ex("sqrt({a})", [h("a"), "sqrt"], "int")
    X["op2"] = Ex("concat({a}, {b})", [h("a"), h("b"), "concat"], "bytes")
    X["op3"] = Ex("substring3({a}, {b}, {c})", [h("a"), h("b"), h("c"), "substring3"], "bytes")
    X["op-imm1"] = Ex("arg(2)", ["arg 2"], "bytes")
    X["op-imm-int"] = Ex("gaid(2)", ["gaid 2"], "int")
    X["op-imm-field"] = Ex("txnas(Accounts, {ix})", [h("ix"), "txnas Accounts"], "any")
    X["op-imm-field2"] = Ex("gtxnas(2, Assets, {ix})", [h("ix"), "gtxnas 2 Assets"], "any")
    X["op-imm-nested"] = Ex("sqrt(gaid(3) + gloads(1, {ix}))", ["gaid 3", h("ix"), "gloads 1", "+", "sqrt"], "int")
    X["op-imm-const"] = Ex("gaid(KI)", ["gaid 4"], "int", pre=["const int KI = 4"])
    X["op-imm2"] = Ex("extract({i_max255:digits}, 5, {a})", [h("a"), "extract {i_max255:digits} 5"], "bytes")
    X["op-nested"] = Ex("sqrt(sqrt(len({a})))", [h("a"), "len", "sqrt", "sqrt"], "int")
    X["op-args-order"] = Ex("divw({a} + {a2}, sqrt({b}), {c})", [h("a"), h("a2"), "+", h("b"), "sqrt", h("c"), "divw"], "int")
    fa = lambda n, ps, rets, b: ("func", n, ps, rets, b)
    X["call0"] = Ex("fz()", ["callsub F_fz"], "int", funcs=[fa("fz", [], ["int"], [("return", [H("rz")])])], types={"rz": "int"})
    X["call1"] = Ex("fo({p})", [h("p"), "callsub F_fo"], "bytes", funcs=[fa("fo", [("x", "int")], ["bytes"], [("assert", ("v", "x")), ("return", [H("ro")])])], types={"p": "int", "ro": "bytes"})
    X["call3"] = Ex("ft({p}, {q}, {r})", [h("p"), h("q"), h("r"), "callsub F_ft"], "int",
                    funcs=[fa("ft", [("x", "int"), ("y", "bytes"), ("z", "int")], ["int"], [("assert", ("v", "x")), line("log(y)", ["load $y", "log"]), ("return", [("raw", "x - z", ["load $x", "load $z", "-"])])])],
                    types={"p": "int", "q": "bytes", "r": "int"})
    X["call-nested"] = Ex("fn(fn({p}) + {q})", [h("p"), "callsub F_fn", h("q"), "+", "callsub F_fn"], "int",
                          funcs=[fa("fn", [("x", "int")], ["int"], [("return", [("+", ("v", "x"), H("rn"))])])], types={"p": "int", "rn": "int"})
    for f in ("aa", "bb", "cc", "dd", "ee"):
        g = field_get("it", f)
        t = {"aa": "int", "bb": "bytes[32]", "cc": "int", "dd": "bytes[3]", "ee": "int"}[f]
        X["struct." + f] = Ex(g[1], g[2], t, ITEM_T, STRUCT, [itemdecl()])
        g = field_get("bx", f, True)
        X["box." + f] = Ex(g[1], g[2], t, ITEM_T, STRUCT, [boxdecl()])
    X["std-Concat"] = Ex("Concat({a}, {b}, {c})", [h("a"), h("b"), h("c"), "concat", "concat"], "bytes", {"a": "bytes", "b": "bytes", "c": "bytes"})
    X["std-SizeOf"] = Ex("SizeOf(Item)", ["pushint 52"], "int", pre=STRUCT)
    X["std-FromBytes"] = Ex("FromBytes({a}, int)", [h("a"), "btoi"], "int", {"a": "bytes"})
    return X


# ---------------------------------------------------------------- positions
def is_int(t):
    return t in ("int", "any")


def is_bytes(t):
    return t.startswith("bytes") or t == "any"


def positions():
    """name -> (accepts(Ex), statements builder)"""
    P = {}
    inner = lambda e: e.raw
    P["assert"] = (lambda e: is_int(e.out), lambda e: [("assert", e.raw)])
    P["assert-msg"] = (lambda e: is_int(e.out), lambda e: [line('assert(%s, "msg {m:note}")' % e.src, e.ref + ["assert"])])
    P["decl"] = (lambda e: True, lambda e: [("decl", "int" if is_int(e.out) else "bytes", "dv", e.raw), line("log(dv)" if not is_int(e.out) else "assert(dv)", ["load $dv", "assert" if is_int(e.out) else "log"])])
    P["assign"] = (lambda e: True, lambda e: [("decl", "int" if is_int(e.out) else "bytes", "dv", None), ("set", ["dv"], e.raw), line("log(dv)" if not is_int(e.out) else "assert(dv)", ["load $dv", "assert" if is_int(e.out) else "log"])])
    P["exit"] = (lambda e: is_int(e.out), lambda e: [("if", [(False, H("ec"), [("exit", e.raw)])], None)])
    P["log"] = (lambda e: is_bytes(e.out), lambda e: [line("log(%s)" % e.src, e.ref + ["log"])])
    P["left"] = (lambda e: e.value, lambda e: [line("assert(%s == {rr})" % e.src, e.ref + [h("rr"), "==", "assert"])])
    P["right"] = (lambda e: e.value, lambda e: [line("assert({ll} != %s)" % e.src, [h("ll")] + e.ref + ["!=", "assert"])])
    P["grouped"] = (lambda e: e.value, lambda e: [line("assert(!({ll} == %s))" % e.src, [h("ll")] + e.ref + ["==", "!", "assert"])])
    P["unary"] = (lambda e: e.value and is_int(e.out), lambda e: [line("assert(!%s)" % e.src, e.ref + ["!", "assert"])])
    P["op-arg-1"] = (lambda e: is_bytes(e.out), lambda e: [line("log(concat(%s, {rr}))" % e.src, e.ref + [h("rr"), "concat", "log"])])
    P["op-arg-2"] = (lambda e: True, lambda e: [line("app_global_put({ll}, %s)" % e.src, [h("ll")] + e.ref + ["app_global_put"])])
    P["op-arg-imm"] = (lambda e: is_bytes(e.out), lambda e: [line("log(extract(2, 5, %s))" % e.src, e.ref + ["extract 2 5", "log"])])
    P["call-arg"] = (lambda e: True, lambda e: [line("pf(7, %s)" % e.src, ["pushint 7"] + e.ref + ["callsub F_pf"]),
                     ("@func", ("func", "pf", [("pi", "int"), ("pe", "int" if is_int(e.out) else "bytes")], [], [("assert", ("v", "pi")), line("log(pe)" if not is_int(e.out) else "assert(pe)", ["load $pe", "assert" if is_int(e.out) else "log"]), ("return", [])]))])
    P["if"] = (lambda e: is_int(e.out), lambda e: [("if", [(False, e.raw, [("assert", H("bd"))])], None)])
    P["if-not"] = (lambda e: is_int(e.out), lambda e: [("if", [(True, e.raw, [("assert", H("bd"))])], [("assert", H("bd2"))])])
    P["elif"] = (lambda e: is_int(e.out), lambda e: [("if", [(False, H("c0"), [("assert", H("bd"))]), (False, e.raw, [("assert", H("bd2"))])], None)])
    P["elif-not"] = (lambda e: is_int(e.out), lambda e: [("if", [(False, H("c0"), [("assert", H("bd"))]), (True, e.raw, [("assert", H("bd2"))])], [("assert", H("bd3"))])])
    P["while"] = (lambda e: is_int(e.out), lambda e: [("while", False, e.raw, [("assert", H("bd"))])])
    P["while-not"] = (lambda e: is_int(e.out), lambda e: [("while", True, e.raw, [("assert", H("bd"))])])
    P["inner-field"] = (lambda e: True, lambda e: [("inner", [("Note", e.raw), ("Fee", ("i", 0))])])
    P["inner-array"] = (lambda e: True, lambda e: [("inner", [("ApplicationArgs[0]", H("f0")), ("ApplicationArgs[1]", e.raw)])])
    notlit = lambda e: is_int(e.out) and not e.src.startswith("{n:digits}")
    P["index"] = (notlit, lambda e: [line("log(Txn.ApplicationArgs[%s])" % e.src, e.ref + ["txnas ApplicationArgs", "log"])])
    P["gtxn-index"] = (notlit, lambda e: [line("log(Gtxn[%s].Note)" % e.src, e.ref + ["gtxns Note", "log"])])
    P["gtxn-index-array"] = (notlit, lambda e: [line("log(Gtxn[%s].ApplicationArgs[{jj}])" % e.src, e.ref + [h("jj"), "gtxnsas ApplicationArgs", "log"])])
    P["gtxn-array-index"] = (notlit, lambda e: [line("log(Gtxn[{gg}].ApplicationArgs[%s])" % e.src, [h("gg")] + e.ref + ["gtxnsas ApplicationArgs", "log"])])
    P["std-arg"] = (lambda e: is_bytes(e.out), lambda e: [line("log(Concat({ll}, %s))" % e.src, [h("ll")] + e.ref + ["concat", "log"])])
    P["std-rpad"] = (lambda e: e.out.startswith("bytes"), lambda e: [line("log(Rpad(%s, 40))" % e.src, e.ref + ["dup", "len", "pushint 40", "swap", "-", "bzero", "concat", "log"])])
    P["return"] = (lambda e: True, lambda e: [("assert" if is_int(e.out) else "@log", ("call", "rf", [])), ("@func", ("func", "rf", [], ["int" if is_int(e.out) else "bytes"], e.decl + [("return", [e.raw])]))])
    P["return-2"] = (lambda e: True, lambda e: [("decl", "int" if is_int(e.out) else "bytes", "ra", None), ("decl", "int", "rb", None), ("set", ["rb", "ra"], ("call", "rf", [])), ("assert", ("v", "rb")),
                     ("assert", ("v", "ra")) if is_int(e.out) else line("log(ra)", ["load $ra", "log"]),
                     ("@func", ("func", "rf", [], ["int", "int" if is_int(e.out) else "bytes"], e.decl + [("return", [H("r0"), e.raw])]))])
    P["switch"] = (lambda e: True, lambda e: [("@tail", [("switch", e.raw, [(H("o1"), "b1"), (H("o2"), "b2")], "b1"), ("block", "b1", [("exit", ("i", 1))]), ("block", "b2", [("exit", H("z"))])])])
    P["switch-option"] = (lambda e: True, lambda e: [("@tail", [("switch", H("sw"), [(e.raw, "b1"), (H("o2"), "b2")], None), ("block", "b1", [("exit", ("i", 1))]), ("block", "b2", [("exit", H("z"))])])])
    return P


def place(e, stmts):
    """statement list with @-forms -> program construct tree"""
    body, funcs, tail = [], [], [("exit", ("i", 1))]
    local = False
    for s in stmts:
        if s[0] == "@func":
            funcs.append(s[1])
            if s[1][1] == "rf":
                local = True
        elif s[0] == "@tail":
            tail = s[1]
        elif s[0] == "@log":
            body.append(line("log(%s)" % e_src(s[1]), e_ref(Gen(), s[1]) + ["log"]))
        else:
            body.append(s)
    if not local:
        body = e.decl + body
    return body + tail + funcs + e.funcs
