"""Catalogue of Tealish statements with their documented meaning (reference TEAL), used by
several checks.  Each entry: name -> Stmt(body, pre, types, post)
  body  : construct tree (lang.py)
  pre   : source lines to put at the top of the file (struct / const definitions)
  pre_ref : reference lines for them
  types : hole -> Tealish type of the hole
  extra : (src, ref) lines to put after the program's exit statement
"""

H = lambda n: ("h", n)


class Stmt:
    def __init__(self, body, pre=(), types=None, funcs=()):
        self.body, self.pre, self.types, self.funcs = body, list(pre), dict(types or {}), list(funcs)


STRUCT = ["struct Item:", "    aa: int", "    bb: bytes[32]", "    cc: uint8", "    dd: bytes[3]", "    ee: int", "end"]
FIELDS = {"aa": ("int", 0, 8), "bb": ("bytes[32]", 8, 32), "cc": ("uint8", 40, 1), "dd": ("bytes[3]", 41, 3), "ee": ("int", 44, 8)}
SIZE = 52


def to_field(t):
    return {"int": ["itob"], "uint8": ["itob", "extract 7 1"]}.get(t, [])


def line(src, ref):
    return ("line", src if isinstance(src, list) else [src], ref)


def itemdecl(v="it"):
    return line("Item %s = {s_%s}" % (v, v), ["%%E {s_%s}" % v, "store $%s" % v])


def boxdecl(v="bx", how="Open"):
    chk = {"Open": ["dup", "box_len", "assert", "pushint %d" % SIZE, "==", "assert"], "Create": ["dup", "pushint %d" % SIZE, "box_create", "assert"], "": []}[how]
    return line("box<Item> %s = %sBox({k_%s})" % (v, how, v), ["%%E {k_%s}" % v] + chk + ["store $%s" % v])


def field_set(v, f, e, box=False):
    t, off, size = FIELDS[f]
    if box:
        ref = ["%%E {%s}" % e] + to_field(t) + ["store $tmp_", "load $" + v, "pushint %d" % off, "load $tmp_", "box_replace"]
    else:
        ref = ["%%E {%s}" % e] + to_field(t) + ["load $" + v, "swap", "replace2 %d" % off, "store $" + v]
    return line("%s.%s = {%s}" % (v, f, e), ref)


def field_get(v, f, box=False):
    t, off, size = FIELDS[f]
    if box:
        ref = ["load $" + v, "pushint %d" % off, "pushint %d" % size, "box_extract"]
    else:
        ref = ["load $" + v, "extract %d %d" % (off, size)]
    if t in ("int", "uint8"):
        ref += ["btoi"]
    return ("raw", "%s.%s" % (v, f), ref)


ITEM_T = {"s_it": "bytes[%d]" % SIZE, "s_j": "bytes[%d]" % SIZE, "k_bx": "bytes", "k_by": "bytes"}


def statements():
    S = {}
    S["assert"] = Stmt([("assert", H("x"))])
    S["decl-int"] = Stmt([("decl", "int", "a", H("x")), ("assert", ("v", "a"))], types={"x": "int"})
    S["decl-bytes"] = Stmt([("decl", "bytes", "a", H("x"))], types={"x": "bytes"})
    S["decl-bytes32"] = Stmt([("decl", "bytes[32]", "a", H("x"))], types={"x": "bytes[32]"})
    S["decl-no-init"] = Stmt([("decl", "int", "a", None), ("assert", ("v", "a"))])
    S["assign"] = Stmt([("decl", "int", "a", None), ("set", ["a"], H("x")), ("assert", ("v", "a"))])
    S["assign-discard"] = Stmt([("set", ["_"], H("x"))])
    S["assign-two-int"] = Stmt([("decl", "int", "a", None), ("decl", "int", "b", None), ("set", ["a", "b"], ("call", "two", [])), ("assert", ("v", "a")), ("assert", ("v", "b"))],
                               funcs=[("func", "two", [], ["int", "int"], [("return", [H("r1"), H("r2")])])])
    S["assign-two-discard"] = Stmt([("decl", "int", "a", None), ("set", ["_", "a"], ("call", "two", [])), ("assert", ("v", "a"))],
                                   funcs=[("func", "two", [], ["int", "int"], [("return", [H("r1"), H("r2")])])])
    S["assign-op2"] = Stmt([line("int ex", []), line("int bal", []), line("bal, ex = asset_holding_get(AssetBalance, {x}, {y})", ["%E {x}", "%E {y}", "asset_holding_get AssetBalance", "store $ex", "store $bal"]) if False else
                            line("ex, bal = asset_holding_get(AssetBalance, {x}, {y})", ["%E {x}", "%E {y}", "asset_holding_get AssetBalance", "store $ex", "store $bal"]),
                            ("assert", ("v", "ex")), ("assert", ("v", "bal"))], types={"y": "int"})
    S["call-void"] = Stmt([("call", "vf", [H("x"), H("y")])], types={"x": "int", "y": "bytes"},
                          funcs=[("func", "vf", [("p", "int"), ("q", "bytes")], [], [("assert", ("v", "p")), line("log(q)", ["load $q", "log"]), ("return", [])])])
    S["call-value"] = Stmt([("decl", "int", "a", ("call", "inc", [H("x")])), ("assert", ("v", "a"))], types={"x": "int"},
                           funcs=[("func", "inc", [("p", "int")], ["int"], [("if", [(False, H("fc"), [("return", [("v", "p")])])], None), ("return", [("+", ("v", "p"), ("i", 1))])])])
    S["op-void"] = Stmt([line("log({x})", ["%E {x}", "log"])], types={"x": "bytes"})
    S["op-put"] = Stmt([line("app_global_put({x}, {y})", ["%E {x}", "%E {y}", "app_global_put"])], types={"x": "bytes"})
    S["inner"] = Stmt([("inner", [("TypeEnum", ("raw", "Pay", ["pushint 1"])), ("Receiver", H("x")), ("Fee", ("i", 0))])])
    S["inner-array"] = Stmt([("inner", [("TypeEnum", ("raw", "Appl", ["pushint 6"])), ("ApplicationArgs[0]", H("x")), ("ApplicationArgs[1]", H("y")), ("Accounts[0]", H("z"))])])
    S["if"] = Stmt([("if", [(False, H("x"), [("assert", H("y"))])], None)])
    S["if-elif-else"] = Stmt([("if", [(False, H("x"), [("assert", H("y"))]), (True, H("x2"), [("assert", H("y2"))])], [("assert", H("y3"))])])
    S["while"] = Stmt([("while", False, H("x"), [("assert", H("y"))])])
    S["while-not"] = Stmt([("while", True, H("x"), [("assert", H("y"))])])
    S["while-break"] = Stmt([("while", False, H("x"), [("if", [(False, H("y"), [("break",)])], None), ("assert", H("z"))])])
    S["for"] = Stmt([("for", "k", ("i", 2), ("i", 9), [("assert", ("+", H("y"), ("v", "k")))])])
    S["for-vars"] = Stmt([("decl", "int", "lo", H("x")), ("decl", "int", "hi", H("x2")), ("for", "k", ("v", "lo"), ("v", "hi"), [("assert", ("+", H("y"), ("v", "k")))])])
    S["struct-decl"] = Stmt([itemdecl()], STRUCT, ITEM_T)
    for f, (t, off, size) in FIELDS.items():
        S["struct-set-" + f] = Stmt([itemdecl(), field_set("it", f, "x"), line("log(it)", ["load $it", "log"])], STRUCT, dict(ITEM_T, x=t))
        S["struct-get-" + f] = Stmt([itemdecl(), line("assert({g} == 0)" if False else ("assert(it.%s)" % f if t in ("int", "uint8") else "log(it.%s)" % f), field_get("it", f)[2] + (["assert"] if t in ("int", "uint8") else ["log"]))], STRUCT, ITEM_T)
        S["box-set-" + f] = Stmt([boxdecl(), field_set("bx", f, "x", True)], STRUCT, dict(ITEM_T, x=t))
        S["box-get-" + f] = Stmt([boxdecl(), line("assert(bx.%s)" % f if t in ("int", "uint8") else "log(bx.%s)" % f, field_get("bx", f, True)[2] + (["assert"] if t in ("int", "uint8") else ["log"]))], STRUCT, ITEM_T)
    S["box-open"] = Stmt([boxdecl(how="Open")], STRUCT, ITEM_T)
    S["box-create"] = Stmt([boxdecl(how="Create")], STRUCT, ITEM_T)
    S["box-plain"] = Stmt([boxdecl(how="")], STRUCT, ITEM_T)
    S["teal"] = Stmt([("teal", ["pushint 7", "pop"])])
    S["comment"] = Stmt([line("# note {t:note}: if more", [])])
    S["blank"] = Stmt([line("", [])])
    return S


GROUP_OK = {k for k in statements() if not k.startswith(("call", "assign-two"))}
