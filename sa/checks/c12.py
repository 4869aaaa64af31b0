"""Inner transactions.  Every field is set to its own value in the transaction it is written in,
single transactions are submitted at once, those executed inside a group in one group at its end."""
import itertools

from .common import *
from .types_rel import kind
from ..families import H, line, STRUCT, statements
from .. import lang as L

FLOOR = 120
INT = ["Fee", "Amount", "VoteFirst", "VoteLast", "VoteKeyDilution", "TypeEnum", "XferAsset", "AssetAmount", "ApplicationID", "OnCompletion", "ConfigAsset", "ConfigAssetTotal", "ConfigAssetDecimals", "ConfigAssetDefaultFrozen", "FreezeAsset", "FreezeAssetFrozen",
       "GlobalNumUint", "GlobalNumByteSlice", "LocalNumUint", "LocalNumByteSlice", "ExtraProgramPages", "Nonparticipation"]
BYTES = ["Sender", "Note", "Receiver", "CloseRemainderTo", "VotePK", "SelectionPK", "Type", "AssetSender", "AssetReceiver", "AssetCloseTo", "ApprovalProgram", "ClearStateProgram", "RekeyTo", "ConfigAssetUnitName", "ConfigAssetName", "ConfigAssetURL",
         "ConfigAssetMetadataHash", "ConfigAssetManager", "ConfigAssetReserve", "ConfigAssetFreeze", "ConfigAssetClawback", "FreezeAssetAccount", "StateProofPK"]
ARRAY = {"ApplicationArgs": "bytes", "Accounts": "bytes", "Assets": "int", "Applications": "int", "ApprovalProgramPages": "bytes", "ClearStateProgramPages": "bytes"}
ENUMS = {"TypeEnum": {"Pay": 1, "Acfg": 3, "Axfer": 4, "Afrz": 5, "Appl": 6}, "OnCompletion": {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5}}
EX = ("exit", ("i", 1))


def inner(*fs):
    return ("inner", [(f, H(h)) for f, h in fs])


def pay(k):
    return inner(("Receiver", "r%s" % k), ("Amount", "m%s" % k))


def types(n=12):
    return {"r%d" % i: "bytes" for i in range(n)}


def check(ctx, body, T=None, pre=(), macro=True):
    src, rf = L.program(body, dyn_group=macro)
    return equiv(ctx, list(pre) + src, rf + (L.GROUP_MACRO if macro else []), dict(types(), **(T or {})), marks=True)


def positions(stmts):
    for n, b in L.contexts([("mark", "0")] + stmts + [("mark", "1")]).items():
        if n != "inner_group":
            yield n, b


def run(ctx):
    ctx.rule("fields", "each field is set, in order, in the transaction it is written in")
    ctx.rule("arrays", "array fields are set in the order of their indexes, other orders are rejected")
    ctx.rule("position", "inner transactions and groups work at every position")
    ctx.rule("group", "the transactions executed in a group are submitted together at its end")
    ctx.rule("dynamic", "transactions of called functions belong to the group that is being built when they run")
    ctx.rule("text", "comments are no fields, other texts are rejected")
    fields = [(f, "int") for f in INT] + [(f, "bytes") for f in BYTES]
    for f, t in fields:
        ctx.ob("fields", f, lambda f=f, t=t: check(ctx, [("mark", "0"), inner((f, "x")), ("mark", "1"), EX], {"x": t}, macro=False))
        ctx.ob("fields", f + " in group", lambda f=f, t=t: check(ctx, [("mark", "0"), ("group", [inner((f, "x")), inner((f, "y"), (f, "z"))]), ("mark", "1"), EX], {"x": t, "y": t, "z": t}))
    for f, es in ENUMS.items():
        for e, v in es.items():
            ctx.ob("fields", f + " " + e, lambda f=f, e=e, v=v: check(ctx, [("inner", [(f, ("raw", e, ["pushint %d" % v])), ("Fee", H("y"))]), EX], macro=False))
    for a, b in itertools.permutations(fields[::4] if not ctx.thorough else fields, 2):
        ctx.ob("fields", a[0] + "," + b[0], lambda a=a, b=b: check(ctx, [("mark", "0"), inner((a[0], "x"), (b[0], "y")), ("mark", "1"), EX], {"x": a[1], "y": b[1]}, macro=False))
    for n in (0, 1, 2, 5, 12, 20, 45):
        ctx.ob("fields", "%d fields" % n, lambda n=n: check(ctx, [("mark", "0"), inner(*[(f, "x%d" % i) for i, (f, t) in enumerate(fields[:n])]), ("mark", "1"), EX], {"x%d" % i: t for i, (f, t) in enumerate(fields[:n])}, macro=False))
    # what the value comes from
    for nm, (e, r, pre, pref, post) in {
        "variable": ("v", ["load $v"], ["int v = {y}"], ["%E {y}", "store $v"], []),
        "sum": ("{y} + {z}", ["%E {y}", "%E {z}", "+"], [], [], []),
        "function": ("fn({y})", ["%E {y}", "callsub F_fn"], [], [], [("func", "fn", [("p", "int")], ["int"], [("return", [("+", ("v", "p"), H("z"))])])]),
        "struct field": ("it.aa", ["load $it", "extract 0 8", "btoi"], ["Item it = {s}"], ["%E {s}", "store $it"], []),
        "constant": ("KK", ["pushint 77"], ["const int KK = 77"], [], []),
        "string with colon": ('"a: b"', ['pushbytes "a: b"'], [], [], []), "string with hash": ('"a # b"', ['pushbytes "a # b"'], [], [], []), "string with end": ('"end"', ['pushbytes "end"'], [], [], []), "string like field": ('"Fee[0]: 1"', ['pushbytes "Fee[0]: 1"'], [], [], []),
        "array": ("Txn.ApplicationArgs[1]", ["txna ApplicationArgs 1"], [], [], []), "array of variable": ("Txn.ApplicationArgs[v]", ["load $v", "txnas ApplicationArgs"], ["int v = {y}"], ["%E {y}", "store $v"], []),
        "group": ("Gtxn[+1].Sender", ["txn GroupIndex", "pushint 1", "+", "gtxns Sender"], [], [], []), "itxn": ("Itxn.CreatedAssetID", ["itxn CreatedAssetID"], [], [], []), "global": ("Global.CurrentApplicationAddress", ["global CurrentApplicationAddress"], [], [], []),
        "op": ("concat({s}, \"x\")", ["%E {s}", 'pushbytes "x"', "concat"], [], [], []), "immediate": ("substring(1, 3, {s})", None, [], [], [])}.items():
        if r is None:
            continue
        for fld in ("Fee", "Note", "ApplicationArgs[0]"):
            def f(e=e, r=r, pre=pre, pref=pref, post=post, fld=fld):
                st = [line(pre, pref)] if pre else []
                return check(ctx, st + [("mark", "0"), ("inner", [("Amount", H("m0")), (fld, ("raw", e, r)), ("Receiver", H("r0"))]), ("mark", "1"), EX] + post, {"s": "bytes[52]", "y": "int", "z": "int"}, STRUCT, macro=False)
            ctx.ob("fields", nm + "@" + fld, f)
    # arrays
    for a, t in ARRAY.items():
        for n in (1, 2, 3, 10, 11, 12, 16):
            ctx.ob("arrays", "%s %d" % (a, n), lambda a=a, t=t, n=n: check(ctx, [("mark", "0"), inner(("Fee", "m1"), *[("%s[%d]" % (a, i), "x%d" % i) for i in range(n)]), ("mark", "1"), EX], {"x%d" % i: t for i in range(n)}, macro=False))
        for b, u in ARRAY.items():
            if a != b:
                ctx.ob("arrays", a + "," + b, lambda a=a, b=b, t=t, u=u: check(ctx, [inner((a + "[0]", "x0"), (a + "[1]", "x1"), ("Fee", "m1"), (b + "[0]", "y0"), (b + "[1]", "y1")), EX], {"x0": t, "x1": t, "y0": u, "y1": u}, macro=False))
                ctx.ob("arrays", a + "," + b + " mixed", lambda a=a, b=b, t=t, u=u: check(ctx, [inner((a + "[0]", "x0"), (b + "[0]", "y0"), ("Fee", "m1"), (b + "[1]", "y1"), (a + "[1]", "x1")), EX], {"x0": t, "x1": t, "y0": u, "y1": u}, macro=False))
        ctx.ob("arrays", a + " in two transactions", lambda a=a, t=t: check(ctx, [inner((a + "[0]", "x0"), (a + "[1]", "x1")), ("mark", "0"), inner((a + "[0]", "y0")), EX], {k: t for k in ("x0", "x1", "y0")}, macro=False))
        ctx.ob("arrays", a + " in a group", lambda a=a, t=t: check(ctx, [("group", [inner((a + "[0]", "x0"), (a + "[1]", "x1")), ("mark", "0"), inner((a + "[0]", "y0"))]), EX], {k: t for k in ("x0", "x1", "y0")}))
        for ix in ([1], [0, 0], [0, 2], [1, 0], [0, 1, 1], [0, 1, 3], [2, 1, 0], [0, 10], [0, 11], [100], [0, 100], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100]):
            ctx.ob("arrays", "%s%s rejected" % (a, ix), lambda a=a, ix=ix, t=t: rejected(ctx, ["inner_txn:"] + ["    %s[%d]: {x%d}" % (a, i, k) for k, i in enumerate(ix)] + ["end", "exit(1)"], {"x%d" % k: t for k in range(len(ix))}))
    for nm, ls in {"two arrays": ["Accounts[0]: {x}", "Assets[1]: {y}"], "second transaction": ["Accounts[0]: {x}", "end", "inner_txn:", "    Accounts[1]: {x}"], "name as index": ["Accounts[a]: {x}"], "negative": ["Accounts[-1]: {x}"], "empty": ["Accounts[]: {x}"],
                   "expression": ["Accounts[0 + 0]: {x}"], "not closed": ["Accounts[0: {x}"], "not opened": ["Accounts0]: {x}"], "two indexes": ["Accounts[0][1]: {x}"]}.items():
        ctx.ob("arrays", nm + " rejected", lambda ls=ls: rejected(ctx, ["inner_txn:"] + ["    " + l for l in ls] + ["end", "exit(1)"], {"x": "bytes", "y": "int"}))
    # positions
    one, two, grp, ngrp = [pay(0)], [pay(0), ("mark", "m"), pay(1)], [("group", [pay(0), pay(1)])], [("group", [pay(0)]), pay(1), ("group", [pay(2), pay(3), pay(4)]), ("mark", "m"), ("group", [pay(5)])]
    for sn, st in {"one": one, "two": two, "group": grp, "groups": ngrp}.items():
        for pn, b in positions(st):
            ctx.ob("position", sn + "@" + pn, lambda b=b, sn=sn: check(ctx, b, macro="g" in sn))
            if "g" in sn:
                continue
            ctx.ob("position", sn + "@" + pn + " with a group after", lambda b=b: check(ctx, with_group(b)))
    # what stands in a group
    S = statements()
    for n, st in S.items():
        if st.funcs:
            continue
        def f(st=st):
            src, rf = L.program([("group", [("mark", "0"), pay(0), ("mark", "1")] + st.body + [("mark", "2"), pay(1), ("mark", "3")]), ("mark", "4"), EX], dyn_group=True)
            return equiv(ctx, st.pre + src, rf + L.GROUP_MACRO, dict(types(), **st.types), marks=True)
        if not n.startswith(("inner",)):
            ctx.ob("group", "between: " + n, f)
    bodies = {"1": [pay(0)], "2": [pay(0), pay(1)], "3": [pay(0), pay(1), pay(2)], "8": [pay(i) for i in range(8)],
              "if": [("if", [(False, H("c"), [pay(0)])], None), pay(1)], "if-else": [("if", [(False, H("c"), [pay(0)])], [pay(1)]), pay(2)], "elif": [("if", [(False, H("c"), [pay(0)]), (True, H("d"), [pay(1)])], [pay(2), pay(3)])],
              "while": [pay(0), ("while", False, H("c"), [pay(1)])], "while first": [("while", False, H("c"), [pay(1)]), pay(0)], "while not": [("while", True, H("c"), [pay(1), pay(2)]), pay(0)], "for": [("for", "i", ("i", 0), ("i", 4), [inner(("Receiver", "r0"), ("Amount", "m0"))]), pay(1)],
              "break": [("while", False, H("c"), [pay(0), ("if", [(False, H("d"), [("break",)])], None), pay(1)]), pay(2)], "nested loops": [("while", False, H("c"), [("for", "i", ("i", 0), ("i", 2), [pay(0)]), ("if", [(False, H("d"), [pay(1)])], None)]), pay(2)],
              "variables": [("decl", "int", "v", H("x")), pay(0), ("set", ["v"], ("+", ("v", "v"), ("i", 1))), ("inner", [("Amount", ("v", "v"))]), ("assert", ("v", "v"))], "exit": [pay(0), ("if", [(False, H("c"), [("exit", H("x"))])], None), pay(1)], "empty": []}
    for bn, b in bodies.items():
        for cn, c in positions([("group", b)]):
            ctx.ob("group", bn + "@" + cn, lambda c=c: check(ctx, c))
        ctx.ob("group", bn + " twice", lambda b=b: check(ctx, [("group", b), ("mark", "0"), pay(9), ("mark", "1"), ("group", [s for s in b if s[0] not in ("decl",)] if bn == "x" else [pay(8), pay(9)]), EX]))
        ctx.ob("group", bn + " before and after", lambda b=b: check(ctx, [pay(8), ("mark", "0"), ("group", b), ("mark", "1"), pay(9), EX]))
    # functions that run in and outside of groups
    def fn(name, body, rets=()):
        return ("func", name, [], list(rets), [("mark", "F" + name)] + body + [("return", [H("q" + name)] if rets else [])])
    call = lambda n: ("call", n, [])
    inn = {"one": [pay(0)], "two": [pay(0), pay(1)], "if": [("if", [(False, H("c"), [pay(0)])], [pay(1)])], "while": [("while", False, H("c"), [pay(0)])], "early": [pay(0), ("if", [(False, H("c"), [("return", [])])], None), pay(1)]}
    for n, b in inn.items():
        for cn, body in {"in group": [("group", [call("fa")])], "after one": [("group", [pay(5), call("fa")])], "before one": [("group", [call("fa"), pay(5)])], "between": [("group", [pay(5), call("fa"), pay(6)])], "twice": [("group", [call("fa"), call("fa")])],
                         "outside": [call("fa"), ("group", [pay(5)])], "after group": [("group", [pay(5)]), call("fa")], "in and outside": [call("fa"), ("group", [call("fa"), pay(5)]), call("fa"), ("group", [pay(6), call("fa")])],
                         "loop": [("while", False, H("w"), [("group", [call("fa"), pay(5)]), call("fa")])], "chain": [("group", [call("fb"), pay(5)]), call("fb")]}.items():
            ctx.ob("dynamic", n + " " + cn, lambda b=b, body=body: check(ctx, body + [("mark", "Z"), EX, fn("fa", b), fn("fb", [call("fa"), pay(7)])]))
            ctx.ob("dynamic", n + " " + cn + " in block", lambda b=b, body=body: check(ctx, [("jump", "bb"), ("block", "bb", body + [("mark", "Z"), EX, fn("fa", b)]), fn("fb", [pay(7)])] if cn != "chain" else [("jump", "bb"), ("block", "bb", body + [("mark", "Z"), EX]), fn("fb", [call("fa"), pay(7)]), fn("fa", b)]))
    ctx.ob("dynamic", "group in function", lambda: check(ctx, [call("fa"), pay(5), call("fa"), EX, fn("fa", [("group", [pay(0), pay(1)])])]))
    ctx.ob("dynamic", "group in function of a block", lambda: check(ctx, [pay(3), ("jump", "bb"), ("block", "bb", [call("fa"), pay(5), EX, fn("fa", [("group", [pay(0), pay(1)])])])]))
    ctx.ob("dynamic", "group only in a function that is not called", lambda: check(ctx, [pay(3), EX, fn("fa", [("group", [pay(0), pay(1)])])]))
    ctx.ob("dynamic", "group in a group of a function", lambda: check(ctx, [("group", [pay(3), call("fa")]), EX, fn("fa", [("group", [pay(0), pay(1)])])]))
    ctx.ob("dynamic", "group in a group", lambda: either_(ctx, [("group", [pay(3), ("group", [pay(0)])]), EX]))
    ctx.ob("dynamic", "value of a function", lambda: check(ctx, [("group", [("assert", call("fa")), pay(5)]), ("assert", call("fa")), EX, fn("fa", [pay(0)], ["int"])]))
    # texts
    for n, ls in {"comment first": ["# Fee: 1", "Fee: {x}"], "comment between": ["Fee: {x}", "# end", "Amount: {y}"], "comment last": ["Fee: {x}", "Amount: {y}", "# Note: 1"], "inline comment": ["Fee: {x} # Amount: 7", "Amount: {y}"], "blanks around": ["  Fee: {x}  ", "Amount: {y}  "]}.items():
        ref = [l for s, l in (("Fee: {x}", ["%E {x}", "itxn_field Fee"]), ("Amount: {y}", ["%E {y}", "itxn_field Amount"])) if any(s in x for x in ls) for l in l]
        ctx.ob("text", n, lambda ls=ls, ref=ref: equiv(ctx, ["inner_txn:"] + ["    " + l for l in ls] + ["end", "exit(1)"], ["itxn_begin"] + ref + ["itxn_submit", "pushint 1", "return"], {"x": "int", "y": "int"}))
    for n, ls in {"blank line": ["Fee: {x}", "", "Amount: {y}"], "no space": ["Fee:{x}", "Amount: {y}"], "space before colon": ["Fee : {x}", "Amount: {y}"], "two spaces": ["Fee:  {x}", "Amount: {y}"], "tab": ["Fee:\t{x}", "Amount: {y}"]}.items():
        ctx.ob("text", n, lambda ls=ls: either(ctx, ["inner_txn:"] + ["    " + l for l in ls] + ["end", "exit(1)"], ["itxn_begin", "%E {x}", "itxn_field Fee", "%E {y}", "itxn_field Amount", "itxn_submit", "pushint 1", "return"], {"x": "int", "y": "int"}))
    for n, ls in {"no value": ["Fee:"], "no value, blank": ["Fee: "], "no name": [": {x}"], "no colon": ["Fee {x}"], "equals": ["Fee = {x}"], "statement": ["assert({x})"], "call": ["f({x})"], "two values": ["Fee: {x}, {y}"], "two fields": ["Fee: {x} Amount: {y}"], "nested": ["inner_txn:", "Fee: {x}", "end"],
                  "if": ["if {x}:", "Fee: {y}", "end"], "variable": ["int v = 1"], "two names": ["Fee Amount: {x}"], "quoted": ['"Fee": {x}'], "dotted": ["Txn.Fee: {x}"], "call as name": ["Fee(): {x}"], "trailing": ["Fee: {x};"], "semicolon": ["Fee; err: {x}"], "newline": ["Fee // : {x}"]}.items():
        ctx.ob("text", n + " rejected", lambda ls=ls: rejected(ctx, ["inner_txn:"] + ["    " + l for l in ls] + ["end", "exit(1)"], {"x": "int", "y": "int"}))
    ctx.assumptions += ["break and return out of a group, and inner transactions in the values of fields, are not specified"]


def with_group(b):
    """the same program with an inner group in a function at the end"""
    return b + [("func", "zz", [], [], [("group", [pay(8)]), ("return", [])])]


def either_(ctx, body):
    src, rf = L.program(body, dyn_group=True)
    return either(ctx, src, rf + L.GROUP_MACRO, types())
