"""The language specification.  What opcodes and fields exist, and how they are called, is what the active
specification says - ./langspec.json if there is one, else the packaged one.  The compiler is interpreted with
specifications that have new opcodes of every signature, changed and missing opcodes, and other fields."""
import contextlib
import copy
import json
import os
import re

from .common import *
from .. import lang as L
from .. import teal
from ..families import H, line
from ..clim import Model, FS
from ..harness import to_abs, Harness
from ..report import REPO
from .c18 import command, stdout

FLOOR = 100
TYPE = {"U": "int", "B": "bytes"}
_spec = []


def packaged():
    if not _spec:
        with open(os.path.join(REPO, "tealish", "langspec.json")) as f:
            _spec.append(json.load(f))
    return copy.deepcopy(_spec[0])


def op(name, args="", returns="", imm=0, note=None, enum=None, types=None, size=None):
    d = {"Opcode": 250, "Name": name, "Size": 1 + imm if size is None else size, "Doc": "new", "Groups": ["New"]}
    if args:
        d["Args"] = args
    if returns:
        d["Returns"] = returns
    if imm and note is None:
        note = " ".join("{uint8 value %d}" % i for i in range(imm))
    if note:
        d["ImmediateNote"] = note
    if enum:
        d["ArgEnum"] = enum
        d["ArgEnumTypes"] = types
    return d


def opts(spec, h=None):
    """how the harness sees a working directory with (or without) a specification in it"""
    files = {} if spec is None else {"/work/langspec.json": json.dumps(spec)}
    return {"extra": Model(h, FS(files)).stubs()}


class Ctx2:
    """the context with another active specification"""

    def __init__(self, ctx, spec):
        self.ctx, self.spec = ctx, spec

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def harness(self, **types):
        h = self.ctx.harness(**types)
        h.extra = dict(opts(self.spec, h)["extra"])
        return h


@contextlib.contextmanager
def known(ops):
    """the analysis of emitted code knows these opcodes; what they do is not known, so each execution counts"""
    old, imp = dict(teal.OPS), set(teal.IMPURE)
    try:
        for o in ops:
            teal.OPS[o["Name"]] = o
            teal.IMPURE.add(o["Name"])
        yield
    finally:
        teal.OPS.clear()
        teal.OPS.update(old)
        teal.IMPURE.clear()
        teal.IMPURE.update(imp)


def with_ops(*ops):
    s = packaged()
    names = {o["Name"] for o in ops}
    s["Ops"] = [o for o in s["Ops"] if o["Name"] not in names] + list(ops)
    return s


def without(*names):
    s = packaged()
    s["Ops"] = [o for o in s["Ops"] if o["Name"] not in names]
    return s


def call(o, imm):
    """(source of the call, reference, hole types)"""
    a = o.get("Args", "")
    hs = ["{x%d}" % i for i in range(len(a))]
    T = {"x%d" % i: TYPE[k] for i, k in enumerate(a) if k in TYPE}
    return "%s(%s)" % (o["Name"], ", ".join([str(x) for x in imm] + hs)), ["%%E %s" % h for h in hs] + [" ".join([o["Name"]] + [str(x) for x in imm])], T


def use(o, imm):
    """a statement that keeps all results"""
    s, ref, T = call(o, imm)
    rets = o.get("Returns", "")[::-1]       # top of the stack first
    if not rets:
        return [line(s, ref)], T
    vs = [(TYPE.get(r, "bytes"), "v%d" % i) for i, r in enumerate(rets)]
    return ([line("%s %s" % v, []) for v in vs] + [line("%s = %s" % (", ".join(v for t, v in vs), s), ref + ["store $" + v for t, v in vs])]
            + [line('app_global_put("r%d", %s)' % (i, v), ['pushbytes "r%d"' % i, "load $" + v, "app_global_put"]) for i, (t, v) in enumerate(vs)]), T


def valid(ctx, spec, body, T, pre=()):
    src, ref = L.program([("mark", "0")] + body + [("mark", "1"), ("exit", ("i", 1))])
    with known([o for o in spec["Ops"] if o["Doc"] == "new"] if spec else []):
        return equiv(Ctx2(ctx, spec), list(pre) + src, ref, T, marks=True)


def invalid(ctx, spec, lines, T=None):
    return rejected(Ctx2(ctx, spec), list(lines) + ["exit(1)"], T or {})


def signature_ok(o, text):
    """the line shows name, arguments and results of the opcode"""
    if o["Doc"] != "new":
        return o["Name"] in text        # operators and opcodes of variable length have forms of their own
    m = re.fullmatch(r"(\w+)\((.*)\)(?: -> (.*))?", text.strip())
    if not m or m.group(1) != o["Name"]:
        return False
    t = {"U": "int", "B": "bytes", ".": "any"}
    ps = [p.strip() for p in m.group(2).split(",") if p.strip()]
    n = 1 if o.get("ArgEnum") else o["Size"] - 1
    want = [t[x] for x in o.get("Args", "")]
    if [p.split(":")[1].strip() for p in ps[n:]] != want or len(ps) != n + len(want):
        return False
    rets = [r.strip() for r in (m.group(3) or "").split(",") if r.strip()]
    return rets == [t[x] for x in o.get("Returns", "")[::-1]]


NEW = [op("newop"), op("aa1", "U"), op("newlog", "B"), op("anyarg", "."), op("pushnew", "", "U"), op("bytesnew", "", "B"), op("anynew", "", "."), op("sha256x", "B", "B"), op("log2", "U", "U"), op("x_y_2", "UB", "B"), op("mixed", "BU", "UB"), op("mixed2", "BU", "BU"), op("three", "UBU", "BUU"), op("five", "UBUBU", "UUBBU"),
       op("anymix", ".U.", ".U"), op("imm1", "", "", 1), op("imm1r", "U", "B", 1), op("imm2", "UB", "UB", 2), op("imm3", "B", "", 3), op("field1", "", "U", 1, "{uint8 new field index}", ["FieldOne", "FieldTwo", "Another"], "UUU"), op("fieldargs", "UB", ".U", 1, "{uint8 other field index}", ["FieldOne", "Third", "Fee"], "UBU"),
       op("fieldimm", "U", ".", 2, "{uint8 new field index} {uint8 array index}", ["FieldA", "FieldB"], "UB"), op("immfield", "", "U", 2, "{uint8 group index} {uint8 new field index}", ["FieldA", "FieldB"], "UU"), op("int8imm", "U", "U", 1, "{int8 signed value}"),
       op("box_new", "BU", "U"), op("txnx", "U", "U"), op("itob2", "U", "B"), op("b_new", "BB", "B"), op("returns_", "U", ""), op("exit2", "U", "U"), op("assert_all", "UU", ""), op("ec_add", "BB", "B", 1, "{uint8 curve index}", ["BN254g1", "BN254g2"], "UU")]


def run(ctx):
    ctx.rule("new", "an opcode of ./langspec.json can be called with its arguments and results, whatever its signature")
    ctx.rule("types", "arguments and results of an opcode of ./langspec.json have the types given there")
    ctx.rule("missing", "an opcode or field that ./langspec.json does not have is not taken from the packaged specification")
    ctx.rule("changed", "an opcode that ./langspec.json gives another signature has that one")
    ctx.rule("fields", "the fields of Txn, Global and inner transactions are those of the active specification, with their types")
    ctx.rule("packaged", "without ./langspec.json the packaged specification is used")
    ctx.rule("compare", "the new opcodes of a specification are exactly those the other does not have, in their order")
    ctx.rule("fetch", "a branch name or URL leads to the specification of go-algorand there, unaltered")
    allnew = with_ops(*NEW)
    for o in NEW:
        nm = o["Name"]
        n = o["Size"] - 1
        enum = o.get("ArgEnum")
        imms = [[7, 9, 11][:n]]
        if enum and n == 1:
            imms = [[f] for f in enum]
        if enum and n == 2:
            imms = [[f, 9] if o["ImmediateNote"].startswith("{uint8 new") else [9, f] for f in enum]
        for imm in imms:
            ctx.ob("new", "%s %s" % (nm, imm), lambda o=o, imm=imm: valid(ctx, allnew, *use(o, imm)))
        imm = imms[0]
        ctx.ob("new", "%s alone" % nm, lambda o=o, imm=imm: valid(ctx, with_ops(o), *use(o, imm)))
        s, ref, T = call(o, imm)
        args = o.get("Args", "")
        rets = o.get("Returns", "")
        lhs = ", ".join("_" for r in rets) + " = " if rets else ""
        for i, k in enumerate(args):
            if k in TYPE:
                ctx.ob("types", "%s argument %d" % (nm, i), lambda lhs=lhs, s=s, T=T, i=i, k=k: invalid(ctx, allnew, [lhs + s], dict(T, **{"x%d" % i: {"U": "bytes", "B": "int"}[k]})))
            else:
                for t in ("int", "bytes"):
                    ctx.ob("types", "%s argument %d %s" % (nm, i, t), lambda o=o, imm=imm, i=i, t=t: valid(ctx, allnew, use(o, imm)[0], dict(use(o, imm)[1], **{"x%d" % i: t})))
        for i, k in enumerate(rets[::-1]):
            for t in ("int", "bytes"):
                d = "%s v" % t
                st = "%s = %s" % (", ".join("v" if j == i else "_" for j in range(len(rets))), s)
                if k in TYPE and TYPE[k] != t:
                    ctx.ob("types", "%s result %d %s" % (nm, i, t), lambda d=d, st=st, T=T: invalid(ctx, allnew, [d, st], T))
                else:
                    ctx.ob("types", "%s result %d %s" % (nm, i, t), lambda d=d, st=st, T=T, ref=ref, i=i, rets=rets: valid(ctx, allnew, [line(d, []), line(st, ref + ["store $v" if j == i else "pop" for j in range(len(rets))]), line('app_global_put("r", v)', ['pushbytes "r"', "load $v", "app_global_put"])], T))
        full = s[len(nm) + 1:-1].split(", ") if s[-2] != "(" else []
        for what, a in (("fewer", full[:-1]), ("more", full + ["1"])):
            if a != full:
                ctx.ob("types", "%s %s" % (nm, what), lambda lhs=lhs, nm=nm, a=a, T=T: invalid(ctx, allnew, ["%s%s(%s)" % (lhs, nm, ", ".join(a))], T))
        ctx.ob("types", "%s number of results" % nm, lambda lhs=lhs, s=s, T=T: invalid(ctx, allnew, [("_, " + lhs if lhs else "_ = ") + s], T))
        if enum:
            for bad in ("Nope", "Sender", "Amount", "1", "{x}"):
                b = [bad if x in enum else x for x in imm]
                ctx.ob("types", "%s field %s" % (nm, bad), lambda lhs=lhs, s=s, T=T, b=b, nm=nm, full=full, n=n: invalid(ctx, allnew, ["%s%s(%s)" % (lhs, nm, ", ".join([str(x) for x in b] + full[n:]))], T))
        elif n:
            for bad in ("256", "FieldOne", "{x}", '"a"'):
                ctx.ob("types", "%s immediate %s" % (nm, bad), lambda lhs=lhs, T=T, bad=bad, nm=nm, full=full, n=n: invalid(ctx, allnew, ["%s%s(%s)" % (lhs, nm, ", ".join(full[:n - 1] + [bad] + full[n:]))], T))
        ctx.ob("missing", "%s in the packaged specification" % nm, lambda lhs=lhs, s=s, T=T: invalid(ctx, None, [lhs + s], T))
        ctx.ob("missing", "%s in another specification" % nm, lambda lhs=lhs, s=s, T=T, o=o: invalid(ctx, with_ops(*[x for x in NEW if x is not o]), [lhs + s], T))
    # opcodes the active specification does not have
    for nm, s in (("sha256", "log(sha256({b}))"), ("log", "log({b})"), ("sqrt", "assert(sqrt({x}))"), ("addw", "_, _ = addw({x}, {y})"), ("gloads", "assert(gloads(3, {x}))"), ("balance", "assert(balance({x}))"), ("itob", "int q = btoi(itob({x}))"), ("app_global_put", "app_global_put({b}, {x})"), ("acct_params_get", "_, _ = acct_params_get(AcctBalance, {x})")):
        ctx.ob("missing", nm, lambda nm=nm, s=s: invalid(ctx, without(nm), [s], {"x": "int", "y": "int", "b": "bytes"}))
        ctx.ob("missing", "not " + nm, lambda s=s: accepted(ctx, without("sha512_256", "keccak256"), [s], {"x": "int", "y": "int", "b": "bytes"}))
    # functions may have the names of opcodes the active specification does not have
    fn = lambda n: ["log(%s({b}))" % n, "exit(1)", "func %s(p: bytes) bytes:" % n, "    return p", "end"]
    fref = ["%E {b}", "callsub F", "log", "pushint 1", "return", "F:", "store $p", "load $p", "retsub"]
    ctx.ob("missing", "function of the name of an opcode that is gone", lambda: equiv(Ctx2(ctx, without("keccak256")), fn("keccak256"), fref, {"b": "bytes"}))
    ctx.ob("missing", "function of the name of an opcode that is there", lambda: rejected(Ctx2(ctx, packaged()), fn("keccak256"), {"b": "bytes"}))
    ctx.ob("new", "function of the name of a new opcode", lambda: rejected(Ctx2(ctx, allnew), fn("sha256x"), {"b": "bytes"}))
    ctx.ob("packaged", "function of the name of an opcode of another specification", lambda: equiv(Ctx2(ctx, None), fn("sha256x"), fref, {"b": "bytes"}))
    # other signatures
    for o, imm in ((op("sqrt", "UU", "U"), []), (op("sha256", "B", "BU"), []), (op("gload", "U", "U", 1), [3]), (op("concat", "BBB", "B"), []), (op("app_opted_in", "BB", "U"), []), (op("itob", "UU", "B"), []), (op("divw", "BU", "B"), []), (op("bitlen", "U", "U", 1), [8]), (op("block", "U", "U"), []), (op("json_ref", "BB", "B", 1, "{uint8 type index}", ["JSONOther"], "B"), ["JSONOther"]),
                   (op("vrf_verify", "BB", "U", 1, "{uint8 new index}", ["VrfNew"], "U"), ["VrfNew"]), (op("itxnas", "U", "B"), [])):
        nm = o["Name"]
        old = next(x for x in packaged()["Ops"] if x["Name"] == nm)
        if nm in ("concat", "itob"):
            pass
        ctx.ob("changed", nm, lambda o=o, imm=imm: valid(ctx, with_ops(o), *use(o, imm)))
        s, ref, T = call(o, imm)
        lhs = ", ".join("_" for r in o.get("Returns", "")) + " = "
        ctx.ob("changed", nm + " as before", lambda lhs=lhs, s=s, T=T: invalid(ctx, None, [lhs + s], T))
        ctx.ob("packaged", nm, lambda lhs=lhs, s=s, T=T: invalid(ctx, packaged(), [lhs + s], T))
    # fields
    fields(ctx)
    compare(ctx)
    fetch(ctx)
    ctx.assumptions += ["specifications have the form of the packaged one", "the file is read when the package is loaded: one specification for each process"]


def accepted(ctx, spec, lines, T):
    return emitted(Ctx2(ctx, spec), list(lines) + ["exit(1)"], T) and None


def fields(ctx):
    s = packaged()
    for o in s["Ops"]:
        if o["Name"] in ("txn", "gtxn", "gtxns", "itxn", "gitxn"):
            o["ArgEnum"] = [f for f in o["ArgEnum"] if f != "Lease"] + ["NewNumber", "NewBytes", "NewArr", "NewNums"]
            keep = packaged_types(o["Name"])
            o["ArgEnumTypes"] = "".join(keep[f] for f in o["ArgEnum"][:-4]) + "UBBU"
        if o["Name"] in ("txna", "gtxna", "gtxnsa", "itxna", "gitxna", "txnas", "gtxnas", "gtxnsas"):
            o["ArgEnum"] = o["ArgEnum"] + ["NewArr", "NewNums"]
            o["ArgEnumTypes"] = o["ArgEnumTypes"] + "BU"
        if o["Name"] == "global":
            o["ArgEnum"] = [f for f in o["ArgEnum"] if f != "MinBalance"] + ["NewGlobal", "GlobalBytes"]
            keep = packaged_types("global")
            o["ArgEnumTypes"] = "".join(keep[f] for f in o["ArgEnum"][:-2]) + "UB"
        if o["Name"] == "itxn_field":
            o["ArgEnum"] = [f for f in o["ArgEnum"] if f != "Note"] + ["NewNumber", "NewBytes"]
            keep = packaged_types("itxn_field")
            o["ArgEnumTypes"] = "".join(keep[f] for f in o["ArgEnum"][:-2]) + "UB"
    look = {"int": lambda e, r: line("assert(%s)" % e, r + ["assert"]), "bytes": lambda e, r: line("log(%s)" % e, r + ["log"])}
    G = {"Txn.%s": ["txn %s"], "Gtxn[3].%s": ["gtxn 3 %s"], "Gtxn[{i}].%s": ["%%E {i}", "gtxns %s"], "Itxn.%s": ["itxn %s"]}
    A = {"Txn.%s[2]": ["txna %s 2"], "Txn.%s[{j}]": ["%%E {j}", "txnas %s"], "Gtxn[3].%s[2]": ["gtxna 3 %s 2"], "Gtxn[3].%s[{j}]": ["%%E {j}", "gtxnas 3 %s"], "Gtxn[{i}].%s[2]": ["%%E {i}", "gtxnsa %s 2"], "Gtxn[{i}].%s[{j}]": ["%%E {i}", "%%E {j}", "gtxnsas %s"], "Itxn.%s[2]": ["itxna %s 2"]}
    T = {"i": "int", "j": "int"}
    cases = [(e % f, [x % f if "%s" in x else x.replace("%%", "%") for x in r], t) for e, r in G.items() for f, t in (("NewNumber", "int"), ("NewBytes", "bytes"), ("Fee", "int"), ("Sender", "bytes"))]
    cases += [(e % f, [x % f if "%s" in x else x.replace("%%", "%") for x in r], t) for e, r in A.items() for f, t in (("NewArr", "bytes"), ("NewNums", "int"), ("Assets", "int"), ("Accounts", "bytes"))]
    cases += [("Global.NewGlobal", ["global NewGlobal"], "int"), ("Global.GlobalBytes", ["global GlobalBytes"], "bytes"), ("Global.MinTxnFee", ["global MinTxnFee"], "int")]
    for e, r, t in cases:
        other = {"int": "bytes", "bytes": "int"}[t]
        ctx.ob("fields", "%s is %s" % (e, t), lambda e=e, r=r, t=t: valid(ctx, s, [look[t](e, r), line("%s v = %s" % (t, e), r + ["store $v"]), look[t]("v", ["load $v"])], T))
        ctx.ob("fields", "%s is not %s" % (e, other), lambda e=e, other=other: invalid(ctx, s, ["%s v = %s" % (other, e)], T))
        if "New" in e or "GlobalB" in e:
            ctx.ob("packaged", e, lambda e=e, t=t: invalid(ctx, None, ["%s v = %s" % (t, e)], T))
    for e in ["Txn.Lease", "Gtxn[1].Lease", "Gtxn[{i}].Lease", "Itxn.Lease", "Global.MinBalance", "Txn.NewGlobal", "Global.NewNumber", "Txn.NewArr", "Txn.NewNumber[1]", "Txn.Sender[1]", "Gtxn[1].NewNums", "Itxn.NewArr"]:
        ctx.ob("fields", "%s is gone" % e, lambda e=e: invalid(ctx, s, ["%s v = %s" % ("int" if "Balance" in e or "Num" in e else "bytes", e)], T))
    inner = lambda f, v: ["inner_txn:", "    TypeEnum: Pay", "    %s: %s" % (f, v), "end"]
    for f, h in (("NewNumber", "i"), ("NewBytes", "b"), ("Fee", "i")):
        ctx.ob("fields", "inner transaction " + f, lambda f=f, h=h: valid(ctx, s, [("line", inner(f, "{%s}" % h), ["itxn_begin", "pushint 1", "itxn_field TypeEnum", "%%E {%s}" % h, "itxn_field " + f, "itxn_submit"])], {"i": "int", "b": "bytes"}))
    for f, h in (("Note", "b"), ("NewGlobal", "i"), ("NewArr", "b")):
        ctx.ob("fields", "inner transaction has no " + f, lambda f=f, h=h: invalid(ctx, s, inner(f, "{%s}" % h), {"i": "int", "b": "bytes"}))
    for f, h in (("NewNumber", "i"), ("NewBytes", "b")):
        ctx.ob("packaged", "inner transaction " + f, lambda f=f, h=h: invalid(ctx, None, inner(f, "{%s}" % h), {"i": "int", "b": "bytes"}))
    # constants can not have the names of fields of the active specification
    for n, sp, bad in (("NewNumber", s, True), ("NewNumber", None, False), ("Lease", None, True), ("FieldOne", with_ops(*NEW), True), ("FieldOne", None, False)):
        if bad:
            ctx.ob("fields", "constant %s %s" % (n, sp is None), lambda n=n, sp=sp: invalid(ctx, sp, ["const int %s = 5" % n]))
        else:
            ctx.ob("fields", "constant %s %s" % (n, sp is None), lambda n=n, sp=sp: accepted(ctx, sp, ["const int %s = 5" % n], {}))


def packaged_types(name):
    o = next(x for x in packaged()["Ops"] if x["Name"] == name)
    return dict(zip(o["ArgEnum"], o["ArgEnumTypes"]))


def call_langspec(ctx, fn, files=None):
    """fn(it, module attributes) -> value, with LangSpec objects built by the source"""
    h = ctx.harness()
    h.steps = 10 ** 8
    h.extra = dict(Model(h, FS(files or {})).stubs())
    out = []

    def go(it, reverse):
        it.reverse_sets = reverse       # no answer depends on the order of sets
        return fn(it, lambda n: it.modattr(it.repo.modules["tealish.langspec"], n))
    for r in list(h.explore(lambda it: go(it, False))) + list(h.explore(lambda it: go(it, True))):
        if r.outcome != "return":
            raise Violation("comparing specifications ends in %s" % (exc_text(r) if r.outcome == "raise" else r.value), where_of(r), "", sub="raises")
        out.append(r)
    ctx.note(out)
    return out


def compare(ctx):
    base = packaged()
    names = [o["Name"] for o in base["Ops"]]
    more = {"none": [], "one": [NEW[0]], "several": NEW[5:12], "first": None}
    specs = {"packaged": base, "several": with_ops(*NEW[5:12]), "immediates": with_ops(*NEW[15:24]), "one": with_ops(NEW[0]), "fewer": without("addw", "itob", "sha256"), "changed": with_ops(op("sqrt", "UU", "U")), "front": dict(base, Ops=[NEW[3]] + base["Ops"][::-1] + [NEW[7]]), "few": without(*[n for n in names if n not in ("txn", "txna", "global", "itxn_field")]),
             "both": dict(base, Ops=[o for o in with_ops(*NEW[2:6])["Ops"] if o["Name"] not in ("balance", "err", "log")])}
    own = [o["Name"] for o in [{"Name": "method"}]]
    for an, a in specs.items():
        for bn, b in specs.items():
            def f(a=a, b=b, an=an, bn=bn):
                na, nb = [o["Name"] for o in a["Ops"]], [o["Name"] for o in b["Ops"]]

                def fn(it, g):
                    la, lb = (it.call(g("LangSpec"), [to_abs(copy.deepcopy(x))], {}) for x in (a, b))
                    x = it.call(g("compare_langspecs"), [la, lb], {})
                    y = it.call(it.getattr(lb, "new_ops"), [la], {})
                    return x, y, it.call(it.getattr(la, "as_dict"), [], {})
                for r in call_langspec(ctx, fn):
                    x, y, d = r.value
                    from ..clim import topy
                    x, y, d = topy(x), topy(y), topy(d)
                    want = [[n for n in na if n not in nb], [n for n in nb if n not in na]]
                    if x != want:
                        raise Violation("compare_langspecs of %s and %s is %s; expected %s" % (an, bn, x, want), [], "", sub="compare")
                    if y != want[1]:
                        raise Violation("new_ops of %s compared with %s is %s; expected %s" % (bn, an, y, want[1]), [], "", sub="new_ops")
                    if d != a:
                        raise Violation("as_dict of a specification is another specification", [], "", sub="as_dict")
            ctx.ob("compare", "%s / %s" % (an, bn), f)
    for bn, b in list(specs.items()) + [("nothing", None)]:
        def f(b=b, bn=bn):
            files = {} if b is None else {"/work/langspec.json": json.dumps(b)}
            want = [] if b is None else [o["Name"] for o in b["Ops"] if o["Name"] not in names]

            def fn(it, g):
                return it.call(g("get_new_local_ops"), [], {}), it.call(it.getattr(it.call(g("get_active_langspec"), [], {}), "as_dict"), [], {}), it.getattr(it.call(g("get_active_langspec"), [], {}), "is_packaged")
            for r in call_langspec(ctx, fn, files):
                from ..clim import topy
                x, d, p = topy(r.value[0]), topy(r.value[1]), r.value[2]
                if x != want:
                    raise Violation("get_new_local_ops with %s in ./langspec.json is %s; expected %s" % (bn, x, want), [], "", sub="local")
                if d != (base if b is None else b) or bool(p) != (b is None):
                    raise Violation("the active specification is not that of ./langspec.json or, without it, the packaged one", [], "", sub="active")
        ctx.ob("compare", "local %s" % bn, f)
        for args in ((), ("master",)):
            for net_n in ("several", "packaged", "both", "immediates"):
                def f(b=b, bn=bn, args=args, net=specs[net_n], net_n=net_n):
                    files = {} if b is None else {"/work/langspec.json": json.dumps(b)}
                    if args:
                        old, new = (base if b is None else b), net
                    else:
                        old, new = base, (base if b is None else b)
                    have = {o["Name"] for o in old["Ops"]}
                    show_ops(ctx, ["langspec", "diff"], list(args), files, net, [o for o in new["Ops"] if o["Name"] not in have])
                if args or net_n == "several":
                    ctx.ob("compare", "diff %s %s local %s" % (args, net_n, bn), f)
    for net_n, net in specs.items():
        want = [o for o in net["Ops"] if o["Name"] not in names]
        for words, args in ((["langspec", "fetch"], ["master"]), (["langspec", "update"], [])):
            ctx.ob("compare", "%s %s" % (words[1], net_n), lambda words=words, args=args, net=net, want=want: show_ops(ctx, words, args, {}, net, want))
            ctx.ob("compare", "%s %s with another local one" % (words[1], net_n), lambda words=words, args=args, net=net, want=want: show_ops(ctx, words, args, {"/work/langspec.json": json.dumps(specs["both"])}, net, want))


def show_ops(ctx, words, args, files, net, want):
    for o in command(ctx, words, args, files, net=net):
        if not o.ok:
            raise Violation("`tealish %s` ends in %s" % (" ".join(words), exc_text(o.r)), where_of(o.r), "", sub="raises")
        ls = [l for l in "\n".join(x if isinstance(x, str) else showt(x) for x in o.m.out).split("\n") if l.strip()]
        ls = [l for l in ls if not l.rstrip().endswith(":")]
        if len(ls) != len(want) or not all(signature_ok(w, l) for w, l in zip(want, ls)):
            raise Violation("`tealish %s` shows %s as the new opcodes; expected %s" % (" ".join(words), ls, [(w["Name"], w.get("Args", ""), w.get("Returns", "")) for w in want]), [], "", sub="shown")


URL = "https://github.com/algorand/go-algorand/raw/%s/data/transactions/logic/langspec.json"
URLS = {"master": URL % "master", "feature/avm-box": URL % "feature/avm-box", "v3.9.2-stable": URL % "v3.9.2-stable", "rel/blob-fix": URL % "rel/blob-fix", "dependabot/http-proxy": URL % "dependabot/http-proxy", "http2": URL % "http2", "github.com-mirror": URL % "github.com-mirror",
        "https://github.com/algorand/go-algorand/blob/master/data/transactions/logic/langspec.json": URL % "master", "https://github.com/algorand/go-algorand/raw/x/data/transactions/logic/langspec.json": URL % "x",
        "https://github.com/algorand/go-algorand/blob/blobs/data/transactions/logic/langspec.json": URL % "blobs", "https://github.com/me/blobby/blob/x/langspec.json": "https://github.com/me/blobby/raw/x/langspec.json",
        "http://github.com/me/x/blob/x/langspec.json": "http://github.com/me/x/raw/x/langspec.json", "https://www.github.com/me/x/blob/x/blob/langspec.json": "https://www.github.com/me/x/raw/x/blob/langspec.json", "https://example.com/blob/langspec.json": "https://example.com/blob/langspec.json", "http://localhost:8000/langspec.json": "http://localhost:8000/langspec.json", "https://raw.githubusercontent.com/a/b/c/langspec.json": "https://raw.githubusercontent.com/a/b/c/langspec.json"}


def fetch(ctx):
    spec = with_ops(NEW[0], NEW[7])
    for u, want in URLS.items():
        def f(u=u, want=want):
            for words in (["langspec", "fetch"], ["langspec", "diff"]):
                for o in command(ctx, words, [u], {}, net=spec):
                    if not o.ok:
                        raise Violation("`tealish %s %s` ends in %s" % (" ".join(words), u, exc_text(o.r)), where_of(o.r), "", sub="raises")
                    got = [x[1] for x in o.fs.log if x[0] == "get"]
                    if got != [want]:
                        raise Violation("`tealish %s %s` reads %s; expected %s" % (" ".join(words), u, got, want), [], "", sub="url")
                    if words[1] == "fetch" and json.loads(o.changed.get("/work/langspec.json", "0")) != spec:
                        raise Violation("`tealish langspec fetch %s` does not write the specification that was read" % u, [], "", sub="content")
        ctx.ob("fetch", u, f)
