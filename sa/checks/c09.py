"""Standard library functions: the emitted code of every documented Tealish function is equivalent,
for all values of its arguments, to its documented meaning - values, run-time assertions and their
bounds - in every place an expression can stand and nested in each other."""
import hashlib
import itertools

from .common import *
from ..families import line
from ..teal import OPS
from .. import lang as L
from .types_rel import *

FLOOR = 250
X, Y = "%E {x}", "%E {y}"
SIZES = [1, 2, 3, 7, 8, 9, 10, 31, 32, 33, 64, 100, 127, 128, 255, 256, 300, 1000, 1024, 4096]
UINT = {"int": 8, "uint64": 8, "uint8": 1}


def alen(n):
    return ["dup", "len", "pushint %d" % n, "==", "assert"]


def abits(n):
    return ["dup", "bitlen", "pushint %d" % (8 * n), "<=", "assert"]


def zpad(n):
    return ["pushint %d" % n, "bzero", "b|"]


def uint_bytes(n):
    """int on the stack -> its n bytes big-endian"""
    return ["itob"] + (["extract %d %d" % (8 - n, n)] if n < 8 else zpad(n) if n > 8 else [])


def functions(thorough):
    """(name, source expression, alternative references, hole types, result type)"""
    S = SIZES + ([n for n in range(1, 70)] if thorough else [])
    S = sorted(set(S))
    # Cast: treated as the type, with a run-time assertion of the size
    for n in S:
        for u in ["bytes", "any", "bytes[%d]" % (n + 1), "bytes[%d]" % n, "uint8[%d]" % n, "Item", "addr", "bigint"]:
            m = kind(u)[1]
            if (u == "any" or m is not None and m != n) and n not in (1, 8, 9, 32, 52, 256, 1024) and not thorough:
                continue
            yield "Cast", "Cast({x}, bytes[%d])" % n, [[X] + alen(n)] + ([[X]] if m == n else []), {"x": u}, "bytes[%d]" % n
        if n < 300:
            yield "Cast", "Cast({x}, uint8[%d])" % n, [[X] + alen(n)], {"x": "bytes"}, "uint8[%d]" % n
    for t, n in (("Item", 52), ("Other", 9), ("addr", 32)):
        for u in ("bytes", "any", "bytes[%d]" % n, "bytes[%d]" % (n + 1), "Same"):
            yield "Cast", "Cast({x}, %s)" % t, [[X] + alen(n)] + ([[X]] if kind(u)[1] == n else []), {"x": u}, t
    for t, n in UINT.items():
        for u in ("int", "uint8", "uint64", "uint<1>", "uint<8>"):
            yield "Cast", "Cast({x}, %s)" % t, [[X] + abits(n)] + ([[X]] if kind(u)[1] <= n else []), {"x": u}, "int" if n == 8 else t
    for u in ("bytes", "bytes[5]", "Item", "addr"):
        yield "Cast", "Cast({x}, bytes)", [[X]], {"x": u}, "bytes"
    # UncheckedCast: no assertion, any number of values
    for t in ["int", "uint8", "uint64", "bytes", "bytes[9]", "bytes[300]", "addr", "bigint", "Item", "uint8[4]"]:
        for u in ("any", "int", "bytes", "bytes[7]", "Other"):
            yield "UncheckedCast", "UncheckedCast({x}, %s)" % t, [[X]], {"x": u}, t
    # EnsureType: run-time assertion of the size where it is not known
    for n in S:
        for u in ("bytes", "any", "bytes[%d]" % (n + 1), "bytes[%d]" % n, "Item"):
            m = kind(u)[1]
            if u not in ("bytes", "any") and n not in (1, 8, 9, 32, 52, 256, 1024) and not thorough:
                continue
            yield "EnsureType", "EnsureType({x}, bytes[%d])" % n, [[X] + alen(n)] if m != n else [[X], [X] + alen(n)], {"x": u}, "bytes[%d]" % n
    for t, n in (("Item", 52), ("Other", 9), ("addr", 32)):
        yield "EnsureType", "EnsureType({x}, %s)" % t, [[X] + alen(n)], {"x": "bytes"}, t
    for u in ("int", "any", "uint<2>"):
        yield "EnsureType", "EnsureType({x}, uint8)", [[X] + abits(1)], {"x": u}, "uint8"
    yield "EnsureType", "EnsureType({x}, uint8)", [[X], [X] + abits(1)], {"x": "uint8"}, "uint8"
    # an unsized type asserts nothing, whatever is given
    for u in ("bytes", "bytes[5]", "Item", "addr", "any", "uint8[4]"):
        yield "EnsureType", "EnsureType({x}, bytes)", [[X]], {"x": u}, "bytes"
    for u in ("int", "any", "uint8", "uint<2>", "uint64"):
        for t in ("int", "uint64"):
            yield "EnsureType", "EnsureType({x}, %s)" % t, [[X], [X] + abits(8)], {"x": u}, "int"
    # Convert between int and bytes
    for n in [n for n in S if n <= 128]:
        for u in ("int", "uint8", "uint64", "uint<4>"):
            full = [X] + (abits(n)) + uint_bytes(n)
            yield "Convert", "Convert({x}, bytes[%d])" % n, [full] + ([[X] + uint_bytes(n)] if n >= kind(u)[1] else []), {"x": u}, "bytes[%d]" % n
    for u in ("int", "uint8"):
        yield "Convert", "Convert({x}, bytes)", [[X, "itob"]], {"x": u}, "bytes"
    for u in ("bytes", "bytes[8]", "bytes[1]", "bytes[20]", "uint8[4]", "bigint"):
        for t, n in UINT.items():
            yield "Convert", "Convert({x}, %s)" % t, [[X, "btoi"] + abits(n)] + ([[X, "btoi"]] if n == 8 or (kind(u)[1] or 9) <= n else []), {"x": u}, t
    for n in [n for n in S if n <= 128]:
        for u in ("int", "uint8", "uint64"):
            yield "ToBytes", "ToBytes({x}, %d)" % n, [[X] + uint_bytes(n)], {"x": u}, "bytes[%d]" % n
    for u in ("bytes", "bytes[8]", "bytes[1]", "Item"):
        yield "FromBytes", "FromBytes({x}, int)", [[X, "btoi"]], {"x": u}, "int"
    # padding: longer values fail
    for f, tail in (("Rpad", ["concat"]), ("Lpad", ["swap", "concat"])):
        for n in [0] + S:
            for u in ("bytes", "bytes[%d]" % max(n - 1, 1)):
                if u != "bytes" and n not in (1, 9, 32, 256) and not thorough:
                    continue
                yield f, "%s({x}, %d)" % (f, n), [[X, "dup", "len", "pushint %d" % n, "swap", "-", "bzero"] + tail], {"x": u}, "bytes[%d]" % n if n else "bytes"
        for e, n in (("SizeOf(Item)", 52), ("SizeOf(Other)", 9), ("K9", 9), ("0012", 12), ("KBIG", 600)):
            yield f, "%s({x}, %s)" % (f, e), [[X, "dup", "len", "pushint %d" % n, "swap", "-", "bzero"] + tail], {"x": "bytes"}, "bytes[%d]" % n
    for n in range(1, 8):
        hs = ["x%d" % i for i in range(n)]
        yield "Concat", "Concat(%s)" % ", ".join("{%s}" % h for h in hs), [["%%E {%s}" % h for h in hs] + ["concat"] * (n - 1), ["%E {x0}"] + list(itertools.chain(*[["%%E {%s}" % h, "concat"] for h in hs[1:]]))], {h: ["bytes", "bytes[3]", "Item", "any"][i % 4] for i, h in enumerate(hs)}, "bytes"
    for s, n in (("Item", 52), ("Other", 9), ("Same", 52), ("Nest", 63), ("Big", 300), ("int", 8), ("uint8", 1), ("bytes[7]", 7), ("addr", 32), ("uint8[5]", 5)):
        yield "SizeOf", "SizeOf(%s)" % s, [["pushint %d" % n]], {}, "int"
    for a in ("RIKLQ5HEVXAOAWYSW2LGQFYGWVO4J6LIAQQ72ZRULHZ4KS5NRPCCKYPCUU", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"):
        yield "Address", 'Address("%s")' % a, [["addr " + a]], {}, "bytes"
    for sig in ("set_manager(address)", "e()", "transfer(address,address,uint64)", "swap(uint64,(byte[32],uint64)[],string)", "x" * 70 + "(uint64)"):
        pre = hashlib.new("sha512_256", sig.encode()).hexdigest()[:8]
        for n in range(0, 5):
            hs = ["x%d" % i for i in range(n)]
            yield "ARC28Event", 'ARC28Event("%s"%s)' % (sig, "".join(", {%s}" % h for h in hs)), [["pushbytes 0x" + pre] + ["%%E {%s}" % h for h in hs] + ["concat"] * n, ["pushbytes 0x" + pre] + list(itertools.chain(*[["%%E {%s}" % h, "concat"] for h in hs]))], {h: ["bytes", "bytes[32]", "Item"][i % 3] for i, h in enumerate(hs)}, "bytes"
    for e, n in (("0", 0), ("1", 1), ("32", 32), ("255", 255), ("256", 256), ("4096", 4096), ("SizeOf(Item)", 52), ("K9", 9), ("KBIG", 600), ("SizeOf(Big)", 300)):
        yield "bzero", "bzero(%s)" % e, [["pushint %d" % n, "bzero"]], {}, "bytes[%d]" % n if n else "bytes"
    yield "bzero", "bzero({x})", [[X, "bzero"]], {"x": "int"}, "bytes"
    yield "bzero", "bzero({x} + {y})", [[X, Y, "+", "bzero"]], {"x": "int", "y": "int"}, "bytes"


PRE = DEFS + ["struct Nest:", "    na: Item", "    nb: Other", "    nc: uint8[2]", "end", "struct Big:", "    ba: bytes[256]", "    bb: uint8[44]", "end", "const int K9 = 9", "const int KBIG = 600"]
EX = ("exit", ("i", 1))


def places(e, ref, T):
    """name -> body, funcs, extra hole types: the expression (of type T) in every kind of place"""
    E = ("raw", e, ref)
    isint = kind(T)[0] == "int"
    P = {}
    if isint:
        P["assert"] = [("assert", E)]
        P["plus-left"] = [line("assert(%s + {y1})" % e, ref + ["%E {y1}", "+", "assert"])]
        P["plus-right"] = [line("assert({y1} - %s)" % e, ["%E {y1}"] + ref + ["-", "assert"])]
        P["group"] = [line("assert(({y1} < %s) && {y2})" % e, ["%E {y1}"] + ref + ["<", "%E {y2}", "&&", "assert"])]
        P["not"] = [line("assert(!%s)" % e, ref + ["!", "assert"])]
        P["if"] = [("if", [(False, E, [("assert", ("h", "y1"))])], None)]
        P["while"] = [("while", True, E, [("assert", ("h", "y1"))])]
        P["op-arg"] = [line("log(itob(%s))" % e, ref + ["itob", "log"])]
        P["index"] = [line("log(Txn.ApplicationArgs[%s])" % e, ref + ["txnas ApplicationArgs", "log"])]
        P["exit"] = [("if", [(False, ("h", "y1"), [("exit", E)])], None)]
        P["inner"] = [line(["inner_txn:", "    TypeEnum: Pay", "    Amount: %s" % e, "end"], ["itxn_begin", "pushint 1", "itxn_field TypeEnum"] + ref + ["itxn_field Amount", "itxn_submit"])]
    else:
        P["log"] = [line("log(%s)" % e, ref + ["log"])]
        P["eq-left"] = [line("assert(%s == {y1})" % e, ref + ["%E {y1}", "==", "assert"])]
        P["eq-right"] = [line("assert({y1} == %s)" % e, ["%E {y1}"] + ref + ["==", "assert"])]
        P["op-arg"] = [line("log(concat({y1}, %s))" % e, ["%E {y1}"] + ref + ["concat", "log"])]
        P["op-arg-first"] = [line("log(concat(%s, {y1}))" % e, ref + ["%E {y1}", "concat", "log"])]
        P["nested-concat"] = [line("log(Concat({y1}, %s, {y2}))" % e, ["%E {y1}"] + ref + ["concat", "%E {y2}", "concat", "log"])]
        P["key"] = [line("box<Item> bxk = Box(%s)" % e, ref + ["store $bxk"])]
        P["inner"] = [line(["inner_txn:", "    TypeEnum: Pay", "    Note: %s" % e, "end"], ["itxn_begin", "pushint 1", "itxn_field TypeEnum"] + ref + ["itxn_field Note", "itxn_submit"])]
        P["event"] = [line('log(ARC28Event("e()", %s))' % e, ["pushbytes 0x" + hashlib.new("sha512_256", b"e()").hexdigest()[:8]] + ref + ["concat", "log"])]
        P["rpad"] = [line("log(Rpad(%s, 400))" % e, ref + ["dup", "len", "pushint 400", "swap", "-", "bzero", "concat", "log"])] if T != "any" else None
        P["frombytes"] = [line("assert(FromBytes(%s, int))" % e, ref + ["btoi", "assert"])] if T != "any" else None
    P["unchecked"] = [line("%s(UncheckedCast(%s, %s))" % (("assert", e, "int") if isint else ("log", e, "bytes")), ref + ["assert" if isint else "log"])]
    P["discard"] = [line("_ = " + e, ref + ["pop"])]
    if not T.startswith("box"):
        P["decl"] = [("decl", T, "v", E), ("use", T)]
        P["assign"] = [("decl", T, "v", None), ("set", ["v"], E), ("use", T)]
        P["arg"] = ([("call", "f", [E])], [("func", "f", [("p", T)], [], [line("%s(p)" % ("assert" if isint else "log"), ["load $p", "assert" if isint else "log"]), ("return", [])])])
        P["return"] = ([("decl", T, "v", ("call", "f", [])), ("use", T)], [("func", "f", [], [T], [("return", [E])])])
        P["return-2nd"] = ([("decl", T, "v", None), ("set", ["_", "v"], ("call", "f", [])), ("use", T)], [("func", "f", [], ["int", T], [("return", [("i", 3), E])])])
    P["while-if"] = [("while", False, ("h", "y1"), [("if", [(False, ("h", "y2"), [line("_ = " + e, ref + ["pop"])])], [("break",)])])]
    return {k: v for k, v in P.items() if v is not None}


def use(x, T):
    w = "assert" if kind(T)[0] == "int" else "log"
    return line("%s(v)" % w, ["load $v", w]) if x == ("use", T) else x


def try_all(ctx, src, refs, types):
    last = None
    for r in refs:
        try:
            return equiv(ctx, src, r, types)
        except Violation as v:
            last = last or v
    raise last


def one(ctx, body, T, funcs, types):
    def f():
        refs = []
        for b, fs in zip(body, funcs):
            src, r = L.program([use(s, T) for s in b] + [EX] + fs)
            refs.append(r)
        return try_all(ctx, PRE + src, refs, dict({"y1": "any", "y2": "any"}, **types))
    return f


def split(p):
    return p if isinstance(p, tuple) else (p, [])


def run(ctx):
    ctx.rule("function", "the emitted code computes the documented value and fails exactly when documented")
    ctx.rule("place", "... wherever the call stands")
    ctx.rule("nest", "... with every standard library function as argument of every other")
    ctx.rule("multi", "functions of several values treat each of them")
    ctx.rule("push-pop", "push leaves its values on the stack in order, pop takes the top one")
    ctx.rule("error", "Error() always fails")
    ctx.rule("constant", "sizes are known at compile time or the call is rejected")
    seen, reps = set(), {}
    for name, e, refs, types, T in functions(ctx.thorough):
        k = "%s %s" % (e, ",".join(types.values()) if len(types) < 2 else "")
        if k in seen:
            continue
        seen.add(k)
        w = "assert" if kind(T)[0] == "int" else "log"
        ctx.ob("function", k, lambda e=e, refs=refs, types=types, w=w: try_all(ctx, PRE + ["%s(%s)" % (w, e), "exit(1)"], [r + [w, "pushint 1", "return"] for r in refs], types))
        reps.setdefault((name, kind(T)[0] == "int", len(refs) > 1 and name == "Convert"), []).append((name, e, refs, types, T))
    chosen = []
    for k, v in reps.items():
        chosen += [v[len(v) // 2]] if not ctx.thorough else v[:: max(len(v) // 6, 1)]
    for name, e, refs, types, T in chosen:
        for pn in places(e, refs[0], T):
            ps = [split(places(e, r, T)[pn]) for r in refs]
            ctx.ob("place", "%s@%s %s" % (e, pn, ",".join(types.values())), one(ctx, [p[0] for p in ps], T, [p[1] for p in ps], types))
    nests(ctx)
    multi(ctx)
    pushpop(ctx)
    constants(ctx)
    ctx.assumptions += ["ToBytes of a bigint and FromBytes to other types than int are undocumented and not specified here", "assertions that cannot fail because the type guarantees the size may be omitted"]


BY = {"Concat": ("Concat({%s}, {b9})", lambda r: r + ["%E {b9}", "concat"]), "Rpad": ("Rpad({%s}, 20)", lambda r: r + ["dup", "len", "pushint 20", "swap", "-", "bzero", "concat"]),
      "Lpad": ("Lpad({%s}, 20)", lambda r: r + ["dup", "len", "pushint 20", "swap", "-", "bzero", "swap", "concat"]), "Cast": ("Cast({%s}, bytes[21])", lambda r: r + alen(21)),
      "Ensure": ("EnsureType({%s}, bytes[22])", lambda r: r + alen(22)), "Unchecked": ("UncheckedCast({%s}, bytes[23])", lambda r: r), "Event": ('ARC28Event("e()", {%s})', lambda r: ["pushbytes 0x" + hashlib.new("sha512_256", b"e()").hexdigest()[:8]] + r + ["concat"])}
TOINT = {"FromBytes": ("FromBytes({%s}, int)", lambda r: r + ["btoi"]), "Convert": ("Convert({%s}, uint8)", lambda r: r + ["btoi"] + abits(1))}
FROMINT = {"ToBytes": ("ToBytes({%s}, 5)", lambda r: r + uint_bytes(5)), "Convert": ("Convert({%s}, bytes[3])", lambda r: r + abits(3) + uint_bytes(3)), "bzero": ("bzero({%s})", lambda r: r + ["bzero"])}
INT = {"Cast": ("Cast({%s}, uint8)", lambda r: r + abits(1)), "Ensure": ("EnsureType({%s}, uint8)", lambda r: r + abits(1)), "Unchecked": ("UncheckedCast({%s}, uint8)", lambda r: r)}


def nests(ctx):
    groups = [("bytes", BY, "bytes"), ("bytes", TOINT, "int"), ("int", FROMINT, "bytes"), ("int", INT, "int")]
    fs = [("%s" % n, a, f, b) for a, g, b in groups for n, f in g.items()]
    for n1, a1, f1, b1 in fs:
        for n2, a2, f2, b2 in fs:
            if a2 != b1:
                continue
            e = f2[0].replace("{%s}", f1[0].replace("{%s}", "{x}"))
            r = f2[1](f1[1]([X]))
            w = "assert" if b2 == "int" else "log"
            alts = [r]
            if n1 in ("Cast", "Ensure") and n2 == n1 or (n1, n2) in (("Convert", "Cast"), ("Convert", "Ensure"), ("Unchecked", "Cast"), ("Unchecked", "Ensure"), ("Cast", "Ensure"), ("Ensure", "Cast")) and b2 == "int" and a2 == "int":
                alts.append(f1[1]([X]))
            ctx.ob("nest", e, lambda e=e, alts=alts, w=w, a1=a1: try_all(ctx, PRE + ["%s(%s)" % (w, e), "exit(1)"], [r + [w, "pushint 1", "return"] for r in alts], {"x": a1, "b9": "bytes"}))
            if ctx.thorough or n1 != n2:
                for n3, a3, f3, b3 in fs:
                    if a3 != b2 or not ctx.thorough or len({n1, n2, n3}) < 3 or b2 == "int" and a2 == "int":
                        continue
                    if "int" in (b1, b2) and n3 in ("Cast", "Ensure"):
                        continue
                    e3 = f3[0].replace("{%s}", e)
                    r3 = [f3[1](x) for x in alts]
                    w3 = "assert" if b3 == "int" else "log"
                    ctx.ob("nest", e3, lambda e3=e3, r3=r3, w3=w3, a1=a1: try_all(ctx, PRE + ["%s(%s)" % (w3, e3), "exit(1)"], [r + [w3, "pushint 1", "return"] for r in r3], {"x": a1, "b9": "bytes"}))


def multi(ctx):
    """a call of several values: the types are listed from the top of the stack"""
    def chk(i, t, u):
        n = kind(t)[1]
        if kind(t)[0] == "int":
            return [("dig %d" % i) if i else "dup", "bitlen", "pushint %d" % (8 * n), "<=", "assert"] if n < 8 and kind(u)[1] != n else []
        return [("dig %d" % i) if i else "dup", "len", "pushint %d" % n, "==", "assert"] if n and kind(u)[1] != n else []
    combos = list(itertools.product(("bytes[9]", "uint8", "bytes", "Item"), repeat=2)) + [("bytes[9]", "uint8", "bytes[3]"), ("bytes", "Item", "uint8"), ("uint8", "uint8", "uint8"), ("bytes[1]", "bytes[2]", "bytes[3]"), ("bytes[1]", "int", "bytes", "Item")]
    for us in combos:
        rets = [("int" if kind(t)[0] == "int" else "bytes") for t in us]
        F = ["func f() %s:" % ", ".join(rets), "    return %s" % ", ".join("{r%d}" % i for i in range(len(us))), "end"]
        FR = ["F:"] + ["%%E {r%d}" % i for i in reversed(range(len(us)))] + ["retsub"]
        names = ["v%d" % i for i in range(len(us))]
        decl = ["%s v%d" % (t, i) for i, t in enumerate(us)]
        uses, usesr = [], []
        for i, t in enumerate(us):
            w = "assert" if kind(t)[0] == "int" else "log"
            uses.append("%s(v%d)" % (w, i))
            usesr += ["load $v%d" % i, w]
        ty = {"r%d" % i: r for i, r in enumerate(rets)}
        for fn in ("EnsureType", "UncheckedCast"):
            body = decl + ["%s = %s(f(), %s)" % (", ".join(names), fn, ", ".join(us))] + uses + ["exit(1)"]
            checks = []
            if fn == "EnsureType":
                for i, t in enumerate(us):
                    checks += chk(i, t, rets[i])
            ref = ["callsub F"] + checks + ["store $v%d" % i for i in range(len(us))] + usesr + ["pushint 1", "return"] + FR
            ctx.ob("multi", "%s %s" % (fn, us), lambda body=body, F=F, ref=ref, ty=ty: equiv(ctx, PRE + body + F, ref, ty))
    for op, refop, rets in (("app_global_get_ex({i}, {b})", ["%E {i}", "%E {b}", "app_global_get_ex"], ("int", "bytes[9]")), ("box_get({b})", ["%E {b}", "box_get"], ("int", "Item")), ("asset_params_get(AssetName, {i})", ["%E {i}", "asset_params_get AssetName"], ("int", "bytes[9]"))):
        for fn in ("EnsureType", "UncheckedCast"):
            body = ["int e", "%s v" % rets[1], "e, v = %s(%s, int, %s)" % (fn, op, rets[1]), "assert(e)", "log(v)", "exit(1)"]
            ref = refop + (chk(1, rets[1], "bytes") if fn == "EnsureType" else []) + ["store $e", "store $v", "load $e", "assert", "load $v", "log", "pushint 1", "return"]
            ctx.ob("multi", "%s %s" % (fn, op), lambda body=body, ref=ref: equiv(ctx, PRE + body, ref, {"i": "int", "b": "bytes"}))


def pushpop(ctx):
    for n in (1, 2, 3, 4):
        hs = ["x%d" % i for i in range(n)]
        for ts in itertools.product(("int", "bytes"), repeat=n) if n < 4 else [("int", "bytes", "int", "bytes")]:
            src = ["push(%s)" % ", ".join("{%s}" % h for h in hs)]
            ref = ["%%E {%s}" % h for h in hs]
            for i in reversed(range(n)):
                src.append("%s v%d = pop()" % (ts[i], i))
                ref.append("store $v%d" % i)
            for i, t in enumerate(ts):
                w = "assert" if t == "int" else "log"
                src.append("%s(v%d)" % (w, i))
                ref += ["load $v%d" % i, w]
            ctx.ob("push-pop", "push %s" % (ts,), lambda src=src, ref=ref, ts=ts: equiv(ctx, src + ["exit(1)"], ref + ["pushint 1", "return"], {"x%d" % i: t for i, t in enumerate(ts)}))
            one_ = ["push({%s})" % h for h in hs]
            ctx.ob("push-pop", "push one by one %s" % (ts,), lambda src=one_ + src[1:], ref=ref, ts=ts: equiv(ctx, src + ["exit(1)"], ref + ["pushint 1", "return"], {"x%d" % i: t for i, t in enumerate(ts)}))
    ctx.ob("push-pop", "pop in expression", lambda: equiv(ctx, ["push({x}, {y})", "assert({z} + pop() + 0)" if False else "assert(pop() == {z})", "assert(pop())", "exit(1)"], ["%E {x}", "%E {y}", "%E {z}", "==", "assert", "assert", "pushint 1", "return"], {"x": "int", "y": "int", "z": "int"}))
    ctx.ob("push-pop", "pop as argument", lambda: equiv(ctx, ["push({x})", "log(itob(pop()))", "exit(1)"], ["%E {x}", "itob", "log", "pushint 1", "return"], {"x": "int"}))
    ctx.ob("push-pop", "pop after loop", lambda: equiv(ctx, ["push({x})", "while {c}:", "    assert({y})", "end", "int v = pop()", "assert(v)", "exit(1)"], ["%E {x}", "W:", "%E {c}", "bz D", "%E {y}", "assert", "b W", "D:", "store $v", "load $v", "assert", "pushint 1", "return"], {"x": "int", "y": "int", "c": "int"}))
    for body, ref in ((["Error()"], ["err"]), (["if {c}:", "    Error()", "end", "exit(1)"], ["%E {c}", "bz L", "err", "L:", "pushint 1", "return"]), (["assert({x})", "while {c}:", "    Error()", "end", "exit(1)"], ["%E {x}", "assert", "%E {c}", "bz L", "err", "L:", "pushint 1", "return"]),
                      (["f()", "exit(1)", "func f():", "    if {c}:", "        return", "    end", "    Error()", "    return", "end"], ["callsub F", "pushint 1", "return", "F:", "%E {c}", "bz L", "retsub", "L:", "err"])):
        ctx.ob("error", body[0] + str(len(body)), lambda body=body, ref=ref: equiv(ctx, body, ref, {"c": "int", "x": "int"}))


def constants(ctx):
    """a size that is not constant, negative, or not an int"""
    for f in ("Rpad({b}, %s)", "Lpad({b}, %s)", "ToBytes({i}, %s)"):
        for a in ("{i}", "vi", "{i} + 1", "Txn.Fee", "len({b})", '"a"', "-1", "SizeOf(vi)", "KB", "Item", "fi()"):
            ctx.ob("constant", f % a, lambda f=f, a=a: rejected(ctx, DEFS + ['const bytes KB = "a"', "int vi = 3", "log(%s)" % (f % a), "exit(1)", "func fi() int:", "    return 3", "end"], {"i": "int", "b": "bytes"}))
    for a in ("{b}", "5", "K", '"a", "b"', "", "vb"):
        ctx.ob("constant", "Address(%s)" % a, lambda a=a: rejected(ctx, ['const bytes K = "a"', "bytes vb", "log(Address(%s))" % a, "exit(1)"], {"b": "bytes"}))
    for a in ("{b}", "5", "K", "", "vb", "{b}, {b}"):
        ctx.ob("constant", "ARC28Event(%s)" % a, lambda a=a: rejected(ctx, ['const bytes K = "a"', "bytes vb", "log(ARC28Event(%s))" % a, "exit(1)"], {"b": "bytes"}))
