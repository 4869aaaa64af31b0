"""Types: the size of every type and literal and the relation which values fit which types,
decided for all pairs of types, for literals at every size boundary and for the types of all
expression forms."""
from .common import *
from ..families import line
from .types_rel import *

FLOOR = 150
EX = ("exit", ("i", 1))


def run(ctx):
    ctx.rule("pair", "a value of type U is accepted for T exactly when it fits")
    ctx.rule("literal", "literals have the size of their value")
    ctx.rule("typeof", "expressions have the documented type")
    ctx.rule("size", "types have the documented size")
    ctx.rule("length", "the number in brackets is the size, wherever the type is named")
    ctx.rule("type-name", "type names are accepted as a whole and only if defined")
    more = ["bytes[%d]" % n for n in list(range(1, 70)) + [100, 127, 128, 255, 256, 1000, 1024, 4096]] if ctx.thorough else []
    for Tt in TARGETS + more:
        if kind(Tt)[0] == "box":
            continue            # references have their own declaration form, see C07
        for U in VALUES + more + (["uint<%d>" % n for n in range(1, 70)] if ctx.thorough else []):
            want = fits(Tt, U)
            if want is None:
                continue
            ctx.ob("pair", "%s<-%s" % (Tt, U), lambda T=Tt, U=U, want=want: decide(ctx, DEFS, "%s v = {x}" % T, ["%E {x}", "store $v"], {"x": U}, want))
    literals(ctx)
    typeofs(ctx)
    sizes(ctx)
    names(ctx)
    lengths(ctx)
    ctx.assumptions += ["docs/language.rst section Types; assigning one struct to another of the same size is left unspecified"]


def decide(ctx, pre, stmt, ref, types, want, more=()):
    """the statement is accepted with the reference code, or rejected with a diagnostic"""
    src = list(pre) + [stmt, "exit(1)"]
    if want:
        return equiv(ctx, src, ref + ["pushint 1", "return"], types)
    return rejected(ctx, src, types)


def lit_int_values():
    for k in list(range(0, 10)) + [16, 31, 32, 33]:
        for d in (-1, 0, 1):
            n = 256 ** k + d
            if n >= 0:
                yield n
    yield from (2 ** 63, 2 ** 64 - 1, 2 ** 64, 10, 99, 127, 128, 254, 255, 256, 257, 65535, 65536, 1000000)


def literals(ctx):
    for n in sorted(set(lit_int_values())):
        for T in ("int", "uint64", "uint8", "bytes", "bytes[1]", "bytes[8]", "Item"):
            ok = T in ("int", "uint64") and n < 2 ** 64 or T == "uint8" and n < 256
            ctx.ob("literal", "%s = %d" % (T, n), lambda n=n, T=T, ok=ok: decide(ctx, DEFS, "%s v = %d" % (T, n), ["pushint %d" % n, "store $v"], {}, ok))
        ctx.ob("literal", "const int = %d" % n, lambda n=n: decide(ctx, [], "const int KC = %d" % n, [], {}, n < 2 ** 64))
    for n in (0, 1, 127, 255, 256, 65535, 65536, 2 ** 64 - 1):
        for T in ("int", "uint8"):
            ok = T == "int" or n < 256
            ctx.ob("literal", "%s = const %d" % (T, n), lambda n=n, T=T, ok=ok: decide(ctx, ["const int KC = %d" % n], "%s v = KC" % T, ["pushint %d" % n, "store $v"], {}, ok))
    # zero-padded literals are decimal
    ctx.ob("literal", "leading-zeros", lambda: decide(ctx, [], "uint8 v = 0000255", ["pushint 255", "store $v"], {}, True))
    ctx.ob("literal", "leading-zeros-const", lambda: decide(ctx, ["const int KC = 0017"], "uint8 v = KC", ["pushint 17", "store $v"], {}, True))
    S = {"a": 1, "abc": 3, "": 0, "a b c": 5, r"\x00": 1, r"\x00\xff": 2, r"a\x41b": 3, r"\n": 1, r"\t\r\n": 3, r"\\": 1, r"\"": 1, r'a\"b': 3, "\u00e9": 2, "\u20ac": 3, "\U0001f600": 4, "x" * 31: 31, "x" * 32: 32, "x" * 33: 33,
         "x" * 9: 9, "0x41": 4, "a//b": 4, "a # b": 5, "a = b": 5, "\\\\x41": 4, "\\\\\\x41": 2, "a,b": 3, "(a)": 3, "%s": 2, "{a}": 3}
    for s, n in S.items():
        if s == "{a}":
            continue
        for m in sorted({n, n + 1, max(n - 1, 1), 1, 4}):
            if m == 0:
                continue
            ctx.ob("literal", 'bytes[%d] = "%s"' % (m, s), lambda s=s, n=n, m=m: decide(ctx, [], 'bytes[%d] v = "%s"' % (m, s), ['pushbytes "%s"' % s, "store $v"], {}, n == m))
            if s:
                ctx.ob("literal", 'bytes[%d] = const "%s"' % (m, s), lambda s=s, n=n, m=m: decide(ctx, ['const bytes KB = "%s"' % s], "bytes[%d] v = KB" % m, ['pushbytes "%s"' % s, "store $v"], {}, n == m))
        ctx.ob("literal", 'bytes = "%s"' % s, lambda s=s: decide(ctx, [], 'bytes v = "%s"' % s, ['pushbytes "%s"' % s, "store $v"], {}, True))
        ctx.ob("literal", 'int = "%s"' % s, lambda s=s: decide(ctx, [], 'int v = "%s"' % s, [], {}, False))
    for h, n in {"00": 1, "ff00": 2, "0123456789abcdefABCDEF": 11, "00" * 32: 32, "ab" * 9: 9}.items():
        for m in (n, n + 1, 2 * n, 2 * n + 2):
            ctx.ob("literal", "bytes[%d] = const 0x%s" % (m, h), lambda h=h, n=n, m=m: decide(ctx, ["const bytes KH = 0x%s" % h], "bytes[%d] v = KH" % m, ["pushbytes 0x%s" % h, "store $v"], {}, n == m))
        ctx.ob("literal", "int = const 0x%s" % h, lambda h=h: decide(ctx, ["const bytes KH = 0x%s" % h], "int v = KH", [], {}, False))


def typeofs(ctx):
    """type of an expression form, read off the declarations that accept it"""
    V = ["int va = {i}", "uint8 vu = {u}", "bytes vb = {b}", "bytes[9] v9 = {n9}", "addr vad = {ad}", "Item vi = {it}", "bigint vbig = {big}", "uint8[4] va4 = {a4}", 'box<Item> vx = Box({bk})']
    ty = {"i": "int", "u": "uint8", "b": "bytes", "n9": "bytes[9]", "ad": "addr", "it": "Item", "big": "bigint", "a4": "uint8[4]", "bk": "bytes", "x": "any", "y": "any"}
    F = ["func fint() int:", "    return {i}", "end", "func fb9() bytes[9]:", "    return {n9}", "end", "func fu8() uint8:", "    return {u}", "end", "func fit() Item:", "    return {it}", "end",
         "func fvoid():", "    return", "end", "func ftwo() int, bytes:", "    return {i}, {b}", "end", "func fbytes() bytes:", "    return {b}", "end"]
    E_ = {"va": "int", "vu": "uint8", "vb": "bytes", "v9": "bytes[9]", "vad": "addr", "vi": "Item", "vbig": "bigint", "va4": "uint8[4]", "vx": "box<Item>",
          "vi.aa": "int", "vi.bb": "bytes[32]", "vi.cc": "uint8", "vi.dd": "bytes[3]", "vx.aa": "int", "vx.bb": "bytes[32]", "vx.cc": "uint8", "vx.dd": "bytes[3]",
          "fint()": "int", "fb9()": "bytes[9]", "fu8()": "uint8", "fit()": "Item", "fbytes()": "bytes", "fvoid()": "none", "ftwo()": "list:int,bytes",
          "{x} + {y}": "int", "{x} == {y}": "int", "{x} && {y}": "int", "!{x}": "int", "~{x}": "int", "b~{x}": "bytes", "{x} b+ {y}": "bytes", "{x} b< {y}": "int", "({x} - {y})": "int",
          "Txn.Fee": "int", "Txn.Sender": "bytes[32]", "Txn.Note": "bytes", "Txn.ApplicationArgs[0]": "bytes", "Txn.ApplicationArgs[{x}]": "bytes", "Gtxn[0].Sender": "bytes[32]", "Gtxn[1].Amount": "int",
          "Gtxn[+1].Amount": "int", "Gtxn[-1].Note": "bytes", "Gtxn[{x}].Sender": "bytes[32]", "Gtxn[{x}].Accounts[{y}]": "bytes", "Txn.Assets[0]": "int", "Global.Round": "int", "Global.GroupID": "bytes", "Itxn.CreatedAssetID": "int", "Itxn.Logs[0]": "bytes", "Itxn.Sender": "bytes[32]",
          "len({x})": "int", "itob({x})": "bytes", "btoi({x})": "int", "concat({x}, {y})": "bytes", "app_global_get({x})": "any", "log({x})": "none", "sha256({x})": "bytes", "box_get({x})": "list:int,bytes",
          "bzero(3)": "bytes[3]", "bzero(32)": "bytes[32]", "bzero({i})": "bytes", "bzero(SizeOf(Item))": "bytes[52]", "bzero(K9)": "bytes[9]", "bzero(va)": "bytes",
          "SizeOf(Item)": "int", "SizeOf(Other)": "int", "Concat({b}, {n9})": "bytes", "Rpad({b}, 9)": "bytes[9]", "Lpad({b}, 32)": "bytes[32]", "Rpad({b}, SizeOf(Item))": "bytes[52]", "Rpad({b}, K9)": "bytes[9]",
          "ToBytes({i}, 3)": "bytes[3]", "ToBytes({i}, 9)": "bytes[9]", "FromBytes({b}, int)": "int", "Cast({b}, bytes[9])": "bytes[9]", "Cast({b}, Item)": "Item", "Cast({i}, uint8)": "uint8", "Cast({b}, addr)": "addr",
          "UncheckedCast({x}, int)": "int", "UncheckedCast({x}, bytes[9])": "bytes[9]", "UncheckedCast({x}, Item)": "Item", "UncheckedCast({x}, uint8)": "uint8", "UncheckedCast({x}, addr)": "addr", "UncheckedCast({x}, bytes)": "bytes",
          "Convert({i}, bytes[8])": "bytes[8]", "Convert({i}, bytes)": "bytes", "Convert({b}, uint8)": "uint8", "EnsureType({b}, bytes[9])": "bytes[9]", "EnsureType({i}, uint8)": "uint8", "EnsureType({b}, Item)": "Item",
          'ARC28Event("e()")': "bytes", "K9": "uint8", "KB3": "bytes[3]", "KI": "uint<2>", "pop()": "any", "NoOp": "int", "Appl": "int", "7": "uint8", "70000": "uint<3>", '"abc"': "bytes[3]", 'method("f()void")': "bytes"}
    ref = {}
    for e, t in E_.items():
        for T in ("int", "uint8", "bytes", "bytes[3]", "bytes[9]", "bytes[32]", "bytes[52]", "Item", "Other", "addr"):
            want = fits(T, t)
            if want is None:
                continue
            def f(e=e, T=T, want=want):
                src = ["const int K9 = 9", 'const bytes KB3 = "abc"', "const int KI = 300"]
                src = DEFS + src + V + ["%s tv = %s" % (T, e), "exit(1)"] + F
                ok, rej = compile_all(ctx, src, ty)
                if want and rej:
                    raise Violation("`%s tv = %s` is rejected although a value of type %s fits: %s" % (T, e, E_[e], exc_text(rej[0])), where_of(rej[0]), src_text(src), sub="rejected")
                if not want and ok:
                    raise Violation("`%s tv = %s` is accepted although a value of type %s does not fit" % (T, e, E_[e]), where_teal(ok[0][0]), src_text(src) + "\n\n" + "\n".join(showt(l) for l in ok[0][1]), sub="accepted")
                return "accepted" if want else "rejected"
            ctx.ob("typeof", "%s <- %s" % (T, e), f)


def sizes(ctx):
    for t, n in {"int": 8, "uint64": 8, "uint8": 1, "addr": 32, "bytes[1]": 1, "bytes[64]": 64, "uint8[7]": 7, "Item": 52, "Other": 9, "Same": 52}.items():
        if t[0].isupper():
            ctx.ob("size", "SizeOf(%s)" % t, lambda t=t, n=n: equiv(ctx, DEFS + ["assert(SizeOf(%s))" % t, "exit(1)"], ["pushint %d" % n, "assert", "pushint 1", "return"]))
        # as a field: the next field starts after it
        src = ["struct Sz:", "    ff: " + t, "    gg: bytes[2]", "end"]
        ctx.ob("size", "field " + t, lambda src=src, n=n: equiv(ctx, DEFS + src + ["Sz sz = {x}", "log(sz.gg)", "exit(1)"], ["%E {x}", "store $sz", "load $sz", "pushint %d" % n, "pushint 2", "extract3", "log", "pushint 1", "return"],
                                                                    {"x": "bytes[%d]" % (n + 2)}))


def names(ctx):
    bad = ["byte", "Bytes", "Int", "string", "uint", "uint16", "uint32", "uint128", "bool", "bytes[]", "bytes[a]", "bytes[-1]", "bytes[1", "bytes[3]x", "bytes[3][4]", "uint8[]", "uint8[x]", "Undefined", "item", "ITEM", "Item2", "Ite", "Itemx",
           "int8", "int[3]", "addr[32]", "bigint[3]", "box", "any", "box<Undefined>", "box<item>", "box<Item", "uint64[2]", "Item[2]", "none"]
    for t in bad:
        ctx.ob("type-name", "decl " + t, lambda t=t: rejected(ctx, DEFS + ["%s v" % t, "exit(1)"]))
        ctx.ob("type-name", "field " + t, lambda t=t: rejected(ctx, DEFS + ["struct Sz:", "    f: " + t, "end", "exit(1)"]))
        ctx.ob("type-name", "arg " + t, lambda t=t: rejected(ctx, DEFS + ["exit(1)", "func f(a: %s):" % t, "    return", "end"]))
        ctx.ob("type-name", "return " + t, lambda t=t: rejected(ctx, DEFS + ["exit(1)", "func f() %s:" % t, "    return {x}", "end"]))
        ctx.ob("type-name", "cast " + t, lambda t=t: rejected(ctx, DEFS + ["v = Cast({x}, %s)" % t, "exit(1)"]))
    for t in ("int", "uint8", "uint64", "bytes", "bytes[3]", "bigint", "addr", "uint8[4]", "Item", "Other"):
        ctx.ob("type-name", "ok decl " + t, lambda t=t: equiv(ctx, DEFS + ["%s v" % t, "exit(1)"], ["pushint 1", "return"]))
        ctx.ob("type-name", "ok arg " + t, lambda t=t: equiv(ctx, DEFS + ["f({x})", "exit(1)", "func f(a: %s):" % t, "    return", "end"], ["%E {x}", "callsub F", "pushint 1", "return", "F:", "store $a", "retsub"], {"x": t}))
        ctx.ob("type-name", "ok return " + t, lambda t=t: equiv(ctx, DEFS + ["%s v = f()" % t, "exit(1)", "func f() %s:" % t, "    return {x}", "end"], ["callsub F", "store $v", "pushint 1", "return", "F:", "%E {x}", "retsub"], {"x": t}))


def lengths(ctx):
    for n in (1, 2, 9, 10, 11, 12, 19, 20, 31, 32, 64, 99, 100, 101, 127, 128, 200, 255, 256, 257, 999, 1000, 1024, 2048, 4096):
        for t in ("bytes[%d]" % n, "uint8[%d]" % n):
            for m in sorted({n, n + 1, n - 1, n // 10, n % 10, n * 10, n % 256, n + 256, int(str(n)[0])} - {0}):
                for u in ("bytes[%d]" % m, "uint8[%d]" % m):
                    ok = m == n
                    P = {"decl": (["%s v = {x}" % t], ["%E {x}", "store $v"], []),
                         "assign": (["%s v" % t, "v = {x}"], ["%E {x}", "store $v"], []),
                         "arg": (["f({x})"], ["%E {x}", "callsub F"], ["func f(p: %s):" % t, "    return", "end"]),
                         "return": (["_ = f()"], ["callsub F", "pop"], ["func f() %s:" % t, "    return {x}", "end"])}
                    end = {"arg": ["F:", "store $p", "retsub"], "return": ["F:", "%E {x}", "retsub"]}
                    for pn, (b, r, fs) in P.items():
                        if pn != "decl" and not ctx.thorough and (t[0] != "b" or u[0] != "b" or n not in (1, 9, 10, 12, 32, 100, 255, 256, 1024)):
                            continue

                        def f(b=b, r=r, fs=fs, pn=pn, u=u, ok=ok):
                            if ok:
                                return equiv(ctx, b + ["exit(1)"] + fs, r + ["pushint 1", "return"] + end.get(pn, []), {"x": u})
                            return rejected(ctx, b + ["exit(1)"] + fs, {"x": u})
                        ctx.ob("length", "%s %s<-%s" % (pn, t, u), f)
                    # named as the result of a cast
                    if u[0] == t[0]:
                        def c(t=t, u=u, ok=ok):
                            src = ["%s v = UncheckedCast({x}, %s)" % (u, t), "exit(1)"]
                            return equiv(ctx, src, ["%E {x}", "store $v", "pushint 1", "return"], {"x": "any"}) if ok else rejected(ctx, src, {"x": "any"})
                        ctx.ob("length", "cast %s<-%s" % (u, t), c)
            # as a field, between two others
            src = ["struct Sz:", "    ff: " + t, "    gg: bytes[2]", "end", "Sz sz = {x}", "log(sz.gg)", "assert(SizeOf(Sz))", "exit(1)"]
            ctx.ob("length", "field " + t, lambda src=src, n=n: equiv(ctx, src, ["%E {x}", "store $sz", "load $sz", "pushint %d" % n, "pushint 2", "extract3", "log", "pushint %d" % (n + 2), "assert", "pushint 1", "return"], {"x": "bytes[%d]" % (n + 2)}))
