"""Every accepted program is well-formed TEAL.  The emitted lines of the programs of all families
(statements, expressions, standard library, routers, inner transactions, long and nested programs,
changed programs that are still accepted) are read the way the assembler reads them, with its own
table of opcodes and immediate arguments; what TEAL can not express has to be rejected."""
import re

from .common import *
from . import common
from .. import avm
from .. import exprs as X
from .. import lang as L
from ..families import statements, STRUCT, H, line

FLOOR = 900
# every how-manieth obligation of the other checks is used for its programs (quick)
SOURCES = {"c01": 9, "c02": 5, "c03": 5, "c04": 3, "c05": 12, "c06": 6, "c07": 40, "c08": 40, "c09": 6, "c10": 6, "c11": 12, "c12": 8, "c13": 25, "c20": 60, "c21": 3}


class Collect:
    """stands in for Ctx while another check lists its obligations"""

    def __init__(self, ctx):
        self.ctx, self.list, self.thorough, self.assumptions = ctx, [], False, []
        self.repo, self.tier = ctx.repo, "quick"

    def rule(self, *a):
        pass

    def ob(self, rule, ident, fn):
        self.list.append((rule, ident, fn))

    def __getattr__(self, n):
        return getattr(self.ctx, n)


def wellformed(ctx, r, teal, src):
    for e, i in avm.errors(teal, r.interp):
        raise Violation("emitted line `%s`: %s" % (showt(teal[i]).strip(), e), writer_of(r, i), "program:\n%s\n\nemitted TEAL:\n%s" % (src_text(src), "\n".join(showt(l) for l in teal)), sub="malformed")
    ctx.count("lines_read", len(teal))


def of_check(ctx, fn):
    seen = []
    common.OBSERVER = lambda r, teal, src: seen.append((r, teal, src))
    skip = None
    try:
        fn()
    except Violation:
        pass                    # what the other check decides is reported by it
    except AnalysisError as e:
        skip = e
    finally:
        common.OBSERVER = None
    for r, teal, src in seen:
        wellformed(ctx, r, teal, src)
    if skip is not None and not seen:
        raise skip
    return "%d programs" % len(seen)


def accepted(ctx, src, types=None):
    ok, rej = compile_all(ctx, src, types)
    if rej:
        raise Violation("a program TEAL can express is rejected: %s" % exc_text(rej[0]), where_of(rej[0]), "program:\n" + src_text(src), sub="rejected")
    for r, teal in ok:
        wellformed(ctx, r, teal, src)
    return "%d programs" % len(ok)


TYPES = {"i": "int", "i2": "int", "b": "bytes", "b2": "bytes", "n": "none"}
STRINGS = ['""', '"a"', '"a b"', r'"\n"', r'"\r\t"', r'"\""', r'"\\"', r'"\x00"', r'"\xfF"', r'"a\"b"', '"//"', '"#"', '"\'"', '";"', '":"', '"é"', '"\t"', r'"\\n"', r'"\\\""', "''", "'a'", "'\"'", r"'\''", r"'\"'", r"'\\'", r"'\x41'", "'a\"b\"c'"]
BAD_STRINGS = [r'"\q"', r'"\0"', r'"\x4"', r'"\xg0"', r'"\u1234"', r'"\a"', r'"\N"', r'"\X41"', r'"\ "', r'"\/"', r'"\101"', '"', '"a', r'"\"', r"'\q'", r"'\x1'", '"a"b"', '"a" "b"', r'"\\\"', "'a\"", r"'\'"]
ADDRESS = "RIKLQ5HEVXAOAWYSW2LGQFYGWVO4J6LIAQQ72ZRULHZ4KS5NRPCCKYPCUU"
ZERO = "A" * 52 + "Y5HFKQ"
BAD_ADDRESS = ["", "abc", ADDRESS[:-1], ADDRESS + "A", ADDRESS[:-1] + "V", ADDRESS.lower(), ADDRESS[:-1] + "1", ADDRESS[:-1] + " ", "B" + ADDRESS[1:], ADDRESS[1:] + ADDRESS[0], "A" * 58, "=" * 58]
# `pop` is a function of the standard library, `return` is a statement
# names of opcodes whose immediate arguments can not be written in a call
NO_CALL = ["b", "bz", "bnz", "callsub", "switch", "match", "intcblock", "bytecblock", "pushint", "pushbytes", "pushints", "pushbytess"]
T_ = {"U": "int", "B": "bytes", ".": "any"}


def call(op, imm, ret=None):
    """a statement calling op with these immediates and fitting arguments -> (line, types)"""
    d = avm.OPS.get(op, {})
    a = d.get("Args") or ""
    n = len(d.get("Returns") or "") if op != "method" else 1
    e = "%s(%s)" % (op, ", ".join([str(x) for x in imm] + ["{x%d}" % j for j in range(len(a))]))
    return (", ".join(["_"] * n) + " = " if n else "") + e, {"x%d" % j: T_[k] for j, k in enumerate(a)}


def default(op):
    """valid immediates of op"""
    out = []
    for k in avm.IMM.get(op, []):
        out.append({avm.U8: "2", avm.I8: "3", "method": '"f(uint64)void"'}.get(k) or avm.fields(op)[0])
    return out


def callable_ops():
    for op in sorted(set(avm.OPS) | {"method"}):
        if op in NO_CALL + ["return", "pop"] or not re.fullmatch(r"[a-z][a-z0-9_]*", op):
            continue
        yield op


def run(ctx):
    ctx.rule("programs", "every line of an emitted program is an instruction, label, macro or comment the assembler accepts; labels and macros are defined once and do not collide")
    ctx.rule("immediates", "each opcode is emitted with immediate arguments of the number, kind and range it has, other calls are rejected")
    ctx.rule("fields", "fields are written as TEAL knows them: existing ones, arrays with an index that fits, others without")
    ctx.rule("literals", "strings, hex, integers and addresses are emitted as valid literals, others are rejected")
    ctx.rule("values", "a literal of any form and length denotes the value written")
    ctx.rule("names", "constants and labels have names TEAL accepts")
    import importlib
    for m, k in SOURCES.items():
        c = Collect(ctx)
        importlib.import_module("sa.checks." + m).run(c)
        rules = {}
        for rule, ident, fn in c.list:
            n = rules[rule] = rules.get(rule, -1) + 1
            if n % (k if not ctx.thorough else max(1, k // 4)) == 0:
                ctx.ob("programs", "%s/%s/%s" % (m.upper(), rule, ident), lambda fn=fn: of_check(ctx, fn))
    for n, s in statements().items():
        for cn, body in L.contexts(s.body).items():
            def f(s=s, body=body):
                src, _ = L.program(body + list(s.funcs) if body and body[-1][0] in ("exit", "func") else body, dyn_group=True)
                return either_form(ctx, list(s.pre) + src, s.types)
            ctx.ob("programs", n + "@" + cn, f)
    immediates(ctx)
    fields(ctx)
    literals(ctx)
    values(ctx)
    names(ctx)
    ctx.assumptions += ["opcodes and fields of AVM version 8 as in sa/data/avm_ops.json, immediate arguments and literals as in sa/avm.py", "TEAL written in `teal:` blocks is taken to be valid"]


def either_form(ctx, src, types):
    ok, rej = compile_all(ctx, src, types)
    for r, teal in ok:
        wellformed(ctx, r, teal, src)
    return "%d programs" % len(ok)


def immediates(ctx):
    A = lambda n, l, t, pre=(): ctx.ob("immediates", n, lambda: accepted(ctx, list(pre) + [l, "exit(1)"], dict(TYPES, **t)))
    R = lambda n, l, t, pre=(): ctx.ob("immediates", n, lambda: rejected(ctx, list(pre) + [l, "exit(1)"], dict(TYPES, **t)))
    for op in callable_ops():
        imm = default(op)
        kinds = avm.IMM.get(op, [])
        l, t = call(op, imm)
        A("%s" % op, l, t)
        for i, k in enumerate(kinds):
            put = lambda v: imm[:i] + [v] + imm[i + 1:]
            if k in (avm.U8, avm.I8):
                hi = 255 if k == avm.U8 else 127
                other = {"substring": [str(hi)] * 2}.get(op)
                l, t = call(op, other or put(hi))
                A("%s #%d %d" % (op, i, hi), l, t)
                bad = [str(hi + 1), "65536", str(2 ** 64), '"a"', "{i}", "Sender", "(1 + 2)", "Txn.Fee", "vv"]
                A("%s #%d constant" % (op, i), *call(op, put("KK")), pre=["const int KK = 2"])
                R("%s #%d big constant" % (op, i), *call(op, put("KK")), pre=["const int KK = %d" % (hi + 1)])
                R("%s #%d bytes constant" % (op, i), *call(op, put("KB")), pre=['const bytes KB = "a"'])
            elif k == avm.FIELD:
                for f in avm.fields(op)[:: 1 if len(avm.fields(op)) < 16 or ctx.thorough else 9]:
                    A("%s #%d %s" % (op, i, f), *call(op, put(f)))
                bad = ["0", "Foo", '"Sender"', "{i}", "Pay", "vv", "itob({i})"]
                if op in avm.SCALAR:
                    bad += list(avm.ARRAY_FIELDS)[:3]
                if set(avm.fields(op)) <= set(avm.ARRAY_FIELDS):
                    bad += ["Sender", "Fee"]
                if op == "itxn_field":
                    bad += ["FirstValid", "Logs", "NumAppArgs", "TxID", "GroupIndex"]
                if "Sender" not in avm.fields(op):
                    bad += ["Sender"]
            else:
                bad = ["1", "{b}", "Sender", "foo"]
            for v in bad:
                R("%s #%d %s" % (op, i, v), *call(op, put(v)))
            R("%s without #%d" % (op, i), *call(op, imm[:i] + imm[i + 1:]))
        R("%s with one more" % op, *call(op, imm + ["1"]))
    for op in NO_CALL:
        for v in ("", "1", "a", '"a"', "{i}", "1, 2", "a, {i}", "{i}, a"):
            ctx.ob("immediates", "%s(%s)" % (op, v), lambda op=op, v=v: rejected(ctx, ["%s(%s)" % (op, v), "block a:", "exit(1)", "end"], TYPES))
            ctx.ob("immediates", "_ = %s(%s)" % (op, v), lambda op=op, v=v: rejected(ctx, ["_ = %s(%s)" % (op, v), "jump a", "block a:", "exit(1)", "end"], TYPES))
    for a, b, ok in ((0, 0, 1), (3, 9, 1), (255, 255, 1), (1, 0, 0), (255, 0, 0), (10, 9, 0), (2, 10, 1), (100, 20, 0)):
        (A if ok else R)("substring %d %d" % (a, b), "log(substring(%d, %d, {b}))" % (a, b), {})
    for g in ("{n_max255:digits}",):
        for op in callable_ops():
            for i, k in enumerate(avm.IMM.get(op, [])):
                if k == avm.U8 and op != "substring":
                    A("%s #%d any number" % (op, i), *call(op, default(op)[:i] + [g] + default(op)[i + 1:]))


def fields(ctx):
    A = lambda n, l, t=(): ctx.ob("fields", n, lambda: accepted(ctx, ["_ = " + l, "exit(1)"], dict(TYPES, **dict(t))))
    R = lambda n, l, t=(): ctx.ob("fields", n, lambda: rejected(ctx, ["_ = " + l, "exit(1)"], dict(TYPES, **dict(t))))
    txn, glob = list(avm.OPS["txn"]["ArgEnum"]), list(avm.OPS["global"]["ArgEnum"])
    for ns in ("Txn", "Itxn", "Gtxn[3]", "Gtxn[+1]", "Gtxn[-1]", "Gtxn[{i}]"):
        for f in txn:
            arr = f in avm.ARRAY_FIELDS
            (R if arr else A)("%s.%s" % (ns, f), "%s.%s" % (ns, f))
            for ix in ("0", "255", "{i}") if ns in ("Txn", "Gtxn[{i}]") or arr or ctx.thorough else ("1",):
                (A if arr else R)("%s.%s[%s]" % (ns, f, ix), "%s.%s[%s]" % (ns, f, ix))
            if arr:
                for ix in ("256", "1000", str(2 ** 64), "{b}", "{n}", "", "-1", "Sender", "0, 1"):
                    R("%s.%s[%s]" % (ns, f, ix), "%s.%s[%s]" % (ns, f, ix))
        for f in ("Foo", "sender", "Round", "Fees", "SenderX", "Accounts.Fee"):
            R("%s.%s" % (ns, f), "%s.%s" % (ns, f))
    for f in glob:
        A("Global." + f, "Global." + f)
    for f in ("Foo", "Sender", "Accounts", "Fee", "GroupIndex"):
        R("Global." + f, "Global." + f)
    R("Global.Round[0]", "Global.Round[0]")
    for ix, ok in (("0", 1), ("15", 1), ("16", 0), ("255", 0), ("+0", 1), ("+15", 1), ("+16", 0), ("-15", 1), ("-16", 0), ("{b}", 0), ("{n}", 0), ("", 0), ("+{i}", 0), ("-{i}", 0), ("{i} + 1", 1), ("--1", 0), ("1, 2", 0)):
        (A if ok else R)("Gtxn[%s].Fee" % ix, "Gtxn[%s].Fee" % ix)
        (A if ok else R)("Gtxn[%s].Assets[1]" % ix, "Gtxn[%s].Assets[1]" % ix)
        (A if ok else R)("Gtxn[%s].Assets[{i}]" % ix, "Gtxn[%s].Assets[{i}]" % ix)
    it = avm.fields("itxn_field")
    for f in txn + ["Foo", "Pay", "Round"]:
        src = lambda f: ["inner_txn:", "    %s: {x}" % f, "end", "exit(1)"]
        t = dict(TYPES, x="any")
        ok = f in it
        ctx.ob("fields", "inner_txn %s" % f, lambda f=f, ok=ok, t=t, src=src: (accepted if ok else rejected)(ctx, src(f), t))
        ok = f in it and f in avm.ARRAY_FIELDS
        ctx.ob("fields", "inner_txn %s[0]" % f, lambda f=f, ok=ok, t=t, src=src: (accepted if ok else rejected)(ctx, src(f + "[0]"), t))


def literals(ctx):
    def ob(n, ok, src, t=None):
        ctx.ob("literals", n, lambda: (accepted if ok else rejected)(ctx, src, dict(TYPES, **(t or {}))))
    for ok, ss in ((True, STRINGS), (False, BAD_STRINGS)):
        for s in ss:
            ob("log(%s)" % s, ok, ["log(%s)" % s, "exit(1)"])
            ob("argument %s" % s, ok, ["log(concat({b}, %s))" % s, "exit(1)"])
            ob("return %s" % s, ok, ["log(f())", "exit(1)", "func f() bytes:", "    return %s" % s, "end"])
            ob("field %s" % s, ok, ["inner_txn:", "    Note: %s" % s, "end", "exit(1)"])
            ob("switch %s" % s, ok, ["switch {b}:", "    %s: a" % s, "end", "block a:", "    exit(1)", "end"]) if s not in ('":"',) else None
            if s not in ('""',) and s[0] == '"':
                ob("const %s" % s, ok, ["const bytes KK = %s" % s, "log(KK)", "exit(1)"])
    for s, ok in (("0x00", 1), ("0xABcd", 1), ("0x", 0), ("0xa", 0), ("0xabc", 0), ("0xgg", 0), ("0Xab", 0), ("0x ab", 0), ("1", 0), ("KK2", 0), ("{b}", 0)):
        ob("const bytes %s" % s, ok, ["const bytes KK = %s" % s, "log(KK)", "exit(1)"])
    for s, ok in (("0", 1), (str(2 ** 64 - 1), 1), (str(2 ** 64), 0), (str(2 ** 70), 0), ("007", 1), ("09", 1)):
        for n, src in {"const": ["const int KK = %s" % s, "exit(KK)"], "exit": ["exit(%s)" % s], "argument": ["log(itob(%s))" % s, "exit(1)"], "right": ["exit({i} + %s)" % s], "for": ["for j in 0:%s:" % s, "    log({b})", "end", "exit(1)"], "for_": ["for _ in %s:%s:" % (s, s), "    log({b})", "end", "exit(1)"] if int(s) else None,
                       "decl": ["int v = %s" % s, "exit(v)"], "field": ["inner_txn:", "    Fee: %s" % s, "end", "exit(1)"], "if": ["if %s:" % s, "    log({b})", "end", "exit(1)"], "return": ["exit(f())", "func f() int:", "    return %s" % s, "end"], "switch": ["switch {i}:", "    %s: a" % s, "end", "block a:", "    exit(1)", "end"]}.items():
            if src:
                ob("%s %s" % (n, s), ok, src)
    for a in (ADDRESS, ZERO):
        ob("Address %s" % a, True, ['log(Address("%s"))' % a, "exit(1)"])
    for a in BAD_ADDRESS:
        ob("Address %s" % a, False, ['log(Address("%s"))' % a, "exit(1)"])
    ob("Address hole", False, ["log(Address({b}))", "exit(1)"])


LENGTHS = (2, 15, 16, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 255, 256, 257, 1000, 4096)


def values(ctx):
    """literals of all forms and lengths, at the places literals can stand, with the value written"""
    def ob(n, src, ref):
        ctx.ob("values", n, lambda: equiv(ctx, src, ref, TYPES))

    def places(n, s, ref, t, const=True):
        use = {"bytes": ("log(%s)", ["log"]), "int": ("assert(%s)", ["assert"])}[t]
        end = ["pushint 1", "return"]
        ob("statement " + n, [use[0] % s, "exit(1)"], [ref] + use[1] + end)
        ob("variable " + n, ["%s v = %s" % (t, s), use[0] % "v", "exit(1)"], [ref, "store $v", "load $v"] + use[1] + end)
        ob("return " + n, [use[0] % "f()", "exit(1)", "func f() %s:" % t, "    return %s" % s, "end"], ["callsub F"] + use[1] + end + ["F:", ref, "retsub"])
        ob("argument " + n, ["f(%s, %s)" % (s, s), "exit(1)", "func f(a: %s, c: %s):" % (t, t), "    return", "end"], [ref, ref, "callsub F"] + end + ["F:", "store $c", "store $a", "retsub"])
        ob("field " + n, ["inner_txn:", "    %s: %s" % ("Note" if t == "bytes" else "Fee", s), "end", "exit(1)"], ["itxn_begin", ref, "itxn_field " + ("Note" if t == "bytes" else "Fee"), "itxn_submit"] + end)
        if const:
            ob("constant " + n, ["const int A0 = 7", "const %s KK = %s" % (t, s), "const %s KK2 = %s" % (t, '"other"' if t == "bytes" else "8"), use[0] % "KK", use[0] % "KK2", "assert(A0)", "exit(1)"],
               [ref] + use[1] + ['pushbytes "other"' if t == "bytes" else "pushint 8"] + use[1] + ["pushint 7", "assert"] + end)
    for s in STRINGS:
        if s[0] == '"':
            places(s, s, "pushbytes " + s, "bytes", s not in ('""',))
    for n in LENGTHS:
        s = '"%s"' % "".join(chr(97 + (i * 7 + i // 26) % 26) for i in range(n))
        places("%d characters" % n, s, "pushbytes " + s, "bytes")
        x = "0x" + "".join("%02x" % ((i * 11 + i // 256) % 256) for i in range(n))
        ob("constant of %d bytes" % n, ["const bytes KK = " + x, "log(KK)", "exit(1)"], ["pushbytes " + x, "log", "pushint 1", "return"])
    for n in (8, 30, 64, 200):
        s = '"%s"' % "".join(r"\x%02x" % ((i * 37) % 256) for i in range(n))
        places("%d escapes" % n, s, "pushbytes " + s, "bytes")
    for i in [0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 65535, 65536] + [2 ** k + d for k in (31, 32, 52, 53, 54, 62, 63) for d in (-1, 0, 1)] + [10 ** 15 + 1, 10 ** 16 + 1, 10 ** 19, 2 ** 64 - 1]:
        places("%d" % i, "%d" % i, "pushint %d" % i, "int")


def names(ctx):
    def ob(n, ok, src, t=None):
        ctx.ob("names", n, lambda: (accepted if ok else rejected)(ctx, src, dict(TYPES, **(t or {}))))
    for f in ["Sender", "Fee", "Accounts", "NoOp", "OptIn", "Pay", "Appl", "Round", "AssetBalance", "AppCreator", "AcctBalance", "Logs", "BlkSeed", "Secp256k1", "URLEncoding", "JSONString", "VrfAlgorand", "TxID", "GroupIndex", "UpdateApplication"]:
        ob("const int " + f, False, ["const int %s = 1" % f, "exit(1)"])
        ob("const bytes " + f, False, ['const bytes %s = "a"' % f, "exit(1)"])
    for f in ["A", "AB", "KONST_1", "X_", "PAY", "OPTIN", "SENDER", "K9"]:
        ob("const int " + f, True, ["const int %s = 1" % f, "exit(%s)" % f])
    for b in ("KONST", "A", "K_1"):
        for how, src in {"block": ["const int %s = 1" % b, "jump %s" % b, "block %s:" % b, "    exit(%s)" % b, "end"], "function": ["const int %s = 1" % b, "exit(1)", "func %s():" % b, "    return", "end"]}.items():
            def f(src=src):
                ok, rej = compile_all(ctx, src, TYPES)
                for r, teal in ok:
                    wellformed(ctx, r, teal, src)
                return "%d programs" % len(ok)
            ctx.ob("names", "%s %s" % (how, b), f)
