"""Calls of opcodes.  Every opcode of the language specification can be called with its immediate
arguments followed by its stack arguments: these are evaluated once, in order, the opcode runs with
exactly the immediates written, and its results are those of the opcode, the top of the stack first."""
import itertools
import re

from .common import *
from .. import avm
from .. import lang as L
from ..families import H, line
from ..teal import MACRO
from .c16 import callable_ops, default, T_, TYPES

FLOOR = 400
# opcodes that move values below their arguments or end the program; what a call of them means is up to the writer
RAW = {"dig", "cover", "uncover", "bury", "popn", "dupn", "dup", "dup2", "swap", "proto", "frame_dig", "frame_bury", "retsub", "err", "return", "pop", "select", "intc", "intc_0", "intc_1", "intc_2", "intc_3", "bytec", "bytec_0", "bytec_1", "bytec_2", "bytec_3", "load", "store", "loads", "stores", "bzero"} - {"select", "bzero"}


def sig(op):
    d = avm.OPS.get(op, {})
    return list(d.get("Args") or ""), list(d.get("Returns") or "") if op != "method" else ["B"]


def decls(rets):
    """variables for the results, the top of the stack first"""
    vs = []
    for i, r in enumerate(rets[::-1]):
        vs.append(("int" if r == "U" else "bytes", "v%d" % i))
    return vs


def use(op, imm_src, imm_ref, args_src, args_ref, T, pre=(), order=None, post=()):
    """program that calls op and observes all results"""
    a, rets = sig(op)
    e = "%s(%s)" % (op, ", ".join([str(x) for x in imm_src] + list(args_src)))
    ref = [x for r in args_ref for x in r] + [" ".join([op] + [str(x) for x in imm_ref])]
    body = []
    if not rets:
        body.append(line(e, ref))
    else:
        vs = decls(rets)
        for t, v in vs:
            body.append(line("%s %s" % (t, v), []))
        body.append(line("%s = %s" % (", ".join(v for t, v in vs), e), ref + ["store $" + v for t, v in vs]))
        for i, (t, v) in enumerate(vs):
            body.append(line('app_global_put("r%d", %s)' % (i, v), ['pushbytes "r%d"' % i, "load $" + v, "app_global_put"]))
    body = [("mark", "0")] + body + [("mark", "1"), ("exit", ("i", 1))] + list(post)
    src, ref = L.program(body)
    return list(pre) + src, ref, T


def check(ctx, *a, **k):
    src, ref, T = use(*a, **k)
    return equiv(ctx, src, ref, T, marks=True)


def ops():
    for op in callable_ops():
        if op not in RAW:
            yield op


def run(ctx):
    ctx.rule("call", "operands are evaluated once and in order, the opcode runs with its immediates, all results are those of the opcode")
    ctx.rule("immediates", "each immediate argument arrives where it was written")
    ctx.rule("operands", "operands of every kind, also other opcode calls with immediates, keep their place")
    ctx.rule("count", "calls with fewer or more arguments are rejected")
    ctx.rule("results", "results can be discarded or used singly; the number of variables has to be the number of results")
    for op in ops():
        a, rets = sig(op)
        imm = default(op)
        hs = ["{x%d}" % i for i in range(len(a))]
        rf = [["%%E {x%d}" % i] for i in range(len(a))]
        T = {"x%d" % i: T_[k] for i, k in enumerate(a)}
        kinds = avm.IMM.get(op, [])
        ctx.ob("call", op, lambda op=op, imm=imm, hs=hs, rf=rf, T=T: check(ctx, op, imm, imm, hs, rf, T))
        # immediates: every field, two different numbers at every place
        for i, k in enumerate(kinds):
            vals = avm.fields(op) if k == avm.FIELD else ["0", "1", "7", "100", "127"] if k in (avm.U8, avm.I8) else []
            if k == avm.FIELD and not ctx.thorough and len(vals) > 16:
                vals = vals[::5]
            for v in vals:
                def f(op=op, imm=imm, i=i, v=v, hs=hs, rf=rf, T=T):
                    m = imm[:i] + [v] + imm[i + 1:]
                    if op == "substring":
                        m = [v, "200"] if i == 0 else ["0", v]
                    return check(ctx, op, m, m, hs, rf, T)
                ctx.ob("immediates", "%s #%d %s" % (op, i, v), f)
            if k == avm.U8:
                for nm, s, r, pre in (("any", "{n_max255:digits}", "{n_max255:digits}", []), ("constant", "KK", "5", ["const int KK = 5"]), ("zeros", "005", "5", [])):
                    def f(op=op, imm=imm, i=i, s=s, r=r, pre=pre, hs=hs, rf=rf, T=T):
                        m = lambda x: imm[:i] + [x] + imm[i + 1:]
                        if op == "substring":
                            if nm_any(s):
                                return "order of unknown numbers is not known"
                            m = lambda x: [x, "200"] if i == 0 else ["0", x]
                        return check(ctx, op, m(s), m(r), hs, rf, T, pre=pre)
                    ctx.ob("immediates", "%s #%d %s" % (op, i, nm), f)
        # operands
        for j, k in enumerate(a):
            alts = {"sum": ("{p0} + {p1}", ["%E {p0}", "%E {p1}", "+"], "U"), "call": ("fi({p0})", ["%E {p0}", "callsub F_fi"], "U"), "group": ("({p0} - 1)", ["%E {p0}", "pushint 1", "-"], "U"), "field": ("Txn.Fee", ["txn Fee"], "U"), "immediate": ("gloads(3, {p0})", ["%E {p0}", "gloads 3"], "."),
                    "bytes call": ("fb({p0})", ["%E {p0}", "callsub F_fb"], "B"), "bytes immediate": ("substring(1, 9, {q0})", ["%E {q0}", "substring 1 9"], "B"), "array": ("Txn.ApplicationArgs[{p0}]", ["%E {p0}", "txnas ApplicationArgs"], "B"), "string": ('"a, b) //"', ['pushbytes "a, b) //"'], "B")}
            for an, (s, r, t) in alts.items():
                if t != "." and k != "." and t != k:
                    continue
                if not ctx.thorough and (hash_(op + an) % 3):
                    continue
                def f(op=op, imm=imm, j=j, s=s, r=r, hs=hs, rf=rf, T=T):
                    post = []
                    if "fi(" in s:
                        post = [("func", "fi", [("p", "int")], ["int"], [("return", [("+", ("v", "p"), H("fh"))])])]
                    if "fb(" in s:
                        post = [("func", "fb", [("p", "int")], ["bytes"], [("return", [("raw", "itob(p)", ["load $p", "itob"])])])]
                    return check(ctx, op, imm, imm, hs[:j] + [s] + hs[j + 1:], rf[:j] + [r] + rf[j + 1:], dict(T, p0="int", p1="int", q0="bytes", fh="int"), post=post)
                ctx.ob("operands", "%s arg %d %s" % (op, j, an), f)
        # count
        call = lambda args: (", ".join("_" for r in rets) + " = " if rets else "") + "%s(%s)" % (op, ", ".join(args))
        full = [str(x) for x in imm] + hs
        for nm, args in {"more": full + ["{x0}" if a else "1"], "fewer": full[:-1], "fewer first": full[1:], "none": []}.items():
            if args != full:
                ctx.ob("count", "%s %s" % (op, nm), lambda call=call, args=args, T=T: rejected(ctx, [call(args), "exit(1)"], T))
        # results
        n = len(rets)
        E = "%s(%s)" % (op, ", ".join(full))
        for k in (0, 1, 2, 3):
            if k == n:
                continue
            if k == 0:
                ctx.ob("results", "%s ignored" % op, lambda E=E, T=T: rejected(ctx, [E, "exit(1)"], T))
            else:
                ctx.ob("results", "%s to %d variables" % (op, k), lambda E=E, T=T, k=k: rejected(ctx, ["%s = %s" % (", ".join("_" * k), E), "exit(1)"], T))
        if n > 1:
            vs = decls(rets)
            for keep in range(n):
                def f(op=op, keep=keep, vs=vs, E=E, imm=imm, rf=rf, T=T, n=n):
                    t, v = vs[keep]
                    st = [line("%s %s" % (t, v), []), line("%s = %s" % (", ".join(x if i == keep else "_" for i, (_, x) in enumerate(vs)), E), [x for r in rf for x in r] + [" ".join([op] + [str(x) for x in imm])] + ["store $" + x if i == keep else "pop" for i, (_, x) in enumerate(vs)]),
                          line('app_global_put("r", %s)' % v, ['pushbytes "r"', "load $" + v, "app_global_put"])]
                    src, ref = L.program([("mark", "0")] + st + [("mark", "1"), ("exit", ("i", 1))])
                    return equiv(ctx, src, ref, T, marks=True)
                ctx.ob("results", "%s result %d" % (op, keep), f)
                ctx.ob("results", "%s as operand" % op, lambda E=E, T=T: rejected(ctx, ["log(itob(%s))" % E, "exit(1)"], T))
        elif n == 1:
            for pos, tpl in {"exit": "exit(%s)", "assert": "assert(%s)", "log": "log(%s)", "itob": "log(itob(%s))"}.items():
                if (pos == "log") != (rets[0] == "B") and rets[0] != ".":
                    continue
                def f(op=op, tpl=tpl, E=E, imm=imm, rf=rf, T=T, pos=pos):
                    r = [x for y in rf for x in y] + [" ".join([op] + [str(x) for x in imm])]
                    st = line(tpl % E, r + {"exit": ["return"], "assert": ["assert"], "log": ["log"], "itob": ["itob", "log"]}[pos])
                    src, ref = L.program([("mark", "0"), st] + ([] if pos == "exit" else [("mark", "1"), ("exit", ("i", 1))]))
                    return equiv(ctx, src, ref, T, marks=True)
                ctx.ob("results", "%s in %s" % (op, pos), f)
    ctx.assumptions += ["opcodes of AVM version 8 as in sa/data/avm_ops.json", "opcodes that only move stack values (dig, cover, bury, …) are left to the writer of the program"]


def nm_any(s):
    return s.startswith("{")


def hash_(s):
    h = 0
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h
