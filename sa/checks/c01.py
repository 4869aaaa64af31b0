"""Expression evaluation.  Every expression form, in every syntactic position an expression can
occupy, evaluates its operands exactly once, in source order, and applies exactly the
operation named (simulation of the emitted dataflow against the documented meaning)."""
from .common import *
from .. import exprs as X
from .. import lang as L

FLOOR = 800


def run(ctx):
    ctx.rule("form", "the emitted code computes the documented value of the expression form, operands once and in order")
    ctx.rule("position", "… in every position an expression can be written")
    ctx.rule("nesting", "… with every expression form as operand of every composite form")
    ctx.rule("reject", "text that is not one expression is rejected, never partially compiled")
    ex, pos = X.expressions(), X.positions()
    for n, e in ex.items():
        for pn, (ok, mk) in pos.items():
            if not ok(e):
                continue
            def f(e=e, mk=mk, pn=pn):
                body = X.place(e, mk(e))
                src, rf = L.program(body)
                return equiv(ctx, e.pre + src, rf, dict(e.types, rr="any", ll="any"))
            ctx.ob("form" if pn in ("assert", "log") else "position", n + "@" + pn, f)
    # nesting: each value form as the operand of composite forms
    comp = {
        "sub-left": ("({e} - {{y}})", lambda r: r + ["%E {y}", "-"], "int"),
        "sub-right": ("({{y}} - {e})", lambda r: ["%E {y}"] + r + ["-"], "int"),
        "not": ("!{e}", lambda r: r + ["!"], "int"),
        "sqrt": ("sqrt({e})", lambda r: r + ["sqrt"], "int"),
        "concat-1": ("concat({e}, {{y}})", lambda r: r + ["%E {y}", "concat"], "bytes"),
        "concat-2": ("concat({{y}}, {e})", lambda r: ["%E {y}"] + r + ["concat"], "bytes"),
        "b-": ("({{y}} b- {e})", lambda r: ["%E {y}"] + r + ["b-"], "bytes"),
        "Concat": ("Concat({{y}}, {e}, {{z}})", lambda r: ["%E {y}"] + r + ["%E {z}", "concat", "concat"], "bytes"),
        "txnas": ("Txn.ApplicationArgs[{e}]", lambda r: r + ["txnas ApplicationArgs"], "int>bytes"),
        "call": ("cf({{y}}, {e})", lambda r: ["%E {y}"] + r + ["callsub F_cf"], "int"),
    }
    cf = ("func", "cf", [("c0", "int"), ("c1", "int")], ["int"], [("return", [("raw", "c0 - c1", ["load $c0", "load $c1", "-"])])])
    for n, e in ex.items():
        for cn, (tpl, rf, t) in comp.items():
            tin, tout = (t.split(">") + [t])[:2] if ">" in t else (t, t)
            if not (X.is_int(e.out) if tin == "int" else X.is_bytes(e.out)):
                continue
            if not e.value and cn in ("sub-left", "sub-right", "not", "b-"):
                continue
            if n == "int" and cn == "txnas":
                continue
            src = tpl.replace("{e}", "\0").replace("{{", "{").replace("}}", "}").replace("\0", e.src)
            ref = rf(e.ref)
            funcs = [cf] if cn == "call" else []
            # the composite itself nested once more, as the operand of a comparison
            def f(e=e, src=src, ref=ref, funcs=funcs):
                body = e.decl + [("line", ["assert({q0} == %s)" % src], ["%E {q0}"] + ref + ["==", "assert"]), ("exit", ("i", 1))] + funcs + e.funcs
                s, r = L.program(body)
                return equiv(ctx, e.pre + s, r, dict(e.types, y="any" if "Concat" not in src else "bytes", z="bytes"))
            ctx.ob("nesting", n + ">" + cn, f)
    for n, t in {"chain": "{a} + {b} + {c}", "chain-mixed": "{a} + {b} == {c}", "trailing": "{a} {b}", "trailing-paren": "{a} + {b})", "open-paren": "({a} + {b}", "missing": "{a} +",
                 "empty-args": "concat({a},, {b})", "unary-chain": "!{a} + {b} + {c}"}.items():
        def f(t=t):
            return rejected(ctx, ["assert(%s)" % t, "exit(1)"])
        ctx.ob("reject", n, f)
    ctx.assumptions += ["TEAL opcode semantics as in sa/teal.py", "a hole stands for any expression of its type"]
