"""Labels.  Every label of the emitted program is defined once, every branch target exists, and
jumps, branches and calls reach the construct they were written for - for programs with several
constructs of every kind, the same names in different scopes, and names that coincide with
labels the compiler generates (those labels are taken from the emitted code itself)."""
import re

from .common import *
from ..families import H, statements

FLOOR = 60
A = lambda n: ("assert", H(n))
EX = ("exit", ("i", 1))


def labelled():
    """constructs that need labels, with a body"""
    yield "if", lambda t, B: [("if", [(False, H("c" + t), B)], None)]
    yield "if-else", lambda t, B: [("if", [(False, H("c" + t), [A("p" + t)])], B)]
    yield "elif", lambda t, B: [("if", [(False, H("c" + t), [A("p" + t)]), (True, H("d" + t), B)], None)]
    yield "elif-elif-else", lambda t, B: [("if", [(False, H("c" + t), [A("p" + t)]), (False, H("d" + t), B), (False, H("e" + t), [A("q" + t)])], [A("r" + t)])]
    yield "while", lambda t, B: [("while", False, H("c" + t), B)]
    yield "for", lambda t, B: [("for", "k" + t, ("i", 0), ("i", 3), B)]
    yield "for_", lambda t, B: [("for_", ("i", 0), ("i", 3), B)]


def scopes():
    f = lambda n, b, rets=(): ("func", n, [], list(rets), b + [("return", [])])
    b = lambda n, s: ("block", n, s)
    yield "same-func-two-blocks", [("if", [(False, H("c"), [("jump", "a")])], None), ("jump", "b"),
                                   b("a", [("call", "f@a", []), EX, f("f@a", [A("fa")])]), b("b", [("call", "f@b", []), EX, f("f@b", [A("fb")])])]
    yield "same-func-main-and-block", [("call", "f@m", []), ("jump", "a"), b("a", [("call", "f@a", []), EX, f("f@a", [A("fa")])]), f("f@m", [A("fm")])]
    yield "same-func-main-first", [("call", "f@m", []), ("jump", "a"), f("f@m", [A("fm")]), b("a", [("call", "f@a", []), EX, f("f@a", [A("fa")])])]
    yield "same-func-nested", [("jump", "a"), b("a", [("call", "f@a", []), ("jump", "n"), f("f@a", [A("fa")]), b("n", [("call", "f@n", []), EX, f("f@n", [A("fn")])])])]
    yield "outer-func-from-inner-block", [("jump", "a"), b("a", [("jump", "n"), b("n", [("call", "f", []), ("call", "g", []), EX]), f("g", [A("ga")])]), f("f", [A("fm")])]
    yield "block-and-func-same-name", [("call", "x@f", []), ("jump", "x@b"), b("x@b", [A("xb"), EX]), f("x@f", [A("xf")])]
    yield "same-block-nested", [("jump", "x@m"), b("x@m", [("jump", "x@i"), b("x@i", [A("xi"), EX])])]
    yield "same-block-siblings", [("if", [(False, H("c"), [("jump", "a")])], None), ("jump", "b"),
                                  b("a", [("jump", "x@a"), b("x@a", [A("xa"), EX])]), b("b", [("jump", "x@b"), b("x@b", [A("xb"), EX])])]
    yield "inner-block-name-is-outer-block", [("jump", "a"), b("a", [("jump", "z@a"), b("z@a", [A("za"), EX])]), b("z@m", [A("zm"), EX])]
    yield "inner-block-name-is-outer-block-switch", [("jump", "a"), b("a", [("switch", H("s"), [(H("o"), "z@a")], "w"), b("z@a", [A("za"), EX])]), b("z@m", [A("zm"), EX]), b("w", [("jump", "z@m")])]
    yield "underscores", [("if", [(False, H("c"), [("jump", "a_")])], None), ("jump", "a"), b("a_", [("jump", "b"), b("b", [A("x"), EX])]), b("a", [("jump", "_b"), b("_b", [A("y"), EX])])]
    yield "double-underscore", [("if", [(False, H("c"), [("jump", "a")])], None), ("jump", "a__b@m"), b("a", [("jump", "b"), b("b", [A("x"), EX])]), b("a__b@m", [A("y"), EX])]
    yield "double-underscore-3", [("if", [(False, H("c"), [("jump", "a")])], None), ("jump", "a__b@m"), b("a", [("jump", "b__c@1"), b("b__c@1", [A("x"), EX])]), b("a__b@m", [("jump", "c@2"), b("c@2", [A("y"), EX])])]
    yield "func-label-as-block", [("call", "f", []), ("jump", "__func__f@b"), b("__func__f@b", [A("x"), EX]), f("f", [A("y")])]
    yield "func-label-as-inner-block", [("jump", "a"), b("a", [("call", "f", []), ("jump", "func__f@b"), b("func__f@b", [A("x"), EX]), f("f", [A("y")])])]
    yield "route-label-as-block", [("jump", "route_f@b"), b("route_f@b", [A("x"), EX])]


def user_label(l):
    """source form of an emitted label if a block may be given that name"""
    if not isinstance(l, str):
        return None
    return l if re.fullmatch(r"[A-Za-z_0-9]+", l) else None


def run(ctx):
    ctx.rule("unique", "each label is defined once, each target is defined, and control reaches the construct meant")
    ctx.rule("scopes", "the same names in different scopes denote their own construct")
    ctx.rule("collide", "a user's name equal to a generated label is rejected or kept apart")
    ctx.rule("same-scope", "two blocks or functions of one name in one scope are rejected")
    tail = [A("after"), EX]
    post = lambda p, r, d: unique_labels(p, d)
    L1 = list(labelled())

    def q(rule, name, body, fn=equiv):
        def f():
            src, rf = L.program(body)
            return fn(ctx, src, rf, post=post)
        ctx.ob(rule, name, f)
    for n1, f1 in L1:
        for n2, f2 in L1:
            q("unique", n1 + ";" + n2, f1("a", [A("x")]) + f2("b", [A("y")]) + tail)
            if not (n2 == "for_" and n1 in ("while", "for", "for_")):
                q("unique", n1 + ">" + n2, f1("a", f2("b", [A("x")]) + f2("c", [A("z")]) if n2 != "for_" else f2("b", [A("x")])) + tail)
        # the same construct in main, a block, a nested block and two functions
        b = lambda t: f1(t, [A("x" + t)])
        q("unique", n1 + "-everywhere", b("m") + [("call", "f", []), ("call", "g", []), ("jump", "b"),
          ("block", "b", b("b") + [("jump", "n"), ("block", "n", b("n") + [EX])]), ("func", "f", [], [], b("f") + [("return", [])]), ("func", "g", [], [], b("g") + [("return", [])])])
        # generated labels as block and function names
        def g(n1=n1, f1=f1):
            body = f1("a", [A("x")]) + tail
            seen = set()
            for r, teal in emitted(ctx, L.body_src(body)):
                seen |= {user_label(l) for l in prog(teal).labels} - {None}
            if not seen:
                return "generated labels can not be written by a user"
            for l in sorted(seen):
                src, rf = L.program(f1("a", [A("x")]) + [A("after"), ("jump", l), ("block", l, [A("blk"), EX])])
                either(ctx, src, rf, post=post)
                src, rf = L.program([("jump", l)] + [("block", l, f1("a", [A("x")]) + [A("blk"), EX])])
                either(ctx, src, rf, post=post)
                if re.match("[a-z]", l):
                    src, rf = L.program(f1("a", [A("x")]) + [A("after"), ("call", l, []), EX, ("func", l, [], [], [A("fn"), ("return", [])])])
                    either(ctx, src, rf, post=post)
            return "labels: " + " ".join(sorted(seen))
        ctx.ob("collide", n1, g)
    # numbers of constructs beyond what a fixed-width counter or a short name could hold
    many = []
    for i in range(140 if not ctx.thorough else 300):
        n1, f1 = L1[i % (len(L1) - 1)]
        many += f1("v%d" % i, [A("x%d" % i)])
    q("unique", "many-sequential", many + tail)
    deep = [A("x")]
    for i in range(16 if not ctx.thorough else 24):
        deep = L1[i % (len(L1) - 1)][1]("n%d" % i, deep)
    q("unique", "many-nested", deep + tail)
    nf = 24
    q("unique", "many-functions", [("call", "f%d" % i, []) for i in range(nf)] + [EX] + [("func", "f%d" % i, [], [], L1[i % (len(L1) - 1)][1]("g%d" % i, [A("x%d" % i)]) + [("return", [])]) for i in range(nf)])
    q("unique", "many-blocks", [("jump", "b0")] + [("block", "b%d" % i, L1[i % (len(L1) - 1)][1]("g%d" % i, [A("x%d" % i)]) + [("jump", "b%d" % (i + 1)) if i < nf - 1 else EX]) for i in range(nf)])
    for n, body in scopes():
        q("scopes", n, body, either if "underscore" in n or "label" in n else equiv)
    # constructs inside functions of the same name in different scopes
    for n1, f1 in L1:
        f = lambda t: ("func", "f@" + t, [], [], f1(t, [A("x" + t)]) + [("return", [])])
        q("scopes", n1 + "-in-same-func", [("if", [(False, H("c0"), [("jump", "a")])], None), ("jump", "b"),
          ("block", "a", [("call", "f@a", []), EX, f("a")]), ("block", "b", [("call", "f@b", []), EX, f("b")])])
    # names defined twice in one scope
    dup = {
        "block": ["jump b", "block b:", "    assert({x})", "    exit(1)", "end", "block b:", "    exit(2)", "end"],
        "block-nested": ["jump a", "block a:", "    jump b", "    block b:", "        exit(1)", "    end", "    block b:", "        exit(2)", "    end", "end"],
        "func": ["f()", "exit(1)", "func f():", "    assert({x})", "    return", "end", "func f():", "    return", "end"],
        "func-in-block": ["jump a", "block a:", "    f()", "    exit(1)", "    func f():", "        return", "    end", "    func f():", "        return", "    end", "end"],
        "route": ["router:", "    f", "    f", "end", "@public()", "func f():", "    return", "end"],
    }
    for n, src in dup.items():
        def f(src=src):
            return rejected(ctx, src)
        ctx.ob("same-scope", n, f)
    # the router's and the inner group macro's labels
    pub = lambda n: ["@public()", "func %s():" % n, "    assert({x%s})" % n, "    return", "end"]

    def post_only(src, types=None):
        ok, rej = compile_all(ctx, src, types)
        for r, teal in ok:
            d = "program:\n%s\n\nemitted TEAL:\n%s" % (src_text(src), "\n".join(showt(l) for l in teal))
            unique_labels(prog(teal, d), d)
        return len(ok), len(rej)

    def macro_labels(src):
        out = set()
        for r, teal in emitted(ctx, src):
            out |= {user_label(l) for l in prog(teal).labels} - {None}
        return sorted(out)
    grp = ["inner_group:", "    inner_txn:", "        Fee: 0", "    end", "end"]
    for n, src in {"group": grp + ["exit(1)"], "router-1": ["router:", "    aa", "end"] + pub("aa"), "router-2": ["router:", "    aa", "    bb", "end"] + pub("aa") + pub("bb"),
                   "router-3-group": grp + ["router:", "    aa", "    bb", "    cc", "end"] + pub("aa") + pub("bb") + pub("cc")}.items():
        def f(src=src):
            ok, rej = post_only(src)
            if rej:
                raise Violation("a valid program is rejected: " + exc_text(rej[0]), where_of(rej[0]), src_text(src), sub="rejected")
        ctx.ob("unique", n, f)
        def g(src=src):
            ls = macro_labels(src)
            n = 0
            for l in ls:
                # the same program with a block of that name
                ok, rej = post_only(src + ["block %s:" % l, "    exit(1)", "end"])
                n += ok + rej
                if re.match("[a-z]", l):
                    ok, rej = post_only(src + ["func %s():" % l, "    return", "end"])
                    n += ok + rej
            return "%d labels" % len(ls)
        ctx.ob("collide", n, g)
    if ctx.thorough:
        for n1, f1 in L1:
            for n2, f2 in L1:
                for n3, f3 in L1:
                    if "for_" in (n2, n3) and {n1, n2} & {"while", "for", "for_"}:
                        continue
                    q("unique", ">".join((n1, n2, n3)), f1("a", f2("b", f3("c", [A("x")])) + f2("d", [A("y")]) if n2 != "for_" else f2("b", f3("c", [A("x")]))) + tail)
    ctx.assumptions += ["TEAL opcode semantics as in sa/teal.py"]
