"""Minified TEAL.  minify_teal and strip_comments leave the code as it is: the same instructions, in
order, every branch to the same place, strings untouched; the map of minify_teal leads each line to the
line it was."""
import itertools

from .common import *
from .. import lang as L
from .. import exprs as X
from ..engine import ADict, AList
from ..families import statements, STRUCT, H, line
from ..harness import T as TT
from ..teal import encode, decode, lex, Prog

FLOOR = 150
BR = ("b", "bz", "bnz", "callsub", "switch", "match")

STR = ["a//b", "//", "// tl:1: x", "x:", "x: // y", "l1", "b l1", "; b l1", "a;b", '\\"', '\\\\', '\\"//', "l1: // z", "b l10 // c", " ", "", "#define", "'//'", "é//", "\\x2f/", "callsub l1", "end:"]
# TEAL written by hand: name -> lines
HAND = {
    "empty": [], "blank": ["", "  ", "\t"], "comments": ["// a", "  // b: c", "//"], "pragma": ["#pragma version 8", "pushint 1"], "indent": ["    pushint 1", "\tpop", "pushint 1 ", "return   "],
    "trailing": ["pushint 1 // one", "pop// pop it", "pushint 2   //   two // three", "return //"], "macro": ["#define KA 1", '#define KB "a//b"', "#define KC 0x00 // hex", "pushint KA // KA", "pop", "pushbytes KB", "log", "pushint 1", "return"],
    "two labels": ["pushint 1", "bnz b1", "err", "a1:", "b1:", "pushint 1", "return"], "three labels": ["pushint 1", "bnz c1", "b a1", "a1:", "b1:", "c1:", "b b1"], "labels with comments": ["bz b1", "a1: // first", "// between", "", "b1: // second", "b a1 // back to b1"],
    "labels apart": ["a1:", "pushint 1", "b1:", "bnz a1", "b b1"], "labels apart by macro": ["a1:", "#define K 1", "b1:", "pushint K", "bnz a1", "b b1"], "prefix": ["l1:", "l10:", "l100:", "b l1", "b l10", "b l100"], "prefix 2": ["x:", "l10:", "l1:", "b l1", "b l10", "b xl1", "xl1:", "b l1x", "l1x:", "b x"],
    "in order of use": ["b l3", "l1:", "l2:", "b l1", "l3:", "l4:", "b l2", "b l4", "b l3"], "several groups": ["a:", "b:", "pushint 1", "c:", "d:", "e:", "bnz b", "b d", "bz e", "callsub a", "callsub c"], "switch": ["pushint 1", "switch l1 l2 l3", "err", "l1:", "l2:", "l3:", "pushint 1", "return"],
    "match": ["pushint 1", "pushint 2", "pushint 3", "match l2 l1 // l2", "l1:", "l2:", "b l1"], "op names": ["log:", "txn:", "b:", 'pushbytes "a"', "log", "txn Fee", "b b", "b txn", "b log"], "label b": ["a:", "b:", "bz b", "b b", "bnz b", "callsub b"], "field names": ["Sender:", "Fee:", "txn Fee", "txn Sender", "b Fee"],
    "several ops": ["pushint 1; bnz l2", "pushint 1; bnz l2; b l1", "l1:", "l2:", "pop; b l2 // ; b l2", "dup;bz l2;b l1"], "label at the end": ["b l2", "l1:", "l2:"], "label at the start": ["l1:", "l2:", "b l2"], "only labels": ["l1:", "l2:", "l3:"], "spaces in label line": ["  l1:  ", "\tl2: // x", "b  l2", "b\tl1"],
    "words in comments": ["l1:", "l2:", "pushint 1 // b l2", "bnz l2 // to l2: and l1", "b l1 // l2"], "hex": ["pushbytes 0x2f2f // //", "log"], "names as prefix": ["fun:", "fun_f:", "callsub fun_f", "callsub fun", "callsub __fun_f", "__fun_f:", "retsub"], "digits": ["1:", "2:", "pushint 2", "bnz 2", "b 1"],
    "method": ['method "f(uint64)void" // f', "pop"], "slots": ["load 0 // [slot 0] a", "store 1// b", "l0_end:", "l0_else:", "load 0", "bz l0_else", "b l0_end"],
}
for i, s in enumerate(STR):
    HAND["string %d" % i] = ["x1:", "l1:", "#pragma version 8", 'pushbytes "%s"' % s, "log", 'pushbytes "%s" // %s' % (s, s), "l10:", "log", 'b l1 // "%s"' % s, "b l10", 'pushbytes "%s"; b l1' % s]
    HAND["define %d" % i] = ["x1:", "l1:", '#define KA "%s"' % s, '#define KB "%s" // %s' % (s, s), "pushbytes KA", "b l1"]


def parse(lines):
    """[(line number from 1, list of statements)], labels -> number of the statement they stand before"""
    out, labels, n = [], {}, 0
    for i, l in enumerate(lines):
        tab = []
        groups, comment = lex(encode(l, tab))
        st = []
        for g in groups:
            t = [decode(x, tab) for x in g]
            if not t:
                continue
            ps = pieces(t[0])
            if isinstance(ps[-1], str) and ps[-1].endswith(":") and len(t) == 1:
                name = tmpl(*ps[:-1], ps[-1][:-1])
                labels.setdefault(name, n)
                st.append(("label", name))
                continue
            st.append(("op",) + tuple(t))
            n += 1
        out.append((i + 1, st, comment is not None))
    return out, labels


def target(stmt, labels):
    """the statement with the places it branches to instead of the labels"""
    if stmt[1] in BR:
        return stmt[:2] + tuple(labels.get(x, ("undefined", x)) for x in stmt[2:])
    return stmt


def listing(a, b):
    f = lambda ls: "\n".join("%3d %s" % (i + 1, showt(l)) for i, l in enumerate(ls))
    return "TEAL:\n%s\n\nresult:\n%s" % (f(a), f(b))


def call(ctx, name, lines):
    h = ctx.harness()
    h.budget(lines)
    rs = h.explore(lambda it: it.call(it.modattr(it.module("tealish.utils"), name), [AList(list(lines))], {}))
    ctx.note(rs)
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model: %r" % (r.decisions[-3:],))
        if r.outcome != "return":
            raise Violation("%s ends in %s" % (name, exc_text(r) if r.outcome == "raise" else r.outcome), where_of(r) if r.outcome == "raise" else [], "\n".join(showt(l) for l in lines), sub="raises")
        v = r.value if hasattr(r.value, "items") and not isinstance(r.value, tuple) else r.value[0]
        for x in v.items:
            for q in pieces(r.interp.resolve(x)):
                if not isinstance(q, str) and q.kind == "strop":
                    raise AnalysisError("string operation outside the model: %s" % (q.args[0],))
        yield r


def same(a, b, d):
    """both programs have the same statements with the same targets"""
    pa, la = parse(a)
    pb, lb = parse(b)
    sa = [(n, target(s, la)) for n, st, _ in pa for s in st if s[0] == "op"]
    sb = [(n, target(s, lb)) for n, st, _ in pb for s in st if s[0] == "op"]
    for (n, x), (m, y) in itertools.zip_longest(sa, sb, fillvalue=(None, None)):
        if x != y:
            f = lambda ls, k: "nothing" if k is None else "`%s`" % showt(ls[k - 1]).strip()
            raise Violation("line %s, %s, became %s%s" % (n, f(a, n), f(b, m), "" if x is None or y is None or x[:2] != y[:2] or x[1] not in BR else ", which branches to another place"), [], d, sub="code")
    return pa, pb, sa, sb


def minified(ctx, lines):
    for r in call(ctx, "minify_teal", lines):
        v = r.value if isinstance(r.value, tuple) else tuple(r.value.items)
        out, mp = [r.interp.resolve(x) for x in v[0].items], {r.interp.resolve(k): r.interp.resolve(x) for k, x in v[1].d.items()}
        d = listing(lines, out) + "\n\nmap: %r" % (mp,)
        for i, l in enumerate(out):
            t = parse([l])[0][0][1]
            if not t and not showt(l).strip().startswith("#"):
                raise Violation("line %d of the result has no code" % (i + 1), [], d, sub="empty")
            if isinstance(l, str) and l != l.strip():
                raise Violation("line %d of the result has spaces around it" % (i + 1), [], d, sub="spaces")
        pa, pb, sa, sb = same(lines, out, d)
        # the lines the statements came from
        for (n, x), (m, y) in zip(sa, sb):
            if mp.get(m) != n:
                raise Violation("line %d of the result, `%s`, is said to be line %s instead of %d" % (m, showt(out[m - 1]), mp.get(m), n), [], d, sub="map")
        seen = 0
        for m, st, _ in pb:
            n = mp.get(m)
            if not isinstance(n, int) or not 1 <= n <= len(lines) or n <= seen:
                raise Violation("line %d of the result is said to be line %s" % (m, n), [], d, sub="map")
            seen = n
            if st and st[0][0] == "label" and (not pa[n - 1][1] or pa[n - 1][1][0][0] != "label"):
                raise Violation("line %d of the result, `%s`, is said to be line %d, `%s`" % (m, showt(out[m - 1]), n, showt(lines[n - 1]).strip()), [], d, sub="map")
        prev = False
        for m, st, _ in pb:
            lab = bool(st) and all(s[0] == "label" for s in st)
            if lab and prev:
                raise Violation("labels of one place were left as two, at line %d of the result" % m, [], d, sub="labels")
            prev = lab
        ctx.count("lines", len(lines))
        yield r, out


def stripped(ctx, lines):
    for r in call(ctx, "strip_comments", lines):
        out = [r.interp.resolve(x) for x in r.value.items]
        d = listing(lines, out)
        pa, pb, sa, sb = same(lines, out, d)
        la = [s for n, st, _ in pa for s in st]
        lb = [s for n, st, _ in pb for s in st]
        if la != lb:
            raise Violation("the code was changed", [], d, sub="code")
        if any(c for n, st, c in pb) or any(not st for n, st, c in pb):
            raise Violation("the result has comments or empty lines", [], d, sub="comment")
        if len(pb) != sum(1 for n, st, c in pa if st):
            raise Violation("the lines of the code were split or joined", [], d, sub="lines")
        for l in out:
            if isinstance(l, str) and l != l.strip():
                raise Violation("spaces left around `%s`" % l, [], d, sub="spaces")


def run(ctx):
    ctx.rule("minify", "the result has the instructions of the program, in order, with every branch to the place it led to; labels of one place are one; the map leads to the lines they were on")
    ctx.rule("strip", "the result has every instruction and label as it was, and no comment")
    ctx.rule("again", "minifying or stripping the result changes no code")

    def obs(n, get):
        def f():
            k = 0
            for ls in get():
                for r, out in minified(ctx, ls):
                    k += 1
            return "%d programs" % k

        def g():
            for ls in get():
                stripped(ctx, ls)

        def a():
            for ls in get():
                for r, out in minified(ctx, ls):
                    for r2, out2 in minified(ctx, out):
                        if out2 != out:
                            raise Violation("minifying again changes the program", [], listing(out, out2), sub="again")
                    stripped(ctx, out)
        ctx.ob("minify", n, f)
        ctx.ob("strip", n, g)
        ctx.ob("again", n, a)
    for n, ls in HAND.items():
        obs("by hand: " + n, lambda ls=ls: [[TT(x) if "{" in x else x for x in ls]])

    def compiled(src, types):
        ok, rej = compile_all(ctx, src, types)
        return [teal for r, teal in ok]
    for n, s in statements().items():
        cs = L.contexts(s.body)
        names = list(cs)
        for j, (cn, body) in enumerate(cs.items()):
            if not ctx.thorough and (j + len(n)) % 4:
                continue
            def get(s=s, body=body):
                src, _ = L.program(body + list(s.funcs) if body and body[-1][0] in ("exit", "func") else body, dyn_group=True)
                return compiled(list(s.pre) + src, s.types)
            obs("%s@%s" % (n, cn), get)
    for n, e in X.expressions().items():
        obs("expression " + n, lambda e=e: compiled(e.pre + L.program([("decl", "int" if X.is_int(e.out) else "bytes", "dv", e.raw), ("exit", ("i", 1))] if not e.decl and not e.funcs else e.decl + [("decl", "int" if X.is_int(e.out) else "bytes", "dv", e.raw), ("exit", ("i", 1))] + e.funcs)[0], e.types))
    for i, s in enumerate(STR):
        if s in ("é//",):
            continue
        obs("compiled string %d" % i, lambda s=s: compiled(['const bytes KK = "%s"' % (s or "x"), 'assert({i}, "%s")' % (s or "x"), "if {i}:", '    log("%s") # %s' % (s, s), "else:", "    while {i}:", "        log(KK)", "    end", "end", "# %s" % s, "exit(1)"], {"i": "int"}))
    for n, src in {
        "labels like words": ["if {i}:", "    jump log", "end", "jump l1", "block log:", "    log({b})", "    jump l0_end", "end", "block l1:", "    jump l10", "end", "block l10:", "    exit(1)", "end", "block l0_end:", "    exit({i})", "end"],
        "nested ends": ["if {i}:", "    if {i2}:", "        while {i}:", "            if {i}:", "                break", "            end", "        end", "    end", "else:", "    for j in 0:5:", "        if j:", "        end", "    end", "end"] + ["if {i}:", "    log({b})", "end"] * 12 + ["exit(1)"],
        "function names": ["f()", "ff()", "exit(1)", "func f():", "    while {i}:", "        ff()", "    end", "    return", "end", "func ff():", "    if {i}:", "        return", "    end", "    return", "end"],
        "blocks": ["switch {i}:", "    1: b", "    2: bb", "    else: b1", "end", "block b:", "    jump bb", "end", "block bb:", "    jump bbb", "    block bbb:", "        jump b", "    end", "end", "block b1:", "    jump b", "end"],
        "empty while": ["while {i}:", "end", "while {i2}:", "    while {i}:", "    end", "end", "exit(1)"], "for ends": ["for j in 0:3:", "    for k in 0:3:", "        for _ in 0:3:", "        end", "    end", "end", "exit(1)"],
    }.items():
        obs(n, lambda src=src: compiled(src, {"i": "int", "i2": "int", "b": "bytes"}))
    ctx.assumptions += ["TEAL is read as the assembler reads it (strings, `//`, `;`, labels, #define)"]
