"""Debug information.  The map of a compiled program, updated with the assembler's source map,
leads every program counter to the line of TEAL holding its opcode, the source line that line was
emitted for and the message of the assert there; the same after the map was written to JSON."""
import json

from .common import *
from ..clim import Model, FS
from ..engine import ADict, AList, AObj
from ..harness import source, to_abs

FLOOR = 20

P = {
    "one": ["exit(1)"],
    "assert-first": ['assert({x}, "first")', "exit(1)"],
    "asserts": ["# a comment", "", "int a = {x}", 'assert(a, "message one")', "assert(a)", 'assert({y}, "message, two: [1],")', 'assert(a == 2, "message \\"three\\"")', "", "exit(1)"],
    "nested": ["if {x}:", '    assert({y}, "in if")', "elif {y}:", '    assert({x}, "in elif")', "else:", "    while {x}:", '        assert({z}, "in while")', "    end", "    for i in 0:{y}:", '        assert(i, "in for")', "    end", "end", "exit(1)"],
    "functions": ["#pragma version 8", "int a = f({x})", 'assert(a, "main")', "exit(1)", "func f(b: int) int:", '    assert(b, "in f")', "    return b + 1", "end", "", "func g():", '    assert({y}, "in g")', "    return", "end"],
    "blocks": ["jump main", "block main:", '    assert({x}, "in main")', "    jump other", "end", "block other:", '    assert({y}, "in other")', "    exit(1)", "end"],
    "struct": ["struct Item:", "    aa: int", "    bb: bytes[3]", "end", "Item it = {s}", 'assert(it.aa, "field")', "it.aa = 3", "log(it.bb)", "exit(1)"],
    "group": ["inner_group:", "    inner_txn:", "        TypeEnum: Pay", "        Amount: {x}", "    end", '    assert({y}, "within")', "    inner_txn:", "        TypeEnum: Axfer", "    end", "end", "exit(1)"],
    "teal": ["teal:", "    pushint 1; pushint 2", "    pop // x", "    pop", "end", 'assert({x}, "after teal")', "exit(1)"],
}
P["long"] = P["asserts"][:-1] + ["# note %d" % i for i in range(95)] + ["while {x}:", '    assert({y}, "past line one hundred")', "end", 'assert({z}, "and one more")', "exit(1)"]
P["longer"] = ["# note %d" % i for i in range(997)] + ['assert({x}, "one")', 'assert({y}, "two")', "if {x}:", '    assert({z}, "three")', "end", "exit(1)"]
T1 = {"s": "bytes[11]", "x": "int", "y": "int", "z": "int"}




def ops_of(l):
    s = l if isinstance(l, str) else showt(l)
    # strings hold no separators in these programs
    out, q = [""], False
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\" and q:
            out[-1] += s[i:i + 2]
            i += 2
            continue
        if c == '"':
            q = not q
        if not q and s.startswith("//", i):
            break
        if not q and c == ";":
            out.append("")
        else:
            out[-1] += c
        i += 1
    r = []
    for o in out:
        o = o.strip()
        if o and not o.startswith("#") and not o.endswith(":"):
            r.append(o)
    return r


def answers(it, mp, pcs, nteal, nsrc):
    get = lambda n, k: it.resolve(it.call(it.getattr(mp, n), [k], {}))
    a = {"teal": {}, "tealish": {}, "error": {}, "line": {}, "back": {}}
    for pc in pcs:
        a["teal"][pc] = get("get_teal_line_for_pc", pc)
        a["tealish"][pc] = get("get_tealish_line_for_pc", pc)
        a["error"][pc] = get("get_error_for_pc", pc)
    for k in range(0, nteal + 3):
        a["line"][k] = get("get_tealish_line_for_teal", k)
    for k in range(0, nsrc + 3):
        v = get("get_teal_lines_for_tealish", k)
        a["back"][k] = list(it.iterate(v))
    return a


def run(ctx):
    ctx.rule("pc", "each program counter leads to the line of TEAL holding its opcode and the source line of that line")
    ctx.rule("error", "each program counter of an assert with a message leads to that message, no other does")
    ctx.rule("forms", "source maps given as the assembler's dictionary or decoded give the same answers")
    ctx.rule("json", "the map read back from the JSON of as_dict gives the same answers to every question")
    ctx.rule("unknown", "program counters and lines that do not exist have no line and no message")
    ctx.rule("file", "the map file `tealish build` writes gives those answers")

    def base(src):
        """expected answers from the map of the compiler (checked by C13)"""
        from .c13 import compiled
        r = compiled(ctx, src, T1)
        if len(r) != 1:
            raise AnalysisError("the program does not compile in one way")
        _, teal, lines, rev, errors = r[0]
        pcs = []
        for i, l in enumerate(teal):
            pcs += [i] * len(ops_of(l))
        return teal, lines, rev, errors, pcs

    def ask(src, form, unordered=False):
        teal, lines, rev, errors, pcs = base(src)
        h = ctx.harness(**T1)
        h.budget(src)
        text = source(src)

        def fn(it):
            m = Model(h, FS({}), assembler={"lines": pcs})
            it.stubs.update(m.stubs())
            it.user["cli"] = m
            c = it.call(it.modattr(it.module("tealish"), "compile_program"), [text], {})
            mp = (c if isinstance(c, tuple) else c.items)[1]
            sm = m.mapping()
            if form == "decoded":
                sm = m.sourcemap(it, [sm], {})
            it.call(it.getattr(mp, "update_from_teal_sourcemap"), [sm], {})
            ask_pcs = list(range(len(pcs))) + [len(pcs), len(pcs) + 7, 100000]
            first = answers(it, mp, ask_pcs, len(teal), len(src))
            d = it.call(it.getattr(mp, "as_dict"), [], {})
            s = m.dumps(it, [d], {})
            back = it.instantiate(mp.cls, [m.parsed(it, s)], {})
            return first, answers(it, back, ask_pcs, len(teal), len(src)), s
        rs = h.explore(fn)
        ctx.note(rs)
        if len(rs) != 1 or rs[0].outcome != "return":
            raise Violation("the map cannot be updated or read: %s" % (exc_text(rs[0]) if rs[0].outcome == "raise" else rs[0].outcome), where_of(rs[0]) if rs[0].outcome == "raise" else [], src_text(src), sub="raises")
        return teal, lines, rev, errors, pcs, rs[0].value

    def listing(src, teal):
        return "program:\n%s\nTEAL (from line 1):\n%s" % (src_text(src), "\n".join("%3d %s" % (i + 1, l if isinstance(l, str) else showt(l)) for i, l in enumerate(teal)))

    def compare(a, src, teal, lines, rev, errors, pcs, what=""):
        d = listing(src, teal)
        for pc, l in enumerate(pcs):
            t = a["teal"][pc]
            if t != l + 1:
                raise Violation("%sthe opcode at pc %d (`%s`, line %d of TEAL) is said to be on line %s" % (what, pc, teal[l] if isinstance(teal[l], str) else showt(teal[l]), l + 1, t), [], d, sub="teal line")
            if a["tealish"][pc] != lines[l + 1]:
                raise Violation("%sthe opcode at pc %d (`%s`), emitted for line %s, is said to be of line %s" % (what, pc, teal[l] if isinstance(teal[l], str) else showt(teal[l]), lines[l + 1], a["tealish"][pc]), [], d, sub="source line")
            want = errors.get(lines[l + 1])
            if a["error"][pc] != want:
                raise Violation("%sthe message at pc %d (line %s) is said to be %r; the assert there has %r" % (what, pc, lines[l + 1], a["error"][pc], want), [], d, sub="message")
        for k, v in a["line"].items():
            if v != (lines[k] if k < len(lines) else None):
                raise Violation("%sline %d of TEAL is said to be of line %s instead of %s" % (what, k, v, lines[k] if k < len(lines) else None), [], d, sub="line")
        for k, v in a["back"].items():
            if sorted(v) != sorted(rev.get(k, [])):
                raise Violation("%sline %d is said to have the lines of TEAL %s instead of %s" % (what, k, v, rev.get(k, [])), [], d, sub="back")

    for n, src in P.items():
        for form in ("dict", "decoded"):
            def f(src=src, form=form):
                teal, lines, rev, errors, pcs, v = ask(src, form)
                compare(v[0], src, teal, lines, rev, errors, pcs)
                return "%d program counters" % len(pcs)
            ctx.ob("forms", "%s-%s" % (n, form), f)

        def f(src=src):
            teal, lines, rev, errors, pcs, v = ask(src, "decoded")
            if not isinstance(v[2], str):
                raise AnalysisError("the map is not constant")
            compare(v[1], src, teal, lines, rev, errors, pcs, "read back from JSON: ")
        ctx.ob("json", n, f)

        def f(src=src):
            teal, lines, rev, errors, pcs, v = ask(src, "dict")
            for a, w in ((v[0], ""), (v[1], "read back from JSON: ")):
                for pc in (len(pcs), len(pcs) + 7, 100000):
                    if (a["teal"][pc], a["tealish"][pc], a["error"][pc]) != (None, None, None):
                        raise Violation("%spc %d, past the end of the program, is said to be of line %s: %r" % (w, pc, a["tealish"][pc], a["error"][pc]), [], listing(src, teal), sub="unknown")
        ctx.ob("unknown", n, f)

        def f(src=src):
            teal, lines, rev, errors, pcs = base(src)
            from .c18 import command
            for goal in ({}, {"--goal": True}):
                for o in command(ctx, ["build"], ["p/a.tl"], {"/work/p/a.tl": source(src)}, goal, assembler={"bytecode": b"x", "lines": pcs}, types=T1):
                    if not o.ok:
                        raise Violation("`tealish build` ends in %s" % exc_text(o.r), where_of(o.r), src_text(src), sub="raises")
                    js = o.changed.get("/work/p/build/a.map.json")
                    if not isinstance(js, str):
                        raise AnalysisError("the map file is not constant" if js is not None else "no map file")
                    h = ctx.harness(**T1)

                    def fn(it):
                        d = to_abs(json.loads(js))
                        c = it.modattr(it.module("tealish.utils"), "TealishMap")
                        return answers(it, it.instantiate(c, [d], {}), list(range(len(pcs))), len(teal), len(src))
                    rs = h.explore(fn)
                    ctx.note(rs)
                    if len(rs) != 1 or rs[0].outcome != "return":
                        raise Violation("the map file cannot be read: %s" % (exc_text(rs[0]) if rs[0].outcome == "raise" else rs[0].outcome), [], js, sub="read")
                    compare(rs[0].value, src, teal, lines, rev, errors, pcs, "in the map file: ")
        ctx.ob("file", n, f)
    # maps as made by hand or by other tools: sparse, unordered, with zeros, several lines of TEAL per line
    M = {
        "empty": {},
        "none": None,
        "only-lines": {"teal_tealish": {"1": 1, "2": 1, "3": 2}},
        "sparse": {"pc_teal": {"0": 2, "7": 2, "9": 40, "1000": 1}, "teal_tealish": {"40": 3, "2": 9, "1": 9}, "errors": {"9": "nine", "3": "x \"y\" ],"}},
        "large": {"pc_teal": {"5": 120, "6": 1200, "65536": 40}, "teal_tealish": {"40": 9999, "120": 100, "1200": 1000}, "errors": {"9999": "a", "100": "b", "1000": "c"}},
        "int-keys": {"pc_teal": {0: 1, 1: 2}, "teal_tealish": {1: 5, 2: 6}, "errors": {5: "five"}},
        "str-values": {"pc_teal": {"0": "1"}, "teal_tealish": {"1": "5"}, "errors": {"5": "five"}},
    }
    for n, d in M.items():
        def f(d=d, n=n):
            h = ctx.harness()
            want_pc = {int(k): int(v) for k, v in (d or {}).get("pc_teal", {}).items()}
            want_l = {int(k): int(v) for k, v in (d or {}).get("teal_tealish", {}).items()}
            want_e = {int(k): v for k, v in (d or {}).get("errors", {}).items()}
            pcs = sorted(set(want_pc) | {0, 1, 2, 8, 50})

            def fn(it):
                m = Model(h, FS({}), assembler={"lines": [0]})
                it.stubs.update(m.stubs())
                c = it.modattr(it.module("tealish.utils"), "TealishMap")
                mp = it.instantiate(c, [to_abs(d)] if d is not None else [], {})
                a1 = answers(it, mp, pcs, 45, 12)
                dd = it.call(it.getattr(mp, "as_dict"), [], {})
                s = m.dumps(it, [dd], {})
                return a1, answers(it, it.instantiate(c, [m.parsed(it, s)], {}), pcs, 45, 12)
            rs = h.explore(fn)
            ctx.note(rs)
            if len(rs) != 1 or rs[0].outcome != "return":
                raise Violation("the map %r cannot be read: %s" % (d, exc_text(rs[0]) if rs[0].outcome == "raise" else rs[0].outcome), where_of(rs[0]) if rs[0].outcome == "raise" else [], "", sub="raises")
            for a, w in zip(rs[0].value, ("", "read back: ")):
                for pc in pcs:
                    t = want_pc.get(pc)
                    l = want_l.get(t) if t is not None else None
                    e = want_e.get(l) if l is not None else None
                    if (a["teal"][pc], a["tealish"][pc], a["error"][pc]) != (t, l, e):
                        raise Violation("%spc %d of the map %r gives %r instead of %r" % (w, pc, d, (a["teal"][pc], a["tealish"][pc], a["error"][pc]), (t, l, e)), [], "", sub="pc")
                for k, v in a["line"].items():
                    if v != want_l.get(k):
                        raise Violation("%sline %d of TEAL of the map %r gives %r" % (w, k, d, v), [], "", sub="line")
                for k, v in a["back"].items():
                    if sorted(v) != sorted(t for t, l in want_l.items() if l == k):
                        raise Violation("%sline %d of the map %r gives %r" % (w, k, d, v), [], "", sub="back")
        ctx.ob("pc", "map " + n, f)
    # messages
    for n, src in P.items():
        def f(src=src, n=n):
            teal, lines, rev, errors, pcs, v = ask(src, "decoded")
            import re as _re
            want = {}
            for i, l in enumerate(src):
                m = _re.match(r'\s*assert\(.*?, ("(?:[^"\\]|\\.)*")\)$', l)
                if m:
                    want[i + 1] = m.group(1)[1:-1]
            got = {}
            for pc, l in enumerate(pcs):
                e = v[0]["error"][pc]
                if e is not None:
                    got.setdefault(v[0]["tealish"][pc], e)
                if ops_of(teal[l]) == ["assert"] and lines[l + 1] in want and e is None:
                    raise Violation("no message at pc %d, the assert of line %d" % (pc, lines[l + 1]), [], listing(src, teal), sub="missing")
            unq = lambda s: s.strip('"').replace('\\"', '"') if isinstance(s, str) else s
            if {k: unq(x) for k, x in got.items()} != {k: unq(x) for k, x in want.items()}:
                raise Violation("the messages by source line are %r instead of %r" % (got, want), [], listing(src, teal), sub="messages")
        ctx.ob("error", n, f)
    ctx.assumptions += ["algod's source map counts lines of TEAL from 0 (algosdk.source_map.SourceMap)", "the assembler gives each opcode one program counter in order"]
