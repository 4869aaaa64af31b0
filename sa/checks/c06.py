"""Struct and box layout.  Fields are laid out one after another in the order they are declared;
reading a field yields exactly the bytes writing it stored, and a write leaves every other field
as it was.  For enumerated field lists the emitted reads and writes are compared with reference
code derived from an independent layout, in structs and boxes and wherever a struct may live."""
from .common import *
from ..families import H, line
from ..harness import T as TT
from ..report import Violation

FLOOR = 120
EX = ("exit", ("i", 1))
SIZES = {"int": 8, "uint64": 8, "uint8": 1, "addr": 32, "uint8[4]": 4}


def size_of(t, structs={}):
    if t in SIZES:
        return SIZES[t]
    if t in structs:
        return sum(size_of(x, structs) for n, x in structs[t])
    return int(t[t.index("[") + 1:-1])


def is_int(t):
    return t in ("int", "uint64", "uint8")


def layout(fields, structs={}):
    off, out = 0, {}
    for n, t in fields:
        s = size_of(t, structs)
        out[n] = (t, off, s)
        off += s
    return out, off


def decl_struct(name, fields):
    return ["struct %s:" % name] + ["    %s: %s" % f for f in fields] + ["end"]


def rd(v, t, off, size, box):
    r = ["load $" + v, "pushint %d" % off, "pushint %d" % size, "box_extract" if box else "extract3"]
    return r + (["btoi"] if is_int(t) else [])


def wr(v, hole, t, off, size, box):
    r = ["%%E {%s}" % hole]
    if is_int(t):
        r += ["itob"] + (["pushint %d" % (8 - size), "pushint %d" % size, "extract3"] if size < 8 else [])
    if box:
        return r + ["store $tmp_", "load $" + v, "pushint %d" % off, "load $tmp_", "box_replace"]
    return r + ["store $tmp_", "load $" + v, "pushint %d" % off, "load $tmp_", "replace3", "store $" + v]


def holetype(t, size):
    return {"uint64": "int", "uint8": "uint8", "int": "int"}.get(t, "bytes[%d]" % size)


def sink(v, f, t, box):
    """read the field in an expression and use it"""
    return "assert(%s.%s)" % (v, f) if is_int(t) else "log(%s.%s)" % (v, f)


def fieldlists(thorough):
    yield "ints", [("a", "int"), ("b", "int"), ("c", "int")]
    yield "one", [("a", "bytes[1]")]
    for t in ["int", "uint64", "uint8", "addr", "uint8[4]", "bytes[1]", "bytes[3]", "bytes[7]", "bytes[8]", "bytes[9]", "bytes[32]", "bytes[255]", "bytes[256]", "bytes[300]", "bytes[1024]"]:
        yield "pos-" + t, [("first", t), ("x", "int"), ("mid", t), ("y", "uint8"), ("z", "bytes[5]"), ("last", t)]
    yield "many", [("f%d" % i, ["int", "uint8", "bytes[2]", "addr", "uint64"][i % 5]) for i in range(25 if thorough else 16)]
    yield "cross-255", [("pad", "bytes[250]"), ("a", "uint8"), ("b", "bytes[3]"), ("c", "uint8"), ("d", "uint8"), ("e", "uint8"), ("f", "int"), ("g", "bytes[2]")]
    yield "boundary", [("pad", "bytes[247]"), ("a", "int"), ("b", "int"), ("c", "int")]
    yield "names", [("a", "int"), ("aa", "int"), ("a_a", "uint8"), ("aA", "bytes[4]"), ("size", "int"), ("offset", "int"), ("end_time", "int"), ("else_1", "int")]
    if thorough:
        ts = ["int", "uint8", "addr", "bytes[3]", "uint8[4]", "uint64"]
        for a in ts:
            for b in ts:
                for c in ts:
                    yield "%s-%s-%s" % (a, b, c), [("p", a), ("q", b), ("r", c)]


SEQ = [("a", "int"), ("b", "bytes[3]"), ("c", "uint8"), ("d", "addr"), ("e", "int")]


def decl(v, st, size, box, types, key=None):
    """declare a struct variable / box reference and its reference code"""
    h = "d_" + v
    if box:
        types[h] = "bytes"
        return line("box<%s> %s = Box({%s})" % (st, v, h), ["%%E {%s}" % h, "store $" + v])
    types[h] = "bytes[%d]" % size
    return line("%s %s = {%s}" % (st, v, h), ["%%E {%s}" % h, "store $" + v])


def run(ctx):
    ctx.rule("read", "reading a field extracts the bytes at its offset, integers converted from big-endian bytes")
    ctx.rule("write", "writing a field replaces exactly its bytes, integers converted to their size")
    ctx.rule("place", "fields keep their meaning wherever the struct or box lives")
    ctx.rule("box", "CreateBox / OpenBox / Box check what is documented with the size of the struct")
    ctx.rule("size", "SizeOf and inspect report the layout")
    ctx.rule("reject", "structs without a known layout and unknown fields are rejected")
    for name, fields in fieldlists(ctx.thorough):
        lay, total = layout(fields)
        for box in (False, True):
            kind = "box" if box else "struct"
            for f, (t, off, size) in lay.items():
                for pre in ((), ("pre",)) if f == fields[0][0] else ((),):
                    def read(f=f, t=t, off=off, size=size, box=box, fields=fields, total=total, pre=pre):
                        ty = {}
                        body = ([decl("o", "S", total, not box, ty)] if pre else []) + [decl("v", "S", total, box, ty), line(sink("v", f, t, box), rd("v", t, off, size, box) + ["assert" if is_int(t) else "log"])]
                        src, rf = L.program(body + [EX])
                        return equiv(ctx, decl_struct("S", fields) + src, rf, ty)
                    ctx.ob("read", "%s.%s@%s%s" % (name, f, kind, "-2" if pre else ""), read)

                    def write(f=f, t=t, off=off, size=size, box=box, fields=fields, total=total, pre=pre):
                        ty = {"x": holetype(t, size)}
                        body = ([decl("o", "S", total, not box, ty)] if pre else []) + [decl("v", "S", total, box, ty), line("v.%s = {x}" % f, wr("v", "x", t, off, size, box)), line("log(v)", ["load $v", "log"])]
                        src, rf = L.program(body + [EX])
                        return equiv(ctx, decl_struct("S", fields) + src, rf, ty)
                    ctx.ob("write", "%s.%s@%s%s" % (name, f, kind, "-2" if pre else ""), write)
        if name != "one":
            def alls(fields=fields, lay=lay, total=total):
                """write then read every field, in both kinds of storage"""
                ty = {}
                body = [decl("v", "S", total, False, ty), decl("w", "S", total, True, ty)]
                for f, (t, off, size) in lay.items():
                    for v, box in (("v", False), ("w", True)):
                        h = "x_%s_%s" % (v, f)
                        ty[h] = holetype(t, size)
                        body.append(line("%s.%s = {%s}" % (v, f, h), wr(v, h, t, off, size, box)))
                for f, (t, off, size) in reversed(list(lay.items())):
                    for v, box in (("v", False), ("w", True)):
                        body.append(line(sink(v, f, t, box), rd(v, t, off, size, box) + ["assert" if is_int(t) else "log"]))
                src, rf = L.program(body + [EX])
                return equiv(ctx, decl_struct("S", fields) + src, rf, ty)
            ctx.ob("place", "all-fields@" + name, alls)
        ctx.ob("size", "sizeof@" + name, lambda fields=fields, total=total: equiv(ctx, decl_struct("S", fields) + L.program([line("assert(SizeOf(S))", ["pushint %d" % total, "assert"]), EX])[0],
                                                                                  L.program([line("x", ["pushint %d" % total, "assert"]), EX])[1]))
        for how, chk in (("Create", ["dup", "pushint %d" % total, "box_create", "assert"]), ("Open", ["dup", "box_len", "assert", "pushint %d" % total, "==", "assert"]), ("", [])):
            def bx(how=how, chk=chk, fields=fields):
                body = [line("box<S> v = %sBox({k})" % how, ["%E {k}"] + chk + ["store $v"]), line("log(v)", ["load $v", "log"]), EX]
                src, rf = L.program(body)
                return equiv(ctx, decl_struct("S", fields) + src, rf, {"k": "bytes"})
            ctx.ob("box", "%sBox@%s" % (how, name), bx)
        ctx.ob("size", "inspect@" + name, lambda fields=fields, lay=lay, total=total: inspect(ctx, fields, lay, total))
    places(ctx)
    rejects(ctx)
    ctx.assumptions += ["TEAL opcode semantics as in sa/teal.py", "a hole stands for any expression of its type"]


def inspect(ctx, fields, lay, total):
    h = ctx.harness()
    src = decl_struct("S", fields) + ["exit(1)"]
    rs = h.inspect(src)
    ctx.note(rs)
    for r in rs:
        if r.outcome != "return":
            raise Violation("inspecting a valid program ends with %s" % (exc_text(r) if r.outcome == "raise" else r.value), where_of(r), "\n".join(src), sub="inspect")
        got = plain(r.interp, r.value)
        try:
            s = got["structs"]["S"]
        except (KeyError, TypeError):
            raise Violation("inspect does not report the struct", [], "\n".join(src) + "\n\n" + repr(got), sub="inspect")
        if s.get("size") != total:
            raise Violation("inspect reports size %r for a struct of %d bytes" % (s.get("size"), total), [], "\n".join(src) + "\n\n" + repr(s), sub="inspect size")
        if list(s["fields"]) != [n for n, t in fields]:
            raise Violation("inspect reports the fields %s" % list(s["fields"]), [], "\n".join(src), sub="inspect fields")
        for f, (t, off, size) in lay.items():
            g = s["fields"][f]
            if (g.get("offset"), g.get("size")) != (off, size):
                raise Violation("inspect reports offset %r and size %r for field %s at %d of size %d" % (g.get("offset"), g.get("size"), f, off, size), [], "\n".join(src) + "\n\n" + repr(s), sub="inspect field")
    return "%d fields" % len(lay)


def plain(it, v):
    v = it.resolve(v)
    if isinstance(v, ADict):
        return {plain(it, k): plain(it, x) for k, x in v.d.items()}
    if isinstance(v, AList):
        return [plain(it, x) for x in v.items]
    return v


def places(ctx):
    S = decl_struct("S", SEQ)
    lay, total = layout(SEQ)
    other = [("e", "uint8"), ("d", "int"), ("c", "addr"), ("b", "int"), ("a", "bytes[3]")]
    olay, ototal = layout(other)

    def rw(v, lay, box, tag="", fs=None):
        out = []
        for f, (t, off, size) in lay.items():
            if fs and f not in fs:
                continue
            h = "x%s_%s_%s" % (tag, v, f)
            TY[h] = holetype(t, size)
            out.append(line("%s.%s = {%s}" % (v, f, h), wr(v, h, t, off, size, box)))
            out.append(line(sink(v, f, t, box), rd(v, t, off, size, box) + ["assert" if is_int(t) else "log"]))
        return out
    cases = {}
    for box in (False, True):
        TY = {"c": "int", "c2": "int"}
        k = "box" if box else "struct"
        D = lambda v, st="S", n=total: decl(v, st, n, box, TY)
        cases["two-structs-same-fields@" + k] = (S + decl_struct("R", other), [D("v"), D("w", "R", ototal)] + rw("v", lay, box) + rw("w", olay, box, "o") + rw("v", lay, box, "2"), TY)
        cases["two-variables@" + k] = (S, [D("v"), D("w")] + rw("v", lay, box) + rw("w", lay, box) + rw("v", lay, box, "2"), TY)
        cases["while@" + k] = (S, [D("v"), ("while", False, H("c"), [D("w")] + rw("v", lay, box) + rw("w", lay, box))] + rw("v", lay, box, "2"), TY)
        cases["if@" + k] = (S, [D("v"), ("if", [(False, H("c"), rw("v", lay, box, "i")), (True, H("c2"), rw("v", lay, box, "j"))], rw("v", lay, box, "k"))], TY)
        cases["block@" + k] = (S, [D("v"), ("jump", "b")], TY, [("block", "b", [D("w")] + rw("v", lay, box) + rw("w", lay, box) + [EX])])
        cases["func-local@" + k] = (S, [("call", "f", [])], TY, [("func", "f", [], [], [D("v")] + rw("v", lay, box) + [("return", [])])])
        cases["two-funcs@" + k] = (S + decl_struct("R", other), [("call", "f", []), ("call", "g", [])], TY, [("func", "f", [], [], [D("v")] + rw("v", lay, box) + [("return", [])]), ("func", "g", [], [], [D("u", "R", ototal)] + rw("u", olay, box) + [("return", [])])])
    ty = dict(TY)
    # a struct as parameter, result, and source of an assignment
    TY = t1 = {"h0": "bytes[%d]" % total}
    cases["parameter@struct"] = (S, [decl("v", "S", total, False, TY), line("f(v, {x})", ["load $v", "%E {x}", "!call f"]) if False else ("call", "f", [("v", "v"), H("x")])], TY,
                                 [("func", "f", [("s", "S"), ("n", "int")], [], rw("s", lay, False) + [("assert", ("v", "n")), ("return", [])])])
    TY = {}
    cases["result@struct"] = (S, [("decl", "S", "v", ("call", "f", [H("hx")]))] + rw("v", lay, False), TY,
                              [("func", "f", [("s", "bytes[%d]" % total)], ["S"], [("return", [("v", "s")])])])
    TY["hx"] = "bytes[%d]" % total
    TY = {}
    cases["copy@struct"] = (S, [decl("v", "S", total, False, TY), ("decl", "S", "w", ("v", "v"))] + rw("w", lay, False) + rw("v", lay, False) + [("set", ["w"], ("v", "v"))] + rw("w", lay, False, "2"), TY)
    TY = {}
    cases["copy-as-bytes@struct"] = (S, [decl("v", "S", total, False, TY), ("decl", "bytes[%d]" % total, "w", ("v", "v")), ("decl", "bytes", "z", ("v", "v")), line("log(w)", ["load $w", "log"]), line("log(z)", ["load $z", "log"])], TY)
    # a struct within a struct
    outer = [("p", "uint8"), ("in1", "S"), ("q", "int"), ("in2", "S")]
    sl, st = layout(outer, {"S": SEQ})
    for box in (False, True):
        TY = {}
        body = [decl("v", "O", st, box, TY)]
        for f in ("in1", "in2"):
            t, off, size = sl[f]
            body.append(line("S i_%s = v.%s" % (f, f), rd("v", "b", off, size, box) + ["store $i_" + f]))
            body += rw("i_" + f, lay, False)
            body.append(line("v.%s = i_%s" % (f, f), ["load $i_" + f, "store $t2_"] + (["load $v", "pushint %d" % off, "load $t2_", "box_replace"] if box else ["load $v", "pushint %d" % off, "load $t2_", "replace3", "store $v"])))
        body += rw("v", {k: v for k, v in sl.items() if k in "pq"}, box)
        cases["nested@" + ("box" if box else "struct")] = (S + decl_struct("O", outer), body, TY)
    # copying between fields of structs and boxes
    TY = {}
    body = [decl("v", "S", total, False, TY), decl("w", "S", total, True, TY)]
    for f, (t, off, size) in lay.items():
        for a, b, ab, bb in (("v", "w", False, True), ("w", "v", True, False)):
            w = wr(a, "@", t, off, size, ab)
            body.append(line("%s.%s = %s.%s" % (a, f, b, f), rd(b, t, off, size, bb) + w[1:]))
    body.append(line("log(v)", ["load $v", "log"]))
    cases["field-to-field"] = (S, body, TY)
    TY = {}
    body = [decl("v", "S", total, False, TY), line("v.a = v.a + v.e", rd("v", *lay["a"], False) + rd("v", *lay["e"], False) + ["+"] + wr("v", "@", *lay["a"], False)[1:]), line("log(v)", ["load $v", "log"])]
    cases["update-in-place@struct"] = (S, body, TY)
    TY = {"key": "bytes", "c": "int"}
    cases["open-in-branches@box"] = (S, [("if", [(False, H("c"), [line("box<S> v = OpenBox({key})", ["%E {key}", "dup", "box_len", "assert", "pushint %d" % total, "==", "assert", "store $v"])] + rw("v", lay, True))], None)] + rw("v", lay, True, "2"), TY)
    for n, c in cases.items():
        def f(c=c):
            pre, body, ty = c[:3]
            src, rf = L.program(body + ([EX] if body[-1][0] != "jump" else []) + list(c[3] if len(c) > 3 else []))
            return equiv(ctx, pre + src, rf, ty)
        ctx.ob("place", n, f)


def rejects(ctx):
    S = decl_struct("S", SEQ)
    bad = {
        "unsized-bytes": decl_struct("S", [("a", "int"), ("b", "bytes"), ("c", "int")]) + ["exit(1)"],
        "unsized-last": decl_struct("S", [("a", "int"), ("b", "bytes")]) + ["exit(1)"],
        "unsized-bigint": decl_struct("S", [("a", "bigint"), ("c", "int")]) + ["exit(1)"],
        "bytes-0": decl_struct("S", [("a", "bytes[0]"), ("c", "int")]) + ["exit(1)"],
        "unknown-type": decl_struct("S", [("a", "foo")]) + ["exit(1)"],
        "unknown-struct": decl_struct("S", [("a", "Foo")]) + ["exit(1)"],
        "self": decl_struct("S", [("a", "S")]) + ["exit(1)"],
        "array-of-unknown": decl_struct("S", [("a", "uint64[4]")]) + ["exit(1)"],
        "same-field": decl_struct("S", [("a", "int"), ("b", "int"), ("a", "int")]) + ["exit(1)"],
        "text-after-type": ["struct S:", "    a: int, b: int", "end", "exit(1)"],
        "text-after-size": ["struct S:", "    a: bytes[3]x", "end", "exit(1)"],
        "two-sizes": ["struct S:", "    a: bytes[3][4]", "end", "exit(1)"],
        "read-unknown@struct": S + ["S v = bzero(SizeOf(S))", "assert(v.zz)", "exit(1)"],
        "read-unknown@box": S + ['box<S> v = OpenBox("k")', "assert(v.zz)", "exit(1)"],
        "write-unknown@struct": S + ["S v = bzero(SizeOf(S))", "v.zz = 1", "exit(1)"],
        "write-unknown@box": S + ['box<S> v = OpenBox("k")', "v.zz = 1", "exit(1)"],
        "read-of-int": ["int v = 1", "assert(v.a)", "exit(1)"],
        "write-of-int": ["int v = 1", "v.a = 1", "exit(1)"],
        "read-of-bytes": ['bytes v = "abc"', "assert(v.a)", "exit(1)"],
        "write-of-bytes": ['bytes v = "abc"', "v.a = 1", "exit(1)"],
        "read-undeclared": S + ["assert(v.a)", "exit(1)"],
        "write-undeclared": S + ["v.a = 1", "exit(1)"],
        "box-of-unknown": ['box<Foo> v = OpenBox("k")', "exit(1)"],
        "var-of-unknown": ["Foo v", "exit(1)"],
        "field-of-other-struct": S + decl_struct("R", [("zz", "int")]) + ["S v = bzero(SizeOf(S))", "v.zz = 1", "exit(1)"],
    }
    for n, src in bad.items():
        ctx.ob("reject", n, lambda src=src: rejected(ctx, src))
