"""Command line tools.  Each command is interpreted with a modelled file system, assembler and
network, its click parameters as declared: on success exactly the documented files hold exactly
the result; on any failure nothing is altered and a Tealish error ends in a message, not a
traceback."""
import json
import os
import re

from .common import *
from ..clim import Model, FS
from ..report import REPO
from ..harness import source

FLOOR = 40

VALID = {
    "one": ["exit(1)"],
    "asserts": ['assert({x}, "m: {m:note}")', "exit(1)"],
    "struct": ["struct Item:", "    aa: int", "    bb: bytes[3]", "end", "Item it = {s}", "assert(it.aa)", "exit(1)"],
    "long": ["#pragma version 8", "# a program", "int a = 1", "while a < 10:", "    a = a + 1", "end", "f(a)", "exit(1)", "func f(b: int):", "    assert(b)", "    return", "end", "", ""],
    "spaces": ["int a = 1   ", "", "", "", "if a:", "      assert(  a  )", "   end", "exit( 1 )"],
}
INVALID = {
    "unknown-statement": ["this is not tealish"],
    "syntax": ["assert(1 +)", "exit(1)"],
    "unclosed": ["if 1:", "    assert(1)"],
    "unknown-variable": ["assert(a)", "exit(1)"],
    "type": ['assert("a")', "exit(1)"],
    "late": ["int a = 1", "assert(a)", "b = 2", "exit(1)"],
    "unknown-function": ["foo(1)", "exit(1)"],
    "unknown-block": ["jump nowhere"],
    "arguments": ["assert(sqrt(1, 2))", "exit(1)"],
    "stdlib": ["log(Rpad(1, 2))", "exit(1)"],
    "return-count": ["f()", "exit(1)", "func f():", "    return 1", "end"],
    "struct-field": ["struct It:", "    a: foo", "end", "exit(1)"],
    "constant": ["assert(NOPE)", "exit(1)"],
    "shadow": ["int a = 1", "int a = 2", "exit(1)"],
    "slots": ["int v%d = 1" % i for i in range(260)] + ["exit(1)"],
    "empty-switch": ["switch 1:", "    2 3", "end"],
}


def text(lines):
    return source(lines)


def stdout(out):
    return "".join(o if isinstance(o, str) else showt(o) for o in out)


class Out:
    def __init__(self, r, m, fs):
        self.r, self.m, self.fs = r, m, fs
        self.ok = r.outcome == "return"
        self.exc = r.exc_name() if r.outcome == "raise" else None
        self.changed = {p: c for p, c in fs.changed().items() if p not in getattr(fs, "scratch", ())}


def command(ctx, words, args, files, opts=None, quiet=False, dirs=(), cwd="/work", types=None, **kw):
    h = ctx.harness(**(types or {}))
    state = {}
    h.budget(max((show(c) for c in files.values()), key=len, default=""))
    h.steps *= 4

    def fn(it):
        fs = FS(files, dirs, cwd)
        m = Model(h, fs, quiet=quiet, **kw)
        it.stubs.update(m.stubs())
        it.user["cli"] = (m, fs)
        return m.run(it, words, args, opts)
    rs = h.explore(fn)
    ctx.note(rs)
    outs = []
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model: %r" % (r.decisions[-3:],))
        if r.outcome not in ("return", "raise"):
            raise Violation("`tealish %s` does not terminate: %s" % (" ".join(words), r.value), [], "", sub="hang")
        m, fs = r.interp.user["cli"]
        outs.append(Out(r, m, fs))
    return outs


def show(c):
    return c if isinstance(c, str) else repr(c) if isinstance(c, (bytes, type(None))) else showt(c)


def expect(o, words, want, detail):
    """exactly these files were created or altered"""
    cmd = "`tealish %s`" % " ".join(words)
    if o.fs.removed():
        raise Violation("%s removes %s" % (cmd, ", ".join(o.fs.removed())), [], detail, sub="removed")
    for p, c in o.changed.items():
        if p not in want:
            raise Violation("%s %s %s, which is not its output" % (cmd, "alters" if p in o.fs.initial else "creates", p), [], detail, sub="alters")
        if c != want[p]:
            raise Violation("%s leaves in %s:\n%s\nexpected:\n%s" % (cmd, p, show(c), show(want[p])), [], detail, sub="content")
    for p in want:
        if o.fs.files.get(p) != want[p]:
            raise Violation("%s does not write %s" % (cmd, p), [], detail, sub="missing")


def teal_of(ctx, lines, types=None):
    h = ctx.harness(**(types or {}))
    rs = h.compile(lines)
    ctx.note(rs)
    if len(rs) != 1 or rs[0].outcome != "return":
        raise AnalysisError("the program does not compile in one way: %s" % [r.outcome for r in rs])
    out = []
    for l in rs[0].value[0]:
        out += [l, "\n"]
    return tmpl(*out)


def formatted(ctx, lines, types=None):
    h = ctx.harness(**(types or {}))
    rs = h.reformat(lines)
    ctx.note(rs)
    if len(rs) != 1 or rs[0].outcome != "return":
        raise AnalysisError("the program is not formatted in one way: %s" % [r.outcome for r in rs])
    return rs[0].value


T1 = {"s": "bytes[11]"}
NAMES = ["a.tl", "x.tl.tl", "my.tlx.tl", "a.b.tl", "plain", "prog.tealish", ".tl.tl", "a-b c.tl", "TL.tl", "tl.tl"]


def outname(n):
    return (n[:-3] if n.endswith(".tl") else n) + ".teal"


def run(ctx):
    ctx.rule("compile", "compile writes the TEAL of each source to build/<name>.teal beside it, and nothing else")
    ctx.rule("build", "build also writes the assembled bytes and the map, each of the TEAL it wrote; an assembler that fails leaves no such files")
    ctx.rule("format", "format replaces the file by the formatted program, whole, and alters nothing when the program is rejected")
    ctx.rule("readonly", "inspect, stats and langspec diff alter no file")
    ctx.rule("langspec", "langspec fetch and update write ./langspec.json only with a specification that was fetched")
    ctx.rule("failure", "a program that is rejected leaves every file as it was and ends in a message, for every command")
    ctx.rule("quiet", "--quiet prints nothing about progress")

    def one(words, opts=None, suffix=()):
        for n, src in VALID.items():
            def f(src=src):
                want = {"/work/p/build/a.teal": teal_of(ctx, src, T1)}
                stale = {"/work/p/build/a.teal": "old\n" * 200, "/work/p/build/other.teal": "keep\n", "/work/p/b.tl": "exit(1)\n"}
                for pre in ({}, stale):
                    for o in command(ctx, words, ["p/a.tl"], dict({"/work/p/a.tl": text(src)}, **pre), opts, types=T1):
                        d = "program:\n" + src_text(src)
                        if not o.ok:
                            raise Violation("`tealish %s` of a valid program ends in %s" % (" ".join(words), exc_text(o.r)), where_of(o.r), d, sub="raises")
                        expect(o, words, want, d)
                return "written whole"
            ctx.ob("compile", n, f)
        for n in NAMES:
            for where, arg in (("/work/", n), ("/work/d.tl/", "d.tl/" + n), ("/other/", "../other/" + n), ("/abs/x/", "/abs/x/" + n), ("/work/q/", "./q/" + n)):
                def f(n=n, where=where, arg=arg):
                    t = teal_of(ctx, VALID["one"])
                    for o in command(ctx, words, [arg], {where + n: "exit(1)"}, opts):
                        if not o.ok:
                            raise Violation("`tealish %s %s` ends in %s" % (" ".join(words), arg, exc_text(o.r)), where_of(o.r), "", sub="raises")
                        expect(o, words, {where + "build/" + outname(n): t}, "source file: " + arg)
                ctx.ob("compile", "name %s@%s" % (n, where), f)

        def d():
            files = {"/work/p/a.tl": "exit(1)", "/work/p/b.tl": "exit(2)", "/work/p/a.tl.tl": "exit(3)", "/work/p/c.txt": "x", "/work/p/sub/e.tl": "exit(5)", "/work/p/tl": "y", "/work/f.tl": "exit(4)"}
            for o in command(ctx, words, ["p"], files, opts):
                if not o.ok:
                    raise Violation("ends in %s" % exc_text(o.r), where_of(o.r), "", sub="raises")
                expect(o, words, {"/work/p/build/%s.teal" % n: teal_of(ctx, ["exit(%d)" % v]) for n, v in (("a", 1), ("b", 2), ("a.tl", 3))}, "directory")
            for o in command(ctx, words, ["."], files, opts, cwd="/work/p/sub"):
                expect(o, words, {"/work/p/sub/build/e.teal": teal_of(ctx, ["exit(5)"])}, "current directory")
        ctx.ob("compile", "directory", d)
        # structs and constants of one file of a directory are unknown in the others
        def iso():
            files = {"/work/p/a.tl": text(VALID["struct"][:3] + ["end", "exit(1)"]), "/work/p/b.tl": text(["Item it = {s}", "exit(1)"])}
            for o in command(ctx, words, ["p"], files, opts, types=T1):
                if o.ok or "/work/p/build/b.teal" in o.changed:
                    raise Violation("a file compiles with the structs of another file of the directory", [], "", sub="isolation")
        ctx.ob("compile", "directory-isolated", iso)
    one(["compile"])
    # --------------------------------------------------------------- build
    bc = b"\x08\x81\x01\x43"
    progs = {
        "one": ["exit(1)"],
        "message": ['assert(1, "plain")', "exit(1)"],
        "message-brackets": ['assert(1, "list [1],")', 'assert(2, "],{},],")', "exit(1)"],
        "message-escapes": ['assert(1, "say \\"hi\\" \\\\ there")', "exit(1)"],
        "lines": ["# c", "", "int a = 1", 'assert(a, "m")', "if a:", '    assert(2, "n: \'x\', y")', "end", "exit(1)"],
    }
    for asm, opts in (("algod", {}), ("goal", {"--goal": True}), ("algod-option", {"--algod": True}), ("algod-url", {"--algod-url": "http://localhost:4001#tok"})):
        for n, src in progs.items():
            def f(src=src, opts=opts):
                teal = teal_of(ctx, src)
                ls = [l for l in show(teal).split("\n")]
                pcs = [i for i, l in enumerate(ls) if l.strip() and not l.strip().startswith(("//", "#"))]
                for o in command(ctx, ["build"], ["p/a.tl"], {"/work/p/a.tl": text(src)}, opts, assembler={"bytecode": bc, "lines": pcs}):
                    d = "program:\n" + src_text(src)
                    if not o.ok:
                        raise Violation("`tealish build` of a valid program ends in %s" % exc_text(o.r), where_of(o.r), d, sub="raises")
                    mp = o.changed.pop("/work/p/build/a.map.json", None)
                    expect(o, ["build"], {"/work/p/build/a.teal": teal, "/work/p/build/a.teal.tok": bc}, d)
                    if mp is None:
                        raise Violation("`tealish build` does not write the map", [], d, sub="missing")
                    if not isinstance(mp, str):
                        raise AnalysisError("the map is not constant")
                    try:
                        json.loads(mp)
                    except ValueError as e:
                        raise Violation("the map file is not JSON (%s):\n%s" % (e, mp), [], d, sub="json")
                    a = [x for x in o.fs.log if x[0] == "assemble"]
                    given = a[0][2] if len(a) == 1 else None
                    if isinstance(given, bytes):
                        given = given.decode()
                    if given != teal:
                        raise Violation("the assembler is given\n%s\ninstead of the TEAL that is written" % show(given), [], d, sub="assembled")
                    if opts.get("--algod-url") and o.m.client != ("tok", "http://localhost:4001"):
                        raise Violation("the algod of the option is not the one used: %s" % (o.m.client,), [], d, sub="url")
                    if ("--goal" in opts) != (a[0][1] != "algod"):
                        raise Violation("the assembler of the option is not the one used", [], d, sub="assembler")
            ctx.ob("build", "%s-%s" % (asm, n), f)
        for mode in ("fail", None):
            def f(mode=mode, opts=opts):
                files = {"/work/p/a.tl": "exit(1)", "/work/p/build/a.map.json": "{}", "/work/p/build/a.teal.tok": b"old"}
                for o in command(ctx, ["build"], ["p/a.tl"], files, opts, assembler=mode):
                    bad = [p for p in o.changed if not p.endswith("/a.teal")]
                    if o.ok or bad:
                        raise Violation("`tealish build` with a failing assembler %s" % ("succeeds" if o.ok else "alters " + ", ".join(bad)), [], "", sub="failing assembler")
                    if o.exc != "ClickException":
                        raise Violation("a failing assembler ends in %s instead of a message" % exc_text(o.r), where_of(o.r), "", sub="traceback")
            ctx.ob("build", "%s-%s" % (asm, "fails" if mode else "missing"), f)

    def sandbox():
        for o in command(ctx, ["build"], ["p/a.tl"], {"/work/p/a.tl": "exit(1)"}, {"--sandbox": True}, assembler={"bytecode": bc, "lines": [1]}):
            if o.ok or any(not p.endswith("a.teal") for p in o.changed) or o.exc != "ClickException":
                raise Violation("the unsupported --sandbox is not reported", [], "", sub="sandbox")
    ctx.ob("build", "sandbox", sandbox)
    # --------------------------------------------------------------- format
    for n, src in VALID.items():
        def f(src=src):
            want = formatted(ctx, src, T1)
            for t in (text(src), tmpl(text(src), "\n"), tmpl(text(src), "\n" * 300)):
                for o in command(ctx, ["format"], ["p/a.tl"], {"/work/p/a.tl": t, "/work/p/b.tl": "x"}, types=T1):
                    d = "program:\n" + src_text(src)
                    if not o.ok:
                        raise Violation("`tealish format` of a valid program ends in %s" % exc_text(o.r), where_of(o.r), d, sub="raises")
                    expect(o, ["format"], {"/work/p/a.tl": want}, d)
        ctx.ob("format", n, f)
    # --------------------------------------------------------------- read only
    for n, src in VALID.items():
        def f(src=src):
            for o in command(ctx, ["inspect"], ["a.tl"], {"/work/a.tl": text(src)}, types=T1):
                if not o.ok:
                    raise Violation("`tealish inspect` of a valid program ends in %s" % exc_text(o.r), where_of(o.r), src_text(src), sub="raises")
                expect(o, ["inspect"], {}, "")
                s = stdout(o.m.out)
                got = json.loads(s)
                want = {"structs": {"Item": {"size": 11, "fields": {"aa": {"type": "int", "size": 8, "offset": 0}, "bb": {"type": "bytes[3]", "size": 3, "offset": 8}}}}} if "struct" in src[0] else {"structs": {}}
                if got != want:
                    raise Violation("`tealish inspect` prints %s; expected %s" % (got, want), [], src_text(src), sub="output")
        ctx.ob("readonly", "inspect-" + n, f)

    def stats(text, n):
        for arg in ("a.tl", "."):
            for o in command(ctx, ["stats"], [arg], {"/work/a.tl": text, "/work/b.tl": "\n", "/work/d/e.tl": "exit(1)", "/work/d/build/c.teal": "// x\nint 1\nreturn\n", "/work/d/x.txt": "a"}):
                if not o.ok:
                    raise Violation("`tealish stats` ends in %s" % exc_text(o.r), where_of(o.r), "", sub="raises")
                expect(o, ["stats"], {}, "")
                got = sorted(l.strip() for x in o.m.out for l in x.split("\n") if l.strip()) if all(isinstance(x, str) for x in o.m.out) else None
                if got is None:
                    raise AnalysisError("output of stats is %r" % (o.m.out,))
                want = [("a.tl", n)] if arg == "a.tl" else [("a.tl", n), ("b.tl", 0), ("c.teal", 2), ("e.tl", 1)]
                got = [(re.search(r"([\w.]+): ", l), re.search(r"(\d+) lines$", l)) for l in got]
                if sorted((a and a[1], b and int(b[1])) for a, b in got) != want:
                    raise Violation("`tealish stats %s` prints %s; the lines of code are %s" % (arg, o.m.out, want), [], "", sub="numbers")
    for si, (stext, sn) in enumerate([("# c\nexit(1)\n\nend\n", 1), ("exit(1)", 1), ("", 0), ("#x\n  # y\n// z\n\t\n", 0), ("while 1:\n    log(\"a\") # c\nend\n\n  end  \nexit(1)\nendless\n", 4)]):
        ctx.ob("readonly", "stats %d" % si, lambda t=stext, n=sn: stats(t, n))
    with open(os.path.join(REPO, "tealish", "langspec.json")) as f:
        spec = json.load(f)
    spec["Ops"].append({"Opcode": 250, "Name": "brandnew", "Args": "U", "Returns": "U", "Size": 1, "Doc": "", "Groups": []})

    def diff():
        for files in ({}, {"/work/langspec.json": json.dumps(spec)}):
            for args in ((), ("master",)):
                for o in command(ctx, ["langspec", "diff"], list(args), files, net=spec):
                    if not o.ok:
                        raise Violation("`tealish langspec diff` ends in %s" % exc_text(o.r), where_of(o.r), "", sub="raises")
                    expect(o, ["langspec", "diff"], {}, "")
    ctx.ob("readonly", "langspec-diff", diff)
    for words, args in ((["langspec", "fetch"], ["master"]), (["langspec", "fetch"], ["https://github.com/x/y/blob/z/langspec.json"]), (["langspec", "update"], [])):
        for net in (spec, "fail", "status"):
            for old in (None, "{\"old\": 1}"):
                def f(words=words, args=args, net=net, old=old):
                    files = {"/work/langspec.json": old} if old else {}
                    if old:
                        files = {"/work/keep/langspec.json": old}
                    for o in command(ctx, words, args, files, net=net):
                        if isinstance(net, dict):
                            if not o.ok:
                                raise Violation("`tealish %s` ends in %s" % (" ".join(words), exc_text(o.r)), where_of(o.r), "", sub="raises")
                            got = o.changed.pop("/work/langspec.json", None)
                            expect(o, words, {}, "")
                            if got is None or not isinstance(got, str) or json.loads(got) != spec:
                                raise Violation("`tealish %s` writes %s instead of the fetched specification" % (" ".join(words), show(got)[:200]), [], "", sub="content")
                        else:
                            if o.ok:
                                raise Violation("`tealish %s` succeeds without a specification" % " ".join(words), [], "", sub="succeeds")
                            expect(o, words, {}, "the download fails (%s)" % net)
                ctx.ob("langspec", "%s %s %s%s" % (" ".join(words), " ".join(args), net if isinstance(net, str) else "ok", " old" if old else ""), f)
    # --------------------------------------------------------------- failures
    for n, src in INVALID.items():
        for words, opts in ((["compile"], {}), (["build"], {}), (["build"], {"--goal": True}), (["format"], {}), (["inspect"], {})):
            def f(src=src, words=words, opts=opts, n=n):
                files = {"/work/p/a.tl": text(src), "/work/p/build/a.teal": "old\n", "/work/p/build/a.teal.tok": b"old", "/work/p/build/a.map.json": "{}"}
                for o in command(ctx, words, ["p/a.tl"], files, opts, assembler={"bytecode": bc, "lines": [1]}):
                    d = "program:\n" + src_text(src)
                    if o.ok:
                        if words == ["format"] and o.changed.keys() <= {"/work/p/a.tl"}:
                            raise Violation("`tealish format` accepts a program that does not compile", [], d, sub="accepted")
                        raise Violation("`tealish %s` accepts an invalid program" % " ".join(words), [], d, sub="accepted")
                    expect(o, words, {}, d)
                    if o.exc != "ClickException":
                        raise Violation("`tealish %s` ends in a traceback (%s) instead of a message" % (" ".join(words), exc_text(o.r)), where_of(o.r), d, sub="traceback")
            ctx.ob("failure", "%s%s: %s" % (" ".join(words), "".join(opts), n), f)

        def f(src=src):
            files = {"/work/p/a.tl": "exit(1)", "/work/p/b.tl": text(src), "/work/p/build/b.teal": "old\n"}
            for o in command(ctx, ["compile"], ["p"], files):
                if o.ok or "/work/p/build/b.teal" in o.changed:
                    raise Violation("`tealish compile` of a directory with an invalid program %s" % ("succeeds" if o.ok else "alters its output"), [], src_text(src), sub="accepted")
                if o.exc != "ClickException":
                    raise Violation("`tealish compile` ends in a traceback (%s) instead of a message" % exc_text(o.r), where_of(o.r), src_text(src), sub="traceback")
        ctx.ob("failure", "compile directory: " + n, f)
    for words in (["compile"], ["build"], ["format"], ["inspect"]):
        def f(words=words):
            for o in command(ctx, words, ["nofile.tl"], {"/work/a.tl": "exit(1)"}, assembler={"bytecode": bc, "lines": [1]}):
                if o.ok or o.changed:
                    raise Violation("`tealish %s` of a file that does not exist succeeds or writes" % words[0], [], "", sub="missing file")
        ctx.ob("failure", words[0] + ": no such file", f)
    # --------------------------------------------------------------- quiet
    for words, opts in ((["compile"], None), (["build"], None), (["build"], {"--goal": True})):
        def f(words=words, opts=opts):
            for q in (True, False):
                for o in command(ctx, words, ["a.tl"], {"/work/a.tl": "exit(1)"}, opts, quiet=q, assembler={"bytecode": bc, "lines": [1]}):
                    if not o.ok:
                        raise Violation("ends in %s" % exc_text(o.r), where_of(o.r), "", sub="raises")
                    if q and o.m.out:
                        raise Violation("`tealish --quiet %s` prints %s" % (words[0], o.m.out), [], "", sub="prints")
                    if not q and not o.m.out:
                        raise Violation("`tealish %s` prints nothing" % words[0], [], "", sub="silent")
        ctx.ob("quiet", words[0] + " ".join(opts or []), f)
    ctx.assumptions += ["click passes parameters as documented; pathlib, json, open behave as documented (sa/clim.py)", "only Tealish's own failures are considered, not those of the file system"]
