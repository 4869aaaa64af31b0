"""Diagnostics.  A text that is not a valid program is rejected with a ParseError or CompileError
whose message names the line at fault; no text makes the compiler end in another exception or run
forever."""
import re

from .common import *
from ..grammar import BlowUp
from ..patterns import exponential
from ..invalid import POS, STMT, PLACED, WHOLE, STRUCT, HT

FLOOR = 400
NAMED = re.compile(r"(?i)\b(?:line|at) (\d+)\b")


def diagnostic(ctx, src, want, types=None, what="an invalid program"):
    """every partition is rejected with a diagnostic naming one of the lines `want`"""
    h = ctx.harness(**(types or {}))
    h.budget(src)
    rs = h.compile(src)
    ctx.note(rs)
    d = "program:\n" + "\n".join("%3d %s" % (i + 1, showt(l)) for i, l in enumerate(src) if not showt(l).startswith("# note"))
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model")
        if r.outcome == "return":
            raise Violation("%s compiles" % what, where_teal(r), d + "\n\nemitted TEAL:\n" + "\n".join(showt(l) for l in r.value[0]), sub="accepted")
        if r.outcome == "stuck":
            raise Violation("compiling does not terminate: %s" % r.value, [], d, sub="hang")
        if r.outcome != "raise":
            raise AnalysisError("partition ended with %s %s" % (r.outcome, r.value))
        if r.exc_name() not in DIAG:
            raise Violation("%s is rejected with %s instead of a Tealish diagnostic" % (what, exc_text(r)), where_of(r), d, sub="raises " + (r.exc_name() or ""))
        m = r.value.value[0] if r.value.value else None
        if m is None or not (is_str(m)):
            raise AnalysisError("the message is not known")
        if want is not None:
            got = {int(x) for x in NAMED.findall(showt(m))}
            if not got & set(want):
                raise Violation("the message %r names %s, the line at fault is %s" % (showt(m).split("\n")[0][:160], "the lines %s" % sorted(got) if got else "no line", " or ".join(map(str, want))), where_of(r), d, sub="line")
    return "%d partitions rejected" % len(rs)


def settled(ctx, src, types=HT):
    """every partition compiles or is rejected with a diagnostic naming a line of the program"""
    h = ctx.harness(**types)
    h.budget(src)
    rs = h.compile(src)
    ctx.note(rs)
    n = 0
    d = "program:\n" + "\n".join("%3d %s" % (i + 1, showt(l)) for i, l in enumerate(src) if not showt(l).startswith("# note"))
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model")
        if r.outcome == "return":
            continue
        if r.outcome == "stuck":
            raise Violation("compiling does not terminate: %s" % r.value, [], d, sub="hang")
        if r.outcome != "raise":
            raise AnalysisError("partition ended with %s %s" % (r.outcome, r.value))
        if r.exc_name() not in DIAG:
            raise Violation("compiling ends in %s instead of a Tealish diagnostic" % exc_text(r), where_of(r), d, sub="raises " + (r.exc_name() or ""))
        n += 1
        m = r.value.value[0] if r.value.value else None
        if m is None or not is_str(m):
            raise AnalysisError("the message is not known")
        got = {int(x) for x in NAMED.findall(showt(m))}
        if not any(0 < g <= len(src) for g in got):
            raise Violation("the message %r names no line of the program" % showt(m).split("\n")[0][:160], where_of(r), d, sub="line")
    return n


def placed(name, lines, at, pos, shift):
    pre, post = POS[pos]
    ind = "    " * 2
    struct = STRUCT if any("Item" in l for l in lines) else []
    head = struct + ["# note"] * (shift - len(struct))
    src = head + pre + [ind + l for l in lines] + post
    return src, [len(head) + len(pre) + a + 1 for a in (at if isinstance(at, tuple) else (at,))]


NEST = {
    "call": "itob(|)", "call-operand": "itob(| + 1)", "call-second": "itob(1 + |)", "group": "(| + 1)", "group-second": "(1 + |)", "unary": "!|", "unary-group": "!(| + 1)", "user-call": "f(|)", "user-call-two": "f(1, |)", "stdlib": "Cast(|, int)",
    "array": "Txn.Accounts[|]", "inner-array": "Itxn.Logs[|]", "group-index": "Gtxn[|].Amount", "group-array": "Gtxn[|].Accounts[0]", "group-array-index": "Gtxn[0].Accounts[|]", "argument-call": "sha256(concat(|, |))",
}
INNER = {"number": "1", "string": '"ab"', "variable": "v", "constant": "ABC", "field": "Txn.Fee", "broken": "1 +"}


def nested(ctx, form, inner):
    """the steps of parsing n nested expressions grow with n, not with 2**n"""
    counts = []
    for n in range(1, 7):
        e = inner
        for _ in range(n):
            e = form.replace("|", e)
        h = ctx.harness(**HT)
        try:
            rs = h.compile(["int v = " + e, "exit(v)"])
            ctx.note(rs)
            counts.append(max(x[2] for r in rs for x in r.events if x[0] == "parse-steps"))
        except BlowUp:
            raise Violation("parsing %d nested expressions takes more than 200000 steps" % n, [], "expression:\n  " + e, sub="nesting")
    # steps per character of the text
    rate = [c / (len(inner) + (i + 1) * (len(form) - 1)) for i, c in enumerate(counts)] if form.count("|") == 1 else [c / 2 ** i for i, c in enumerate(counts)]
    if rate[-1] > 3 * rate[2] and rate[-1] > 4 * rate[0]:
        raise Violation("the steps of parsing nested expressions grow exponentially: %s" % counts, [], "expression:\n  " + e, sub="nesting")
    return "steps %s" % counts


def patterns(ctx, src):
    h = ctx.harness(**HT)
    seen = {}
    for run in (h.compile, h.reformat):
        rs = run(src)
        ctx.note(rs)
        for r in rs:
            for e in r.events:
                if e[0] == "re":
                    seen.setdefault((e[2], e[1]), e)
    for p, how in seen:
        w = exponential(p, full=how == "fullmatch")
        if w is not None:
            raise Violation("matching the pattern %r takes time exponential in the length of a line: the text %r repeated can be read in two ways" % (p, w), [], sub="pattern")
    return "%d patterns" % len(seen)


def run(ctx):
    ctx.rule("pattern", "no regular expression applied to a line takes exponential time")
    ctx.rule("nesting", "the steps of parsing an expression grow linearly with the depth of its nesting")
    ctx.rule("statement", "a statement that is not valid is rejected with a diagnostic naming its line, at every position of a program")
    ctx.rule("program", "a program whose structure is not valid is rejected with a diagnostic naming the line at fault")
    ctx.rule("mutant", "a program changed in one token compiles or is rejected with a diagnostic naming a line")
    ctx.rule("lines", "a program with one line left out, repeated or moved compiles or is rejected with a diagnostic naming a line")
    ctx.rule("cut", "a program cut off after any line compiles or is rejected with a diagnostic")
    for n, (lines, at) in STMT.items():
        for p in POS:
            if not ctx.thorough and p in ("for_", "nested-block", "block-func") and hash_(n + p) % 3:
                continue
            src, want = placed(n, lines, at, p, 41)

            def f(src=src, want=want):
                return diagnostic(ctx, src, want, HT)
            ctx.ob("statement", "%s@%s" % (n, p), f)
    for n, (lines, at, ps) in PLACED.items():
        for p in ps:
            src, want = placed(n, lines, at, p, 41)
            ctx.ob("statement", "%s@%s" % (n, p), lambda src=src, want=want: diagnostic(ctx, src, want, HT))
    for n, (lines, at) in WHOLE.items():
        if n.startswith(("pragma", "struct")):
            continue
        for depth in (1, 2, 3):
            pre = ["# note"] * 41
            for k in range(depth):
                pre += ["jump w%d" % k, "block w%d:" % k]

            def f(n=n, lines=lines, at=at, depth=depth, pre=pre):
                # a construct that is not closed takes the end of the block around it
                want = None if n.startswith(("open", "end")) else [len(pre) + a + 1 for a in at]
                return diagnostic(ctx, pre + lines + ["end"] * depth, want, HT)
            ctx.ob("program", "%s in %d blocks" % (n, depth), f)
    for n, (lines, at) in WHOLE.items():
        for shift in (0, 57):
            if shift and n.startswith(("pragma-word", "pragma-no", "pragma-junk", "pragma-neg")):
                continue

            def f(lines=lines, at=at, shift=shift):
                return diagnostic(ctx, ["# note"] * shift + lines, [shift + a + 1 for a in at], HT)
            ctx.ob("program", "%s+%d" % (n, shift), f)
    from ..invalid import PROGRAMS, mutants, line_edits
    for pn, base in PROGRAMS.items():
        ctx.ob("pattern", pn, lambda base=base: patterns(ctx, base))
    for n, (lines, at) in WHOLE.items():
        ctx.ob("pattern", n, lambda lines=lines: patterns(ctx, lines))
    for n, (lines, at) in STMT.items():
        ctx.ob("pattern", n, lambda n=n, lines=lines: patterns(ctx, placed(n, lines, 0, "main", 5)[0]))
    for fn, form in NEST.items():
        for inn, e in INNER.items():
            ctx.ob("nesting", fn + " of " + inn, lambda form=form, e=e: nested(ctx, form, e))
    for pn, base in PROGRAMS.items():
        for i, l in enumerate(base):
            ms = mutants(l)
            if not ctx.thorough:
                ms = [m for m in ms if hash_(pn + str(i) + m) % 8 == 0]
            for k in range(0, len(ms), 12):
                def f(ms=ms[k:k + 12], base=base, i=i):
                    n = 0
                    for m in ms:
                        n += settled(ctx, ["# note"] * 60 * (base[0][0] != "#") + base[:i] + [m] + base[i + 1:])
                    return "%d changed programs, %d rejected" % (len(ms), n)
                ctx.ob("mutant", "%s line %d part %d" % (pn, i + 1, k // 12), f)
        for n, src in line_edits(base).items():
            ctx.ob("lines", "%s %s" % (pn, n), lambda src=src: "%d rejected" % settled(ctx, src))
        for i in range(len(base)):
            ctx.ob("cut", "%s after line %d" % (pn, i), lambda src=base[:i]: "%d rejected" % settled(ctx, src))
    ctx.assumptions += ["a diagnostic is an exception of class ParseError or CompileError; it names a line by `line N` or `at N`"]


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())
