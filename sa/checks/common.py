"""shared obligation builders"""
from ..harness import showt, Harness
from ..report import Violation
from ..engine import AnalysisError
from ..values import *
from ..teal import Prog, Equiv, Diff, TealError, Machine, ref
from .. import lang as L


OBSERVER = None     # called with every accepted program (result, emitted lines, source lines)


def opaque_path(r):
    for d in r.decisions:
        if has_opaque(d[0]):
            return True
    return False


def has_opaque(x):
    if isinstance(x, Sym):
        return x.kind in ("opaque", "obj", "item") or any(has_opaque(a) for a in x.args)
    if isinstance(x, tuple):
        return any(has_opaque(a) for a in x)
    if isinstance(x, str):
        return "opaque(" in x
    return False


def where_of(r):
    """source construct an exception path ends in"""
    if r.outcome != "raise":
        return []
    n = getattr(r, "raise_node", None)
    fn = getattr(r.value, "raise_func", None)
    loc = []
    if fn is not None:
        loc.append("%s: %s%s" % (fn.module.path, fn.qual, " line %d" % n.lineno if n is not None and hasattr(n, "lineno") else ""))
    return loc


def exc_text(r):
    v = r.value.value
    m = ""
    if v:
        m = v[0]
        m = showt(m) if isinstance(m, (str, Sym)) else repr(m)
    return "%s: %s" % (r.exc_name(), m.split("\n")[0][:200])


def src_text(lines):
    return "\n".join(showt(l) if not isinstance(l, str) else l for l in lines)


def emitted(ctx, lines, types=None, kids=None, opts=None):
    """all partitions of compiling the template; list of Prog (exceptions are violations)"""
    h = ctx.harness(**(types or {}))
    if kids:
        h.kid_classes = kids
    if opts:
        h.__dict__.update(opts)
    rs = h.compile(lines)
    ctx.note(rs)
    out = []
    for r in rs:
        if r.outcome == "return":
            if opaque_path(r):
                raise AnalysisError("partition depends on a value outside the model: %r" % (r.decisions[-3:],))
            out.append((r, r.value[0]))
            if OBSERVER:
                OBSERVER(r, r.value[0], lines)
        elif r.outcome == "raise":
            if opaque_path(r):
                raise AnalysisError("exception path depends on a value outside the model: %r" % (r.decisions[-3:],))
            raise Violation("compiling a valid construct raises %s" % exc_text(r), where_of(r), "program:\n" + src_text(lines), sub="raises " + (r.exc_name() or ""))
        elif r.outcome == "stuck":
            raise Violation("compiling does not terminate: %s" % r.value, [], "program:\n" + src_text(lines), sub="hang")
        else:
            raise AnalysisError("partition ended with %s %s" % (r.outcome, r.value))
    if not out:
        raise AnalysisError("no partition")
    return out


def prog(lines, src=None):
    try:
        return Prog(lines)
    except TealError as e:
        raise Violation(str(e), [], src, sub="lex")


def equiv(ctx, src, reflines, types=None, marks=False, kids=None, opts=None, post=None):
    """emitted code of `src` must be observably equal to the reference program"""
    q = Prog([L_T(x) for x in reflines], "reference")
    n = 0
    for r, teal in emitted(ctx, src, types, kids, opts):
        detail = "program:\n%s\n\nemitted TEAL:\n%s\n\nreference:\n%s" % (src_text(src), "\n".join(showt(l) for l in teal), "\n".join(reflines))
        p = prog(teal, detail)
        n += match(ctx, p, q, r, teal, detail, marks).obs
        if post:
            post(p, r, detail)
    return "%d observables" % n


def L_T(x):
    from ..harness import T
    return T(x) if isinstance(x, str) else x


def writer_of(r, line):
    """call sites that produced an emitted line"""
    w = r.interp.user.get("writes", [])
    return ["%s" % s for s in w[line][:3]] if line is not None and line < len(w) else []


DIAG = {"ParseError", "CompileError"}


def rejected(ctx, lines, types=None, diag=True, kids=None):
    """every partition of the template ends in a Tealish diagnostic"""
    h = ctx.harness(**(types or {}))
    if kids:
        h.kid_classes = kids
    rs = h.compile(lines)
    ctx.note(rs)
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model")
        if r.outcome == "return":
            raise Violation("an invalid program compiles", where_teal(r), "program:\n%s\n\nemitted TEAL:\n%s" % (src_text(lines), "\n".join(showt(l) for l in r.value[0])), sub="accepted")
        if r.outcome == "stuck":
            raise Violation("compiling does not terminate: %s" % r.value, [], "program:\n" + src_text(lines), sub="hang")
        if r.outcome != "raise":
            raise AnalysisError("partition ended with %s %s" % (r.outcome, r.value))
        if diag and r.exc_name() not in DIAG:
            raise Violation("an invalid program is rejected with %s instead of a Tealish diagnostic" % exc_text(r), where_of(r), "program:\n" + src_text(lines), sub="raises " + (r.exc_name() or ""))
    return "%d partitions rejected" % len(rs)


def where_teal(r):
    w = r.interp.user.get("writes", [])
    return [str(s) for s in (w[0] if w else [])][:3]


def unique_labels(p, detail):
    if p.dup_labels:
        n, i = p.dup_labels[0]
        raise Violation("label %s is defined twice in the emitted program" % showt(n), [], detail, sub="duplicate label")
    if p.undefined:
        n, ins = p.undefined[0]
        raise Violation("emitted `%s` refers to label %s, which is not defined" % (ins, showt(n)), [], detail, sub="undefined label")


def compile_all(ctx, lines, types=None, kids=None):
    """all partitions -> list of (result, emitted lines) for accepted ones and of results for rejected ones;
    other outcomes are violations"""
    h = ctx.harness(**(types or {}))
    if kids:
        h.kid_classes = kids
    rs = h.compile(lines)
    ctx.note(rs)
    ok, rej = [], []
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model: %r" % (r.decisions[-3:],))
        if r.outcome == "return":
            ok.append((r, r.value[0]))
            if OBSERVER:
                OBSERVER(r, r.value[0], lines)
        elif r.outcome == "raise":
            if r.exc_name() not in DIAG:
                raise Violation("compiling ends in %s instead of a Tealish diagnostic" % exc_text(r), where_of(r), "program:\n" + src_text(lines), sub="raises " + (r.exc_name() or ""))
            rej.append(r)
        elif r.outcome == "stuck":
            raise Violation("compiling does not terminate: %s" % r.value, [], "program:\n" + src_text(lines), sub="hang")
        else:
            raise AnalysisError("partition ended with %s %s" % (r.outcome, r.value))
    if not ok and not rej:
        raise AnalysisError("no partition")
    return ok, rej


def either(ctx, src, reflines, types=None, post=None):
    """the program is rejected with a diagnostic, or its code is equivalent to the reference"""
    ok, rej = compile_all(ctx, src, types)
    q = Prog([L_T(x) for x in reflines], "reference")
    for r, teal in ok:
        detail = "program:\n%s\n\nemitted TEAL:\n%s\n\nreference:\n%s" % (src_text(src), "\n".join(showt(l) for l in teal), "\n".join(reflines))
        p = prog(teal, detail)
        if post:
            post(p, r, detail)
        match(ctx, p, q, r, teal, detail)
    return "%d accepted, %d rejected" % (len(ok), len(rej))


def match(ctx, p, q, r, teal, detail, marks=False):
    try:
        e = Equiv(p, q, marks=marks).run()
    except Diff as d:
        line = showt(teal[d.line]).strip() if d.line is not None and d.line < len(teal) else ""
        raise Violation("%s%s" % (d, " (at emitted line %d `%s`)" % (d.line + 1, line) if line else ""), writer_of(r, d.line),
                        detail + "\n\nafter: " + " ; ".join(d.trace[-12:]), sub=d.sub)
    except TealError as d:
        raise Violation(str(d), [], detail, sub=str(d))
    ctx.count("observables_compared", e.obs)
    ctx.count("states", e.states)
    return e
