"""Source map.  Every line of the emitted program is mapped to the source line of the statement it
was emitted for: each observable of the emitted code (found by lockstep simulation) to the line
its construct was written on, everything emitted for a statement to that statement's lines; the
comments in the TEAL name the line they quote; assert messages are recorded for their line."""
import re

from .common import *
from ..families import H, statements, line, STRUCT, ITEM_T, itemdecl, boxdecl, GROUP_OK
from .. import exprs as X

FLOOR = 130
A = lambda n: ("assert", H(n))
EX = ("exit", ("i", 1))


def compiled(ctx, src, types=None, kids=None):
    """[(result, teal lines, {teal line from 1: source line}, errors)]"""
    h = ctx.harness(**(types or {}))
    if kids:
        h.kid_classes = kids
    h.budget(src)
    from ..harness import source
    text = source(src)

    def fn(it):
        m = it.module("tealish")
        c = it.call(it.modattr(m, "compile_program"), [text], {})
        teal, mp = c if isinstance(c, tuple) else c.items
        get = it.getattr(mp, "get_tealish_line_for_teal")
        n = len(teal.items)
        out = [it.resolve(it.call(get, [k], {})) for k in range(0, n + 2)]
        # both directions must agree
        back = it.getattr(mp, "get_teal_lines_for_tealish")
        rev = {}
        for k in range(0, len(src) + 2):
            v = it.call(back, [k], {})
            rev[k] = list(it.iterate(v))
        e = it.getattr(mp, "errors")
        return teal.items, out, rev, dict(e.d)
    rs = h.explore(fn)
    ctx.note(rs)
    res = []
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model: %r" % (r.decisions[-3:],))
        if r.outcome == "raise":
            raise Violation("compiling a valid construct raises %s" % exc_text(r), where_of(r), "program:\n" + src_text(src), sub="raises " + (r.exc_name() or ""))
        if r.outcome != "return":
            raise AnalysisError("partition ended with %s %s" % (r.outcome, r.value))
        res.append((r,) + tuple(r.value))
    if not res:
        raise AnalysisError("no partition")
    return res


def numbered(ls, m=None):
    w = len(str(len(ls)))
    return "\n".join("%*d  %s%s" % (w, i + 1, "[tl %s]  " % (m[i + 1],) if m else "", l if isinstance(l, str) else showt(l)) for i, l in enumerate(ls))


def detail_of(src, teal, m):
    return "program:\n%s\n\nemitted TEAL [mapped line]:\n%s" % (numbered(src), numbered(teal, m))


def entries(src, teal, m, rev, r):
    """one entry per emitted line, each a line of the source, and the reverse view agrees"""
    d = detail_of(src, teal, m)
    n = len(teal)
    for k in range(1, n + 1):
        v = m[k]
        if not isinstance(v, int) or isinstance(v, bool) or not 0 <= v <= len(src):
            raise Violation("emitted line %d `%s` is mapped to %s; the program has lines 1..%d (0: support code that belongs to no line)" % (k, showt(teal[k - 1]).strip(), showt(v) if isinstance(v, Sym) else v, len(src)), writer_of(r, k - 1), d, sub="no line")
    for k in (0, n + 1):
        if m[k] is not None:
            raise Violation("the map has an entry for emitted line %d; the program has lines 1..%d" % (k, n), [], d, sub="extra entry")
    for l in range(0, len(src) + 2):
        want = [k for k in range(1, n + 1) if m[k] == l]
        if sorted(rev[l]) != want:
            raise Violation("get_teal_lines_for_tealish(%d) gives %s, but the lines mapped to it are %s" % (l, rev[l], want), [], d, sub="reverse view")
    return d


def comments(src, teal, m, r, d):
    n = 0
    for i, t in enumerate(teal):
        mm = re.search(r"//\s*tl:(\d+):\s?(.*)$", showt(t))
        if not mm:
            continue
        n += 1
        k, text = int(mm.group(1)), mm.group(2)
        want = src[k - 1].strip() if 1 <= k <= len(src) else None
        want = showt(T_(want)) if want is not None else None
        bare = re.sub(r" \[slot \d+\]$", "", text)
        if want is None or not (bare == want or text == want or want.startswith(bare) and want[len(bare):].strip().startswith("#")):
            raise Violation("the comment `// tl:%d: %s` does not quote line %d: `%s`" % (k, text, k, want), writer_of(r, i), d, sub="comment")
        if m[i + 1] != k:
            raise Violation("the comment `// tl:%d: %s` is on a line mapped to %s" % (k, text, m[i + 1]), writer_of(r, i), d, sub="comment line")
    return n


def T_(x):
    from ..harness import T
    return T(x)


def observables(ctx, src, rf, types=None, kids=None, opts=None, quoted=True):
    """the tagged reference is simulated in lockstep; each observable is mapped to its line"""
    q = Prog([L_T(x) for x in rf], "reference")
    tags = [getattr(x, "src", None) for x in rf]
    total = 0
    for r, teal, m, rev, errs in compiled(ctx, src, types, kids):
        d = entries(src, teal, m, rev, r)
        c = comments(src, teal, m, r, d)
        if quoted and not c:
            raise Violation("no emitted line quotes the source", [], d, sub="comment")
        p = prog(teal, d)
        checked = [0]

        def obs(ia, ib, what):
            if ia is None or ib is None:
                return
            want = tags[ib]
            if want is None:
                return
            checked[0] += 1
            want = want if isinstance(want, tuple) else (want,)
            if re.match(r"itxn_(begin|next|submit)\b", what):
                want += (0,)        # support code shared by all inner transactions
            if m[ia + 1] not in want:
                raise Violation("emitted line %d `%s` (%s) is mapped to line %s; it comes from line %d `%s`" % (ia + 1, showt(teal[ia]).strip(), what, m[ia + 1], want[0], src[want[0] - 1].strip()),
                                writer_of(r, ia), d, sub="wrong line")
        e = Equiv(p, q, marks=False)
        e.on_obs = obs
        try:
            e.run()
        except Diff as x:
            raise AnalysisError("the code does not follow the reference (a matter of other properties): %s" % x)
        total += checked[0]
    if not total:
        raise AnalysisError("no observable compared")
    ctx.count("observables_mapped", total)
    return "%d observables" % total


def region(ctx, pre, before, stmt, after, rest, types):
    """everything emitted between two marked statements belongs to the lines between them"""
    src = list(pre) + before + stmt + after + rest
    lo, hi = len(pre) + len(before) + 1, len(pre) + len(before) + len(stmt)
    n = 0
    for r, teal, m, rev, errs in compiled(ctx, src, types):
        d = entries(src, teal, m, rev, r)
        a = [i for i, t in enumerate(teal) if "%E {marka}" in showt(t) and "//" not in showt(t).split("%E")[0]]
        b = [i for i, t in enumerate(teal) if "%E {markb}" in showt(t) and "//" not in showt(t).split("%E")[0]]
        if len(a) != 1 or len(b) != 1 or a[0] >= b[0]:
            raise AnalysisError("the marked statements are not emitted once and in order")
        k = a[0] + 1
        while k < b[0] and m[k + 1] == lo - 1:      # the rest of the first mark
            k += 1
        j = b[0] - 1
        while j > k and m[j + 1] == hi + 1:         # the start of the second one
            j -= 1
        for i in range(k, j + 1):
            n += 1
            if not lo <= m[i + 1] <= hi:
                raise Violation("emitted line %d `%s` is mapped to line %d, but it was emitted for line%s `%s`" % (i + 1, showt(teal[i]).strip(), m[i + 1], " %d" % lo if lo == hi else "s %d-%d" % (lo, hi), src[lo - 1].strip()),
                                writer_of(r, i), d, sub="wrong line")
        # instructions of the statement itself may not be mapped to its neighbours
        for i in range(a[0] + 1, b[0]):
            if m[i + 1] in (lo - 1, hi + 1):
                s = showt(teal[i]).split("//")[0].strip()
                if s and i < j and i >= k:
                    raise Violation("emitted line %d `%s` is mapped to its neighbour line %d" % (i + 1, s, m[i + 1]), writer_of(r, i), d, sub="wrong line")
    if not n and any(l.strip() and not l.strip().startswith("#") for l in stmt):
        raise AnalysisError("nothing between the marks")
    return "%d emitted lines" % n


def run(ctx):
    ctx.rule("observable", "each observable of the emitted code is mapped to the line its construct is written on, in every context")
    ctx.rule("region", "every line emitted for a statement is mapped to a line of that statement")
    ctx.rule("expression", "… for every expression form at every position an expression can be written")
    ctx.rule("shift", "comments, blank lines and declarations before a statement move its line numbers by exactly their number")
    ctx.rule("errors", "the message of each assert is recorded, whole, for the line of that assert and for no other line")
    S = statements()
    fn = lambda n, body: ("func", n, [], [], body + [("return", [])])
    for n, s in S.items():
        for cn, body in L.contexts(s.body).items():
            if cn == "inner_group" and (n not in GROUP_OK or n.startswith("inner")):
                continue
            if cn == "func" and n == "teal" and False:
                continue

            def f(s=s, body=body):
                src, rf = L.program(body + s.funcs, line=1 + len(s.pre))
                return observables(ctx, s.pre + src, rf, s.types)
            ctx.ob("observable", "%s@%s" % (n, cn), f)

        def g(s=s):
            b = L.body_src(s.body)
            return region(ctx, s.pre, ["assert({marka})"], b, ["assert({markb})"], ["exit(1)"] + L.body_src(s.funcs), s.types)
        if "no-init" not in n or True:
            ctx.ob("region", n, g)
    # constructs that contain statements, nested in each other
    comp = {
        "if": lambda B: [("if", [(False, H("c1"), B)], None)],
        "if-not-else": lambda B: [("if", [(True, H("c1"), [A("i0")])], B)],
        "elif": lambda B: [("if", [(False, H("c1"), [A("i1"), A("i2")]), (False, H("c2"), B), (True, H("c3"), [A("i3")])], [A("i4")])],
        "while": lambda B: [("while", False, H("c1"), B)],
        "while-not": lambda B: [("while", True, H("c1"), B)],
        "for": lambda B: [("for", "k1", ("i", 0), ("i", 3), B)],
        "block": lambda B: [("if", [(False, H("c1"), [("jump", "b1")])], None), A("i5"), EX, ("block", "b1", B + [EX])],
        "func": lambda B: [("call", "f1", []), A("i6"), EX, ("func", "f1", [], [], B + [("return", [])])],
        "func-in-block": lambda B: [("jump", "b2"), ("block", "b2", [("call", "f2", []), EX, ("func", "f2", [], [], B + [("return", [])])])],
        "switch": lambda B: [("switch", H("c1"), [(("i", 7), "s1"), (("i", 9), "s2")], "s3"), ("block", "s1", B + [EX]), ("block", "s2", [A("i7"), EX]), ("block", "s3", [A("i8"), EX])],
        "switch-no-else": lambda B: [("switch", H("c1"), [(("i", 7), "s1")], None), ("block", "s1", B + [EX])],
    }
    tail = {"block", "func", "func-in-block", "switch", "switch-no-else"}

    def ren(s, k):
        """fresh names for the inner construct"""
        if isinstance(s, tuple):
            return tuple(ren(x, k) for x in s)
        if isinstance(s, list):
            return [ren(x, k) for x in s]
        return s + k if isinstance(s, str) and re.fullmatch(r"[a-z]\d", s) else s
    for n1, f1 in comp.items():
        def f(f1=f1, n1=n1):
            src, rf = L.program(f1([A("x"), A("y")]) + ([] if n1 in tail else [EX]), line=1)
            return observables(ctx, src, rf)
        ctx.ob("observable", n1, f)
        for n2, f2 in comp.items():
            if n2 in tail and n1 not in ("block",):
                continue
            if n1 == "block" and n2 == "func":
                continue

            def f(f1=f1, f2=f2, n1=n1, n2=n2):
                inner = ren(f2([A("x")]), "9") if n2 not in tail else ren(f2([A("x")]), "9")
                if n2 in tail:
                    body = [("jump", "bb"), ("block", "bb", inner)]
                else:
                    body = f1([A("p")] + inner + [A("q")]) + ([] if n1 in tail else [EX])
                src, rf = L.program(body, line=1)
                return observables(ctx, src, rf)
            ctx.ob("observable", "%s>%s" % (n1, n2), f)
    # results and parameters
    calls = {
        "return-exprs": [("decl", "int", "a", ("call", "f", [H("x")])), A("y"), EX, ("func", "f", [("p", "int")], ["int"], [A("z"), ("if", [(False, ("v", "p"), [("return", [H("r1")])])], None), ("return", [("+", ("v", "p"), H("r2"))])])],
        "return-two": [("decl", "int", "a", None), ("decl", "int", "b", None), ("set", ["a", "b"], ("call", "f", [])), ("assert", ("v", "a")), EX,
                       ("func", "f", [], ["int", "int"], [A("z"), ("if", [(False, H("c"), [("return", [H("r1"), H("r2")])])], [A("w"), ("return", [H("r3"), H("r4")])]), ("return", [H("r5"), H("r6")])])],
        "return-in-loop": [("decl", "int", "a", ("call", "f", [])), ("assert", ("v", "a")), EX, ("func", "f", [], ["int"], [("while", False, H("c"), [A("z"), ("return", [H("r1")])]), ("return", [H("r2")])])],
        "return-calls": [("decl", "int", "a", ("call", "f", [])), ("assert", ("v", "a")), EX, ("func", "f", [], ["int"], [("return", [("call", "g", [H("r1")])])]), ("func", "g", [("p", "int")], ["int"], [("return", [("+", ("v", "p"), H("r2"))])])],
    }
    for n, b in calls.items():
        def f(b=b):
            src, rf = L.program(b, line=1)
            return observables(ctx, src, rf, {k: "int" for k in ("x", "r1", "r2", "r3", "r4", "r5", "r6")})
        ctx.ob("observable", n, f)
    # inner transactions: each field is on its own line
    for n, body in {"group": [("group", [("inner", [("TypeEnum", ("raw", "Pay", ["pushint 1"])), ("Receiver", H("x")), ("Fee", H("y"))]), A("m"), ("inner", [("TypeEnum", ("raw", "Pay", ["pushint 1"])), ("Sender", H("z"))])]), EX],
                    "group-loop": [("group", [("for", "k", ("i", 0), ("i", 3), [("inner", [("TypeEnum", ("raw", "Pay", ["pushint 1"])), ("Fee", H("y"))])])]), A("m"), EX]}.items():
        def f(body=body):
            src, rf = L.program(body, line=1, dyn_group=True)
            return observables(ctx, src, rf + L.GROUP_MACRO)
        ctx.ob("observable", "inner-" + n, f)
    # expressions
    ex, pos = X.expressions(), X.positions()
    for n, e in ex.items():
        for pn, (ok, mk) in pos.items():
            if not ok(e) or not ctx.thorough and (hash_(n + pn) % 3 and pn not in ("assert", "return")):
                continue

            def f(e=e, mk=mk):
                src, rf = L.program(X.place(e, mk(e)), line=1 + len(e.pre))
                return observables(ctx, e.pre + src, rf, dict(e.types, rr="any", ll="any"))
            ctx.ob("expression", n + "@" + pn, f)
    # what stands before
    pres = {
        "comments": ["# a", "# b: {t:note}", ""],
        "pragma": ["#pragma version 8", ""],
        "blank": ["", "", ""],
        "struct": STRUCT,
        "consts": ["const int KA = 5", "", 'const bytes KB = "x"'],
        "decls": ["int v1 = {x0}", "int v2", "# c", "bytes v3 = {x1}"],
        "teal": ["teal:", "    pushint 1", "    # c", "    pop", "end"],
        "long": ["# note %d" % i for i in range(120)],
        "longer": ["# note %d" % i for i in range(1005)],
        "inline": ["assert({x2}) # why", "int w = {x3} # if a", ""],
    }
    for n1, p in pres.items():
        for n2, p2 in pres.items():
            if n1 == n2 or n2 in ("pragma", "struct") or "longer" in (n1, n2) and "blank" not in (n1, n2):
                continue

            def f(p=p, p2=p2):
                src, rf = L.program([A("x"), ("if", [(False, H("c"), [line("# inside", []), A("y"), line("", []), A("z")]), (True, H("d"), [A("y2")])], [line("", []), A("y3")]), ("call", "f", []), EX, ("func", "f", [], [], [line("# in f", []), A("w"), ("return", [])])], line=len(p) + len(p2) + 1)
                src = p + p2 + src
                want = {h: i + 1 for i, l in enumerate(src) for h in re.findall(r"\{([a-z]\d*)\}", l)}
                n = 0
                for r, teal, m, rev, errs in compiled(ctx, src, {"x1": "bytes"}):
                    d = entries(src, teal, m, rev, r)
                    comments_ok(src, teal, m, r, d)
                    for i, t in enumerate(teal):
                        mm = re.search(r"%E \{([a-z]\d*)\}", showt(t))
                        if mm and "//" not in showt(t).split("%E")[0]:
                            n += 1
                            if m[i + 1] != want[mm.group(1)]:
                                raise Violation("the expression {%s} of line %d is mapped to line %d" % (mm.group(1), want[mm.group(1)], m[i + 1]), writer_of(r, i), d, sub="wrong line")
                return "%d expressions" % n
            ctx.ob("shift", "%s+%s" % (n1, n2), f)
    # messages
    H1 = {
        "plain": ('assert({x}, "{m:note}")', "{m:note}"),
        "punctuation": ('assert({x}, "a: {m:note}, (b) [c] {{d}}; e")'.replace("{{", "").replace("}}", ""), "a: {m:note}, (b) [c] d; e"),
        "brackets": ('assert({x}, "],")', "],"),
        "paren": ('assert({x}, "{m:note})")', "{m:note})"),
        "slashes": ('assert({x}, "see http://{m:note}")', "see http://{m:note}"),
        "hash": ('assert({x}, "issue # {m:note}")', "issue # {m:note}"),
        "after-string-arg": ('assert({x} == "s, t", "{m:note}")', "{m:note}"),
        "after-call": ('assert(concat("u", {y}) == concat({y}, "w"), "{m:note}")', "{m:note}"),
        "after-two-calls": ('assert((concat({y}, "u") == concat({y}, "w")), "{m:note}")', "{m:note}"),
        "strings-only": ('assert("u, v" == "w", "{m:note}")', "{m:note}"),
        "no-message-strings": ('assert(concat({y}, "u") == concat({y}, "w"))', None),
        "no-message": ("assert({x})", None),
        "no-message-comma": ('assert({x} == "a, b")', None),
    }
    for n, (t, msg) in H1.items():
        for cn, body in L.contexts([line(t, [])]).items():
            if not ctx.thorough and cn not in ("main", "func", "nested-block", "elif", "while"):
                continue

            def f(body=body, t=t, msg=msg):
                src = L.body_src([line("# top", [])] + body)
                at = [i + 1 for i, l in enumerate(src) if l.strip() == t]
                want = {at[0]: T_(msg)} if msg is not None else {}
                for r, teal, m, rev, errs in compiled(ctx, src, {"y": "bytes"}):
                    d = detail_of(src, teal, m)
                    if errs != want:
                        raise Violation("the recorded messages are {%s}; expected {%s}" % (", ".join("%s: %s" % (k, showt(v) if not isinstance(v, str) else v) for k, v in errs.items()), ", ".join("%s: %s" % (k, showt(v) if not isinstance(v, str) else v) for k, v in want.items())), [], d, sub="messages")
                return "message recorded"
            ctx.ob("errors", "%s@%s" % (n, cn), f)

    def many():
        src = ["# top"]
        want = {}
        for i in range(6):
            src += ['assert({x%d}, "{m%d:note} no %d")' % (i, i, i), "# c", "assert({y%d})" % i, 'if {z%d}:' % i, '    assert({w%d}, "same")' % i, "end"]
            want[len(src) - 5] = T_("{m%d:note} no %d" % (i, i))
            want[len(src) - 1] = "same"
        src.append("exit(1)")
        for r, teal, m, rev, errs in compiled(ctx, src):
            if errs != want:
                raise Violation("the recorded messages are {%s}" % ", ".join("%s: %s" % (k, showt(v) if not isinstance(v, str) else v) for k, v in errs.items()), [], detail_of(src, teal, m), sub="messages")
        return "%d messages" % len(want)
    ctx.ob("errors", "many", many)
    ctx.assumptions += ["a hole stands for any expression of its type", "instructions without observable effect are placed by the region rule, not by simulation"]


def comments_ok(src, teal, m, r, d):
    if not comments(src, teal, m, r, d):
        raise Violation("no emitted line quotes the source", [], d, sub="comment")


def hash_(s):
    h = 0
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h
