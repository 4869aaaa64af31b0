"""The formatter keeps the program.  For every program template: formatting succeeds, changes
nothing but spacing (each line keeps its tokens and its comment, none is lost, added or moved), the
result compiles to the same TEAL and map, is formatted as itself, and does not depend on the
indentation of the source; every level of nesting is indented by four spaces."""
import re

from .common import *
from ..families import H, statements, line, STRUCT, ITEM_T, itemdecl, boxdecl, GROUP_OK
from ..harness import source
from .. import exprs as X
from .c13 import numbered
from ..teal import encode

FLOOR = 150
A = lambda n: ("assert", H(n))
EX = ("exit", ("i", 1))
OPENERS = re.compile(r"(if|while|for|block|func|switch|struct|inner_txn|inner_group|teal|router)\b.*:$")


def digits(t):
    """the decimal text of an integer literal is what was written there"""
    return tmpl(*[hole(p.args[0][4:], "digits") if isinstance(p, Sym) and p.kind == "int" and isinstance(p.args[0], str) and p.args[0].startswith("int:") else p for p in pieces(t)])


def lines_of(t):
    ls = [[]]
    for p in pieces(t):
        if isinstance(p, str):
            first, *rest = p.split("\n")
            ls[-1].append(first)
            ls += [[x] for x in rest]
        else:
            ls[-1].append(p)
    return [tmpl(*l) for l in ls]


def formatted(ctx, src, types=None, kids=None):
    h = ctx.harness(**(types or {}))
    if kids:
        h.kid_classes = kids
    h.budget(src)
    h.steps *= 4
    text = source(src)

    def fn(it):
        m = it.module("tealish")
        call = lambda n, *a: it.call(it.modattr(m, n), list(a), {})

        def comp(s):
            it.user["writes"] = []
            c = call("compile_program", s)
            teal, mp = c if isinstance(c, tuple) else c.items
            get = it.getattr(mp, "get_tealish_line_for_teal")
            e = it.getattr(mp, "errors")
            return list(teal.items), [it.resolve(it.call(get, [k], {})) for k in range(1, len(teal.items) + 1)], dict(e.d)
        it.user["stage"] = "compile"
        a = comp(text)
        it.user["stage"] = "format"
        f = it.rtmpl(call("reformat_program", text))
        if not is_str(f):
            raise AnalysisError("the formatted program is not a text: %r" % (f,))
        f = digits(f)
        it.user["f"] = f
        it.user["stage"] = "compile the formatted program"
        b = comp(f)
        it.user["stage"] = "format the formatted program"
        g = digits(it.rtmpl(call("reformat_program", f)))
        it.user["stage"] = "done"
        return f, a, b, g
    rs = h.explore(fn)
    ctx.note(rs)
    out = []
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model: %r" % (r.decisions[-3:],))
        stage = r.interp.user.get("stage")
        f = r.interp.user.get("f")
        d = "program:\n" + numbered(src) + ("\n\nformatted:\n" + numbered([showt(x) for x in lines_of(f)]) if f is not None else "")
        if r.outcome == "raise":
            if stage == "compile":
                raise AnalysisError("the program does not compile: %s" % exc_text(r))
            raise Violation("the program compiles, but to %s ends in %s" % (stage if stage != "format" else "format it", exc_text(r)), where_of(r), d, sub="raises at " + stage)
        if r.outcome != "return":
            raise AnalysisError("partition ended with %s %s" % (r.outcome, r.value))
        out.append((r, d) + tuple(r.value))
    if not out:
        raise AnalysisError("no partition")
    return out


# ---------------------------------------------------------------- an independent view of a line
TOK = re.compile(r"""\s+|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[\w\ue000\ue001]+|.""")


def split_comment(s):
    """(code, comment) of one line"""
    t = s.strip()
    if t.startswith("#"):
        return ("", t) if not t.startswith("#pragma") else (t, "")
    i = 0
    while i < len(t):
        c = t[i]
        if c in "\"'":
            j = i + 1
            while j < len(t) and t[j] != c:
                j += 2 if t[j] == "\\" else 1
            i = j + 1
            continue
        if c == "#":
            return t[:i].rstrip(), t[i:].rstrip()
        i += 1
    return t, ""


def tokens(code):
    out = []
    for m in TOK.finditer(code):
        t = m.group()
        if t.isspace():
            continue
        if t[0] in "\"'" and len(t) > 1:
            t = ("string", re.sub(r"\\(['\"])", r"\1", t[1:-1]))
        elif t.isdigit():
            t = ("int", int(t))
        out.append(t)
    return out


def depths(codes):
    """nesting level of every line"""
    out, d, raw = [], 0, None
    for c in codes:
        if raw is not None and c != "end":
            out.append(d)
            continue
        if c == "end":
            raw = None
            d -= 1
            out.append(d)
        elif re.match(r"(elif\b.*:|else:)$", c):
            out.append(d - 1)
        else:
            out.append(d)
            if OPENERS.match(c):
                d += 1
                if c == "teal:":
                    raw = d
    return out


def same_program(r, d, src, f, a, b, g, style=True):
    tab = []
    index = {}

    def enc(t):
        # the same hole is the same character sequence in both texts
        own = []
        s = encode(t, own)

        def rep(m):
            h = own[int(m.group(1))]
            return "\ue000%d\ue001" % index.setdefault(h, len(index))
        return re.sub("\ue000(\\d+)\ue001", rep, s)
    old = [enc(digits(x)) for x in lines_of(source(src))]
    lead = 0
    while lead < len(old) and not old[lead].strip():
        lead += 1
    trail = len(old)
    while trail > lead and not old[trail - 1].strip():
        trail -= 1
    old = old[lead:trail]
    new = [enc(x) for x in lines_of(f)]
    if new[-1:] != [""] or new[-2:] == ["", ""]:
        raise Violation("the formatted program does not end with one line break", [], d, sub="end of file")
    new.pop()
    show = lambda s: re.sub("\ue000(\\d+)\ue001", lambda m: "{%s}" % [h for h in index if index[h] == int(m.group(1))][0].args[0], s)
    i = -1
    for i, (o, n) in enumerate(zip(old, new)):
        (co, xo), (cn, xn) = split_comment(o), split_comment(n)
        if tokens(co) != tokens(cn):
            raise Violation("line %d `%s` is formatted as `%s`" % (i + 1 + lead, show(co), show(cn)), [], d, sub="code")
        if xo != xn:
            raise Violation("the comment `%s` of line %d is formatted as `%s`" % (show(xo), i + 1 + lead, show(xn)), [], d, sub="comment")
    if len(old) != len(new):
        j = i + 1
        raise Violation("%d lines are formatted as %d: %s" % (len(old), len(new), "line %d `%s` is missing" % (j + 1 + lead, show(old[j])) if len(old) > j else "`%s` is added" % show(new[j])), [], d, sub="lines")
    if style:
        codes = [split_comment(n)[0] for n in new]
        for i, (n, k) in enumerate(zip(new, depths(codes))):
            if not n.strip():
                continue
            w = len(n) - len(n.lstrip())
            if w != 4 * k and not n.strip().startswith("#"):
                raise Violation("line %d of the formatted program, at nesting level %d, is indented by %d" % (i + 1, k, w), [], d, sub="indent")
            if n.rstrip() != n:
                raise Violation("line %d of the formatted program ends with spaces" % (i + 1), [], d, sub="trailing space")
    if f != g:
        ga = [showt(x) for x in lines_of(g)]
        fa = [showt(x) for x in lines_of(f)]
        k = next((k for k in range(min(len(fa), len(ga))) if fa[k] != ga[k]), min(len(fa), len(ga)))
        raise Violation("formatting the formatted program changes line %d into `%s`" % (k + 1, ga[k] if k < len(ga) else "nothing"), [], d, sub="idempotent")
    same_code(r, d, a, b, lead)


def code_of(teal):
    p = Prog(teal)
    at = {}
    for n, i in p.labels.items():
        at.setdefault(i, []).append(showt(n))
    out = []
    for i, ins in enumerate(p.instrs):
        out += [x + ":" for x in sorted(at.get(i, []))]
        out.append(repr(ins))
    return p, out + [x + ":" for x in sorted(at.get(len(p.instrs), []))]


def same_code(r, d, a, b, lead=0):
    (ta, ma, ea), (tb, mb, eb) = a, b
    try:
        pa, la = code_of([digits(it_str(x)) for x in ta])
        pb, lb = code_of([digits(it_str(x)) for x in tb])
    except TealError as e:
        raise AnalysisError("the code cannot be read (a matter of other properties): %s" % e)
    if la != lb:
        k = next((k for k in range(min(len(la), len(lb))) if la[k] != lb[k]), min(len(la), len(lb)))
        raise Violation("the formatted program compiles to `%s` instead of `%s`" % (lb[k] if k < len(lb) else "nothing", la[k] if k < len(la) else "nothing"), [], d, sub="code")
    if showt(pa.version or "") != showt(pb.version or ""):
        raise Violation("the formatted program is of version %s instead of %s" % (pb.version, pa.version), [], d, sub="version")
    # each instruction still belongs to its line
    for x, y in zip(pa.instrs, pb.instrs):
        la, lb = ma[x.line], mb[y.line]
        if la != lb + (lead if lb else 0):
            raise Violation("`%r` of line %s belongs to line %s of the formatted program" % (x, la, lb), [], d, sub="map")
    e1 = {k - lead: showt(digits(it_str(v))) for k, v in ea.items()}
    e2 = {k: showt(digits(it_str(v))) for k, v in eb.items()}
    if e1 != e2:
        raise Violation("the assert messages %s became %s" % (e1, e2), [], d, sub="messages")


def it_str(x):
    return x if isinstance(x, str) or is_str(x) else str(x)


def check(ctx, src, types=None, kids=None):
    n = 0
    for r, d, f, a, b, g in formatted(ctx, src, types, kids):
        same_program(r, d, src, f, a, b, g)
        n += 1
    return "%d partitions, %d lines" % (n, len(src))


def variants(ctx, src, others, types=None):
    """other spacings of the same program are formatted as the same text"""
    rs = formatted(ctx, src, types)
    fs = [showt(x[2]) for x in rs]
    for name, o in others.items():
        ro = formatted(ctx, o, types)
        fo = [showt(x[2]) for x in ro]
        if sorted(set(fs)) != sorted(set(fo)):
            raise Violation("the program is formatted differently with %s" % name, [], rs[0][1] + "\n\nwith %s:\n%s\n\nformatted:\n%s" % (name, numbered(o), fo[0]), sub="spacing")
    return "%d spacings" % len(others)


def spaced(src):
    raw = lambda f: (lambda out: out)([f(l) for l in src])
    # lines of teal blocks keep their inner spacing; only the margin is varied
    return {
        "no indentation": raw(lambda l: l.strip()),
        "more indentation": raw(lambda l: "   " + l.replace("    ", "       ") if l.strip() else l),
        "tabs": raw(lambda l: re.sub(r"^ +", lambda m: "\t" * (len(m.group()) // 4), l)),
        "spaces at the ends of lines": raw(lambda l: l + "  "),
    }


def squeezed(e):
    """other spacings of an expression"""
    out = {}
    if ", " in e and '"' not in e:
        out["no space after commas"] = e.replace(", ", ",")
        out["spaces around commas"] = e.replace(", ", "  ,  ")
    if "(" in e and '"' not in e:
        out["spaces within parentheses"] = e.replace("(", "( ").replace(")", " )")
    if re.search(r"[}\w)] [-+*/%] [{\w(]", e) and '"' not in e:
        out["more spaces around operators"] = re.sub(r" ([-+*/%]) ", r"   \1   ", e)
    return out


def run(ctx):
    ctx.rule("statement", "every statement in every context: formatting succeeds, keeps every token, comment and line, is idempotent, and keeps code, map and messages")
    ctx.rule("expression", "… every expression form at every position")
    ctx.rule("program", "… definitions, routers, decorators, blocks, literals")
    ctx.rule("comment", "… comments on their own line and at the end of every kind of line, and blank lines, wherever they may stand")
    ctx.rule("spacing", "the result does not depend on the indentation and spacing of the source")
    ctx.rule("rejected", "a program that does not compile for a reason its text shows is not formatted into another one")
    S = statements()
    for n, s in S.items():
        for cn, body in L.contexts(s.body).items():
            if cn == "inner_group" and (n not in GROUP_OK or n.startswith("inner")):
                continue

            def f(s=s, body=body):
                src, _ = L.program(body + s.funcs, line=1 + len(s.pre))
                return check(ctx, s.pre + src, s.types)
            ctx.ob("statement", "%s@%s" % (n, cn), f)

        def g(s=s):
            src, _ = L.program(L.contexts(s.body)["if"] + s.funcs if "if" in L.contexts(s.body) else s.body + [EX] + s.funcs, line=1)
            src = s.pre + src
            return variants(ctx, src, spaced(src), s.types)
        if n not in ("blank", "comment"):
            ctx.ob("spacing", n, g)
    ex, pos = X.expressions(), X.positions()
    k = 0
    for n, e in ex.items():
        for pn, (ok, mk) in pos.items():
            if not ok(e):
                continue
            k += 1
            if not ctx.thorough and pn not in ("decl", "return-2") and k % 8:
                continue

            def f(e=e, mk=mk):
                src, _ = L.program(X.place(e, mk(e)), line=1 + len(e.pre))
                return check(ctx, e.pre + src, dict(e.types, rr="any", ll="any"))
            ctx.ob("expression", n + "@" + pn, f)
        sq = squeezed(e.src)
        if sq:
            def f(e=e, sq=sq):
                tail = L.body_src(e.funcs)
                at = lambda x: e.pre + L.body_src(e.decl) + ["_ = %s" % x if False else "log(Concat(%s, \"a\"))" % x if e.out.startswith("bytes") else "assert(%s)" % x, "exit(1)"] + tail
                return variants(ctx, at(e.src), {m: at(x) for m, x in sq.items()}, dict(e.types))
            ctx.ob("spacing", n, f)
    for n, (src, types) in programs().items():
        def f(src=src, types=types):
            return check(ctx, src, types)
        ctx.ob("program", n, f)

        def f(src=src, types=types):
            return variants(ctx, src, spaced(src), types)
        ctx.ob("spacing", n, f)
        # comments and blank lines in every place where the compiler accepts them
        for i in range(len(src) + 1):
            for what, new in {"comment": ["# c {q:note}: x = 1"], "blank": [""], "comments": ["#c", "", "#   {q:note}"]}.items():
                if not ctx.thorough and (what == "comments" and i % 6 or what == "blank" and i % 3):
                    continue

                def f(src=src, i=i, new=new, types=types):
                    try:
                        return check(ctx, src[:i] + new + src[i:], types)
                    except AnalysisError as x:
                        if "does not compile" in str(x):
                            return "not a place for a comment"
                        raise
                ctx.ob("comment", "%s:%s before line %d" % (n, what, i + 1), f)
        for i in range(len(src)):
            for what, x in {"inline": " # c {q:note}", "tight": "#c: \"{q:note}"}.items():
                if what == "tight" and not ctx.thorough and i % 5:
                    continue

                def f(src=src, i=i, x=x, types=types):
                    try:
                        return check(ctx, src[:i] + [src[i] + x] + src[i + 1:], types)
                    except AnalysisError as y:
                        if "does not compile" in str(y):
                            return "not a place for a comment"
                        raise
                if src[i].strip() and not src[i].strip().startswith("#"):
                    ctx.ob("comment", "%s:%s after line %d" % (n, what, i + 1), f)
        def f(src=src, types=types):
            return check(ctx, [l + " # c %d" % i if l.strip() and not l.strip().startswith("#") and not inteal(src, i) else l for i, l in enumerate(src)], types)
        ctx.ob("comment", n + ":everywhere", f)
    for n, (src, types) in invalid().items():
        def f(src=src, types=types):
            return no_result(ctx, src, types)
        ctx.ob("rejected", n, f)


def inteal(src, i):
    d = None
    for l in src[:i + 1]:
        if l.strip() == "teal:":
            d = True
        elif l.strip() == "end":
            d = None
    return d and src[i].strip() != "teal:"


def programs():
    P = {}
    P["struct"] = (STRUCT + ["", "Item it = {s}", "it.aa = {x}", "it.bb = {y}", "log(it.bb)", "exit(it.aa + it.ee)"], {"s": "bytes[52]", "x": "int", "y": "bytes[32]"})
    P["boxes"] = (STRUCT + ["box<Item> b1 = CreateBox({k})", "box<Item> b2 = OpenBox(\"key\")", "box<Item> b3 = Box({k2})", "b1.aa = b2.aa", "log(b3.bb)", "exit(1)"], {"k": "bytes", "k2": "bytes"})
    P["if"] = (["if {a}:", "    assert({x})", "elif not {b}:", "    assert({y}, \"m\")", "elif {c}:", "    if not {d}:", "        assert({z})", "    else:", "        assert({w})", "    end", "else:", "    assert({v})", "end", "exit({e})"], {})
    P["loops"] = (["while {a}:", "    assert({x})", "    break", "end", "while not {b}:", "    for i in 0:10:", "        assert(i)", "        if {c}:", "            break", "        end", "    end", "end", "int lo = {l}", "for k in lo:lo:", "    assert(k)", "end", "exit(1)"], {"l": "int"})
    P["for_"] = (["for _ in 0:{n:digits}:", "    assert({x})", "end", "exit(1)"], {})
    P["blocks"] = (["jump main", "block main:", "    int a = {x}", "    jump sub", "    block sub:", "        exit(a)", "    end", "end", "block other:", "    exit(0)", "end"], {"x": "int"})
    P["switch"] = (["switch {a}:", "    {b}: one", "    \"two\": two", "    1 + 2: one", "    else: two", "end", "block one:", "    exit(1)", "end", "block two:", "    exit(2)", "end"], {})
    P["functions"] = (["int a = f({x}, {y})", "int b", "bytes c", "b, c = g()", "_, c = g()", "h()", "exit(a + b)", "", "func f(p: int, q: bytes[3]) int:", "    assert(len(q))", "    return p", "end", "", "func g() int, bytes:", "    if {z}:", "        return 1, \"x, (y\"", "    end", "    return {r1}, {r2}", "end", "func h():", "    return", "end"], {"x": "int", "y": "bytes[3]", "r1": "int", "r2": "bytes"})
    P["router"] = (["router:", "    aa", "    bb", "end", "@public()", "func aa(x: int, y: addr) int:", "    assert(y == {z})", "    return x", "end", "", "@public(OnCompletion=OptIn)", "func bb():", "    return", "end"], {"z": "addr"})
    P["inner"] = (["inner_txn:", "    TypeEnum: Pay", "    Receiver: {x}", "    Amount: 1 + 2", "end", "inner_txn:", "    TypeEnum: Appl", "    ApplicationArgs[0]: \"a: b\"", "    ApplicationArgs[1]: {y}", "    Fee: 0", "end", "exit(1)"], {})
    P["group"] = (["inner_group:", "    inner_txn:", "        TypeEnum: Axfer", "        AssetAmount: {x}", "    end", "    if {c}:", "        inner_txn:", "            TypeEnum: Pay", "        end", "    end", "    assert({y})", "end", "exit(1)"], {})
    P["teal"] = (["#pragma version 8", "int a = {x}", "teal:", "    load 0; pushint 2 // a", "    b== ; pop", "    pushbytes \"a // b\"", "    pop", "end", "exit(a)"], {"x": "int"})
    P["constants"] = (["#pragma version 6", "const int KA = {n:digits}", "const bytes KB = \"x # {t:note}\"", "const bytes KC = 0x{h:hex}", "assert(KA == {n2:digits})", "log(KB)", "log(KC)", "exit(1)"], {})
    P["strings"] = (["log(\"a \\\"{t:note}\\\" # b // c; d, (e\")", "log('single {t2:note}')", "log(\"\")", "assert({x}, \"it's \\\"{t3:note}\\\": # 1, (2) [3] \")", "app_global_put(\"k,\", \"v)\")", "exit(\"#\" == \"//\")"], {})
    P["assign"] = (["int a", "bytes b", "int c = {x}", "bytes[12] d = {y}", "uint8 e = {z}", "addr f = {w}", "bigint g = {v}", "a = {x2}", "b = \"q\"", "_ = {u}", "c, a = asset_holding_get(AssetBalance, {m}, {o})", "uint8[4] i4 = {p}", "exit(a)"], {"x": "int", "y": "bytes[12]", "z": "uint8", "w": "addr", "v": "bigint", "x2": "int", "o": "int", "p": "uint8[4]"})
    P["typed-functions"] = (STRUCT + ["Item it = mk({x})", "box<Item> bb = OpenBox(\"k\")", "_, _ = two(it)", "exit(1)", "func mk(p: int) Item:", "    assert(p)", "    return {i}", "end", "func two(q: Item) addr, uint8[3]:", "    assert(q.aa)", "    return {j}, {l}", "end"], {"x": "int", "i": "Item", "j": "addr", "l": "uint8[3]"})
    P["opcodes"] = (["log(extract(1, 2, {a}))", "log(substring(0, 5, {a}))", "assert(gload(1, 2))", "log(arg(0))", "log(Txn.ApplicationArgs[{i}])", "log(Gtxn[+1].Sender)", "log(Gtxn[-1].ApplicationArgs[0])", "log(Gtxn[{g}].Note)", "assert(Global.Round > Txn.FirstValid)", "log(itob((1 + 2) * 3))", "assert(!({b} == {c}))", "assert(~1)", "log({a2} b+ {a3})", "log(b~{a3})", "app_global_put(\"a\", 5)", "exit(1)"], {"a": "bytes", "i": "int", "g": "int", "a2": "bytes", "a3": "bytes"})
    P["stdlib"] = (["log(Concat({a}, \"b\", {c}))", "log(Rpad({a}, 40))", "log(ToBytes({i}, 8))", "assert(FromBytes({d}, uint64))", "log(Cast({a}, bytes[4]))", "bytes[4] q = UncheckedCast({a}, bytes[4])", "log(q)", "if {z}:", "    Error(\"no\")" if False else "    assert(0)", "end", "exit(1)"], {"a": "bytes", "c": "bytes", "i": "int", "d": "bytes[8]"})
    P["empty-bodies"] = (["if {a}:", "end", "if not {b}:", "elif not {c}:", "elif {d}:", "else:", "end", "while {e}:", "end", "while not {f}:", "end", "for i in 1:2:", "end", "inner_txn:", "end", "inner_group:", "end", "teal:", "end", "exit(1)", "block b:", "    exit(2)", "end", "func f():", "    return", "end"], {})
    P["one-armed"] = (["if not {a} > 2:", "    assert({x})", "end", "if not ({a2} > 2):", "    assert({x2})", "elif not !{c}:", "    # only a comment", "else:", "    # only a comment", "end", "while not {b} && {b2}:", "    # only a comment", "end", "exit(!{e})"], {k: "int" for k in ("a", "a2", "b", "b2", "c", "e")})
    P["empty-lines"] = (["", "", "# first", "", "int a = {x}", "", "", "exit(a)", "", ""], {"x": "int"})
    return P


def invalid():
    return {
        "unknown variable": (["exit(nope)"], {}),
        "missing end": (["if {x}:", "    assert({y})", "exit(1)"], {}),
        "extra end": (["exit(1)", "end"], {}),
        "unknown statement": (["what is this", "exit(1)"], {}),
        "text after": (["assert({x}) and more", "exit(1)"], {}),
        "bad expression": (["assert(1 +)", "exit(1)"], {}),
        "else twice": (["if {x}:", "    assert(1)", "else:", "    assert(2)", "else:", "    assert(3)", "end", "exit(1)"], {}),
    }


def no_result(ctx, src, types):
    h = ctx.harness(**types)
    rs = h.reformat(src)
    ctx.note(rs)
    for r in rs:
        if opaque_path(r):
            raise AnalysisError("partition depends on a value outside the model")
        if r.outcome == "return":
            raise Violation("an invalid program is formatted as\n%s" % showt(r.value), [], "program:\n" + src_text(src), sub="accepted")
        if r.outcome != "raise":
            raise AnalysisError("partition ended with %s %s" % (r.outcome, r.value))
        if r.exc_name() not in DIAG:
            raise Violation("formatting an invalid program raises %s" % exc_text(r), where_of(r), "program:\n" + src_text(src), sub="raises " + (r.exc_name() or ""))
    return "%d partitions rejected" % len(rs)
