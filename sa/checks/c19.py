"""Isolation.  The result of compiling, formatting or inspecting a program is a function of its
text: one interpreter state is driven through every ordered pair of programs (valid and rejected,
interleaved by stages too) and each result is compared with that of a fresh interpreter; the
iteration order of sets is reversed; values of the environment must not reach a result."""
from .common import *
from ..values import pieces, Sym as _Sym
from ..engine import Sym, Raised, PyFunc, ExtVal, AObj, ADict, AList, ASet, _h
from ..harness import source

FLOOR = 60

P = {
    "struct": ["struct Item:", "    aa: int", "    bb: bytes[3]", "end", "Item it = bzero(11)", "it.aa = {x}", "log(it.bb)", "box<Item> bx = CreateBox({k})", "bx.aa = it.aa", "exit(1)"],
    "struct-other": ["struct Item:", "    bb: bytes[32]", "    zz: uint8", "    aa: int", "end", "Item it = bzero(41)", "it.aa = {x}", "log(it.bb)", "box<Item> bx = OpenBox({k})", "log(bx.bb)", "exit(1)"],
    "struct-user": ["Item it = bzero(11)", "exit(1)"],
    "struct-use": ["int a = it.aa", "exit(1)"],
    "box-user": ["box<Item> bx = Box({k})", "log(bx.bb)", "exit(1)"],
    "arg-struct": ["f({s})", "exit(1)", "func f(it: Item):", "    return", "end"],
    "cast-struct": ["log(Cast({k}, Item))", "exit(1)"],
    "const": ["const int X = 5", 'const bytes Y = "abc"', "assert(X)", "log(Y)", "exit(X)"],
    "const-other": ["const int X = 6", "const bytes Z = 0x0102", "assert(X)", "log(Z)", "exit(1)"],
    "const-user": ["assert(X)", "log(Y)", "exit(1)"],
    "func": ["int a = f({x})", "exit(a)", "func f(b: int) int:", "    int c = b + 1", "    return c", "end"],
    "func-other": ["bytes a = f({k}, {x})", "log(a)", "exit(1)", "func f(b: bytes, c: int) bytes:", "    int d = c", "    assert(d)", "    return b", "end"],
    "func-user": ["int a = f({x})", "exit(a)"],
    "block": ["jump main", "block main:", "    int a = {x}", "    if a:", "        jump other", "    end", "    exit(0)", "end", "block other:", "    exit(1)", "end"],
    "block-user": ["jump other"],
    "flow": ["if {x}:", "    assert({y})", "elif {z}:", "    assert(1)", "else:", "    assert(2)", "end", "while {y}:", "    if {z}:", "        break", "    end", "end", "for i in 0:{y}:", "    assert(i)", "end", "exit(1)"],
    "flow-two": ["while {y}:", "    assert({z})", "end", "if {x}:", "    assert({y})", "end", "for i in 1:3:", "    assert(i)", "end", "switch {x}:", "    1: aa", "    2: bb", "end", "block aa:", "    exit(1)", "end", "block bb:", "    exit(0)", "end"],
    "router": ["router:", "    one", "    two", "end", "@public(OnCompletion=UpdateApplication)", "func one(a: int) bytes:", '    return "x"', "end", "@public()", "func two():", "    return", "end"],
    "router-other": ["router:", "    one", "end", "@public()", "func one(a: bytes):", "    log(a)", "    return", "end"],
    "inner": ["inner_txn:", "    TypeEnum: Pay", "    Amount: {x}", "    Accounts[0]: {k}", "end", "exit(1)"],
    "group": ["jump main", "block main:", "    inner_group:", "        inner_txn:", "            TypeEnum: Axfer", "            AssetAmount: {x}", "        end", "    end", "    exit(1)", "end"],
    "messages": ['assert({x}, "one")', "# c", 'assert({y}, "two {m:note}")', "exit(1)"],
    "messages-other": ["", 'assert({x}, "uno")', "assert({y})", "exit(1)"],
    "version": ["#pragma version 6", "assert({x})", "exit(1)"],
    "stdlib": ["log(Concat({k}, {k2}))", "log(Address(\"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ\"))", "assert(sqrt({x}))", "log(ToBytes({x}, 4))", "log(setbit({k}, {x}, 1))", "exit(1)"],
    "slots": ["int v%d = {x}" % i for i in range(12)] + ["exit(v7)"],
    "vars": ["bytes v1 = {k}", "int v0 = {x}", "log(v1)", "exit(v0)"],
    "teal": ["teal:", "    pushint 1", "    l0_end:", "    pop", "end", "exit(1)"],
    "fields": ["assert(Txn.Amount)", "assert(Gtxn[1].Fee)", "log(Global.CreatorAddress)", "log(Txn.ApplicationArgs[{x}])", "exit(1)"],
    "bad-syntax": ["struct Item:", "    aa: int", "    bb: bytes[5]", "end", "const int X = 9", "assert(1 +)"],
    "bad-type": ["struct Item:", "    bb: bytes[5]", "end", "const int X = 9", 'const bytes Y = "q"', "if 1:", '    assert("a", "other")', "end", "exit(1)", "func f():", "    return", "end"],
    "bad-open": ["block other:", "    if 1:", "        assert(1)"],
    "bad-inner": ["inner_txn:", "    TypeEnum: Nope", "end", "exit(1)"],
    "bad-group": ["inner_group:", "    inner_txn:", "        Amount: nope", "    end", "end", "exit(1)"],
}
TYPES = {"x": "int", "y": "int", "z": "int", "k": "bytes", "k2": "bytes", "s": "bytes[11]"}
OPS_ = ("compile_program", "reformat_program", "inspect_program")
ENV = ["random.random", "random.randint", "random.choice", "random.shuffle", "random.getrandbits", "secrets.token_hex", "uuid.uuid4", "uuid.uuid1", "time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "time.strftime", "time.localtime", "time.ctime",
       "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.date.today", "datetime.datetime.today", "os.environ", "os.getenv", "os.environ.get", "os.getpid", "os.getcwd", "os.listdir", "os.urandom", "socket.gethostname", "getpass.getuser", "platform.node", "platform.platform", "builtins.id", "builtins.hash", "os.getlogin", "threading.get_ident", "locale.getlocale"]


class Obs:
    """what one call returned or raised, by content"""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def __eq__(self, o):
        return self.kind == o.kind and self.value == o.value

    def show(self):
        return "%s %s" % (self.kind, flat(self.value))


def flat(v):
    if isinstance(v, tuple):
        return "\n".join(flat(x) for x in v)
    return v if isinstance(v, str) else showt(v) if isinstance(v, Sym) else repr(v)


def content(it, v, depth=0):
    v = it.resolve(v)
    if depth > 12:
        return "..."
    if isinstance(v, AList):
        return tuple(content(it, x, depth + 1) for x in v.items)
    if isinstance(v, tuple):
        return tuple(content(it, x, depth + 1) for x in v)
    if isinstance(v, ADict):
        return ("dict",) + tuple((content(it, k, depth + 1), content(it, x, depth + 1)) for k, x in v.d.items())
    if isinstance(v, ASet):
        return ("set",) + tuple(sorted((content(it, x, depth + 1) for x in v.items), key=repr))
    if isinstance(v, AObj):
        return (v.cls.name,) + tuple((k, content(it, x, depth + 1)) for k, x in sorted(v.attrs.items()) if k in ("pc_teal", "teal_tealish", "errors", "tealish_teal"))
    return v


def observe(it, f):
    try:
        v = f()
    except Raised as e:
        x = e.exc
        return Obs("raises " + x.cls.name, content(it, x.value or ()))
    return Obs("returns", content(it, v))


def api(it, op, src):
    return observe(it, lambda: it.call(it.modattr(it.module("tealish"), op), [src], {}))


def runs(ctx, fn, extra=None, setup=None):
    """the one result of fn(it); partitions must agree"""
    h = ctx.harness(**TYPES)
    h.steps = 30000000
    h.iters = 3000
    if extra:
        base = h.stubs
        h.stubs = lambda: dict(base(), **extra)
    rs = h.explore(fn, setup)
    ctx.note(rs)
    if len(rs) != 1:
        raise AnalysisError("the outcome depends on something else than the program: %r" % (rs[0].decisions[:3],))
    r = rs[0]
    if r.outcome != "return":
        raise AnalysisError("ended with %s %s" % (r.outcome, r.value))
    return r


_alone = {}


def alone(ctx, op, n):
    if (op, n) not in _alone:
        src = source(P[n])
        _alone[op, n] = runs(ctx, lambda it: api(it, op, src)).value
    return _alone[op, n]


def differ(ctx, what, got, op, n):
    want = alone(ctx, op, n)
    if got != want:
        raise Violation("%s of a program gives another result %s" % (op, what), [], "program:\n%s\nalone:\n%s\n%s:\n%s" % (src_text(P[n]), want.show(), what, got.show()), sub=what.split(":")[0])


def run(ctx):
    ctx.rule("sequence", "results do not depend on what was compiled, formatted, inspected or rejected before")
    ctx.rule("twice", "the same program gives the same result any number of times, and a returned result is not altered by later calls")
    ctx.rule("interleaved", "compilers whose stages are interleaved do not affect each other")
    ctx.rule("order", "results do not depend on the iteration order of sets")
    ctx.rule("environment", "no value of the environment (time, random, process, variables, addresses) reaches a result")
    names = list(P)
    for a in names:
        for opa in OPS_:
            def f(a=a, opa=opa):
                for b in names:
                    sa, sb = source(P[a]), source(P[b])

                    def fn(it):
                        api(it, opa, sa)
                        return [api(it, o, sb) for o in OPS_]
                    for o, got in zip(OPS_, runs(ctx, fn).value):
                        differ(ctx, "after another: %s of %s" % (opa, a), got, o, b)
                return len(names) * len(OPS_)
            if opa == "compile_program" or ctx.thorough or a.startswith("bad") or a in ("struct", "const", "group", "messages"):
                ctx.ob("sequence", "%s %s" % (opa, a), f)
    for a in names:
        def f(a=a):
            s = source(P[a])
            for o in OPS_:
                def fn(it, o=o):
                    first = observe(it, lambda: it.call(it.modattr(it.module("tealish"), o), [s], {}))
                    return [first, api(it, o, s), api(it, o, s)]
                for i, got in enumerate(runs(ctx, fn).value):
                    differ(ctx, "the %s time" % ("first", "second", "third")[i], got, o, a)
            # the result of one call is not altered by later calls
            for b in names:
                sb = source(P[b])

                def keep(it):
                    m = it.module("tealish")
                    try:
                        v = it.call(it.modattr(m, "compile_program"), [s], {})
                    except Raised:
                        return None
                    api(it, "compile_program", sb)
                    return Obs("returns", content(it, v))
                got = runs(ctx, keep).value
                if got is not None:
                    differ(ctx, "after a later call: compile of %s" % b, got, "compile_program", a)
        ctx.ob("twice", a, f)

    from ..harness import T
    for a in names:
        def f(a=a):
            la = [T(x) if isinstance(x, str) else x for x in P[a]]
            for b in names:
                lb = [T(x) if isinstance(x, str) else x for x in P[b]]
                for order in ("parse parse compile", "parse parse process", "created") if ctx.thorough or b in ("struct", "struct-other", "struct-user", "bad-type", "group", "flow", a) else ("parse parse process",):
                    def fn(it):
                        m = it.module("tealish")
                        mk = lambda ls: it.instantiate(it.modattr(m, "TealishCompiler"), [AList(list(ls))], {})
                        do = lambda c, n: it.call(it.getattr(c, n), [], {})
                        cs = [mk(la), mk(lb)]
                        bad = [None, None]

                        def stage(n):
                            for i in (0, 1):
                                if bad[i] is None:
                                    o = observe(it, lambda: do(cs[i], n))
                                    if o.kind != "returns":
                                        bad[i] = o
                        if order != "created":
                            stage("parse")
                        if order.endswith("process"):
                            stage("process")
                        out = []
                        for i in (0, 1):
                            if bad[i] is None:
                                out.append(observe(it, lambda: (do(cs[i], "compile"), do(cs[i], "get_map"))))
                            else:
                                out.append(bad[i])
                        return out
                    for n, got in zip((a, b), runs(ctx, fn).value):
                        differ(ctx, "interleaved with another (%s): %s" % (order, b if n == a else a), got, "compile_program", n)
        ctx.ob("interleaved", a, f)
    for a in names:
        def f(a=a):
            s = source(P[a])
            for o in OPS_:
                def su(it):
                    it.reverse_sets = True
                differ(ctx, "with sets iterated in another order", runs(ctx, lambda it: api(it, o, s), setup=su).value, o, a)
        ctx.ob("order", a, f)

    def stub(n):
        def f(it, a, k):
            it.user.setdefault("env", []).append((n, it.cur))
            return Sym("strop", "environment", n, *[x.id for x in a if hasattr(x, "id")])
        return f
    extra = {"ext:" + n: stub(n) for n in ENV}
    for a in names:
        def f(a=a):
            s = source(P[a])
            for o in OPS_:
                h = ctx.harness(**TYPES)
                h.steps = 30000000
                h.iters = 3000
                base = h.stubs
                h.stubs = lambda: dict(base(), **extra)
                rs = h.explore(lambda it: api(it, o, s))
                ctx.note(rs)
                for r in rs:
                    t = "environment"
                    if r.outcome != "return":
                        raise AnalysisError("ended with %s %s" % (r.outcome, r.value))
                    if t in repr(r.value.value):
                        raise Violation("%s of a program has a value of the environment in its result (%s)" % (o, ", ".join(sorted({x for x, _ in r.interp.user.get("env", [])}))), [], "program:\n%s\n%s" % (src_text(P[a]), r.value.show()), sub="value")
                    if any(t in repr(d) for d in r.decisions):
                        raise Violation("%s of a program depends on the environment: %r" % (o, [d for d in r.decisions if t in repr(d)][0]), [], src_text(P[a]), sub="decision")
        ctx.ob("environment", a, f)
    ctx.assumptions += ["langspec.json in the working directory is part of the input, as documented", "interleavings are at the granularity of the compiler's public stages"]
