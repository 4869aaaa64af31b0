"""Emitted-code analysis: parses TEAL *templates* (text with holes) and decides, by dataflow
over their control-flow graph, whether two template programs have the same observable
behaviour for every value of every hole.

Lattice: stack/slot contents are hash-consed value-number terms; at every observable the
terms that both programs hold in common are widened to fresh value numbers, so loops reach a
fixpoint.  No solver and no concrete execution is involved.
"""
import json
import os

from .values import *
from .harness import T, showt

OPS = json.load(open(os.path.join(os.path.dirname(__file__), "data", "avm_ops.json")))

IMPURE = {
    "log", "itxn_begin", "itxn_next", "itxn_submit", "itxn_field",
    "app_global_put", "app_global_del", "app_local_put", "app_local_del",
    "box_create", "box_extract", "box_replace", "box_del", "box_len", "box_get", "box_put",
    "box_splice", "box_resize",
    "app_global_get", "app_global_get_ex", "app_local_get", "app_local_get_ex", "app_opted_in",
    "itxn", "itxna", "itxnas", "gitxn", "gitxna", "gitxnas", "balance", "min_balance",
    "asset_holding_get", "stores", "loads", "gload", "gloads", "gloadss", "gaid", "gaids", "%E",
    "sha256",
}
IMPURE.discard("sha256")
TERMINAL = {"return", "err", "retsub", "b"}
CONST_OPS = {"pushint": "i", "int": "i", "pushbytes": "b", "byte": "b", "addr": "a", "method": "m"}
MACRO = {"%E": ("", ".")}


class TealError(Exception):
    def __init__(self, msg, line=None):
        Exception.__init__(self, msg)
        self.line = line


class Instr:
    __slots__ = ("op", "imm", "line", "text")

    def __init__(self, op, imm, line, text):
        self.op, self.imm, self.line, self.text = op, tuple(imm), line, text

    def __repr__(self):
        return self.op + "".join(" " + showt(i) for i in self.imm)


OPEN, CLOSE = "\ue000", "\ue001"


def encode(t, tab):
    out = []
    for p in pieces(t):
        if isinstance(p, str):
            out.append(p)
        else:
            if p.kind == "int" and isinstance(p.args[0], str) and p.args[0].startswith("int:"):
                p = hole(p.args[0][4:], "digits")   # the decimal text of an integer literal
            tab.append(p)
            out.append("%s%d%s" % (OPEN, len(tab) - 1, CLOSE))
    return "".join(out)


def decode(s, tab):
    out, i = [], 0
    while i < len(s):
        j = s.find(OPEN, i)
        if j < 0:
            out.append(s[i:])
            break
        out.append(s[i:j])
        k = s.index(CLOSE, j)
        out.append(tab[int(s[j + 1:k])])
        i = k + 1
    return tmpl(*out)


def lex(line):
    """one TEAL source line -> (list of token lists separated by ';', comment or None)"""
    toks, cur, i, n = [[]], None, 0, len(line)
    while i < n:
        c = line[i]
        if c in " \t":
            i += 1
            continue
        if c == ";":
            toks.append([])
            i += 1
            continue
        if line.startswith("//", i):
            return toks, line[i + 2:]
        if c == '"':
            j = i + 1
            while j < n and line[j] != '"':
                j += 2 if line[j] == "\\" else 1
            if j >= n:
                raise TealError("unterminated string literal")
            toks[-1].append(line[i:j + 1])
            i = j + 1
            if i < n and line[i] not in " \t;" and not line.startswith("//", i):
                raise TealError("characters directly after a string literal")
            continue
        j = i
        while j < n and line[j] not in " \t;" and not line.startswith("//", j):
            j += 1
        toks[-1].append(line[i:j])
        i = j
    return toks, None


class Prog:
    """parsed template program"""

    def __init__(self, lines, name="emitted"):
        self.name = name
        self.lines = list(lines)
        self.instrs = []
        self.labels = {}
        self.label_line = {}
        self.dup_labels = []
        self.comments = {}
        self.defines = {}
        self.version = None
        self.instr_lines = set()
        for i, l in enumerate(self.lines):
            tab = []
            enc = encode(l, tab)
            st = enc.strip()
            if st.startswith("#pragma"):
                self.version = decode(st.split()[-1], tab)
                continue
            try:
                groups, comment = lex(enc)
            except TealError as e:
                raise TealError("%s in emitted line `%s`" % (e, showt(l)), i)
            if comment is not None:
                self.comments[i] = decode(comment, tab)
            if st.startswith("#define"):
                t = groups[0]
                self.defines[decode(t[1], tab)] = [decode(x, tab) for x in t[2:]]
                continue
            for g in groups:
                self.stmt([decode(x, tab) for x in g], i, l)
        self.check_labels()

    def stmt(self, toks, i, l):
        if not toks:
            return
        t = toks[0]
        ps = pieces(t)
        if isinstance(ps[-1], str) and ps[-1].endswith(":"):
            name = tmpl(*ps[:-1], ps[-1][:-1])
            if name in self.labels:
                self.dup_labels.append((name, i))
            else:
                self.labels[name] = len(self.instrs)
                self.label_line[name] = i
            return self.stmt(toks[1:], i, l)
        imm = []
        for x in toks[1:]:
            if x in self.defines:
                imm += self.defines[x]
            else:
                imm.append(x)
        if not isinstance(t, str):
            raise TealError("emitted line `%s` does not start with an opcode" % showt(l), i)
        self.instrs.append(Instr(t, imm, i, l))
        self.instr_lines.add(i)

    def check_labels(self):
        self.undefined = []
        for ins in self.instrs:
            if ins.op in ("b", "bz", "bnz", "callsub", "switch", "match"):
                for x in ins.imm:
                    if x not in self.labels:
                        self.undefined.append((x, ins))

    def text(self):
        return [showt(l) for l in self.lines]


# ------------------------------------------------------------------- terms
# ("c", kind, value) constants; ("v", n) value numbers; ("s", name) named inputs;
# ("o", op, imm, args, k) pure results

def const(kind, v):
    return ("c", kind, v)


def norm_bytes(x):
    if isinstance(x, str):
        if x.startswith("0x"):
            try:
                return bytes.fromhex(x[2:])
            except ValueError:
                return x
        if len(x) >= 2 and x[0] == '"' and x[-1] == '"':
            import ast
            try:
                return ast.literal_eval("b" + x) if all(ord(c) < 128 for c in x) else x[1:-1].encode()
            except Exception:
                return x
    return x


def norm_int(x):
    if isinstance(x, str):
        try:
            return int(x, 0)
        except ValueError:
            return x
    if isinstance(x, Sym) and x.kind == "tmpl" and len(x.args) == 1:
        return x.args[0]
    return x


class State:
    __slots__ = ("pc", "stack", "slots", "calls")

    def __init__(self, pc=0, stack=(), slots=None, calls=()):
        self.pc, self.stack, self.slots, self.calls = pc, tuple(stack), dict(slots or {}), tuple(calls)

    def copy(self):
        return State(self.pc, self.stack, self.slots, self.calls)


def pop(st, n, ins):
    if n == 0:
        return ()
    if len(st.stack) < n:
        raise TealError("stack underflow: `%s` needs %d value(s), %d on the stack" % (ins, n, len(st.stack)), ins.line)
    r = st.stack[-n:]
    st.stack = st.stack[:-n]
    return r


def intimm(ins, k=0):
    if len(ins.imm) <= k:
        raise TealError("`%s` lacks an immediate argument" % ins, ins.line)
    try:
        return int(ins.imm[k], 0)
    except (TypeError, ValueError):
        raise TealError("`%s`: immediate is not a known integer" % ins, ins.line)


class Machine:
    def __init__(self, prog, zero_slots=False):
        self.p = prog
        self.visited = set()
        self.maxdepth = 0
        self.zero = zero_slots

    def run(self, st):
        """advance over pure instructions to the next observable.
        -> ("eff", op, imm, args, nres) state positioned after, with results still to push
           ("br", term, pc_true, pc_false) / ("sw", term, pcs, pc_default) / ("match", terms, term, pcs, default)
           ("end", kind, payload)"""
        steps = 0
        while True:
            steps += 1
            if steps > 5000:
                return ("end", "diverge", ())
            if st.pc >= len(self.p.instrs):
                return ("end", "eop", ())
            ins = self.p.instrs[st.pc]
            self.visited.add(st.pc)
            op = ins.op
            st.pc += 1
            if op in CONST_OPS:
                if len(ins.imm) != 1:
                    raise TealError("`%s` takes one literal, got %d" % (ins, len(ins.imm)), ins.line)
                kd = CONST_OPS[op]
                v = ins.imm[0]
                if kd == "i":
                    v = norm_int(v)
                elif kd == "b":
                    v = norm_bytes(v)
                st.stack += (const(kd, v),)
            elif op in ("pushints", "pushbytess"):
                for x in ins.imm:
                    st.stack += (const("i" if op == "pushints" else "b", norm_int(x) if op == "pushints" else norm_bytes(x)),)
            elif op == "pop":
                pop(st, 1, ins)
            elif op == "popn":
                pop(st, intimm(ins), ins)
            elif op == "dup":
                (a,) = pop(st, 1, ins)
                st.stack += (a, a)
            elif op == "dup2":
                a, b = pop(st, 2, ins)
                st.stack += (a, b, a, b)
            elif op == "dupn":
                (a,) = pop(st, 1, ins)
                st.stack += (a,) * (intimm(ins) + 1)
            elif op == "swap":
                a, b = pop(st, 2, ins)
                st.stack += (b, a)
            elif op == "dig":
                n = intimm(ins)
                v = pop(st, n + 1, ins)
                st.stack += v + (v[0],)
            elif op == "uncover":
                n = intimm(ins)
                v = pop(st, n + 1, ins)
                st.stack += v[1:] + (v[0],)
            elif op == "cover":
                n = intimm(ins)
                v = pop(st, n + 1, ins)
                st.stack += (v[-1],) + v[:-1]
            elif op == "bury":
                n = intimm(ins)
                v = pop(st, n + 1, ins)
                st.stack += (v[-1],) + v[1:-1]
            elif op == "load":
                k = self.slot(ins)
                if k not in st.slots:
                    st.slots[k] = const("i", 0) if self.zero else ("s", "slot %s initially" % k)
                st.stack += (st.slots[k],)
            elif op == "store":
                (a,) = pop(st, 1, ins)
                st.slots[self.slot(ins)] = a
            elif op == "b":
                st.pc = self.target(ins, 0)
            elif op in ("bz", "bnz"):
                (a,) = pop(st, 1, ins)
                t, f = self.target(ins, 0), st.pc
                if op == "bz":
                    t, f = f, t
                while a[0] == "o" and a[1] == "!":
                    a, t, f = a[3][0], f, t
                if a[0] == "c" and isinstance(a[2], int):
                    st.pc = t if a[2] else f
                    continue
                return ("br", a, t, f)
            elif op == "callsub":
                if len(st.calls) > 12:
                    return ("end", "recursion", ())
                st.calls += (st.pc,)
                st.pc = self.target(ins, 0)
            elif op == "retsub":
                if not st.calls:
                    return ("end", "retsub", st.stack)
                st.pc = st.calls[-1]
                st.calls = st.calls[:-1]
            elif op == "return":
                (a,) = pop(st, 1, ins)
                return ("end", "return", (a,))
            elif op == "err":
                return ("end", "err", ())
            elif op == "assert":
                (a,) = pop(st, 1, ins)
                if a[0] == "c" and isinstance(a[2], int):
                    if a[2]:
                        continue
                    return ("end", "err", ())
                return ("eff", "assert", (), (a,), 0)
            elif op == "switch":
                (a,) = pop(st, 1, ins)
                if a[0] == "c" and isinstance(a[2], int):
                    if a[2] < len(ins.imm):
                        st.pc = self.target(ins, a[2])
                    continue
                return ("sw", a, tuple(self.target(ins, i) for i in range(len(ins.imm))), st.pc)
            elif op == "match":
                v = pop(st, len(ins.imm) + 1, ins)
                return ("match", v[:-1], v[-1], tuple(self.target(ins, i) for i in range(len(ins.imm))), st.pc)
            elif op == "%E":
                return ("eff", "%E", ins.imm, (), 1)
            elif op == "%M":
                return ("eff", "%M", ins.imm, (), 0)
            else:
                spec = self.spec(ins)
                args = pop(st, len(spec[0]), ins)
                imm = tuple(norm_int(x) for x in ins.imm)
                if op in IMPURE:
                    return ("eff", op, imm, args, len(spec[1]))
                nm = {"replace": "replace3" if not imm else "replace2", "extract": "extract3" if not imm else "extract"}.get(op, op)
                r = tuple(simp(nm, imm, args, k) for k in range(len(spec[1])))
                st.stack += r
                if len(st.stack) > 200:
                    raise TealError("unbounded stack growth at `%s`" % ins, ins.line)

    def slot(self, ins):
        if not ins.imm:
            raise TealError("`%s` lacks a slot" % ins, ins.line)
        x = ins.imm[0]
        if isinstance(x, str) and x.startswith("$"):
            return x
        x = norm_int(x)
        if isinstance(x, int) and not 0 <= x <= 255:
            raise TealError("`%s`: scratch slot outside 0..255" % ins, ins.line)
        if isinstance(x, str):
            raise TealError("`%s`: scratch slot is not a number" % ins, ins.line)
        return x

    def target(self, ins, i):
        if len(ins.imm) <= i:
            raise TealError("`%s` lacks a label" % ins, ins.line)
        x = ins.imm[i]
        if x not in self.p.labels:
            raise TealError("`%s`: label %s is not defined" % (ins, showt(x)), ins.line)
        return self.p.labels[x]

    def spec(self, ins):
        op = ins.op
        if op in ("replace", "extract"):
            n = len(ins.imm)
            for x in ins.imm:
                x = norm_int(x)
                if isinstance(x, int) and not 0 <= x <= 255:
                    raise TealError("`%s`: immediate argument %d does not fit into a byte" % (ins, x), ins.line)
            if op == "replace":
                return ("BB", "B") if n else ("BUB", "B")
            if n == 0:
                return ("BUU", "B")
        o = OPS.get(op)
        if o is None:
            raise TealError("`%s` is not a TEAL opcode" % ins, ins.line)
        want = o["Size"] - 1
        if op in ("txn", "gtxn", "itxn", "gtxns", "gitxn") and len(ins.imm) == want + 1:
            pass            # assembler accepts the array form as a pseudo-op
        elif o["Size"] and len(ins.imm) != want and op not in ("intc", "bytec"):
            raise TealError("`%s` takes %d immediate argument(s), got %d" % (ins, want, len(ins.imm)), ins.line)
        if op in BYTE_IMM:
            for x in ins.imm:
                x = norm_int(x)
                if isinstance(x, int) and not 0 <= x <= 255:
                    raise TealError("`%s`: immediate argument %d does not fit into a byte" % (ins, x), ins.line)
        return o.get("Args", ""), o.get("Returns", "")


BYTE_IMM = {"extract", "substring", "replace2", "txna", "gtxn", "gtxna", "gtxnas", "gtxnsa", "itxna", "gitxn", "gitxna", "gitxnas", "dig", "cover", "uncover", "bury", "popn", "dupn", "gaid", "gload", "gloads", "arg",
            "load", "store", "intc", "bytec", "proto"}


def is_c(t):
    return t[0] == "c" and isinstance(t[2], int)


def simp(op, imm, args, k):
    if op == "extract" and len(imm) == 2 and all(isinstance(x, int) for x in imm) and imm[1] > 0:
        op, imm, args = "extract3", (), (args[0], const("i", imm[0]), const("i", imm[1]))
    elif op == "substring" and len(imm) == 2 and all(isinstance(x, int) for x in imm) and imm[1] > imm[0]:
        op, imm, args = "extract3", (), (args[0], const("i", imm[0]), const("i", imm[1] - imm[0]))
    elif op == "substring3" and is_c(args[1]) and is_c(args[2]) and args[2][2] > args[1][2]:
        op, imm, args = "extract3", (), (args[0], args[1], const("i", args[2][2] - args[1][2]))
    elif op == "replace2" and len(imm) == 1 and isinstance(imm[0], int):
        op, imm, args = "replace3", (), (args[0], const("i", imm[0]), args[1])
    elif op in ("extract_uint64", "extract_uint32", "extract_uint16"):
        n = int(op[-2:]) // 8
        op, imm, args = "btoi", (), (simp("extract3", (), (args[0], args[1], const("i", n)), 0),)
    if op == "extract3" and args[0][:2] == ("o", "itob") and is_c(args[1]) and is_c(args[2]) and (args[1][2], args[2][2]) == (0, 8):
        return args[0]
    if op == "concat" and args[1][:2] == ("o", "concat"):          # associative: nest to the left
        b, c = args[1][3]
        return simp("concat", (), (simp("concat", (), (args[0], b), 0), c), k)
    if op == "!" and args[0][0] == "c" and isinstance(args[0][2], int):
        return const("i", 0 if args[0][2] else 1)
    return ("o", op, imm, args, k)


def tstr(t, depth=0):
    if depth > 6:
        return "…"
    if t[0] == "c":
        v = t[2]
        return showt(v) if isinstance(v, Sym) else repr(v) if isinstance(v, bytes) else str(v)
    if t[0] == "v":
        return "v%d" % t[1]
    if t[0] == "s":
        return t[1]
    s = t[1] + ("[%s]" % " ".join(showt(x) if not isinstance(x, int) else str(x) for x in t[2]) if t[2] else "")
    s += "(%s)" % ", ".join(tstr(a, depth + 1) for a in t[3])
    return s + (".%d" % t[4] if t[4] else "")


def obs_str(o):
    if o[0] == "eff":
        if o[1] == "%E":
            return "evaluate %s" % " ".join(showt(x) for x in o[2])
        return "%s%s(%s)" % (o[1], "".join(" " + (showt(x) if not isinstance(x, int) else str(x)) for x in o[2]), ", ".join(tstr(a) for a in o[3]))
    if o[0] == "br":
        return "branch on %s" % tstr(o[1])
    if o[0] == "sw":
        return "switch on %s (%d targets)" % (tstr(o[1]), len(o[2]))
    if o[0] == "match":
        return "match %s against %s" % (tstr(o[2]), ", ".join(tstr(a) for a in o[1]))
    return {"return": "exit", "err": "fail", "eop": "fall off the end of the program", "retsub": "return from function",
            "diverge": "loop for ever without effect", "recursion": "recursion"}[o[1]] + ("(%s)" % ", ".join(tstr(t) for t in o[2]) if o[2] else "")


class Diff(Exception):
    def __init__(self, msg, line, trace, got=None, want=None):
        Exception.__init__(self, msg)
        self.line, self.trace, self.got, self.want = line, trace, got, want
        self.sub = msg


MARK = "mark"


def canon_pair(a, b, keep_slots=True):
    """canonical renaming + widening of the terms both states hold in common"""
    ta, tb = set(), set()

    def subs(t, s):
        if t in s:
            return
        s.add(t)
        if t[0] == "o":
            for x in t[3]:
                subs(x, s)
    for t in a.stack + tuple(a.slots[k] for k in sorted(a.slots, key=str)):
        subs(t, ta)
    for t in b.stack + tuple(b.slots[k] for k in sorted(b.slots, key=str)):
        subs(t, tb)
    common = {t for t in ta & tb if t[0] in ("o", "v")}
    ren = {}

    def rn(t):
        if t in ren:
            return ren[t]
        if t in common:
            r = ren[t] = ("v", len([1 for x in ren.values() if x[0] == "v"]))
            return r
        if t[0] == "o":
            r = ("o", t[1], t[2], tuple(rn(x) for x in t[3]), t[4])
        elif t[0] == "v":
            r = ("v", len([1 for x in ren.values() if x[0] == "v"]))
        else:
            r = t
        ren[t] = r
        return r

    def app(s):
        return State(s.pc, tuple(rn(t) for t in s.stack), {k: rn(s.slots[k]) for k in sorted(s.slots, key=str)}, s.calls)
    a2, b2 = app(a), app(b)
    nv = len([1 for x in ren.values() if x[0] == "v"])
    return a2, b2, nv


def key(s):
    return (s.pc, s.stack, tuple(sorted(s.slots.items(), key=lambda kv: str(kv[0]))), s.calls)


def live_slots(p):
    """per instruction: slots that may be read before they are written (context-insensitive over
    calls); None when slots are accessed dynamically"""
    n = len(p.instrs)
    if any(i.op in ("loads", "stores") for i in p.instrs):
        return None
    rets = [k + 1 for k, i in enumerate(p.instrs) if i.op == "callsub"]
    preds = [[] for _ in range(n + 1)]
    gen, kill = [None] * n, [None] * n
    for k, i in enumerate(p.instrs):
        if i.op in ("load", "store") and i.imm:
            x = i.imm[0]
            x = x if isinstance(x, str) and x.startswith("$") else norm_int(x)
            if i.op == "load":
                gen[k] = x
            else:
                kill[k] = x
        succ = []
        if i.op in ("b", "callsub"):
            succ = [p.labels[x] for x in i.imm[:1] if x in p.labels]
        elif i.op == "retsub":
            succ = rets
        elif i.op in ("return", "err"):
            pass
        else:
            succ = [k + 1]
            if i.op in ("bz", "bnz", "switch", "match"):
                succ += [p.labels[x] for x in i.imm if x in p.labels]
        for x in succ:
            preds[x].append(k)
    live = [frozenset()] * (n + 1)
    work = list(range(n))
    inq = set(work)
    succs = [[] for _ in range(n)]
    for x, ps in enumerate(preds):
        for k in ps:
            succs[k].append(x)
    while work:
        k = work.pop()
        inq.discard(k)
        o = frozenset().union(*[live[x] for x in succs[k]]) if succs[k] else frozenset()
        if kill[k] is not None:
            o = o - {kill[k]}
        if gen[k] is not None:
            o = o | {gen[k]}
        if o != live[k]:
            live[k] = o
            for x in preds[k]:
                if x not in inq:
                    inq.add(x)
                    work.append(x)
    return live


class Equiv:
    """simulation of actual against reference"""
    on_obs = None           # called with the line indices of both instructions of each matched observable

    def __init__(self, actual, ref, entry=None, ref_entry=None, stack=(), marks=True, limit=6000):
        self.A, self.B = Machine(actual, True), Machine(ref, True)
        self.a, self.b = actual, ref
        self.marks = marks
        self.limit = limit
        self.states = 0
        self.obs = 0
        self.la, self.lb = live_slots(actual), live_slots(ref)
        self.entry, self.ref_entry, self.stack0 = entry, ref_entry, tuple(stack)

    def run(self):
        sa = State(self.a.labels[self.entry] if self.entry is not None else 0, self.stack0)
        sb = State(self.b.labels[self.ref_entry] if self.ref_entry is not None else 0, self.stack0)
        work = [(sa, sb, ())]
        seen = set()
        while work:
            a, b, tr = work.pop()
            for s, lv in ((a, self.la), (b, self.lb)):
                if lv is not None:
                    keep = lv[min(s.pc, len(lv) - 1)]
                    for x in [x for x in s.slots if x not in keep]:
                        del s.slots[x]
            a, b, nv = canon_pair(a, b)
            k = (key(a), key(b))
            if k in seen:
                continue
            seen.add(k)
            self.states += 1
            if self.states > self.limit:
                raise Diff("state space of the emitted code does not stabilise (stack or slots grow without bound)", None, tr)
            pa = a.pc
            try:
                oa = self.A.run(a)
            except TealError as e:
                raise Diff(str(e), e.line, tr)
            ob = self.B.run(b)
            self.obs += 1
            la = self.a.instrs[min(a.pc, len(self.a.instrs)) - 1].line if self.a.instrs and a.pc else None
            if oa[0] != ob[0] or (oa[0] == "eff" and (oa[1], oa[2], oa[3]) != (ob[1], ob[2], ob[3])) \
               or (oa[0] == "br" and oa[1] != ob[1]) or (oa[0] == "end" and (oa[1], oa[2]) != (ob[1], ob[2])) \
               or (oa[0] == "sw" and (oa[1], len(oa[2])) != (ob[1], len(ob[2]))) \
               or (oa[0] == "match" and (oa[2], len(oa[1])) != (ob[2], len(ob[1]))):
                if oa[0] == "end" and ob[0] == "end" and oa[1] == "retsub" and ob[1] == "retsub":
                    raise Diff("at function return the stack is [%s], expected [%s]" % (", ".join(map(tstr, oa[2])), ", ".join(map(tstr, ob[2]))), la, tr, oa, ob)
                raise Diff("emitted code does: %s; the source construct means: %s" % (obs_str(oa), obs_str(ob)), la, tr, oa, ob)
            t2 = tr + (obs_str(oa),)
            if self.on_obs:
                ia = self.a.instrs[a.pc - 1] if 0 < a.pc <= len(self.a.instrs) else None
                ib = self.b.instrs[b.pc - 1] if 0 < b.pc <= len(self.b.instrs) else None
                if ia is not None and ib is not None and oa[1] not in ("eop", "diverge", "recursion"):
                    self.on_obs(ia.line, ib.line, obs_str(oa))
            if oa[0] == "end":
                continue
            if oa[0] == "eff":
                if oa[1] == "%E" and self.marks and showt(oa[2][0]).startswith("{" + MARK):
                    if a.stack != b.stack:
                        d = Diff("between two statements the stack holds [%s], expected [%s]" % (", ".join(map(tstr, a.stack)), ", ".join(map(tstr, b.stack))), la, t2, a.stack, b.stack)
                        d.sub = "between two statements the stack holds %d value(s), expected %d" % (len(a.stack), len(b.stack))
                        raise d
                for i in range(oa[4]):
                    v = ("v", 100000 + i)
                    a.stack += (v,)
                    b.stack += (v,)
                work.append((a, b, t2))
            elif oa[0] == "br":
                for i, lab in ((2, "taken"), (3, "not taken")):
                    x, y = a.copy(), b.copy()
                    x.pc, y.pc = oa[i], ob[i]
                    work.append((x, y, t2 + ("[%s]" % ("true" if i == 2 else "false"),)))
            elif oa[0] == "sw":
                for i in range(len(oa[2]) + 1):
                    x, y = a.copy(), b.copy()
                    x.pc = oa[2][i] if i < len(oa[2]) else oa[3]
                    y.pc = ob[2][i] if i < len(ob[2]) else ob[3]
                    work.append((x, y, t2 + ("[case %d]" % i,)))
            elif oa[0] == "match":
                # case order is immaterial only for distinct constants: align by value
                ka = {v: p for v, p in zip(oa[1], oa[3])}
                kb = {v: p for v, p in zip(ob[1], ob[3])}
                if set(ka) != set(kb):
                    raise Diff("emitted code does: %s; the source construct means: %s" % (obs_str(oa), obs_str(ob)), la, tr, oa, ob)
                for v in ka:
                    x, y = a.copy(), b.copy()
                    x.pc, y.pc = ka[v], kb[v]
                    work.append((x, y, t2 + ("[case %s]" % tstr(v),)))
                x, y = a.copy(), b.copy()
                x.pc, y.pc = oa[4], ob[4]
                work.append((x, y, t2 + ("[no case]",)))
        return self


def ref(text):
    from .harness import lines_of
    return Prog(lines_of(text), "reference")
