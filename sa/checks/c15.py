"""Nothing that is written is ignored.  One token (or one line) of an accepted program is left out, repeated,
replaced or added: the program is rejected, or it compiles to other code."""
import re

from .common import *
from .. import lang as L
from .. import exprs as X
from ..families import STRUCT

FLOOR = 300
HT = {"i": "int", "i2": "int", "b": "bytes", "b2": "bytes"}
# every name is used, so that a change of it is seen
P = {
    "values": ["#pragma version 8", "const int KA = 3", 'const bytes KB = "xy"', "const bytes KC = 0xab01", "int v = {i}", "bytes w = concat({b}, KB)", "v = v + KA", "uint8 u = 7", 'bytes[2] z = "ab"', 'assert(v == 2, "msg")', "log(extract(1, 2, w))", "log(concat(z, KC))", "exit((v + 1) * u)"],
    "operators": ["int v = {i} + {i2}", "int w = ({i} - 5) / (v % 3)", "v = v || 2", "w = !v", "v = ~w", "bytes x = {b} b+ {b2}", "bytes y = b~x", "y = y b| x", "assert((v >= 4) == (w != 9), \"first\")", "assert(x b<= y)", "exit((v | 1) ^ (w & 2))"],
    "struct": STRUCT + ["struct Other:", "    xx: int", "end", "Item it = Cast({b}, Item)", "Other ot = Cast({b2}, Other)", "it.aa = {i}", "it.dd = \"abc\"", "log(it.bb)", "box<Item> bx = CreateBox({b})", "box<Other> by = OpenBox({b2})", "bx.dd = \"abd\"", "by.xx = it.ee", "int v = bx.aa + ot.xx", "exit(v + it.cc)"],
    "if": ["int v = 1", "if {i}:", "    log({b})", "elif not {i2}:", "    log({b2})", "    v = 2", "elif v == 3:", "    v = 4", "else:", "    assert({i})", "end", "if not v:", "    v = 5", "end", "exit(v)"],
    "loops": ["int v = 3", "while v < 5:", "    if not {i}:", "        break", "    end", "    v = v + 1", "end", "for j in 0:v:", "    log(itob(j))", "end", "for _ in 2:6:", "    v = v + 7", "end", "while not {i}:", "    log({b})", "end", "exit(v)"],
    "functions": ["int v = ff({i}, \"ab\")", "int q", "bytes r", "q, r = gg(v)", "log(r)", "_, r = gg(q)", "hh()", "log(r)", "q = ff(v, r)", "exit(v + q)", "func ff(a: int, b: bytes) int:", "    if a:", "        return 4", "    end", "    log(b)", "    return a + 1", "end", "func gg(a: int) int, bytes:", "    hh()", "    return a + 2, itob(a)", "end", "func hh():", "    int a = 3", "    log(itob(a))", "    return", "end"],
    "blocks": ["int s = {i}", "switch s:", "    1: one", "    {i2}: two", "    4: two", "    else: one", "end", "block one:", "    exit(s)", "end", "block two:", "    jump three", "    block three:", "        exit(2)", "    end", "end"],
    "router": ["router:", "    ff", "    gg", "    hh", "end", "@public()", "func ff(a: int, b: bytes, c: uint8) bytes:", "    log(b)", "    return itob(a + c)", "end", "@public(OnCompletion=OptIn)", "func gg():", "    return", "end", "@public(OnCompletion=CloseOut)", "func hh(x: bytes[32]) int:", "    log(x)", "    return 3", "end"],
    "inner": ["inner_group:", "    inner_txn:", "        TypeEnum: Pay", "        Amount: {i}", "        Receiver: {b}", "    end", "    inner_txn:", "        TypeEnum: Appl", "        ApplicationArgs[0]: {b}", "        ApplicationArgs[1]: \"x\"", "        Accounts[0]: {b2}", "    end", "end", "inner_txn:", "    TypeEnum: Axfer", "    AssetAmount: 4", "end", "exit(Itxn.CreatedAssetID)"],
    "fields": ["int a = Txn.Fee + Global.GroupSize", "bytes b = Txn.Accounts[1]", "int c = Gtxn[2].Amount", "bytes d = Gtxn[+1].Sender", "bytes e = Gtxn[{i}].ApplicationArgs[3]", "bytes f = Gtxn[-2].Accounts[{i2}]", "bytes g = Itxn.Logs[{i}]", "log(concat(b, d))", "log(concat(e, f))", "log(g)", "exit(a + c)"],
    "library": ["int a = {i}", "log(Lpad(\"ab\", 5))", "log(Rpad({b}, 6))", "log(itob(SizeOf(bytes[12])))", "log(ToBytes(a, 4))", "bytes[4] e = Cast({b}, bytes[4])", "log(e)", 'log(Concat("ab", {b}, e))', 'log(Address("' + "A" * 52 + 'Y5HFKQ"))', "int ok", "bytes val", "ok, val = app_global_get_ex(0, {b})", "log(val)", "log(gtxna(2, ApplicationArgs, 3))", "assert(ok)", "if a:", "    Error()", "end", "exit(FromBytes({b2}, int))"],
    "teal": ["int a = 1", "teal:", "    pushint 7", "    store 200", "end", "teal:", "    load 200", "    pop", "end", "exit(a)"],
    "nested": ["int a = {i}", "for j in 1:4:", "    while a:", "        if j == 2:", "            inner_txn:", "                TypeEnum: Pay", "                Fee: 0", "            end", "        else:", "            a = a - j", "        end", "    end", "end", "exit(a)", "func ff(x: int) int:", "    switch_(x)", "    return x", "end", "func switch_(y: int):", "    assert(y, \"why\")", "    return", "end"],
}
ADD = ["junk", "9", "(", ")", ",", ":", ".", "=", '"s"', "_", "end", "not", "+", "[0]", "-", "int", "return", ";", "{i}", "==", "a", "v", "0", "!", "@", "\\", "'", "<", "log({b})"]
SWAPS = [["+", "-", "*", "/", "%", "|", "&", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||"], ["b+", "b-", "b|", "b<=", "b=="], ["Fee", "Amount", "AssetAmount"], ["Sender", "Receiver"], ["Pay", "Appl", "Axfer", "Acfg"], ["OptIn", "CloseOut", "DeleteApplication"], ["Accounts", "ApplicationArgs"], ["Txn", "Gtxn", "Itxn", "Global"], ["CreateBox", "OpenBox", "Box"], ["one", "two", "three"], ["ff", "gg", "hh"], ["break", "return", "else", "elif"], ["int", "bytes", "uint8", "bytes[32]", "bytes[2]"], ["KA", "KB", "KC"], ["aa", "bb", "cc", "dd", "ee", "xx"], ["Item", "Other"], ["it", "ot", "bx", "by"],
         ["!", "~", "b~"], ["0", "1", "2", "3", "4", "5", "6", "7", "9", "77"], ['"ab"', '"x"', '""', '"abc"', '"s"'], ["{i}", "{i2}"], ["{b}", "{b2}"], ["if", "while", "for"], ["Lpad", "Rpad"], ["a", "b", "c", "d", "e", "f", "g"], ["v", "w", "x", "y", "z", "q", "r", "s", "u"], ["log", "pop", "assert", "exit"], ["block", "func"], ["inner_txn", "inner_group"], ["const", ""], ["not", ""], ["version", ""], ["8", "7"]]
END = ["junk", " junk", "9", ", 9", ")", " )", ":", " + 1", " end", ' "s"', " {i}", "; log({b})", " log({b})"]
START = ["junk ", "int ", "not ", "return ", "0 ", "("]
LINES = ["log({b})", "log({b2})", "junk", "int zz = 5", "return", "end", "break", "exit(7)", "else:", 'assert({i2}, "q")', "jump one", "1: one", "ff", "Fee: 5", "zz: int", "const int ZZ = 9", "inner_txn:", "teal:", "#pragma version 8", "pushint 3", "hh()", "_ = {i2}"]


def tokens(l):
    return re.findall(r'"[^"]*"|\{\w+\}|bytes\[\d+\]|b[-+*/%|&^<>=!~]+(?=[ {\w])|\w+|[-+*/%|&^<>=!~]+|[ ]+|.', l)


def changed(l):
    """the line with one token added, left out, repeated, exchanged or replaced by another of its kind"""
    ind = l[:len(l) - len(l.lstrip())]
    ts = tokens(l.strip())
    j = lambda xs: ind + "".join(xs)
    out = {l + x for x in END} | {ind + x + l.lstrip() for x in START}
    for k in range(len(ts) + 1):
        for a in ADD:
            out.add(j(ts[:k] + [a] + ts[k:]))
            out.add(j(ts[:k] + [" " + a + " "] + ts[k:]))
        if k == len(ts):
            break
        for a in ADD:
            out.add(j(ts[:k] + [a] + ts[k + 1:]))
        out.add(j(ts[:k] + ts[k + 1:]))
        out.add(j(ts[:k] + [ts[k], ts[k]] + ts[k + 1:]))
        out.add(j(ts[:k] + [ts[k], " ", ts[k]] + ts[k + 1:]))
        out.add(j(ts[:k] + [ts[k], ", ", ts[k]] + ts[k + 1:]))
        out.add(j(ts[:k]))
        for m in range(k + 1, len(ts)):
            if ts[m].strip() and ts[k].strip():
                out.add(j(ts[:k] + [ts[m]] + ts[k + 1:m] + [ts[k]] + ts[m + 1:]))
        for s in SWAPS:
            if ts[k] in s:
                for a in s:
                    out.add(j(ts[:k] + [a] + ts[k + 1:]))
    out.discard(l)
    return sorted(x for x in out if canon(x) != canon(l))


def canon(l):
    """the line without what has no meaning: comments, spaces, leading zeros and separators of numbers, the length in the name of a bytes type"""
    out = []
    for t in tokens(l):
        if t == "#" and not out:
            if l.strip().startswith("#pragma"):
                out.append(t)
                continue
            return ""
        if t == "#":
            break
        if t.strip():
            out.append(t)
    r = []
    for t in out:
        if t.isdigit():
            t = str(int(t))
        if t == "uint8":
            t = "int"
        if re.fullmatch(r"bytes\[\d+\]", t):
            t = "bytes"
        if r and r[-1].replace("_", "a").isalnum() and t.replace("_", "a").isalnum():
            r.append(" ")
        r.append(t)
    return "".join(r)


def results(ctx, src):
    """what the accepted partitions compile to: set of (code, messages); None if there is none"""
    ok, rej = compile_all(ctx, src, HT)
    out = set()
    for r, teal in ok:
        it = r.interp
        code = []
        try:
            for st in read(teal):
                if st:
                    code.append(st)
        except TealError:           # only in TEAL the user wrote
            code = list(teal)
        e = it.getattr(r.value[1], "errors")
        msgs = tuple(sorted((showt(it.resolve(m)) for m in e.d.values()), key=str))
        out.add((tuple(code), msgs))
    return out or None


def read(teal):
    """lines -> the statements on each, without comments"""
    from ..teal import encode, decode, lex
    out = []
    for l in teal:
        tab = []
        groups, _ = lex(encode(l, tab))
        out.append(tuple(tuple(decode(x, tab) for x in g) for g in groups if g))
    return out


def base_of(ctx, src):
    rs = results(ctx, src)
    if rs is None:
        raise Violation("a valid program is rejected", [], src_text(src), sub="rejected")
    return rs


def matters(ctx, base, edits, kind):
    """no edit of the program compiles to the same"""
    want = base_of(ctx, base)
    n = 0
    for what, src in edits:
        got = results(ctx, src)
        if got is None:
            continue
        n += 1
        if got == want:
            raise Violation("%s changes nothing in what is compiled" % what, [], "program:\n%s\n\nchanged:\n%s" % (src_text(base), src_text(src)), sub=kind)
    return "%d changed programs, %d accepted" % (len(edits), n)


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def run(ctx):
    ctx.rule("token", "a token added, left out, repeated, exchanged or replaced in an accepted program changes the compiled code or messages, or the program is rejected")
    ctx.rule("line", "so does a line that is added, left out or repeated")
    for pn, base in P.items():
        for i, l in enumerate(base):
            ms = changed(l)
            # of the others, one in sixty (thorough: one in four)
            ts = tokens(l.strip())
            ind = l[:len(l) - len(l.lstrip())]
            always = {ind + "".join(ts[:k + 1] + [" "] + ts[k:]) for k in range(len(ts)) if ts[k].strip()} | {l + x for x in END} | {l[:len(l) - len(l.lstrip())] + x + l.lstrip() for x in START}
            ms = [m for m in ms if m in always or hash_("%s%d%s" % (pn, i, m)) % (4 if ctx.thorough else 60) == 0]
            for k in range(0, len(ms), 24):
                ed = [("`%s` instead of `%s` (line %d)" % (m.strip(), l.strip(), i + 1), base[:i] + [m] + base[i + 1:]) for m in ms[k:k + 24]]
                ctx.ob("token", "%s line %d part %d" % (pn, i + 1, k // 24), lambda base=base, ed=ed: matters(ctx, base, ed, "token"))
            ed = [("leaving out line %d, `%s`," % (i + 1, l.strip()), base[:i] + base[i + 1:]), ("repeating line %d, `%s`," % (i + 1, l.strip()), base[:i + 1] + base[i:])]
            ctx.ob("line", "%s %d" % (pn, i + 1), lambda base=base, ed=ed: matters(ctx, base, ed, "line"))
            ed = [("adding `%s` before line %d" % (x, i + 1), base[:i] + [l[:len(l) - len(l.lstrip())] + x] + base[i:]) for x in LINES]
            ctx.ob("line", "%s before %d" % (pn, i + 1), lambda base=base, ed=ed: matters(ctx, base, ed, "line"))
    ctx.assumptions += ["spaces, comments, leading zeros, the size in the name of a type (uint8, bytes[4]: it is only checked) and user-chosen names of unused definitions have no meaning"]
