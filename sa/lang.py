"""Reference semantics of Tealish statements, written from docs/language.rst, independent of
/repo's code: a construct tree renders both to a Tealish template and to a reference TEAL
template (over named slots `$x`)."""


class R(str):
    """a line of reference TEAL that belongs to a line of the source (`src`, from 1)"""
    src = None


def at(g, lines):
    if g.line is None:
        return list(lines)
    out = []
    for l in lines:
        if not isinstance(l, R):
            l = R(l)
            l.src = g.line
        out.append(l)
    return out


class Gen:
    line = None

    def __init__(self):
        self.n = 0
        self.loops = []
        self.scopes = [[]]
        self.funcs = {}
        self.group = False

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)


def nm(n):
    """`name@tag` is written `name` in the source; the tag keeps declarations of the same name in
    different scopes apart in the reference"""
    return n.split("@")[0]


# ---------------------------------------------------------------- expressions
def e_src(e):
    k = e[0]
    if k == "h":
        return "{%s}" % e[1]
    if k == "v":
        return nm(e[1])
    if k == "i":
        return str(e[1])
    if k == "+":
        return "%s + %s" % (e_src(e[1]), e_src(e[2]))
    if k == "call":
        return "%s(%s)" % (nm(e[1]), ", ".join(e_src(a) for a in e[2]))
    if k == "raw":
        return e[1]
    raise KeyError(k)


def e_ref(g, e):
    k = e[0]
    if k == "h":
        return ["%%E {%s}" % e[1]]
    if k == "v":
        return ["load $%s" % e[1]]
    if k == "i":
        return ["pushint %d" % e[1]]
    if k == "+":
        return e_ref(g, e[1]) + e_ref(g, e[2]) + ["+"]
    if k == "call":
        out = []
        for a in e[2]:
            out += e_ref(g, a)
        return out + ["callsub F_%s" % e[1]]
    if k == "raw":
        return list(e[2])
    raise KeyError(k)


# ---------------------------------------------------------------- statements
def ind(ls):
    return ["    " + l for l in ls]


def s_src(s):
    k = s[0]
    if k == "mark":
        return ["assert({mark%s})" % s[1]]
    if k == "assert":
        return ["assert(%s)" % e_src(s[1])]
    if k == "decl":
        return ["%s %s = %s" % (s[1], nm(s[2]), e_src(s[3]))] if s[3] else ["%s %s" % (s[1], nm(s[2]))]
    if k == "set":
        return ["%s = %s" % (", ".join(nm(n) for n in s[1]), e_src(s[2]))]
    if k == "call":
        return [e_src(s)]
    if k == "exit":
        return ["exit(%s)" % e_src(s[1])]
    if k == "jump":
        return ["jump %s" % nm(s[1])]
    if k == "break":
        return ["break"]
    if k == "return":
        return ["return" + (" " + ", ".join(e_src(e) for e in s[1]) if s[1] else "")]
    if k == "if":
        out = []
        for i, (neg, c, b) in enumerate(s[1]):
            out.append("%s %s%s:" % ("elif" if i else "if", "not " if neg else "", e_src(c)))
            out += ind(body_src(b))
        if s[2] is not None:
            out.append("else:")
            out += ind(body_src(s[2]))
        return out + ["end"]
    if k == "while":
        return ["while %s%s:" % ("not " if s[1] else "", e_src(s[2]))] + ind(body_src(s[3])) + ["end"]
    if k == "for":
        return ["for %s in %s:%s:" % (nm(s[1]), e_src(s[2]), e_src(s[3]))] + ind(body_src(s[4])) + ["end"]
    if k == "for_":
        return ["for _ in %s:%s:" % (e_src(s[1]), e_src(s[2]))] + ind(body_src(s[3])) + ["end"]
    if k == "switch":
        return ["switch %s:" % e_src(s[1])] + ind(["%s: %s" % (e_src(o), nm(b)) for o, b in s[2]] + (["else: %s" % nm(s[3])] if s[3] else [])) + ["end"]
    if k == "teal":
        return ["teal:"] + ind(s[1]) + ["end"]
    if k == "inner":
        return ["inner_txn:"] + ind(["%s: %s" % (f, e_src(e)) for f, e in s[1]]) + ["end"]
    if k == "group":
        return ["inner_group:"] + ind(body_src(s[1])) + ["end"]
    if k == "block":
        return ["block %s:" % nm(s[1])] + ind(body_src(s[2])) + ["end"]
    if k == "func":
        # ("func", name, [(arg, type)], [types], body)
        return ["func %s(%s)%s:" % (nm(s[1]), ", ".join("%s: %s" % (nm(a), t) for a, t in s[2]), " " + ", ".join(s[3]) if s[3] else "")] + ind(body_src(s[4])) + ["end"]
    if k == "line":
        return list(s[1])
    raise KeyError(k)


def body_src(b):
    out = []
    for s in b:
        out += s_src(s)
    return out


def s_ref(g, s):
    if s[0] == "line" and len(s[1]) > 1:
        return _s_ref(g, s)         # not known which of the lines
    return at(g, _s_ref(g, s))


def sub_ref(g, b, off=1):
    """reference of a nested statement list that starts `off` lines after the current one; the
    lines before it belong to the current line"""
    keep = g.line
    if keep is not None:
        g.line = keep + off
    out = body_ref(g, b)
    g.line = keep
    return out


def _s_ref(g, s):
    k = s[0]
    if k == "mark":
        return ["%%E {mark%s}" % s[1], "assert"]
    if k == "assert":
        return e_ref(g, s[1]) + ["assert"]
    if k == "decl":
        return e_ref(g, s[3]) + ["store $%s" % s[2]] if s[3] else []
    if k == "set":
        return e_ref(g, s[2]) + ["pop" if n == "_" else "store $%s" % n for n in s[1]]
    if k == "call":
        return e_ref(g, s)
    if k == "exit":
        return e_ref(g, s[1]) + ["return"]
    if k == "jump":
        return ["b B_%s" % s[1]]
    if k == "break":
        return ["b %s" % g.loops[-1]]
    if k == "return":
        out = []
        for e in reversed(s[1]):
            out += e_ref(g, e)
        return out + ["retsub"]
    if k == "if":
        out, end, keep = [], g.fresh("E"), g.line
        for neg, c, b in s[1]:
            nxt = g.fresh("N")
            out += at(g, e_ref(g, c) + ["%s %s" % ("bnz" if neg else "bz", nxt)]) + sub_ref(g, b) + at(g, ["b %s" % end, nxt + ":"])
            if keep is not None:
                g.line += 1 + len(body_src(b))
        if s[2] is not None:
            out += sub_ref(g, s[2])
        g.line = keep
        return out + [end + ":"]
    if k == "while":
        top, end = g.fresh("W"), g.fresh("E")
        g.loops.append(end)
        out = [top + ":"] + e_ref(g, s[2]) + ["%s %s" % ("bnz" if s[1] else "bz", end)] + sub_ref(g, s[3]) + ["b " + top, end + ":"]
        g.loops.pop()
        return out
    if k == "for":
        top, end, v = g.fresh("L"), g.fresh("E"), s[1]
        return (e_ref(g, s[2]) + ["store $" + v, top + ":", "load $" + v] + e_ref(g, s[3]) + ["==", "bnz " + end]
                + sub_ref(g, s[4]) + ["load $" + v, "pushint 1", "+", "store $" + v, "b " + top, end + ":"])
    if k == "for_":
        top, end = g.fresh("L"), g.fresh("E")
        if getattr(g, "ideal_for_", False):
            v = g.fresh("u")
            return (e_ref(g, s[1]) + ["store $" + v, top + ":", "load $" + v] + e_ref(g, s[2]) + ["==", "bnz " + end]
                    + sub_ref(g, s[3]) + ["load $" + v, "pushint 1", "+", "store $" + v, "b " + top, end + ":"])
        # as built: the counter lives on the stack (known finding: it is left there)
        return (e_ref(g, s[1]) + ["dup", top + ":"] + e_ref(g, s[2]) + ["==", "bnz " + end] + sub_ref(g, s[3])
                + ["pushint 1", "+", "dup", "b " + top, end + ":"])
    if k == "switch":
        out, keep = [], g.line
        for i, (o, b) in enumerate(s[2]):
            out += at(g, e_ref(g, s[1]))
            if g.line is not None:
                g.line += 1 + i
            out += at(g, e_ref(g, o))
            if g.line is not None:
                g.line = (g.line, keep)     # comparison and branch: either line
            out += at(g, ["==", "bnz B_" + b])
            g.line = keep
        return out + (["b B_" + s[3]] if s[3] else ["err"])
    if k == "teal":
        return list(s[1])
    if k == "inner" and getattr(g, "dyn_group", False):
        out = ["callsub __begin"]
        out = at(g, out) + fields_ref(g, s)
        return out + ["callsub __submit"]
    if k == "group" and getattr(g, "dyn_group", False):
        return ["callsub __group"] + sub_ref(g, s[1]) + ["itxn_submit", "pushint 0", "store $group_"]
    if k == "inner":
        out = ["itxn_next" if getattr(g, "in_group", 0) > 1 else "itxn_begin"]
        if getattr(g, "in_group", 0):
            g.in_group += 1
        out = at(g, out) + fields_ref(g, s)
        return out + ([] if getattr(g, "in_group", 0) else ["itxn_submit"])
    if k == "group":
        g.in_group = 1
        out = sub_ref(g, s[1])
        g.in_group = 0
        return out + ["itxn_submit"]
    if k == "block":
        return ["B_%s:" % s[1]] + sub_ref(g, s[2])
    if k == "func":
        return ["F_%s:" % s[1]] + ["store $%s" % a for a, t in reversed(s[2])] + sub_ref(g, s[4])
    if k == "line":
        return list(s[2])
    raise KeyError(k)


def fields_ref(g, s):
    out, keep = [], g.line
    for f, e in s[1]:
        if keep is not None:
            g.line += 1
        out += at(g, e_ref(g, e) + ["itxn_field " + f.split("[")[0]])
    g.line = keep
    return out


def body_ref(g, b):
    out, keep = [], g.line
    for s in b:
        out += s_ref(g, s)
        if g.line is not None:
            g.line += len(s_src(s))
    g.line = keep
    return out


def program(body, **opts):
    """-> (tealish text lines, reference TEAL lines); with line=N the reference lines carry the
    number of the source line they belong to, the first one being N"""
    g = Gen()
    for k, v in opts.items():
        setattr(g, k, v)
    return body_src(body), body_ref(g, body)


# an inner transaction joins the group that is being built when it is executed, if any
GROUP_MACRO = ["__group:", "load $group_", "!", "assert", "pushint 1", "store $group_", "retsub",
               "__begin:", "load $group_", "switch __begin_0 __begin_1 __begin_2", "err",
               "__begin_0:", "itxn_begin", "retsub", "__begin_1:", "pushint 2", "store $group_", "itxn_begin", "retsub", "__begin_2:", "itxn_next", "retsub",
               "__submit:", "load $group_", "bnz __submit_1", "itxn_submit", "__submit_1:", "retsub"]


# ---------------------------------------------------------------- contexts
EXIT = ("exit", ("i", 1))


def contexts(S, which=None):
    """statement list S placed at every kind of program position"""
    m1, m2 = ("mark", "A"), ("mark", "Z")
    c = {
        "main": S + [m2, EXIT],
        "func": [("call", "f", []), m2, EXIT, ("func", "f", [], [], S + [m1, ("return", [])])],
        "block": [("jump", "b"), ("block", "b", S + [m2, EXIT])],
        "nested-block": [("jump", "b"), ("block", "b", [m1, ("jump", "c"), ("block", "c", S + [m2, EXIT])])],
        "block-func": [("jump", "b"), ("block", "b", [("call", "f", []), m2, EXIT, ("func", "f", [], [], S + [m1, ("return", [])])])],
        "if": [("if", [(False, ("h", "cnd"), S + [m1])], None), m2, EXIT],
        "elif": [("if", [(False, ("h", "cnd"), [m1]), (True, ("h", "cnd2"), S)], [("mark", "B")]), m2, EXIT],
        "else": [("if", [(True, ("h", "cnd"), [m1])], S), m2, EXIT],
        "while": [("while", False, ("h", "cnd"), S + [m1]), m2, EXIT],
        "for": [("for", "qq", ("i", 0), ("i", 7), S + [m1]), m2, EXIT],
        "inner_group": [("group", S + [m1]), m2, EXIT],
        "deep": [("call", "fd", []), m2, EXIT, ("func", "fd", [], [], [
            ("while", True, ("h", "dc1"), [("if", [(False, ("h", "dc2"), [("mark", "C")]), (True, ("h", "dc3"), [
                ("for", "qd", ("i", 3), ("i", 8), [("if", [(True, ("h", "dc4"), [("mark", "D")])], [
                    ("while", False, ("h", "dc5"), [("if", [(False, ("h", "dc6"), S + [m1])], None), ("mark", "E")])])])])], None)]),
            ("return", [])])],
    }
    return c if which is None else {k: c[k] for k in which}
