"""Static model of the textX grammar file: parses the `.tx` source and interprets its rules
as a PEG.  Used (a) to give abstract expression templates their syntax tree and (b) for the
rule/handler exhaustiveness checks.  textX itself is never run."""
import re


class TxError(Exception):
    pass


class NoParse(Exception):
    pass


class Rule:
    def __init__(self, name, body):
        self.name, self.body = name, body
        self.kind = None     # match / abstract / common


_TOK = re.compile(r"""\s*(?:
    (?P<com>//[^\n]*\n|/\*.*?\*/)|
    (?P<str>'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*")|
    (?P<re>/(?:\\.|[^/\\])+/)|
    (?P<asg>\*=|\+=|\?=|(?<![=])=)|
    (?P<id>[A-Za-z_]\w*)|
    (?P<op>[:;|()\[\],*+?\-!&])
)""", re.X | re.S)


def tokenize(src):
    out, i = [], 0
    src = src.rstrip()
    while i < len(src):
        m = _TOK.match(src, i)
        if not m or m.end() == i:
            if not src[i:].strip():
                break
            raise TxError("grammar token at %r" % src[i:i + 20])
        i = m.end()
        if m.lastgroup == "com":
            continue
        out.append((m.lastgroup, m.group(m.lastgroup)))
    out.append(("eof", ""))
    return out


class GrammarParser:
    def __init__(self, src):
        self.t = tokenize(src)
        self.i = 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, v):
        k, x = self.next()
        if x != v:
            raise TxError("expected %r got %r" % (v, x))

    def rules(self):
        out = {}
        while self.peek()[0] != "eof":
            k, name = self.next()
            if k != "id":
                raise TxError("rule name expected, got %r" % name)
            if self.peek()[1] == "[":
                while self.next()[1] != "]":
                    pass
            self.expect(":")
            out[name] = Rule(name, self.choice())
            self.expect(";")
        for r in out.values():
            r.kind = "common" if has_assign(r.body) else None
        changed = True
        while changed:
            changed = False
            for r in out.values():
                if r.kind is None:
                    refs = refs_of(r.body)
                    ks = [out[x].kind if x in out else "match" for x in refs]
                    if any(k in ("common", "abstract") for k in ks):
                        r.kind = "abstract"
                        changed = True
        for r in out.values():
            if r.kind is None:
                r.kind = "match"
        return out

    def choice(self):
        alts = [self.seq()]
        while self.peek()[1] == "|" and self.peek()[0] == "op":
            self.next()
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("choice", alts)

    def seq(self):
        items = []
        while True:
            k, v = self.peek()
            if k in ("str", "re", "id") or (k == "op" and v in "(!&"):
                items.append(self.term())
            else:
                break
        return items[0] if len(items) == 1 else ("seq", items)

    def rep(self, x):
        k, v = self.peek()
        if k == "op" and v in "*+?":
            self.next()
            sep = self.mods()
            return ("rep", x, v, sep)
        return x

    def mods(self):
        sep = None
        if self.peek() == ("op", "["):
            self.next()
            k, v = self.next()
            if k == "str":
                sep = ("str", unq(v))
            elif k == "re":
                sep = ("re", v[1:-1])
            while self.next()[1] != "]":
                pass
        return sep

    def term(self):
        k, v = self.next()
        if k == "op" and v in "!&":
            return ("pred", v, self.term())
        if k == "op" and v == "(":
            x = self.choice()
            self.expect(")")
            return self.rep(x)
        if k == "str":
            return self.rep(("str", unq(v)))
        if k == "re":
            return self.rep(("re", v[1:-1].replace("\\/", "/")))
        # id: maybe assignment
        if self.peek()[0] == "asg":
            op = self.next()[1]
            k2, v2 = self.peek()
            if k2 == "op" and v2 == "(":
                self.next()
                x = self.choice()
                self.expect(")")
            elif k2 == "op" and v2 == "[":
                self.next()
                x = ("ref", self.next()[1])
                while self.next()[1] != "]":
                    pass
            else:
                self.next()
                x = ("str", unq(v2)) if k2 == "str" else ("re", v2[1:-1].replace("\\/", "/")) if k2 == "re" else ("ref", v2)
            sep = self.mods()
            return ("asg", v, op, x, sep)
        return self.rep(("ref", v))


def unq(s):
    return s[1:-1].replace("\\'", "'").replace('\\"', '"').replace("\\\\", "\\")


def has_assign(b):
    if b[0] == "asg":
        return True
    if b[0] in ("choice", "seq"):
        return any(has_assign(x) for x in b[1])
    if b[0] == "rep":
        return has_assign(b[1])
    return False


def refs_of(b):
    if b[0] == "ref":
        return [b[1]]
    if b[0] in ("choice", "seq"):
        return [r for x in b[1] for r in refs_of(x)]
    if b[0] == "rep":
        return refs_of(b[1])
    if b[0] == "asg":
        return refs_of(b[3])
    return []


BASE = {
    "INT": (r"[-+]?[0-9]+\b", int),
    "STRING": (r'("(\\"|[^"])*")|(\'(\\\'|[^\'])*\')', lambda x: x[1:-1].replace(r"\"", r'"').replace(r"\'", "'")),
    "ID": (r"[^\d\W]\w*\b", str),
    "BOOL": (r"(True|true|False|false|0|1)\b", lambda x: x.lower() in ("true", "1")),
    "FLOAT": (r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?(?<=[\w\.])(?![\w\.])", float),
}


class BlowUp(TxError):
    """the parse of one line takes more steps than any linear parse of it"""


class Node:
    """syntax-tree node of a common rule (one object of the user class)"""

    def __init__(self, rule, span=None):
        self.rule = rule
        self.attrs = {}
        self.parent = None
        self.span = span

    def __repr__(self):
        return "%s(%s)" % (self.rule, ", ".join("%s=%r" % kv for kv in self.attrs.items()))


class Peg:
    def __init__(self, src, ws=" \t", use_regexp_group=True, memo=False):
        self.memo = memo
        self.rules = GrammarParser(src).rules()
        self.root = next(iter(self.rules))
        self.ws = ws
        self.urg = use_regexp_group
        for r in self.rules.values():
            for x in refs_of(r.body):
                if x not in self.rules and x not in BASE:
                    raise TxError("undefined grammar rule %s" % x)

    def parse(self, text, rule=None):
        """-> Node or str (match rule); raises NoParse"""
        self.text = text
        self.depth = 0
        self.steps = 0
        self.cache = {}
        for r in self.eval_ref(rule or self.root, 0):
            v, i = r
            if self.skip(i) == len(text):
                return v
            break       # PEG: the root does not backtrack over EOF
        raise NoParse(text)

    def skip(self, i):
        while i < len(self.text) and self.text[i] in self.ws:
            i += 1
        return i

    # every eval returns [] or [(value, end)] : PEG, at most one result
    def eval_ref(self, name, i):
        if not self.memo:
            return self.eval_rule(name, i)
        k = (name, i)
        if k not in self.cache:
            self.cache[k] = self.eval_rule(name, i)
        return self.cache[k]

    def eval_rule(self, name, i):
        self.steps += 1
        if self.steps > 200000:
            raise BlowUp("grammar blow-up")
        if name in BASE and name not in self.rules:
            pat, conv = BASE[name]
            i = self.skip(i)
            m = re.compile(pat).match(self.text, i)
            return [(conv(m.group()), m.end())] if m else []
        r = self.rules[name]
        self.depth += 1
        if self.depth > 400:
            raise TxError("left recursion or nesting too deep in grammar rule %s" % name)
        try:
            if r.kind == "common":
                n = Node(name)
                e = self.walk(r.body, i, n)
                if e is None:
                    return []
                for k in asg_names(r.body):
                    n.attrs.setdefault(k[0], [] if k[1] in ("*=", "+=") else ("" if k[2] else None))
                n.span = (self.skip(i), e)
                return [(n, e)]
            if r.kind == "abstract":
                x = self.absval(r.body, i)
                return [x] if x is not None else []
            x = self.match(r.body, i)
            return [x] if x is not None else []
        finally:
            self.depth -= 1

    def absval(self, b, i):
        if b[0] == "choice":
            for a in b[1]:
                x = self.absval(a, i)
                if x is not None:
                    return x
            return None
        if b[0] == "ref":
            r = self.eval_ref(b[1], i)
            return r[0] if r else None
        if b[0] == "seq":
            val = None
            for a in b[1]:
                x = self.absval(a, i)
                if x is None:
                    return None
                if isinstance(x[0], Node) and val is None:
                    val = x[0]
                i = x[1]
            return (val, i)
        return self.match(b, i)

    def match(self, b, i):
        """match-rule evaluation -> (string, end)"""
        if b[0] == "str":
            i = self.skip(i)
            return (b[1], i + len(b[1])) if self.text.startswith(b[1], i) else None
        if b[0] == "re":
            i = self.skip(i)
            m = re.compile(b[1], re.M).match(self.text, i)
            return (m.group(), m.end()) if m else None
        if b[0] == "ref":
            r = self.eval_ref(b[1], i)
            return r[0] if r else None
        if b[0] == "choice":
            for a in b[1]:
                x = self.match(a, i)
                if x is not None:
                    return x
            return None
        if b[0] == "seq":
            s = ""
            for a in b[1]:
                x = self.match(a, i)
                if x is None:
                    return None
                s += str(x[0])
                i = x[1]
            return (s, i)
        if b[0] == "pred":
            x = self.match(b[2], i)
            ok = (x is None) if b[1] == "!" else (x is not None)
            return ("", i) if ok else None
        if b[0] == "rep":
            s, n = "", 0
            while True:
                j = i
                if n and b[3] is not None:
                    x = self.match(b[3], j)
                    if x is None:
                        break
                    j = x[1]
                x = self.match(b[1], j)
                if x is None:
                    break
                s += str(x[0])
                if x[1] == i:
                    break
                i = x[1]
                n += 1
                if b[2] == "?":
                    break
            if b[2] == "+" and n == 0:
                return None
            return (s, i)
        raise TxError(b[0])

    def value(self, x, i):
        """value of the right-hand side of an assignment"""
        if x[0] == "re":
            i = self.skip(i)
            m = re.compile(x[1], re.M).match(self.text, i)
            if not m:
                return None
            return (m.group(1) if self.urg and m.re.groups == 1 else m.group(), m.end())
        if x[0] == "ref":
            r = self.eval_ref(x[1], i)
            if not r:
                return None
            v, e = r[0]
            if self.urg and isinstance(v, str) and x[1] in self.rules and self.rules[x[1]].body[0] == "re":
                rx = re.compile(self.rules[x[1]].body[1])
                if rx.groups == 1:
                    m = rx.match(self.text, self.skip(i))
                    v = m.group(1)
            return (v, e)
        if x[0] == "choice":
            for a in x[1]:
                r = self.value(a, i)
                if r is not None:
                    return r
            return None
        return self.match(x, i)

    def walk(self, b, i, n):
        """evaluate a common rule's body, filling n.attrs; -> end or None"""
        k = b[0]
        if k == "asg":
            _, name, op, x, sep = b
            if op == "=":
                r = self.value(x, i)
                if r is None:
                    return None
                n.attrs[name] = r[0]
                if isinstance(r[0], Node):
                    r[0].parent = n
                return r[1]
            if op == "?=":
                r = self.value(x, i)
                n.attrs[name] = r is not None
                return r[1] if r is not None else i
            vals = []
            while True:
                j = i
                if vals and sep is not None:
                    s = self.match(sep, j)
                    if s is None:
                        break
                    j = s[1]
                r = self.value(x, j)
                if r is None:
                    break
                vals.append(r[0])
                if isinstance(r[0], Node):
                    r[0].parent = n
                i = r[1]
            if op == "+=" and not vals:
                return None
            n.attrs[name] = vals
            return i
        if k == "seq":
            for a in b[1]:
                i = self.walk(a, i, n)
                if i is None:
                    return None
            return i
        if k == "choice":
            for a in b[1]:
                saved = dict(n.attrs)
                j = self.walk(a, i, n)
                if j is not None:
                    return j
                n.attrs = saved
            return None
        if k == "rep":
            cnt = 0
            while True:
                j = i
                if cnt and b[3] is not None:
                    s = self.match(b[3], j)
                    if s is None:
                        break
                    j = s[1]
                e = self.walk(b[1], j, n)
                if e is None or e == i:
                    break
                i = e
                cnt += 1
                if b[2] == "?":
                    break
            if b[2] == "+" and not cnt:
                return None
            return i
        if k == "ref":
            r = self.eval_ref(b[1], i)
            return r[0][1] if r else None
        r = self.match(b, i)
        return r[1] if r is not None else None


def asg_names(b):
    if b[0] == "asg":
        return [(b[1], b[2], b[3][0] == "re" or (b[3][0] == "ref" and b[3][1] in ("STRING", "ID")))]
    if b[0] in ("choice", "seq"):
        return [r for x in b[1] for r in asg_names(x)]
    if b[0] == "rep":
        return asg_names(b[1])
    return []
