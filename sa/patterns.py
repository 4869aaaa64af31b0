"""Ambiguity of regular expressions.  A backtracking matcher takes time exponential in the length of
the text iff the automaton of the pattern can read one word on a cycle in two ways (EDA) and the match
can still fail afterwards.  Decided on the position automaton, with the number of distinct ways between
positions kept so that nested repetition of the same text counts too."""
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc

ALPHA = frozenset(range(128)) | {0x100}      # 0x100 stands for all other characters
CATS = {
    "CATEGORY_DIGIT": lambda c: 48 <= c <= 57, "CATEGORY_WORD": lambda c: c == 95 or c < 128 and chr(c).isalnum() or c == 0x100,
    "CATEGORY_SPACE": lambda c: c in (9, 10, 11, 12, 13, 32),
}


def category(name):
    name = str(name)
    if name.startswith("CATEGORY_NOT_"):
        f = CATS["CATEGORY_" + name[13:]]
        return frozenset(c for c in ALPHA if not f(c))
    f = CATS[name]
    return frozenset(c for c in ALPHA if f(c))


def charset(items):
    neg, out = False, set()
    for op, av in items:
        n = str(op)
        if n == "NEGATE":
            neg = True
        elif n == "LITERAL":
            out.add(min(av, 0x100))
        elif n == "RANGE":
            out |= {min(c, 0x100) for c in range(av[0], min(av[1], 0x101) + 1)}
        elif n == "CATEGORY":
            out |= category(av)
        else:
            raise ValueError(n)
    return frozenset(ALPHA - out) if neg else frozenset(out)


class Auto:
    """positions, and ways between them: follow[p] = {q: 1 or 2} (2 = more than one way)"""

    def __init__(self, pattern, flags=0):
        self.sets = []
        self.flags = flags
        self.follow = {}
        t = sp.parse(pattern, flags)
        first, last, null = self.seq(list(t))
        self.first, self.last, self.null = first, last, null

    def pos(self, s, fixed=False):
        self.sets.append(s)
        p = len(self.sets) - 1
        self.follow[p] = {}
        return p

    def link(self, last, first):
        for p, a in last.items():
            for q, b in first.items():
                self.follow[p][q] = min(2, self.follow[p].get(q, 0) + a * b)

    @staticmethod
    def plus(a, b, k=1):
        out = dict(a)
        for p, n in b.items():
            out[p] = min(2, out.get(p, 0) + n * k)
        return out

    def seq(self, items):
        first, last, null = {}, {}, 1
        for it in items:
            f, l, n = self.item(it)
            self.link(last, f)
            first = self.plus(first, f, null) if null else first
            last = self.plus(l, last, n) if n else l
            null = min(2, null * n)
        return first, last, null

    def item(self, it):
        op, av = it
        n = str(op)
        if n in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            if n == "LITERAL":
                s = frozenset({min(av, 0x100)})
            elif n == "NOT_LITERAL":
                s = ALPHA - {min(av, 0x100)}
            elif n == "ANY":
                s = ALPHA - {10}
            else:
                s = charset(av)
            p = self.pos(frozenset(s))
            return {p: 1}, {p: 1}, 0
        if n == "SUBPATTERN":
            return self.seq(list(av[-1]))
        if n == "ATOMIC_GROUP":
            return self.seq(list(av))
        if n == "BRANCH":
            first, last, null = {}, {}, 0
            for b in av[1]:
                f, l, k = self.seq(list(b))
                first, last, null = self.plus(first, f), self.plus(last, l), min(2, null + k)
            return first, last, null
        if n == "AT" and str(av) in ("AT_END", "AT_END_STRING") and not self.flags & sc.SRE_FLAG_MULTILINE:
            p = self.pos(frozenset())       # no text is read after it
            return {p: 1}, {p: 1}, 0
        if n in ("AT", "ASSERT", "ASSERT_NOT"):
            # a place the match can fail at; no text is read
            return {}, {}, 1
        if n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, body = av
            if hi is sc.MAXREPEAT or hi > 8:
                parts = [self.seq(list(body)) for _ in range(min(lo, 2))]
                f, l, k = self.seq(list(body))
                self.link(l, f)
                # the engine does not repeat an empty turn
                out = (f, l, 1)
                for f0, l0, k0 in reversed(parts[:-1] if parts else []):
                    self.link(l0, out[0])
                    out = (self.plus(f0, out[0], k0) if k0 else f0, self.plus(out[1], l0, out[2]) if out[2] else out[1], k0 * out[2])
                if lo:
                    out = (out[0], out[1], min(k, 1) if lo < 2 else out[2])
                return out
            out = ({}, {}, 1)
            for i in range(hi):
                f, l, k = self.seq(list(body))
                if i >= lo:
                    k = 1
                self.link(out[1], f)
                out = (self.plus(out[0], f, out[2]) if out[2] else out[0], self.plus(l, out[1], k) if k else l, min(1, out[2] * k))
            return out
        if n == "GROUPREF":
            return {}, {}, 1
        raise ValueError("regular expression item " + n)

    def exponential(self):
        """a pair of positions witnessing two readings of one word on a cycle, or None"""
        n = len(self.sets)
        reach = {p: self.closure(p) for p in range(n)}
        live = [p for p in range(n) if any(p == f or p in reach[f] for f in self.first)]
        for p in live:
            for q, k in self.follow[p].items():
                if k > 1 and (p == q or p in reach[q]):
                    return (p, q)
        # product automaton: (p,p) -> (a,b), a != b -> (p,p)
        succ = {}

        def step(u):
            if u not in succ:
                a, b = u
                succ[u] = {(x, y) for x in self.follow[a] for y in self.follow[b] if self.sets[x] & self.sets[y]}
            return succ[u]
        for p in live:
            if p not in reach[p]:
                continue
            seen, todo = {(p, p)}, [(p, p)]
            while todo:
                for v in step(todo.pop()):
                    if v not in seen and p in reach[v[0]] and p in reach[v[1]]:
                        seen.add(v)
                        todo.append(v)
            mixed = [u for u in seen if u[0] != u[1]]
            # from a mixed pair back to (p, p)
            ok, back = set(), {}
            for u in seen:
                for v in step(u):
                    if v in seen:
                        back.setdefault(v, []).append(u)
            todo = [(p, p)]
            while todo:
                for v in back.get(todo.pop(), ()):
                    if v not in ok:
                        ok.add(v)
                        todo.append(v)
            for u in mixed:
                if u in ok:
                    return u
        return None

    def closure(self, p):
        seen, todo = set(), [p]
        while todo:
            for q in self.follow[todo.pop()]:
                if q not in seen and self.sets[q]:
                    seen.add(q)
                    todo.append(q)
        return seen

    def text(self, p):
        s = self.sets[p]
        c = sorted(x for x in s if 32 <= x < 127)
        return chr((set(c) & set(range(97, 123)) and min(x for x in c if 97 <= x < 123)) or c[0]) if c else "?"


def can_fail_after(pattern, flags, p):
    """the match can still fail after position p: something other than the end of the pattern follows"""
    t = list(sp.parse(pattern, flags))

    def anchored(items):
        for op, av in items:
            n = str(op)
            if n in ("AT", "ASSERT", "ASSERT_NOT"):
                return True
            if n == "SUBPATTERN" and anchored(list(av[-1])):
                return True
            if n == "BRANCH" and any(anchored(list(b)) for b in av[1]):
                return True
            if n in ("MAX_REPEAT", "MIN_REPEAT") and anchored(list(av[2])):
                return True
        return False
    return anchored(t)


def exponential(pattern, flags=0, full=False):
    """-> None, or a text showing the ambiguity of the pattern"""
    a = Auto(pattern, flags)
    w = a.exponential()
    if w is None:
        return None
    p = w[0]
    if not full and p in a.last and not can_fail_after(pattern, flags, p):
        return None         # the match succeeds as soon as it is there
    return a.text(p)
