"""Path-partitioned abstract interpretation of the Python AST of /repo/tealish.

Nothing of /repo is imported or executed.  Each run follows one partition of the
abstract state space (a prefix of branch outcomes); `explore` enumerates the
partitions depth-first.  Branch conditions over unknown values are refined in three
finite-height domains only: intervals over linear integer forms, constant/prefix facts
over strings, and candidate-class sets over objects.  No solver is involved.
"""
import ast
import builtins as _pb
import os
import time
import re as _re

from .values import *
from .values import _lin_parts

MAXSTEPS = 60000
EXPLORE_SECONDS = 20      # CPU time one exploration may take before its obligation counts as undecided


class AnalysisError(Exception):
    """The analysis itself cannot continue (vanished anchor, unsupported construct)."""


class Infeasible(Exception):
    pass


class Cut(Exception):
    """Partition deliberately not followed further (end of the abstract script)."""


class Stuck(Exception):
    """A loop iterates without changing any state the loop depends on."""


class Raised(Exception):
    def __init__(self, exc, node=None, mod=None):
        self.exc, self.node, self.mod = exc, node, mod


class Repo:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        pk = os.path.join(root, "tealish")
        self.files = {}
        for dp, dn, fn in os.walk(pk):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    src = open(p, encoding="utf-8").read()
                    self.files[rel] = src
                    tree = ast.parse(src, p)
                    for n in ast.walk(tree):
                        for c in ast.iter_child_nodes(n):
                            c._parent = n
                    self.modules[name] = ModuleVal(name, tree, rel)
        self.classes = {}
        self.toplevel = {}
        for m in self.modules.values():
            self.toplevel[m.name] = self._index(m.tree)

    def _index(self, tree):
        idx = {}
        pos = 0

        def walk(stmts, outer=None):
            nonlocal pos
            for s in stmts:
                pos += 1
                o = outer or s
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    idx.setdefault(s.name, []).append((pos, s, None))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        idx.setdefault((a.asname or a.name).split(".")[0], []).append((pos, s, a))
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        idx.setdefault(a.asname or a.name, []).append((pos, s, a))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                idx.setdefault(n.id, []).append((pos, o, None))
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        idx.setdefault(s.target.id, []).append((pos, o, None))
                elif isinstance(s, ast.If):
                    t = s.test
                    if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                        # names for annotations only; keep as fallback
                        sub = Repo._index(self, ast.Module(body=s.body, type_ignores=[]))
                        for k, v in sub.items():
                            idx.setdefault("?" + k, []).extend(v)
                    else:
                        walk(s.body, o)
                        walk(s.orelse, o)
                elif isinstance(s, ast.Try):
                    walk(s.body, o)
                elif isinstance(s, ast.With):
                    walk(s.body, o)
        walk(tree.body)
        return idx

    def digest(self):
        import hashlib
        h = hashlib.sha256()
        for k in sorted(self.files):
            h.update(k.encode())
            h.update(self.files[k].encode())
        return h.hexdigest()[:16]


class Env:
    __slots__ = ("vars", "parent", "module", "globals_", "nonlocals", "locals_", "func", "self_")

    def __init__(self, module, parent=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = ()
        self.nonlocals = ()
        self.locals_ = ()
        self.func = None
        self.self_ = None


_BUILTINS = set(dir(_pb))
_local_cache = {}


def local_names(fnode):
    r = _local_cache.get(fnode)
    if r is not None:
        return r
    loc, glo, non = set(), set(), set()
    gen = [False]

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and not top:
            if not isinstance(n, ast.Lambda):
                loc.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    loc.add(c.target.id)
            return
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    for s in body:
        walk(s)
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    r = (loc - glo - non, glo, non, gen[0])
    _local_cache[fnode] = r
    return r


class PathResult:
    def __init__(self, outcome, value, interp):
        self.outcome = outcome      # return / raise / cut / stuck / budget
        self.value = value
        self.events = interp.events
        self.interp = interp
        self.decisions = list(interp.log)

    def exc_name(self):
        if self.outcome != "raise":
            return None
        return cls_name(self.value.cls)

    def __repr__(self):
        return "<%s %r>" % (self.outcome, self.value)


def cls_name(c):
    return c.name


SENT_RE = _re.compile("")


def has_yield(s):
    r = getattr(s, "_has_yield", None)
    if r is None:
        def walk(n):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return False
            return any(walk(c) for c in ast.iter_child_nodes(n))
        r = s._has_yield = walk(s)
    return r


def memoised(f):
    g = FuncVal(f.node, f.module, f.env, f.cls, f.name)
    g.__dict__.update(f.__dict__)
    g.memo = []
    return g


class Interp:
    def __init__(self, repo, prefix=(), stubs=None):
        self.repo = repo
        self.prefix = prefix
        self.taken = []            # (choice, nchoices)
        self.log = []              # human readable decisions
        self.facts = {}
        self.bounds = {}           # form -> [lo, hi, set(neq)]
        self.strbind = {}
        self.events = []
        self.stubs = stubs or {}
        self.modenv = {}
        self.clsattrs = {}
        self.steps = 0
        self.maxsteps = MAXSTEPS
        self.maxiter = 300
        self.depth = 0
        self.evaluating = set()
        self.subclassed = set()
        self.covered = set()
        self.fresh_n = 0
        self.stack = []
        self.unknown_calls = []
        self.gwrites = []
        self.user = {}
        self.sent = {}
        self.cur = None
        self.warnings = []
        self.reverse_sets = False   # iterate sets in the other order

    # ---------------------------------------------------------------- choice
    def choose(self, n, label=""):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.taken.append((c, n))
        if len(self.taken) > 400:
            raise AnalysisError("too many branch decisions on one path: %s" % label)
        return c

    def fork(self, key, label=None):
        """boolean decision memoised by key"""
        if key in self.facts:
            return self.facts[key]
        c = self.choose(2, repr(key)) == 0
        self.facts[key] = c
        self.log.append((label or key, c))
        return c

    def fresh(self, kind="obj", name="v"):
        self.fresh_n += 1
        return Sym(kind, "%s%d" % (name, self.fresh_n)) if kind != "hole" else Sym("hole", "%s%d" % (name, self.fresh_n), "text")

    def event(self, *a):
        self.events.append(a)

    # ----------------------------------------------------------- exceptions
    def pyraise(self, name, msg=""):
        e = AObj(ExtVal("builtins." + name))
        e.value = (msg,)
        raise Raised(e, self.cur, None)

    def class_issub(self, c, other):
        if c is other:
            return True
        if isinstance(c, ClassVal):
            for k in c.mro():
                if k is other:
                    return True
                if isinstance(k, ExtVal) and isinstance(other, ExtVal) and self._ext_issub(k, other):
                    return True
            if isinstance(other, ExtVal) and other.path == "builtins.object":
                return True
            return False
        if isinstance(c, ExtVal) and isinstance(other, ExtVal):
            return self._ext_issub(c, other)
        return False

    def _ext_issub(self, a, b):
        if a.name == "NamedTuple" and b.path in ("builtins.tuple", "builtins.object"):
            return True
        if a.name in ("IntEnum", "IntFlag") and b.path == "builtins.int" or a.name == "StrEnum" and b.path == "builtins.str":
            return True
        if a.name in ("IntEnum", "StrEnum", "IntFlag", "Flag") and b.name == "Enum":
            return True
        pa = getattr(_pb, a.name, None) if a.path.startswith("builtins.") else None
        pb = getattr(_pb, b.name, None) if b.path.startswith("builtins.") else None
        if isinstance(pa, type) and isinstance(pb, type):
            return issubclass(pa, pb)
        if isinstance(pb, type) and pb in (Exception, BaseException, object):
            return True
        return a is b

    # -------------------------------------------------------------- integers
    def _bnd(self, v):
        c, d = _lin_parts(v)
        items = sorted(d.items(), key=lambda kv: repr(kv[0]))
        sgn = 1
        if items[0][1] < 0:
            sgn = -1
        form = tuple((t, k * sgn) for t, k in items)
        return c, sgn, form

    def _default_bound(self, form):
        lo, hi = None, None
        # sum of default ranges: 'int' symbols are naturals unless marked signed
        l = 0
        for t, k in form:
            r = self.int_range(t)
            if k > 0:
                l = None if l is None or r[0] is None else l + k * r[0]
            else:
                l = None if l is None or r[1] is None else l + k * r[1]
        h = 0
        for t, k in form:
            r = self.int_range(t)
            if k > 0:
                h = None if h is None or r[1] is None else h + k * r[1]
            else:
                h = None if h is None or r[0] is None else h + k * r[0]
        return [l, h, set()]

    def int_range(self, t):
        b = self.bounds.get(((t, 1),))
        if b:
            return (b[0], b[1])
        if t.kind == "int":
            return (t.args[1] if len(t.args) > 1 else 0, t.args[2] if len(t.args) > 2 else None)
        if t.kind == "intop" and t.args and t.args[0] == "len":
            return (0, None)
        if t.kind == "intop" and t.args[0] == "bit_length":
            l, h, _ = self.bound(t.args[1])
            return (0, None if h is None or l is None else max(abs(l), abs(h)).bit_length())
        if t.kind == "intop" and t.args[0] == "FloorDiv" and isinstance(t.args[2], int) and t.args[2] > 0:
            l, h, _ = self.bound(t.args[1])
            return (None if l is None else l // t.args[2], None if h is None else h // t.args[2])
        if t.kind == "intop" and t.args[0] in ("max", "min") and len(t.args) == 3:
            (l1, h1, _), (l2, h2, _) = self.bound(t.args[1]), self.bound(t.args[2])
            mx = t.args[0] == "max"
            some = lambda x, y, f: y if x is None else x if y is None else f(x, y)
            both = lambda x, y, f: None if x is None or y is None else f(x, y)
            return (some(l1, l2, max), both(h1, h2, max)) if mx else (both(l1, l2, min), some(h1, h2, min))
        if t.kind == "intop" and t.args[0] == "Mod" and isinstance(t.args[2], int) and t.args[2] > 0:
            return (0, t.args[2] - 1)
        return (None, None)

    def bound(self, v):
        """-> (lo, hi, neq) of v"""
        v = self.resolve(v)
        if isinstance(v, (int, bool)):
            return (int(v), int(v), set())
        c, s, form = self._bnd(v)
        b = self.bounds.get(form)
        d = self._default_bound(form)
        if b is None:
            b = d
        else:
            lo = b[0] if d[0] is None or (b[0] is not None and b[0] >= d[0]) else d[0]
            hi = b[1] if d[1] is None or (b[1] is not None and b[1] <= d[1]) else d[1]
            b = [lo, hi, b[2]]
        lo, hi, ne = b
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            ne = {-x for x in ne}
        return (None if lo is None else lo + c, None if hi is None else hi + c, {x + c for x in ne})

    def _refine(self, v, lo=None, hi=None, ne=None):
        c, s, form = self._bnd(v)
        b = self.bounds.get(form)
        if b is None:
            b = self._default_bound(form)
        b = [b[0], b[1], set(b[2])]
        if s > 0:
            l = None if lo is None else lo - c
            h = None if hi is None else hi - c
            n = None if ne is None else ne - c
        else:
            l = None if hi is None else -(hi - c)
            h = None if lo is None else -(lo - c)
            n = None if ne is None else -(ne - c)
        if l is not None and (b[0] is None or l > b[0]):
            b[0] = l
        if h is not None and (b[1] is None or h < b[1]):
            b[1] = h
        if n is not None:
            b[2].add(n)
        while b[0] is not None and b[0] in b[2]:
            b[0] += 1
        while b[1] is not None and b[1] in b[2]:
            b[1] -= 1
        self.bounds[form] = b

    def resolve(self, v):
        if isinstance(v, Sym):
            if v.kind in ("hole", "strop") and v in self.strbind:
                return self.strbind[v]
            if v.kind in INTKINDS and self.bounds:
                c, s, form = self._bnd(v)
                b = self.bounds.get(form)
                if b and b[0] is not None and b[0] == b[1]:
                    return s * b[0] + c
                if v.kind == "lin":
                    c0, d = _lin_parts(v)
                    ch = False
                    nc, nd = c0, {}
                    for t, k in d.items():
                        bb = self.bounds.get(((t, 1),))
                        if bb and bb[0] is not None and bb[0] == bb[1]:
                            nc += k * bb[0]
                            ch = True
                        else:
                            nd[t] = k
                    if ch:
                        return mklin(nc, nd)
        return v

    def int_cmp(self, op, a, b):
        """op in < <= > >= == != over ints/int syms -> bool (forking)"""
        d = self.resolve(lin_add(a, b, -1))
        if isinstance(d, (int, bool)):
            return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]
        ri = self.rep_int(d)
        if ri is not None:
            return {"<": ri < 0, "<=": ri <= 0, ">": ri > 0, ">=": ri >= 0, "==": ri == 0, "!=": ri != 0}[op]
        lo, hi, ne = self.bound(d)
        if op in ("==", "!="):
            if (lo is not None and lo > 0) or (hi is not None and hi < 0) or 0 in ne:
                return op == "!="
            if lo == 0 and hi == 0:
                return op == "=="
            c = self.choose(2, "%r %s %r" % (a, op, b)) == 0
            self.log.append(("%r %s %r" % (a, op, b), c))
            if (op == "==") == c:
                self._refine(d, 0, 0)
            else:
                self._refine(d, ne=0)
            return c
        t = {"<": (None, -1, 0, None), "<=": (None, 0, 1, None), ">": (1, None, None, 0), ">=": (0, None, None, -1)}[op]
        tl, th, fl, fh = t
        if th is not None:
            if hi is not None and hi <= th:
                return True
            if lo is not None and lo > th:
                return False
        else:
            if lo is not None and lo >= tl:
                return True
            if hi is not None and hi < tl:
                return False
        c = self.choose(2, "%r %s %r" % (a, op, b)) == 0
        self.log.append(("%r %s %r" % (a, op, b), c))
        if c:
            self._refine(d, tl, th)
        else:
            self._refine(d, fl, fh)
        return c

    # --------------------------------------------------------------- strings
    REP = ("expr", "ident", "atom", "Upper", "Cap", "digits", "digit1", "hex", "rep", "note")

    def rep_int(self, v):
        """value of a linear form over lengths of representative holes, else None"""
        v = self.resolve(v)
        if isinstance(v, int):
            return v
        if not is_intsym(v):
            return None
        c, d = _lin_parts(v)
        for t, k in d.items():
            if t.kind == "intop" and t.args[0] == "len" and isinstance(t.args[1], Sym) and t.args[1].kind == "hole" and t.args[1].args[1] in self.REP:
                c += k * len(self.sentinel(t.args[1]))
            else:
                return None
        return c

    def rep_str(self, v):
        """representative of a template made only of representative holes, else None"""
        v = self.rtmpl(v)
        for p in pieces(v):
            if isinstance(p, Sym) and not (p.kind == "hole" and p.args[1] in self.REP):
                return None
        return self.concretise(v)

    def rtmpl(self, v):
        """resolve bound holes inside a template"""
        v = self.resolve(v)
        if isinstance(v, Sym) and v.kind == "tmpl":
            return tmpl(*[self.resolve(p) if isinstance(p, Sym) else p for p in v.args])
        return v

    def sentinel(self, h):
        s = self.sent.get(h)
        if s is None:
            n = len(self.sent)
            if isinstance(h, Sym) and h.kind == "hole":
                lang = h.args[1]
            elif is_intsym(h):
                lang = "digits"
            else:
                lang = "text"
            body = "".join("zyxwvutsrq"[int(ch)] for ch in "%02d" % n)
            if lang == "Upper":
                s = "QJ%sK" % body.upper()
            elif lang == "Cap":
                s = "Qj%sk" % body
            elif lang == "digits":
                s = "9%02d93" % n
            elif lang == "digit1":
                s = "7"
            elif lang == "hex":
                s = "ab%02dcd" % n
            else:
                s = "qj%sk" % body
            self.sent[h] = s
        return s

    def concretise(self, v):
        """template -> (representative string, {sentinel: hole})"""
        v = self.rtmpl(v)
        out, m = [], {}
        for p in pieces(v):
            if isinstance(p, str):
                out.append(p)
            else:
                s = self.sentinel(p)
                m[s] = p
                out.append(s)
        return "".join(out), m

    def abstract(self, s, m):
        """inverse of concretise on a result string"""
        if not isinstance(s, str) or not m:
            return s
        pat = "|".join(_re.escape(k) for k in sorted(m, key=len, reverse=True))
        out, i = [], 0
        for mm in _re.finditer(pat, s):
            out.append(s[i:mm.start()])
            out.append(m[mm.group()])
            i = mm.end()
        out.append(s[i:])
        return tmpl(*out)

    def _first_text_piece(self, v):
        ps = pieces(v)
        return ps

    def str_pred(self, key, fn, v, arg=None):
        """predicate over a symbolic string. Decided by representative unless a 'text'
        hole (an arbitrary string) could matter, then forked with facts."""
        v = self.rtmpl(v)
        if isinstance(v, str):
            return fn(v)
        if any(isinstance(p, Sym) and p.kind == "strop" for p in pieces(v)):
            return self.fork((key, v, arg))
        if any(isinstance(p, Sym) and p.kind == "hole" and p.args[1] in ("text", "line") for p in pieces(v)):
            return self.text_pred(key, fn, v, arg)
        s, m = self.concretise(v)
        return fn(s)

    def text_pred(self, key, fn, v, arg):
        ps = pieces(v)
        if key == "startswith" and isinstance(arg, str):
            if isinstance(ps[0], str):
                lead = ps[0]
                if lead.startswith(arg):
                    return True
                if not arg.startswith(lead):
                    return False
            return self.line_startswith(v, arg)
        if key == "in" and isinstance(arg, str):
            if any(isinstance(p, str) and arg in p for p in ps):
                return True
        return self.fork((key, v, arg))

    def line_startswith(self, v, arg):
        for (k, vv, a), val in list(self.facts.items()) if False else []:
            pass
        # prefix facts
        for f, val in self.facts.items():
            if f[0] == "startswith" and f[1] is v:
                if val and f[2].startswith(arg):
                    return True
                if val and not arg.startswith(f[2]):
                    return False
                if not val and arg.startswith(f[2]):
                    return False
            if f[0] == "streq" and f[1] is v and val:
                return f[2].startswith(arg)
        return self.fork(("startswith", v, arg))

    def unequal(self, pa, pb):
        """templates that differ in length or in a constant next to their common pieces, whatever
        the holes are"""
        pa, pb = list(pa), list(pb)
        for end in (0, -1):
            while pa and pb:
                x, y = pa[end], pb[end]
                if x is y or x == y:
                    pa.pop(end)
                    pb.pop(end)
                elif isinstance(x, str) and isinstance(y, str):
                    if end == 0:
                        c = len(os.path.commonprefix([x, y]))
                        x, y = x[c:], y[c:]
                    else:
                        c = len(os.path.commonprefix([x[::-1], y[::-1]]))
                        x, y = x[:len(x) - c], y[:len(y) - c]
                    if x and y:
                        return True
                    pa[end], pb[end] = x, y
                    if not x:
                        pa.pop(end)
                    if not y:
                        pb.pop(end)
                    if not c:
                        break
                else:
                    break
        if not pa or not pb:
            return any(isinstance(p, str) and p for p in pa + pb)
        return False

    def str_eq(self, a, b):
        a, b = self.rtmpl(a), self.rtmpl(b)
        if a is b or (isinstance(a, str) and isinstance(b, str)):
            return a == b
        if isinstance(a, str):
            a, b = b, a
        # a symbolic
        pa, pb = pieces(a), pieces(b)
        # same shape?
        atoms = lambda ps: all(isinstance(p, str) or (p.kind == "hole" and p.args[1] in ("atom", "digits", "Upper", "ident", "Cap")) or is_intsym(p) for p in ps)
        if not isinstance(b, str):
            d = self.unequal(pa, pb)
            if d:
                return False
            if atoms(pa) and atoms(pb):
                # distinct atoms denote distinct strings; compare representatives
                sa, _ = self.concretise(a)
                sb, _ = self.concretise(b)
                if any(is_intsym(p) or p.args[1] == "digits" for p in pa + pb if isinstance(p, Sym)):
                    if len(pa) == len(pb) and all((x == y) if isinstance(x, str) or isinstance(y, str) else True for x, y in zip(pa, pb)):
                        return self.fork(("symeq", a, b))
                    return False
                return sa == sb
            return self.fork(("symeq", a, b))
        # b concrete
        if isinstance(pa[0], str) and not (b.startswith(pa[0])):
            return False
        if isinstance(pa[-1], str) and not (b.endswith(pa[-1])):
            return False
        if len(pa) == 1 or True:
            for f, val in self.facts.items():
                if f[0] == "startswith" and f[1] is a:
                    if val and not b.startswith(f[2]):
                        return False
                    if not val and b.startswith(f[2]):
                        return False
                if f[0] == "streq" and f[1] is a and val:
                    return f[2] == b
        if all(isinstance(p, str) or p.kind == "hole" and p.args[1] in ("atom", "expr") for p in pa):
            return False
        if len(pa) > 1 and any(isinstance(p, Sym) and p.kind == "hole" and p.args[1] in ("ident", "Upper", "Cap", "expr") for p in pa):
            # a representative name is distinct from every constant in the source
            return False
        if len(pa) == 1 and isinstance(a, Sym) and a.kind == "hole":
            lang = a.args[1]
            if lang == "digits" and not b.isdigit():
                return False
            if lang in ("ident", "expr", "Upper", "Cap") and (b == "" or not _re.match(r"^[A-Za-z_]\w*$", b)):
                if lang != "expr":
                    return False
                if b == "":
                    return False
            if lang in ("Upper", "Cap") and not b[:1].isupper():
                return False
            if lang == "ident" and not b[:1].islower():
                return False
            if lang == "rep":
                return False
        r = self.fork(("streq", a, b))
        if r and isinstance(a, Sym) and a.kind in ("hole", "strop"):
            self.strbind[a] = b
        return r

    # ------------------------------------------------------------- truthiness
    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, Sym):
            if v.kind in INTKINDS:
                return self.int_cmp("!=", v, 0)
            if v.kind in STRKINDS:
                ps = pieces(v)
                if any(isinstance(p, str) and p for p in ps):
                    return True
                if any(isinstance(p, Sym) and (is_intsym(p) or (p.kind == "hole" and p.args[1] not in ("text", "line"))) for p in ps):
                    return True
                return not self.str_eq(v, "")
            if v.kind == "match":
                return True
            if v.kind == "boolop":
                return self.fork(("bool", v))
            if v.kind in ("opaque", "obj", "attr", "call", "item"):
                if ("isnone", v) in self.facts and self.facts[("isnone", v)]:
                    return False
            return self.fork(("truth", v))
        if isinstance(v, (AList, ASet)):
            return bool(v.items)
        if isinstance(v, ADict):
            return bool(v.d)
        if isinstance(v, AObj):
            if v.hook is not None:
                return True
            if self._intmix(v):
                return bool(v.value)
            if isinstance(v.cls, ClassVal) and self.nt_fields(v.cls) is not None:
                return bool(self.nt_fields(v.cls))
            if v.cls is not None and isinstance(v.cls, ClassVal):
                f = self.find_member(v.cls, "__bool__")
                if f is not None:
                    return self.truth(self.call(self.getattr(v, "__bool__"), []))
                f = self.find_member(v.cls, "__len__")
                if f is not None:
                    return self.truth(self.call(self.getattr(v, "__len__"), []))
                if isinstance(v.value, str) and any(isinstance(k, ExtVal) and k.name == "str" for k in v.cls.mro()):
                    return bool(v.value)
            return True
        if isinstance(v, (ClassVal, FuncVal, BoundVal, ExtVal, PyFunc, ModuleVal, BuiltinMethod, AIter, ACtx)):
            return True
        return bool(v)

    # --------------------------------------------------------------- equality
    def eq(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        if isinstance(a, AObj) and isinstance(a.value, str) and is_str(b) and self._strmix(a):
            a = a.value
        if isinstance(b, AObj) and isinstance(b.value, str) and is_str(a) and self._strmix(b):
            b = b.value
        if is_str(a) and is_str(b):
            return self.str_eq(a, b)
        num = lambda x: (isinstance(x, (int, float))) or is_intsym(x)
        if num(a) and num(b):
            if isinstance(a, float) or isinstance(b, float):
                return a == b
            return self.int_cmp("==", a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, AList) and isinstance(b, AList):
            return len(a.items) == len(b.items) and all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, ADict) and isinstance(b, ADict):
            return set(a.d) == set(b.d) and all(self.eq(a.d[k], b.d[k]) for k in a.d)
        if isinstance(a, ASet) and isinstance(b, ASet):
            return len(a.items) == len(b.items) and all(self.contains(b, x) for x in a.items)
        # class comparison with open class
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.kind == "typeof" and isinstance(y, (ClassVal, ExtVal)):
                o = x.args[0]
                return self.refine_exact(o, y)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, AObj) and isinstance(x.cls, ClassVal) and x.hook is None:
                f = self.find_member(x.cls, "__eq__")
                if f is not None:
                    r = self.call(self.getattr(x, "__eq__"), [y])
                    if r is NotImplemented or isinstance(r, ExtVal) and r.name == "NotImplemented":
                        continue
                    return self.truth(r)
                if self.nt_fields(x.cls) and (isinstance(y, tuple) or isinstance(y, AObj) and self.nt_fields(y.cls)):
                    return self.eq(tuple(self.nt_items(x)), y if isinstance(y, tuple) else tuple(self.nt_items(y)))
                fs = self.dataclass_fields(x.cls)
                if fs is not None and isinstance(y, AObj) and y.cls is x.cls:
                    return all(self.eq(x.attrs.get(n), y.attrs.get(n)) for n, _, _ in fs)
                if isinstance(x.value, (int, float)) and self.is_enum(x.cls) and isinstance(y, (int, float)) and self._intmix(x):
                    return x.value == y
        if isinstance(a, Sym) and not (is_str(a) or is_intsym(a)) or isinstance(b, Sym) and not (is_str(b) or is_intsym(b)):
            if a is None or b is None:
                s = a if b is None else b
                return self.is_none(s)
            return self.fork(("eq", a, b) if id(a) < id(b) else ("eq", b, a))
        if (a is None) != (b is None):
            return False
        if isinstance(a, (Cell, Sym)) or isinstance(b, (Cell, Sym)):
            return False
        try:
            return a == b
        except Exception:
            return False

    def _strmix(self, o):
        return isinstance(o.cls, ClassVal) and any(isinstance(k, ExtVal) and k.name in ("str", "StrEnum") for k in o.cls.mro())

    def _intmix(self, o):
        return isinstance(o, AObj) and isinstance(o.cls, ClassVal) and isinstance(o.value, int) and any(isinstance(k, ExtVal) and k.name in ("IntEnum", "IntFlag", "int") for k in o.cls.mro())

    def by_value(self, k):
        """objects of this key compare by value, not by identity"""
        return isinstance(k, AObj) and isinstance(k.cls, ClassVal) and k.hook is None and (
            self.find_member(k.cls, "__eq__") is not None or bool(self.nt_fields(k.cls)) or self.dataclass_fields(k.cls) is not None)

    def is_none(self, v):
        v = self.resolve(v)
        if v is None:
            return True
        if isinstance(v, Sym) and v.kind in ("opaque", "obj", "attr", "call", "item"):
            return self.fork(("isnone", v))
        return False

    def contains(self, c, x):
        c = self.resolve(c)
        if is_str(c):
            if isinstance(c, AObj):
                c = c.value
            x = self.rtmpl(x)
            if isinstance(x, str):
                return self.str_pred("in", lambda s: x in s, c, x)
            if isinstance(c, str):
                return self.fork(("in", c, x))
            s, m = self.concretise(c)
            t, _ = self.concretise(x)
            return t in s
        if isinstance(c, (AList, ASet)):
            return any(self.eq(x, y) for y in list(c.items))
        if isinstance(c, tuple):
            return any(self.eq(x, y) for y in c)
        if isinstance(c, ADict):
            return self.dict_key(c, x) is not _MISS
        if isinstance(c, AObj) and isinstance(c.cls, ClassVal) and self.find_member(c.cls, "__contains__") is not None:
            return self.truth(self.call(self.getattr(c, "__contains__"), [x]))
        if isinstance(c, range):
            return x in c
        if isinstance(c, AIter) or isinstance(c, AObj) and isinstance(c.cls, ClassVal) and c.hook is None and (
                self.nt_fields(c.cls) or self.find_member(c.cls, "__iter__") or self.find_member(c.cls, "__getitem__")):
            return any(self.eq(y, x) for y in self.iter_live(c))
        if isinstance(c, bytes) and isinstance(x, (bytes, int)):
            return x in c
        if isinstance(c, ClassVal):
            return self.contains(AList(self.iterate(c)), x)
        if c is None:
            self.pyraise("TypeError", "argument of type 'NoneType' is not iterable")
        return self.fork(("in", c, x))

    def hashable(self, k):
        if isinstance(k, (AList, ADict, ASet)):
            self.pyraise("TypeError", "unhashable type")
        return k

    def dict_key(self, d, k):
        k = self.rtmpl(k)
        self.hashable(k)
        try:
            if k in d.d:
                return k
        except TypeError:
            pass
        if isinstance(k, AObj) and self._strmix(k) and k.value in d.d:
            return k.value
        if isinstance(k, tuple) or isinstance(k, Sym) or self.by_value(k) or any(isinstance(q, (Sym, tuple)) for q in d.d) or (isinstance(k, str) and any(isinstance(q, AObj) for q in d.d)):
            for q in list(d.d):
                if q is not k and self.eq(q, k):
                    return q
        return _MISS

    # ------------------------------------------------------------- isinstance
    def refine_exact(self, o, cls):
        if o.cands is None:
            return o.cls is cls
        if cls not in o.cands:
            return False
        if len(o.cands) == 1:
            return True
        c = self.choose(2, "type(%r) is %r" % (o, cls)) == 0
        self.log.append(("type(%r) is %s" % (o, cls_name(cls)), c))
        o.cands = [cls] if c else [k for k in o.cands if k is not cls]
        return c

    def isinstance(self, v, cls):
        v = self.resolve(v)
        if isinstance(cls, (tuple,)):
            cs = list(cls)
        elif isinstance(cls, AList):
            cs = cls.items
        else:
            cs = [cls]
        flat = []
        for c in cs:
            if isinstance(c, tuple):
                flat += list(c)
            elif isinstance(c, AList):
                flat += c.items
            elif isinstance(c, Sym) and c.kind == "union":
                flat += list(c.args)
            else:
                flat.append(c)
        cs = flat
        if isinstance(v, AObj):
            if v.cands is not None:
                yes = [k for k in v.cands if any(self.class_issub(k, c) for c in cs)]
                no = [k for k in v.cands if k not in yes]
                if not yes:
                    return False
                if not no:
                    return True
                c = self.choose(2, "isinstance(%r)" % v) == 0
                self.log.append(("isinstance(%r, %s)" % (v, "|".join(cls_name(x) for x in cs)), c))
                v.cands = yes if c else no
                return c
            return any(self.class_issub(v.cls, c) for c in cs)
        names = [c.name for c in cs if isinstance(c, ExtVal)]
        if "object" in names:
            return True
        t = self.pytype(v)
        if t is not None:
            if t == "bool" and "int" in names:
                return True
            if t in names:
                return True
            if t in ("list", "tuple", "str") and ("Sequence" in names or "Iterable" in names):
                return True
            return False
        if isinstance(v, Sym):
            return self.fork(("isinstance", v, tuple(cls_name(c) if hasattr(c, "name") else repr(c) for c in cs)))
        return False

    def pytype(self, v):
        if v is None:
            return "NoneType"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int) or is_intsym(v):
            return "int"
        if is_str(v):
            return "str"
        if isinstance(v, bytes):
            return "bytes"
        if isinstance(v, float):
            return "float"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, AList):
            return "list"
        if isinstance(v, ADict):
            return "dict"
        if isinstance(v, ASet):
            return "set"
        if isinstance(v, AIter):
            return "generator"
        if isinstance(v, (ClassVal,)):
            return "type"
        if isinstance(v, (FuncVal, BoundVal, PyFunc)):
            return "function"
        return None

    # ---------------------------------------------------------- module lookup
    def module(self, name):
        return self.repo.modules.get(name)

    def modattr(self, mod, name, default=None):
        env = self.modenv.setdefault(mod.name, {})
        if name in env:
            return env[name]
        idx = self.repo.toplevel[mod.name]
        ents = idx.get(name) or idx.get("?" + name)
        if not ents:
            sub = self.repo.modules.get(mod.name + "." + name)
            if sub is not None:
                return sub
            if name == "__name__":
                return mod.name
            if name == "__file__":
                return mod.path
            return _MISS
        pos, st, alias = ents[-1]
        if isinstance(st, ast.FunctionDef):
            v = FuncVal(st, mod, None)
            env[name] = v
            if st.decorator_list:
                v = self.decorate(st, v, Env(mod))
                env[name] = v
                if not isinstance(v, FuncVal):
                    e = Env(mod)
                    e.vars = env
                    self.run_mutators(mod, name, e)
            return v
        if isinstance(st, ast.ClassDef):
            v = self.get_class(mod, st)
            env[name] = v
            if st.decorator_list:
                v = env[name] = self.decorate_class(st, v, Env(mod))
            e = Env(mod)
            e.vars = env
            self.run_mutators(mod, name, e)
            return v
        if isinstance(st, ast.Import):
            full = alias.name if alias.asname else alias.name.split(".")[0]
            v = self.repo.modules.get(full) or ExtVal(full)
            env[name] = v
            return v
        if isinstance(st, ast.ImportFrom):
            v = self.import_from(mod, st, alias)
            env[name] = v
            return v
        key = (mod.name, name)
        st_hook = self.stubs.get("global:%s.%s" % (mod.name, name))
        if st_hook is not None:
            v = st_hook(self)
            if v is not NotImplemented:
                env[name] = v
                return v
        if key in self.evaluating:
            raise AnalysisError("cyclic module initialisation of %s.%s" % key)
        self.evaluating.add(key)
        try:
            e = Env(mod)
            e.vars = env
            # run every plain assignment of that name in order (last wins)
            ran = []
            for pos, st, alias in ents:
                if isinstance(st, (ast.Assign, ast.AnnAssign, ast.If, ast.Try, ast.With)) and st not in ran:
                    ran.append(st)
                    self.exec(st, e)
            self.run_mutators(mod, name, e)
        finally:
            self.evaluating.discard(key)
        return env.get(name, _MISS)

    def run_mutators(self, mod, name, env):
        """top-level statements that mutate a module-level container after its creation"""
        for st in mod.tree.body:
            hit = False
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.decorator_list:
                if st.name != name and any(self.registers(mod, d, name) for d in st.decorator_list):
                    ents = self.repo.toplevel[mod.name].get(st.name)
                    if ents and ents[-1][1] is st or isinstance(st, ast.ClassDef):
                        self.modattr(mod, st.name)
                    else:    # a registered function whose name is reused (`def _`)
                        self.decorate(st, FuncVal(st, mod, None), Env(mod))
            elif isinstance(st, ast.Assign) and all(isinstance(t, (ast.Subscript, ast.Attribute)) for t in st.targets):
                hit = any(isinstance(t.value, ast.Name) and t.value.id == name for t in st.targets)
            elif isinstance(st, ast.AugAssign):
                hit = isinstance(st.target, ast.Name) and st.target.id == name
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
                hit = isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == name
            elif isinstance(st, ast.For):
                for n in ast.walk(st):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
                        hit = True
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                        hit = True
            if hit:
                self.exec(st, env)

    def registers(self, mod, d, name):
        """decorator `d` is a function of this module that refers to the global `name`, or a method of that object"""
        f = d.func if isinstance(d, ast.Call) else d
        if isinstance(f, ast.Attribute):
            return isinstance(f.value, ast.Name) and f.value.id == name
        if not isinstance(f, ast.Name):
            return False
        for st in mod.tree.body:
            if isinstance(st, ast.FunctionDef) and st.name == f.id:
                return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(st))
        return False

    def import_from(self, mod, st, alias):
        if st.level:
            parts = mod.name.split(".")
            is_pkg = mod.path.endswith("__init__.py")
            base = parts if is_pkg else parts[:-1]
            if st.level > 1:
                base = base[: -(st.level - 1)]
            full = ".".join(base + ([st.module] if st.module else []))
        else:
            full = st.module
        m = self.repo.modules.get(full)
        if m is not None:
            sub = self.repo.modules.get(full + "." + alias.name)
            v = self.modattr(m, alias.name)
            if v is _MISS and sub is not None:
                return sub
            if v is _MISS:
                self.pyraise("ImportError", alias.name)
            return v
        return self.ext(full + "." + alias.name)

    def ext(self, path):
        from . import models
        v = models.ext_constant(path)
        return ExtVal(path) if v is None else v

    def get_class(self, mod, node, env=None):
        key = (mod.name, node.name, id(node))
        local = env is not None and env.func is not None
        c = None if local else self.repo.classes.get(key)
        if c is None:
            bases = []
            for b in node.bases:
                v = self.eval(b, env or Env(mod))
                bases.append(v)
            c = ClassVal(node.name, mod, node, bases, env)
            if local:
                self.fresh_n += 1
                c.qual += "#%d" % self.fresh_n
            else:
                self.repo.classes[key] = c
        return c

    def decorate_class(self, node, c, env):
        v = c
        for d in reversed(node.decorator_list):
            dv = self.eval(d, env)
            if isinstance(dv, ExtVal):
                continue
            if isinstance(dv, (FuncVal, BoundVal, PyFunc, _Partial, ClassVal)) or isinstance(dv, AObj) and isinstance(dv.cls, ClassVal):
                v = self.call(dv, [v])
        return v

    # ------------------------------------------------------------ class attrs
    def find_member(self, cls, name, after=None):
        """-> (owner, ast statement) following the MRO"""
        mro = cls.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if isinstance(k, ClassVal):
                if (k.qual, name) in self.clsattrs:
                    return (k, None)
                if name in k.members:
                    return (k, k.members[name])
        return None

    def class_attr(self, owner, name, st):
        key = (owner.qual, name)
        if key in self.clsattrs:
            return self.clsattrs[key]
        if isinstance(st, (ast.FunctionDef,)):
            v = FuncVal(st, owner.module, owner.env, owner)
            v = self.decorate(st, v, Env(owner.module, owner.env))
        elif isinstance(st, ast.ClassDef):
            v = self.get_class(owner.module, st)
        else:
            env = Env(owner.module, owner.env)
            # names of the class body are visible
            env.vars = _ClassNS(self, owner)
            v = self.eval(st.value, env)
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Tuple):
                tg = [t.id for t in st.targets[0].elts]
                v = list(self.iterate(v))[tg.index(name)]
            if self.is_enum(owner) and not name.startswith("_"):
                o = AObj(owner, {"name": name, "value": v}, name=name)
                o.value = v
                v = o
            elif isinstance(v, AObj) and isinstance(v.cls, ClassVal) and self.find_member(v.cls, "__set_name__"):
                self.call(self.getattr(v, "__set_name__"), [owner, name])
        self.clsattrs[key] = v
        if isinstance(v, (AList, ADict, ASet)) and "__init_subclass__" in owner.members:
            self.init_subclasses(owner)
        return v

    def init_subclasses(self, owner):
        """run the __init_subclass__ hook of a class for its subclasses (a registry is read)"""
        if owner.qual in self.subclassed:
            return
        self.subclassed.add(owner.qual)
        for m in self.repo.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.ClassDef) and st.bases:
                    c = self.get_class(m, st)
                    if c is not owner and owner in c.mro():
                        hook = self.find_member(c, "__init_subclass__", after=c)
                        if hook is not None:
                            kw = {k.arg: self.eval(k.value, Env(m)) for k in st.keywords if k.arg != "metaclass"}
                            f = self.class_attr(hook[0], "__init_subclass__", hook[1])
                            self.call(f.func if isinstance(f, _Deco) else f, [c], kw)

    def is_enum(self, c):
        return any(isinstance(k, ExtVal) and k.name in ("Enum", "IntEnum", "StrEnum", "Flag") for k in c.mro())

    def decorate(self, st, v, env):
        for d in reversed(st.decorator_list):
            n = d.id if isinstance(d, ast.Name) else None
            if n in ("property", "classmethod", "staticmethod"):
                v = _Deco(n, v)
                continue
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                continue
            try:
                dv = self.eval(d, env)
            except Raised:
                continue
            if isinstance(dv, ExtVal) and dv.path in ("functools.lru_cache", "functools.cache"):
                v = memoised(v)
                continue
            if isinstance(dv, ExtVal):
                st2 = self.stubs.get("deco:" + dv.path)
                if st2 is not None:
                    v = st2(self, v)
                elif dv.name == "cached_property":
                    v = _Deco("cached_property", v)
                elif dv.path in ("contextlib.contextmanager", "functools.singledispatch"):
                    v = self.call(dv, [v])
                elif self.stubs.get("ext:" + dv.path) is not None:
                    v = self.call(dv, [v])
                continue
            if isinstance(dv, (FuncVal, BoundVal, PyFunc, ClassVal, _Partial)) or isinstance(dv, AObj) and isinstance(dv.cls, ClassVal) and self.find_member(dv.cls, "__call__"):
                v = self.call(dv, [v])
        return v

    # ---------------------------------------------------------------- getattr
    def getattr(self, o, name, default=_pb.NotImplemented):
        if default is not NotImplemented:
            try:
                r = self._getattr(o, name)
            except Raised as ex:
                if cls_name(ex.exc.cls) == "AttributeError":
                    return default
                raise
        else:
            r = self._getattr(o, name)
        if r is _MISS:
            if default is not NotImplemented:
                return default
            self.pyraise("AttributeError", "%s has no attribute %s" % (self.describe(o), name))
        return r

    def describe(self, o):
        if isinstance(o, AObj):
            return cls_name(o.cls) if o.cls else "object"
        return repr(o)

    def _getattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, AObj):
            if name == "__class__":
                return self.typeof(o)
            if name == "__dict__":
                r = ADict()
                r.d = o.attrs
                return r
            if name in o.attrs:
                v = o.attrs[name]
                return v
            if o.hook is not None:
                v = o.hook(self, o, name)
                if v is not NotImplemented:
                    return v
            if isinstance(o.cls, ClassVal):
                m = self.find_member(o.cls, name)
                if m is not None:
                    return self.bind(self.class_attr(m[0], name, m[1]), o, o.cls)
                if self.nt_fields(o.cls) and name in ("_replace", "_asdict", "_fields", "index", "count"):
                    if name == "_fields":
                        return tuple(self.nt_fields(o.cls))
                    if name == "_asdict":
                        return PyFunc(lambda it, a, k: ADict({n: o.attrs[n] for n in it.nt_fields(o.cls)}), name)
                    if name == "_replace":
                        return PyFunc(lambda it, a, k: it.instantiate(o.cls, [], {**{n: o.attrs[n] for n in it.nt_fields(o.cls)}, **k}), name)
                    return BuiltinMethod(tuple(self.nt_items(o)), name)
                ga = self.find_member(o.cls, "__getattr__")
                if ga is not None:
                    return self.call(self.bind(self.class_attr(ga[0], "__getattr__", ga[1]), o, o.cls), [name])
                if name == "args" and o.value is not None:
                    return tuple(o.value)
                if name in ("__init__", "__repr__", "__str__", "__eq__", "__hash__"):
                    return PyFunc(lambda it, a, k: None, name)
            elif isinstance(o.cls, ExtVal):
                if name == "args":
                    return tuple(o.value or ())
                if name in ("__cause__", "__context__", "__traceback__"):
                    return None
                if o.cls.path == "types.SimpleNamespace":
                    return _MISS
                return Sym("opaque", "%s.%s#%d" % (o.cls.path, name, o.id))
            return _MISS
        if isinstance(o, ClassVal):
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro())
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__annotations__":
                return self.type_hints(o, own=True)
            if name == "__doc__":
                return ast.get_docstring(o.node)
            if name == "__subclasses__":
                return BuiltinMethod(o, name)
            if name == "__members__" and self.is_enum(o):
                return ADict({n: self.class_attr(o, n, s) for n, s in o.members.items() if not isinstance(s, ast.FunctionDef)})
            if name == "_fields" and self.nt_fields(o):
                return tuple(self.nt_fields(o))
            if name == "_make" and self.nt_fields(o):
                return PyFunc(lambda it, a, k: it.instantiate(o, it.iterate(a[0]), {}), name)
            m = self.find_member(o, name)
            if m is not None:
                return self.bind(self.class_attr(m[0], name, m[1]), None, o)
            if name == "__init__":
                return PyFunc(lambda it, a, k: None, name)
            return _MISS
        if isinstance(o, ModuleVal):
            return self.modattr(o, name)
        if isinstance(o, ExtVal):
            if o.path == "typing" and name == "TYPE_CHECKING":
                return False
            if o.path.startswith("builtins.") and name in ("__name__",):
                return o.name
            if o.path.startswith("builtins.") and isinstance(getattr(_pb, o.name, None), type) and not hasattr(getattr(_pb, o.name), name):
                return _MISS
            if o.path.startswith("typing."):
                import typing
                if hasattr(typing, o.path[7:]) and not hasattr(getattr(typing, o.path[7:]), name):
                    return _MISS
            return self.ext(o.path + "." + name)
        if isinstance(o, FuncVal):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return None
            return o.attrs.get(name, _MISS)
        if isinstance(o, BoundVal):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            if name == "__name__":
                return o.func.name
            return _MISS
        if isinstance(o, _SuperVal):
            m = self.find_member(o.start, name, after=o.after)
            if m is None:
                if name in ("__init__", "__new__", "__init_subclass__"):
                    ob = o.obj

                    def ext_init(it, a, k, ob=ob):
                        if isinstance(ob, AObj):
                            ob.value = tuple(a)
                        return None
                    return PyFunc(ext_init, name)
                return _MISS
            v = self.class_attr(m[0], name, m[1])
            if isinstance(o.obj, ClassVal):
                if name == "__init_subclass__" and isinstance(v, FuncVal):
                    return BoundVal(v, o.obj)
                return self.bind(v, None, o.obj)
            return self.bind(v, o.obj, o.start)
        if o is None:
            return _MISS
        if isinstance(o, AIter):
            return BuiltinMethod(o, name) if name in ("__next__", "__iter__", "send", "throw", "close") else _MISS
        if isinstance(o, slice):
            return getattr(o, name) if name in ("start", "stop", "step") else _MISS
        if is_str(o) or isinstance(o, (AList, ADict, ASet, tuple, bytes)):
            t = {"list": list, "str": str, "dict": dict, "set": set, "tuple": tuple, "bytes": bytes}[self.pytype(o)]
            if hasattr(t, name) or isinstance(o, ADict) and name in ("move_to_end", "most_common", "elements"):
                return BuiltinMethod(o, name)
            if isinstance(o, AList) and o.kind in ("gen", "iter", "deque") and name in ("__next__", "send", "appendleft", "popleft", "extendleft"):
                return BuiltinMethod(o, name)
            return _MISS
        if isinstance(o, (int, float)) or is_intsym(o):
            if name in ("real", "numerator") and not isinstance(o, float):
                return o
            return BuiltinMethod(o, name) if hasattr(int, name) else _MISS
        if isinstance(o, Sym):
            if o.kind == "match":
                mo = self.user.get("matchobjs", {}).get(o)
                if name == "re":
                    return Sym("regex", o.args[0])
                if name == "string":
                    return o.args[1]
                if name in ("lastgroup", "lastindex", "pos", "endpos"):
                    if mo is None:
                        raise AnalysisError("match.%s of free text" % name)
                    return getattr(mo, name)
                return BuiltinMethod(o, name)
            if o.kind == "regex":
                if name in ("groups", "groupindex", "flags") and isinstance(o.args[0], str):
                    v = getattr(_re.compile(o.args[0]), name)
                    return ADict(dict(v)) if name == "groupindex" else v
                return o.args[0] if name == "pattern" else BuiltinMethod(o, name)
            if o.kind == "typeof":
                if name == "__name__":
                    return Sym("strop", "clsname", o.args[0])
                cs = o.args[0].cands
                if cs:
                    return self.getattr(self.choose_class(o.args[0]), name)
            if self.facts.get(("isnone", o)):
                return _MISS
            return Sym("opaque", "%r.%s" % (o, name))
        if isinstance(o, PyFunc):
            return _MISS
        return _MISS

    def choose_class(self, o):
        while len(o.cands) > 1:
            self.refine_exact(o, o.cands[0])
        return o.cands[0]

    def typeof(self, o):
        if isinstance(o, AObj):
            if o.cands is not None and len(o.cands) > 1:
                return Sym("typeof", o)
            if o.cands:
                return o.cands[0]
            return o.cls
        t = self.pytype(o)
        if t:
            return ExtVal("builtins." + t)
        return Sym("opaque", "type(%r)" % (o,))

    def bind(self, v, inst, cls):
        if isinstance(v, _Deco):
            if v.kind == "staticmethod":
                return v.func
            if v.kind == "classmethod":
                return BoundVal(v.func, cls)
            if v.kind == "property":
                if inst is None:
                    return v
                return self.call(v.func, [inst])
            if v.kind == "cached_property":
                if inst is None:
                    return v
                inst.attrs[v.name] = self.call(v.func, [inst])
                return inst.attrs[v.name]
        if isinstance(v, AObj) and isinstance(v.cls, ClassVal) and self.find_member(v.cls, "__get__"):
            return self.call(self.getattr(v, "__get__"), [inst, cls])
        if isinstance(v, FuncVal) and inst is not None and not isinstance(v.node, ast.Lambda):
            return BoundVal(v, inst)
        if isinstance(v, FuncVal) and inst is not None and v.cls is not None:
            return BoundVal(v, inst)
        return v

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, AObj):
            if isinstance(o.cls, ClassVal):
                m = self.find_member(o.cls, name)
                if m is not None and isinstance(m[1], ast.FunctionDef):
                    # property setter?
                    for st in m[0].node.body:
                        if isinstance(st, ast.FunctionDef) and st.name == name and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in st.decorator_list):
                            self.call(FuncVal(st, m[0].module, m[0].env, m[0]), [o, v])
                            return
                elif m is not None:
                    d = self.class_attr(m[0], name, m[1])
                    if isinstance(d, _Deco) and d.kind == "property":
                        if getattr(d, "fset", None) is None:
                            self.pyraise("AttributeError", "can't set attribute")
                        self.call(d.fset, [o, v])
                        return
                    if isinstance(d, AObj) and isinstance(d.cls, ClassVal) and self.find_member(d.cls, "__set__"):
                        self.call(self.getattr(d, "__set__"), [o, v])
                        return
            o.attrs[name] = v
            self.on_setattr(o, name, v)
            return
        if isinstance(o, ClassVal):
            self.clsattrs[(o.qual, name)] = v
            self.gwrites.append(("class", o.qual, name))
            return
        if isinstance(o, ModuleVal):
            self.modenv.setdefault(o.name, {})[name] = v
            self.gwrites.append(("module", o.name, name))
            return
        if isinstance(o, FuncVal):
            o.attrs[name] = v
            return
        if o is None:
            self.pyraise("AttributeError", "'NoneType' object has no attribute %s" % name)
        if isinstance(o, (str, bytes, int, float, tuple, AList, ADict, ASet)) or is_strsym(o) or is_intsym(o):
            self.pyraise("AttributeError", "'%s' object has no attribute %s" % (self.pytype(o) or "int", name))
        self.event("opaque-setattr", o, name, v)

    def on_setattr(self, o, name, v):
        pass

    def hasattr(self, o, name):
        if isinstance(o, AObj) and o.hook is not None:
            v = o.hook(self, o, ("?", name))
            if v is not NotImplemented:
                return v
        try:
            return self._getattr(o, name) is not _MISS
        except Raised as r:
            if cls_name(r.exc.cls) == "AttributeError":
                return False
            raise

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BoundVal):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncVal):
            if f.memo is not None:
                k = list(args) + [x for p in sorted(kw.items()) for x in p]
                if any(isinstance(x, (AList, ADict, ASet)) for x in k):
                    self.pyraise("TypeError", "unhashable type")
                for k2, v in f.memo:
                    if len(k2) == len(k) and all(x is y or self.eq(x, y) is True for x, y in zip(k, k2)):
                        return v
                v = self.call_func(f, list(args), kw)
                f.memo.append((k, v))
                return v
            if f.cm:
                g = self.call_func(f, list(args), kw)
                return ACtx(g) if isinstance(g, AIter) else g
            return self.call_func(f, list(args), kw)
        if isinstance(f, PyFunc):
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, ExtVal):
            return self.call_ext(f, list(args), kw)
        if isinstance(f, BuiltinMethod):
            return self.call_method(f.obj, f.name, list(args), kw)
        if isinstance(f, _Deco):
            return self.call(f.func, args, kw)
        if isinstance(f, _Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.func, list(f.args) + list(args), k2)
        if isinstance(f, AObj) and getattr(f, "callable", False):
            return self.call(f.hook(self, f, "__call__"), args, kw)
        if isinstance(f, AObj) and isinstance(f.cls, ClassVal) and self.find_member(f.cls, "__call__") is not None:
            return self.call(self.getattr(f, "__call__"), args, kw)
        if isinstance(f, Sym):
            if f.kind == "typeof":
                return self.instantiate(self.choose_class(f.args[0]), list(args), kw)
            self.event("opaque-call", f, tuple(map(_h, args)))
            return Sym("opaque", "%r(%s)" % (f, ", ".join(repr(_h(a)) for a in args)))
        if f is None:
            self.pyraise("TypeError", "'NoneType' object is not callable")
        self.pyraise("TypeError", "%r is not callable" % (f,))

    def instantiate(self, c, args, kw):
        st = self.stubs.get("new:" + c.name)
        if st is not None:
            r = st(self, args, kw)
            if r is not NotImplemented:
                return r
        if self.is_enum(c):
            v = args[0]
            for n, s in c.members.items():
                if isinstance(s, ast.FunctionDef):
                    continue
                m = self.class_attr(c, n, s)
                if self.eq(m.value, v):
                    return m
            self.pyraise("ValueError", "not a valid %s" % c.name)
        new = self.find_member(c, "__new__")
        o = AObj(c)
        ini = self.find_member(c, "__init__")
        if ini is not None:
            self.call(self.bind(self.class_attr(ini[0], "__init__", ini[1]), o, c), args, kw)
            if c.name == "StructType":
                self.user.setdefault("structs", {})[o.attrs.get("name")] = o
        elif self.dataclass_fields(c) is not None:
            fs = self.dataclass_fields(c)
            a = list(args)
            kw = dict(kw)
            for n, s, owner in fs:
                if a:
                    o.attrs[n] = a.pop(0)
                elif n in kw:
                    o.attrs[n] = kw.pop(n)
                elif s.value is not None:
                    v = self.eval(s.value, Env(owner.module))
                    if isinstance(v, tuple) and len(v) == 2 and v[0] == "__default_factory__":
                        v = self.call(v[1], [])
                    o.attrs[n] = v
                else:
                    self.pyraise("TypeError", "missing argument %s" % n)
            pi = self.find_member(c, "__post_init__")
            if pi is not None:
                self.call(self.getattr(o, "__post_init__"), [])
        else:
            o.value = tuple(args)
            names = self.nt_fields(c)
            if names:
                kw = dict(kw)
                for i, n in enumerate(names):
                    if i < len(args):
                        o.attrs[n] = args[i]
                    elif n in kw:
                        o.attrs[n] = kw.pop(n)
                    else:
                        m = self.find_member(c, n)
                        if m is None:
                            self.pyraise("TypeError", "missing argument %s" % n)
                        o.attrs[n] = self.class_attr(m[0], n, m[1])
                if kw or len(args) > len(names):
                    self.pyraise("TypeError", "unexpected arguments")
        return o

    def nt_fields(self, c):
        """names of the fields of a named tuple class, else None"""
        if not isinstance(c, ClassVal):
            return None
        for k in c.mro():
            if isinstance(k, ClassVal) and any(isinstance(b, ExtVal) and b.name == "NamedTuple" for b in k.bases):
                return [s.target.id for s in k.node.body if isinstance(s, ast.AnnAssign)]
        return None

    def nt_items(self, o):
        return [o.attrs[n] for n in self.nt_fields(o.cls)]

    def dataclass_fields(self, c):
        is_dc = any(isinstance(k, ClassVal) and any(("dataclass" in ast.dump(d)) for d in k.node.decorator_list) for k in c.mro())
        if not is_dc:
            return None
        out = {}
        for k in reversed(c.mro()):
            if isinstance(k, ClassVal):
                for s in k.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.dump(s.annotation):
                        out[s.target.id] = (s.target.id, s, k)
        return list(out.values())

    def bind_args(self, f, args, kw):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if f.defaults is None:
            denv = Env(f.module, f.env)
            f_def = [self.eval(d, denv) for d in a.defaults]
            f_kwd = [self.eval(d, denv) if d is not None else _MISS for d in a.kw_defaults]
            # defaults are evaluated once per function object: keep identity (mutable default!)
            f.defaults = (f_def, f_kwd)
            dkey = ("defaults", f.qual, f.module.name, getattr(f.node, "lineno", 0))
            saved = self.user.get(dkey)
            if saved is not None:
                f.defaults = saved
            else:
                self.user[dkey] = f.defaults
        dfl, kwd = f.defaults
        for i, n in enumerate(pos):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                j = i - (len(pos) - len(dfl))
                if j >= 0:
                    env[n] = dfl[j]
                else:
                    self.pyraise("TypeError", "%s() missing argument '%s'" % (f.qual, n))
        if len(args) > len(pos):
            if a.vararg:
                env[a.vararg.arg] = tuple(args[len(pos):])
            else:
                self.pyraise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.qual, len(pos), len(args)))
        elif a.vararg:
            env[a.vararg.arg] = ()
        for x, d in zip(a.kwonlyargs, kwd):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not _MISS:
                env[x.arg] = d
            else:
                self.pyraise("TypeError", "missing keyword argument %s" % x.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ADict(kw)
        elif kw:
            self.pyraise("TypeError", "%s() got an unexpected keyword argument %s" % (f.qual, list(kw)[0]))
        return env

    def call_func(self, f, args, kw):
        stub = self.stubs.get(f.qual) or self.stubs.get(f.module.name + "." + f.qual)
        if stub is None and f.cls is not None:
            stub = self.stubs.get("*." + f.name)
        if stub is not None:
            r = stub(self, args, kw)
            if r is not NotImplemented:
                return r
        if self.depth > 90:
            self.pyraise("RecursionError", "recursion")
        env = Env(f.module, f.env)
        env.vars = self.bind_args(f, args, kw)
        loc, glo, non, gen = local_names(f.node)
        env.locals_, env.globals_, env.nonlocals = loc, glo, non
        env.func = f
        if args and f.cls is not None:
            env.self_ = args[0]
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(f.node.body, env)
            finally:
                self.depth -= 1
        self.covered.add(f.module.name + ":" + f.qual)
        if gen:
            return AIter(self.run_generator(f, env), "generator")
        self.depth += 1
        self.stack.append(f)
        try:
            r = self.exec_block(f.node.body, env)
        except Raised as ex:
            if getattr(ex.exc, "frame", None) is None:
                ex.exc.frame = env.vars
                ex.exc.raise_func = f
            raise
        finally:
            self.depth -= 1
            self.stack.pop()
        if r is not None and r[0] == "ret":
            return r[1]
        return None

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            r = self.exec(s, env)
            if r is not None:
                return r
        return None

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stuck("step budget exhausted in %s" % (env.func.qual if env.func else env.module.name))
        self.cur = s
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s:%d" % (type(s).__name__, env.module.path, s.lineno))
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        return None

    def x_Return(self, s, env):
        return ("ret", self.eval(s.value, env) if s.value is not None else None)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            v = self.augop(s.op, old, self.eval(s.value, env))
            self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            v = self.augop(s.op, old, self.eval(s.value, env))
            self.setattr(o, t.attr, v)
        else:
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = self.getitem(o, k)
            v = self.augop(s.op, old, self.eval(s.value, env))
            self.setitem(o, k, v)

    def augop(self, op, a, b):
        if isinstance(a, AObj) and isinstance(a.cls, ClassVal) and type(op).__name__ in DUNDER:
            n = "__i%s__" % DUNDER[type(op).__name__]
            if self.find_member(a.cls, n):
                return self.call(self.getattr(a, n), [b])
        if isinstance(a, AList) and isinstance(op, ast.Add):
            a.items.extend(self.iterate(b))
            self.note_mut(a)
            return a
        if isinstance(a, ASet) and isinstance(op, (ast.Sub, ast.BitAnd, ast.BitXor)):
            a.items[:] = self.binop(op, a, b).items
            return a
        if isinstance(a, ADict) and isinstance(op, ast.BitOr):
            a.d.update(b.d)
            self.note_mut(a)
            return a
        if isinstance(a, ASet) and isinstance(op, ast.BitOr):
            for x in self.iterate(b):
                if not self.contains(a, x):
                    a.items.append(x)
            return a
        return self.binop(op, a, b)

    def note_mut(self, cell):
        pass

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                self.modenv.setdefault(env.module.name, {})[t.id] = v
                self.gwrites.append(("module", env.module.name, t.id))
            elif t.id in env.nonlocals:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        break
                    e = e.parent
            else:
                env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Sym) and not is_str(v):
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, AList([]), env)
                    else:
                        self.assign(e, Sym("opaque", "%r[%d]" % (v, i)), env)
                return
            items = list(self.iterate(v))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.pyraise("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, AList(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
            else:
                if len(items) != len(t.elts):
                    self.pyraise("ValueError", "unpack mismatch")
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise AnalysisError("assign target %s" % type(t).__name__)

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            return self.exec_block(s.body, env)
        return self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        n = forks = 0
        while True:
            before = len(self.log)
            if not self.truth(self.eval(s.test, env)):
                return self.exec_block(s.orelse, env)
            if len(self.log) > before:
                forks += 1
                if forks > 24:
                    raise AnalysisError("the number of rounds of the loop at %s:%d depends on a value without bound" % (env.module.path, s.lineno))
            r = self.exec_block(s.body, env)
            if r is not None:
                if r[0] == "brk":
                    return None
                if r[0] == "ret":
                    return r
            n += 1
            if n > self.maxiter:
                raise Stuck("loop at %s:%d does not make progress" % (env.module.path, s.lineno))

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        for x in self.iter_live(it):
            self.assign(s.target, x, env)
            r = self.exec_block(s.body, env)
            if r is not None:
                if r[0] == "brk":
                    return None
                if r[0] == "ret":
                    return r
        return self.exec_block(s.orelse, env)

    def x_Break(self, s, env):
        return ("brk",)

    def x_Continue(self, s, env):
        return ("cont",)

    def x_Raise(self, s, env):
        if s.exc is None:
            h = self.user.get("handling")
            if h:
                raise Raised(h[-1], s)
            self.pyraise("RuntimeError", "No active exception to reraise")
        v = self.eval(s.exc, env)
        if isinstance(v, (ClassVal, ExtVal)):
            v = self.call(v, [])
        if not isinstance(v, AObj):
            o = AObj(ExtVal("builtins.Exception"))
            o.value = (v,)
            v = o
        if s.cause is not None:
            v.attrs["__cause__"] = self.eval(s.cause, env)
        raise Raised(v, s, env.module)

    def handler(self, s, ex, env):
        """the except clause of a try statement for this exception"""
        for h in s.handlers:
            if h.type is None:
                ok = True
            else:
                t = self.eval(h.type, env)
                ts = list(t) if isinstance(t, tuple) else [t]
                ok = any(self.class_issub(ex.exc.cls, c) for c in ts)
            if ok:
                if h.name:
                    env.vars[h.name] = ex.exc
                return h
        return None

    def x_Try(self, s, env):
        try:
            failed = False
            try:
                r = self.exec_block(s.body, env)
            except Raised as ex:
                failed = True
                h = self.handler(s, ex, env)
                if h is None:
                    raise
                hs = self.user.setdefault("handling", [])
                hs.append(ex.exc)
                try:
                    r = self.exec_block(h.body, env)
                finally:
                    hs.pop()
            if not failed and r is None:
                r = self.exec_block(s.orelse, env)
        except (Raised,) as ex2:
            r2 = self.exec_block(s.finalbody, env)
            if r2 is not None:
                return r2
            raise
        r2 = self.exec_block(s.finalbody, env)
        return r2 if r2 is not None else r

    def ctx_enter(self, c):
        if isinstance(c, AObj) and isinstance(c.cls, ClassVal) and self.find_member(c.cls, "__enter__"):
            return self.call(self.getattr(c, "__enter__"), [])
        if isinstance(c, ACtx):
            try:
                return next(c.gen.py)
            except StopIteration:
                self.pyraise("RuntimeError", "generator didn't yield")
        if isinstance(c, AObj) and c.hook is not None:
            h = getattr(c, "ctx", None)
            if h is not None:
                return h[0](self)
            self.event("with-enter", c)
            return getattr(c, "enter", c)
        self.event("with-enter", _h(c))
        return c

    def ctx_exit(self, c, ex):
        """-> True if the exception is swallowed"""
        if isinstance(c, AObj) and isinstance(c.cls, ClassVal) and self.find_member(c.cls, "__exit__"):
            a = [None, None, None] if ex is None else [self.typeof(ex.exc), ex.exc, None]
            return self.truth(self.call(self.getattr(c, "__exit__"), a)) and ex is not None
        if isinstance(c, ACtx):
            try:
                if ex is None:
                    next(c.gen.py)
                else:
                    c.gen.py.throw(ex)
            except StopIteration:
                return ex is not None
            self.pyraise("RuntimeError", "generator didn't stop")
        if isinstance(c, AObj) and c.hook is not None and getattr(c, "ctx", None) is not None:
            return c.ctx[1](self, ex)
        self.event("with-exit", _h(c), ex is not None)
        return False

    def with_item(self, w, env, entered):
        c = self.eval(w.context_expr, env)
        v = self.ctx_enter(c)
        entered.append(c)
        if w.optional_vars is not None:
            self.assign(w.optional_vars, v, env)

    def with_exit(self, entered, ex):
        """leave the contexts, innermost first -> True if the exception `ex` is swallowed"""
        while entered:
            c = entered.pop()
            try:
                if self.ctx_exit(c, ex):
                    ex = None
            except Raised as e2:
                if not entered:
                    raise
                ex = e2
                if not entered:
                    raise
        return ex is None

    def x_With(self, s, env):
        entered = []
        try:
            for w in s.items:
                self.with_item(w, env, entered)
            r = self.exec_block(s.body, env)
        except Raised as ex:
            if self.with_exit(entered, ex):
                return None
            raise
        self.with_exit(entered, None)
        return r

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            self.pyraise("AssertionError", "")

    def x_FunctionDef(self, s, env):
        f = FuncVal(s, env.module, env)
        self.eval_defaults(f, env)
        env.vars[s.name] = f
        if s.decorator_list:
            env.vars[s.name] = self.decorate(s, f, env)

    def x_ClassDef(self, s, env):
        c = self.get_class(env.module, s, env)
        env.vars[s.name] = c
        if s.decorator_list:
            env.vars[s.name] = self.decorate_class(s, c, env)

    def x_Import(self, s, env):
        for a in s.names:
            full = a.name if a.asname else a.name.split(".")[0]
            env.vars[(a.asname or a.name).split(".")[0]] = self.repo.modules.get(full) or ExtVal(full)

    def x_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.import_from(env.module, s, a)

    def x_Global(self, s, env):
        return None

    x_Nonlocal = x_Global

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, ADict):
                    kk = self.dict_key(o, k)
                    if kk is _MISS:
                        self.pyraise("KeyError", k)
                    del o.d[kk]
                elif isinstance(o, AList):
                    del o.items[k]
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, AObj):
                    o.attrs.pop(t.attr, None)

    def x_Match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            if self.match_pat(c.pattern, v, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                return self.exec_block(c.body, env)
        return None

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.isinstance(v, c):
                return False
            names = []
            if p.patterns:
                if isinstance(c, ExtVal):
                    return len(p.patterns) == 1 and self.match_pat(p.patterns[0], v, env)
                m = self.find_member(c, "__match_args__")
                names = list(self.iterate(self.class_attr(m[0], "__match_args__", m[1]))) if m is not None else self.nt_fields(c) or [n for n, _, _ in self.dataclass_fields(c) or []]
            for k, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                if not self.hasattr(v, k) or not self.match_pat(q, self.getattr(v, k), env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.resolve(v)
            if isinstance(v, AObj) and self.nt_fields(v.cls):
                v = tuple(self.nt_items(v))
            if not isinstance(v, (AList, tuple)):
                return False
            items = list(self.iterate(v))
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not st:
                return len(items) == len(p.patterns) and all(self.match_pat(q, x, env) for q, x in zip(p.patterns, items))
            i, after = st[0], len(p.patterns) - st[0] - 1
            if len(items) < len(p.patterns) - 1:
                return False
            if not all(self.match_pat(q, x, env) for q, x in zip(p.patterns[:i], items)):
                return False
            if after and not all(self.match_pat(q, x, env) for q, x in zip(p.patterns[i + 1:], items[-after:])):
                return False
            if p.patterns[i].name:
                env.vars[p.patterns[i].name] = AList(items[i:len(items) - after])
            return True
        if isinstance(p, ast.MatchMapping):
            v = self.resolve(v)
            if not isinstance(v, ADict):
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                kk = self.dict_key(v, self.eval(k, env))
                if kk is _MISS or not self.match_pat(q, v.d[kk], env):
                    return False
                used.append(kk)
            if p.rest:
                env.vars[p.rest] = ADict({k: x for k, x in v.d.items() if k not in used})
            return True
        raise AnalysisError("match pattern %s" % type(p).__name__)

    # ------------------------------------------------------------ expressions
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.globals_ if e.globals_ else False:
                break
            if name in e.vars:
                return e.vars[name]
            if e.func is not None and name in e.locals_ and e is env:
                self.pyraise("UnboundLocalError", name)
            e = e.parent
        v = self.modattr(env.module, name)
        if v is not _MISS:
            return v
        if name in _BUILTINS:
            return ExtVal("builtins." + name)
        self.pyraise("NameError", name)

    def eval(self, n, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stuck("step budget exhausted")
        t = type(n).__name__
        m = getattr(self, "e_" + t, None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s:%d" % (t, env.module.path, n.lineno))
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        if n.id == "__class__" and env.func is not None:
            return env.func.cls
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        o = self.eval(n.value, env)
        self.cur = n
        return self.getattr(o, n.attr)

    def e_JoinedStr(self, n, env):
        return tmpl(*[self.eval(v, env) for v in n.values])

    def e_FormattedValue(self, n, env):
        v = self.eval(n.value, env)
        spec = self.eval(n.format_spec, env) if n.format_spec is not None else ""
        return self.format_value(v, {114: "r", 115: "s", 97: "a"}.get(n.conversion), spec)

    def format_value(self, v, conv, spec):
        """format(v, spec) after the conversion !r, !s or !a"""
        v = self.resolve(v)
        if conv == "r":
            v = self.to_repr(v)
        elif conv == "s":
            v = self.to_str(v)
        elif conv == "a":
            v = ascii(v) if isinstance(v, str) else Sym("strop", "ascii", _h(v))
        if isinstance(v, AObj) and conv is None and isinstance(v.cls, ClassVal) and self.find_member(v.cls, "__format__"):
            return self.call(self.getattr(v, "__format__"), [spec])
        if spec == "":
            return self.to_str(v)
        if self._intmix(v):
            v = v.value
        if isinstance(v, AObj) and isinstance(v.value, str) and self._strmix(v):
            v = v.value
        if isinstance(spec, str) and (isinstance(v, (str, int, float)) or v is None):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as e:
                self.pyraise(type(e).__name__, str(e))
        m = _re.fullmatch(r"(?:(.)?([<>^]))?(\d+)s?", spec) if isinstance(spec, str) else None
        if m and is_strsym(v) and not (m[1] is None and m[2] is None and m[3].startswith("0")):
            name = {">": "rjust", "^": "center"}.get(m[2], "ljust")
            return self.call_method(v, name, [int(m[3])] + ([m[1]] if m[1] and m[1] != " " else []), {})
        if isinstance(v, AObj) and isinstance(v.cls, ClassVal):
            self.pyraise("TypeError", "unsupported format string")
        return Sym("strop", "format", _h(v), spec)

    def to_str(self, v):
        v = self.resolve(v)
        if is_str(v):
            return v
        if is_intsym(v):
            return tmpl(v) if False else Sym("tmpl", v)
        if isinstance(v, AObj):
            if v.hook is not None:
                r = v.hook(self, v, "__str__")
                if r is not NotImplemented:
                    return r
            if isinstance(v.cls, ClassVal):
                m = self.find_member(v.cls, "__str__") or self.find_member(v.cls, "__repr__")
                if m is not None:
                    nm = "__str__" if self.find_member(v.cls, "__str__") else "__repr__"
                    return self.call(self.getattr(v, nm), [])
                if self.is_enum(v.cls):
                    return "%s.%s" % (v.cls.name, v.name)
            if v.value is not None and isinstance(v.value, tuple) and len(v.value) == 1:
                return self.to_str(v.value[0])
            return Sym("strop", "str", "%s#%d" % (v.cls.name, v.id))
        if isinstance(v, (AList, tuple)):
            out = ["[" if isinstance(v, AList) else "("]
            items = v.items if isinstance(v, AList) else v
            for i, x in enumerate(items):
                if i:
                    out.append(", ")
                out.append(self.to_repr(x))
            out.append("]" if isinstance(v, AList) else ")")
            return tmpl(*out)
        if isinstance(v, Sym):
            return Sym("strop", "str", v)
        if isinstance(v, (ClassVal,)):
            return "<class '%s'>" % v.qual
        if isinstance(v, (Cell, FuncVal, BoundVal, ExtVal, PyFunc, BuiltinMethod)):
            return Sym("strop", "str", repr(v))
        return str(v)

    def to_repr(self, v):
        if isinstance(v, str):
            return repr(v)
        if is_strsym(v):
            return tmpl("'", v, "'")
        if isinstance(v, AObj) and isinstance(v.cls, ClassVal) and v.hook is None and self.find_member(v.cls, "__repr__"):
            return self.call(self.getattr(v, "__repr__"), [])
        if isinstance(v, AObj) and isinstance(v.value, tuple) and self.class_issub(v.cls, ExtVal("builtins.BaseException")) and (v.cls.path.startswith("builtins.") if isinstance(v.cls, ExtVal) else True):
            out = []
            for x in v.value:
                out += [", " if out else "", self.to_repr(x)]
            return tmpl(cls_name(v.cls), "(", *out, ")")
        return self.to_str(v)

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        self.cur = n
        return self.binop(n.op, a, b)

    def dunder(self, name, a, b, rname=None):
        """an operator the class of an operand defines"""
        if name is None:
            return NotImplemented
        for o, x, n in ((a, b, "__%s__" % name), (b, a, "__%s__" % (rname or "r" + name))):
            if isinstance(o, AObj) and isinstance(o.cls, ClassVal) and o.hook is None and self.find_member(o.cls, n):
                r = self.call(self.getattr(o, n), [x])
                if not (r is NotImplemented or isinstance(r, ExtVal) and r.name == "NotImplemented"):
                    return r
        return NotImplemented

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        on = type(op).__name__
        isnum = lambda x: isinstance(x, (int, float)) or is_intsym(x)
        if isinstance(a, AObj) and isinstance(a.value, str) and self._strmix(a):
            a = a.value
        a, b = (x.value if self._intmix(x) else x for x in (a, b))
        a, b = (tuple(self.nt_items(x)) if isinstance(x, AObj) and self.nt_fields(x.cls) else x for x in (a, b))
        r = self.dunder(DUNDER.get(on), a, b)
        if r is not NotImplemented:
            return r
        if on == "Add":
            if is_str(a) and is_str(b):
                return tmpl(self.rtmpl(a), self.rtmpl(b))
            if isinstance(a, AList) and isinstance(b, AList):
                return AList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, bytes) and isinstance(b, bytes):
                return a + b
            if isnum(a) and isnum(b) and not isinstance(a, float) and not isinstance(b, float):
                return lin_add(a, b)
            if (is_str(a) and isnum(b)) or (isnum(a) and is_str(b)) or a is None or b is None:
                self.pyraise("TypeError", "unsupported operand")
            if (is_str(a) and isinstance(b, (AObj, AList))) or (is_str(b) and isinstance(a, (AObj, AList))):
                self.pyraise("TypeError", "can only concatenate str")
        elif on == "Sub":
            if isnum(a) and isnum(b) and not isinstance(a, float) and not isinstance(b, float):
                return lin_add(a, b, -1)
            if isinstance(a, ASet):
                return ASet([x for x in a.items if not self.contains(b, x)])
        elif on == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(y, bool) or isinstance(y, bool):
                    if isinstance(x, (str, bytes)):
                        return x * y
                    if isinstance(x, AList):
                        return AList(x.items * y)
                    if isinstance(x, tuple):
                        return x * y
                    if is_intsym(x):
                        return lin_scale(x, int(y))
                    if is_strsym(x):
                        return tmpl(*([x] * y))
            if is_str(a) and is_intsym(b):
                return Sym("strop", "repeat", a, b)
        elif on == "Mod":
            if is_str(a) and not isnum(a):
                return self.percent_format(a, b)
        elif on == "BitOr":
            if isinstance(a, ADict) and isinstance(b, ADict):
                d = dict(a.d)
                d.update(b.d)
                return ADict(d)
            if isinstance(a, ASet):
                r = ASet(a.items)
                for x in self.iterate(b):
                    if not self.contains(r, x):
                        r.items.append(x)
                return r
            if isinstance(a, (ClassVal, ExtVal)) or isinstance(b, (ClassVal, ExtVal)):
                return (a, b)
        elif on == "BitXor" and isinstance(a, ASet) and isinstance(b, ASet):
            return ASet([x for x in a.items if not self.contains(b, x)] + [x for x in b.items if not self.contains(a, x)])
        elif on == "BitAnd" and isinstance(a, ASet):
            return ASet([x for x in a.items if self.contains(b, x)])
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            import operator as o
            f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod,
                 "Pow": o.pow, "LShift": o.lshift, "RShift": o.rshift, "BitOr": o.or_, "BitAnd": o.and_, "BitXor": o.xor}[on]
            try:
                return f(a, b)
            except ZeroDivisionError:
                self.pyraise("ZeroDivisionError")
        if on == "Div" and isinstance(a, AObj) and a.hook is not None:
            m = a.hook(self, a, "__truediv__")
            if m is not NotImplemented:
                return self.call(m, [b])
        if isnum(a) and isnum(b):
            return Sym("intop", on, a, b)
        plain = lambda x: isinstance(x, AList) and x.kind == "list" or isinstance(x, (tuple, str, bytes, ADict)) or x is None
        if plain(a) and plain(b) or (plain(a) and isnum(b) or plain(b) and isnum(a)) and on != "Mult":
            self.pyraise("TypeError", "unsupported operand type(s)")
        return Sym("opaque", "%r %s %r" % (_h(a), on, _h(b)))

    def percent_format(self, f, args):
        if isinstance(f, str):
            vals = list(args) if isinstance(args, tuple) else [args]
            parts = _re.split(r"(%[sdr])", f)
            if f.count("%") == sum(1 for p in parts if p in ("%s", "%d", "%r")) and not isinstance(args, ADict):
                out = []
                for p in parts:
                    if p in ("%s", "%d"):
                        if not vals:
                            self.pyraise("TypeError", "not enough arguments for format string")
                        out.append(self.to_str(vals.pop(0)))
                    elif p == "%r":
                        out.append(self.to_repr(vals.pop(0)))
                    else:
                        out.append(p)
                return tmpl(*out)
            from . import models
            try:
                return f % models.to_py(args)
            except models.NotConcrete:
                pass
            except (TypeError, ValueError, KeyError) as e:
                self.pyraise(type(e).__name__, str(e))
            # %-10s and the like of symbolic strings
            parts = _re.split(r"(%-?\d*[sdr])", f)
            if not isinstance(args, ADict) and f.count("%") == sum(1 for p in parts if _re.fullmatch(r"%-?\d*[sdr]", p)):
                vals = list(args) if isinstance(args, tuple) else [args]
                out = []
                for p in parts:
                    m = _re.fullmatch(r"%(-?)(\d*)([sdr])", p)
                    if not m:
                        out.append(p)
                        continue
                    if not vals:
                        self.pyraise("TypeError", "not enough arguments for format string")
                    x = vals.pop(0)
                    x = self.to_repr(x) if m[3] == "r" else self.to_str(x)
                    out.append(self.format_value(x, None, ("<" if m[1] else ">") + m[2]) if m[2] else x)
                return tmpl(*out)
        return Sym("strop", "%", f, _h(args))

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        on = type(n.op).__name__
        if on == "Not":
            return not self.truth(v)
        v = self.resolve(v)
        if on == "USub":
            return -v if isinstance(v, (int, float)) else lin_scale(v, -1)
        if on == "UAdd":
            return v
        if on == "Invert" and isinstance(v, int):
            return ~v
        return Sym("intop", on, v)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i < len(n.values) - 1:
                t = self.truth(v)
                if isand and not t:
                    return v
                if not isand and t:
                    return v
        return v

    def e_Compare(self, n, env):
        a = self.eval(n.left, env)
        for op, c in zip(n.ops, n.comparators):
            b = self.eval(c, env)
            if not self.compare(type(op).__name__, a, b):
                return False
            a = b
        return True

    def compare(self, on, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if on == "Eq":
            return self.eq(a, b)
        if on == "NotEq":
            return not self.eq(a, b)
        if on in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if on == "Is" else not r
        if on == "In":
            return self.contains(b, a)
        if on == "NotIn":
            return not self.contains(b, a)
        op = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[on]
        a, b = (x.value if self._intmix(x) else x for x in (a, b))
        a, b = (tuple(self.nt_items(x)) if isinstance(x, AObj) and self.nt_fields(x.cls) else x for x in (a, b))
        d = {"Lt": ("lt", "__gt__"), "LtE": ("le", "__ge__"), "Gt": ("gt", "__lt__"), "GtE": ("ge", "__le__")}[on]
        r = self.dunder(d[0], a, b, d[1][2:-2])
        if r is not NotImplemented:
            return self.truth(r)
        num = lambda x: isinstance(x, int) or is_intsym(x)
        if num(a) and num(b):
            return self.int_cmp(op, a, b)
        if a is None or b is None:
            self.pyraise("TypeError", "'%s' not supported between instances" % op)
        if isinstance(a, (str, float, int, bytes)) and isinstance(b, (str, float, int, bytes)):
            try:
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            except TypeError:
                self.pyraise("TypeError", "comparison")
        if isinstance(a, ASet) and isinstance(b, ASet):
            if op in (">=", ">"):
                a, b = b, a
            if op in ("<", ">") and len(a.items) >= len(b.items):
                return False
            return all(self.contains(b, x) for x in a.items)
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.compare(on, x, y)
            return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]
        return self.fork(("cmp", op, _h(a), _h(b)))

    def is_(self, a, b):
        if a is None or b is None:
            return self.is_none(a if b is None else b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.kind == "typeof" and isinstance(y, (ClassVal, ExtVal)):
                return self.refine_exact(x.args[0], y)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Sym) or isinstance(b, Sym):
                s, c = (a, b) if isinstance(a, Sym) else (b, a)
                return self.fork(("is", s, c))
        if isinstance(a, BoundVal) and isinstance(b, BoundVal):
            return a.func is b.func and a.self_ is b.self_
        if isinstance(a, FuncVal) and isinstance(b, FuncVal):
            return a.node is b.node
        if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == "opaque" and a is not b:
            return self.fork(("is", a, b))
        return a is b

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_List(self, n, env):
        return AList(self.elts(n.elts, env))

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_Set(self, n, env):
        return ASet(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, n, env):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, env)
                d.d.update(o.d)
            else:
                kk = self.eval(k, env)
                d.d[self.hashable(kk)] = self.eval(v, env)
        return d

    def e_Lambda(self, n, env):
        f = FuncVal(n, env.module, env)
        self.eval_defaults(f, env)
        return f

    def eval_defaults(self, f, env):
        a = f.node.args
        if a.defaults or any(d is not None for d in a.kw_defaults):
            f.defaults = ([self.eval(d, env) for d in a.defaults], [self.eval(d, env) if d is not None else _MISS for d in a.kw_defaults])

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.func is None and e.parent is not None and getattr(e, "self_", None) == "comp":
            e = e.parent
        e.vars[n.target.id] = v
        return v

    def e_Starred(self, n, env):
        return self.eval(n.value, env)

    def comp_envs(self, gens, env):
        """the environments in which the element of a comprehension is evaluated"""
        def rec(i, e, first=None):
            if i == len(gens):
                yield e
                return
            g = gens[i]
            src = first if i == 0 else self.eval(g.iter, e)
            for x in self.iter_live(src):
                e2 = Env(env.module, e)
                e2.self_ = "comp"
                self.assign(g.target, x, e2)
                if all(self.truth(self.eval(c, e2)) for c in g.ifs):
                    yield from rec(i + 1, e2)
        e0 = Env(env.module, env)
        e0.self_ = "comp"
        # the first iterable is evaluated where the comprehension stands
        return rec(0, e0, self.eval(gens[0].iter, e0))

    def comp(self, gens, env, emit):
        for e in self.comp_envs(gens, env):
            emit(e)

    def e_ListComp(self, n, env):
        return AList([self.eval(n.elt, e) for e in self.comp_envs(n.generators, env)])

    def e_GeneratorExp(self, n, env):
        envs = self.comp_envs(n.generators, env)
        return AIter((self.eval(n.elt, e) for e in envs), "generator")

    def e_SetComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return ASet(out)

    def e_DictComp(self, n, env):
        d = ADict()

        def emit(e):
            k = self.eval(n.key, e)
            d.d[self.hashable(k)] = self.eval(n.value, e)
        self.comp(n.generators, env, emit)
        return d

    def e_Yield(self, n, env):
        raise AnalysisError("yield inside an expression at %s:%d" % (env.module.path, n.lineno))

    e_YieldFrom = e_Yield

    def run_generator(self, f, env):
        """the body of a generator function, run up to the next yield each time"""
        def enter():
            self.depth += 1
            self.stack.append(f)

        def leave():
            self.depth -= 1
            self.stack.pop()
        body = self.g_block(f.node.body, env)
        sent, exc = None, None
        while True:
            if self.depth > 90:
                self.pyraise("RecursionError", "recursion")
            enter()
            try:
                try:
                    if exc is not None:
                        e, exc = exc, None
                        x = body.throw(e)
                    else:
                        x = body.send(sent)
                finally:
                    leave()
            except StopIteration as st:
                r = st.value
                return r[1] if r is not None and r[0] == "ret" else None
            except Raised as ex:
                if getattr(ex.exc, "frame", None) is None:
                    ex.exc.frame = env.vars
                    ex.exc.raise_func = f
                raise
            try:
                sent = yield x
            except Raised as ex:
                exc = ex

    def g_block(self, stmts, env):
        for s in stmts:
            r = yield from self.g_exec(s, env)
            if r is not None:
                return r
        return None

    def g_yield(self, n, env):
        """evaluate an expression that is a yield at its top, or one without any"""
        if isinstance(n, ast.Yield):
            v = self.eval(n.value, env) if n.value is not None else None
            return (yield v)
        if isinstance(n, ast.YieldFrom):
            src = self.pull(self.eval(n.value, env))
            return (yield from src.py)
        return self.eval(n, env)

    def g_exec(self, s, env):
        if not has_yield(s):
            return self.exec(s, env)
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Stuck("step budget exhausted in %s" % (env.func.qual if env.func else env.module.name))
        self.cur = s
        if isinstance(s, ast.Expr):
            yield from self.g_yield(s.value, env)
            return None
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            v = yield from self.g_yield(s.value, env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, env)
            return None
        if isinstance(s, ast.Return):
            v = yield from self.g_yield(s.value, env)
            return ("ret", v)
        if isinstance(s, ast.If):
            return (yield from self.g_block(s.body if self.truth(self.eval(s.test, env)) else s.orelse, env))
        if isinstance(s, (ast.While, ast.For)):
            n = 0
            src = None if isinstance(s, ast.While) else self.iter_live(self.eval(s.iter, env))
            while True:
                if src is None:
                    if not self.truth(self.eval(s.test, env)):
                        break
                else:
                    try:
                        x = next(src)
                    except StopIteration:
                        break
                    self.assign(s.target, x, env)
                r = yield from self.g_block(s.body, env)
                if r is not None:
                    if r[0] == "brk":
                        return None
                    if r[0] == "ret":
                        return r
                n += 1
                if n > 20 * self.maxiter:
                    raise Stuck("loop at %s:%d does not make progress" % (env.module.path, s.lineno))
            return (yield from self.g_block(s.orelse, env))
        if isinstance(s, ast.Try):
            r = None
            try:
                try:
                    r = yield from self.g_block(s.body, env)
                    failed = False
                except Raised as ex:
                    h = self.handler(s, ex, env)
                    if h is None:
                        raise
                    failed = True
                    hs = self.user.setdefault("handling", [])
                    hs.append(ex.exc)
                    try:
                        r = yield from self.g_block(h.body, env)
                    finally:
                        hs.pop()
                if not failed and r is None:
                    r = yield from self.g_block(s.orelse, env)
            except Raised:
                r2 = yield from self.g_block(s.finalbody, env)
                if r2 is not None:
                    return r2
                raise
            r2 = yield from self.g_block(s.finalbody, env)
            return r2 if r2 is not None else r
        if isinstance(s, ast.With):
            entered = []
            try:
                for w in s.items:
                    self.with_item(w, env, entered)
                r = yield from self.g_block(s.body, env)
            except Raised as ex:
                if self.with_exit(entered, ex):
                    return None
                raise
            self.with_exit(entered, None)
            return r
        if isinstance(s, ast.Match):
            v = self.eval(s.subject, env)
            for c in s.cases:
                if self.match_pat(c.pattern, v, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                    return (yield from self.g_block(c.body, env))
            return None
        raise AnalysisError("yield inside %s at %s:%d" % (type(s).__name__, env.module.path, s.lineno))

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        if isinstance(n.slice, ast.Slice):
            sl = slice(*[self.eval(x, env) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)])
            self.cur = n
            return self.getslice(o, sl)
        k = self.eval(n.slice, env)
        self.cur = n
        return self.getitem(o, k)

    def e_Slice(self, n, env):
        return slice(*[self.eval(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def getslice(self, o, sl):
        o = self.resolve(o)
        parts = [self.resolve(x) for x in (sl.start, sl.stop, sl.step)]
        parts = [x if x is None or self.rep_int(x) is None else self.rep_int(x) for x in parts]
        if all(x is None or isinstance(x, int) for x in parts):
            s2 = slice(*parts)
            if isinstance(o, AList):
                return AList(o.items[s2])
            if isinstance(o, (str, tuple, bytes)):
                return o[s2]
            if is_strsym(o):
                ps = pieces(o)
                st, sp, step = parts
                # slices that only cut literal ends of a template are exact
                if step in (None, 1):
                    lead = len(ps[0]) if isinstance(ps[0], str) else 0
                    tail = len(ps[-1]) if isinstance(ps[-1], str) else 0

                    def place(x, default):
                        if x is None:
                            return default
                        if 0 <= x <= lead:
                            return (0, x)
                        if x < 0 and -x <= tail:
                            return (len(ps) - 1, tail + x)
                        return None
                    at, to = place(st, (0, 0)), place(sp, (len(ps), 0))
                    if at is not None and to is not None:
                        if at >= to:
                            return ""
                        q = list(ps)
                        if to[1]:
                            q[to[0]] = q[to[0]][:to[1]]
                        if at[1]:
                            q[at[0]] = q[at[0]][at[1]:]
                        return tmpl(*q[at[0]:to[0] + (1 if to[1] else 0)])
                rs = self.rep_str(o)
                if rs is not None:
                    return self.abstract(rs[0][s2], rs[1])
                if step == -1 and st is None and sp is None:
                    return Sym("strop", "rev", o)
                return Sym("strop", "slice", o, tuple(parts))
        elif isinstance(o, AList):
            # symbolic bound on a short concrete list: fork over the possible cut points
            st, sp, step = parts
            n = len(o.items)

            def conc(x):
                if not is_intsym(x):
                    return x
                for i in range(0, n):
                    if self.int_cmp("==", x, i):
                        return i
                if self.int_cmp("<", x, 0):
                    return Sym("neg", x)
                return n
            st2, sp2 = conc(st), conc(sp)
            if isinstance(st2, Sym) or isinstance(sp2, Sym):
                raise Infeasible()
            return AList(o.items[slice(st2, sp2, step)])
        if o is None:
            self.pyraise("TypeError", "'NoneType' object is not subscriptable")
        if is_strsym(o) or isinstance(o, str):
            if parts[2] in (None, 1):
                st = (0, 0) if parts[0] is None else self.cut(o, parts[0])
                sp = (len(pieces(o)), 0) if parts[1] is None else self.cut(o, parts[1])
                if st and sp and st <= sp:
                    q = list(pieces(o))
                    if sp[1]:
                        q[sp[0]] = q[sp[0]][:sp[1]]
                    if st[1]:
                        q[st[0]] = q[st[0]][st[1]:]
                    return tmpl(*q[st[0]:sp[0] + (1 if sp[1] else 0)])
            return Sym("strop", "slice", o, tuple(map(repr, parts)))
        return Sym("opaque", "%r[%r]" % (o, parts))

    def cut(self, o, n):
        """the place (piece, offset) n characters into a template, if n is the length of some of its pieces"""
        at = 0
        ps = pieces(o)
        for i, p in enumerate(ps):
            if isinstance(n, int) or is_intsym(n):
                d = lin_add(n, at, -1)
                if d == 0 and isinstance(d, int):
                    return (i, 0)
                if isinstance(p, str) and isinstance(d, int) and 0 <= d < len(p):
                    return (i, d)
            else:
                return None
            at = lin_add(at, len(p) if isinstance(p, str) else Sym("intop", "len", p))
        d = lin_add(n, at, -1)
        return (len(ps), 0) if isinstance(d, int) and d == 0 else None

    def getitem(self, o, k):
        o, k = self.resolve(o), self.resolve(k)
        if is_intsym(k) and self.rep_int(k) is not None:
            k = self.rep_int(k)
        if isinstance(k, slice):
            return self.getslice(o, k)
        if isinstance(o, Sym) and o.kind == "match":
            from . import models
            return models.match_method(self, o, "group", [k], {})
        if isinstance(o, ADict):
            kk = self.dict_key(o, k)
            if kk is not _MISS:
                return o.d[kk]
            if o.default is not None:
                v = self.call(o.default, [])
                o.d[k] = v
                return v
            if getattr(o, "counter", False):
                return 0
            self.pyraise("KeyError", k)
        if isinstance(o, (AList, tuple)):
            items = o.items if isinstance(o, AList) else o
            if isinstance(k, (int, bool)):
                if -len(items) <= k < len(items):
                    return items[k]
                self.pyraise("IndexError", "list index out of range")
            if is_intsym(k):
                for i in range(len(items)):
                    if self.int_cmp("==", k, i):
                        return items[i]
                self.pyraise("IndexError", "list index out of range")
        if isinstance(o, (str, bytes)) and isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            self.pyraise("IndexError", "string index out of range")
        if is_strsym(o):
            ps = pieces(o)
            if isinstance(k, int):
                if k >= 0 and isinstance(ps[0], str) and k < len(ps[0]):
                    return ps[0][k]
                if k < 0 and isinstance(ps[-1], str) and -k <= len(ps[-1]):
                    return ps[-1][k]
            rs = self.rep_str(o)
            if rs is not None and isinstance(k, int):
                if -len(rs[0]) <= k < len(rs[0]):
                    return rs[0][k]
                self.pyraise("IndexError", "string index out of range")
            return Sym("strop", "idx", o, k)
        if isinstance(o, AObj) and isinstance(o.cls, ClassVal) and self.nt_fields(o.cls):
            return self.getitem(tuple(self.nt_items(o)), k)
        if isinstance(o, AObj):
            if isinstance(o.cls, ClassVal) and self.find_member(o.cls, "__getitem__"):
                return self.call(self.getattr(o, "__getitem__"), [k])
            if o.hook is not None:
                r = o.hook(self, o, ("[]", k))
                if r is not NotImplemented:
                    return r
            elif (o.cands is None or len(o.cands) == 1) and self.own_class(o.cls):
                self.pyraise("TypeError", "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, (int, float)):
            self.pyraise("TypeError", "'int' object is not subscriptable")
        if isinstance(o, ClassVal):
            if self.is_enum(o):
                return self.getattr(o, k)
            return o
        if isinstance(o, ExtVal):
            return o
        if o is None:
            self.pyraise("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(o, Sym) and o.kind == "match":
            return self.call_method(o, "group", [k], {})
        return Sym("opaque", "%r[%r]" % (_h(o), _h(k)))

    def own_class(self, c):
        """a class whose methods are all in the source"""
        return isinstance(c, ClassVal) and all(isinstance(k, ClassVal) or isinstance(k, ExtVal) and k.path in ("builtins.object", "abc.ABC", "typing.Protocol") for k in c.mro())

    def setitem(self, o, k, v):
        o, k = self.resolve(o), self.rtmpl(k)
        if isinstance(o, ADict):
            kk = self.dict_key(o, k)
            o.d[k if kk is _MISS else kk] = v
            self.event_mut(o, k, v)
            return
        if isinstance(o, AList):
            if isinstance(k, slice):
                o.items[k] = list(self.iterate(v))
                return
            if isinstance(k, int):
                if -len(o.items) <= k < len(o.items):
                    o.items[k] = v
                    return
                self.pyraise("IndexError", "assignment index out of range")
            self.event("symidx-write", o.id, k, _h(v))
            sw = getattr(o, "symwrites", None)
            if sw is None:
                sw = o.symwrites = []
            sw.append((k, v))
            return
        if isinstance(o, AObj) and isinstance(o.cls, ClassVal) and self.find_member(o.cls, "__setitem__"):
            return self.call(self.getattr(o, "__setitem__"), [k, v])
        if isinstance(o, AObj) and o.hook is not None:
            self.event("setitem", o, _h(k), _h(v))
            return
        if o is None or isinstance(o, (tuple, str)):
            self.pyraise("TypeError", "object does not support item assignment")
        self.event("opaque-setitem", _h(o), _h(k), _h(v))

    def event_mut(self, o, k, v):
        pass

    # -------------------------------------------------------------- iteration
    def iter_live(self, it):
        """Python iterator over an abstract iterable, lazily and over the current items of lists"""
        if isinstance(it, AList) and it.kind not in ("gen", "iter"):
            i = 0
            while i < len(it.items):
                yield it.items[i]
                i += 1
                if i > 20 * self.maxiter:
                    raise Stuck("unbounded list iteration")
            return
        if isinstance(it, AIter):
            n = 0
            while True:
                try:
                    x = next(it.py)
                except StopIteration:
                    return
                yield x
                n += 1
                if n > 20 * self.maxiter:
                    raise Stuck("unbounded iteration")
        if isinstance(it, AObj) and isinstance(it.cls, ClassVal) and it.hook is None:
            if self.find_member(it.cls, "__iter__"):
                yield from self.iter_live(self.pull(it))
                return
            if self.find_member(it.cls, "__next__") or (self.find_member(it.cls, "__getitem__") and not self.nt_fields(it.cls)):
                yield from self.iter_live(self.pull(it))
                return
        if isinstance(it, ADict):
            n = len(it.d)
            for x in list(it.d):
                yield x
                if len(it.d) != n:
                    self.pyraise("RuntimeError", "dictionary changed size during iteration")
            return
        yield from self.iterate(it)

    def pull(self, v):
        """abstract iterable -> AIter (what iter() gives)"""
        v = self.resolve(v)
        if isinstance(v, AIter):
            return v
        if isinstance(v, AObj) and isinstance(v.cls, ClassVal) and v.hook is None:
            if self.find_member(v.cls, "__iter__"):
                r = self.call(self.getattr(v, "__iter__"), [])
                if r is v or isinstance(r, AObj) and isinstance(r.cls, ClassVal) and self.find_member(r.cls, "__next__"):
                    return AIter(self._nexts(r))
                return self.pull(r)
            if self.find_member(v.cls, "__getitem__") and not self.nt_fields(v.cls):
                return AIter(self._items(v))
        if isinstance(v, (AList, ADict)):
            return AIter(self.iter_live(v))
        return AIter(self.iterate(v))

    def _nexts(self, o):
        while True:
            try:
                x = self.call(self.getattr(o, "__next__"), [])
            except Raised as r:
                if cls_name(r.exc.cls) == "StopIteration":
                    return
                raise
            yield x

    def _items(self, o):
        i = 0
        while True:
            try:
                x = self.call(self.getattr(o, "__getitem__"), [i])
            except Raised as r:
                if cls_name(r.exc.cls) == "IndexError":
                    return
                raise
            yield x
            i += 1

    def iterate(self, it):
        it = self.resolve(it)
        if isinstance(it, AIter):
            return list(self.iter_live(it))
        if isinstance(it, AList):
            if it.kind in ("gen", "iter"):
                x = list(it.items)
                it.items = []
                return x
            return list(it.items)
        if isinstance(it, ASet):
            return list(it.items) if not self.reverse_sets else list(reversed(it.items))
        if isinstance(it, (tuple, range)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, bytes):
            return list(it)
        if isinstance(it, ADict):
            return list(it.d)
        if isinstance(it, ClassVal) and self.is_enum(it):
            return [self.class_attr(it, n, s) for n, s in it.members.items() if not isinstance(s, ast.FunctionDef)]
        if isinstance(it, AObj):
            if isinstance(it.cls, ClassVal) and (self.find_member(it.cls, "__iter__") or it.hook is None and not self.nt_fields(it.cls) and self.find_member(it.cls, "__getitem__")):
                return list(self.iter_live(self.pull(it)))
            if isinstance(it.cls, ClassVal) and self.nt_fields(it.cls):
                return self.nt_items(it)
            if it.hook is not None:
                r = it.hook(self, it, "__iter__")
                if r is not NotImplemented:
                    return r
        if is_strsym(it):
            out = []
            for p in pieces(it):
                if isinstance(p, str):
                    out += list(p)
                else:
                    out.append(p)
            return out
        if it is None:
            self.pyraise("TypeError", "'NoneType' object is not iterable")
        if isinstance(it, Sym) and it.kind == "symlist":
            k = self.choose(3, "len(%r)" % it)
            self.log.append(("len(%r)" % it, k))
            return [Sym("item", it, i) for i in range(k)]
        if isinstance(it, Sym):
            key = ("len", it)
            if key not in self.facts:
                k = self.choose(3, "len(%r)" % it)
                self.facts[key] = k
                self.log.append(("len(%r)" % it, k))
            return [Sym("opaque", "%r[%d]" % (it, i)) for i in range(self.facts[key])]
        self.pyraise("TypeError", "%r is not iterable" % (it,))

    def e_Call(self, n, env):
        f = None
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and e.func is None:
                e = e.parent
            return _SuperVal(e.func.cls, self.typeof(e.self_) if isinstance(e.self_, AObj) else e.self_, e.self_)
        if isinstance(n.func, ast.Name) and n.func.id == "locals" and not n.args:
            return ADict(dict(env.vars))
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, ADict):
                    kw.update(d.d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.cur = n
        if isinstance(f, ExtVal) and f.path == "builtins.super" and args:
            return _SuperVal(args[0], self.typeof(args[1]) if isinstance(args[1], AObj) else args[1], args[1])
        return self.call(f, args, kw)

    # ------------------------------------------------------------- type hints
    def type_hints(self, cls, own=False):
        d = ADict()
        mro = [cls] if own else list(reversed(cls.mro()))
        for k in mro:
            if not isinstance(k, ClassVal):
                continue
            for st in k.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    try:
                        v = self.eval_annotation(st.annotation, k)
                    except Raised:
                        v = Sym("opaque", "annotation")
                    d.d[st.target.id] = v
        return d

    def eval_annotation(self, a, k):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            a = ast.parse(a.value, mode="eval").body
        return self.eval(a, Env(k.module, k.env))

    # ------------------------------------------------------------- ext / methods
    def call_ext(self, f, args, kw):
        from . import models
        st = self.stubs.get("ext:" + f.path) or self.stubs.get("ext:" + f.name)
        if st is not None:
            r = st(self, args, kw)
            if r is not NotImplemented:
                return r
        return models.call_ext(self, f, args, kw)

    def call_method(self, o, name, args, kw):
        from . import models
        return models.call_method(self, o, name, args, kw)


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
          "LShift": "lshift", "RShift": "rshift", "BitOr": "or", "BitAnd": "and", "BitXor": "xor"}


class _Miss:
    def __repr__(self):
        return "MISSING"


_MISS = _Miss()
MISSING = _MISS


class _Deco:
    def __init__(self, kind, func):
        self.kind, self.func = kind, func
        self.name = getattr(func, "name", kind)


class _Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class _SuperVal:
    def __init__(self, after, start, obj):
        self.after, self.start, self.obj = after, start, obj


class _ClassNS(dict):
    """namespace of a class body, evaluated lazily"""

    def __init__(self, it, cls):
        self.it, self.cls = it, cls

    def __contains__(self, n):
        return n in self.cls.members

    def __getitem__(self, n):
        return self.it.class_attr(self.cls, n, self.cls.members[n])


def _h(v):
    """value usable inside hash-consed terms/events"""
    if isinstance(v, (AList,)):
        return ("list",) + tuple(_h(x) for x in v.items)
    if isinstance(v, ADict):
        return ("dict",) + tuple((_h(k), _h(x)) for k, x in v.d.items())
    if isinstance(v, ASet):
        return ("set",) + tuple(_h(x) for x in v.items)
    if isinstance(v, tuple):
        return tuple(_h(x) for x in v)
    if isinstance(v, slice):
        return ("slice", repr(v))
    if isinstance(v, (AIter, ACtx)):
        return ("iterator", v.id)
    return v


def explore(repo, fn, stubs=None, limit=4000, setup=None):
    """enumerate the partitions of `fn(interp)`; returns list of PathResult"""
    results = []
    work = [()]
    n = 0
    t0 = time.thread_time()
    while work:
        if n > 40 and time.thread_time() - t0 > EXPLORE_SECONDS:
            raise AnalysisError("more than %d seconds, %d partitions; last decisions %r" % (EXPLORE_SECONDS, n, results[-1].interp.log[-6:] if results else None))
        prefix = work.pop()
        it = Interp(repo, prefix, stubs)
        if setup:
            setup(it)
        it_last = it
        n += 1
        if n > limit:
            it_last = results[-1].interp if results else it
            raise AnalysisError("more than %d partitions; last decisions %r" % (limit, it_last.log[-6:]))
        try:
            v = fn(it)
            res = PathResult("return", v, it)
        except Raised as r:
            res = PathResult("raise", r.exc, it)
            res.raise_node = r.node
            res.raise_mod = r.mod
        except Cut as c:
            res = PathResult("cut", str(c), it)
        except Stuck as c:
            res = PathResult("stuck", str(c), it)
        except Infeasible:
            res = None
        # schedule siblings
        for i in range(len(it.taken) - 1, len(prefix) - 1, -1):
            c, k = it.taken[i]
            for alt in range(c + 1, k):
                work.append(tuple(x for x, _ in it.taken[:i]) + (alt,))
        if res is not None:
            res.path = tuple(x for x, _ in it.taken)
            results.append(res)
    return results
