"""Abstract value domain of the analysis.

Concrete Python immutables (int, str, bool, None, float, bytes, tuple) stand for
themselves (constant propagation).  Everything the source text of /repo cannot fix
is a hash-consed symbolic term `Sym`; mutable containers and instances are abstract
heap cells (AList, ADict, ASet, AObj).
"""
import re
import itertools


class Sym:
    __slots__ = ("kind", "args", "_h")
    _table = {}

    def __new__(cls, kind, *args):
        key = (kind, args)
        o = cls._table.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind = kind
            o.args = args
            o._h = hash(key)
            cls._table[key] = o
        return o

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        k, a = self.kind, self.args
        if k == "hole":
            return "<%s>" % a[0]
        if k == "int":
            return "#%s" % a[0]
        if k == "tmpl":
            return "`" + "".join(p if isinstance(p, str) else "{%r}" % (p,) for p in a) + "`"
        if k == "lin":
            s = "+".join("%s%r" % ("" if c == 1 else "%d*" % c, t) for t, c in a[1])
            return "(%s%+d)" % (s, a[0]) if a[0] else "(%s)" % s
        return "%s(%s)" % (k, ", ".join(map(repr, a)))


def hole(name, lang="ident"):
    """String hole: lang in ident, Upper, digits, expr, text, hex, byte."""
    return Sym("hole", name, lang)


def symint(name):
    return Sym("int", name)


STRKINDS = {"hole", "tmpl", "strop"}
INTKINDS = {"int", "lin", "intop"}


def is_strsym(v):
    return isinstance(v, Sym) and v.kind in STRKINDS


def is_intsym(v):
    return isinstance(v, Sym) and v.kind in INTKINDS


def is_str(v):
    return isinstance(v, str) or is_strsym(v)


def tmpl(*pieces):
    out = []
    for p in pieces:
        if isinstance(p, Sym) and p.kind == "tmpl":
            seq = p.args
        else:
            seq = (p,)
        for q in seq:
            if isinstance(q, bool) or q is None or isinstance(q, (int, float)):
                q = str(q)
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            else:
                out.append(q)
    if not out:
        return ""
    if len(out) == 1:
        if isinstance(out[0], str):
            return out[0]
        if is_strsym(out[0]):
            return out[0]
    return Sym("tmpl", *out)


def pieces(v):
    if isinstance(v, str):
        return (v,) if v else ()
    if isinstance(v, Sym) and v.kind == "tmpl":
        return v.args
    return (v,)


# ---- linear integer terms -------------------------------------------------

def _lin_parts(v):
    if isinstance(v, bool):
        return int(v), {}
    if isinstance(v, int):
        return v, {}
    if v.kind == "lin":
        return v.args[0], dict(v.args[1])
    return 0, {v: 1}


def mklin(c, d):
    d = {k: x for k, x in d.items() if x != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return Sym("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def lin_add(a, b, sign=1):
    ca, da = _lin_parts(a)
    cb, db = _lin_parts(b)
    for k, x in db.items():
        da[k] = da.get(k, 0) + sign * x
    return mklin(ca + sign * cb, da)


def lin_scale(a, n):
    c, d = _lin_parts(a)
    return mklin(c * n, {k: x * n for k, x in d.items()})


def lin_split(v):
    """-> (const, form) where form is a canonical constant-free term, scaled sign-normal"""
    c, d = _lin_parts(v)
    return c, d


# ---- heap -----------------------------------------------------------------

_ids = itertools.count()


class Cell:
    def __init__(self):
        self.id = next(_ids)


class AList(Cell):
    def __init__(self, items=(), kind="list"):
        super().__init__()
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        return "%s%r" % ("" if self.kind == "list" else self.kind, self.items)


class AIter(Cell):
    """A lazy iterator: `py` is a Python iterator over abstract values."""

    def __init__(self, py, kind="iterator"):
        super().__init__()
        self.py, self.kind = iter(py), kind

    def __repr__(self):
        return "<%s#%d>" % (self.kind, self.id)


class ACtx(Cell):
    """A context manager made by contextlib.contextmanager: the generator around the body."""

    def __init__(self, gen):
        super().__init__()
        self.gen = gen


class ADict(Cell):
    def __init__(self, items=None, default=None):
        super().__init__()
        self.d = dict(items or {})
        self.default = default

    def __repr__(self):
        return "AD%r" % (self.d,)


class ASet(Cell):
    def __init__(self, items=()):
        super().__init__()
        self.items = []
        for i in items:
            if i not in self.items:
                self.items.append(i)

    def __repr__(self):
        return "AS%r" % (self.items,)


class AObj(Cell):
    """Instance of an analysed class (cls: ClassVal).  `cands` (if not None) is the
    finite set of classes the object may still belong to on this path."""

    def __init__(self, cls, attrs=None, name=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.name = name
        self.cands = None
        self.hook = None      # attribute hook for modelled (opaque) children
        self.value = None     # builtin payload (exceptions' args, enum value)

    def __repr__(self):
        n = self.cls.name if self.cls is not None else "?"
        if self.name:
            return "%s:%s" % (n, self.name)
        return "<%s#%d>" % (n, self.id)


class ExtVal:
    """A name of the standard library / third party: only its dotted path is known."""
    _t = {}

    def __new__(cls, path):
        o = cls._t.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._t[path] = o
        return o

    @property
    def name(self):
        return self.path.split(".")[-1]

    def __repr__(self):
        return "ext:%s" % self.path


class BuiltinMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "%r.%s" % (self.obj, self.name)


class PyFunc:
    """A model (transfer function) supplied by the analysis."""

    def __init__(self, fn, name="model"):
        self.fn, self.name = fn, name

    def __repr__(self):
        return "model:%s" % self.name


class ModuleVal:
    def __init__(self, name, tree, path):
        self.name, self.tree, self.path = name, tree, path
        self.defs = {}

    def __repr__(self):
        return "module:%s" % self.name


class ClassVal:
    def __init__(self, name, module, node, bases, env=None):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.env = env
        self.members = {}
        self.qual = module.name + "." + name if module else name
        for st in node.body if node else []:
            import ast
            for s in _flatten(st):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if s.name in self.members and any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                        continue    # the accessor of a property: the getter stays the member
                    self.members[s.name] = s
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                self.members[n.id] = s
                elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                    self.members[s.target.id] = s
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro()) if isinstance(b, ClassVal) else [b])
            seqs.append(list(self.bases))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "class:%s" % self.name


def _flatten(st):
    import ast
    if isinstance(st, ast.If):
        for s in st.body:
            yield from _flatten(s)
        for s in st.orelse:
            yield from _flatten(s)
    else:
        yield st


class FuncVal:
    def __init__(self, node, module, env, cls=None, name=None):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = None
        self.attrs = {}
        self.cm = False       # decorated with contextlib.contextmanager
        self.memo = None      # results by arguments of a function with functools.cache

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "func:%s" % self.qual


class BoundVal:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "bound:%r" % (self.func,)


def int_hole(name):
    """The number written in a digits hole: {name_maxN:digits} stands for 0..N, any other for an uint64."""
    top = re.search(r"_max(\d+)$", name)
    return Sym("int", "int:" + name, 0, int(top.group(1)) if top else 2 ** 64 - 1)
