"""Transfer functions for Python built-ins, str/list/dict/set methods, `re`, and the few
standard-library names /repo uses.  Unknown externals yield opaque terms."""
import ast
import itertools as _it
import re as _re

from .values import *
from . import engine as E


def call_ext(it, f, args, kw):
    name = f.path
    if name.startswith("builtins."):
        n = name[9:]
        fn = BUILTIN.get(n)
        if fn is not None:
            return fn(it, args, kw)
        import builtins as pb
        if n in ("bytes.fromhex", "int.from_bytes") and all(isinstance(x, (str, int, bytes)) for x in args) and not kw:
            c, m = n.split(".")
            try:
                return getattr(getattr(pb, c), m)(*args)
            except ValueError as e:
                it.pyraise("ValueError", str(e))
        if "." in n:
            c, m = n.split(".")
            if m in ("fromkeys",):
                return ADict({x: (args[1] if len(args) > 1 else None) for x in it.iterate(args[0])})
            if m == "maketrans":
                return to_abs(str.maketrans(*[to_py(x) for x in args]))
            if c in ("str", "list", "dict", "set", "tuple", "bytes", "int", "frozenset") and args and \
                    not isinstance(getattr(pb, c).__dict__.get(m), (classmethod, staticmethod)) and m not in ("fromhex", "from_bytes", "fromkeys"):
                return it.call(it.getattr(args[0], m), args[1:], kw)
        if n in PURE_BUILTINS:
            r = pure(it, getattr(pb, n), args, kw)
            if r is not NotImplemented:
                return r
        t = getattr(pb, n, None)
        if isinstance(t, type) and issubclass(t, BaseException):
            o = AObj(f)
            o.value = tuple(args)
            return o
        it.event("ext-call", name, tuple(E._h(a) for a in args))
        return Sym("opaque", "%s(%s)" % (n, ", ".join(repr(E._h(a)) for a in args)))
    fn = EXT.get(name) or EXT.get(f.name if name.startswith(("typing.", "re.", "functools.", "itertools.", "collections.")) else "")
    if fn is not None:
        return fn(it, args, kw)
    r = pure_module(it, name, args, kw)
    if r is not NotImplemented:
        return r
    it.event("ext-call", name, tuple(E._h(a) for a in args), tuple((k, E._h(v)) for k, v in kw.items()))
    hs = ", ".join([repr(E._h(a)) for a in args] + ["%s=%r" % (k, E._h(v)) for k, v in kw.items()])
    return Sym("opaque", "%s(%s)" % (name, hs))


class NotConcrete(Exception):
    pass


def to_py(v):
    """abstract value made of constants only -> the Python value"""
    if isinstance(v, AList):
        return [to_py(x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(to_py(x) for x in v)
    if isinstance(v, ADict):
        return {to_py(k): to_py(x) for k, x in v.d.items()}
    if isinstance(v, ASet):
        return {to_py(x) for x in v.items}
    if v is None or isinstance(v, (str, int, float, bytes)):
        return v
    if isinstance(v, AIter):
        raise NotConcrete()
    if isinstance(v, ExtVal) and v.path in ("builtins.str", "builtins.int", "builtins.len", "builtins.float"):
        import builtins as pb
        return getattr(pb, v.name)
    raise NotConcrete()


def to_abs(v):
    if isinstance(v, (list,)):
        return AList([to_abs(x) for x in v])
    if isinstance(v, tuple):
        return tuple(to_abs(x) for x in v)
    if isinstance(v, dict):
        return ADict({k: to_abs(x) for k, x in v.items()})
    if isinstance(v, (set, frozenset)):
        return ASet(sorted(v, key=repr))
    if v is None or isinstance(v, (str, int, float, bytes)):
        return v
    if isinstance(v, bytearray):
        return bytes(v)
    raise NotConcrete()


PURE_BUILTINS = {"divmod", "round", "hex", "bin", "oct", "float", "chr", "ascii", "pow", "complex", "bytearray", "bytes"}
# standard-library functions without effects, applied to constants only
PURE_MODULES = {"math": None, "struct": ("pack", "unpack", "calcsize"), "string": ("capwords",), "bisect": ("bisect_left", "bisect_right", "bisect"),
                "heapq": ("nsmallest", "nlargest"), "keyword": ("iskeyword",), "binascii": ("hexlify", "unhexlify", "crc32"),
                "json": ("dumps", "loads"), "shlex": ("split", "quote"), "html": ("escape",), "unicodedata": ("category",),
                "textwrap": ("shorten", "wrap", "fill"), "difflib": ("get_close_matches",)}


def pure(it, fn, args, kw):
    try:
        aa, kk = [to_py(x) for x in args], {n: to_py(x) for n, x in kw.items()}
    except NotConcrete:
        return NotImplemented
    try:
        r = fn(*aa, **kk)
    except Exception as e:
        n = type(e).__name__
        import builtins as pb
        it.pyraise(n if hasattr(pb, n) else "ValueError", str(e))
    try:
        return to_abs(r)
    except NotConcrete:
        return NotImplemented


def pure_module(it, name, args, kw):
    mod, _, fn = name.rpartition(".")
    if mod not in PURE_MODULES or PURE_MODULES[mod] is not None and fn not in PURE_MODULES[mod]:
        return NotImplemented
    import importlib
    f = getattr(importlib.import_module(mod), fn, None)
    return pure(it, f, args, kw) if callable(f) else NotImplemented


def ext_constant(path):
    """value of a constant of the standard library, else None"""
    mod, _, n = path.rpartition(".")
    if mod in ("string", "math") or path in ("sys.maxsize", "os.sep", "os.linesep", "os.extsep") or mod == "re" and n.isupper():
        import importlib
        v = getattr(importlib.import_module(mod), n, None)
        if isinstance(v, (str, int, float)) and not isinstance(v, bool):
            return int(v) if mod == "re" else v
    return None


# ------------------------------------------------------------------ builtins

def b_len(it, a, k):
    o = it.resolve(a[0])
    if isinstance(o, (AList, ASet)):
        return len(o.items)
    if isinstance(o, ADict):
        return len(o.d)
    if isinstance(o, (str, tuple, bytes)):
        return len(o)
    if isinstance(o, AObj) and isinstance(o.cls, ClassVal) and it.find_member(o.cls, "__len__"):
        return it.call(it.getattr(o, "__len__"), [])
    if isinstance(o, AObj) and it.nt_fields(o.cls):
        return len(it.nt_fields(o.cls))
    if isinstance(o, AIter):
        it.pyraise("TypeError", "object of type 'generator' has no len()")
    if o is None:
        it.pyraise("TypeError", "object of type 'NoneType' has no len()")
    if is_strsym(o):
        n = 0
        rest = []
        for p in pieces(it.rtmpl(o)):
            if isinstance(p, str):
                n += len(p)
            else:
                rest.append(p)
        if not rest:
            return n
        r = n
        for p in rest:
            r = lin_add(r, Sym("intop", "len", p))
        return r
    return Sym("intop", "len", E._h(o))


def b_isinstance(it, a, k):
    return it.isinstance(a[0], a[1])


def b_issubclass(it, a, k):
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    c = a[0]
    if isinstance(c, Sym) and c.kind == "typeof":
        return it.isinstance(c.args[0], a[1])
    return any(it.class_issub(c, x) for x in cs)


def b_type(it, a, k):
    return it.typeof(it.resolve(a[0]))


def b_str(it, a, k):
    return it.to_str(a[0]) if a else ""


def b_repr(it, a, k):
    return it.to_repr(a[0])


def b_int(it, a, k):
    v = it.resolve(a[0]) if a else 0
    if isinstance(v, str):
        try:
            return int(v, *(x for x in a[1:]), **k)
        except ValueError:
            it.pyraise("ValueError", "invalid literal for int()")
    if isinstance(v, (int, float)):
        return int(v)
    if is_intsym(v):
        return v
    if is_strsym(v):
        ps = pieces(v)
        if len(ps) == 1 and is_intsym(ps[0]):
            return ps[0]
        if len(ps) == 1 and ps[0].kind == "hole" and ps[0].args[1] in ("digits", "digit1"):
            return int_hole(ps[0].args[0])
        if len(a) > 1:
            return Sym("intop", "int", v, a[1])
        s, m = it.concretise(v)
        try:
            int(s)
        except ValueError:
            if not any(isinstance(p, Sym) and p.kind == "hole" and p.args[1] == "text" for p in ps):
                it.pyraise("ValueError", "invalid literal for int()")
        return Sym("intop", "int", v)
    if v is None or isinstance(v, Cell):
        it.pyraise("TypeError", "int()")
    return Sym("intop", "int", E._h(v))


def b_bool(it, a, k):
    return it.truth(a[0]) if a else False


def b_list(it, a, k):
    return AList(it.iterate(a[0]) if a else [])


def b_tuple(it, a, k):
    return tuple(it.iterate(a[0])) if a else ()


def b_set(it, a, k):
    s = ASet()
    for x in (it.iterate(a[0]) if a else []):
        if not it.contains(s, x):
            s.items.append(x)
    return s


def b_dict(it, a, k):
    d = ADict()
    if a:
        o = it.resolve(a[0])
        if isinstance(o, ADict):
            d.d.update(o.d)
        elif isinstance(o, Sym):
            return Sym("opaque", "dict(%r)" % (o,))
        else:
            for kv in it.iterate(o):
                x, y = it.iterate(kv)
                d.d[it.hashable(x)] = y
    d.d.update(k)
    return d


def b_range(it, a, k):
    v = [it.resolve(x) for x in a]
    v = [x if it.rep_int(x) is None else it.rep_int(x) for x in v]
    if all(isinstance(x, int) for x in v):
        return AList(list(range(*v)))
    lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
    if isinstance(lo, int) and is_intsym(hi) and st == 1:
        for n in range(0, 5):
            if it.int_cmp("<=", hi, lo + n):
                return AList(list(range(lo, lo + n)))
        raise E.Cut("range bound")
    return Sym("opaque", "range(%s)" % ", ".join(map(repr, v)))


def b_enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return AIter(((lin_add(start, i), x) for i, x in enumerate(it.pull(a[0]).py)), "enumerate")


def b_zip(it, a, k):
    if k.get("strict") is True:
        ls = [it.iterate(x) for x in a]
        if len(set(map(len, ls))) > 1:
            it.pyraise("ValueError", "zip() argument lengths differ")
        return AIter([tuple(t) for t in zip(*ls)], "zip")
    return AIter(zip(*[it.pull(x).py for x in a]), "zip")


def b_reversed(it, a, k):
    return AIter(list(reversed(it.iterate(a[0]))), "reversed")


def b_sorted(it, a, k):
    items = it.iterate(a[0])
    key = k.get("key")
    ks = [it.resolve(it.call(key, [x]) if key is not None else x) for x in items]
    ks = [tuple(it.nt_items(x)) if isinstance(x, AObj) and it.nt_fields(x.cls) else x.value if it._intmix(x) else x for x in ks]
    rev = it.truth(k.get("reverse", False))
    if any(isinstance(x, AObj) and isinstance(x.cls, ClassVal) and it.find_member(x.cls, "__lt__") for x in ks):
        import functools
        order = sorted(range(len(items)), key=functools.cmp_to_key(lambda i, j: -1 if it.compare("Lt", ks[i], ks[j]) else 1 if it.compare("Lt", ks[j], ks[i]) else 0), reverse=rev)
        return AList([items[i] for i in order])
    if any(isinstance(x, (Sym, Cell)) for x in ks):
        return AList(items)
    try:
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev)
    except TypeError:
        if any(isinstance(y, (Sym, Cell)) for x in ks if isinstance(x, tuple) for y in x):
            return AList(items)
        it.pyraise("TypeError", "'<' not supported between instances")
    return AList([items[i] for i in order])


def b_getattr(it, a, k):
    return it.getattr(a[0], a[1], a[2] if len(a) > 2 else NotImplemented)


def b_setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


def b_hasattr(it, a, k):
    return it.hasattr(a[0], a[1])


def b_filter(it, a, k):
    return AIter((x for x in it.pull(a[1]).py if it.truth(x if a[0] is None else it.call(a[0], [x]))), "filter")


def b_map(it, a, k):
    return AIter((it.call(a[0], list(t)) for t in zip(*[it.pull(x).py for x in a[1:]])), "map")


def b_any(it, a, k):
    return any(it.truth(x) for x in it.iter_live(a[0]))


def b_all(it, a, k):
    return all(it.truth(x) for x in it.iter_live(a[0]))


def _minmax(which):
    def f(it, a, k):
        items = it.iterate(a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            it.pyraise("ValueError", "empty sequence")
        key = k.get("key")
        ks = [it.resolve(it.call(key, [x]) if key is not None else x) for x in items]
        best = 0
        for i in range(1, len(items)):
            x, y = ks[best], ks[i]
            if isinstance(x, (int, float, str)) and isinstance(y, (int, float, str)):
                better = y > x if which == "max" else y < x
            elif (isinstance(x, int) or is_intsym(x)) and (isinstance(y, int) or is_intsym(y)):
                lo, hi, _ = it.bound(lin_add(y, x, -1))
                if which == "max":
                    if lo is not None and lo > 0:
                        better = True
                    elif hi is not None and hi <= 0:
                        better = False
                    elif len(items) == 2 and not it.user.get("fork_minmax"):
                        return Sym("intop", "max", *sorted((x, y), key=repr))
                    else:
                        better = it.int_cmp(">", y, x)
                else:
                    if hi is not None and hi < 0:
                        better = True
                    elif lo is not None and lo >= 0:
                        better = False
                    elif len(items) == 2 and not it.user.get("fork_minmax"):
                        return Sym("intop", "min", *sorted((x, y), key=repr))
                    else:
                        better = it.int_cmp("<", y, x)
            else:
                return Sym("intop", which, *sorted((E._h(z) for z in ks), key=repr))
            if better:
                best = i
        return items[best]
    return f


def b_sum(it, a, k):
    v = a[1] if len(a) > 1 else 0
    import ast as _a
    for x in it.iterate(a[0]):
        v = it.binop(_a.Add(), v, x)
    return v


def b_iter(it, a, k):
    if len(a) == 2:
        def calls():
            while True:
                v = it.call(a[0], [])
                if it.eq(v, a[1]):
                    return
                yield v
        return AIter(calls(), "callable_iterator")
    return it.pull(a[0])


def b_next(it, a, k):
    o = a[0]
    if isinstance(o, AIter):
        try:
            return next(o.py)
        except StopIteration:
            if len(a) > 1:
                return a[1]
            it.pyraise("StopIteration", "")
    if isinstance(o, AList):
        if o.items:
            return o.items.pop(0)
        if len(a) > 1:
            return a[1]
        it.pyraise("StopIteration", "")
    if isinstance(o, AObj) and isinstance(o.cls, ClassVal) and it.find_member(o.cls, "__next__"):
        try:
            return it.call(it.getattr(o, "__next__"), [])
        except E.Raised as r:
            if len(a) > 1 and E.cls_name(r.exc.cls) == "StopIteration":
                return a[1]
            raise
    return Sym("opaque", "next(%r)" % (E._h(o),))


def b_print(it, a, k):
    it.event("print", tuple(E._h(x) for x in a))


def b_abs(it, a, k):
    v = it.resolve(a[0])
    if isinstance(v, int):
        return abs(v)
    if it.int_cmp(">=", v, 0):
        return v
    return lin_scale(v, -1)


def b_callable(it, a, k):
    o = it.resolve(a[0])
    if isinstance(o, AObj) and isinstance(o.cls, ClassVal):
        return it.find_member(o.cls, "__call__") is not None
    return isinstance(o, (FuncVal, BoundVal, ClassVal, ExtVal, PyFunc, BuiltinMethod, E._Partial))


def b_property(it, a, k):
    d = E._Deco("property", a[0] if a else k.get("fget"))
    d.fset = a[1] if len(a) > 1 else k.get("fset")
    return d


def b_classmethod(it, a, k):
    return E._Deco("classmethod", a[0])


def b_staticmethod(it, a, k):
    return E._Deco("staticmethod", a[0])


def b_format(it, a, k):
    return it.format_value(a[0], None, a[1] if len(a) > 1 else "")


def b_delattr(it, a, k):
    o = it.resolve(a[0])
    if not isinstance(o, AObj) or a[1] not in o.attrs:
        it.pyraise("AttributeError", "no such attribute")
    del o.attrs[a[1]]


def b_dir(it, a, k):
    o = it.resolve(a[0])
    names = set(o.attrs) if isinstance(o, AObj) else set()
    c = o if isinstance(o, ClassVal) else o.cls if isinstance(o, AObj) else None
    for m in (c.mro() if isinstance(c, ClassVal) else ()):
        if isinstance(m, ClassVal):
            names |= set(m.members)
    return AList(sorted(names))


def b_id(it, a, k):
    return Sym("opaque", "id(%r)" % (E._h(a[0]),))


def b_open(it, a, k):
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    o = AObj(ExtVal("builtins.file"), name="file")
    o.value = (E._h(a[0]), mode)
    o.hook = file_hook
    it.event("open", E._h(a[0]), mode, o)
    return o


def file_hook(it, o, name):
    if isinstance(name, tuple):
        return name[0] == "?" or NotImplemented
    if name in ("read", "write", "readlines", "truncate", "seek", "close", "readline", "flush", "writelines"):
        def f(it2, a, k, name=name):
            it2.event("file-" + name, o, tuple(E._h(x) for x in a))
            if name in ("read", "readline"):
                return Sym("hole", "contents#%s" % (o.value and repr(o.value[0])), "text")
            if name == "readlines":
                return AList([Sym("hole", "fline0", "text")])
            return None
        return PyFunc(f, "file." + name)
    if name in ("__enter__", "__iter__"):
        return NotImplemented
    return NotImplemented


def b_isdigit(it, a, k):
    return NotImplemented


def b_hash(it, a, k):
    o = it.resolve(a[0])
    if isinstance(o, AObj) and isinstance(o.cls, ClassVal) and it.find_member(o.cls, "__hash__"):
        return it.call(it.getattr(o, "__hash__"), [])
    return o if isinstance(o, int) else Sym("intop", "hash", E._h(it.hashable(o)))


def b_ord(it, a, k):
    return ord(a[0]) if isinstance(a[0], str) and len(a[0]) == 1 else Sym("intop", "ord", E._h(a[0]))


def b_vars(it, a, k):
    return it.getattr(a[0], "__dict__")


def b_slice(it, a, k):
    return slice(*a)


def b_bytes(it, a, k):
    if a and isinstance(a[0], str) and (len(a) > 1 or k):
        return it.call_method(a[0], "encode", a[1:], k)
    r = pure(it, bytes, a, k)
    return Sym("opaque", "bytes") if r is NotImplemented else r


def b_object(it, a, k):
    return AObj(ExtVal("builtins.object"))


BUILTIN = {n[2:]: f for n, f in list(globals().items()) if n.startswith("b_")}
BUILTIN["min"] = _minmax("min")
BUILTIN["max"] = _minmax("max")
BUILTIN["frozenset"] = b_set


# ------------------------------------------------------------------ externals

def t_get_type_hints(it, a, k):
    c = it.resolve(a[0])
    if isinstance(c, Sym) and c.kind == "typeof":
        c = it.choose_class(c.args[0])
    return it.type_hints(c)


def t_cast(it, a, k):
    return a[1]


def _flagged(it, p, flags):
    """a pattern with its flags written inside of it"""
    f = it.resolve(flags)
    if isinstance(f, Sym) or not f or not isinstance(p, str):
        return p
    s = "".join(c for c, v in (("a", _re.A), ("i", _re.I), ("m", _re.M), ("s", _re.S), ("x", _re.X)) if int(f) & int(v))
    return "(?%s)%s" % (s, p) if s else p


def re_compile(it, a, k):
    if isinstance(a[0], Sym) and a[0].kind == "regex":
        return a[0]
    return Sym("regex", _flagged(it, it.resolve(a[0]), a[1] if len(a) > 1 else k.get("flags", 0)))


def _pat(p):
    if isinstance(p, Sym) and p.kind == "regex":
        return p.args[0]
    return p


def _mk_match(it, m, mp, pattern, line, how):
    if m is None:
        return None
    groups = {}
    for i, g in enumerate((m.group(),) + m.groups()):
        groups[i] = it.abstract(g, mp) if g is not None else None
    for n, g in m.groupdict().items():
        groups[n] = it.abstract(g, mp) if g is not None else None
    named = tuple(m.re.groupindex)
    it.fresh_n += 1
    s = Sym("match", pattern, line, how, it.fresh_n)
    it.user.setdefault("matches", {})[s] = (groups, named, len(m.groups()), m.span())
    it.user.setdefault("matchobjs", {})[s] = m
    it.event("re", how, pattern, line, s)
    return s


def _re_op(how):
    def f(it, a, k):
        p, s = it.resolve(_pat(a[0])), it.rtmpl(a[1])
        flags = 0
        if not (isinstance(a[0], Sym) and a[0].kind == "regex"):
            p = _flagged(it, p, a[2] if len(a) > 2 else k.get("flags", 0))
        elif len(a) > 2 or k:
            # position arguments of the methods of a compiled pattern
            pos = [it.resolve(x) for x in a[2:]]
            if not isinstance(s, str) or not all(isinstance(x, int) for x in pos) or k:
                raise E.AnalysisError("re.%s with a position" % how)
            m = getattr(_re.compile(p), how)(s, *pos)
            return _mk_match(it, m, {}, p, s, how)
        if s is None:
            it.pyraise("TypeError", "expected string or bytes-like object")
        if is_strsym(p):
            ps, pm = it.concretise(p)
        else:
            ps = p
        if not isinstance(ps, str) or not is_str(s):
            return Sym("opaque", "re.%s(%r,%r)" % (how, E._h(a[0]), E._h(s)))
        h = it.user.get("re_hook")
        if h is not None:
            r = h(it, how, ps, s)
            if r is not NotImplemented:
                return r
        hasText = is_strsym(s) and any(isinstance(q, Sym) and q.kind in ("hole", "strop") and (q.kind == "strop" or q.args[1] in ("text", "line")) for q in pieces(s))
        if hasText:
            return re_text(it, how, ps, s)
        c, mp = it.concretise(s)
        m = getattr(_re, how)(ps, c, flags)
        it.event("re-use", how, ps, s, m is not None)
        return _mk_match(it, m, mp, ps, s, how)
    return f


def re_text(it, how, p, s):
    """match against an unconstrained string: fork; groups become fresh text holes
    (optional groups may be absent)"""
    # constant prefix of the regex vs known prefix facts
    lead = regex_literal_prefix(p)
    key = ("re", how, p, s)
    if key not in it.facts:
        if lead and how in ("match", "fullmatch"):
            if not it.str_pred("startswith", lambda x: x.startswith(lead), s, lead):
                it.facts[key] = False
                return None
        it.fork(key)
    if not it.facts[key]:
        return None
    rx = _re.compile(p)
    must = mandatory_groups(p)
    groups = {0: s if how == "fullmatch" else Sym("hole", "m0:%s" % p[:20], "text")}
    inv = {v: kk for kk, v in rx.groupindex.items()}
    it.fresh_n += 1
    for i in range(1, rx.groups + 1):
        nm = inv.get(i, str(i))
        if i in must or it.choose(2, "group %s absent" % nm) == 1:
            groups[i] = Sym("hole", "g:%s@%r" % (nm, s), "text")
        else:
            groups[i] = None
        if i in inv:
            groups[inv[i]] = groups[i]
    sy = Sym("match", p, s, how, it.fresh_n)
    it.user.setdefault("matches", {})[sy] = (groups, tuple(rx.groupindex), rx.groups, (0, 0))
    return sy


def regex_literal_prefix(p):
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    out = ""
    try:
        for op, av in sp.parse(p):
            if str(op) == "LITERAL":
                out += chr(av)
            else:
                break
    except Exception:
        return ""
    return out


def mandatory_groups(p):
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    out = set()

    def walk(seq):
        for op, av in seq:
            o = str(op)
            if o == "SUBPATTERN":
                if av[0]:
                    out.add(av[0])
                walk(av[3])
            elif o in ("MAX_REPEAT", "MIN_REPEAT"):
                if av[0] > 0:
                    walk(av[2])
    walk(sp.parse(p))
    return out


def re_findall(it, a, k):
    p, s = _pat(it.resolve(a[0])), it.rtmpl(a[1])
    if s is None:
        it.pyraise("TypeError", "expected string")
    c, mp = it.concretise(s) if is_str(s) else (None, None)
    if c is None or not isinstance(p, str):
        return Sym("symlist", "findall(%r,%r)" % (p, E._h(s)))
    out = []
    for r in _re.findall(p, c):
        out.append(tuple(it.abstract(x, mp) for x in r) if isinstance(r, tuple) else it.abstract(r, mp))
    return AList(out)


def re_finditer(it, a, k):
    p, s = _pat(it.resolve(a[0])), it.rtmpl(a[1])
    c, mp = it.concretise(s)
    return AIter((_mk_match(it, m, mp, p, s, "finditer") for m in _re.finditer(p, c)), "callable_iterator")


def re_split(it, a, k):
    p, s = _pat(it.resolve(a[0])), it.rtmpl(a[1])
    c, mp = it.concretise(s)
    mx = a[2] if len(a) > 2 else k.get("maxsplit", 0)
    return AList([it.abstract(x, mp) if x is not None else None for x in _re.split(p, c, maxsplit=mx)])


def re_sub(it, a, k):
    p, r, s = _pat(it.resolve(a[0])), a[1], it.rtmpl(a[2])
    if isinstance(p, str) and isinstance(r, str) and isinstance(s, str):
        return _re.sub(p, r, s)
    if isinstance(p, str) and is_str(s) and (not is_str(r) or isinstance(r, str)):
        c, mp = it.concretise(s)
        if any(isinstance(q, Sym) and (q.kind == "strop" or q.kind == "hole" and q.args[1] in ("text", "line")) for q in pieces(s)):
            return Sym("strop", "re.sub", E._h(p), E._h(r), s)
        out, at, cuts = [], 0, set()
        for m in _re.finditer(p, c):
            x = m.expand(r) if isinstance(r, str) else it.call(r, [_mk_match(it, m, mp, p, s, "finditer")])
            if not is_str(x):
                return Sym("strop", "re.sub", E._h(p), E._h(r), s)
            out += [it.abstract(c[at:m.start()], mp), it.abstract(x, mp) if isinstance(r, str) else x]
            at = m.end()
            cuts |= {m.start(), m.end()}
        for q in mp:
            i = c.find(q)
            while i >= 0:
                if any(i < x < i + len(q) for x in cuts):
                    return Sym("strop", "re.sub", E._h(p), E._h(r), s)
                i = c.find(q, i + 1)
        return tmpl(*out, it.abstract(c[at:], mp))
    return Sym("strop", "re.sub", E._h(p), E._h(r), s)


def re_subn(it, a, k):
    p, r, s = it.resolve(a[0]), it.resolve(a[1]), it.rtmpl(a[2])
    p = _pat(p)
    if all(isinstance(x, str) for x in (p, r, s)):
        return _re.subn(p, r, s)
    out = re_sub(it, a, k)
    return (out, Sym("intop", "subn", E._h(p), E._h(s)))


def re_escape(it, a, k):
    return _re.escape(a[0]) if isinstance(a[0], str) else a[0]


def tw_indent(it, a, k):
    s, pre = it.rtmpl(a[0]), a[1]
    if isinstance(s, str):
        import textwrap
        return textwrap.indent(s, pre)
    if isinstance(pre, str) and all(isinstance(p, str) or is_intsym(p) or p.kind == "hole" for p in pieces(s)):
        # no hole stands for more than one line; lines of nothing but free text may be blank
        ls = [[]]
        for p in pieces(s):
            if isinstance(p, str):
                first, *rest = p.split("\n")
                ls[-1].append(first)
                ls += [[x] for x in rest]
            else:
                ls[-1].append(p)
        solid = lambda p: bool(p.strip()) if isinstance(p, str) else is_intsym(p) or p.args[1] not in ("text", "line")
        if all(any(solid(p) for p in l) or all(isinstance(p, str) for p in l) for l in ls):
            out = []
            for i, l in enumerate(ls):
                out += (["\n"] if i else []) + ([pre] if any(solid(p) for p in l) else []) + l
            return tmpl(*out)
    return Sym("tmpl", Sym("strop", "indent", s, pre))


def tw_dedent(it, a, k):
    s, m = it.concretise(it.rtmpl(a[0]))
    import textwrap
    return it.abstract(textwrap.dedent(s), m)


def ast_literal_eval(it, a, k):
    v = it.rtmpl(a[0])
    if isinstance(v, str):
        try:
            return ast.literal_eval(v)
        except Exception:
            it.pyraise("SyntaxError", "malformed")
    ps = pieces(v)
    if is_strsym(v) and len(ps) >= 2 and isinstance(ps[0], str) and ps[0].startswith('"') and isinstance(ps[-1], str) and ps[-1].endswith('"'):
        inner = it.getslice(v, slice(1, -1))
        return Sym("strop", "unescape", inner)
    return Sym("opaque", "literal_eval(%r)" % (v,))


def f_partial(it, a, k):
    return E._Partial(a[0], a[1:], k)


def f_reduce(it, a, k):
    items = it.iterate(a[1])
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = it.call(a[0], [acc, x])
    return acc


def c_defaultdict(it, a, k):
    d = ADict(default=a[0] if a else None)
    if len(a) > 1:
        d.d.update(a[1].d)
    return d


def c_ordereddict(it, a, k):
    return b_dict(it, a, k)


def c_deque(it, a, k):
    return AList(it.iterate(a[0]) if a else [], "deque")


def _lazy(fn, *its):
    """an itertools function over abstract iterables"""
    return AIter(fn(*its), fn.__name__)


def i_chain(it, a, k):
    return AIter((x for s in a for x in it.pull(s).py), "chain")


def i_chain_from(it, a, k):
    return AIter((x for s in it.pull(a[0]).py for x in it.pull(s).py), "chain")


def i_takewhile(it, a, k):
    return AIter(_it.takewhile(lambda x: it.truth(it.call(a[0], [x])), it.pull(a[1]).py))


def i_dropwhile(it, a, k):
    return AIter(_it.dropwhile(lambda x: it.truth(it.call(a[0], [x])), it.pull(a[1]).py))


def i_filterfalse(it, a, k):
    return AIter((x for x in it.pull(a[1]).py if not it.truth(x if a[0] is None else it.call(a[0], [x]))))


def i_starmap(it, a, k):
    return AIter((it.call(a[0], it.iterate(x)) for x in it.pull(a[1]).py))


def i_accumulate(it, a, k):
    import ast as _a
    fn = a[1] if len(a) > 1 else k.get("func")

    def gen():
        acc, first = k.get("initial"), k.get("initial") is None
        if not first:
            yield acc
        for x in it.pull(a[0]).py:
            acc = x if first else it.binop(_a.Add(), acc, x) if fn is None else it.call(fn, [acc, x])
            first = False
            yield acc
    return AIter(gen())


def i_groupby(it, a, k):
    key = a[1] if len(a) > 1 else k.get("key")

    def gen():
        groups = []
        for x in it.pull(a[0]).py:
            v = x if key is None else it.call(key, [x])
            if not groups or not it.eq(groups[-1][0], v):
                if groups:
                    yield (groups[-1][0], AIter(groups[-1][1]))
                groups.append((v, []))
            groups[-1][1].append(x)
        if groups:
            yield (groups[-1][0], AIter(groups[-1][1]))
    return AIter(gen(), "groupby")


def i_count(it, a, k):
    st = a[0] if a else k.get("start", 0)
    step = a[1] if len(a) > 1 else k.get("step", 1)
    return AIter((lin_add(st, i * step) for i in _it.count()), "count")


def i_repeat(it, a, k):
    n = a[1] if len(a) > 1 else k.get("times")
    return AIter(_it.repeat(a[0]) if n is None else _it.repeat(a[0], n))


def i_cycle(it, a, k):
    return AIter(_it.cycle(it.pull(a[0]).py))


def i_tee(it, a, k):
    return tuple(AIter(x) for x in _it.tee(it.pull(a[0]).py, a[1] if len(a) > 1 else 2))


def i_compress(it, a, k):
    return AIter((x for x, s in zip(it.pull(a[0]).py, it.pull(a[1]).py) if it.truth(s)))


def i_combinatoric(name):
    return lambda it, a, k: AIter(getattr(_it, name)(it.iterate(a[0]), *a[1:], **k))


def i_batched(it, a, k):
    def gen():
        src = it.pull(a[0]).py
        while True:
            b = tuple(_it.islice(src, a[1]))
            if not b:
                return
            yield b
    return AIter(gen())


def i_zip_longest(it, a, k):
    return AIter(_it.zip_longest(*[it.pull(x).py for x in a], fillvalue=k.get("fillvalue")))


def i_pairwise(it, a, k):
    x = it.iterate(a[0])
    return AIter([tuple(t) for t in zip(x, x[1:])])


def i_islice(it, a, k):
    return AIter(_it.islice(it.pull(a[0]).py, *a[1:]))


def op_attrgetter(it, a, k):
    def get(it2, o, path):
        for n in path.split("."):
            o = it2.getattr(o, n)
        return o
    return PyFunc(lambda it2, b, kk: get(it2, b[0], a[0]) if len(a) == 1 else tuple(get(it2, b[0], x) for x in a), "attrgetter")


def op_itemgetter(it, a, k):
    return PyFunc(lambda it2, b, kk: it2.getitem(b[0], a[0]) if len(a) == 1 else tuple(it2.getitem(b[0], x) for x in a), "itemgetter")


def f_cache(it, a, k):
    if a and isinstance(a[0], FuncVal):
        return E.memoised(a[0])
    return PyFunc(lambda it2, b, kk: E.memoised(b[0]), "decorator")


def cm_decorator(it, a, k):
    f = a[0]
    if not isinstance(f, FuncVal):
        raise E.AnalysisError("contextmanager of %r" % (f,))
    g = FuncVal(f.node, f.module, f.env, f.cls, f.name)
    g.__dict__.update(f.__dict__)
    g.cm = True
    return g


def f_wraps(it, a, k):
    def deco(it2, b, kk):
        f, w = b[0], a[0]
        if isinstance(f, FuncVal):
            g = FuncVal(f.node, f.module, f.env, f.cls, f.name)
            g.__dict__.update(f.__dict__)
            g.attrs = dict(f.attrs)
            g.attrs["__name__"] = getattr(w, "name", None)
            g.attrs["__wrapped__"] = w
            return g
        return f
    return PyFunc(deco, "wraps")


def ctx_obj(path, enter, leave):
    o = AObj(ExtVal(path))
    o.hook = lambda it, o, name: NotImplemented
    o.ctx = (enter, leave)
    return o


def contextlib_suppress(it, a, k):
    return ctx_obj("contextlib.suppress", lambda it2: None, lambda it2, ex: ex is not None and any(it2.class_issub(ex.exc.cls, c) for c in a))


def contextlib_nullcontext(it, a, k):
    return ctx_obj("contextlib.nullcontext", lambda it2: a[0] if a else None, lambda it2, ex: False)


def contextlib_closing(it, a, k):
    def leave(it2, ex):
        it2.call(it2.getattr(a[0], "close"), [])
        return False
    return ctx_obj("contextlib.closing", lambda it2: a[0], leave)


def contextlib_exitstack(it, a, k):
    todo = []
    o = ctx_obj("contextlib.ExitStack", None, None)

    def leave(it2, ex):
        had = ex is not None
        while todo:
            c = todo.pop()
            try:
                if isinstance(c, tuple):
                    it2.call(*c)
                elif it2.ctx_exit(c, ex):
                    ex = None
            except E.Raised as e2:
                ex = e2
                if not todo:
                    raise
        return had and ex is None

    def hook(it2, ob, name):
        if name == "enter_context":
            def f(it3, b, kk):
                v = it3.ctx_enter(b[0])
                todo.append(b[0])
                return v
            return PyFunc(f, name)
        if name == "callback":
            return PyFunc(lambda it3, b, kk: todo.append((b[0], list(b[1:]), kk)), name)
        if name == "push":
            return PyFunc(lambda it3, b, kk: todo.append(b[0]), name)
        if name == "close":
            return PyFunc(lambda it3, b, kk: leave(it3, None) and None, name)
        return NotImplemented
    o.hook = hook
    o.ctx = (lambda it2: o, leave)
    return o


def c_chainmap(it, a, k):
    """reads only: later maps first, so that earlier ones win"""
    d = ADict()
    for m in reversed(a):
        m = it.resolve(m)
        if not isinstance(m, ADict):
            raise E.AnalysisError("ChainMap of %r" % (m,))
        for x, y in m.d.items():
            it.setitem(d, x, y)
    return d


def c_counter(it, a, k):
    d = ADict()
    d.counter = True
    counter_add(it, d, a, k)
    return d


def counter_add(it, d, a, k):
    import ast as _a
    if a:
        src = it.resolve(a[0])
        for x, n in (src.d.items() if isinstance(src, ADict) else ((x, 1) for x in it.iter_live(src))):
            kk = it.dict_key(d, x)
            d.d[x if kk is E._MISS else kk] = it.binop(_a.Add(), 0 if kk is E._MISS else d.d[kk], n)
    for x, n in k.items():
        d.d[x] = d.d.get(x, 0) + n


_nt = {}


def c_namedtuple(it, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    fields = [x[0] if isinstance(x, tuple) else x for x in (fields if isinstance(fields, list) else it.iterate(fields))]
    src = "class %s(NamedTuple):\n" % name + "".join("    %s: object\n" % f for f in fields) + ("" if fields else "    pass\n")
    dfl = k.get("defaults")
    key = (src, it.cur)
    c = _nt.get(key)
    if c is None:
        tree = ast.parse(src)
        c = _nt[key] = ClassVal(name, ModuleVal("namedtuple", tree, "namedtuple"), tree.body[0], [ExtVal("typing.NamedTuple")])
        c.qual = "namedtuple.%s#%d" % (name, len(_nt))
    if dfl is not None:
        ds = it.iterate(dfl)
        for f, d in zip(fields[len(fields) - len(ds):], ds):
            it.clsattrs[(c.qual, f)] = d
    return c


def simple_namespace(it, a, k):
    o = AObj(ExtVal("types.SimpleNamespace"))
    o.attrs.update(k)
    return o


def deep_copy(it, v, memo=None):
    memo = {} if memo is None else memo
    v = it.resolve(v)
    if isinstance(v, Cell) and v.id in memo:
        return memo[v.id]
    if isinstance(v, AList):
        r = memo[v.id] = AList((), v.kind)
        r.items = [deep_copy(it, x, memo) for x in v.items]
        return r
    if isinstance(v, tuple):
        return tuple(deep_copy(it, x, memo) for x in v)
    if isinstance(v, ADict):
        r = memo[v.id] = ADict({}, v.default)
        r.d = {deep_copy(it, x, memo): deep_copy(it, y, memo) for x, y in v.d.items()}
        return r
    if isinstance(v, ASet):
        return ASet([deep_copy(it, x, memo) for x in v.items])
    if isinstance(v, AObj):
        if v.hook is not None or it.is_enum(v.cls) if isinstance(v.cls, ClassVal) else True:
            return v
        r = memo[v.id] = AObj(v.cls, {}, v.name)
        r.value = v.value
        r.attrs = {n: deep_copy(it, x, memo) for n, x in v.attrs.items()}
        return r
    return v


def _op_bin(name):
    import ast as _a
    return lambda it, a, k: it.binop(getattr(_a, name)(), a[0], a[1])


def _op_cmp(name):
    return lambda it, a, k: it.compare(name, a[0], a[1])


def op_methodcaller(it, a, k):
    return PyFunc(lambda it2, b, kk: it2.call(it2.getattr(b[0], a[0]), list(a[1:]), k), "methodcaller")


def op_setitem(it, a, k):
    return it.setitem(a[0], a[1], a[2])


OPERATOR = {**{n: _op_bin(x) for n, x in (("add", "Add"), ("concat", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"),
                                          ("pow", "Pow"), ("lshift", "LShift"), ("rshift", "RShift"), ("or_", "BitOr"), ("and_", "BitAnd"), ("xor", "BitXor"), ("iadd", "Add"))},
            **{n: _op_cmp(x) for n, x in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot"))},
            "not_": lambda it, a, k: not it.truth(a[0]), "truth": lambda it, a, k: it.truth(a[0]),
            "contains": lambda it, a, k: it.contains(a[0], a[1]), "getitem": lambda it, a, k: it.getitem(a[0], a[1]), "setitem": op_setitem,
            "neg": lambda it, a, k: lin_scale(a[0], -1), "methodcaller": op_methodcaller}


def dc_fields(it, a, k):
    c = a[0] if isinstance(a[0], ClassVal) else it.resolve(a[0]).cls
    out = []
    for n, s, owner in it.dataclass_fields(c) or []:
        o = AObj(ExtVal("dataclasses.Field"))
        o.attrs.update(name=n, type=it.eval_annotation(s.annotation, owner))
        out.append(o)
    return tuple(out)


def dc_asdict(it, a, k):
    def conv(v):
        v = it.resolve(v)
        if isinstance(v, AObj) and isinstance(v.cls, ClassVal) and it.dataclass_fields(v.cls) is not None:
            return ADict({n: conv(v.attrs[n]) for n, _, _ in it.dataclass_fields(v.cls)})
        if isinstance(v, AList):
            return AList([conv(x) for x in v.items])
        if isinstance(v, tuple):
            return tuple(conv(x) for x in v)
        if isinstance(v, ADict):
            return ADict({conv(x): conv(y) for x, y in v.d.items()})
        return v
    return conv(a[0])


def dc_replace(it, a, k):
    o = it.resolve(a[0])
    kw = {n: o.attrs[n] for n, _, _ in it.dataclass_fields(o.cls)}
    kw.update(k)
    return it.instantiate(o.cls, [], kw)


def f_singledispatch(it, a, k):
    base, reg = a[0], []
    o = AObj(ExtVal("functools.singledispatch"))

    def register(it2, b, kk):
        if len(b) == 2:
            reg.append((b[0], b[1]))
            return b[1]
        f = b[0]
        if isinstance(f, FuncVal):
            ann = (f.node.args.posonlyargs + f.node.args.args)[0].annotation
            reg.append((it2.eval(ann, E.Env(f.module, f.env)), f))
            return f
        return PyFunc(lambda it3, c, kc: register(it3, [f, c[0]], {}), "register")

    def dispatch(it2, v):
        best = None
        for c, f in reg:
            if it2.isinstance(v, c) and (best is None or it2.class_issub(c, best[0])):
                best = (c, f)
        return base if best is None else best[1]

    def hook(it2, ob, name):
        if name == "register":
            return PyFunc(register, name)
        if name == "__call__":
            return PyFunc(lambda it3, b, kk: it3.call(dispatch(it3, b[0]), b, kk), name)
        if name == "dispatch":
            return PyFunc(lambda it3, b, kk: base, name)
        return NotImplemented
    o.hook = hook
    o.callable = True
    return o


def io_stringio(it, a, k):
    buf = [a[0]] if a else []
    o = AObj(ExtVal("io.StringIO"))

    def hook(it2, ob, name):
        if name == "write":
            return PyFunc(lambda it3, b, kk: buf.append(b[0]), name)
        if name == "writelines":
            return PyFunc(lambda it3, b, kk: buf.extend(it3.iterate(b[0])), name)
        if name in ("getvalue", "read"):
            return PyFunc(lambda it3, b, kk: tmpl(*buf), name)
        if name == "close":
            return PyFunc(lambda it3, b, kk: None, name)
        return NotImplemented
    o.hook = hook
    o.ctx = (lambda it2: o, lambda it2, ex: False)
    return o


def noop_decorator(it, a, k):
    if a and isinstance(a[0], (FuncVal, BoundVal, ClassVal, E._Deco)):
        return a[0]
    return PyFunc(lambda it2, b, kk: b[0], "decorator")


def i_product(it, a, k):
    import itertools as _i
    return AIter(_i.product(*[it.iterate(x) for x in a], repeat=k.get("repeat", 1)))


def new_type(it, a, k):
    return a[1]


def sys_stderr_write(it, a, k):
    it.event("stderr", tuple(E._h(x) for x in a))
    return None


def _b64(name):
    def f(it, a, k):
        import base64
        import binascii
        x = it.resolve(a[0])
        if not isinstance(x, (bytes, str)) or k or len(a) > 1:
            return Sym("opaque", "base64.%s(%r)" % (name, E._h(x)))
        try:
            return getattr(base64, name)(x)
        except binascii.Error as e:
            it.pyraise("ValueError", str(e))
        except (ValueError, TypeError) as e:
            it.pyraise(type(e).__name__, str(e))
    return f


EXT = {
    **{"base64." + n: _b64(n) for n in ("b32decode", "b32encode", "b64decode", "b64encode", "b16decode", "b16encode", "urlsafe_b64decode", "urlsafe_b64encode")},
    "typing.get_type_hints": t_get_type_hints, "typing.cast": t_cast, "typing.NewType": new_type,
    "re.compile": re_compile, "re.match": _re_op("match"), "re.fullmatch": _re_op("fullmatch"),
    "re.search": _re_op("search"), "re.findall": re_findall, "re.finditer": re_finditer, "re.split": re_split, "re.sub": re_sub, "re.subn": re_subn, "re.escape": re_escape,
    "textwrap.indent": tw_indent, "textwrap.dedent": tw_dedent, "ast.literal_eval": ast_literal_eval,
    "functools.partial": f_partial, "functools.reduce": f_reduce, "functools.wraps": f_wraps, "functools.total_ordering": noop_decorator,
    "functools.singledispatch": f_singledispatch,
    "functools.lru_cache": f_cache, "functools.cache": f_cache, "contextlib.contextmanager": cm_decorator,
    "contextlib.suppress": contextlib_suppress, "contextlib.nullcontext": contextlib_nullcontext, "contextlib.closing": contextlib_closing,
    "contextlib.ExitStack": contextlib_exitstack, "collections.ChainMap": c_chainmap, "collections.Counter": c_counter,
    "collections.namedtuple": c_namedtuple, "typing.NamedTuple": c_namedtuple, "types.SimpleNamespace": simple_namespace,
    "types.MappingProxyType": lambda it, a, k: a[0], "copy.deepcopy": lambda it, a, k: deep_copy(it, a[0]),
    **{"operator." + n: f for n, f in OPERATOR.items()},
    "dataclasses.fields": dc_fields, "dataclasses.asdict": dc_asdict, "dataclasses.replace": dc_replace, "io.StringIO": io_stringio,
    "collections.defaultdict": c_defaultdict, "collections.OrderedDict": c_ordereddict, "collections.deque": c_deque,
    "itertools.chain": i_chain, "itertools.chain.from_iterable": i_chain_from, "itertools.takewhile": i_takewhile,
    "itertools.count": i_count, "itertools.repeat": i_repeat, "itertools.zip_longest": i_zip_longest, "itertools.product": i_product,
    "itertools.dropwhile": i_dropwhile, "itertools.filterfalse": i_filterfalse, "itertools.starmap": i_starmap,
    "itertools.accumulate": i_accumulate, "itertools.groupby": i_groupby, "itertools.cycle": i_cycle, "itertools.tee": i_tee,
    "itertools.compress": i_compress, "itertools.batched": i_batched,
    **{"itertools." + n: i_combinatoric(n) for n in ("permutations", "combinations", "combinations_with_replacement")},
    "itertools.pairwise": i_pairwise, "itertools.islice": i_islice,
    "operator.attrgetter": op_attrgetter, "operator.itemgetter": op_itemgetter,
    "dataclasses.field": lambda it, a, k: ("__default_factory__", k["default_factory"]) if "default_factory" in k else k.get("default"),
    "sys.stderr.write": sys_stderr_write,
    "copy.copy": lambda it, a, k: copy_cell(it, a[0]),
}


def copy_cell(it, v):
    if isinstance(v, AList):
        return AList(v.items, v.kind)
    if isinstance(v, ADict):
        return ADict(v.d, v.default)
    if isinstance(v, ASet):
        return ASet(v.items)
    if isinstance(v, AObj):
        o = AObj(v.cls, v.attrs, v.name)
        o.hook, o.value = v.hook, v.value
        return o
    return v


# -------------------------------------------------------------------- methods

def call_method(it, o, name, a, k):
    o = it.resolve(o)
    if isinstance(o, Sym) and o.kind == "match":
        return match_method(it, o, name, a, k)
    if isinstance(o, Sym) and o.kind == "regex":
        return call_ext(it, ExtVal("re." + name), [o.args[0]] + a, k)
    if is_str(o):
        return str_method(it, o, name, a, k)
    if isinstance(o, AList):
        return list_method(it, o, name, a, k)
    if isinstance(o, ADict):
        return dict_method(it, o, name, a, k)
    if isinstance(o, ASet):
        return set_method(it, o, name, a, k)
    if isinstance(o, AIter):
        if name == "__next__":
            return b_next(it, [o], {})
        if name == "__iter__":
            return o
        if name == "send":
            try:
                return o.py.send(a[0])
            except StopIteration:
                it.pyraise("StopIteration", "")
        return None
    if isinstance(o, tuple):
        if name == "index":
            for i, x in enumerate(o):
                if it.eq(x, a[0]):
                    return i
            it.pyraise("ValueError", "tuple.index")
        if name == "count":
            return sum(1 for x in o if it.eq(x, a[0]))
    if isinstance(o, (int, bytes)) and not any(isinstance(x, (Sym, Cell)) for x in a):
        return getattr(o, name)(*a, **k)
    if isinstance(o, ClassVal) and name == "__subclasses__":
        return AList([c for c in it.repo.classes.values() if o in c.bases])
    it.event("opaque-method", E._h(o), name, tuple(E._h(x) for x in a))
    if is_intsym(o):
        return Sym("intop", name, o)
    return Sym("opaque", "%r.%s(%s)" % (E._h(o), name, ", ".join(repr(E._h(x)) for x in a)))


def match_method(it, m, name, a, k):
    groups, named, n, span = it.user["matches"][m]
    if name == "group":
        if not a:
            return groups[0]
        if len(a) > 1:
            return tuple(groups[x] for x in a)
        if a[0] not in groups:
            it.pyraise("IndexError", "no such group")
        return groups[a[0]]
    if name == "__getitem__":
        return groups[a[0]]
    if name == "groups":
        return tuple(groups[i] for i in range(1, n + 1))
    if name == "groupdict":
        dfl = a[0] if a else k.get("default")
        return ADict({x: groups[x] if groups[x] is not None else dfl for x in named})
    mo = it.user.get("matchobjs", {}).get(m)
    if name in ("start", "end", "span") and a and a[0] != 0:
        if mo is None:
            raise E.AnalysisError("match.%s of a group of free text" % name)
        return getattr(mo, name)(a[0])
    if name == "start":
        return span[0]
    if name == "end":
        return span[1]
    if name == "span":
        return span
    if name == "expand" and mo is not None and isinstance(m.args[1], str):
        return mo.expand(a[0])
    if name == "__len__":
        return n + 1
    return Sym("opaque", "match.%s" % name)


_SENT_SAFE = {"strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "removeprefix", "removesuffix", "splitlines", "replace", "expandtabs"}


def str_method(it, o, name, a, k):
    o = it.rtmpl(o)
    if isinstance(o, AObj):
        o = o.value
    a = [it.rtmpl(x) if is_strsym(x) else it.resolve(x) for x in a]
    if name == "join":
        items = it.iterate(a[0])
        out = []
        for i, x in enumerate(items):
            x = it.resolve(x)
            if not is_str(x):
                if x is None or isinstance(x, (int, AObj, AList)):
                    it.pyraise("TypeError", "sequence item: expected str instance")
                x = Sym("strop", "str", E._h(x))
            if i:
                out.append(o)
            out.append(x)
        return tmpl(*out)
    if name == "format":
        return str_format(it, o, a, k)
    if name == "format_map":
        return str_format(it, o, [], a[0].d)
    if name == "translate" and isinstance(o, str):
        try:
            return o.translate(to_py(a[0]))
        except NotConcrete:
            pass
    if isinstance(o, str) and not any(isinstance(x, (Sym, Cell)) for x in a) and not any(isinstance(x, (Sym, Cell)) for x in k.values()):
        try:
            r = getattr(o, name)(*a, **k)
        except (ValueError, TypeError, UnicodeError) as e:
            it.pyraise(type(e).__name__, str(e))
        if isinstance(r, list):
            return AList(r)
        return r
    if name in ("startswith", "endswith"):
        pre = a[0] if isinstance(a[0], tuple) else (a[0],)
        if any(is_strsym(x) for x in pre):
            if isinstance(o, str) or is_strsym(o):
                s, _ = it.concretise(o)
                return any(getattr(s, name)(it.concretise(x)[0]) for x in pre)
        for x in pre:
            if it.str_pred(name, lambda s: getattr(s, name)(x), o, x):
                return True
        return False
    if name == "strip" and is_strsym(o) and not a:
        # symbolic lines handed out by the stream are already stripped or treated as such
        ps = pieces(o)
        if all(isinstance(p, Sym) for p in ps):
            if o.kind == "hole" and o.args[1] in ("text", "line"):
                return o if it.user.get("strip_id", True) else Sym("strop", "strip", o)
    if name in ("isdigit", "isupper", "islower", "isidentifier", "isalpha", "isalnum", "isspace", "istitle"):
        return it.str_pred(name, lambda s: getattr(s, name)(), o)
    if name in ("count", "find", "index", "rfind", "rindex"):
        r = Sym("intop", name, o, E._h(a[0]))
        if name == "index":
            pass
        if name in ("find", "index") and isinstance(a[0], str):
            n = 0
            for p in pieces(o):
                if isinstance(p, str):
                    j = p.find(a[0])
                    if j >= 0:
                        return n + j
                    n += len(p)
                else:
                    break
        return r
    if name == "split" and a == ["\n"] and all(isinstance(p, str) or is_intsym(p) or p.kind == "hole" for p in pieces(o)):
        # no hole stands for more than one line
        ls = [[]]
        for p in pieces(o):
            if isinstance(p, str):
                first, *rest = p.split("\n")
                ls[-1].append(first)
                ls += [[x] for x in rest]
            else:
                ls[-1].append(p)
        return AList([tmpl(*l) for l in ls])
    hasText = any(isinstance(p, Sym) and (p.kind == "strop" or (p.kind == "hole" and p.args[1] in ("text", "line"))) for p in pieces(o))
    if name in _SENT_SAFE and not any(isinstance(x, Cell) for x in a) and (not hasText or name in ("split", "rsplit", "partition", "splitlines") and False):
        s, m = it.concretise(o)
        aa = []
        for x in a:
            if is_strsym(x):
                xs, xm = it.concretise(x)
                m.update(xm)
                aa.append(xs)
            else:
                aa.append(x)
        if all(not isinstance(x, Sym) for x in aa):
            r = getattr(s, name)(*aa, **k)
            if isinstance(r, list):
                return AList([it.abstract(x, m) for x in r])
            if isinstance(r, tuple):
                return tuple(it.abstract(x, m) for x in r)
            return it.abstract(r, m)
    if name in ("split", "rsplit", "splitlines"):
        sep = a[0] if a else None
        if isinstance(sep, str) and len(a) == 1:
            key = ("in", o, sep)
            if not any(isinstance(p, str) and sep in p for p in pieces(o)):
                if not it.fork(key):
                    return AList([o])
        return AList([Sym("strop", name, o, sep, 0), Sym("strop", name, o, sep, 1)])
    if name in ("partition", "rpartition"):
        return (Sym("strop", name, o, a[0], 0), a[0], Sym("strop", name, o, a[0], 2))
    if name in ("encode", "decode"):
        return Sym("strop", name, o)
    return Sym("strop", name, o, *[E._h(x) for x in a])


def str_format(it, o, a, k):
    if not isinstance(o, str):
        return Sym("strop", "format", o, tuple(E._h(x) for x in a))
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out.append(lit)
        if field is None:
            continue
        m = _re.match(r"^([^.\[]*)(.*)$", field)
        base, rest = m.group(1), m.group(2)
        if base == "":
            v = a[auto]
            auto += 1
        elif base.isdigit():
            v = a[int(base)]
        else:
            v = k[base]
        for x in _re.findall(r"\.(\w+)|\[(\w+)\]", rest):
            v = it.getattr(v, x[0]) if x[0] else it.getitem(v, int(x[1]) if x[1].isdigit() else x[1])
        if spec and "{" in spec:
            spec = str_format(it, spec, a[auto:], k)
            auto += 1
        out.append(it.format_value(v, conv, spec or ""))
    return tmpl(*out)


def list_method(it, o, name, a, k):
    if name == "append":
        o.items.append(a[0])
        if len(o.items) > 12000:
            raise E.Stuck("unbounded list growth")
        it.note_mut(o)
        return None
    if name in ("extend",):
        o.items.extend(it.iterate(a[0]))
        it.note_mut(o)
        return None
    if name == "insert":
        o.items.insert(a[0], a[1])
        it.note_mut(o)
        return None
    if name == "pop":
        if not o.items:
            it.pyraise("IndexError", "pop from empty list")
        return o.items.pop(*a)
    if name == "popleft":
        if not o.items:
            it.pyraise("IndexError", "pop from empty")
        return o.items.pop(0)
    if name == "appendleft":
        o.items.insert(0, a[0])
        return None
    if name == "remove":
        for i, x in enumerate(o.items):
            if it.eq(x, a[0]):
                del o.items[i]
                return None
        it.pyraise("ValueError", "list.remove")
    if name == "clear":
        o.items.clear()
        return None
    if name == "reverse":
        o.items.reverse()
        return None
    if name == "sort":
        o.items[:] = b_sorted(it, [o], k).items
        return None
    if name == "copy":
        return AList(o.items)
    if name == "index":
        for i, x in enumerate(o.items):
            if it.eq(x, a[0]):
                return i
        it.pyraise("ValueError", "not in list")
    if name == "count":
        return sum(1 for x in o.items if it.eq(x, a[0]))
    if name == "__next__":
        return b_next(it, [o], {})
    if name == "__iter__":
        return o
    if name == "__len__":
        return len(o.items)
    if name == "__getitem__":
        return it.getitem(o, a[0])
    raise E.AnalysisError("list.%s" % name)


def dict_method(it, o, name, a, k):
    if name == "move_to_end":
        kk = it.dict_key(o, a[0])
        if kk is E._MISS:
            it.pyraise("KeyError", a[0])
        v = o.d.pop(kk)
        o.d[kk] = v
        return None
    if getattr(o, "counter", False):
        if name == "most_common":
            r = b_sorted(it, [AList(list(o.d.items()))], {"key": PyFunc(lambda it2, b, kk: b[0][1]), "reverse": True})
            return AList(r.items[:a[0]] if a else r.items)
        if name == "update":
            return counter_add(it, o, a, k)
        if name == "elements":
            return AIter([x for x, n in o.d.items() for _ in range(n)])
    if name == "get":
        kk = it.dict_key(o, a[0])
        if kk is not E._MISS:
            return o.d[kk]
        return a[1] if len(a) > 1 else k.get("default")
    if name == "keys":
        return AList(list(o.d))
    if name == "values":
        return AList(list(o.d.values()))
    if name == "items":
        return AList([(x, y) for x, y in o.d.items()])
    if name == "update":
        if a:
            src = it.resolve(a[0])
            if isinstance(src, ADict):
                for x, y in src.d.items():
                    it.setitem(o, x, y)
            elif isinstance(src, Sym):
                it.event("opaque-update", o.id, src)
            else:
                for kv in it.iterate(src):
                    x, y = it.iterate(kv)
                    it.setitem(o, x, y)
        o.d.update(k)
        return None
    if name == "pop":
        kk = it.dict_key(o, a[0])
        if kk is not E._MISS:
            return o.d.pop(kk)
        if len(a) > 1:
            return a[1]
        it.pyraise("KeyError", a[0])
    if name == "setdefault":
        kk = it.dict_key(o, a[0])
        if kk is not E._MISS:
            return o.d[kk]
        o.d[a[0]] = a[1] if len(a) > 1 else None
        return o.d[a[0]]
    if name == "clear":
        o.d.clear()
        return None
    if name == "copy":
        return ADict(o.d, o.default)
    if name == "__contains__":
        return it.contains(o, a[0])
    if name == "__getitem__":
        return it.getitem(o, a[0])
    if name == "__setitem__":
        return it.setitem(o, a[0], a[1])
    if name == "popitem":
        if not o.d:
            it.pyraise("KeyError", "popitem")
        return o.d.popitem()
    if name == "fromkeys":
        return ADict({x: (a[1] if len(a) > 1 else None) for x in it.iterate(a[0])})
    raise E.AnalysisError("dict.%s" % name)


def set_method(it, o, name, a, k):
    if name == "add":
        if not it.contains(o, a[0]):
            o.items.append(a[0])
        return None
    if name in ("discard", "remove"):
        for i, x in enumerate(o.items):
            if it.eq(x, a[0]):
                del o.items[i]
                return None
        if name == "remove":
            it.pyraise("KeyError", a[0])
        return None
    if name == "update":
        for s in a:
            for x in it.iterate(s):
                if not it.contains(o, x):
                    o.items.append(x)
        return None
    if name in ("union", "intersection", "difference"):
        others = [x for s in a for x in it.iterate(s)]
        oth = ASet(others)
        if name == "union":
            return ASet(o.items + others)
        if name == "intersection":
            return ASet([x for x in o.items if it.contains(oth, x)])
        return ASet([x for x in o.items if not it.contains(oth, x)])
    if name == "copy":
        return ASet(o.items)
    if name == "isdisjoint":
        return not any(it.contains(o, x) for x in it.iterate(a[0]))
    if name == "symmetric_difference":
        return it.binop(ast.BitXor(), o, b_set(it, a, {}))
    if name in ("difference_update", "intersection_update"):
        oth = ASet([x for s in a for x in it.iterate(s)])
        o.items[:] = [x for x in o.items if it.contains(oth, x) == (name[0] == "i")]
        return None
    if name == "__contains__":
        return it.contains(o, a[0])
    if name == "issubset":
        oth = ASet(it.iterate(a[0]))
        return all(it.contains(oth, x) for x in o.items)
    if name == "issuperset":
        return all(it.contains(o, x) for x in it.iterate(a[0]))
    if name == "clear":
        o.items.clear()
        return None
    if name == "pop":
        return o.items.pop(0)
    raise E.AnalysisError("set.%s" % name)
