"""Runs the abstract interpreter over the whole pipeline of /repo for one *program template*.

A template is Tealish text in which every part a user may choose freely is a hole
`{name}` / `{name:lang}`.  The analysis derives, for every partition of the hole space
the code distinguishes, the template of the TEAL the compiler emits (or the exception
class it raises).  Nothing of /repo is imported or executed.

Hole languages: expr (any expression; modelled child node), ident, Cap, Upper,
digits, hex, text (inside a string literal or comment), line (arbitrary line).
"""
import hashlib
import json
import os
import re

from .values import *
from . import engine as E
from .grammar import Peg, NoParse, TxError
from .grammar import Node as GNode

HOLE = re.compile(r"\{([A-Za-z_]\w*)(?::(\w+))?\}")


def T(text, default="expr"):
    out, i = [], 0
    for m in HOLE.finditer(text):
        out.append(text[i:m.start()])
        out.append(hole(m.group(1), m.group(2) or default))
        i = m.end()
    out.append(text[i:])
    return tmpl(*out)


def lines_of(text):
    """dedent-free list of template lines"""
    ls = text.split("\n")
    while ls and not ls[0].strip():
        ls = ls[1:]
    while ls and not ls[-1].strip():
        ls = ls[:-1]
    ind = min([len(l) - len(l.lstrip()) for l in ls if l.strip()] or [0])
    return [T(l[ind:]) for l in ls]


_specs = {}
_grammars = {}


class Result:
    pass


class Harness:
    """One analysis context: repo + stubs for the external boundary."""

    def __init__(self, repo, types=None, extra=None, limit=600, steps=400000):
        self.repo = repo
        self.types = types or {}
        self.extra = extra or {}
        self.limit = limit
        self.steps = steps
        self.iters = 300
        self.kid_classes = {}      # hole -> class name forced for the modelled child

    # ---------------------------------------------------------------- stubs
    def stubs(self):
        st = {
            "ext:textx.metamodel.metamodel_from_file": self.mm_file,
            "ext:textx.metamodel_from_file": self.mm_file,
            "ext:textx.metamodel.metamodel_from_str": self.mm_str,
            "ext:textx.metamodel_from_str": self.mm_str,
            "ext:importlib.resources.files": self.res_files,
            "ext:json.loads": self.json_loads,
            "ext:os.path.exists": lambda it, a, k: False,
            "ext:inspect.trace": self.trace,
            "ext:Cryptodome.Hash.SHA512.new": self.sha,
            "global:tealish.langspec.packaged_lang_spec": self.cached_spec,
        }
        st["TealWriter.write"] = self.on_write
        st.update(self.extra)
        return st

    def on_write(self, it, a, k):
        """record which call site of /repo produces each emitted line (diagnostics only)"""
        if len(a) > 2 and is_str(a[2]) or len(a) == 3 and is_str(it.resolve(a[2])):
            site = []
            for f in reversed(it.stack):
                if f.cls is not None and "Writer" in f.cls.name:
                    continue
                ln = getattr(it.cur, "lineno", None) if not site else None
                site.append("%s: %s%s" % (f.module.path, f.qual, " line %d" % ln if ln else ""))
                if len(site) >= 3:
                    break
            it.user.setdefault("writes", []).append(site)
        return NotImplemented

    def cached_spec(self, it):
        c = self.repo.__dict__.setdefault("_speccache", {})
        m = it.repo.modules.get("tealish.langspec")
        if "v" not in c:
            it2 = E.Interp(self.repo, (), {k: v for k, v in self.stubs().items() if not k.startswith("global:tealish.langspec.packaged")})
            it2.maxsteps = 10 ** 8
            c["v"] = it2.modattr(m, "packaged_lang_spec")
            if "_opcode_type_map" in it2.modenv.get("tealish.langspec", {}):
                pass
        return c["v"]

    def warm(self):
        """compute the shared, program-independent parts once (before workers fork)"""
        try:
            self.explore(lambda it: self.cached_spec(it))
        except E.AnalysisError:
            pass

    def res_files(self, it, a, k):
        o = AObj(ExtVal("importlib.resources.Traversable"))
        o.user_path = ""
        pkgdir = os.path.join(self.repo.root, "tealish")
        return self._path_obj(it, pkgdir)

    def _path_obj(self, it, p):
        o = AObj(ExtVal("pathlib.PosixPath"))
        o.value = (p,)

        def hook(it, obj, name):
            if name in ("joinpath",):
                return PyFunc(lambda it, a, k: self._path_obj(it, os.path.join(p, *[x for x in a if isinstance(x, str)])))
            if name == "read_text":
                return PyFunc(lambda it, a, k: ("__file__", p))
            if name == "__str__":
                return PyFunc(lambda it, a, k: p)
            if name == "__truediv__":
                return PyFunc(lambda it, a, k: self._path_obj(it, os.path.join(p, a[0])))
            return NotImplemented
        o.hook = hook
        return o

    def json_loads(self, it, a, k):
        if isinstance(a[0], tuple) and a[0][0] == "__file__":
            return to_abs(json.load(open(a[0][1])))
        return NotImplemented

    def sha(self, it, a, k):
        o = AObj(ExtVal("Cryptodome.Hash.SHA512.SHA512Hash"))
        trunc = k.get("truncate", a[1] if len(a) > 1 else None)
        data = a[0] if a else k.get("data")

        def hook(it, obj, name):
            if name == "hexdigest" and isinstance(data, bytes):
                return PyFunc(lambda it, aa, kk: folded(data, trunc))
            if name == "digest" and isinstance(data, bytes):
                return PyFunc(lambda it, aa, kk: bytes.fromhex(folded(data, trunc)))
            if name == "hexdigest":
                return PyFunc(lambda it, aa, kk: hole("hexdigest(%s/%s)" % (trunc, showt(data)), "hexdigest"))
            return NotImplemented
        o.hook = hook
        return o

    def trace(self, it, a, k):
        hs = it.user.get("handling") or []
        fr = getattr(hs[-1], "frame", None) if hs else None
        f = AObj(ExtVal("frame"))
        f.attrs["f_locals"] = ADict(dict(fr or {}))
        o = AObj(ExtVal("inspect.FrameInfo"))
        o.attrs["frame"] = f
        return AList([o])

    # ------------------------------------------------------------- grammar
    def mm_file(self, it, a, k):
        p = a[0]
        if isinstance(p, AObj) and p.value:
            p = p.value[0]
        src = open(p).read() if isinstance(p, str) else None
        return self.mm(it, src, k)

    def mm_str(self, it, a, k):
        if not isinstance(a[0], str):
            raise E.AnalysisError("metamodel_from_str of a non-constant")
        return self.mm(it, a[0], k)

    def mm(self, it, src, k):
        key = (src, k.get("ws", " \t"), k.get("use_regexp_group", False), bool(k.get("memoization", False)))
        peg = _grammars.get(key)
        if peg is None:
            peg = _grammars[key] = Peg(src, k.get("ws", "\t\n\r "), bool(k.get("use_regexp_group", False)), key[3])
        provider = k.get("classes")
        mmo = AObj(ExtVal("textx.TextXMetaModel"))

        def hook(it, obj, name):
            if name == "model_from_str":
                return PyFunc(lambda it, a, kk: self.model_from_str(it, peg, provider, a[0]))
            return NotImplemented
        mmo.hook = hook
        return mmo

    def model_from_str(self, it, peg, provider, src):
        v = it.rtmpl(src)
        if any(isinstance(p, Sym) and p.kind == "hole" and p.args[1] in ("line",) for p in pieces(v)):
            if it.fork(("parses", v), "expression text parses"):
                return self.kid(it, hole("E:" + showt(v), "expr"), None)
            e = AObj(ExtVal("textx.exceptions.TextXSyntaxError"))
            e.value = ("syntax error",)
            raise E.Raised(e, it.cur, None)
        s, m = it.concretise(v)
        it.event("parse-expression", v)
        try:
            n = peg.parse(s)
            it.event("parse-steps", v, peg.steps)
        except NoParse:
            it.event("parse-steps", v, peg.steps)
            e = AObj(ExtVal("textx.exceptions.TextXSyntaxError"))
            e.value = ("syntax error in %s" % s,)
            raise E.Raised(e, it.cur, None)
        return self.build(it, n, m, provider, None)

    def provider_class(self, it, provider, name):
        if provider is None:
            return None
        if isinstance(provider, (AList, tuple)):
            for c in (provider.items if isinstance(provider, AList) else provider):
                if c.name == name:
                    return c
            return None
        return it.call(provider, [name])

    def build(self, it, n, m, provider, parent):
        if not isinstance(n, GNode):
            if isinstance(n, int) and not isinstance(n, bool):
                for s, h in m.items():
                    if s.isdigit() and int(s) == n:
                        return int_hole(h.args[0])
            return it.abstract(n, m) if isinstance(n, str) else n
        if n.rule == "Variable" and n.attrs.get("name") in m and m[n.attrs["name"]].args[1:2] == ("expr",):
            return self.kid(it, m[n.attrs["name"]], parent, provider)
        c = self.provider_class(it, provider, n.rule)
        if c is None:
            o = AObj(ExtVal("textx." + n.rule), name=n.rule)

            def hook(it, obj, name):
                it.pyraise("AttributeError", "'%s' object has no attribute '%s'" % (n.rule, name))
            o.hook = hook
            for k, x in n.attrs.items():
                o.attrs[k] = self.build_val(it, x, m, provider, o)
            if parent is not None:
                o.attrs["parent"] = parent
            return o
        o = AObj(c)
        kw = {}
        for k, x in n.attrs.items():
            kw[k] = self.build_val(it, x, m, provider, o)
        ini = it.find_member(c, "__init__")
        if parent is not None:
            kw["parent"] = parent
        if ini is not None:
            it.call(it.bind(it.class_attr(ini[0], "__init__", ini[1]), o, c), [], kw)
        else:
            o.attrs.update(kw)
        return o

    def build_val(self, it, x, m, provider, parent):
        if isinstance(x, list):
            return AList([self.build_val(it, y, m, provider, parent) for y in x])
        return self.build(it, x, m, provider, parent)

    # ------------------------------------------------------- modelled child
    def mktype(self, it, spec):
        tm = it.module("tealish.types")
        if callable(spec):
            return spec(it)
        if spec is None or spec == "none":
            return None
        if spec.startswith("list:"):
            return AList([self.mktype(it, s) for s in spec[5:].split(",") if s])
        if spec == "any":
            return it.instantiate(it.modattr(tm, "AnyType"), [], {})
        if spec == "uint":
            return it.instantiate(it.modattr(tm, "UIntType"), [], {})
        m = re.match(r"uint<(\d+)>$", spec)
        if m:
            return it.instantiate(it.modattr(tm, "UIntType"), [int(m.group(1))], {})
        f = it.modattr(tm, "get_type_instance")
        a = f.node.args
        if len(a.posonlyargs) + len(a.args) - len(a.defaults) > 1:
            # the structs of the program are given
            return it.call(f, [spec, ADict(dict(it.user.get("structs", {})))])
        return it.call(f, [spec])

    def kid(self, it, h, parent, provider=None):
        """an arbitrary expression node: only its evaluation is observable"""
        name = h.args[0]
        base = it.modattr(it.module("tealish.base"), "BaseNode")
        o = AObj(base, name="expr " + name)
        forced = self.kid_classes.get(name)
        if forced:
            em = it.module("tealish.expression_nodes")
            o.cls = it.modattr(em, forced)
        st = {"processed": 0, "instances": 0}
        n = it.user.setdefault("kids", {}).setdefault(name, [])
        n.append(st)
        spec = self.types.get(name, "any")

        def hook(it, obj, attr):
            if attr == "process":
                def proc(it, a, k):
                    st["processed"] += 1
                    it.event("process", name)
                    return None
                return PyFunc(proc, "process")
            if attr == "write_teal":
                def wt(it, a, k):
                    if not st["processed"]:
                        it.event("emit-before-process", name)
                    it.event("emit", name)
                    it.call(it.getattr(a[0], "write"), [obj, tmpl("%E ", h)])
                    return None
                return PyFunc(wt, "write_teal")
            if attr == "type":
                if not st["processed"]:
                    it.event("type-before-process", name)
                if "t" not in st:
                    st["t"] = self.mktype(it, spec)
                return st["t"]
            if attr in ("tealish", "_tealish"):
                return PyFunc(lambda it, a, k: tmpl(h), "tealish")
            if attr == "name" and forced in ("Variable", "Constant", "Enum"):
                return hole("name of " + name, "ident")
            if attr == "value" and forced in ("Integer",):
                return Sym("int", "value of " + name)
            if attr in ("?parent", "?line_no", "?line"):
                return True
            return NotImplemented
        o.hook = hook
        o.attrs["parent"] = parent
        return o

    # ------------------------------------------------------------------ runs
    def explore(self, fn, setup=None):
        def su(it):
            it.maxsteps = self.steps
            it.maxiter = self.iters
            if setup:
                setup(it)
        return E.explore(self.repo, fn, self.stubs(), self.limit, su)

    def budget(self, text):
        """interpretation steps after which the compiler counts as not terminating"""
        n = text.count("\n") if isinstance(text, str) else len(text)
        self.steps = max(self.steps, 400000 + 40000 * n)
        self.iters = max(self.iters, 300 + 4 * n)

    def compile(self, text):
        """-> list of PathResult; for outcome 'return' value = (list of TEAL line templates, map)"""
        self.budget(text)
        src = source(text)

        def fn(it):
            f = it.modattr(it.module("tealish"), "compile_program")
            r = it.call(f, [src], {})
            teal, mp = r
            return teal.items, mp
        return self.explore(fn)

    def reformat(self, text):
        self.budget(text)
        src = source(text)

        def fn(it):
            return it.call(it.modattr(it.module("tealish"), "reformat_program"), [src], {})
        return self.explore(fn)

    def inspect(self, text):
        self.budget(text)
        src = source(text)

        def fn(it):
            return it.call(it.modattr(it.module("tealish"), "inspect_program"), [src], {})
        return self.explore(fn)


def folded(data, trunc):
    """SHA-512 of a constant"""
    if trunc is None:
        return hashlib.sha512(data).hexdigest()
    return hashlib.new("sha512_" + str(trunc), data).hexdigest()


def source(text):
    if isinstance(text, str):
        ls = lines_of(text)
    else:
        ls = [T(x) if isinstance(x, str) else x for x in text]
    out = []
    for i, l in enumerate(ls):
        if i:
            out.append("\n")
        out.append(l)
    return tmpl(*out)


def to_abs(x):
    if isinstance(x, dict):
        return ADict({k: to_abs(v) for k, v in x.items()})
    if isinstance(x, list):
        return AList([to_abs(v) for v in x])
    return x


def showt(v):
    """template -> readable text"""
    if isinstance(v, str):
        return v
    out = []
    for p in pieces(v):
        if isinstance(p, str):
            out.append(p)
        elif p.kind == "hole":
            out.append("{%s}" % p.args[0])
        else:
            out.append("{%r}" % (p,))
    return "".join(out)
