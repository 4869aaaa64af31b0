"""Model of what the command line tools touch: a file system whose files hold text templates,
pathlib, click, json, the assemblers.  Commands are found and run through their click
decorations as written in the source; every effect is recorded, none happens."""
import ast
import json
import posixpath
from pathlib import PurePosixPath

from . import engine as E
from .engine import ExtVal, PyFunc, AObj, AList, ADict, Sym, Env, FuncVal, Raised
from .values import tmpl, pieces, is_str, is_strsym, ASet
from .models import b_open


class Opaque(Exception):
    pass


def topy(v):
    """constant Python value of an abstract one"""
    if isinstance(v, AList) and v.kind in ("list", None) or isinstance(v, AList):
        return [topy(x) for x in v.items]
    if isinstance(v, ADict):
        return {k: topy(x) for k, x in v.d.items()}
    if isinstance(v, tuple):
        return [topy(x) for x in v]
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    raise Opaque(repr(v))


class FS:
    def __init__(self, files, dirs=(), cwd="/work"):
        self.cwd = cwd
        self.files = {}
        self.dirs = {"/"}
        self.log = []
        self.mkd(cwd)
        for d in dirs:
            self.mkd(self.abs(d))
        for p, c in files.items():
            self.mkd(posixpath.dirname(self.abs(p)))
            self.files[self.abs(p)] = c
        self.initial = dict(self.files)
        self.open_files = []

    def abs(self, p):
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def mkd(self, d):
        while d not in self.dirs:
            self.dirs.add(d)
            d = posixpath.dirname(d)

    def changed(self):
        """path -> content of files created or altered"""
        out = {}
        for p, c in self.files.items():
            if p not in self.initial or self.initial[p] != c:
                out[p] = c
        return out

    def removed(self):
        return [p for p in self.initial if p not in self.files]


def string(v, what):
    if not isinstance(v, str):
        raise E.AnalysisError("%s is not a constant: %r" % (what, v))
    return v


class Model:
    def __init__(self, harness, fs, assembler=None, net=None, quiet=False):
        """assembler: None (not reachable) | "fail" | {"bytecode": bytes, "lines": [teal line from 0 per pc]}
        net: None | "fail" | dict (langspec)"""
        self.h, self.fs, self.asm, self.net, self.quiet = harness, fs, assembler, net, quiet
        self.params, self.names, self.groups = {}, {}, {}
        self.out = []
        self.ctx_funcs = set()

    # ------------------------------------------------------------ paths
    def path(self, it, p):
        m, fs = self, self.fs
        o = AObj(ExtVal("pathlib.PosixPath"))
        o.value = (p,)
        pp = PurePosixPath(p)
        a = fs.abs(p)

        def hook(it, obj, name):
            F = lambda f: PyFunc(lambda it, aa, kk: f(*aa, **kk), name)
            if isinstance(name, tuple):
                return NotImplemented
            if name in ("name", "stem", "suffix"):
                return getattr(pp, name)
            if name == "suffixes":
                return AList(list(pp.suffixes))
            if name == "parts":
                return tuple(pp.parts)
            if name == "parent":
                return m.path(it, str(pp.parent))
            if name == "__str__":
                return p
            if name in ("__fspath__", "as_posix"):
                return F(lambda: p)
            if name in ("__truediv__", "joinpath"):
                return F(lambda *x: m.path(it, str(pp.joinpath(*[m.text(y) for y in x]))))
            if name == "with_suffix":
                return F(lambda x: m.path(it, str(pp.with_suffix(string(x, "suffix")))))
            if name == "with_name":
                return F(lambda x: m.path(it, str(pp.with_name(string(x, "name")))))
            if name in ("resolve", "absolute"):
                return F(lambda *x, **k: m.path(it, a))
            if name == "is_dir":
                return F(lambda: a in fs.dirs)
            if name == "is_file":
                return F(lambda: a in fs.files)
            if name == "exists":
                return F(lambda: a in fs.files or a in fs.dirs)
            if name in ("glob", "rglob"):
                def g(pat):
                    pat = string(pat, "pattern")
                    out = []
                    for f in sorted(list(fs.files) + [d for d in fs.dirs if d != a]):
                        if f.startswith(a.rstrip("/") + "/"):
                            rel = f[len(a.rstrip("/")) + 1:]
                            if len(PurePosixPath(rel).parts) == len(PurePosixPath(pat).parts) and PurePosixPath(rel).match(pat):
                                out.append(m.path(it, str(pp / rel)))
                    return AList(out)
                return F(g)
            if name == "iterdir":
                return F(lambda: AList([m.path(it, str(pp / posixpath.basename(f))) for f in sorted(set(fs.files) | fs.dirs) if posixpath.dirname(f) == a and f != a]))
            if name == "mkdir":
                def mk(mode=0o777, parents=False, exist_ok=False):
                    if a in fs.dirs:
                        if not exist_ok:
                            it.pyraise("FileExistsError", p)
                        return None
                    if posixpath.dirname(a) not in fs.dirs:
                        if not parents:
                            it.pyraise("FileNotFoundError", p)
                    fs.mkd(a)
                    fs.log.append(("mkdir", a))
                return F(mk)
            if name == "open":
                return F(lambda mode="r", *x, **k: m.open(it, [o, mode], {}))
            if name in ("read_text", "read_bytes"):
                return F(lambda *x, **k: m.read(it, a))
            if name in ("write_text", "write_bytes"):
                def w(c, *x, **k):
                    fs.files[a] = c
                    fs.log.append(("write", a))
                return F(w)
            if name == "unlink":
                def u(*x, **k):
                    if a not in fs.files:
                        it.pyraise("FileNotFoundError", p)
                    del fs.files[a]
                    fs.log.append(("remove", a))
                return F(u)
            if name in ("rename", "replace"):
                def r(t):
                    t = fs.abs(m.text(t))
                    fs.files[t] = fs.files.pop(a)
                    fs.log += [("remove", a), ("write", t)]
                    return m.path(it, t)
                return F(r)
            if name in ("__eq__", "__hash__", "__lt__"):
                return NotImplemented
            raise E.AnalysisError("pathlib.Path.%s is not modelled" % name)
        o.hook = hook
        return o

    def text(self, v):
        if isinstance(v, AObj) and isinstance(v.cls, ExtVal) and v.cls.path.startswith("pathlib."):
            return v.value[0]
        return string(v, "path")

    def mkpath(self, it, a, k):
        return self.path(it, str(PurePosixPath(*[self.text(x) for x in a])) if a else ".")

    # ------------------------------------------------------------ files
    def read(self, it, a):
        if a not in self.fs.files:
            it.pyraise("FileNotFoundError", a)
        self.fs.log.append(("read", a))
        return self.fs.files[a]

    def open(self, it, a, k):
        p = self.fs.abs(self.text(a[0]))
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        mode = string(mode, "mode")
        return self.fobj(it, p, mode)

    def fobj(self, it, p, mode):
        fs = self.fs
        b = mode.replace("b", "").replace("t", "")
        if b in ("r", "r+") and p not in fs.files:
            it.pyraise("FileNotFoundError", p)
        if b in ("w", "w+", "a", "x") and posixpath.dirname(p) not in fs.dirs:
            it.pyraise("FileNotFoundError", p)
        if p in fs.dirs:
            it.pyraise("IsADirectoryError", p)
        if b.startswith("w") or b == "x":
            fs.files[p] = b"" if "b" in mode else ""
            fs.log.append(("write", p))
        o = AObj(ExtVal("builtins.file"), name="file")
        st = {"head": None, "closed": False, "pos": "start"}
        o.user_state = st
        writable = b != "r"
        readable = b in ("r", "r+", "w+")

        def cat(x, y):
            if isinstance(x, bytes) or isinstance(y, bytes):
                return (x or b"") + (y or b"")
            return tmpl(x, y)

        def write(s):
            if not writable:
                it.pyraise("OSError", "not writable")
            fs.log.append(("write", p))
            if b.startswith("w") or b in ("a", "x"):
                fs.files[p] = cat(fs.files[p], s)
            elif st["pos"] == "end":
                fs.files[p] = cat(fs.files[p], s)
            else:
                # written over the start of what was there
                if st["head"] is None:
                    st["old"] = fs.files[p]
                    st["head"] = ""
                st["head"] = cat(st["head"], s)
                st["pos"] = "mid"
                h, old = st["head"], st["old"]
                if isinstance(h, str) and isinstance(old, str):
                    fs.files[p] = h + old[len(h):]
                else:
                    fs.files[p] = Sym("strop", "overwritten", tmpl(h), tmpl(old)) if old != "" else h
            return None

        def truncate(n=None):
            if not writable:
                it.pyraise("OSError", "not writable")
            fs.log.append(("write", p))
            if n == 0 or (n is None and st["pos"] == "start"):
                if st["pos"] != "start":
                    raise E.AnalysisError("truncate(0) away from the start of the file")
                fs.files[p] = ""
            elif n is None and st["pos"] == "mid":
                fs.files[p] = st["head"]
                st["old"] = ""
                st["pos"] = "mid"
            elif n is None and st["pos"] == "end":
                pass
            else:
                raise E.AnalysisError("truncate(%r) is not modelled" % (n,))

        def seek(n, w=0):
            if n == 0 and w == 0:
                st["pos"], st["head"] = "start", None
            elif n == 0 and w == 2:
                st["pos"] = "end"
            else:
                raise E.AnalysisError("seek(%r, %r) is not modelled" % (n, w))

        def read(*x):
            if not readable:
                it.pyraise("OSError", "not readable")
            fs.log.append(("read", p))
            if st["pos"] == "end":
                return ""
            if st["pos"] == "mid":
                raise E.AnalysisError("read in the middle of a file")
            st["pos"] = "end"
            return fs.files[p]

        def lines():
            c = read()
            out, cur = [], []
            for q in pieces(c):
                if isinstance(q, str):
                    parts = q.split("\n")
                    for x in parts[:-1]:
                        out.append(tmpl(*(cur + [x, "\n"])))
                        cur = []
                    if parts[-1]:
                        cur.append(parts[-1])
                else:
                    cur.append(q)
            if cur:
                out.append(tmpl(*cur))
            return AList(out)

        def hook(it, obj, name):
            if isinstance(name, tuple):
                return NotImplemented
            F = lambda f: PyFunc(lambda it, aa, kk: f(*aa, **kk), name)
            if name == "write":
                return F(write)
            if name == "writelines":
                return F(lambda xs: [write(x) for x in xs.items] and None)
            if name == "truncate":
                return F(truncate)
            if name == "seek":
                return F(seek)
            if name == "read":
                return F(read)
            if name == "readlines":
                return F(lines)
            if name in ("flush", "close", "__enter__", "__exit__"):
                return F(lambda *x: o if name == "__enter__" else None)
            if name == "name":
                return p
            raise E.AnalysisError("file.%s is not modelled" % name)
        o.hook = hook
        return o

    # ------------------------------------------------------------ click
    def exc(self, path):
        def mk(it, a, k):
            o = AObj(ExtVal(path))
            o.value = tuple(a)
            return o
        return mk

    def param(self, kind):
        def deco(it, a, k):
            def ap(it, aa, kk):
                f = aa[0]
                self.params.setdefault(id(getattr(f, "node", f)), []).insert(0, (kind, tuple(x for x in a), dict(k)))
                return f
            return PyFunc(ap, kind)
        return deco

    def command(self, group=False):
        def deco(it, a, k):
            def ap(it, aa, kk):
                f = aa[0]
                o = AObj(ExtVal("click.Group" if group else "click.Command"))
                nm = a[0] if a and isinstance(a[0], str) else k.get("name") or f.name.lower().replace("_", "-")
                o.value = (f, nm)
                if group:
                    self.groups.setdefault(o.id, {})

                    def hook(it, obj, name):
                        if name == "add_command":
                            def add(it, x, y):
                                c = x[0]
                                n = x[1] if len(x) > 1 else y.get("name") or c.value[1]
                                self.groups[o.id][n] = c
                            return PyFunc(add, name)
                        if name in ("command", "group"):
                            def sub(it, x, y):
                                d = self.command(name == "group")(it, x, y)

                                def ap2(it, z, w):
                                    c = it.call(d, list(z))
                                    self.groups[o.id][c.value[1]] = c
                                    return c
                                return PyFunc(ap2, name)
                            return PyFunc(sub, name)
                        return NotImplemented
                    o.hook = hook
                return o
            if a and isinstance(a[0], FuncVal):
                f, a = a[0], []
                return ap(it, [f], {})
            return PyFunc(ap, "command")
        return deco

    def ctype(self, name):
        def mk(it, a, k):
            o = AObj(ExtVal("click." + name))
            o.value = (tuple(a), dict(k))
            return o
        return mk

    def echo(self, it, a, k):
        self.out.append(a[0] if a else "")
        return None

    def stubs(self):
        st = {
            "ext:pathlib.Path": self.mkpath, "ext:pathlib.PurePath": self.mkpath, "ext:pathlib.PosixPath": self.mkpath,
            "ext:builtins.open": self.open, "ext:open": self.open, "ext:io.open": self.open,
            "ext:builtins.print": self.echo,
            "ext:click.echo": self.echo, "ext:click.secho": self.echo,
            "ext:click.command": self.command(), "ext:click.group": self.command(True),
            "ext:click.argument": self.param("argument"), "ext:click.option": self.param("option"),
            "ext:click.Path": self.ctype("Path"), "ext:click.File": self.ctype("File"), "ext:click.Choice": self.ctype("Choice"),
            "ext:click.ClickException": self.exc("click.ClickException"), "ext:click.UsageError": self.exc("click.ClickException"),
            "ext:click.exceptions.ClickException": self.exc("click.ClickException"), "ext:click.BadParameter": self.exc("click.ClickException"), "ext:click.Abort": self.exc("click.ClickException"),
            "ext:sys.exit": self.sysexit, "ext:builtins.exit": self.sysexit,
            "deco:click.pass_context": self.passctx,
            "ext:json.dumps": self.dumps, "ext:json.dump": self.dump, "ext:json.load": self.load,
            "ext:subprocess.check_output": self.goal, "ext:subprocess.run": self.goal,
            "ext:algosdk.v2client.algod.AlgodClient": self.algod,
            "ext:algosdk.source_map.SourceMap": self.sourcemap,
            "ext:base64.b64decode": self.b64,
            "ext:requests.get": self.get,
            "ext:os.path.exists": lambda it, a, k: self.fs.abs(self.text(a[0])) in self.fs.files or self.fs.abs(self.text(a[0])) in self.fs.dirs,
            "ext:os.path.join": lambda it, a, k: posixpath.join(*[self.text(x) for x in a]),
            "ext:os.path.basename": lambda it, a, k: posixpath.basename(self.text(a[0])),
            "ext:os.path.dirname": lambda it, a, k: posixpath.dirname(self.text(a[0])),
            "ext:os.path.splitext": lambda it, a, k: tuple(posixpath.splitext(self.text(a[0]))),
            "ext:os.path.isdir": lambda it, a, k: self.fs.abs(self.text(a[0])) in self.fs.dirs,
            "ext:os.makedirs": lambda it, a, k: self.fs.mkd(self.fs.abs(self.text(a[0]))),
            "ext:os.unlink": self.osrm, "ext:os.remove": self.osrm,
            "ext:os.rename": self.osmv, "ext:os.replace": self.osmv, "ext:shutil.move": self.osmv,
            "ext:tempfile.TemporaryDirectory": self.tempdir, "ext:tempfile.mkdtemp": lambda it, a, k: self.tmpd(),
        }
        return st

    ntmp = 0

    def tmpd(self):
        self.ntmp += 1
        d = "/tmp/t%d" % self.ntmp
        self.fs.mkd(d)
        return d

    def tempdir(self, it, a, k):
        d = self.tmpd()
        o = AObj(ExtVal("tempfile.TemporaryDirectory"))
        o.value = (d,)

        def hook(it, obj, name):
            if name == "name":
                return d
            if name == "cleanup":
                return PyFunc(lambda it, a, k: None, name)
            return NotImplemented
        o.hook = hook
        o.enter = d
        return o

    def osrm(self, it, a, k):
        p = self.fs.abs(self.text(a[0]))
        if p not in self.fs.files:
            it.pyraise("FileNotFoundError", p)
        del self.fs.files[p]
        self.fs.log.append(("remove", p))

    def osmv(self, it, a, k):
        p, q = (self.fs.abs(self.text(x)) for x in a[:2])
        if p not in self.fs.files:
            it.pyraise("FileNotFoundError", p)
        self.fs.files[q] = self.fs.files.pop(p)
        self.fs.log += [("remove", p), ("write", q)]

    def sysexit(self, it, a, k):
        e = AObj(ExtVal("builtins.SystemExit"))
        e.value = tuple(a)
        raise Raised(e, it.cur, None)

    def passctx(self, it, f):
        self.ctx_funcs.add(id(getattr(f, "node", f)))
        return f

    # ------------------------------------------------------------ json
    def dumps(self, it, a, k):
        kw = {x: y for x, y in k.items() if x in ("indent", "sort_keys", "ensure_ascii", "separators")}
        try:
            return json.dumps(topy(a[0]), **{x: topy(y) if x != "separators" else tuple(topy(y)) for x, y in kw.items()})
        except Opaque:
            return Sym("strop", "json", E._h(a[0]))

    def dump(self, it, a, k):
        s = self.dumps(it, [a[0]], k)
        it.call(it.getattr(a[1], "write"), [s], {})

    def load(self, it, a, k):
        s = it.call(it.getattr(a[0], "read"), [], {})
        return self.parsed(it, s)

    def parsed(self, it, s):
        from .harness import to_abs
        if isinstance(s, AObj) or isinstance(s, ADict):
            return s
        if isinstance(s, str):
            try:
                return to_abs(json.loads(s))
            except ValueError as e:
                it.pyraise("ValueError", str(e))
        raise E.AnalysisError("json of a value that is not constant")

    # ------------------------------------------------------------ assemblers
    def mapping(self):
        return ADict({"version": 3, "mappings": ("mappings",), "sources": AList([])})

    def goal(self, it, a, k):
        args = topy(a[0] if a else k["args"])
        self.fs.log.append(("assemble", tuple(args), E._h(k.get("input"))))
        if self.asm is None:
            it.pyraise("FileNotFoundError", "goal")
        if self.asm == "fail":
            e = AObj(ExtVal("subprocess.CalledProcessError"))
            e.value = (1, args)
            e.attrs["output"] = "goal failed"
            raise Raised(e, it.cur, None)
        if "-o" in args:
            o = self.fs.abs(args[args.index("-o") + 1])
            self.fs.files[o] = self.asm["bytecode"]
            if "--map" in args:
                self.fs.files[o + ".map"] = self.mapping()
            self.fs.scratch = {o, o + ".map"} | getattr(self.fs, "scratch", set())
        return b""

    def algod(self, it, a, k):
        o = AObj(ExtVal("algosdk.AlgodClient"))
        self.client = tuple(E._h(x) for x in a)

        def comp(it, aa, kk):
            self.fs.log.append(("assemble", "algod", E._h(aa[0])))
            if not isinstance(self.asm, dict):
                e = AObj(ExtVal("algosdk.error.AlgodHTTPError"))
                e.value = ("algod failed",)
                raise Raised(e, it.cur, None)
            d = {"result": ("b64", self.asm["bytecode"])}
            sm = kk.get("source_map", aa[1] if len(aa) > 1 else False)
            if sm is True:
                d["sourcemap"] = self.mapping()
            return ADict(d)

        def hook(it, obj, name):
            if name == "compile":
                return PyFunc(comp, name)
            return NotImplemented
        o.hook = hook
        return o

    def b64(self, it, a, k):
        if isinstance(a[0], tuple) and a[0][0] == "b64":
            return a[0][1]
        return NotImplemented

    def sourcemap(self, it, a, k):
        """algosdk.source_map.SourceMap: pc -> line of TEAL, both counted from 0"""
        o = AObj(ExtVal("algosdk.source_map.SourceMap"))
        lines = list(self.asm["lines"])
        rev = {}
        for pc, l in enumerate(lines):
            rev.setdefault(l, []).append(pc)
        o.attrs["pc_to_line"] = ADict(dict(enumerate(lines)))
        o.attrs["line_to_pc"] = ADict({l: AList(x) for l, x in rev.items()})

        def hook(it, obj, name):
            if name == "get_line_for_pc":
                return PyFunc(lambda it, aa, kk: dict(enumerate(lines)).get(aa[0]), name)
            if name == "get_pcs_for_line":
                return PyFunc(lambda it, aa, kk: AList(rev[aa[0]]) if aa[0] in rev else None, name)
            return NotImplemented
        o.hook = hook
        return o

    # ------------------------------------------------------------ network
    def get(self, it, a, k):
        from .harness import to_abs
        self.fs.log.append(("get", E._h(a[0])))
        o = AObj(ExtVal("requests.Response"))

        def err(it, aa, kk):
            if self.net == "status":
                e = AObj(ExtVal("requests.HTTPError"))
                e.value = ("404",)
                raise Raised(e, it.cur, None)

        def js(it, aa, kk):
            if not isinstance(self.net, dict):
                it.pyraise("ValueError", "not JSON")
            return to_abs(self.net)
        if self.net in (None, "fail"):
            e = AObj(ExtVal("requests.ConnectionError"))
            e.value = ("no network",)
            raise Raised(e, it.cur, None)

        def hook(it, obj, name):
            if name == "raise_for_status":
                return PyFunc(err, name)
            if name == "json":
                return PyFunc(js, name)
            if name == "ok":
                return self.net != "status"
            if name == "status_code":
                return 404 if self.net == "status" else 200
            return NotImplemented
        o.hook = hook
        return o

    # ------------------------------------------------------------ running a command
    def load_commands(self, it):
        m = it.module("tealish.cli")
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef) and st.decorator_list:
                it.modattr(m, st.name)
        for st in m.tree.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                it.exec(st, Env(m))
        return it.modattr(m, "cli")

    def convert(self, it, v, t):
        if isinstance(t, AObj) and isinstance(t.cls, ExtVal):
            if t.cls.path == "click.Path":
                kw = t.value[1]
                a = self.fs.abs(v)
                there = a in self.fs.files or a in self.fs.dirs
                if kw.get("exists") and not there or there and kw.get("dir_okay") is False and a in self.fs.dirs or there and kw.get("file_okay") is False and a in self.fs.files:
                    self.usage(it, "path %s" % v)
                pt = kw.get("path_type")
                return it.call(pt, [v]) if pt is not None and not (isinstance(pt, ExtVal) and pt.path == "builtins.str") else v
            if t.cls.path == "click.File":
                mode = (list(t.value[0]) + [t.value[1].get("mode", "r")])[0]
                if self.fs.abs(v) not in self.fs.files and mode.startswith("r"):
                    self.usage(it, "no such file")
                return self.fobj(it, self.fs.abs(v), mode)
        return v

    def usage(self, it, msg):
        e = AObj(ExtVal("click.ClickException"))
        e.value = (msg,)
        raise Raised(e, it.cur, None)

    def run(self, it, words, args=(), opts=None):
        """run `tealish <words> <args>` with options given by parameter name"""
        cmd = self.load_commands(it)
        for w in words:
            g = self.groups.get(cmd.id, {})
            if w not in g:
                raise E.AnalysisError("there is no command %s" % " ".join(words))
            cmd = g[w]
        f = cmd.value[0]
        kw, args, opts = {}, list(args), dict(opts or {})
        for kind, decls, k in self.params.get(id(f.node), []):
            if kind == "argument":
                n = [d for d in decls if not d.startswith("-")][0].lower().replace("-", "_")
                if args:
                    v = args.pop(0)
                elif "default" in k:
                    kw[n] = k["default"]
                    continue
                else:
                    self.usage(it, "missing argument")
                kw[n] = self.convert(it, v, k.get("type"))
            else:
                names = [d for d in decls if not d.startswith("-")]
                flag = [d for d in decls if d.startswith("--")]
                n = (names or [max(flag or list(decls), key=len).lstrip("-")])[0].replace("-", "_")
                if any(d in opts for d in decls):
                    d = [d for d in decls if d in opts][0]
                    kw[n] = k["flag_value"] if "flag_value" in k else self.convert(it, opts[d], k.get("type"))
                    kw["\0" + n] = True
                elif "\0" + n in kw:
                    pass
                elif "flag_value" in k:
                    if k.get("default") is True:
                        kw[n] = k["flag_value"]
                    else:
                        kw.setdefault(n, None)
                elif k.get("is_flag"):
                    kw[n] = bool(k.get("default", False))
                else:
                    kw[n] = k.get("default")
        kw = {a: b for a, b in kw.items() if not a.startswith("\0")}
        return self.invoke(it, f, kw)

    def context(self):
        o = AObj(ExtVal("click.Context"))
        o.attrs["obj"] = ADict({"quiet": self.quiet})

        def hook(it, obj, name):
            if name == "ensure_object":
                return PyFunc(lambda it, a, k: None, name)
            if name == "invoke":
                return PyFunc(lambda it, a, k: self.invoke(it, a[0].value[0] if isinstance(a[0], AObj) else a[0], k), name)
            if name == "exit":
                return PyFunc(lambda it, a, k: self.sysexit(it, a, k), name)
            return NotImplemented
        o.hook = hook
        return o

    def invoke(self, it, f, kw):
        return it.call(f, [self.context()] if id(f.node) in self.ctx_funcs else [], dict(kw))
