"""Reference graph and effect table over the whole tree (who names whom, who touches the host)."""
from __future__ import annotations

import ast

from .project import ClassInfo, FuncInfo, Module, dotted

WRITE_FN = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.renames", "os.makedirs", "os.mkdir", "os.rmdir", "os.removedirs", "os.symlink", "os.link", "os.truncate", "os.chmod", "os.chown",
            "os.write", "os.mkfifo", "os.utime"}
PROC_FN = {"os.system", "os.popen", "os.fork", "os.kill", "os.killpg", "os.abort", "os._exit", "os.startfile", "os.posix_spawn", "os.posix_spawnp", "pty.spawn", "webbrowser.open", "sys.exit"}
PROC_MODS = ("subprocess", "multiprocessing", "ctypes", "pty", "asyncio.subprocess")
NET_MODS = ("socket", "urllib.request", "http.client", "http.server", "ftplib", "smtplib", "requests", "httpx", "aiohttp", "urllib3", "telnetlib", "xmlrpc")
STATE_FN = {"os.chdir", "os.putenv", "os.unsetenv", "os.umask", "os.setuid", "os.nice", "sys.setrecursionlimit", "signal.signal", "signal.alarm", "locale.setlocale", "random.seed", "numpy.random.seed",
            "sys.settrace", "sys.setprofile", "logging.disable", "logging.basicConfig", "warnings.simplefilter", "warnings.filterwarnings", "atexit.register", "gc.disable", "faulthandler.enable"}
WRITE_METH = {"write_text", "write_bytes", "unlink", "mkdir", "rmdir", "touch", "rmtree", "symlink_to", "hardlink_to", "chmod"}
READ_FN = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "os.open"}


def chain(p, fi, module, node, binds=None):
    """What a Name/Attribute chain denotes (ClassInfo, FuncInfo, Module, ('ext', q), ('value',..)), by the longest resolvable prefix."""
    d = dotted(node)
    if not d:
        return None
    li = p.local_imports(fi) if fi is not None else None
    head = d.split(".")[0]
    f = fi
    while f is not None:
        if head in f.local_funcs:
            return f.local_funcs[head]
        if head in locals_of(f) and not (li and head in li):
            return None
        f = f.outer
    return p.resolve_dotted(module, d, li)


def locals_of(fi):
    c = getattr(fi, "_ref_locals", None)
    if c is None:
        c = set(a.arg for a in ast.walk(fi.node.args) if isinstance(a, ast.arg))
        glob = set()
        st = list(fi.node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Global):
                glob |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                c.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                c.add(n.name)
            st.extend(ast.iter_child_nodes(n))
        c -= glob
        fi._ref_locals = c
    return c


def own_nodes(fn):
    """Nodes of a function including its decorators and defaults, without nested functions and classes."""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def ext_name(p, fi, module, func):
    r = chain(p, fi, module, func)
    if isinstance(r, tuple) and r[0] == "ext":
        return r[1]
    if r is None and isinstance(func, ast.Name):
        f = fi
        while f is not None:
            if func.id in locals_of(f):
                return None
            f = f.outer
        if p.sym(module.name, func.id) is None:
            return "builtins." + func.id
    return None


def mode_of(call, pos):
    m = call.args[pos] if len(call.args) > pos else next((k.value for k in call.keywords if k.arg == "mode"), None)
    if m is None:
        return "r"
    if isinstance(m, ast.Constant) and isinstance(m.value, str):
        return m.value
    return "?"


def effect(p, fi, module, n):
    """(kind, what) of the host effect of one node, or None. Kinds: write read proc net state env code."""
    if isinstance(n, ast.Call):
        e = ext_name(p, fi, module, n.func)
        if e:
            top = e.split(".")[0]
            if e in ("builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open"):
                return ("write" if any(c in mode_of(n, 1) for c in "wax+?") else "read", e)
            if e in ("builtins.exec", "builtins.eval", "builtins.compile", "builtins.__import__", "importlib.import_module", "runpy.run_path", "runpy.run_module"):
                return ("code", e)
            if e in WRITE_FN or top == "shutil" and e not in ("shutil.which", "shutil.disk_usage", "shutil.get_terminal_size"):
                return ("write", e)
            if e.startswith("tempfile.") and e != "tempfile.gettempdir":
                return ("temp", e)
            if e in PROC_FN and e != "sys.exit" or e.startswith(tuple(m + "." for m in PROC_MODS)) or e.startswith(("os.exec", "os.spawn")):
                return ("proc", e)
            if e.startswith(tuple(m + "." for m in NET_MODS)):
                return ("net", e)
            if e in STATE_FN:
                return ("state", e)
            if e in READ_FN:
                return ("read", e)
            if e.startswith(("os.environ.pop", "os.environ.setdefault", "os.environ.update", "os.environ.clear")):
                return ("env", e)
        elif isinstance(n.func, ast.Attribute):
            a = n.func.attr
            r = chain(p, fi, module, n.func)
            if r is None:
                if a in WRITE_METH:
                    return ("write", "." + a)
                if a == "open" and len(n.args) <= 3:
                    return ("write" if any(c in mode_of(n, 0) for c in "wax+?") else "read", "." + a)
                if a in ("read_text", "read_bytes", "iterdir", "rglob"):
                    return ("read", "." + a)
        return None
    if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
        for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]):
            b = t.value if isinstance(t, ast.Subscript) else None
            if b is not None:
                r = chain(p, fi, module, b)
                if isinstance(r, tuple) and r[0] == "ext" and r[1] in ("os.environ", "sys.modules", "sys.path"):
                    return ("env", r[1])
    return None


class Refs:
    def __init__(self, p):
        self.p = p
        self._out = {}

    def of(self, fi):
        """Project functions and classes that function fi (without its nested functions) names."""
        c = self._out.get(fi)
        if c is None:
            c = set()
            for n in own_nodes(fi.node):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                    r = chain(self.p, fi, fi.module, n)
                    if isinstance(r, (FuncInfo, ClassInfo)):
                        c.add(r)
            self._out[fi] = c
        return c

    def reach(self, roots):
        """(functions reachable, parent map): a named class reaches all its methods, bases and subclasses."""
        par, todo = {}, []

        def add(x, frm):
            if isinstance(x, FuncInfo):
                if x not in par:
                    par[x] = frm
                    todo.append(x)
            elif isinstance(x, ClassInfo) and x not in seen:
                seen.add(x)
                for k in self.p.mro(x):
                    for m in k.methods.values():
                        add(m, frm)
        seen = set()
        for r in roots:
            add(r, None)
        while todo:
            f = todo.pop()
            for x in self.of(f):
                add(x, f)
            for x in f.local_funcs.values():
                add(x, f)
        return par

    def path(self, par, f):
        out = [f]
        while par.get(f) is not None and len(out) < 12:
            f = par[f]
            out.append(f)
        return [x.qual for x in reversed(out)]


class Slicer:
    """Where the value of an expression can come from, through locals, parameters (all callers) and project returns."""

    def __init__(self, p, limit=4000):
        self.p = p
        self.limit = limit
        self._calls = None

    def callers(self, fi):
        """(caller FuncInfo or None, module, Call) of every call that can reach fi, matched by resolved name or by method name."""
        if self._calls is None:
            idx = {}
            for m in self.p.modules.values():
                fns = list(self.p.all_funcs(m))
                for f in fns:
                    for n in own_nodes(f.node):
                        if isinstance(n, ast.Call):
                            idx.setdefault(self._nm(n.func), []).append((f, m, n))
                inside = set()
                for f in fns:
                    inside |= {id(n) for n in own_nodes(f.node)}
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call) and id(n) not in inside:
                        idx.setdefault(self._nm(n.func), []).append((None, m, n))
            self._calls = idx
        out = []
        names = {fi.name}
        if fi.name == "__init__" and fi.cls is not None:
            names = {fi.cls.name, "__init__"}
        for nm in names:
            for f, m, n in self._calls.get(nm, []):
                r = chain(self.p, f, m, n.func)
                if r is fi or (r is None and isinstance(n.func, ast.Attribute if fi.cls is not None else ast.Name)) or (isinstance(r, ClassInfo) and fi.cls is r):
                    out.append((f, m, n))
        return out

    @staticmethod
    def _nm(func):
        return func.id if isinstance(func, ast.Name) else func.attr if isinstance(func, ast.Attribute) else "?"

    def sources(self, fi, module, expr):
        """Set of (kind, FuncInfo, node): leaves the value is built from."""
        out, seen = [], set()
        todo = [(fi, module, expr)]
        while todo:
            f, m, e = todo.pop()
            if (f, id(e)) in seen:
                continue
            seen.add((f, id(e)))
            if len(seen) > self.limit:
                out.append(("limit", f, e))
                return out
            if isinstance(e, ast.Constant):
                out.append(("const", f, e))
            elif isinstance(e, ast.Name):
                b = self.bindings(f, m, e.id)
                if b is None:
                    out.append(("name", f, e))
                for k, g, x in b or []:
                    if k == "expr":
                        todo.append((g, g.module if g is not None else m, x))
                    elif k == "param":
                        found = False
                        for cf, cm, call in self.callers(g):
                            a = self.actual(g, call, x)
                            if a is not None:
                                found = True
                                todo.append((cf, cm, a))
                        d = self.default(g, x)
                        if d is not None:
                            todo.append((g, g.module, d))
                        if not found:
                            out.append(("param", g, e))
                    else:
                        out.append((k, g, x))
            elif isinstance(e, ast.IfExp):
                todo += [(f, m, e.body), (f, m, e.orelse)]
            elif isinstance(e, ast.BoolOp):
                todo += [(f, m, v) for v in e.values]
            elif isinstance(e, ast.JoinedStr):
                todo += [(f, m, v) for v in e.values]
            elif isinstance(e, ast.FormattedValue):
                todo.append((f, m, e.value))
            elif isinstance(e, ast.BinOp):
                todo += [(f, m, e.left), (f, m, e.right)]
            elif isinstance(e, ast.NamedExpr):
                todo.append((f, m, e.value))
            elif isinstance(e, (ast.List, ast.Tuple, ast.Set)):
                todo += [(f, m, v.value if isinstance(v, ast.Starred) else v) for v in e.elts]
            elif isinstance(e, ast.Call):
                r = chain(self.p, f, m, e.func)
                if isinstance(r, FuncInfo) and r.name != "__init__":
                    rets = [n.value for n in own_nodes(r.node) if isinstance(n, ast.Return) and n.value is not None]
                    if rets:
                        todo += [(r, r.module, v) for v in rets]
                        continue
                if isinstance(e.func, ast.Attribute) and e.func.attr in ("strip", "lstrip", "rstrip", "format", "join", "replace", "encode", "decode", "lower", "upper", "dedent", "expandtabs", "resolve", "absolute", "expanduser", "as_posix"):
                    todo += [(f, m, e.func.value)] + [(f, m, a) for a in e.args]
                    continue
                q = ext_name(self.p, f, m, e.func)
                if q in ("builtins.str", "textwrap.dedent", "builtins.compile", "ast.parse", "pathlib.Path", "os.fspath", "os.path.abspath"):
                    todo += [(f, m, a) for a in e.args[:1]]
                    continue
                out.append(("call", f, e))
            elif isinstance(e, ast.Attribute):
                r = chain(self.p, f, m, e)
                if isinstance(r, tuple) and r[0] == "value":
                    vs = r[1].assigns.get(r[2], [])
                    todo += [(None, r[1], v) for v in vs]
                    continue
                out.append(("attr", f, e))
            else:
                out.append(("other", f, e))
        return out

    def bindings(self, f, m, name):
        g = f
        while g is not None:
            if name in locals_of(g):
                out = []
                if any(a.arg == name for a in ast.walk(g.node.args) if isinstance(a, ast.arg)):
                    out.append(("param", g, name))
                for n in own_nodes(g.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name) and t.id == name:
                                out.append(("expr", g, n.value))
                            elif any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                                out.append(("other", g, n.value))
                    elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                        out.append(("expr", g, n.value))
                    elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                        out.append(("expr", g, n.value))
                    elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                            out.append(("other", g, n.iter))
                    elif isinstance(n, ast.withitem) and n.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.optional_vars)):
                        out.append(("other", g, n.context_expr))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name and \
                            n.func.attr in ("append", "extend", "insert", "add"):
                        out += [("expr", g, a) for a in n.args[-1:]]
                return out or [("other", g, ast.Name(name, ast.Load()))]
            g = g.outer
        vs = m.assigns.get(name)
        if vs:
            return [("expr", None, v) for v in vs]
        r = self.p.sym(m.name, name)
        if isinstance(r, tuple) and r[0] == "value":
            return [("expr", None, v) for v in r[1].assigns.get(r[2], [])]
        return None

    @staticmethod
    def default(g, name):
        a = g.node.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if x.arg == name:
                return d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name and d is not None:
                return d
        return None

    @staticmethod
    def actual(g, call, name):
        for k in call.keywords:
            if k.arg == name:
                return k.value
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if g.cls is not None and pos and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in g.node.decorator_list):
            pos = pos[1:]
        if name in pos:
            i = pos.index(name)
            if i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args[:i + 1]):
                return call.args[i]
        return None
