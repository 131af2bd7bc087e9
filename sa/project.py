"""Source model of the analysed repository: modules, classes, functions, imports.

Everything here is read from the current working tree with the standard `ast`
module; nothing from the analysed repository is imported or executed.
"""
from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnchorError(Exception):
    """A construct the analysis is anchored on is gone: no verdict is possible."""


class FuncInfo:
    def __init__(self, module, node, cls=None, outer=None):
        self.module = module
        self.node = node
        self.cls = cls            # ClassInfo or None
        self.outer = outer        # enclosing FuncInfo for nested functions
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        if outer is not None:
            self.qual = outer.qual + ".<locals>." + self.name
        elif cls is not None:
            self.qual = cls.qual + "." + self.name
        else:
            self.qual = module.name + "." + self.name
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        decs = [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, "decorator_list", [])]
        self.decorators = [d for d in decs if d]
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = "property" in self.decorators or any(
            d.endswith("cached_property") for d in self.decorators)
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        self._locals = None

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    @property
    def local_funcs(self):
        if self._locals is None:
            self._locals = {}
            for n in walk_own(self.node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not self.node:
                    self._locals[n.name] = FuncInfo(self.module, n, None, self)
        return self._locals

    def defaults(self):
        """param name -> default expression node."""
        a = self.node.args
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo:
    def __init__(self, module, node, outer=None):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = (outer.qual if outer else module.name) + "." + node.name
        self.methods = {}
        self.attrs = {}           # class-level assignments name -> expr node (or None)
        self.annotations = {}     # name -> annotation expr
        self.fields = []          # dataclass-style annotated fields in order
        self.base_nodes = node.bases
        self.inner = {}
        for s in node.body:
            self._take(s)
        decs = [dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]
        self.is_dataclass = any(d and d.split(".")[-1] == "dataclass" for d in decs)
        self.decorators = [d for d in decs if d]

    def _take(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # keep getter for properties with setters
            if s.name in self.methods and any(
                    isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                return
            self.methods[s.name] = FuncInfo(self.module, s, self)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.annotations[s.target.id] = s.annotation
            self.attrs[s.target.id] = s.value
            ann = ast.unparse(s.annotation)
            if not ann.startswith("ClassVar"):
                self.fields.append(s.target.id)
        elif isinstance(s, ast.ClassDef):
            self.inner[s.name] = ClassInfo(self.module, s, self)
        elif isinstance(s, (ast.If, ast.Try)):
            for sub in s.body:
                self._take(sub)

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<C %s>" % self.qual


class Module:
    def __init__(self, name, path, rel, src, is_pkg):
        self.name = name
        self.path = path
        self.rel = rel
        self.src = src
        self.is_pkg = is_pkg
        self.tree = ast.parse(src, path)
        self.digest = hashlib.sha256(src.encode()).hexdigest()
        self.funcs = {}
        self.classes = {}
        self.assigns = {}       # module-level name -> list of value nodes
        self.imports = {}       # module-level local name -> (modname, symbol|None)
        self.star = []          # modules star-imported
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = FuncInfo(self, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in _names(t):
                        self.assigns.setdefault(n, []).append(s.value if isinstance(t, ast.Name) else None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append(None)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for k, v in self.import_bindings(s):
                    if k == "*":
                        self.star.append(v[0])
                    else:
                        self.imports.setdefault(k, v)
            elif isinstance(s, (ast.If, ast.For, ast.While)):
                self._scan(s.body)
                self._scan(s.orelse)
                if isinstance(s, ast.For):
                    for n in _names(s.target):
                        self.assigns.setdefault(n, []).append(None)
            elif isinstance(s, ast.With):
                self._scan(s.body)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)
                self._scan(s.orelse)
                self._scan(s.finalbody)

    def import_bindings(self, s):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    yield a.asname, (a.name, None)
                else:
                    yield a.name.split(".")[0], (a.name.split(".")[0], None)
        else:
            base = self.abs_from(s)
            for a in s.names:
                if a.name == "*":
                    yield "*", (base, None)
                else:
                    yield a.asname or a.name, (base, a.name)

    def abs_from(self, s):
        if not s.level:
            return s.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)

    def __repr__(self):
        return "<M %s>" % self.name


def _names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + "." + n.attr if b else None
    return None


def walk_own(fn):
    """Walk a function's own nodes: nested function nodes are yielded, not entered."""
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Project:
    def __init__(self, repo=REPO, only=None):
        self.repo = repo
        self.modules = {}
        self.consulted = set()
        src = os.path.join(repo, "src")
        if not os.path.isdir(os.path.join(src, "yapcad")):
            raise AnchorError("src/yapcad not found in %s" % repo)
        for root, prefix in (("src/yapcad", "yapcad"), ("service", "service"), ("tools", "tools")):
            top = os.path.join(repo, root)
            for d, ds, fs in os.walk(top):
                ds[:] = sorted(x for x in ds if x != "__pycache__" and not x.endswith(".egg-info"))
                for f in sorted(fs):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)
                    parts = [prefix] + os.path.relpath(p, top)[:-3].split(os.sep)
                    pkg = parts[-1] == "__init__"
                    if pkg:
                        parts.pop()
                    name = ".".join(parts)
                    with open(p, encoding="utf-8") as fh:
                        s = fh.read()
                    self.modules[name] = Module(name, p, rel, s, pkg)
        self._func_index = None
        self._cls_cache = {}

    # ---- lookup -------------------------------------------------------
    def mod(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnchorError("module %s not found" % name)
        self.consulted.add(name)
        return m

    def cls(self, qual):
        c = self.find(qual)
        if not isinstance(c, ClassInfo):
            raise AnchorError("class %s not found" % qual)
        self.consulted.add(c.module.name)
        return c

    def func(self, qual):
        """Function or method by dotted name; methods are looked up through the MRO."""
        f = self.find(qual)
        if not isinstance(f, FuncInfo):
            raise AnchorError("function %s not found" % qual)
        self.consulted.add(f.module.name)
        return f

    def find(self, qual):
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                r = self.sym(mn, parts[i]) if i < len(parts) else self.modules[mn]
                for p in parts[i + 1:]:
                    if isinstance(r, ClassInfo):
                        r = self.member(r, p)
                    elif isinstance(r, Module):
                        r = self.sym(r.name, p)
                    else:
                        return None
                return r
        return None

    def sym(self, modname, name, _seen=None):
        """What `modname.name` denotes: ClassInfo, FuncInfo, Module, ('value', Module, name), or None."""
        _seen = _seen or set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.imports:
            mn, sy = m.imports[name]
            if sy is None:
                return self.modules.get(mn) or ("ext", mn)
            r = self.sym(mn, sy, _seen)
            if r is not None:
                return r
            if mn + "." + sy in self.modules:
                return self.modules[mn + "." + sy]
            if mn not in self.modules:
                return ("ext", mn + "." + sy)
            return None
        if name in m.assigns:
            vs = m.assigns[name]
            if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)):
                d = dotted(vs[0])
                if d and d != name:
                    r = self.resolve_dotted(m, d, _seen=_seen)
                    if r is not None and not (isinstance(r, tuple) and r[0] == "ext"):
                        return r
            return ("value", m, name)
        if modname + "." + name in self.modules:
            return self.modules[modname + "." + name]
        for s in m.star:
            r = self.sym(s, name, _seen)
            if r is not None:
                return r
        return None

    def resolve_dotted(self, m, d, extra=None, _seen=None):
        """Resolve a dotted expression in module scope (extra: local import bindings)."""
        parts = d.split(".")
        r = None
        if extra and parts[0] in extra:
            mn, sy = extra[parts[0]]
            if sy is None:
                r = self.modules.get(mn) or ("ext", mn)
            else:
                r = self.sym(mn, sy)
                if r is None:
                    r = self.modules.get(mn + "." + sy)
                if r is None and mn not in self.modules:
                    r = ("ext", mn + "." + sy)
        else:
            r = self.sym(m.name, parts[0], _seen)
        for p in parts[1:]:
            if r is None:
                return None
            if isinstance(r, Module):
                r = self.sym(r.name, p)
            elif isinstance(r, ClassInfo):
                r = self.member(r, p)
            elif isinstance(r, tuple) and r[0] == "ext":
                # an external dotted module may itself be a repo package path
                full = r[1] + "." + p
                r = self.modules.get(full) or ("ext", full)
            else:
                return None
        return r

    # ---- classes ------------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.base_nodes:
            d = dotted(b)
            if not d:
                continue
            r = self.resolve_dotted(c.module, d)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def mro(self, c, _seen=None):
        _seen = _seen if _seen is not None else []
        if c in _seen:
            return _seen
        _seen.append(c)
        for b in self.bases(c):
            self.mro(b, _seen)
        return _seen

    def member(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
            if name in k.inner:
                return k.inner[name]
            if name in k.attrs:
                return ("clsattr", k, name)
        return None

    def ext_bases(self, c):
        out = set()
        for k in self.mro(c):
            for b in k.base_nodes:
                d = dotted(b)
                if d:
                    out.add(d.split(".")[-1])
        return out

    def is_enum(self, c):
        return bool(self.ext_bases(c) & {"Enum", "IntEnum", "StrEnum", "Flag", "IntFlag"})

    def enum_members(self, c):
        return {k: v for k, v in c.attrs.items() if not k.startswith("_") and v is not None}

    def all_fields(self, c):
        out = []
        for k in reversed(self.mro(c)):
            for f in k.fields:
                if f not in out:
                    out.append(f)
        return out

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in self.all_classes(m):
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    def all_classes(self, m):
        st = list(m.classes.values())
        while st:
            k = st.pop()
            yield k
            st.extend(k.inner.values())

    def all_funcs(self, m, nested=True):
        """Every function in module m: module level, methods, nested."""
        st = list(m.funcs.values())
        for k in self.all_classes(m):
            st.extend(k.methods.values())
        while st:
            f = st.pop()
            yield f
            if nested:
                st.extend(f.local_funcs.values())

    def local_imports(self, f):
        """Import bindings made inside function f (and its enclosing functions)."""
        cache = getattr(f, "_limp", None)
        if cache is not None:
            return cache
        out = {}
        if f.outer is not None:
            out.update(self.local_imports(f.outer))
        for n in walk_own(f.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for k, v in f.module.import_bindings(n):
                    if k != "*":
                        out[k] = v
        f._limp = out
        return out

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.consulted):
            h.update(self.modules[n].digest.encode())
        return h.hexdigest()
