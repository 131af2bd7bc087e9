"""Path-sensitive dataflow over the syntax tree.

The engine walks a function's statements along every control-flow path (branches, loops
unrolled to a small bound, try/except/finally, with, early exits), follows calls into
repository functions (so an extracted helper is transparent), and carries per path

  env     local variable -> term (what the value was computed from)
  heap    (object term, attribute) -> term
  facts   normalised branch conditions known true/false on this path
  events  calls / stores / raises the rule asked to record

Terms are provenance expressions, never concrete runtime values; no solver is involved.
Contradictory branch facts over identical terms prune a path, and when the number of
states exceeds a cap, states that agree on the rule's own events/facts are joined
(property simulation), other variables becoming sets of alternatives.
"""
from __future__ import annotations

import ast
import itertools
import math
import pathlib
import builtins as _bi
import collections.abc as _abc

from .project import ClassInfo, FuncInfo, Module, Project, dotted, walk_own

NONE = ("const", None)
TRUE = ("const", True)
FALSE = ("const", False)

MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "appendleft"}
SHRINKERS = {"clear", "pop", "remove", "discard", "popitem", "popleft"}
PURE_EXT = {
    "isinstance", "len", "str", "type", "hasattr", "getattr", "callable", "bool", "int", "float", "repr",
    "tuple", "list", "set", "dict", "frozenset", "sorted", "min", "max", "abs", "any", "all", "issubclass",
    "pathlib.Path", "os.path.join", "os.path.exists", "math.isfinite", "math.isnan", "range", "enumerate", "zip",
    "sum", "id",
}
PURE_METHODS = {
    "get", "lower", "upper", "strip", "startswith", "endswith", "keys", "values", "items", "split", "join",
    "resolve", "is_file", "is_dir", "exists", "is_absolute", "isdigit", "replace", "casefold", "rstrip", "lstrip",
    "union", "intersection", "difference", "issubset", "copy", "as_posix", "relative_to", "is_relative_to", "format",
}


def C(v):
    return ("const", v)


def is_const(t):
    return t[0] == "const"


class State:
    __slots__ = ("env", "heap", "facts", "events", "stack", "user")

    def __init__(self, env=None, heap=None, facts=None, events=(), stack=(), user=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.events = events
        self.stack = stack
        self.user = user

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.events, self.stack, self.user)

    def ident(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()),
                self.events, len(self.stack), self.user)


class Ev:
    """An event: kind in call/store/setitem/raise/return/yield/del/aug."""
    __slots__ = ("kind", "term", "args", "node", "func", "depth")

    def __init__(self, kind, term, args, node, func, depth):
        self.kind, self.term, self.args, self.node, self.func, self.depth = kind, term, args, node, func, depth

    @property
    def where(self):
        return "%s:%d (%s)" % (self.func.module.rel, getattr(self.node, "lineno", 0), self.func.qual)


class Out:
    """A way control leaves a statement list."""
    __slots__ = ("kind", "state", "value", "node")

    def __init__(self, kind, state, value=None, node=None):
        self.kind, self.state, self.value, self.node = kind, state, value, node


class Policy:
    """What a rule wants from the walk.  Subclass and override."""
    loop_iters = 2
    max_states = 160
    max_depth = 6
    key_flags = True           # keep states with different boolean locals apart
    list_cap = 10              # items tracked per locally built list
    want_exc = True            # implicit exceptions of opaque calls inside try
    fold = False               # compute with collections whose items are all known
    comp_skip = False          # also explore a comprehension whose filter rejects the element
    exc_exits = False          # implicit exceptions that leave the entry function
    recurse = 1                # frames of one function on the stack
    budget = 400000            # statements executed before giving up

    def inline(self, eng, fi, depth):
        return fi.module is eng.entry.module

    def track(self, ev, state):
        return False

    def on_event(self, ev, state, eng):
        pass

    def fact_key(self, atom):
        return False

    def on_fact(self, atom, val, state):
        """Called when a path assumes atom=val; may set state.user (part of the join key)."""

    def exit_event(self, state, kind):
        pass

    def may_raise(self, term):
        return True

    def call_hook(self, eng, term, state, node):
        """Return list of (state, value) to override a call, or None."""
        return None


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("func", "depth", "in_try", "yield_hook", "limp", "cls", "outer_env")

    def __init__(self, func, depth, in_try=0, yield_hook=None, cls=None):
        self.func, self.depth, self.in_try, self.yield_hook, self.cls = func, depth, in_try, yield_hook, cls
        self.limp = None


class Engine:
    def __init__(self, project: Project, policy: Policy):
        self.p = project
        self.pol = policy
        self.entry = None
        self.steps = 0
        self.inlined = set()
        self.call_stack = []
        self.types = {}
        self.paths = 0
        self._constcache = {}
        self._attrtype = {}
        self.capped = False

    # ------------------------------------------------------------------ API
    def run(self, fi: FuncInfo, bind=None, facts=None, types=None, heap=None):
        """Walk `fi` from its entry; return list of Out (return / raise / next)."""
        self.entry = fi
        if types:
            self.types.update(types)
        self.p.consulted.add(fi.module.name)
        st = State()
        a = fi.node.args
        names = fi.params + fi.kwonly
        for n in names:
            st.env[n] = ("param", n)
        if a.vararg:
            st.env[a.vararg.arg] = ("param", "*" + a.vararg.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = ("param", "**" + a.kwarg.arg)
        if fi.cls is not None and fi.params and not fi.is_static:
            if fi.is_classmethod:
                st.env[fi.params[0]] = ("class", fi.cls.qual)
            else:
                self.types[("param", fi.params[0])] = fi.cls
        for n in a.posonlyargs + a.args + a.kwonlyargs:
            if n.annotation is not None and ("param", n.arg) not in self.types:
                c = self.ann_class(fi.module, n.annotation, fi)
                if c is not None:
                    self.types[("param", n.arg)] = c
        if bind:
            st.env.update(bind)
        if facts:
            st.facts.update(facts)
        if heap:
            st.heap.update(heap)
        fr = Frame(fi, 0, 0, None, fi.cls)
        self.call_stack = [fi.qual]
        outs = self.exec_block(self._body(fi.node), st, fr)
        res = []
        for o in outs:
            if o.kind == "next":
                o = Out("return", o.state, NONE, fi.node)
            res.append(o)
        self.paths += len(res)
        return res

    @staticmethod
    def _body(node):
        if isinstance(node, ast.Lambda):
            r = ast.Return(value=node.body)
            ast.copy_location(r, node.body)
            return [r]
        return node.body

    # ------------------------------------------------------------ typing
    def ann_class(self, module, ann, fi=None):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            d = dotted(ann.value) or ""
            if d.split(".")[-1] == "Optional":
                return self.ann_class(module, ann.slice, fi)
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.ann_class(module, ann.left, fi) or self.ann_class(module, ann.right, fi)
        d = dotted(ann)
        if not d:
            return None
        r = self.p.resolve_dotted(module, d, self.p.local_imports(fi) if fi is not None else None)
        return r if isinstance(r, ClassInfo) else None

    def ann_elem_class(self, module, ann):
        """Element class of List[X]/Dict[K,X]/Sequence[X]..."""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            d = (dotted(ann.value) or "").split(".")[-1]
            if d == "Optional":
                return self.ann_elem_class(module, ann.slice)
            sl = ann.slice
            if d in ("Dict", "dict", "Mapping", "OrderedDict", "defaultdict") and isinstance(sl, ast.Tuple):
                return self.ann_class(module, sl.elts[1])
            if d in ("List", "list", "Sequence", "Iterable", "Set", "set", "Tuple", "tuple", "FrozenSet"):
                if isinstance(sl, ast.Tuple):
                    return self.ann_class(module, sl.elts[0]) if sl.elts else None
                return self.ann_class(module, sl)
        return None

    def attr_ann(self, cls, attr):
        """(module, annotation) declared for cls.attr if any."""
        for k in self.p.mro(cls):
            if attr in k.annotations:
                return k.module, k.annotations[attr]
            m = k.methods.get("__init__")
            if m is not None:
                for n in walk_own(m.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                            and n.target.attr == attr and isinstance(n.target.value, ast.Name) \
                            and n.target.value.id == "self":
                        return k.module, n.annotation
        return None

    def attr_class(self, cls, attr):
        key = (cls.qual, attr)
        if key in self._attrtype:
            return self._attrtype[key]
        self._attrtype[key] = None
        r = None
        a = self.attr_ann(cls, attr)
        if a:
            r = self.ann_class(a[0], a[1])
        if r is None:
            mem = self.p.member(cls, attr)
            if isinstance(mem, FuncInfo) and mem.is_property:
                r = self.ann_class(mem.module, mem.node.returns, mem)
        if r is None:
            for k in self.p.mro(cls):
                m = k.methods.get("__init__")
                if m is None:
                    continue
                pann = {x.arg: x.annotation for x in m.node.args.args + m.node.args.kwonlyargs}
                for n in walk_own(m.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) \
                                    and t.value.id == "self":
                                vs = [n.value]
                                if isinstance(n.value, ast.BoolOp):
                                    vs = n.value.values
                                if isinstance(n.value, ast.IfExp):
                                    vs = [n.value.body, n.value.orelse]
                                for v in vs:
                                    if isinstance(v, ast.Call):
                                        d = dotted(v.func)
                                        c = d and self.p.resolve_dotted(k.module, d, self.p.local_imports(m))
                                        if isinstance(c, ClassInfo):
                                            r = r or c
                                    elif isinstance(v, ast.Name) and pann.get(v.id) is not None:
                                        r = r or self.ann_class(k.module, pann[v.id], m)
                if r:
                    break
        self._attrtype[key] = r
        return r

    def type_of(self, t):
        if t in self.types:
            return self.types[t]
        k = t[0]
        if k == "call":
            f = t[1]
            if f[0] == "class":
                return self.p.find(f[1])
            fi = self.fn_info(f)
            if fi is not None and fi.node is not None and getattr(fi.node, "returns", None) is not None:
                return self.ann_class(fi.module, fi.node.returns, fi)
            return None
        if k == "attr":
            b = self.type_of(t[1])
            if b is not None:
                return self.attr_class(b, t[2])
            return None
        if k in ("elem", "item"):
            base = t[1]
            if base[0] == "call" and base[1][0] == "attr" and base[1][2] in ("values", "copy"):
                base = base[1][1]
            if k == "elem" and base[0] == "call" and base[1] in (("ext", "list"), ("ext", "sorted"), ("ext", "tuple"), ("ext", "reversed")) and base[2]:
                base = base[2][0]
                if base[0] == "call" and base[1][0] == "attr" and base[1][2] == "values":
                    base = base[1][1]
            if base[0] == "item" and base[1][0] == "elem" and False:
                pass
            a = None
            # for k, v in d.items(): item(elem(items(d)),1)
            if k == "item" and base[0] == "elem" and base[1][0] == "call" and base[1][1][0] == "attr" \
                    and base[1][1][2] == "items" and t[2] == C(1):
                base = base[1][1][1]
            if k == "item" and base[0] == "elem" and base[1][0] == "call" and base[1][1] == ("ext", "enumerate") \
                    and t[2] == C(1):
                base = base[1][2][0]
            if base[0] == "attr":
                b = self.type_of(base[1])
                if b is not None:
                    a = self.attr_ann(b, base[2])
            elif base[0] == "param" and self.entry is not None:
                for n in self.entry.node.args.args + self.entry.node.args.kwonlyargs:
                    if n.arg == base[1] and n.annotation is not None:
                        a = (self.entry.module, n.annotation)
            elif base[0] == "call":
                fi = self.fn_info(base[1])
                if fi is not None and getattr(fi.node, "returns", None) is not None:
                    a = (fi.module, fi.node.returns)
            if a:
                return self.ann_elem_class(a[0], a[1])
        if k == "enum":
            return self.p.find(t[1])
        if k == "phi":
            cs = {self.type_of(x) for x in t[1] if x != NONE}
            if len(cs) == 1:
                return cs.pop()
        return None

    def fn_info(self, f):
        """FuncInfo a function term denotes, if known."""
        if f[0] == "fn":
            r = self._fns.get(f[1]) if hasattr(self, "_fns") else None
            if r is None:
                r = self.p.find(f[1])
            return r if isinstance(r, FuncInfo) else None
        if f[0] == "attr":
            c = self.type_of(f[1])
            if c is not None:
                m = self.p.member(c, f[2])
                if isinstance(m, FuncInfo):
                    return m
            if f[1][0] == "class":
                c = self.p.find(f[1][1])
                if isinstance(c, ClassInfo):
                    m = self.p.member(c, f[2])
                    if isinstance(m, FuncInfo):
                        return m
            if f[1][0] == "super":
                c = self.p.find(f[1][1])
                for k in self.p.mro(c)[1:]:
                    if f[2] in k.methods:
                        return k.methods[f[2]]
        if f[0] == "localfn":
            return self._fns.get(f[1])
        return None

    # ---------------------------------------------------------- constants
    def const_of_global(self, modname, name):
        key = (modname, name)
        if key in self._constcache:
            return self._constcache[key]
        self._constcache[key] = None
        m = self.p.modules.get(modname)
        r = None
        if m is not None:
            vs = m.assigns.get(name, [])
            if len(vs) == 1 and vs[0] is not None:
                r = self.static_term(m, vs[0])
        self._constcache[key] = r
        return r

    def static_term(self, m, node):
        """Term for a module-level constant expression, or None."""
        if isinstance(node, ast.Constant):
            return C(node.value)
        if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            items = [self.static_term(m, e) for e in node.elts]
            if any(i is None for i in items):
                return None
            return ({"Tuple": "tuple", "List": "list", "Set": "set"}[type(node).__name__], tuple(items))
        if isinstance(node, ast.Dict):
            if any(k is None for k in node.keys):
                return None
            ks = [self.static_term(m, k) for k in node.keys]
            vs = [self.static_term(m, v) for v in node.values]
            if any(k is None for k in ks):
                return None
            return ("dict", tuple((k, v if v is not None else ("top", "v")) for k, v in zip(ks, vs)))
        if isinstance(node, ast.Call) and dotted(node.func) in ("frozenset", "set", "tuple", "list") \
                and len(node.args) == 1 and not node.keywords:
            r = self.static_term(m, node.args[0])
            if r and r[0] in ("tuple", "list", "set"):
                return ("set" if "set" in dotted(node.func) else dotted(node.func), r[1])
            return None
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            return C(-node.operand.value)
        if isinstance(node, (ast.Name, ast.Attribute)):
            d = dotted(node)
            if d:
                r = self.ref_term(self.p.resolve_dotted(m, d))
                if r and r[0] == "gval":
                    r2 = self.const_of_global(r[1], r[2])
                    return r2 or r
                return r
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            a, b = self.static_term(m, node.left), self.static_term(m, node.right)
            if a and b and a[0] == b[0] == "set":
                return ("set", a[1] + b[1])
        return None

    def ref_term(self, r):
        if isinstance(r, FuncInfo):
            return ("fn", r.qual)
        if isinstance(r, ClassInfo):
            return ("class", r.qual)
        if isinstance(r, Module):
            return ("mod", r.name)
        if isinstance(r, tuple):
            if r[0] == "ext":
                return ("ext", r[1])
            if r[0] == "value":
                return ("gval", r[1].name, r[2])
            if r[0] == "clsattr":
                if self.p.is_enum(r[1]):
                    return ("enum", r[1].qual, r[2])
                return ("attr", ("class", r[1].qual), r[2])
        return None

    def members(self, t):
        """Constituents of a constant container term (resolving globals), else None."""
        if t[0] in ("tuple", "list", "set"):
            return t[1]
        if t[0] == "dict":
            return tuple(k for k, _ in t[1])
        if t[0] == "gval":
            r = self.const_of_global(t[1], t[2])
            if r is not None and r[0] in ("tuple", "list", "set", "dict"):
                return self.members(r)
        if t[0] == "attr" and t[1][0] == "class":
            c = self.p.find(t[1][1])
            if isinstance(c, ClassInfo):
                for k in self.p.mro(c):
                    if t[2] in k.attrs and k.attrs[t[2]] is not None:
                        r = self.static_term(k.module, k.attrs[t[2]])
                        if r is not None and r[0] in ("tuple", "list", "set", "dict"):
                            return self.members(r)
        if t[0] == "attr":
            c = self.type_of(t[1])
            if c is not None:
                for k in self.p.mro(c):
                    if t[2] in k.attrs and k.attrs[t[2]] is not None and not k.is_dataclass:
                        r = self.static_term(k.module, k.attrs[t[2]])
                        if r is not None and r[0] in ("tuple", "list", "set", "dict"):
                            return self.members(r)
        if t[0] == "call" and t[1] in (("ext", "tuple"), ("ext", "list"), ("ext", "set"), ("ext", "frozenset"), ("ext", "sorted")) and len(t[2]) == 1:
            return self.members(t[2][0])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "keys":
            return self.members(t[1][1])
        return None

    def pairs(self, t):
        """(key, value) pairs of a constant dict term."""
        if t[0] == "dict":
            return t[1]
        if t[0] == "gval":
            r = self.const_of_global(t[1], t[2])
            if r is not None and r[0] == "dict":
                return r[1]
        if t[0] == "attr":
            c = None
            if t[1][0] == "class":
                c = self.p.find(t[1][1])
            else:
                c = self.type_of(t[1])
            if isinstance(c, ClassInfo):
                for k in self.p.mro(c):
                    if t[2] in k.attrs and k.attrs[t[2]] is not None:
                        r = self.static_term(k.module, k.attrs[t[2]])
                        if r is not None and r[0] == "dict":
                            return r[1]
        return None

    # ------------------------------------------------------------- facts
    @staticmethod
    def _static(t):
        return t[0] in ("const", "enum", "class", "fn", "mod", "ext")

    def atom_eq(self, a, b):
        if self._static(a) and not self._static(b):
            a, b = b, a
        elif not self._static(b) and repr(b) < repr(a):
            a, b = b, a
        return ("eq", a, b)

    def decide(self, atom, st):
        """True/False if the path facts settle the atom, else None."""
        f = st.facts
        if atom in f:
            return f[atom]
        k = atom[0]
        if k == "eq":
            a, b = atom[1], atom[2]
            if a == b and a[0] != "top":
                return True
            if self._static(a) and self._static(b):
                if a[0] == "const" and b[0] == "const":
                    return a[1] == b[1]
                if a[0] == b[0]:
                    return a == b
                if a == NONE or b == NONE:
                    return False
                return None
            if b == NONE:
                if a[0] in ("tuple", "list", "dict", "set", "fstr", "localfn", "lambda", "comp", "bin"):
                    return False
                if a[0] == "call" and a[1][0] == "class":
                    return False
                if a[0] == "call" and a[1] in (("ext", "str"), ("ext", "list"), ("ext", "dict"), ("ext", "set"), ("ext", "tuple"), ("ext", "pathlib.Path"), ("ext", "int"), ("ext", "float"), ("ext", "len"), ("ext", "sorted")):
                    return False
                if f.get(("truth", a)) is True:
                    return False
            if a[0] == b[0] == "tuple" and not any(x[0] == "star" for x in a[1] + b[1]):
                if len(a[1]) != len(b[1]):
                    return False
                rs = [self.decide(self.atom_eq(x, y), st) for x, y in zip(a[1], b[1])]
                return False if any(r is False for r in rs) else True if all(r is True for r in rs) else None
            if a[0] == b[0] == "call" and a[1] == b[1] == ("ext", "frozenset") and len(a[2]) == len(b[2]) == 1:
                xs, ys = self.members(a[2][0]), self.members(b[2][0])
                if xs is not None and ys is not None and all(self._static(x) for x in xs + ys):
                    return set(xs) == set(ys)
            if a[0] == "phi":
                rs = {self.decide(self.atom_eq(x, b), st) for x in a[1]}
                if len(rs) == 1:
                    return rs.pop()
                return None
            if self._static(b):
                for at, v in f.items():
                    if v and at[0] == "eq" and at[1] == a and self._static(at[2]) and at[2] != b:
                        r = self.decide(("eq", at[2], b), State())
                        if r is not None:
                            return r
                    if v and at[0] == "in" and at[1] == a:
                        ms = self.members(at[2])
                        if ms is not None and all(self._static(x) for x in ms) and b not in ms:
                            return False
                    if b == NONE and v and at[0] == "isinstance" and at[1] == a:
                        return False
                    if b == NONE and v and at[0] in ("lt", "le") and a in (at[1], at[2]):
                        return False
        elif k == "truth":
            t = atom[1]
            if t[0] == "const":
                return bool(t[1])
            if t[0] == "enum" or t[0] in ("class", "fn", "mod", "localfn", "lambda"):
                return True
            if t[0] in ("tuple", "list", "set", "dict"):
                if any(x[0] != "star" and x[0] != ("dstar",) for x in t[1]):
                    return True
                if t[1] or ("touched", t) in f:
                    return None
                return False
            if t[0] == "call" and t[1][0] == "class":
                c = self.p.find(t[1][1])
                if isinstance(c, ClassInfo) and not any(
                        x in kk.methods for kk in self.p.mro(c) for x in ("__bool__", "__len__")):
                    return True
                return None
            if f.get(("eq", t, NONE)) is True:
                return False
            for at, v in f.items():
                if v and at[0] == "eq" and at[1] == t and at[2][0] == "const":
                    return bool(at[2][1])
                if v and at[0] == "eq" and at[1] == t and at[2][0] == "enum":
                    return True
            if t[0] == "phi":
                rs = {self.decide(("truth", x), st) for x in t[1]}
                if len(rs) == 1:
                    return rs.pop()
        elif k == "in":
            a, b = atom[1], atom[2]
            ms = self.members(b)
            if ms is not None and ("touched", b) not in f and not any(x[0] == "star" for x in ms):
                if self._static(a):
                    if all(self._static(x) for x in ms):
                        return a in ms
                    if a in ms:
                        return True
                    return None
                rs = [self.decide(self.atom_eq(a, x), st) for x in ms]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
                if not ms:
                    return False
        elif k == "isinstance":
            t = atom[1]
            if t[0] == "const" and atom[2][0] == "ext" and t[1] is None:
                return False
            if t[0] == "const" and atom[2] == ("ext", "str"):
                return isinstance(t[1], str)
            if atom[2][0] == "ext" and (t[0] in ("dict", "list", "set", "tuple") or t[0] == "const" and self.pol.fold):
                ty = {"dict": dict, "list": list, "set": set, "tuple": tuple, "const": type(t[1])}[t[0]]
                b2 = getattr(_bi, atom[2][1], None) or getattr(_abc, atom[2][1].rsplit(".", 1)[-1], None)
                if isinstance(b2, type):
                    return issubclass(ty, b2)
            ty = self.type_of(t) if t[0] == "call" and t[1][0] == "class" else None
            if ty is not None and atom[2][0] == "class":
                c = self.p.find(atom[2][1])
                return c in self.p.mro(ty)
            if f.get(("eq", t, NONE)) is True:
                return False
            for at, v in f.items():
                if v and at[0] == "exact" and at[1] == t:
                    if atom[2][0] == "class":
                        c1, c2 = self.p.find(at[2][1]), self.p.find(atom[2][1])
                        if isinstance(c1, ClassInfo) and isinstance(c2, ClassInfo):
                            return c2 in self.p.mro(c1)
                    elif atom[2][0] == "ext":
                        return False
                if at[0] == "isinstance" and at[1] == t and at[2][0] == "class" and atom[2][0] == "class":
                    c1, c2 = self.p.find(at[2][1]), self.p.find(atom[2][1])
                    if isinstance(c1, ClassInfo) and isinstance(c2, ClassInfo):
                        if v and c2 in self.p.mro(c1):
                            return True
                        if not v and c1 in self.p.mro(c2):
                            return False
                elif v and at[0] == "isinstance" and at[1] == t and at[2][0] == "ext" and atom[2][0] == "ext":
                    b1, b2 = getattr(_bi, at[2][1], None), getattr(_bi, atom[2][1], None)
                    if isinstance(b1, type) and isinstance(b2, type):
                        if issubclass(b1, b2):
                            return True
                        if b1 in (str, list, tuple, dict, set, bytes) and b2 in (str, list, tuple, dict, set, bytes, int, float, bool):
                            return False
        elif k in ("lt", "le"):
            a, b = atom[1], atom[2]
            if a[0] == b[0] == "const":
                try:
                    return a[1] < b[1] if k == "lt" else a[1] <= b[1]
                except TypeError:
                    return None
        return None

    def assume(self, atom, val, st):
        """State with atom=val, or None if contradictory."""
        d = self.decide(atom, st)
        if d is not None:
            return st if d == val else None
        s = st.copy()
        s.facts[atom] = val
        self.pol.on_fact(atom, val, s)
        return s

    # -------------------------------------------------------- conditions
    def cond(self, node, st, fr):
        """[(state, bool)] for the truth of an expression (exceptional outs via self.exc)."""
        self._tick()
        if isinstance(node, ast.BoolOp):
            cur = [(st, None)]
            done = []
            is_and = isinstance(node.op, ast.And)
            for i, v in enumerate(node.values):
                nxt = []
                for s, _ in cur:
                    for s2, b in self.cond(v, s, fr):
                        if b != is_and:
                            done.append((s2, b))
                        elif i == len(node.values) - 1:
                            done.append((s2, b))
                        else:
                            nxt.append((s2, b))
                cur = nxt
            return done
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st, fr)]
        if isinstance(node, ast.Compare):
            res = []
            for s, vals in self.eval_many([node.left] + node.comparators, st, fr):
                cur = [s]
                for i, op in enumerate(node.ops):
                    nxt = []
                    for s1 in cur:
                        for s2, b in self.compare(op, vals[i], vals[i + 1], s1):
                            if b:
                                nxt.append(s2)
                            else:
                                res.append((s2, False))
                    cur = nxt
                res.extend((s1, True) for s1 in cur)
            return res
        if isinstance(node, ast.NamedExpr):
            res = []
            for s, v in self.eval(node.value, st, fr):
                s = s.copy()
                s.env[node.target.id] = v
                res.extend(self.truth(v, s))
            return res
        if isinstance(node, ast.IfExp):
            res = []
            for s, b in self.cond(node.test, st, fr):
                res.extend(self.cond(node.body if b else node.orelse, s, fr))
            return res
        res = []
        for s, v in self.eval(node, st, fr):
            res.extend(self.truth(v, s))
        return res

    def truth(self, v, st):
        if v[0] == "cmp":
            return self._split(v[1], st)
        if v[0] == "not":
            return [(s, not b) for s, b in self.truth(v[1], st)]
        if v[0] == "call" and v[1] == ("ext", "bool") and len(v[2]) == 1:
            return self.truth(v[2][0], st)
        if v[0] == "call" and v[1] == ("ext", "isinstance") and len(v[2]) == 2:
            t, cl = v[2]
            cls = cl[1] if cl[0] in ("tuple",) else (cl,)
            if cl[0] == "gval":
                ms = self.members(cl)
                cls = ms if ms is not None else (cl,)
            res = []
            cur = [st]
            for c in cls:
                nxt = []
                for s in cur:
                    for s2, b in self._split(("isinstance", t, c), s):
                        if b:
                            s3 = s2
                            if c[0] == "class" and t[0] not in ("const",) and t not in self.types:
                                pass
                            res.append((s3, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            res.extend((s, False) for s in cur)
            return res
        if v[0] == "call" and v[1] == ("ext", "len") and len(v[2]) == 1:
            return self.truth(v[2][0], st)
        if v[0] == "call" and v[1] in (("ext", "pathlib.Path"), ("ext", "pathlib.PurePath")):
            return [(st, True)]
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("is_file",) and not v[2]:
            pass
        if v[0] == "phi":
            res = []
            for x in sorted(v[1], key=repr):
                res.extend(self.truth(x, st))
            # one (state,bool) per distinct outcome
            seen, out = set(), []
            for s, b in res:
                k = (s.ident(), b)
                if k not in seen:
                    seen.add(k)
                    out.append((s, b))
            return out
        return self._split(("truth", v), st)

    def _split(self, atom, st):
        d = self.decide(atom, st)
        if d is not None:
            return [(st, d)]
        out = []
        for b in (True, False):
            s = st.copy()
            s.facts[atom] = b
            self.pol.on_fact(atom, b, s)
            out.append((s, b))
        return out

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)) and not self._identity(a, b):
            return [(s, r == isinstance(op, ast.Is)) for s, r in self._split(("is",) + tuple(sorted((a, b), key=repr)), st)]
        if isinstance(op, (ast.Eq, ast.Is)):
            return self._eq(a, b, st)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return [(s, not r) for s, r in self._eq(a, b, st)]
        if isinstance(op, ast.In):
            return self._in(a, b, st)
        if isinstance(op, ast.NotIn):
            return [(s, not r) for s, r in self._in(a, b, st)]
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and is_const(b) and a[0] == "call" \
                and a[1] == ("ext", "len") and len(a[2]) == 1:
            x = a[2][0]
            v = b[1]
            if (isinstance(op, ast.Gt) and v == 0) or (isinstance(op, ast.GtE) and v == 1):
                return self.truth(x, st)
            if (isinstance(op, ast.Lt) and v == 1) or (isinstance(op, ast.LtE) and v == 0):
                return [(s, not r) for s, r in self.truth(x, st)]
        if isinstance(op, ast.Lt):
            return self._split(("lt", a, b), st)
        if isinstance(op, ast.Gt):
            return self._split(("lt", b, a), st)
        if isinstance(op, ast.LtE):
            return self._split(("le", a, b), st)
        if isinstance(op, ast.GtE):
            return self._split(("le", b, a), st)
        return self._split(("truth", ("top", "cmp")), st)

    @staticmethod
    def _identity(a, b):
        """Identity and equality coincide for these operands."""
        one = lambda t: t[0] in ("enum", "class", "fn", "mod", "ext", "gval") or t in (NONE, TRUE, FALSE)
        return one(a) or one(b) or a == b

    def _eq(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if y in (TRUE, FALSE) and x[0] in ("cmp", "not"):
                return [(s, r == y[1]) for s, r in self.truth(x, st)]
            if y == C(0) and x[0] == "call" and x[1] == ("ext", "len") and len(x[2]) == 1:
                return [(s, not r) for s, r in self.truth(x[2][0], st)]
            if y[0] == "list" and not y[1] and ("touched", y) not in st.facts and x[0] == "list" and x is not y:
                return [(s, not r) for s, r in self.truth(x, st)]
        return self._split(self.atom_eq(a, b), st)

    def _in(self, a, b, st):
        ms = self.members(b)
        if self.pol.fold and a[0] in ("list", "dict", "set") and ms is not None:
            r = self.const_of_global(b[1], b[2]) if b[0] == "gval" else b
            if r is not None and r[0] in ("set", "dict"):
                st = st.copy()
                st.facts[("unhashable", a)] = True
                return [(st, False)]
        if ms is not None and ("touched", b) not in st.facts and len(ms) <= 12 and all(self._static(m) for m in ms):
            # membership in a literal set is a disjunction of equalities
            d = self.decide(("in", a, b), st)
            if d is not None:
                return [(st, d)]
            if len(ms) <= 6:
                res, cur = [], [st]
                for m in ms:
                    nxt = []
                    for s in cur:
                        for s2, r in self._eq(a, m, s):
                            (res.append((s2, True)) if r else nxt.append(s2))
                    cur = nxt
                return res + [(s, False) for s in cur]
        return self._split(("in", a, b), st)

    # -------------------------------------------------------- expressions
    def eval_many(self, nodes, st, fr):
        """[(state, [terms])] evaluating nodes left to right."""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval(n, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = self._cap_pairs(nxt)
        return cur

    def _cap_pairs(self, prs):
        if len(prs) <= 1:
            return prs
        seen, out = set(), []
        for s, v in prs:
            k = (s.ident(), tuple(v) if isinstance(v, list) else v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        lim = self.pol.max_states
        if len(out) > lim:
            self.capped = True
            groups = {}
            for s, v in out:
                groups.setdefault((self._key(s), len(v) if isinstance(v, list) else 0), []).append((s, v))
            out = []
            for (k, n), g in groups.items():
                if len(g) == 1:
                    out.append(g[0])
                    continue
                s = self._merge([x for x, _ in g])
                if isinstance(g[0][1], list):
                    v = [join_terms([x[1][i] for x in g]) for i in range(n)]
                else:
                    v = join_terms([x[1] for x in g])
                out.append((s, v))
        return out

    def _tick(self):
        self.steps += 1
        if self.steps > self.pol.budget:
            raise Budget("analysis budget exceeded in %s" % (self.entry.qual if self.entry else "?"))

    def _outer_names(self, fi):
        """Names that the functions around fi may bind."""
        got = getattr(fi, "_outer_names", None)
        if got is None:
            got, o = set(), fi.outer
            while o is not None:
                for x in ast.walk(o.node):
                    if isinstance(x, ast.arg):
                        got.add(x.arg)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        got.add(x.id)
                    elif isinstance(x, ast.alias):
                        got.add((x.asname or x.name).split(".")[0])
                    elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        got.add(x.name)
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        got.add(x.name)
                o = o.outer
            fi._outer_names = got
        return got

    def lookup(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        fi = fr.func
        if fi.outer is not None and name in self._outer_names(fi):
            # only lexically enclosing frames share names with nested functions
            for e in reversed(st.stack):
                if name in dict_of(e):
                    return dict_of(e)[name]
        li = self.p.local_imports(fi)
        f = fi
        while f is not None:
            if name in f.local_funcs and f.local_funcs[name] is not fi:
                lf = f.local_funcs[name]
                self._reg(lf)
                return ("localfn", lf.qual)
            if f is fi and f.outer is not None and f.name == name:
                self._reg(f)
                return ("localfn", f.qual)
            f = f.outer
        r = self.p.resolve_dotted(fi.module, name, li)
        t = self.ref_term(r) if r is not None else None
        if t is not None:
            if t[0] == "gval":
                c = self.const_of_global(t[1], t[2])
                if c is not None and c[0] in ("const", "enum"):
                    return c
            return t
        if fi.cls is not None and name == "__class__":
            return ("class", fi.cls.qual)
        if hasattr(_bi, name):
            return ("ext", name)
        return ("name", name)

    def _reg(self, fi):
        if not hasattr(self, "_fns"):
            self._fns = {}
        self._fns[fi.qual] = fi

    def attr(self, base, name, st, fr, node=None):
        """Terms for base.name: [(state, term)]"""
        if (base, name) in st.heap:
            return [(st, st.heap[(base, name)])]
        if base[0] == "phi":
            out = []
            for x in sorted(base[1], key=repr):
                if x == NONE:
                    continue
                out.extend(self.attr(x, name, st, fr, node))
            return self._cap_pairs(out) or [(st, ("attr", base, name))]
        if self.pol.fold and name in ("name", "stem", "suffix", "parts", "suffixes"):
            pp = pure_path(base)
            if pp is not None:
                v = getattr(pp, name)
                return [(st, C(v) if isinstance(v, str) else ("tuple", tuple(C(x) for x in v)))]
        if base[0] == "mod":
            r = self.p.sym(base[1], name)
            if r is None and base[1] + "." + name in self.p.modules:
                r = self.p.modules[base[1] + "." + name]
            t = self.ref_term(r) if r is not None else None
            if t and t[0] == "gval":
                c = self.const_of_global(t[1], t[2])
                if c is not None and c[0] in ("const", "enum"):
                    t = c
            return [(st, t or ("attr", base, name))]
        if base[0] == "ext":
            return [(st, ("ext", base[1] + "." + name))]
        if base[0] == "class":
            c = self.p.find(base[1])
            if isinstance(c, ClassInfo):
                m = self.p.member(c, name)
                if isinstance(m, tuple) and m[0] == "clsattr":
                    if self.p.is_enum(m[1]):
                        return [(st, ("enum", m[1].qual, name))]
                    v = m[1].attrs.get(name)
                    if v is not None:
                        t = self.static_term(m[1].module, v)
                        if t is not None and t[0] in ("const", "enum"):
                            return [(st, t)]
                elif isinstance(m, ClassInfo):
                    return [(st, ("class", m.qual))]
            return [(st, ("attr", base, name))]
        if base[0] == "enum" and name == "value":
            c = self.p.find(base[1])
            v = self.p.enum_members(c).get(base[2]) if isinstance(c, ClassInfo) else None
            if isinstance(v, ast.Constant):
                return [(st, C(v.value))]
        if base[0] == "enum" and name == "name":
            return [(st, C(base[2]))]
        c = self.type_of(base)
        if c is not None:
            if base[0] == "call" and base[1][0] == "class":
                v = self.ctor_field(base, c, name)
                if v is not None:
                    return [(st, v)]
            m = self.p.member(c, name)
            if isinstance(m, FuncInfo) and m.is_property and self._can_inline(m, fr):
                return self._inline(m, [base], {}, st, fr, node or m.node, ("attr", base, name))
            if isinstance(m, tuple) and m[0] == "clsattr" and not m[1].is_dataclass \
                    and not self._instance_attr(c, name):
                v = m[1].attrs.get(name)
                t = self.static_term(m[1].module, v) if v is not None else None
                if t is not None and t[0] in ("const", "enum"):
                    return [(st, t)]
        return [(st, ("attr", base, name))]

    def _instance_attr(self, c, name):
        for k in self.p.mro(c):
            for f in k.methods.values():
                for n in walk_own(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def ctor_field(self, call, c, name):
        """Field of a freshly constructed dataclass-like object."""
        init = self.p.member(c, "__init__")
        if isinstance(init, FuncInfo):
            return None
        fields = self.p.all_fields(c)
        if name not in fields:
            return None
        i = fields.index(name)
        kw = dict(call[3])
        if name in kw:
            return kw[name]
        if i < len(call[2]) and not any(a[0] == "star" for a in call[2]):
            return call[2][i]
        if ("**" in kw) or any(a[0] == "star" for a in call[2]):
            return None
        for k in self.p.mro(c):
            if name in k.attrs:
                v = k.attrs[name]
                if v is None:
                    return None
                t = self.static_term(k.module, v)
                if t is not None:
                    return t
                if isinstance(v, ast.Call):
                    for kk in v.keywords:
                        if kk.arg == "default_factory" and isinstance(kk.value, ast.Name) and kk.value.id in ("list", "dict", "set"):
                            return ({"list": "list", "dict": "dict", "set": "set"}[kk.value.id], (), ("field", call, name))
                        if kk.arg == "default":
                            return self.static_term(k.module, kk.value)
                return None
        return None

    def eval(self, node, st, fr):
        self._tick()
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return [(st, ("top", type(node).__name__))]
        r = m(node, st, fr)
        return r

    def e_Constant(self, n, st, fr):
        return [(st, C(n.value))]

    def e_Name(self, n, st, fr):
        return [(st, self.lookup(n.id, st, fr))]

    def e_Attribute(self, n, st, fr):
        out = []
        for s, b in self.eval(n.value, st, fr):
            out.extend(self.attr(b, n.attr, s, fr, n))
        return out

    def e_Subscript(self, n, st, fr):
        out = []
        for s, (b, k) in self.eval_many([n.value, n.slice], st, fr):
            out.append((s, self.item(b, k, s)))
        return out

    def settle(self, k, st):
        """The static value the path facts give a term, or the term."""
        if self._static(k) or k[0] not in ("attr", "param", "item", "call", "elem"):
            return k
        for at, v in st.facts.items():
            if v and at[0] == "eq" and at[1] == k and self._static(at[2]):
                return at[2]
        return k

    def item(self, b, k, st):
        if ("item", b, k) in st.heap:
            return st.heap[("item", b, k)]
        if b[0] in ("tuple", "list") and is_const(k) and isinstance(k[1], int) and not any(x[0] == "star" for x in b[1]):
            try:
                return b[1][k[1]]
            except IndexError:
                return ("top", "idx")
        if self.pol.fold:
            ms = self.known(b, st) if b[0] in ("tuple", "list", "const") else None
            if ms is not None and k[0] == "slice" and all(is_const(x) for x in k[1:]):
                r = tuple(ms)[slice(*[x[1] for x in k[1:]])]
                if is_const(b):
                    return C("".join(x[1] for x in r))
                return (b[0], r) + ((("slice",) + k + b[2:],) if b[0] == "list" else ())
            if ms is not None and is_const(k) and isinstance(k[1], int) and is_const(b):
                return ms[k[1]] if -len(ms) <= k[1] < len(ms) else ("top", "idx")
        k = self.settle(k, st)
        prs = self.pairs(b) if b[0] in ("dict", "gval", "attr") else None
        if prs is not None and self._static(k):
            for kk, vv in prs:
                if kk == k:
                    return vv
        return trim(("item", b, k))

    def e_Slice(self, n, st, fr):
        nodes = [x for x in (n.lower, n.upper, n.step) if x is not None]
        out = []
        for s, vs in self.eval_many(nodes, st, fr):
            it = iter(vs)
            out.append((s, ("slice",) + tuple(next(it) if x is not None else NONE for x in (n.lower, n.upper, n.step))))
        return out

    def _coll(self, kind, n, st, fr):
        out = []
        for s, vs in self.eval_many(n.elts, st, fr):
            vs = [v for v in vs]
            if kind == "tuple":
                out.append((s, trim((kind, tuple(vs)))))
            else:
                k = self.call_stack.count(fr.func.qual)    # the same display at two depths of a recursion makes two objects
                out.append((s, trim((kind, tuple(vs), ("site", fr.func.qual, n.lineno, n.col_offset) + ((k,) if k > 1 else ())))))
        return out

    def e_Tuple(self, n, st, fr):
        return self._coll("tuple", n, st, fr)

    def e_List(self, n, st, fr):
        return self._coll("list", n, st, fr)

    def e_Set(self, n, st, fr):
        return self._coll("set", n, st, fr)

    def e_Starred(self, n, st, fr):
        return [(s, ("star", v)) for s, v in self.eval(n.value, st, fr)]

    def e_Dict(self, n, st, fr):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, vs in self.eval_many(nodes, st, fr):
            it = iter(vs)
            prs = []
            for k in n.keys:
                if k is None:
                    v = next(it)
                    kv = self.known_pairs(v, s) if v[0] == "dict" else None
                    if kv is not None:
                        prs = [x for x in prs if x[0] not in dict(kv)] + list(kv)
                    else:
                        prs.append((("dstar",), v))
                else:
                    kk = next(it)
                    if any(x[0] == kk for x in prs) and not any(x[0] == ("dstar",) for x in prs):
                        vv = next(it)
                        prs = [(a, vv if a == kk else b) for a, b in prs]
                    else:
                        prs.append((kk, next(it)))
            out.append((s, trim(("dict", tuple(prs), ("site", fr.func.qual, n.lineno, n.col_offset)))))
        return out

    def e_BinOp(self, n, st, fr):
        out = []
        for s, (a, b) in self.eval_many([n.left, n.right], st, fr):
            op = type(n.op).__name__
            if self.pol.fold and op == "Add" and a[0] == b[0] and a[0] in ("list", "tuple"):
                x, y = self.known(a, s), self.known(b, s)
                if x is not None and y is not None:
                    out.append((s, trim((a[0], tuple(x) + tuple(y)) + ((("site", fr.func.qual, n.lineno, n.col_offset),) if a[0] == "list" else ()))))
                    continue
            if self.pol.fold and op == "Mult" and a[0] in ("list", "tuple") and is_const(b) and isinstance(b[1], int) and self.known(a, s) is not None and b[1] * len(a[1]) <= 64:
                out.append((s, trim((a[0], tuple(a[1]) * b[1]) + ((("site", fr.func.qual, n.lineno, n.col_offset),) if a[0] == "list" else ()))))
                continue
            if self.pol.fold and op in ("Sub", "BitOr", "BitAnd", "BitXor") and a[0] != "const" and b[0] != "const" and a[0] != "class":
                r = self._set_op(op, a, b, s, ("site", fr.func.qual, n.lineno, n.col_offset))
                if r is not None:
                    out.append((s, trim(r)))
                    continue
            if a[0] == b[0] == "const" and op in ("Add", "Sub", "Mult", "Div"):
                try:
                    v = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y,
                         "Mult": lambda x, y: x * y, "Div": lambda x, y: x / y}[op](a[1], b[1])
                    if not isinstance(v, (str, bytes)) or len(v) < 500:
                        out.append((s, C(v)))
                        continue
                except Exception:
                    pass
            if op == "Mod" and is_const(a) and isinstance(a[1], str):
                out.append((s, trim(("fstr", (a, b)))))
                continue
            out.append((s, trim(("bin", op, a, b))))
        return out

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            if _simple(n.operand):
                return [(s, TRUE if b else FALSE) for s, b in self.cond(n, st, fr)]
            return [(s, C(b)) for s, b in self.cond(n, st, fr)]
        out = []
        for s, v in self.eval(n.operand, st, fr):
            if is_const(v) and isinstance(n.op, ast.USub) and isinstance(v[1], (int, float)):
                out.append((s, C(-v[1])))
            else:
                out.append((s, trim(("un", type(n.op).__name__, v))))
        return out

    def e_Compare(self, n, st, fr):
        # a comparison used as a value: keep it as an atom when single, else fork
        if len(n.ops) == 1:
            out = []
            for s, (a, b) in self.eval_many([n.left, n.comparators[0]], st, fr):
                op = n.ops[0]
                if isinstance(op, (ast.Is, ast.IsNot)) and not self._identity(a, b):
                    at = ("is",) + tuple(sorted((a, b), key=repr))
                elif isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
                    at = self.atom_eq(a, b)
                elif isinstance(op, (ast.In, ast.NotIn)):
                    at = ("in", a, b)
                elif isinstance(op, ast.Lt):
                    at = ("lt", a, b)
                elif isinstance(op, ast.Gt):
                    at = ("lt", b, a)
                elif isinstance(op, ast.LtE):
                    at = ("le", a, b)
                else:
                    at = ("le", b, a)
                d = self.decide(at, s)
                neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
                if d is not None:
                    out.append((s, C(d != neg)))
                else:
                    t = trim(("cmp", at))
                    out.append((s, ("not", t) if neg else t))
            return out
        return [(s, C(b)) for s, b in self.cond(n, st, fr)]

    def e_BoolOp(self, n, st, fr):
        cur = [(st, None)]
        done = []
        is_and = isinstance(n.op, ast.And)
        for i, v in enumerate(n.values):
            nxt = []
            for s, _ in cur:
                for s1, val in self.eval(v, s, fr):
                    if i == len(n.values) - 1:
                        done.append((s1, val))
                        continue
                    for s2, b in self.truth(val, s1):
                        if b != is_and:
                            if val[0] in ("cmp", "not"):
                                done.append((s2, C(b)))
                            else:
                                done.append((s2, val))
                        else:
                            nxt.append((s2, None))
            cur = nxt
        return self._cap_pairs(done)

    def e_IfExp(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            out.extend(self.eval(n.body if b else n.orelse, s, fr))
        return self._cap_pairs(out)

    def e_NamedExpr(self, n, st, fr):
        out = []
        for s, v in self.eval(n.value, st, fr):
            s = s.copy()
            s.env[n.target.id] = v
            out.append((s, v))
        return out

    def e_JoinedStr(self, n, st, fr):
        nodes = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        out = []
        for s, vs in self.eval_many(nodes, st, fr):
            if all(is_const(v) for v in vs):
                out.append((s, C("".join(str(v[1]) for v in vs))))
            else:
                out.append((s, trim(("fstr", tuple(vs)))))
        return out

    def e_FormattedValue(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Await(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Lambda(self, n, st, fr):
        fi = FuncInfo(fr.func.module, n, None, fr.func)
        fi.qual = fr.func.qual + ".<lambda:%d:%d>" % (n.lineno, n.col_offset)
        self._reg(fi)
        return [(st, ("localfn", fi.qual))]

    def e_Yield(self, n, st, fr):
        out = []
        prs = self.eval(n.value, st, fr) if n.value is not None else [(st, NONE)]
        for s, v in prs:
            if fr.yield_hook is not None:
                for s2, v2 in fr.yield_hook(s, v):
                    out.append((s2, v2))
            else:
                s = self.emit("yield", v, (), n, s, fr)
                out.append((s, ("top", "yield")))
        return out

    def e_YieldFrom(self, n, st, fr):
        return [(self.emit("yield", ("star", v), (), n, s, fr), ("top", "yf")) for s, v in self.eval(n.value, st, fr)]

    def known(self, t, st):
        """Items of a collection term when every one is known on this path, else None."""
        if t[0] in ("tuple", "list", "set"):
            if ("touched", t) in st.facts or any(x[0] == "star" for x in t[1]):
                return None
            return t[1]
        if t[0] == "dict":
            ps = self.known_pairs(t, st)
            return None if ps is None else tuple(k for k, _ in ps)
        if t[0] == "gval" or (t[0] == "attr" and t[1][0] == "class"):
            return self.members(t)
        if t[0] == "const" and isinstance(t[1], str):
            return tuple(C(c) for c in t[1])
        if t[0] == "class":
            c = self.p.find(t[1])
            if isinstance(c, ClassInfo) and self.p.is_enum(c):
                return tuple(("enum", c.qual, k) for k in self.p.enum_members(c))
        return None

    def known_set(self, t, st):
        """Items of a collection of constants, all of them known, else None."""
        ms = self.known(t, st)
        return None if ms is None or not all(m[0] in ("const", "enum") for m in ms) else tuple(dict.fromkeys(ms))

    def _set_op(self, op, a, b, st, site):
        x, y = self.known_set(a, st), self.known_set(b, st)
        if x is None or y is None:
            return None
        if op == "Sub":
            r = [m for m in x if m not in y]
        elif op == "BitAnd":
            r = [m for m in x if m in y]
        elif op == "BitXor":
            r = [m for m in x if m not in y] + [m for m in y if m not in x]
        else:
            r = list(x) + [m for m in y if m not in x]
        return ("set", tuple(r), site)

    def known_pairs(self, t, st):
        if t[0] == "dict" and ("touched", t) in st.facts:
            return None
        ps = self.pairs(t) if t[0] in ("dict", "gval") or (t[0] == "attr" and t[1][0] == "class") else None
        if ps is None or any(k == ("dstar",) for k, _ in ps):
            return None
        return ps

    def _fold_mut(self, f, args, kws, node, st, fr):
        """setdefault, pop and remove on a container whose contents are known: [(state, value)] or None."""
        if f[0] != "attr" or f[2] not in ("setdefault", "pop", "remove", "discard") or kws:
            return None
        b = f[1]
        prs = self.known_pairs(b, st)
        if b[0] == "dict" and prs is not None and f[2] in ("setdefault", "pop") and 1 <= len(args) <= 2:
            k = self.settle(args[0], st)
            eqs = [True if kk == k else self.decide(self.atom_eq(kk, k), st) for kk, _ in prs]
            hit = eqs.index(True) if True in eqs else None
            if (hit is None and None in eqs) or (hit is not None and None in eqs[:hit]):
                return None
            dflt = args[1] if len(args) == 2 else NONE
            if f[2] == "setdefault":
                if hit is not None:
                    return [(st, prs[hit][1])]
                st = st.copy()
                self._replace(b, ("dict", b[1] + ((k, dflt),), b[2]), st)
                return [(st, dflt)]
            if hit is not None:
                v = prs[hit][1]
                st = st.copy()
                self._replace(b, ("dict", tuple(x for x in b[1] if x != prs[hit]), b[2]), st)
                return [(st, v)]
            return [(st, dflt)] if len(args) == 2 else None
        if b[0] in ("list", "set") and len(b) == 3 and f[2] in ("remove", "discard") and len(args) == 1:
            ms = self.known(b, st)
            if ms is None:
                return None
            eqs = [True if m == args[0] else self.decide(self.atom_eq(m, args[0]), st) for m in ms]
            if True in eqs and None not in eqs[:eqs.index(True)]:
                i = eqs.index(True)
                st = st.copy()
                self._replace(b, (b[0], tuple(ms[:i]) + tuple(ms[i + 1:]), b[2]), st)
                return [(st, NONE)]
            if eqs and all(e is False for e in eqs) and f[2] == "discard":
                return [(st, NONE)]
        return None

    def _fold_call(self, f, args, kws, node, st, fr):
        """Term of a builtin applied to known collections, or None."""
        site = ("site", fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        if f[0] == "attr":
            if f[2] in ("is_absolute", "as_posix") and not args:
                pp = pure_path(f[1])
                if pp is not None:
                    return C(getattr(pp, f[2])())
            ps = self.known_pairs(f[1], st)
            if ps is not None and not args and f[2] in ("items", "keys", "values"):
                return ("tuple", tuple({"items": ("tuple", (k, v)), "keys": k, "values": v}[f[2]] for k, v in ps))
            ms = self.known(f[1], st)
            if ms is not None and len(args) == 1 and f[2] in ("index", "count"):
                rs = [self.decide(self.atom_eq(m, args[0]), st) for m in ms]
                if f[2] == "index" and True in rs and None not in rs[:rs.index(True)]:
                    return C(rs.index(True))
                if f[2] == "count" and None not in rs:
                    return C(rs.count(True))
            if ms is not None and args and f[2] in ("difference", "union", "intersection", "symmetric_difference") and not kws:
                r = f[1]
                for a in args:
                    r = r and self._set_op({"difference": "Sub", "union": "BitOr", "intersection": "BitAnd", "symmetric_difference": "BitXor"}[f[2]], r, a, st, site)
                return r
            if ms is not None and len(args) == 1 and f[2] in ("issubset", "issuperset", "isdisjoint"):
                x, y = self.known_set(f[1], st), self.known_set(args[0], st)
                if x is not None and y is not None:
                    return C(getattr(set(x), f[2])(set(y)))
            if ms is not None and not args and f[2] == "copy":
                return f[1][:2] + (site,) if f[1][0] in ("list", "set", "dict") else f[1]
            return None
        if f[0] != "ext":
            return None
        n = f[1]
        if n in ("str", "os.fspath") and len(args) == 1 and pure_path(args[0]) is not None:
            return C(str(pure_path(args[0])))
        if n == "str" and len(args) == 1 and not kws and is_const(args[0]) and isinstance(args[0][1], (str, int)):
            return C(str(args[0][1]))
        if n in ("math.isclose", "math.hypot", "math.isfinite", "math.isnan") and args and all(is_const(a) and isinstance(a[1], (int, float)) for a in list(args) + list(kws.values())):
            try:
                return C(getattr(math, n[5:])(*[a[1] for a in args], **{k: v[1] for k, v in kws.items()}))
            except Exception:
                return None
        if n == "range" and args and all(is_const(a) and isinstance(a[1], int) for a in args) and not kws:
            try:
                r = range(*[a[1] for a in args])
            except (TypeError, ValueError):
                return None
            return ("tuple", tuple(C(i) for i in r)) if len(r) <= 64 else None
        if n in ("itertools.combinations", "itertools.permutations") and len(args) == 2 and not kws and is_const(args[1]) and args[1][1] in (1, 2, 3):
            ms = self.known(args[0], st)
            if ms is None or len(ms) > 6:
                return None
            return ("tuple", tuple(("tuple", x) for x in getattr(itertools, n[10:])(ms, args[1][1])))
        if n == "itertools.product" and args and not kws:
            ms = [self.known(a, st) for a in args]
            k = 1
            for m in ms:
                k *= 99 if m is None else len(m)
            return None if k > 64 or any(m is None for m in ms) else ("tuple", tuple(("tuple", x) for x in itertools.product(*ms)))
        if n == "dict" and len(args) == 1 and not kws:
            ps = self.known_pairs(args[0], st)
            if ps is not None:
                return ("dict", ps, site)
            ms = self.known(args[0], st)
            if ms is not None and all(m[0] == "tuple" and len(m[1]) == 2 for m in ms):
                d = {}
                for m in ms:
                    d[m[1][0]] = m[1][1]
                return ("dict", tuple(d.items()), site)
            return None
        vs = [self.known(a, st) for a in args]
        if not args or any(v is None for v in vs):
            if n in ("max", "min", "abs", "int", "float", "bool", "str", "round", "sum") and args and not kws and all(is_const(a) for a in args):
                try:
                    return C({"max": max, "min": min, "abs": abs, "int": int, "float": float, "bool": bool, "str": str, "round": round, "sum": sum}[n](*[a[1] for a in args]))
                except Exception:
                    return None
            return None
        if n == "zip" and set(kws) <= {"strict"}:
            return ("tuple", tuple(("tuple", tuple(x)) for x in zip(*vs)))
        if kws and n != "enumerate":
            return None
        if n == "len" and len(vs) == 1:
            return C(len(vs[0]))
        if n == "enumerate":
            st0 = kws.get("start", args[1] if len(args) > 1 else C(0))
            if is_const(st0):
                return ("tuple", tuple(("tuple", (C(i), v)) for i, v in enumerate(vs[0], st0[1])))
            return None
        if len(args) != 1:
            return None
        if n in ("list", "tuple"):
            return ("tuple", vs[0]) if n == "tuple" else ("list", vs[0], site)
        if n in ("set", "frozenset"):
            return ("set", tuple(dict.fromkeys(vs[0])), site)
        if n == "reversed":
            return ("tuple", vs[0][::-1])
        if n == "iter":
            return ("tuple", vs[0])
        if n in ("sorted", "sum", "max", "min") and all(is_const(v) for v in vs[0]):
            try:
                r = {"sorted": sorted, "sum": sum, "max": max, "min": min}[n]([v[1] for v in vs[0]])
            except (TypeError, ValueError):
                return None
            return ("list", tuple(C(x) for x in r), site) if n == "sorted" else C(r)
        if n in ("any", "all"):
            rs = [self.decide(("truth", v) if v[0] != "cmp" else v[1], st) for v in vs[0]]
            if n == "any" and True in rs:
                return TRUE
            if n == "all" and False in rs:
                return FALSE
            if None not in rs:
                return C(n == "all")
        return None

    def _comp_fold(self, kind, n, elts, st, fr):
        """Comprehension over known collections: every iteration, or None when an iterable is not known."""
        saved = dict(st.env)
        own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        def gen(i, s):
            """[(state, [item vectors])] or None"""
            if i == len(n.generators):
                return [(s2, [tuple(vs)]) for s2, vs in self.eval_many(elts, s, fr)]
            g = n.generators[i]
            out = []
            for s1, it in self.eval(g.iter, s, fr):
                ms = self.known(it, s1)
                if ms is None or len(ms) > 64:
                    return None
                cur = [(s1, [])]
                for m in ms:
                    nxt = []
                    for s2, acc in cur:
                        s3 = s2.copy()
                        self.bind(g.target, m, s3, fr)
                        oks = [(s3, True)]
                        for c in g.ifs:
                            oks = [y for x, b in oks for y in (self.cond(c, x, fr) if b else [(x, b)])]
                        for x, b in oks:
                            if not b:
                                nxt.append((x, acc))
                                continue
                            r = gen(i + 1, x)
                            if r is None:
                                return None
                            nxt.extend((y, acc + items) for y, items in r)
                    cur = nxt
                out.extend(cur)
            return out
        r = gen(0, st)
        if r is None:
            return None
        out = []
        site = ("site", fr.func.qual, n.lineno, n.col_offset)
        for s, items in r:
            s2 = s.copy()
            s2.env = {k: v for k, v in s.env.items() if k not in own}
            s2.env.update({k: saved[k] for k in own if k in saved})
            if kind == "dict":
                d = {}
                for k, v in items:
                    d[k] = v
                t = ("dict", tuple(d.items()), site)
            elif kind == "set":
                t = ("set", tuple(dict.fromkeys(x[0] for x in items)), site)
            else:
                t = ("list", tuple(x[0] for x in items), site)
            out.append((s2, trim(t)))
        return self._cap_pairs(out)

    def _comp(self, kind, n, elts, st, fr):
        """Comprehension: one representative iteration, effects kept, bindings dropped."""
        if self.pol.fold:
            r = self._comp_fold(kind, n, elts, st, fr)
            if r is not None:
                return r
        saved = dict(st.env)
        cur = [st]
        iters = []
        skipped = []
        for g in n.generators:
            nxt = []
            for s in cur:
                for s1, it in self.eval(g.iter, s, fr):
                    iters.append(it)
                    s2 = s1.copy()
                    self.bind(g.target, ("elem", trim(it), "c"), s2, fr)
                    ss = [s2]
                    for c in g.ifs:
                        n2 = []
                        for s3 in ss:
                            for x, b in self.cond(c, s3, fr):
                                (n2 if b else skipped).append(x)
                        ss = n2
                    nxt.extend(ss)
            cur = self._cap(nxt)
        out = []
        if self.pol.comp_skip:
            for s in self._cap(skipped):
                s2 = s.copy()
                s2.env = dict(saved)
                out.append((s2, (kind if kind != "gen" else "list", (), ("site", fr.func.qual, n.lineno, n.col_offset))))
        if not cur and not out:
            return [(st, (kind if kind != "gen" else "list", (), ("site", fr.func.qual, n.lineno, n.col_offset)))]
        for s in cur:
            for s1, vs in self.eval_many(elts, s, fr):
                s2 = s1.copy()
                s2.env = dict(saved)
                base_facts = dict(st.facts)
                inner = frozenset((k, v) for k, v in s1.facts.items() if k not in st.facts)
                s2.facts = base_facts
                v = trim(("comp", kind, tuple(vs), tuple(iters), inner))
                out.append((s2, v))
        return self._cap_pairs(out)

    def _next(self, n, st, fr):
        """next(<generator expression>, default): the first element that passes, or the default."""
        g = n.args[0].generators[0]
        out = []
        for s, it in self.eval(g.iter, st, fr):
            ms = self.known(it, s) if self.pol.fold else None
            if ms is not None and len(ms) <= 16:
                cur = [s]
                saved = dict(s.env)
                for m in ms:
                    nxt = []
                    for s1 in cur:
                        s2 = s1.copy()
                        self.bind(g.target, m, s2, fr)
                        ss = [(s2, True)]
                        for c in g.ifs:
                            ss = [y for x, b in ss for y in (self.cond(c, x, fr) if b else [(x, b)])]
                        for x, b in ss:
                            if b:
                                for s4, v in self.eval(n.args[0].elt, x, fr):
                                    s4 = s4.copy()
                                    s4.env = dict(saved)
                                    out.append((s4, v))
                            else:
                                nxt.append(x)
                    cur = nxt
                for s1 in cur:
                    s1 = s1.copy()
                    s1.env = dict(saved)
                    if len(n.args) > 1:
                        out.extend(self.eval(n.args[1], s1, fr))
                continue
            s2 = s.copy()
            self.bind(g.target, ("elem", trim(it), ("next", n.lineno, n.col_offset)), s2, fr)
            ss = [s2]
            for c in g.ifs:
                ss = [x for s3 in ss for x, b in self.cond(c, s3, fr) if b]
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            for s3 in ss:
                for s4, v in self.eval(n.args[0].elt, s3, fr):
                    s4 = s4.copy()
                    for nm in names:
                        s4.env.pop(nm, None)
                        if nm in s.env:
                            s4.env[nm] = s.env[nm]
                    out.append((s4, v))
            if len(n.args) > 1:
                out.extend(self.eval(n.args[1], s, fr))
        return self._cap_pairs(out)

    def e_ListComp(self, n, st, fr):
        return self._comp("list", n, [n.elt], st, fr)

    def e_SetComp(self, n, st, fr):
        return self._comp("set", n, [n.elt], st, fr)

    def e_GeneratorExp(self, n, st, fr):
        return self._comp("gen", n, [n.elt], st, fr)

    def e_DictComp(self, n, st, fr):
        return self._comp("dict", n, [n.key, n.value], st, fr)

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st, fr):
        out = []
        # callee
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.env:
            c = fr.cls or fr.func.cls
            return [(st, ("super", c.qual if c else "?", st.env.get((fr.func.params or ["self"])[0], ("param", "self"))))]
        if isinstance(n.func, ast.Attribute):
            callees = []
            for s, b in self.eval(n.func.value, st, fr):
                if b[0] == "phi":
                    for x in sorted(b[1], key=repr):
                        if x != NONE:
                            callees.append((s, self._method(x, n.func.attr, s)))
                else:
                    callees.append((s, self._method(b, n.func.attr, s)))
        elif isinstance(n.func, ast.Name) and n.func.id == "next" and "next" not in st.env and n.args \
                and isinstance(n.args[0], ast.GeneratorExp) and len(n.args[0].generators) == 1:
            return self._next(n, st, fr)
        else:
            callees = self.eval(n.func, st, fr)
        for s, f in callees:
            nodes = list(n.args) + [k.value for k in n.keywords]
            for s2, vs in self.eval_many(nodes, s, fr):
                args = vs[:len(n.args)]
                kws = {}
                for k, v in zip(n.keywords, vs[len(n.args):]):
                    if k.arg is None and self.pol.fold:
                        ps = self.known_pairs(v, s2)
                        if ps is not None and all(is_const(x) for x, _ in ps):
                            kws.update((x[1], y) for x, y in ps)
                            continue
                    kws[k.arg if k.arg is not None else "**"] = v
                if self.pol.fold and any(a[0] == "star" for a in args):
                    flat = []
                    for a in args:
                        ms = self.known(a[1], s2) if a[0] == "star" else None
                        flat.extend(ms if ms is not None else (a,))
                    args = flat
                fs = sorted(f[1], key=repr) if f[0] == "phi" else [f]
                for f1 in fs:
                    out.extend(self.call(f1, args, kws, n, s2, fr))
        return self._cap_pairs(out)

    def _method(self, b, name, st):
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if b[0] == "mod":
            r = self.p.sym(b[1], name)
            t = self.ref_term(r) if r is not None else None
            return t or ("attr", b, name)
        if b[0] == "ext":
            return ("ext", b[1] + "." + name)
        if b[0] == "class":
            c = self.p.find(b[1])
            if isinstance(c, ClassInfo):
                m = self.p.member(c, name)
                if isinstance(m, FuncInfo):
                    return ("attr", b, name)
                if isinstance(m, ClassInfo):
                    return ("class", m.qual)
        return ("attr", b, name)

    def _operator(self, name, args, st):
        """operator.lt(a, b) is a < b."""
        if len(args) == 2:
            a, b = args
            at = {"lt": ("lt", a, b), "gt": ("lt", b, a), "le": ("le", a, b), "ge": ("le", b, a), "eq": self.atom_eq(a, b), "ne": self.atom_eq(a, b)}.get(name)
            if at is None:
                return None
            neg = name == "ne"
            d = self.decide(at, st)
            if d is not None:
                return C(d != neg)
            t = trim(("cmp", at))
            return ("not", t) if neg else t
        return None

    def _fold_map(self, f, args, kws, node, st, fr):
        """map(g, xs) over the known elements xs."""
        if f != ("ext", "map") or kws or len(args) != 2 or args[0][0] not in ("fn", "localfn", "attr"):
            return None
        ms = self.known(args[1], st)
        if ms is None or len(ms) > 40:
            return None
        part = [(st, ())]
        for m in ms:
            part = [(s2, got + (v,)) for s, got in part for s2, v in self.call(args[0], [m], {}, node, s, fr)]
        site = (fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), "map")
        return [(s, ("list", got, site)) for s, got in part]

    def call(self, f, args, kws, node, st, fr):
        pure = (f[0] == "ext" and f[1] in PURE_EXT) or (f[0] == "attr" and f[2] in PURE_METHODS)
        if f == ("ext", "getattr") and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][1], str) and len(args) == 2:
            return self.attr(args[0], args[1][1], st, fr, node)
        if f == ("ext", "getattr") and len(args) == 3 and is_const(args[1]) and (args[0], args[1][1]) in st.heap and not kws:
            return [(st, st.heap[(args[0], args[1][1])])]
        if f[0] == "ext" and f[1].startswith("operator.") and not kws:
            r = self._operator(f[1][9:], args, st)
            if r is not None:
                return [(st, r)]
        if f == ("ext", "type") and len(args) == 1:
            for at, v in st.facts.items():
                if v and at[0] == "exact" and at[1] == args[0]:
                    return [(st, at[2])]
        if self.pol.fold:
            r = self._fold_call(f, args, kws, node, st, fr)
            if r is not None:
                return [(st, trim(r))]
            r = self._fold_mut(f, args, kws, node, st, fr)
            if r is not None:
                return r
            r = self._fold_map(f, args, kws, node, st, fr)
            if r is not None:
                return r
        site = None if pure else (fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        term = trim(("call", f, tuple(args), tuple(sorted(kws.items())), site))
        if f in (("ext", "setattr"), ("ext", "object.__setattr__"), ("attr", ("ext", "object"), "__setattr__")) and len(args) == 3 and is_const(args[1]):
            st = st.copy()
            st.heap[(args[0], args[1][1])] = args[2]
            for k in [k for k in st.facts if k[0] in ("truth", "eq", "in", "isinstance", "lt", "le") and _mentions(k, ("attr", args[0], args[1][1]))]:
                del st.facts[k]
            st = self.emit("store", args[0], (args[1][1], args[2]), node, st, fr)
            return [(st, NONE)]
        ov = self.pol.call_hook(self, term, st, node)
        if ov is not None:
            return ov
        st1 = self.emit("call", term, (), node, st, fr)
        if st1 is None:
            return []
        st = st1
        # container growth
        if f[0] == "attr" and f[2] in MUTATORS:
            st = self._grow(f[1], f[2], args if not kws or f[2] != "update" or args else (("dict", tuple((C(k), v) for k, v in (kws.items() if isinstance(kws, dict) else kws) if k is not None)),), st)
        elif f[0] == "attr" and f[2] in SHRINKERS:
            st = st.copy()
            self._touch(f[1], st, grown=False)
            if f[2] == "clear" and f[1][0] in ("list", "set", "dict") and len(f[1]) == 3:
                self._replace(f[1], (f[1][0], (), f[1][2]), st)
            elif f[2] in ("pop", "remove", "discard") and f[1][0] in ("list", "set", "dict") and len(f[1]) == 3:
                if f[1][0] == "dict" and args and any(k == args[0] for k, _ in f[1][1]):
                    self._replace(f[1], trim(("dict", tuple((k, v) for k, v in f[1][1] if k != args[0]), f[1][2])), st)
                elif f[1][0] != "dict":
                    self._replace(f[1], trim((f[1][0], tuple(("star", x) if x[0] != "star" else x for x in f[1][1]), f[1][2])), st)
        # const folding of string methods
        if f[0] == "attr" and is_const(f[1]) and isinstance(f[1][1], str) and all(is_const(a) for a in args) and not kws \
                and f[2] in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split"):
            try:
                v = getattr(f[1][1], f[2])(*[a[1] for a in args])
                if isinstance(v, list):
                    return [(st, ("list", tuple(C(x) for x in v)))]
                return [(st, C(v))]
            except Exception:
                pass
        if f == ("ext", "dict") and not args and "**" not in kws:
            return [(st, trim(("dict", tuple((C(k), v) for k, v in kws.items()),
                               ("site", fr.func.qual, node.lineno, node.col_offset))))]
        if f in (("ext", "list"), ("ext", "set"), ("ext", "tuple")) and not args:
            return [(st, (f[1], (), ("site", fr.func.qual, node.lineno, node.col_offset)))]
        if f[0] == "attr" and f[2] == "get" and 1 <= len(args) <= 2 and not kws:
            b, k = f[1], args[0]
            if ("item", b, k) in st.heap:
                return [(st, st.heap[("item", b, k)])]
            k = self.settle(k, st)
            prs = self.pairs(b)
            if prs is not None and self._static(k) and ("touched", b) not in st.facts and not any(kk == ("dstar",) for kk, _ in prs):
                for kk, vv in prs:
                    if kk == k:
                        return [(st, vv)]
                if all(self._static(kk) for kk, _ in prs):
                    return [(st, args[1] if len(args) == 2 else NONE)]
        # inline
        fi = None
        bound = None
        if f[0] == "fn":
            fi = self.fn_info(f)
            c = fi.cls if fi is not None else None
        elif f[0] == "localfn":
            fi = self.fn_info(f)
        elif f[0] == "attr":
            fi = self.fn_info(f)
            if fi is not None:
                if f[1][0] == "class":
                    bound = f[1] if fi.is_classmethod else None
                elif f[1][0] == "super":
                    bound = f[1][2]
                elif not fi.is_static:
                    t = self.type_of(f[1])
                    bound = ("class", t.qual) if fi.is_classmethod else f[1]
        elif f[0] == "class":
            c = self.p.find(f[1])
            if isinstance(c, ClassInfo):
                init = c.methods.get("__init__") or c.methods.get("__post_init__")
                if "__init__" in c.methods and self._can_inline(init, fr):
                    res = []
                    for s, _ in self._inline(init, [term] + list(args), kws, st, fr, node, term):
                        res.append((s, term))
                    return res
        if fi is not None and self._can_inline(fi, fr):
            a = ([bound] if bound is not None else []) + list(args)
            if not any(x[0] == "star" for x in a) and "**" not in kws:
                return self._inline(fi, a, kws, st, fr, node, term)
        # an opaque call may change the containers it is given
        if site is not None and not (f[0] == "attr" and (f[2] in MUTATORS or f[2] in SHRINKERS)):
            st2 = None
            for a in list(args) + list(kws.values()):
                if a[0] in ("list", "set", "dict") and len(a) == 3 and ("touched", a) not in st.facts:
                    st2 = st2 or st.copy()
                    st2.facts[("touched", a)] = True
            if st2 is not None:
                st = st2
        # opaque call may raise
        if fr.in_try and self.pol.want_exc and self.pol.may_raise(term):
            if not (f[0] == "ext" and f[1] in ("isinstance", "len", "str", "type", "hasattr", "callable", "bool", "repr", "list", "dict", "set", "tuple", "id", "print")) \
                    and not (f[0] == "attr" and f[2] in ("append", "get", "items", "keys", "values", "strip", "lower", "upper", "startswith", "endswith", "setdefault", "add", "extend")):
                self._exc.append(Out("raise", st, ("exc", None), node))
        elif not fr.in_try and self.pol.exc_exits and self.pol.may_raise(term):
            self._exc.append(Out("raise", st, ("exc", None), node))
        return [(st, term)]

    def _replace(self, old, new, st):
        """An object's contents changed: every binding of it now denotes the new term."""
        new = trim(new)
        deep = self.pol.fold

        def sub(t):
            if t == old:
                return new
            if deep and t[0] in ("list", "tuple", "set", "dict") and len(t) >= 2 and isinstance(t[1], tuple):
                if t[0] == "dict":
                    w = tuple((k, sub(v) if v is not None else v) for k, v in t[1])
                else:
                    w = tuple(sub(x) for x in t[1])
                return t if all(a is b or a == b for a, b in zip(w, t[1])) else (t[0], w) + t[2:]
            if t[0] == "tuple" and any(x == old for x in t[1]):
                return ("tuple", tuple(new if x == old else x for x in t[1]))
            if t[0] == "phi" and old in t[1]:
                return join_terms(list(t[1]) + [new])
            return t
        for k, v in st.env.items():
            w = sub(v)
            if w is not v:
                st.env[k] = w
        for k, v in list(st.heap.items()):
            w = sub(v)
            if w is not v:
                st.heap[k] = w
        if st.stack:
            st.stack = tuple(tuple((k, sub(v)) for k, v in e) for e in st.stack)

    def _grow(self, b, meth, args, st):
        st = st.copy()
        if b[0] in ("list", "set", "dict") and len(b) == 3:
            if b[0] == "dict":
                if meth == "update" and len(args) == 1 and args[0][0] == "dict":
                    prs = list(b[1])
                    for k, v in args[0][1]:
                        prs = [x for x in prs if x[0] != k or k == ("dstar",)] + [(k, v)]
                    self._replace(b, ("dict", tuple(prs), b[2]), st)
                elif meth == "update" and len(args) == 1:
                    self._replace(b, ("dict", b[1] + ((("dstar",), args[0]),), b[2]), st)
                elif meth == "setdefault" and len(args) == 2 and not any(k == args[0] for k, _ in b[1]):
                    self._replace(b, ("dict", b[1] + ((args[0], args[1]),), b[2]), st)
                return st
            items = list(b[1])
            if len(items) >= self.pol.list_cap:
                ne = meth in ("append", "add", "appendleft", "insert") or any(x[0] != "star" for x in items) \
                    or (args and args[0][0] in ("list", "tuple", "set") and any(x[0] != "star" for x in args[0][1]))
                self._replace(b, (b[0], ((("top", "item"),) if ne else ()) + (("star", ("top", "more")),), b[2]), st)
                return st
            if meth in ("append", "add", "appendleft") and args:
                new = [args[0]]
            elif meth == "insert" and len(args) == 2:
                if args[0] == C(0):
                    items, new = [args[1]] + items, []
                else:
                    new = [args[1]]
            elif meth in ("extend", "update") and args:
                a = args[0]
                if a[0] in ("list", "tuple", "set") and len(a[1]) < 8:
                    new = list(a[1])
                else:
                    new = [("star", a)]
            else:
                new = []
            if b[0] == "set":
                new = [x for x in new if x not in items]
            if new or items != list(b[1]):
                self._replace(b, (b[0], tuple(items + new), b[2]), st)
            return st
        if b[0] == "call" and meth == "update" and b[1][0] == "ext" and b[1][1].startswith("hashlib.") and args:
            # a digest object holds what it was given so far
            new = tuple(a for a in args if a not in b[2])
            if new and len(b[2]) < 6:
                self._replace(b, (b[0], b[1], b[2] + new) + b[3:], st)
            return st
        self._touch(b, st, grown=(meth in ("append", "add", "insert", "appendleft", "setdefault")))
        if b[0] != "phi" and meth == "update" and len(args) == 1 and args[0][0] == "dict":
            for k, v in args[0][1]:
                if k != ("dstar",):
                    st.heap[("item", b, k)] = v
        return st

    def _touch(self, b, st, grown):
        for k in [k for k in st.facts if k[0] in ("truth", "grown") and k[1] == b]:
            del st.facts[k]
        for k in [k for k in st.facts if k[0] == "in" and k[2] == b]:
            del st.facts[k]
        if grown:
            if b[0] in ("list", "set", "dict", "tuple"):
                st.facts[("grown", b)] = True
            else:
                st.facts[("truth", b)] = True
        st.facts[("touched", b)] = True

    def _can_inline(self, fi, fr):
        if fr.depth >= self.pol.max_depth:
            return False
        if fi.is_generator:
            return False
        if self.call_stack.count(fi.qual) >= self.pol.recurse:
            return False
        return bool(self.pol.inline(self, fi, fr.depth + 1))

    def bind_params(self, fi, args, kws, st, fr):
        """env for a call, or None when the call does not bind."""
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            elif a.vararg:
                pass
            else:
                return None
        if a.vararg:
            env[a.vararg.arg] = ("tuple", tuple(args[len(pos):]))
        extra = []
        for k, v in kws.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra.append((C(k), v))
        if a.kwarg:
            env[a.kwarg.arg] = ("dict", tuple(extra))
        for k, d in fi.defaults().items():
            if k not in env:
                t = self.static_term(fi.module, d)
                env[k] = t if t is not None else ("top", "default:%s" % k)
        for k in pos + [x.arg for x in a.kwonlyargs]:
            if k not in env:
                env[k] = ("top", "missing:%s" % k)
        return env

    def _inline(self, fi, args, kws, st, fr, node, term):
        env = self.bind_params(fi, args, kws, st, fr)
        if env is None:
            return [(st, term)]
        self.inlined.add(fi.qual)
        self.p.consulted.add(fi.module.name)
        self._reg(fi)
        for n in fi.node.args.args + fi.node.args.kwonlyargs:
            if n.annotation is not None and n.arg in env:
                t = env[n.arg]
                if t not in self.types and t[0] in ("param", "attr", "item", "elem", "call") and self.type_of(t) is None:
                    c = self.ann_class(fi.module, n.annotation, fi)
                    if c is not None:
                        self.types[t] = c
        if fi.cls is not None and fi.params and not fi.is_static and not fi.is_classmethod:
            t = env.get(fi.params[0])
            if t is not None and self.type_of(t) is None:
                self.types[t] = fi.cls
        s = st.copy()
        s.stack = st.stack + (freeze(st.env),)
        s.env = env
        f2 = Frame(fi, fr.depth + 1, fr.in_try, None, fi.cls)
        self.call_stack.append(fi.qual)
        try:
            outs = self.exec_block(self._body(fi.node), s, f2)
        finally:
            self.call_stack.pop()
        res = []
        for o in outs:
            s2 = o.state.copy()
            s2.env = dict_of(o.state.stack[-1]).copy()
            s2.stack = o.state.stack[:-1]
            if o.kind == "return":
                res.append((s2, o.value))
            elif o.kind == "next":
                res.append((s2, NONE))
            elif o.kind == "raise":
                self._exc.append(Out("raise", s2, o.value, o.node))
        return self._cap_pairs(res)

    # -------------------------------------------------------------- events
    def emit(self, kind, term, args, node, st, fr):
        ev = Ev(kind, term, args, node, fr.func, fr.depth)
        self.pol.on_event(ev, st, self)
        if self.pol.track(ev, st):
            st = st.copy()
            st.events = st.events + ((kind, term, args),)
        return st

    # ---------------------------------------------------------- statements
    def bind(self, target, val, st, fr):
        """Assign val to target in st (mutates st)."""
        if isinstance(target, ast.Name):
            st.env[target.id] = val
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    self.bind(e.value, trim(("item", val, ("slice", C(i), NONE, NONE))), st, fr)
                else:
                    self.bind(e, self.item(val, C(i), st), st, fr)
        elif isinstance(target, ast.Starred):
            self.bind(target.value, val, st, fr)
        return st

    def assign(self, target, val, st, fr, node):
        if isinstance(target, (ast.Name,)):
            st = st.copy()
            self.bind(target, val, st, fr)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            cur = [st]
            for i, e in enumerate(target.elts):
                nxt = []
                for s in cur:
                    if isinstance(e, ast.Starred):
                        v = trim(("item", val, ("slice", C(i), NONE, NONE)))
                        e2 = e.value
                    else:
                        v = self.item(val, C(i), s)
                        e2 = e
                    nxt.extend(self.assign(e2, v, s, fr, node))
                cur = nxt
            return cur
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.eval(target.value, st, fr):
                s = s.copy()
                s.heap[(b, target.attr)] = val
                for k in [k for k in s.facts if k[0] in ("truth", "eq", "in", "isinstance", "lt", "le") and _mentions(k, ("attr", b, target.attr))]:
                    del s.facts[k]
                s = self.emit("store", b, (target.attr, val), node, s, fr)
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, (b, k) in self.eval_many([target.value, target.slice], st, fr):
                s = self.emit("setitem", b, (k, val), node, s, fr)
                s = s.copy()
                if b[0] == "dict" and len(b) == 3:
                    if len(b[1]) < 24:
                        self._replace(b, ("dict", tuple(x for x in b[1] if x[0] != k) + ((k, val),), b[2]), s)
                elif self.pol.fold and b[0] == "list" and len(b) == 3 and self.known(b, s) is not None and is_const(k) \
                        and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
                    i = k[1] % len(b[1])
                    self._replace(b, ("list", b[1][:i] + (val,) + b[1][i + 1:], b[2]), s)
                elif self.pol.fold and b[0] == "list" and len(b) == 3 and k == ("slice", NONE, NONE, NONE) and self.known(val, s) is not None:
                    self._replace(b, ("list", tuple(self.known(val, s)), b[2]), s)
                else:
                    self._touch(b, s, grown=True)
                    s.heap[("item", b, k)] = val
                    s.facts[("in", k, b)] = True
                out.append(s)
            return out
        return [st]

    def exec_block(self, body, st, fr):
        """Execute statements; return list of Out."""
        cur = [st]
        done = []
        for stmt in body:
            nxt = []
            for s in cur:
                for o in self.exec_stmt(stmt, s, fr):
                    if o.kind == "next":
                        nxt.append(o.state)
                    else:
                        done.append(o)
            cur = self._cap(nxt)
            done = self._cap_outs(done)
            if not cur:
                break
        return done + [Out("next", s) for s in cur]

    def _key(self, s):
        if self.pol.key_flags:
            fl = tuple(tuple(sorted((k, v[1]) for k, v in dict_of(e).items() if v[0] == "const" and v[1] in (True, False) and isinstance(v[1], bool)))
                       for e in (tuple(s.env.items()),) + s.stack)
        else:
            fl = ()
        return (s.events, s.user, fl,
                frozenset((k, v) for k, v in s.facts.items() if self.pol.fact_key(k)))

    def _cap(self, states):
        if len(states) <= 1:
            return states
        seen, out = set(), []
        for s in states:
            k = s.ident()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) <= self.pol.max_states:
            return out
        self.capped = True
        groups = {}
        for s in out:
            groups.setdefault(self._key(s), []).append(s)
        return [self._merge(g) for g in groups.values()]

    def _cap_outs(self, outs):
        if len(outs) <= 1:
            return outs
        seen, res = set(), []
        for o in outs:
            k = (o.kind, o.value, o.state.ident())
            if k not in seen:
                seen.add(k)
                res.append(o)
        if len(res) <= self.pol.max_states:
            return res
        self.capped = True
        groups = {}
        for o in res:
            v = o.value
            groups.setdefault((o.kind, v, self._key(o.state)), []).append(o)
        if len(groups) > self.pol.max_states * 4:
            g2 = {}
            for (k, v, key), os_ in groups.items():
                g2.setdefault((k, key), []).extend(os_)
            return [Out(k, self._merge([o.state for o in g]), join_terms([o.value for o in g]) if g[0].value else None, g[0].node)
                    for (k, key), g in g2.items()]
        return [Out(k, self._merge([o.state for o in g]), v, g[0].node) for (k, v, key), g in groups.items()]

    def _merge(self, g):
        if len(g) == 1:
            return g[0]
        a = g[0]
        env = {}
        names = set(a.env)
        for s in g[1:]:
            names |= set(s.env)
        for n in names:
            env[n] = join_terms([s.env.get(n, ("top", "undef")) for s in g])
        heap = {}
        hk = set(a.heap)
        for s in g[1:]:
            hk |= set(s.heap)
        for h in hk:
            default = ("attr", h[0], h[1]) if h[0] != "item" else ("item", h[1], h[2])
            heap[h] = join_terms([s.heap.get(h, default) for s in g])
        facts = {k: v for k, v in a.facts.items() if all(s.facts.get(k) == v for s in g[1:])}
        for s in g:
            for k in s.facts:
                if k[0] == "touched":
                    facts[k] = True
        return State(env, heap, facts, a.events, a.stack, a.user)

    def exec_stmt(self, n, st, fr):
        self._tick()
        saved = getattr(self, "_exc", None)
        self._exc = []
        try:
            m = getattr(self, "s_" + type(n).__name__, None)
            if m is None:
                return [Out("next", st)]
            outs = m(n, st, fr)
            return outs + self._exc
        finally:
            self._exc = saved

    def s_Expr(self, n, st, fr):
        return [Out("next", s) for s, _ in self.eval(n.value, st, fr)]

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.eval(n.value, st, fr):
            cur = [s]
            for t in n.targets:
                cur = [x for s1 in cur for x in self.assign(t, v, s1, fr, n)]
            out.extend(Out("next", x) for x in cur)
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [Out("next", st)]
        out = []
        for s, v in self.eval(n.value, st, fr):
            out.extend(Out("next", x) for x in self.assign(n.target, v, s, fr, n))
        return out

    def s_AugAssign(self, n, st, fr):
        out = []
        load = _as_load(n.target)
        for s, (a, b) in self.eval_many([load, n.value], st, fr):
            op = type(n.op).__name__
            s = self.emit("aug", a, (op, b), n, s, fr)
            if is_const(a) and is_const(b) and op in ("Add", "Sub"):
                try:
                    v = C(a[1] + b[1] if op == "Add" else a[1] - b[1])
                except TypeError:
                    v = ("bin", op, a, b)
            elif a[0] in ("list", "set") and len(a) > 2:
                s = self._grow(a, "extend", [b], s)
                out.append(Out("next", s))
                continue
            else:
                v = trim(("bin", op, a, b))
            out.extend(Out("next", x) for x in self.assign(n.target, v, s, fr, n))
        return out

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [Out("return", st, NONE, n)]
        return [Out("return", s, self.settled(v, s), n) for s, v in self.eval(n.value, st, fr)]

    def settled(self, v, st):
        """A comparison this path has already decided is returned as what it was decided to be."""
        if v[0] == "cmp":
            known = st.facts.get(v[1])
            return v if known is None else C(bool(known))
        if v[0] == "not":
            x = self.settled(v[1], st)
            return C(not x[1]) if x in (TRUE, FALSE) else v
        if v[0] in ("tuple", "list") and any(x[0] in ("cmp", "not") for x in v[1]):
            return (v[0], tuple(self.settled(x, st) for x in v[1])) + v[2:]
        return v

    def s_Pass(self, n, st, fr):
        return [Out("next", st)]

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Break(self, n, st, fr):
        return [Out("break", st)]

    def s_Continue(self, n, st, fr):
        return [Out("continue", st)]

    def s_FunctionDef(self, n, st, fr):
        fi = fr.func.local_funcs.get(n.name)
        if fi is None:
            fi = FuncInfo(fr.func.module, n, None, fr.func)
        self._reg(fi)
        s = st.copy()
        s.env[n.name] = ("localfn", fi.qual)
        return [Out("next", s)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        s = st.copy()
        s.env[n.name] = ("top", "class " + n.name)
        return [Out("next", s)]

    def s_Delete(self, n, st, fr):
        out = [st]
        for t in n.targets:
            nxt = []
            for s in out:
                if isinstance(t, ast.Subscript):
                    for s1, (b, k) in self.eval_many([t.value, t.slice], s, fr):
                        s1 = self.emit("del", b, (k,), n, s1, fr)
                        if self.pol.fold:
                            s1 = self._del_known(b, k, s1)
                        nxt.append(s1)
                else:
                    nxt.append(s)
            out = nxt
        return [Out("next", s) for s in out]

    def _del_known(self, b, k, st):
        if b[0] == "dict" and len(b) == 3:
            hit = [x for x in b[1] if x[0] == k]
            if hit:
                st = st.copy()
                self._replace(b, ("dict", tuple(x for x in b[1] if x[0] != k), b[2]), st)
        elif b[0] == "list" and len(b) == 3 and is_const(k) and isinstance(k[1], int):
            ms = self.known(b, st)
            if ms is not None and -len(ms) <= k[1] < len(ms):
                i = k[1] % len(ms)
                st = st.copy()
                self._replace(b, ("list", tuple(ms[:i]) + tuple(ms[i + 1:]), b[2]), st)
        return st

    def s_Assert(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if b:
                out.append(Out("next", s))
            else:
                out.append(Out("raise", s, ("call", ("ext", "AssertionError"), (), (), None), n))
        return out

    def s_If(self, n, st, fr):
        out = []
        groups = {True: [], False: []}
        for s, b in self.cond(n.test, st, fr):
            groups[b].append(s)
        for b, body in ((True, n.body), (False, n.orelse)):
            for s in self._cap(groups[b]):
                out.extend(self.exec_block(body, s, fr))
        return out

    def s_While(self, n, st, fr):
        outs = []
        cur = [st]
        tested = set()
        for i in range(self.pol.loop_iters + 1):
            nxt = []
            for s in cur:
                for s1, b in self.cond(n.test, s, fr):
                    for k in s1.facts:
                        if k not in s.facts:
                            tested.update(x for y in k[1:] if isinstance(y, tuple) for x in subterms(y) if x[0] == "call")
                    if not b:
                        outs.extend(self.exec_block(n.orelse, s1, fr) if n.orelse else [Out("next", s1)])
                        continue
                    if i == self.pol.loop_iters:
                        continue
                    for o in self.exec_block(n.body, s1, fr):
                        if o.kind in ("next", "continue"):
                            nxt.append(self._forget_loop(o.state, st, tested))
                        elif o.kind == "break":
                            outs.append(Out("next", o.state))
                        else:
                            outs.append(o)
            cur = self._cap(nxt)
            if not cur:
                break
        return outs

    def _forget_loop(self, st, entry, tested):
        """Facts about opaque re-evaluated conditions do not carry over to the next test."""
        s = st.copy()
        for k in list(s.facts):
            if k[0] in ("truth", "lt", "le", "eq", "in") and _has_pure_call(k):
                if k in entry.facts and not any(x in tested for y in k[1:] if isinstance(y, tuple) for x in subterms(y)):
                    continue
                del s.facts[k]
        return s

    def s_For(self, n, st, fr):
        outs = []
        for s, it in self.eval(n.iter, st, fr):
            ms = None
            if self.pol.fold and self.known(it, s) is not None:
                ms = self.known(it, s)
            elif it[0] in ("tuple", "list", "set") and ("touched", it) not in s.facts:
                ms = it[1]
            elif it[0] in ("gval", "attr"):
                ms = self.members(it)
            elif it[0] == "call" and it[1][0] == "attr" and it[1][2] == "items" and self.pairs(it[1][1]) is not None \
                    and ("touched", it[1][1]) not in s.facts \
                    and not any(kk == ("dstar",) for kk, _ in self.pairs(it[1][1])):
                ms = tuple(("tuple", pr) for pr in self.pairs(it[1][1]))
            if ms is not None and any(m[0] == "star" for m in ms):
                ms = None
            if ms is not None and len(ms) <= 40:
                cur = [s]
                for v in ms:
                    nxt = []
                    for s1 in cur:
                        for s2 in self.assign(n.target, v, s1, fr, n):
                            for o in self.exec_block(n.body, s2, fr):
                                if o.kind in ("next", "continue"):
                                    nxt.append(o.state)
                                elif o.kind == "break":
                                    outs.append(Out("next", o.state))
                                else:
                                    outs.append(o)
                    cur = self._cap(nxt)
                for s1 in cur:
                    outs.extend(self.exec_block(n.orelse, s1, fr) if n.orelse else [Out("next", s1)])
                continue
            cur = [s]
            empty = None
            for i in range(self.pol.loop_iters + 1):
                nxt = []
                for s1 in cur:
                    # leave the loop here
                    if i == 0:
                        ib = _iter_base(it)
                        s_no = self.assume(("truth", ib), False, s1) if ib[0] not in ("call", "comp") else s1
                        s_yes = self.assume(("truth", ib), True, s1) if ib[0] not in ("call", "comp") else s1
                    else:
                        s_no = s_yes = s1
                    if s_no is not None:
                        outs.extend(self.exec_block(n.orelse, s_no, fr) if n.orelse else [Out("next", s_no)])
                    if s_yes is None or i == self.pol.loop_iters:
                        continue
                    for s2 in self.assign(n.target, ("elem", trim(it), i), s_yes, fr, n):
                        for o in self.exec_block(n.body, s2, fr):
                            if o.kind in ("next", "continue"):
                                nxt.append(o.state)
                            elif o.kind == "break":
                                outs.append(Out("next", o.state))
                            else:
                                outs.append(o)
                cur = self._cap(nxt)
                if not cur:
                    break
        return self._cap_outs(outs)

    s_AsyncFor = s_For

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            v = st.env.get("$exc", ("exc", None))
            s = self.emit("raise", v, (), n, st, fr)
            return [Out("raise", s, v, n)]
        out = []
        for s, v in self.eval(n.exc, st, fr):
            if v[0] in ("class",) or (v[0] == "ext"):
                v = ("call", v, (), (), None)
            s = self.emit("raise", v, (), n, s, fr)
            out.append(Out("raise", s, v, n))
        return out

    def _exc_matches(self, v, types):
        """'yes' / 'no' / 'maybe' whether exception term v is caught by handler types."""
        if types is None:
            return "yes"
        res = "no"
        for t in types:
            r = self._exc1(v, t)
            if r == "yes":
                return "yes"
            if r == "maybe":
                res = "maybe"
        return res

    def _exc1(self, v, t):
        if t in (("ext", "BaseException"), ("ext", "Exception")):
            if t[1] == "Exception" and v[0] == "call" and v[1] in (("ext", "SystemExit"), ("ext", "KeyboardInterrupt")):
                return "no"
            return "yes"
        if v[0] == "phi":
            rs = {self._exc1(x, t) for x in v[1]}
            return rs.pop() if len(rs) == 1 else "maybe"
        if v[0] != "call":
            return "maybe"
        c = v[1]
        if c[0] == "class" and t[0] == "class":
            k, h = self.p.find(c[1]), self.p.find(t[1])
            if isinstance(k, ClassInfo) and isinstance(h, ClassInfo):
                return "yes" if h in self.p.mro(k) else "no"
        if c[0] == "class" and t[0] == "ext":
            k = self.p.find(c[1])
            ebs = {getattr(_bi, b, None) for b in self.p.ext_bases(k)} if isinstance(k, ClassInfo) else set()
            h = getattr(_bi, t[1], None)
            if isinstance(h, type):
                for b in ebs:
                    if isinstance(b, type) and issubclass(b, h):
                        return "yes"
            return "no"
        if c[0] == "ext" and t[0] == "ext":
            a, b = getattr(_bi, c[1], None), getattr(_bi, t[1], None)
            if isinstance(a, type) and isinstance(b, type):
                return "yes" if issubclass(a, b) else "no"
            return "yes" if c == t else "maybe"
        return "no" if c[0] == "ext" and t[0] == "class" else "maybe"

    def s_Try(self, n, st, fr):
        fr.in_try += 1
        try:
            outs = self.exec_block(n.body, st, fr)
        finally:
            fr.in_try -= 1
        res = []
        raised = [o for o in outs if o.kind == "raise"]
        rest = [o for o in outs if o.kind != "raise"]
        for o in rest:
            if o.kind == "next" and n.orelse:
                res.extend(self.exec_block(n.orelse, o.state, fr))
            else:
                res.append(o)
        if raised:
            # join implicit exceptions to keep the number of handler runs small
            groups = {}
            for o in raised:
                groups.setdefault((o.value, self._key(o.state)), []).append(o)
            joined = []
            for (v, k), g in groups.items():
                if len(g) > 8:
                    joined.append(Out("raise", self._merge([o.state for o in g]), v, g[0].node))
                else:
                    joined.extend(g)
            for o in joined:
                pending = True
                for h in n.handlers:
                    types = None
                    if h.type is not None:
                        prs = self.eval(h.type, o.state, fr)
                        t = prs[0][1] if prs else ("top", "h")
                        types = t[1] if t[0] == "tuple" else (t,)
                        if t[0] == "gval":
                            types = self.members(t) or (t,)
                    r = self._exc_matches(o.value, types)
                    if r == "no":
                        continue
                    s = o.state.copy()
                    val = o.value if o.value[0] != "exc" else ("exc", ast.unparse(h.type) if h.type else None)
                    if h.name:
                        s.env[h.name] = val
                    old = s.env.get("$exc")
                    s.env["$exc"] = val
                    s = self.emit("handler", val, (), h, s, fr)
                    for o2 in self.exec_block(h.body, s, fr):
                        if o2.kind == "next":
                            s2 = o2.state.copy()
                            if old is None:
                                s2.env.pop("$exc", None)
                            else:
                                s2.env["$exc"] = old
                            o2 = Out("next", s2)
                        res.append(o2)
                    if r == "yes":
                        pending = False
                        break
                if pending:
                    res.append(o)
        if n.finalbody:
            fin = []
            for o in self._cap_outs(res):
                for o2 in self.exec_block(n.finalbody, o.state, fr):
                    if o2.kind == "next":
                        fin.append(Out(o.kind, o2.state, o.value, o.node))
                    else:
                        fin.append(o2)
            res = fin
        return self._cap_outs(res)

    s_TryStar = s_Try

    def s_With(self, n, st, fr):
        return self._with(n, 0, st, fr)

    s_AsyncWith = s_With

    def _with(self, n, i, st, fr):
        if i == len(n.items):
            return self.exec_block(n.body, st, fr)
        it = n.items[i]
        outs = []
        # a repo @contextmanager generator is run around the body
        for s, v in self.eval(it.context_expr, st, fr):
            fi = self.fn_info(v[1]) if v[0] == "call" else None
            if fi is not None and fi.is_generator and any("contextmanager" in d for d in fi.decorators) \
                    and fr.depth < self.pol.max_depth and fi.qual not in self.call_stack \
                    and self.pol.inline(self, fi, fr.depth + 1):
                outs.extend(self._with_gen(fi, v, n, i, s, fr))
                continue
            suppress = v[0] == "call" and v[1] == ("ext", "contextlib.suppress")
            ss = [s]
            if it.optional_vars is not None:
                ss = self.assign(it.optional_vars, v, s, fr, n)
            for s1 in ss:
                s1 = self.emit("enter", v, (), n, s1, fr)
                if suppress:
                    fr.in_try += 1
                os_ = self._with(n, i + 1, s1, fr)
                if suppress:
                    fr.in_try -= 1
                for o in os_:
                    s2 = self.emit("exit", v, (o.kind,), n, o.state, fr)
                    if suppress and o.kind == "raise":
                        r = self._exc_matches(o.value, v[2])
                        if r != "no":
                            outs.append(Out("next", s2))
                        if r != "yes":
                            outs.append(Out("raise", s2, o.value, o.node))
                    else:
                        outs.append(Out(o.kind, s2, o.value, o.node))
        return outs

    def _with_gen(self, fi, callterm, n, i, st, fr):
        bound = []
        f = callterm[1]
        if f[0] == "attr" and not fi.is_static:
            bound = [f[1][2] if f[1][0] == "super" else f[1]]
        env = self.bind_params(fi, bound + list(callterm[2]), dict(callterm[3]), st, fr)
        if env is None:
            return self.exec_block(n.body, st, fr)
        if bound and self.type_of(bound[0]) is None and fi.cls is not None:
            self.types[bound[0]] = fi.cls
        extra = []

        def hook(s, v):
            """Run the with-body in the caller's frame at the yield point."""
            genenv = s.env
            s2 = s.copy()
            s2.env = dict_of(s.stack[-1]).copy()
            s2.stack = s.stack[:-1]
            ss = [s2]
            if n.items[i].optional_vars is not None:
                ss = self.assign(n.items[i].optional_vars, v, s2, fr, n)
            res = []
            for s3 in ss:
                fr.in_try += 1
                bo = self._with(n, i + 1, s3, fr)
                fr.in_try -= 1
                for o in bo:
                    s4 = o.state.copy()
                    s4.stack = o.state.stack + (freeze(o.state.env),)
                    s4.env = dict(genenv)
                    if o.kind == "next":
                        res.append((s4, NONE))
                    elif o.kind == "raise":
                        self._exc.append(Out("raise", s4, o.value, o.node))
                    else:
                        s4 = s4.copy()
                        s4.env["$leave"] = ("leave", o.kind, o.value)
                        res.append((s4, NONE))
            return res

        s = st.copy()
        s.stack = st.stack + (freeze(st.env),)
        s.env = env
        self.inlined.add(fi.qual)
        f2 = Frame(fi, fr.depth + 1, fr.in_try, hook, fi.cls)
        self.call_stack.append(fi.qual)
        try:
            outs = self.exec_block(fi.node.body, s, f2)
        finally:
            self.call_stack.pop()
        res = []
        for o in outs:
            s2 = o.state.copy()
            leave = o.state.env.get("$leave")
            s2.env = dict_of(o.state.stack[-1]).copy()
            s2.stack = o.state.stack[:-1]
            if o.kind == "raise":
                res.append(Out("raise", s2, o.value, o.node))
            elif leave is not None:
                res.append(Out(leave[1], s2, leave[2], n))
            else:
                res.append(Out("next", s2))
        return res

    def s_Match(self, n, st, fr):
        outs = []
        for s, v in self.eval(n.subject, st, fr):
            cur = [s]
            for c in n.cases:
                nxt = []
                for s1 in cur:
                    for s2, b in self.pattern(c.pattern, v, s1, fr):
                        if not b:
                            nxt.append(s2)
                            continue
                        if c.guard is not None:
                            for s3, g in self.cond(c.guard, s2, fr):
                                if g:
                                    outs.extend(self.exec_block(c.body, s3, fr))
                                else:
                                    nxt.append(s3)
                        else:
                            outs.extend(self.exec_block(c.body, s2, fr))
                cur = self._cap(nxt)
            outs.extend(Out("next", x) for x in cur)
        return outs

    def pattern(self, pt, v, st, fr):
        if isinstance(pt, ast.MatchValue):
            out = []
            for s, w in self.eval(pt.value, st, fr):
                out.extend(self._eq(v, w, s))
            return out
        if isinstance(pt, ast.MatchSingleton):
            return self._eq(v, C(pt.value), st)
        if isinstance(pt, ast.MatchOr):
            res, cur = [], [st]
            for q in pt.patterns:
                nxt = []
                for s in cur:
                    for s2, b in self.pattern(q, v, s, fr):
                        (res.append((s2, True)) if b else nxt.append(s2))
                cur = nxt
            return res + [(s, False) for s in cur]
        if isinstance(pt, ast.MatchAs):
            if pt.pattern is None:
                s = st
                if pt.name:
                    s = st.copy()
                    s.env[pt.name] = v
                return [(s, True)]
            out = []
            for s, b in self.pattern(pt.pattern, v, st, fr):
                if b and pt.name:
                    s = s.copy()
                    s.env[pt.name] = v
                out.append((s, b))
            return out
        if isinstance(pt, ast.MatchClass):
            out = []
            for s, c in self.eval(pt.cls, st, fr):
                out.extend(self.truth(("call", ("ext", "isinstance"), (v, c), (), None), s))
            return out
        s = st.copy()
        return [(s, True), (st, False)]


# ---------------------------------------------------------------- helpers
class _Env(tuple):
    pass


def _iter_base(t):
    """The collection whose emptiness decides whether iterating `t` does anything."""
    while t[0] == "call":
        f = t[1]
        if f[0] == "attr" and f[2] in ("items", "values", "keys", "copy") and not t[2] and not t[3]:
            t = f[1]
        elif f[0] == "ext" and f[1] in ("enumerate", "list", "tuple", "reversed", "sorted", "iter") and t[2]:
            t = t[2][0]
        else:
            break
    return t


def freeze(env):
    return tuple(sorted(env.items(), key=lambda kv: kv[0]))


def dict_of(e):
    return dict(e)


def join_terms(ts):
    alts = set()
    for t in ts:
        if t is None:
            t = NONE
        if t[0] == "phi":
            alts |= t[1]
        else:
            alts.add(t)
    if len(alts) == 1:
        return alts.pop()
    if len(alts) > 1:
        a0 = next(iter(alts))
        if a0[0] in ("list", "set") and len(a0) == 3 and all(x[0] == a0[0] and len(x) == 3 and x[2] == a0[2] for x in alts):
            if len(alts) > 4:
                ne = all(any(y[0] != "star" for y in x[1]) for x in alts)
                return trim((a0[0], ((("top", "item"),) if ne else ()) + (("star", ("top", "join")),), a0[2]))
    if len(alts) > 12:
        return ("top", "phi")
    return ("phi", frozenset(alts))


class T(tuple):
    """Interned term with cached hash and depth (equal to the plain tuple)."""

    def __hash__(self):
        return self._h

    def __reduce__(self):
        return (tuple, (tuple(self),))


_intern = {}
MAXD = 64


def tdepth(t):
    d = 0
    for x in t:
        if type(x) is T:
            d = max(d, x._d)
        elif isinstance(x, (tuple, frozenset)):
            d = max(d, tdepth(x))
    return d + 1


def pure_path(t):
    """The path a term denotes when every part of it is a literal, else None."""
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath") and not t[3]:
        ps = [pure_path(x) if x[0] != "const" else x[1] for x in t[2]]
        if ps and all(isinstance(x, (str, pathlib.PurePosixPath)) for x in ps):
            return pathlib.PurePosixPath(*ps)
    if t[0] == "bin" and t[1] == "Div":
        a, b = pure_path(t[2]), pure_path(t[3]) if t[3][0] != "const" else t[3][1]
        if a is not None and isinstance(b, (str, pathlib.PurePosixPath)):
            return a / b
    return None


def trim(t):
    """Intern a term; terms nested deeper than MAXD lose their inner structure."""
    h = tuple.__hash__(t)
    r = _intern.get(t) if type(t) is not T else t
    if r is not None:
        return r
    d = tdepth(t)
    if d > MAXD:
        return trim(("top", "deep", _shallow(t, 6)))
    n = T(t)
    n._h = h
    n._d = d
    _intern[n] = n
    return n


def _shallow(t, k):
    if not isinstance(t, tuple):
        return t if not isinstance(t, frozenset) else "*"
    if k == 0:
        return "*"
    return tuple(_shallow(x, k - 1) for x in t)


def subterms(t):
    """All subterms (tuples whose head is a str)."""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, frozenset):
            st.extend(x)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def _mentions(k, t):
    return any(x == t for x in subterms(k))


def _has_pure_call(k):
    return any(x[0] == "call" for x in subterms(k))


def _simple(n):
    return isinstance(n, (ast.Name, ast.Attribute, ast.Compare))


def _as_load(t):
    import copy
    t2 = copy.deepcopy(t)
    for x in ast.walk(t2):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t2


def callee(t):
    """Dotted description of a call term's callee."""
    return fname(t[1])


def fname(f):
    if f[0] in ("fn", "class", "ext", "localfn", "mod"):
        return f[1]
    if f[0] == "attr":
        return fname(f[1]) + "." + f[2]
    if f[0] in ("param", "name"):
        return f[1]
    if f[0] == "gval":
        return f[1] + "." + f[2]
    if f[0] == "super":
        return "super"
    return "?" if f[0] != "const" else repr(f[1])


def show(t, k=5):
    """Readable rendering of a term for reports."""
    if not isinstance(t, tuple):
        return str(t)
    if k == 0:
        return "…"
    if not t:
        return "()"
    h = t[0]
    if not isinstance(h, str):
        return "(" + ", ".join(show(x, k - 1) for x in t[:4]) + ")"
    if h == "const":
        return repr(t[1])
    if h in ("param", "name"):
        return t[1]
    if h in ("fn", "class", "ext", "mod", "localfn"):
        return t[1].split(".")[-1] if h != "ext" else t[1]
    if h == "enum":
        return t[1].split(".")[-1] + "." + t[2]
    if h == "gval":
        return t[2]
    if h == "attr":
        return show(t[1], k - 1) + "." + t[2]
    if h == "item":
        return "%s[%s]" % (show(t[1], k - 1), show(t[2], k - 1))
    if h == "elem":
        return "each(%s)" % show(t[1], k - 1)
    if h == "call":
        return "%s(%s)" % (show(t[1], k - 1), ", ".join(
            [show(a, k - 1) for a in t[2]] + ["%s=%s" % (a, show(b, k - 1)) for a, b in t[3]]))
    if h == "phi":
        return "{%s}" % " | ".join(sorted(show(x, k - 1) for x in t[1]))
    if h in ("eq", "lt", "le", "in", "isinstance"):
        return "%s %s %s" % (show(t[1], k - 1), {"eq": "==", "lt": "<", "le": "<=", "in": "in", "isinstance": "isa"}[h], show(t[2], k - 1))
    if h == "truth":
        return show(t[1], k)
    if h == "bin":
        return "(%s %s %s)" % (show(t[2], k - 1), t[1], show(t[3], k - 1))
    if h in ("list", "tuple", "set"):
        return h + "(" + ", ".join(show(x, k - 1) for x in t[1][:6]) + ")"
    return h + ("(" + ", ".join(show(x, k - 1) for x in t[1:3] if isinstance(x, tuple)) + ")" if len(t) > 1 else "")
