"""R02: hash order, directory order, addresses, random draws and the clock decide no result."""
import ast
import re

from ..lib import resolve_call
from ..project import ClassInfo, FuncInfo
from ..refs import ext_name, own_nodes

PROP = dict(
    id="R02", title="Equal inputs give equal results: nothing accidental decides them",
    statement="A DSL program, script or package operation gives the same result on every run with the same inputs. The arbitrary order of set elements or of directory entries never becomes the order of a list, mapping, loop with ordered effects, choice of an element or text; the address (id) or hash of an object never stands for its identity after the object may be gone or where two values share it; random numbers are drawn only by the documented random_* helpers; generated ids and the clock fill only identifier and time-stamp slots.",
    over=["inputs", "configurations"], text="every use of a set, directory listing, hash, object address, random number, generated id or clock reading, in every function of yapCAD and its service",
    why="Within one process and one hash seed such code gives the same answer every time, and with two or three elements the accidental order is usually the expected one; a test never runs under enough seeds, memory layouts or directories to notice.",
    files=["src/yapcad", "service"],
    mech=[("all modules", "src/yapcad/**/*.py, service/**/*.py")],
    observe=["a set or directory listing whose order reaches a list, loop, choice or message, an id()/hash() used as identity, a random draw, or a clock/uuid value outside an id or time slot"],
    technique="type inference for unordered collections (interprocedural fixpoint over locals, attributes, parameters, returns) with a classification of every consumption as order-sensitive or not; use analysis of id/hash/random/uuid/clock calls",
    note="Sets of numbers count as ordered (their order depends on the values and not on the hash seed) where their element type is evident. Order of external libraries' results, thread scheduling and floating-point differences between machines are not judged.",
)
EXPLAIN = ("Every expression that is a set (display, set(), set operators and methods, dict-key algebra, annotated or inferred names, attributes, parameters, returns, values of dict-of-set) or an unsorted directory listing is found by a fixpoint; each place that consumes its elements is classified: sorted without key, set building, "
           "any/all/len/membership, commutative loop bodies are order-insensitive, everything else is a violation. id() may be stored only beside a live-identity check, hash() never as identity; random calls only within functions that say so; uuid and clock values are followed to the slots they fill.")
ASSUME = ["callables outside the repository do not depend on the order of a set passed to them"]

SETANN = re.compile(r"^(typing\.|t\.|collections\.abc\.)?(Optional\[)?(typing\.)?(Set|set|FrozenSet|frozenset|AbstractSet|MutableSet)\b")
DICTSET = re.compile(r"^(typing\.)?(Optional\[)?(typing\.)?(Dict|dict|DefaultDict|defaultdict|Mapping|MutableMapping)\[.*?,\s*(typing\.)?(Set|set|FrozenSet|frozenset)\b")
NUMSET = re.compile(r"(Set|set|FrozenSet|frozenset)\[\s*(int|float|bool|(Tuple|tuple)\[(\s*(int|float|bool|\.\.\.)\s*,?)+\])\s*\]")
SAFE = {"set", "frozenset", "any", "all", "len", "sum", "bool", "isinstance", "Counter", "fsum"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
LISTING = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob"}
PATHLIST = {"iterdir", "glob", "rglob"}
IDWORD = re.compile(r"(^|_|(?<=[a-z]))(u?u?id|ids|now|iso|time|timestamp|stamp|date|at|created|modified|updated|stem|suffix|tmp|temp)(?=$|_|[A-Z])|(Id|At|Time|Date|Stamp)(?=$|[A-Z_])")


def dotted(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return ".".join([e.id] + out[::-1])
    return None


def annot(a):
    if a is None:
        return None
    t = a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else ast.unparse(a)
    if NUMSET.search(t):
        return None
    return "set" if SETANN.match(t) else "dictset" if DICTSET.match(t) else None


class Kinds:
    """'set' (arbitrary order), 'dictset' (mapping to sets), 'listing' (directory order), or None, of an expression."""

    def __init__(self, p):
        self.p = p
        self.attr = {}      # attribute name -> kind
        self.loc = {}       # function -> {name: kind}
        self.par = {}       # (function, parameter) -> kind
        self.ret = {}       # function -> kind
        self.mod = {}       # module -> {name: kind}
        self.changed = False
        self.funcs = [(m, f) for m in p.modules.values() for f in p.all_funcs(m, nested=True)]
        self.build()

    def put(self, d, k, v):
        if v is not None and d.get(k) is None:
            d[k] = v
            self.changed = True

    def kind(self, e, fi, mod, depth=0):
        if e is None or depth > 12:
            return None
        K = lambda x: self.kind(x, fi, mod, depth + 1)
        if isinstance(e, (ast.Set, ast.SetComp)):
            els = e.elts if isinstance(e, ast.Set) else [e.elt]
            return None if all(self.number(x, fi) for x in els) else "set"
        if isinstance(e, ast.NamedExpr):
            return K(e.value)
        if isinstance(e, ast.IfExp):
            return K(e.body) or K(e.orelse)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                if K(x):
                    return K(x)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            for x in (e.left, e.right):
                if K(x) == "set" or self.keysview(x):
                    return "set"
            return None
        if isinstance(e, ast.Subscript):
            return "set" if K(e.value) == "dictset" else None
        if isinstance(e, ast.Await):
            return K(e.value)
        if isinstance(e, ast.Name):
            f = fi
            while f is not None:
                if e.id in self.loc.get(f, ()):
                    return self.loc[f][e.id]
                k = self.par.get((f, e.id))
                if k:
                    return k
                if e.id in self.bound(f):
                    return None
                f = f.outer
            k = self.mod.get(mod, {}).get(e.id)
            if k:
                return k
            r = self.imported(mod, e.id)
            return r
        if isinstance(e, ast.Attribute):
            k = self.attr.get(e.attr)
            if k:
                return k
            return None
        if isinstance(e, ast.Call):
            f = dotted(e.func)
            if f in ("set", "frozenset"):
                if e.args and self.numbers(e.args[0], fi):
                    return None
                return "set"
            if f in ("defaultdict", "collections.defaultdict") and e.args and dotted(e.args[0]) == "set":
                return "dictset"
            if f in LISTING:
                return "listing"
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in PATHLIST and (e.func.attr != "glob" or e.args) and dotted(e.func) not in ("np.glob",):
                    return "listing"
                k = K(e.func.value)
                if e.func.attr in SETOPS and k == "set":
                    return "set"
                if e.func.attr == "copy" and k:
                    return k
                if e.func.attr in ("get", "setdefault", "pop") and (k == "dictset" or len(e.args) > 1 and K(e.args[1]) == "set"):
                    return "set"
            t = resolve_call(self.p, fi, e) if fi is not None else None
            if isinstance(t, FuncInfo):
                return self.ret.get(t)
            if t is None and isinstance(e.func, ast.Name):
                g = fi
                while g is not None:
                    if e.func.id in g.local_funcs:
                        return self.ret.get(g.local_funcs[e.func.id])
                    g = g.outer
        return None

    def imported(self, mod, name):
        t = mod.imports.get(name) if hasattr(mod, "imports") else None
        if isinstance(t, tuple) and t[1]:
            mm = self.p.modules.get(t[0])
            if mm is not None:
                return self.mod.get(mm, {}).get(t[1])
        return None

    def keysview(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "items") and not e.args

    def bound(self, fi):
        if not hasattr(self, "_b"):
            self._b = {}
        if fi not in self._b:
            s = set(fi.params) | set(fi.kwonly)
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    s.add(n.id)
            self._b[fi] = s
        return self._b[fi]

    def number(self, e, fi):
        """The expression is evidently a number (or a tuple of numbers): its hash does not depend on the run."""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float)) and e.value is not None
        if isinstance(e, (ast.Tuple, ast.List)):
            return bool(e.elts) and all(self.number(x, fi) for x in e.elts)
        if isinstance(e, ast.UnaryOp):
            return self.number(e.operand, fi)
        if isinstance(e, ast.BinOp):
            return self.number(e.left, fi) and self.number(e.right, fi)
        if isinstance(e, ast.Call):
            return dotted(e.func) in ("int", "float", "round", "len", "ord", "abs", "math.floor", "math.ceil")
        if isinstance(e, ast.Name) and fi is not None:
            return e.id in self.numbers_of(fi)
        return False

    def numbers(self, e, fi):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return bool(e.elts) and all(self.number(x, fi) for x in e.elts)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.number(e.elt, fi)
        return isinstance(e, ast.Call) and dotted(e.func) == "range"

    def numbers_of(self, fi):
        if not hasattr(self, "_n"):
            self._n = {}
        if fi in self._n:
            return self._n[fi]
        s = self._n[fi] = set()
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and ast.unparse(x.annotation) in ("int", "float"):
                s.add(x.arg)
        for n in own_nodes(fi.node):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call):
                f = dotted(n.iter.func)
                if f == "range" and isinstance(n.target, ast.Name):
                    s.add(n.target.id)
                if f == "enumerate" and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
                    s.add(n.target.elts[0].id)
        for _ in range(2):
            cnt = {}
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    cnt.setdefault(n.targets[0].id, []).append(n.value)
            for k, vs in cnt.items():
                if all(self.number(v, fi) for v in vs):
                    s.add(k)
        return s

    def build(self):
        for m in self.p.modules.values():
            for c in self.p.all_classes(m):
                for n in ast.walk(c.node):
                    if isinstance(n, ast.AnnAssign):
                        t = n.target
                        k = annot(n.annotation)
                        if isinstance(t, ast.Attribute) or (isinstance(t, ast.Name) and n in c.node.body):
                            self.put(self.attr, t.attr if isinstance(t, ast.Attribute) else t.id, k)
            for n in m.tree.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    self.put(self.mod.setdefault(m, {}), n.target.id, annot(n.annotation))
        # an attribute name used for something ordered elsewhere is told apart by all its definitions
        ordered = {}
        for m, f in self.funcs:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(n.value, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Tuple)):
                            ordered[t.attr] = True
        self.ordered = ordered
        for m, f in self.funcs:
            self.put(self.ret, f, annot(f.node.returns))
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.put(self.par, (f, x.arg), annot(x.annotation))
        for _ in range(6):
            self.changed = False
            for m in self.p.modules.values():
                for k, v in m.assigns.items():
                    for vv in (v if isinstance(v, list) else [v]):
                        if isinstance(vv, ast.AST):
                            self.put(self.mod.setdefault(m, {}), k, self.kind(vv, None, m))
            for m, f in self.funcs:
                L = self.loc.setdefault(f, {})
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign):
                        k = self.kind(n.value, f, m)
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                self.put(L, t.id, k)
                            elif isinstance(t, ast.Attribute) and k and t.attr not in ordered:
                                self.put(self.attr, t.attr, k)
                            elif isinstance(t, ast.Subscript) and k == "set" and isinstance(t.value, ast.Name) and t.value.id in self.bound(f):
                                self.put(L, t.value.id, "dictset")
                    elif isinstance(n, ast.AnnAssign):
                        k = annot(n.annotation)
                        if isinstance(n.target, ast.Name):
                            self.put(L, n.target.id, k)
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        it = n.iter
                        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and self.kind(it.func.value, f, m) == "dictset":
                            if it.func.attr == "values" and isinstance(n.target, ast.Name):
                                self.put(L, n.target.id, "set")
                            if it.func.attr == "items" and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[1], ast.Name):
                                self.put(L, n.target.elts[1].id, "set")
                    elif isinstance(n, ast.Call):
                        if isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and len(n.args) == 2 and isinstance(n.func.value, ast.Name) and self.kind(n.args[1], f, m) == "set" and n.func.value.id in self.bound(f):
                            self.put(L, n.func.value.id, "dictset")
                        t = resolve_call(self.p, f, n)
                        if isinstance(t, FuncInfo):
                            ps = t.params[1:] if t.cls is not None and t.params[:1] in (["self"], ["cls"]) else t.params
                            for q, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords if k.arg]:
                                if self.kind(a, f, m) in ("set", "listing"):
                                    self.put(self.par, (t, q), self.kind(a, f, m))
                    elif isinstance(n, ast.Return) and n.value is not None and not f.node.returns:
                        self.put(self.ret, f, self.kind(n.value, f, m))
            if not self.changed:
                break


def parents(node):
    return {c: x for x in ast.walk(node) for c in ast.iter_child_nodes(x)}


def insensitive_uses(name, fi, par, result):
    """All uses of a list made from a set forget its order, or it is sorted."""
    uses = 0
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name) and n.func.value.id == name and not n.keywords:
            return True
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            uses += 1
            q = par.get(n)
            if isinstance(q, ast.Call) and n in q.args and (dotted(q.func) in SAFE or dotted(q.func) == "sorted" and not any(k.arg == "key" for k in q.keywords)):
                continue
            if isinstance(q, ast.Compare) and n in q.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in q.ops):
                continue
            if isinstance(q, (ast.If, ast.While, ast.IfExp)) and q.test is n or isinstance(q, ast.UnaryOp) and isinstance(q.op, ast.Not) or isinstance(q, ast.BoolOp) and isinstance(par.get(q), (ast.If, ast.While)):
                continue
            if not (isinstance(q, ast.Assign) and len(q.targets) == 1 and names(q.targets[0]) & {name}) and result(n, None) == "ok":
                continue
            return False
    return uses > 0


def commutative(body, elem, K, fi, mod, nested=False):
    """The statements have the same effect whatever the order of the iterations."""
    temps = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.For)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            temps.add(x.id)
    local = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name)}
    after = set()
    inside = {id(n) for s in body for n in ast.walk(s)}
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside:
            after.add(n.id)
    consts = set()

    def pure(e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "write", "warn", "error", "appendleft"):
                return False
        return True

    def st(s):
        if isinstance(s, (ast.Pass, ast.Continue, ast.Raise, ast.Assert, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return True
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return True
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
                if v.func.attr in ("add", "discard", "remove", "difference_update", "intersection_update"):
                    return pure(v.args[0]) if v.args else True
                if v.func.attr == "update" and K.kind(v.func.value, fi, mod) == "set":
                    return True
                if v.func.attr == "pop" and v.args and names(v.args[0]) & elem:
                    return True
            return False
        if isinstance(s, ast.Delete):
            return True
        if isinstance(s, ast.If):
            return pure(s.test) and all(st(x) for x in s.body + s.orelse)
        if isinstance(s, (ast.For, ast.While)):
            return all(st(x) for x in s.body + s.orelse)
        if isinstance(s, ast.With):
            return all(st(x) for x in s.body)
        if isinstance(s, ast.Try):
            return all(st(x) for x in s.body + s.orelse + s.finalbody) and all(st(x) for h in s.handlers for x in h.body)
        if isinstance(s, ast.Return):
            if s.value is None or isinstance(s.value, ast.Constant):
                consts.add(None if s.value is None else s.value.value)
                return len(consts) == 1
            return False
        if isinstance(s, ast.AugAssign):
            return isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Mult)) and (isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) or K.number(s.value, fi) or isinstance(s.op, (ast.BitOr, ast.BitAnd)))
        if isinstance(s, ast.Assign):
            if not pure(s.value):
                return False
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in after and not isinstance(s.value, ast.Constant) and not (isinstance(s.value, ast.Call) and dotted(s.value.func) in ("max", "min") and t.id in names(s.value)):
                        return False
                elif isinstance(t, (ast.Tuple, ast.List)):
                    if names(t) & after:
                        return False
                elif isinstance(t, ast.Subscript):
                    # writes separate slots of a list (or of a mapping whose keys exist already)
                    if not names(t.slice) & (elem | temps) or not listlike(t.value):
                        return False
                elif isinstance(t, ast.Attribute):
                    if not names(t.value) & (elem | temps):
                        return False
            return True
        return False

    def listlike(e):
        if not isinstance(e, ast.Name):
            return False
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                v = n.value
                if isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.BinOp) or isinstance(v, ast.Call) and dotted(v.func) in ("list", "np.zeros", "np.ones", "np.empty", "np.full", "numpy.zeros"):
                    return True
        return False

    return all(st(s) for s in body)


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


WHAT = {"set": "a set", "listing": "a directory listing"}


def consumption(n, K, fi, mod, par):
    """(kind, node, how) if node n consumes the elements of an unordered collection in their accidental order, 'ok' if in an order-insensitive way."""
    kd = lambda e: (lambda k: k if k in ("set", "listing") else None)(K.kind(e, fi, mod))

    def result(x, what):
        """x is an ordered value made from the collection; where does it go?"""
        q = par.get(x)
        while isinstance(q, (ast.NamedExpr,)):
            x, q = q, par.get(q)
        if isinstance(q, ast.Call) and x in q.args:
            f = dotted(q.func)
            if f in SAFE:
                return "ok"
            if f == "sorted":
                return what if any(k.arg == "key" for k in q.keywords) else "ok"
            if f in ("min", "max"):
                return what if any(k.arg == "key" for k in q.keywords) else "ok"
            if f in ("list", "tuple", "iter", "enumerate", "reversed", "filter", "map"):
                return result(q, what)
            if isinstance(q.func, ast.Attribute) and q.func.attr in ("update", "union", "intersection", "difference", "difference_update", "issubset", "issuperset", "isdisjoint", "intersection_update", "symmetric_difference") and (K.kind(q.func.value, fi, mod) == "set" or q.func.attr != "update"):
                return "ok"
        if isinstance(q, ast.Compare) and x in q.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in q.ops):
            return "ok"
        if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and insensitive_uses(q.targets[0].id, fi, par, result):
            return "ok"
        if isinstance(q, (ast.For, ast.comprehension)) and q.iter is x:
            return loop(q, what)
        return what

    def loop(q, what):
        if isinstance(q, ast.For):
            return "ok" if commutative(q.body + q.orelse, names(q.target), K, fi, mod) else what
        c = par.get(q)
        if isinstance(c, ast.SetComp):
            return "ok"
        if isinstance(c, ast.DictComp):
            return what
        return result(c, what)

    if isinstance(n, (ast.For, ast.comprehension)):
        k = kd(n.iter)
        if k:
            return k, n.iter, loop(n, "loop")
    elif isinstance(n, ast.Call):
        f = dotted(n.func)
        for a in n.args:
            k = kd(a)
            if not k:
                continue
            if f in ("list", "tuple", "enumerate", "iter", "zip", "map", "filter", "reversed", "dict", "deque", "collections.deque", "dict.fromkeys", "str", "repr", "print", "format", "itertools.chain", "chain", "np.array", "np.asarray", "json.dumps", "yaml.dump", "yaml.safe_dump", "OrderedDict"):
                if f == "map" and n.args.index(a) == 0:
                    continue
                return k, n, result(n, f)
            if f in ("sorted", "min", "max") and any(x.arg == "key" for x in n.keywords):
                # ties keep the accidental order
                key = next(x.value for x in n.keywords if x.arg == "key")
                if dotted(key) in ("str", "repr"):
                    return k, n, "ok"
                return k, n, f + " with ties"
            if f in ("sorted", "min", "max") or f in SAFE:
                return k, n, "ok"
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend", "writelines", "appendleft"):
                return k, n, n.func.attr
        if isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args and not n.keywords and kd(n.func.value) == "set":
            return "set", n, "pop"
    elif isinstance(n, ast.Starred) and kd(n.value):
        q = par.get(n)
        return kd(n.value), n, "ok" if isinstance(q, ast.Set) else "unpacking"
    elif isinstance(n, ast.FormattedValue) and kd(n.value) == "set":
        return "set", n, "text"
    elif isinstance(n, ast.YieldFrom) and kd(n.value):
        return kd(n.value), n, "yield"
    elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and kd(n.value):
        return kd(n.value), n, "+="
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.List)) and len(n.targets[0].elts) > 1 and kd(n.value):
        return kd(n.value), n, "unpacking"
    elif isinstance(n, ast.Return) and n.value is not None and kd(n.value) == "listing":
        return "listing", n, "return"
    return None


def orders(p):
    K = Kinds(p)
    for m, f in K.funcs:
        par = parents(f.node)
        for n in own_nodes(f.node):
            h = consumption(n, K, f, m, par)
            if h:
                yield f, h[1], h[0], h[2]


# ---------------------------------------------------------------- identity, random draws, clock

CLOCK = {"time.time", "time.time_ns", "time.monotonic", "time.monotonic_ns", "time.perf_counter", "time.perf_counter_ns", "time.localtime", "time.gmtime", "time.strftime", "time.ctime",
         "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today",
         "uuid.uuid1", "uuid.uuid4", "secrets.token_hex", "secrets.token_bytes", "secrets.token_urlsafe", "os.urandom", "os.getpid", "tempfile.mktemp"}
ELAPSED = {"time.time", "time.time_ns", "time.monotonic", "time.monotonic_ns", "time.perf_counter", "time.perf_counter_ns"}
SEEDED = {"random.Random", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator"}


def called(p, f, m, c):
    n = ext_name(p, f, m, c.func)
    if n and n.startswith("builtins."):
        n = n[9:]
    return n


def hash_uses(p):
    """(function, node, what) of id() and hash() results used as identity."""
    for m in p.modules.values():
        for f in p.all_funcs(m, nested=True):
            calls = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and len(n.args) == 1 and called(p, f, m, n) in ("id", "hash")]
            if not calls:
                continue
            par = parents(f.node)
            for c in calls:
                which = called(p, f, m, c)
                q = par.get(c)
                if which == "hash":
                    good = f.node.name == "__hash__"
                    yield f, c, "hash", good
                    continue
                # an address is only meaningful while the object lives: compare with `is`, or use it only within this call
                arg = ast.unparse(c.args[0])
                alive = any(isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops)
                            and arg in [ast.unparse(x) for x in [n.left] + n.comparators] for n in own_nodes(f.node))
                good = alive
                if not good:
                    good = local_only(c, f, par)
                if not good and isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in ("pop", "discard", "remove"):
                    good = True     # forgetting an entry
                yield f, c, "id", good


def local_only(c, f, par):
    """The value goes only into comparisons or containers created in this function and not handed out."""
    q = par.get(c)
    if isinstance(q, (ast.Tuple, ast.NamedExpr)):
        return local_only(q, f, par)
    if isinstance(q, ast.Compare):
        return all(isinstance(x, (ast.Name, ast.Call)) for x in [q.left] + q.comparators) and not any(isinstance(x, ast.Name) and x.id not in made(f) | set(f.params) and any(isinstance(o, (ast.In, ast.NotIn)) for o in q.ops) for x in q.comparators)
    if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name):
        n = q.targets[0].id
        if any(isinstance(g, (ast.Global, ast.Nonlocal)) and n in g.names for g in own_nodes(f.node)):
            return False
        return all(local_only(x, f, par) for x in own_nodes(f.node) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load))
    if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in ("add", "discard", "get", "setdefault", "pop", "append"):
        return isinstance(q.func.value, ast.Name) and q.func.value.id in made(f) | set(f.params)
    if isinstance(q, ast.Subscript) and q.slice is c:
        return isinstance(q.value, ast.Name) and q.value.id in made(f) | set(f.params)
    if isinstance(q, (ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Set)):
        return True
    return False


def made(f):
    """Local names bound to fresh containers; of the enclosing functions as well."""
    out = set()
    while f is not None:
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Name) and (isinstance(n.value, (ast.Dict, ast.Set, ast.List, ast.SetComp, ast.DictComp, ast.ListComp)) or isinstance(n.value, ast.Call) and dotted(n.value.func) in ("set", "dict", "list", "defaultdict", "collections.defaultdict", "OrderedDict")):
                    out.add(t.id)
        f = f.outer
    return out


def random_draws(p):
    """(function, node, name, good): drawing is left to functions that say so in their name."""
    says = lambda f: "rand" in f.node.name.lower() or f.outer is not None and says(f.outer)
    drawing = {}
    for m in p.modules.values():
        for f in p.all_funcs(m, nested=True):
            for c in own_nodes(f.node):
                if not isinstance(c, ast.Call):
                    continue
                n = called(p, f, m, c)
                if n is None or n in ("random.seed", "numpy.random.seed"):
                    continue
                if n in SEEDED:
                    yield f, c, n, bool(c.args or c.keywords) or says(f)
                elif n.startswith(("random.", "numpy.random.", "secrets.choice", "secrets.randbelow")):
                    if says(f):
                        drawing[f] = n
                    yield f, c, n, says(f)
    for m in p.modules.values():
        for f in p.all_funcs(m, nested=True):
            for c in own_nodes(f.node):
                if isinstance(c, ast.Call):
                    t = resolve_call(p, f, c)
                    if t in drawing:
                        yield f, c, t.qual, says(f)


def slots(p):
    """(function, node, source, good, slot) for every clock reading and generated id."""
    callers = {}
    sources = []
    for m in p.modules.values():
        for f in p.all_funcs(m, nested=True):
            for c in own_nodes(f.node):
                if not isinstance(c, ast.Call):
                    continue
                n = called(p, f, m, c)
                if n in CLOCK:
                    sources.append((m, f, c, n))
                t = resolve_call(p, f, c)
                if isinstance(t, FuncInfo):
                    callers.setdefault(t, []).append((m, f, c))
    for m, f, c, n in sources:
        seen = set()
        for slot, good in reach(p, f, c, n, callers, seen, 0):
            yield f, c, n, good, slot


def reach(p, f, x, src, callers, seen, depth):
    """Slots that the value of node x fills."""
    if (f, id(x)) in seen or depth > 12:
        return
    seen.add((f, id(x)))
    par = parents(f.node)
    q = par.get(x)
    go = lambda y: reach(p, f, y, src, callers, seen, depth + 1)
    named = lambda s: (s, bool(s and IDWORD.search(s)))
    if q is None or isinstance(q, (ast.Expr,)):
        return
    if isinstance(q, ast.Attribute):
        yield from go(q)
    elif isinstance(q, ast.Call) and q.func is x:
        yield from go(q)
    elif isinstance(q, (ast.Call, ast.keyword)):
        call = q if isinstance(q, ast.Call) else par.get(q)
        d = dotted(call.func) or ""
        if d in ("str", "int", "float", "format", "repr", "round", "bool"):
            yield from go(call)
            return
        if isinstance(q, ast.keyword) and q.arg:
            yield named(q.arg)
            return
        if isinstance(q, ast.Call):
            t = resolve_call(p, f, call)
            if isinstance(t, FuncInfo):
                ps = t.params[1:] if t.cls is not None and t.params[:1] in (["self"], ["cls"]) else t.params
                i = call.args.index(x)
                yield named(ps[i] if i < len(ps) else None)
                return
            if isinstance(t, ClassInfo):
                i = call.args.index(x)
                yield named(t.fields[i] if i < len(t.fields) else None)
                return
            if isinstance(call.func, ast.Attribute) and call.func.attr in ("setdefault", "get") and len(call.args) == 2 and call.args[1] is x:
                yield named(call.args[0].value if isinstance(call.args[0], ast.Constant) else None)
                return
            if isinstance(call.func, ast.Attribute) and call.func.attr in ("add", "append"):
                yield named(ast.unparse(call.func.value).split(".")[-1])
                return
        yield ("argument of " + d, d.split(".")[-1] in ("Path", "join", "mkdir", "print", "info", "debug", "warning", "error", "sleep", "fromtimestamp", "strftime"))
    elif isinstance(q, (ast.FormattedValue, ast.JoinedStr, ast.BinOp, ast.IfExp, ast.BoolOp, ast.Tuple, ast.Starred, ast.Await, ast.NamedExpr)):
        if isinstance(q, ast.BinOp) and isinstance(q.op, ast.Sub) and src in ELAPSED:
            yield "elapsed time", True
            return
        yield from go(q)
    elif isinstance(q, ast.Compare):
        ok = all(isinstance(o, (ast.In, ast.NotIn)) for o in q.ops) or src in ELAPSED
        yield "comparison", ok
    elif isinstance(q, ast.Dict):
        i = q.values.index(x) if x in q.values else None
        k = q.keys[i] if i is not None else None
        yield named(k.value if isinstance(k, ast.Constant) else ast.unparse(k) if k is not None else None)
    elif isinstance(q, (ast.Assign, ast.AnnAssign)):
        for t in (q.targets if isinstance(q, ast.Assign) else [q.target]):
            if isinstance(t, ast.Name):
                if f.cls is not None and False:
                    pass
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Name) and n.id == t.id and isinstance(n.ctx, ast.Load):
                        yield from go(n)
            elif isinstance(t, ast.Attribute):
                yield named(t.attr)
            elif isinstance(t, ast.Subscript):
                yield named(t.slice.value if isinstance(t.slice, ast.Constant) else ast.unparse(t.slice))
            else:
                yield "unpacking", False
    elif isinstance(q, (ast.Return, ast.Lambda)):
        if isinstance(q, ast.Lambda):
            yield from go(q)
            return
        for m2, g, c in callers.get(f, ()):
            yield from reach(p, g, c, src, callers, seen, depth + 1)
    elif isinstance(q, ast.Subscript) and q.slice is x:
        yield "key of a mapping", True
    elif isinstance(q, (ast.While, ast.If)) and src in ELAPSED:
        yield "condition", True
    else:
        yield type(q).__name__, False


def snippet(n):
    s = ast.unparse(n)
    return s if len(s) <= 60 else s[:57] + "..."


def run(ctx):
    p = ctx.p
    selftests(ctx)
    per = {}
    total = 0
    for f, n, kind, how in orders(p):
        total += 1
        if how == "ok":
            per[f] = per.get(f, 0) + 1
        else:
            ctx.bad("accidental-order", "%s:%s" % (f.qual, snippet(n)), "the arbitrary order of %s decides the result: %s (%s)" % (WHAT[kind], snippet(n), how), "%s:%d" % (f.module.rel, n.lineno))
    for f, k in per.items():
        ctx.ok("accidental-order", f.qual, "%d order-insensitive uses" % k)
    ctx.floor("uses of sets and listings", total, 20)
    hs = 0
    for f, c, which, good in hash_uses(p):
        hs += 1
        ctx.check(good, "identity", "%s:%s" % (f.qual, snippet(c)), "%s stands for the object's identity: %s" % ("a hash, which two different values can share," if which == "hash" else "an address, which another object can have later,", snippet(c)), "%s:%d" % (f.module.rel, c.lineno))
    ctx.floor("id() and hash() calls", hs, 2)
    rd = 0
    for f, c, n, good in random_draws(p):
        rd += 1
        ctx.check(good, "random-draw", "%s:%s" % (f.qual, n), "a random draw (%s) decides the result of %s" % (n, f.qual), "%s:%d" % (f.module.rel, c.lineno))
    ctx.floor("random draws", rd, 5)
    sl = 0
    for f, c, n, good, slot in slots(p):
        sl += 1
        ctx.check(good, "clock-or-id", "%s:%s:%s" % (f.qual, n, slot), "the value of %s fills %s, which is neither an identifier nor a time stamp" % (n, slot), "%s:%d" % (f.module.rel, c.lineno))
    ctx.floor("clock and id slots", sl, 12)


SELF = '''
import os, random, time, uuid
from typing import Dict, List, Set

NAMES = {"a", "b"}

class C:
    def __init__(self):
        self.seen = set()
        self.graph: Dict[str, Set[str]] = {}

def part(x) -> Set[str]:
    return {x.name, x.kind}

def bad_list(xs): return list({x.name for x in xs})
def bad_loop(xs, out):
    s = set(xs)
    for x in s: out.append(x)
def bad_pick(xs): return next(iter(set(xs)))
def bad_pop(c): return c.seen.pop()
def bad_join(): return ", ".join(NAMES)
def bad_text(x): return f"{part(x)}"
def bad_graph(c, n): return [m for m in c.graph.get(n, set())]
def bad_tie(x): return sorted(part(x), key=len)
def bad_dict(x): return {n: 1 for n in part(x)}
def bad_keys(d, e): return [k for k in d.keys() & e.keys()]
def bad_first(x):
    for n in part(x):
        if n: return n
def bad_param(): return helper_bad({"x", "y"})
def helper_bad(q): return [z for z in q]
def bad_last(x):
    r = None
    for n in part(x): r = n
    return r
def bad_dir(d):
    for f in os.listdir(d):
        if f: return f
def good_sorted(xs): return sorted({x.name for x in xs})
def good_any(c, y): return any(z == y for z in c.seen) and "q" in c.seen
def good_build(x, out: set):
    for n in part(x): out.add(n)
def good_mark(x, n):
    normals = [0] * n
    for i in part(x): normals[i] = 1
    return normals
def good_numbers(n): return list({i for i in range(n)})
def good_two(x):
    avail = [b for b in part(x) if b]
    return sorted([str(b) for b in avail])
def good_exists(x):
    for n in part(x):
        if n == "z": return True
    return False
def good_later(x):
    l = list(part(x))
    l.sort()
    return l
def good_dir(d): return sorted(os.listdir(d))
def bad_hash(a, d): return d[hash(a)]
def bad_id(a): CACHE[id(a)] = 1
def good_id(a):
    seen = set()
    seen.add(id(a))
    return id(a) in seen
def good_idcheck(a):
    e = CACHE.get(id(a))
    return e is not None and e[0] is not a
CACHE = {}
def bad_draw(): return random.random()
def randomThing(): return random.random()
def bad_draw2(): return randomThing()
def bad_clock(d): d["height"] = time.time()
def bad_clock2(): return {"name": str(uuid.uuid4())}
def good_clock(d): d["createdAt"] = time.time()
def fresh(): return str(uuid.uuid4())
def good_id2(d): d["entityId"] = fresh()
def bad_id3(d): d["layer"] = fresh()
'''


def selftests(ctx):
    import os
    import tempfile
    from ..project import Project
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, "src", "yapcad"))
        with open(os.path.join(d, "src", "yapcad", "__init__.py"), "w"):
            pass
        with open(os.path.join(d, "src", "yapcad", "x.py"), "w") as fp:
            fp.write(SELF)
        p = Project(d)
        o = list(orders(p))
        bad = {f.node.name for f, n, k, h in o if h != "ok"}
        want = {n for n in ("bad_list bad_loop bad_pick bad_pop bad_join bad_text bad_graph bad_tie bad_dict bad_keys bad_first helper_bad bad_last bad_dir").split()}
        ctx.selftest("order-sensitive uses are found and others are not: %s" % sorted(bad ^ want), bad == want)
        h = {f.node.name for f, c, w, g in hash_uses(p) if not g}
        ctx.selftest("hashes and addresses used as identity are found: %s" % sorted(h), h == {"bad_hash", "bad_id"})
        r = {f.node.name for f, c, n, g in random_draws(p) if not g}
        ctx.selftest("random draws are found: %s" % sorted(r), r == {"bad_draw", "bad_draw2"})
        s = {(f.node.name, sl) for f, c, n, g, sl in slots(p) if not g}
        ctx.selftest("clock and id values in other slots are found: %s" % sorted(s), s == {("bad_clock", "height"), ("bad_clock2", "name"), ("fresh", "layer")})
