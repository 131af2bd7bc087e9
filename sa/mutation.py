"""Which of its arguments a function may change, and which parts of them its result shares: an interprocedural alias analysis.

A value is a set of (root, made, up): made is the tuple of keys leading through levels made here to the part of root that the
tuple of keys up leads to.  None stands for any key; both tuples are capped.  A root is a parameter name, ('global', module,
name) or ('default', function, parameter)."""
from __future__ import annotations

import ast

from .project import ClassInfo, FuncInfo, dotted
from .refs import chain

CAP = 6
SHALLOW = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "dict", "copy.copy", "OrderedDict", "deque", "next_"}
MUTATORS = {"append", "extend", "insert", "sort", "reverse", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "popitem", "appendleft", "popleft", "extendleft", "fill", "__setitem__"}
ADDERS = {"append": 1, "add": 1, "insert": 1, "appendleft": 1, "setdefault": 1, "extend": 0, "update": 0, "extendleft": 0}
EMPTY = frozenset()


def same(a, b):
    """May the keys a and b be the same?  ('ge', n) is any index from n on."""
    if a is None or b is None or a == b:
        return True
    if isinstance(a, tuple):
        return isinstance(b, tuple) or (isinstance(b, int) and (b < 0 or b >= a[1]))
    return isinstance(b, tuple) and same(b, a)


def child(v, k=None):
    out = set()
    for r, d, u in v:
        if not d:
            out.add((r, d, (u + (k,))[:CAP]))
        elif same(d[0], k):
            out.add((r, d[1:], u))
    return small(out)


def shallow(v):
    """A copy of the outermost level of v, whose keys need not be those of v."""
    return small((r, (None,) + d[1:], u) if d else (r, (None,), (u + (None,))[:CAP]) for r, d, u in v)


def copied(v):
    """A copy of the outermost level of v with the same keys."""
    return small((r, d, u) if d else (r, (None,), (u + (None,))[:CAP]) for r, d, u in v)


def wrap(v, k=None):
    return small((r, ((k,) + d)[:CAP], u) for r, d, u in v)


def small(v):
    v = frozenset(v)
    if len(v) > 60:
        v = frozenset((r, (None,) * len(d), (None,) * len(u)) for r, d, u in v)
    return v


def const(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, str)):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return None
    return None


class Summary:
    __slots__ = ("muts", "rets", "why")

    def __init__(self):
        self.muts = {}          # (root changed, keys leading to what is changed in it) -> guards under which it happens
        self.rets = frozenset()
        self.why = {}           # (root, keys) -> (module rel, line, callee FuncInfo or None, callee key)

    def roots(self):
        return {r for r, _ in self.muts}

    def key(self, root):
        return min((k for k in self.muts if k[0] == root), key=lambda k: (len(k[1]), str(k[1])), default=None)


class Mutation:
    def __init__(self, p, funcs=None, rounds=8):
        self.p = p
        self.sum = {}
        self.funcs = funcs or [f for m in p.modules.values() for f in p.all_funcs(m, False)]
        for f in self.funcs:
            self.sum[f] = Summary()
        for self.round in range(rounds):
            changed = False
            for f in self.funcs:
                s = self.sum[f]
                before = ({k: set(v) for k, v in s.muts.items()}, s.rets)
                Walker(self, f).run()
                changed |= before != (s.muts, s.rets)
            if not changed:
                break

    def path(self, f, root, n=8):
        out = []
        root = self.sum[f].key(root)
        while n and f in self.sum and root in self.sum[f].why:
            rel, line, g, r2 = self.sum[f].why[root]
            out.append("%s:%d %s" % (rel, line, f.qual.split(".")[-1]))
            if g is None:
                break
            f, root, n = g, r2, n - 1
        return out


class Walker:
    def __init__(self, M, fi):
        self.M, self.p, self.fi, self.s = M, M.p, fi, M.sum[fi]
        self.rets = set(self.s.rets)
        self.guard = frozenset()
        self.rebound = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        a = fi.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def test(self, t):
        """(guards where t holds, guards where it does not) for tests of parameters."""
        if isinstance(t, ast.Name) and t.id in self.params and t.id not in self.rebound:
            return {(t.id, True)}, {(t.id, False)}
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.test(t.operand)
            return b, a
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in self.params and t.left.id not in self.rebound and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            k = t.left.id
            if isinstance(t.ops[0], ast.Is):
                return {(k, None)}, {(k, "set")}
            if isinstance(t.ops[0], ast.IsNot):
                return {(k, "set")}, {(k, None)}
        if isinstance(t, ast.BoolOp):
            ab = [self.test(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return set().union(*(a for a, _ in ab)), (ab[0][1] if len(ab) == 1 else set())
            return set(), set().union(*(b for _, b in ab))
        return set(), set()

    def run(self):
        fn = self.fi.node
        a = fn.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        dflt = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        scalar = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None and is_scalar(x.annotation)}
        for i, x in enumerate(params):
            if x in scalar:
                env[x] = EMPTY
                continue
            v = {(x, (), ())}
            if x in dflt and is_mutable_literal(dflt[x]):
                v.add((("default", self.fi.qual, x), (), ()))
            elif x in dflt and isinstance(dflt[x], (ast.Name, ast.Attribute)):
                v |= set(self.expr(dflt[x], {}))
            env[x] = frozenset(v)
        if a.vararg:
            env[a.vararg.arg] = frozenset({(a.vararg.arg, (None,), ())})
        if a.kwarg:
            env[a.kwarg.arg] = frozenset({(a.kwarg.arg, (None,), ())})
        self.block(fn.body, env)
        self.s.rets = frozenset(self.rets)

    # -- statements ------------------------------------------------------
    def block(self, body, env):
        g = self.guard
        for s in body:
            self.stmt(s, env)
            if isinstance(s, ast.If):
                a, b = self.test(s.test)
                if self.block_exits(s.body) and not s.orelse:
                    self.guard |= b
                elif s.orelse and self.block_exits(s.orelse):
                    self.guard |= a
        self.guard = g
        return env

    def join(self, env, *others):
        keys = set().union(*others)
        for k in keys:
            env[k] = frozenset().union(*(o.get(k, EMPTY) for o in others))

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.assign(t, v, s.value, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env), s.value, env)
        elif isinstance(s, ast.AugAssign):
            v = self.expr(s.value, env)
            if isinstance(s.target, ast.Name):
                if self.listish(s.value, env) and isinstance(s.op, ast.Add):
                    self.mutate(env.get(s.target.id, EMPTY), s)
                    env[s.target.id] = env.get(s.target.id, EMPTY) | shallow(v)
            else:
                self.expr(s.target.value, env)
                self.store(s.target, v if isinstance(s.op, ast.Add) else EMPTY, env, s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.expr(t.value, env), s)
        elif isinstance(s, ast.Expr):
            self.expr(s.value, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.expr(s.value, env)
                self.rets |= v
        elif isinstance(s, ast.If):
            self.expr(s.test, env)
            a, b = dict(env), dict(env)
            ta = self.block_exits(s.body)
            tb = self.block_exits(s.orelse) if s.orelse else False
            g = self.guard
            ga, gb = self.test(s.test)
            self.guard = g | ga
            self.block(s.body, a)
            self.guard = g | gb
            self.block(s.orelse, b)
            self.guard = g
            live = [x for x, t in ((a, ta), (b, tb)) if not t]
            if live:
                self.join(env, *live)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.expr(s.iter, env)
            for _ in range(2):
                e = dict(env)
                self.assign(s.target, child(it), None, e)
                self.block(s.body, e)
                self.join(env, dict(env), e)
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                e = dict(env)
                self.expr(s.test, e)
                self.block(s.body, e)
                self.join(env, dict(env), e)
            self.block(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            pre = dict(env)
            self.block(s.body, env)
            hs = []
            for h in s.handlers:
                e = {}
                self.join(e, pre, env)
                self.block(h.body, e)
                if not self.block_exits(h.body):
                    hs.append(e)
            self.block(s.orelse, env)
            self.join(env, dict(env), *hs)
            self.block(s.finalbody, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            e = dict(env)
            for x in ast.walk(s.args):
                if isinstance(x, ast.arg):
                    e[x.arg] = EMPTY
            keep = set(self.rets)
            self.block(s.body, e)
            self.rets = keep
        elif isinstance(s, ast.Match):
            v = self.expr(s.subject, env)
            outs = [dict(env)]
            for c in s.cases:
                e = dict(env)
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        e[n.name] = v | child(v)
                self.block(c.body, e)
                outs.append(e)
            self.join(env, *outs)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for n in ast.iter_child_nodes(s):
                self.expr(n, env)

    @staticmethod
    def block_exits(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def listish(self, e, env):
        if isinstance(e, (ast.List, ast.ListComp, ast.Tuple)):
            return True
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "sorted", "deepcopy"):
            return True
        return bool(e is not None and isinstance(e, ast.BinOp) and (self.listish(e.left, env) or self.listish(e.right, env)))

    def assign(self, t, v, value, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(value.elts)):
                vs = [self.expr(x, env) for x in value.elts]
                for x, w, e in zip(t.elts, vs, value.elts):
                    self.assign(x, w, e, env)
            else:
                star = any(isinstance(x, ast.Starred) for x in t.elts)
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, shallow(v), None, env)
                    else:
                        self.assign(x, child(v, None if star else i), None, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None, env)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.store(t, v, env, t, isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice))

    def store(self, t, v, env, node, spread=False):
        base = self.expr(t.value, env)
        if isinstance(t, ast.Subscript):
            self.expr(t.slice, env)
        self.mutate(base, node)
        keys, b = self.keys(t.value)
        if isinstance(b, ast.Name) and b.id in env:
            w = shallow(v) if spread else wrap(v, const(t.slice) if isinstance(t, ast.Subscript) else t.attr)
            for k in keys:
                w = wrap(w, k)
            env[b.id] = small(env[b.id] | w)

    @staticmethod
    def keys(b):
        """Keys from the innermost outwards of x[a][b].c, and x."""
        out = []
        while isinstance(b, (ast.Subscript, ast.Attribute)):
            out.append(const(b.slice) if isinstance(b, ast.Subscript) else b.attr)
            b = b.value
        return out, b

    def mutate(self, v, node, callee=None, croot=None):
        for r, d, u in v:
            if not d and r not in ("self", "cls"):
                self.record((r, u), self.guard, node, callee, croot)

    def record(self, k, guard, node, callee, ckey):
        gs = self.s.muts.get(k)
        if gs is None:
            gs = self.s.muts[k] = set()
            self.s.why[k] = (self.fi.module.rel, getattr(node, "lineno", 0), callee, ckey)
        if any(g <= guard for g in gs):
            return
        gs -= {g for g in gs if guard <= g}
        gs.add(guard)
        if len(gs) > 6:
            gs.clear()
            gs.add(frozenset())

    # -- expressions -----------------------------------------------------
    def expr(self, e, env):
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        return EMPTY

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        m = self.fi.module
        r = self.p.sym(m.name, e.id)
        g = None
        if isinstance(r, tuple) and r[0] == "value":
            g = (r[1], r[2])
        elif e.id in m.assigns:
            g = (m, e.id)
        if g is not None and any(is_mutable_literal(x) for x in g[0].assigns.get(g[1], [])):
            return frozenset({(("global", g[0].name, g[1]), (), ())})
        return EMPTY

    def e_Attribute(self, e, env):
        r = chain(self.p, self.fi, self.fi.module, e)
        if isinstance(r, tuple) and r[0] == "value" and any(is_mutable_literal(x) for x in r[1].assigns.get(r[2], [])):
            return frozenset({(("global", r[1].name, r[2]), (), ())})
        v = self.expr(e.value, env)
        return child(v, e.attr)

    def e_Subscript(self, e, env):
        v = self.expr(e.value, env)
        self.expr(e.slice, env)
        return shallow(v) if isinstance(e.slice, ast.Slice) else child(v, const(e.slice))

    def e_Starred(self, e, env):
        return self.expr(e.value, env)

    def e_List(self, e, env):
        out = EMPTY
        star = any(isinstance(x, ast.Starred) for x in e.elts)
        for i, x in enumerate(e.elts):
            out |= shallow(self.expr(x.value, env)) if isinstance(x, ast.Starred) else wrap(self.expr(x, env), None if star else i)
        return small(out)
    e_Tuple = e_Set = e_List

    def e_Dict(self, e, env):
        out = EMPTY
        for k, x in zip(e.keys, e.values):
            v = self.expr(x, env)
            out |= copied(v) if k is None else wrap(v, const(k))
        return small(out)

    def e_IfExp(self, e, env):
        self.expr(e.test, env)
        g = self.guard
        a, b = self.test(e.test)
        self.guard = g | a
        v = self.expr(e.body, env)
        self.guard = g | b
        w = self.expr(e.orelse, env)
        self.guard = g
        return v | w

    def e_BoolOp(self, e, env):
        return frozenset().union(*(self.expr(x, env) for x in e.values))

    def e_NamedExpr(self, e, env):
        v = self.expr(e.value, env)
        env[e.target.id] = v
        return v

    def e_Await(self, e, env):
        return self.expr(e.value, env)

    def e_BinOp(self, e, env):
        a, b = self.expr(e.left, env), self.expr(e.right, env)
        if isinstance(e.left, ast.Subscript) and isinstance(e.right, ast.Subscript) and not self.listish(e, env):
            return EMPTY        # a[i] + b[j]: coordinates
        if isinstance(e.op, ast.Add) and isinstance(e.left, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in e.left.elts):
            n = len(e.left.elts)
            return small(a | {(r, (("ge", n),) + d[1:], u) for r, d, u in shallow(b)})
        return shallow(a) | shallow(b) if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)) else EMPTY

    def e_Yield(self, e, env):
        if e.value is not None:
            self.rets |= wrap(self.expr(e.value, env))
        return EMPTY

    def comp(self, e, env, elts):
        x = dict(env)
        for g in e.generators:
            self.assign(g.target, child(self.expr(g.iter, x)), None, x)
            for c in g.ifs:
                self.expr(c, x)
        out = EMPTY
        for t in elts:
            out |= wrap(self.expr(t, x))
        return out

    def e_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, env, [e.value])

    def e_Lambda(self, e, env):
        x = dict(env)
        for a in ast.walk(e.args):
            if isinstance(a, ast.arg):
                x[a.arg] = EMPTY
        self.expr(e.body, x)
        return EMPTY

    def e_Call(self, e, env):
        args = [(self.expr(a.value, env), True) if isinstance(a, ast.Starred) else (self.expr(a, env), False) for a in e.args]
        kws = [(k.arg, self.expr(k.value, env)) for k in e.keywords]
        f = e.func
        if isinstance(f, ast.Name) and f.id in env:
            return EMPTY
        r = chain(self.p, self.fi, self.fi.module, f)
        if isinstance(r, ClassInfo):
            out = EMPTY
            init = self.p.member(r, "__init__")
            if isinstance(init, FuncInfo) and init in self.M.sum:
                self.apply(init, args, kws, e, env, skip=1)
            for v, st in args:
                out |= wrap(v)
            for k, v in kws:
                out |= wrap(v, k)
            return out
        if isinstance(r, FuncInfo):
            if r in self.M.sum:
                return self.apply(r, args, kws, e, env, skip=0)
            return EMPTY
        name = dotted(f) or ""
        q = r[1] if isinstance(r, tuple) and r[0] == "ext" else (name if isinstance(f, ast.Name) else None)
        if q:
            q = q.replace("builtins.", "")
            if q.split(".")[-1] == "deepcopy" or q in ("len", "float", "int", "str", "abs", "sum", "isinstance", "print", "range", "repr", "bool", "id", "hash", "any", "all", "round"):
                return EMPTY
            if q in SHALLOW or q.split(".")[-1] in ("OrderedDict", "deque"):
                return frozenset().union(EMPTY, *(copied(v) if q in ('list', 'tuple', 'dict', 'copy.copy', 'OrderedDict') else shallow(v) for v, _ in args))
            if q in ("enumerate", "zip", "itertools.zip_longest", "itertools.product", "itertools.combinations"):
                return frozenset().union(EMPTY, *(wrap(shallow(v)) for v, _ in args))
            if q in ("filter", "map", "itertools.chain", "itertools.islice"):
                return frozenset().union(EMPTY, *(shallow(v) for v, _ in args[(0 if q.startswith("itertools") else 1):])) if q != "map" else EMPTY
            if q in ("min", "max"):
                if len(args) == 1:
                    return child(args[0][0])
                return frozenset().union(EMPTY, *(v for v, _ in args))
            if q in ("getattr", "next"):
                return child(args[0][0]) if args else EMPTY
            if q in ("setattr", "delattr"):
                self.mutate(args[0][0], e)
            if q in ("random.shuffle", "heapq.heappush", "heapq.heappop", "bisect.insort"):
                self.mutate(args[0][0], e)
            if isinstance(r, tuple):
                return EMPTY
        if isinstance(f, ast.Attribute):
            base = self.expr(f.value, env)
            a = f.attr
            if a in MUTATORS:
                self.mutate(base, e)
                if a in ADDERS and args:
                    v = args[-1][0]
                    keys, b = self.keys(f.value)
                    if isinstance(b, ast.Name) and b.id in env:
                        w = wrap(v, const(e.args[0]) if a == "setdefault" else None) if ADDERS[a] else copied(v) if a == "update" else shallow(v)
                        for k in keys:
                            w = wrap(w, k)
                        env[b.id] = small(env[b.id] | w)
                return child(base, const(e.args[0]) if e.args and a in ('pop', 'setdefault') else None) | (args[-1][0] if a == "setdefault" and len(args) > 1 else EMPTY) if a in ("pop", "setdefault", "popleft", "popitem") else EMPTY
            if a == "copy" and not args:
                return copied(base)
            if a == "get":
                return child(base, const(e.args[0]) if e.args else None) | (args[1][0] if len(args) > 1 else EMPTY)
            if a in ("values", "keys"):
                return shallow(base)
            if a == "items":
                return wrap(shallow(base))
            m = self.method(f, a)
            if m is not None and m in self.M.sum:
                return self.apply(m, [(base, False)] + args, kws, e, env, skip=0)
        elif not isinstance(f, ast.Name):
            self.expr(f, env)
        return EMPTY

    def method(self, f, a):
        """self.m() of the class, or a method name only one class of the program defines."""
        if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and self.fi.cls is not None:
            m = self.p.member(self.fi.cls, a)
            return m if isinstance(m, FuncInfo) else None
        return None

    def apply(self, g, args, kws, node, env, skip):
        """Effects of calling g with these arguments; what its result shares with them."""
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if g.cls is not None and (skip or (names and names[0] in ("self", "cls") and len(args) and False)):
            names = names[1:]
        elif g.cls is not None and names and names[0] == "cls":
            names = names[1:]
        b = {}
        for i, (v, star) in enumerate(args):
            if star:
                for x in names[i:]:
                    b[x] = b.get(x, EMPTY) | child(v)
                if a.vararg:
                    b[a.vararg.arg] = b.get(a.vararg.arg, EMPTY) | child(v)
                break
            if i < len(names):
                b[names[i]] = b.get(names[i], EMPTY) | v
            elif a.vararg:
                b[a.vararg.arg] = b.get(a.vararg.arg, EMPTY) | v
        for k, v in kws:
            if k is None:
                for x in names:
                    b.setdefault(x, EMPTY)
                    b[x] |= child(v)
            elif k in names or any(k == x.arg for x in a.kwonlyargs):
                b[k] = b.get(k, EMPTY) | v
            elif a.kwarg:
                b[a.kwarg.arg] = b.get(a.kwarg.arg, EMPTY) | v
        s = self.M.sum[g]
        nodes = {}
        for i, x in enumerate(node.args):
            if isinstance(x, ast.Starred):
                break
            j = i + len(args) - len(node.args)
            if j < len(names):
                nodes[names[j]] = x
        for k in node.keywords:
            if k.arg:
                nodes[k.arg] = k.value
        spread = any(isinstance(x, ast.Starred) for x in node.args) or any(k.arg is None for k in node.keywords)
        for (r, u), guards in list(s.muts.items()):
            for gd in list(guards):
                gd = self.translate(g, gd, nodes, spread)
                if gd is None:
                    continue
                if isinstance(r, tuple):
                    if r[0] == "global":
                        self.record((r, u), gd | self.guard, node, g, (r, u))
                    continue
                for x, d, w in b.get(r, EMPTY):
                    if len(d) <= len(u) and all(map(same, d, u)) and x not in ("self", "cls"):
                        self.record((x, (w + u[len(d):])[:CAP]), gd | self.guard, node, g, (r, u))
        out = set()
        for r, d, u in s.rets:
            if isinstance(r, tuple):
                if r[0] == "default" and r[1] == g.qual and r[2] in b:
                    continue
                out.add((r, d, u))
                continue
            for x, dp, up in b.get(r, EMPTY):
                if all(map(same, dp, u)):
                    out.add((x, (d + dp[len(u):])[:CAP], (up + u[len(dp):])[:CAP]))
        return small(out)

    def translate(self, g, gd, nodes, spread):
        """Guards of the callee in terms of the caller; None if the arguments rule them out."""
        out = set()
        a = g.node.args
        dflt = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for k, want in gd:
            n = nodes.get(k)
            if n is None and not spread:
                n = dflt.get(k)
            if n is None:
                continue
            if isinstance(n, ast.Constant):
                v = n.value
                ok = (v is None) if want is None else (v is not None) if want == "set" else bool(v) == want
                if not ok:
                    return None
            elif isinstance(n, (ast.Dict, ast.List)) and want is None:
                return None
            elif isinstance(n, ast.Name) and n.id in self.params and n.id not in self.rebound:
                if any(kk == n.id and contradicts(want, ww) for kk, ww in self.guard):
                    return None
                out.add((n.id, want))
        return frozenset(out)


def contradicts(a, b):
    return {a, b} in ({True, False}, {None, "set"}, {True, None})


def is_scalar(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return False
    if isinstance(a, ast.Name):
        return a.id in ("int", "float", "str", "bool", "bytes", "complex")
    if isinstance(a, ast.Constant):
        return a.value is None
    if isinstance(a, ast.BinOp):
        return is_scalar(a.left) and is_scalar(a.right)
    if isinstance(a, ast.Subscript):
        d = dotted(a.value) or ""
        if d.endswith("Literal"):
            return True
        if d.endswith(("Optional", "Union")):
            return all(is_scalar(x) for x in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]))
    return False


def is_mutable_literal(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and (e.func.id in ("list", "dict", "set", "point", "vect", "defaultdict", "OrderedDict"))) or \
        (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("point", "vect"))
