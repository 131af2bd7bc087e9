"""Small vocabulary shared by the rules."""
from __future__ import annotations

import ast
import copy

from .flow import C, FALSE, NONE, TRUE, Engine, Policy, mentions, show, subterms, fname
from .project import AnchorError, ClassInfo, FuncInfo, dotted, walk_own


class Pol(Policy):
    """Policy with callbacks given as keyword arguments."""

    def __init__(self, inline=None, on_event=None, track=None, fact_key=None, on_fact=None, call_hook=None,
                 may_raise=None, **kw):
        self._inline, self._on_event, self._track = inline, on_event, track
        self._fact_key, self._on_fact, self._hook, self._may_raise = fact_key, on_fact, call_hook, may_raise
        for k, v in kw.items():
            setattr(self, k, v)

    def inline(self, eng, fi, depth):
        if self._inline is None:
            return fi.module is eng.entry.module
        if callable(self._inline):
            return self._inline(eng, fi, depth)
        return fi.module.name in self._inline

    def on_event(self, ev, state, eng):
        if self._on_event:
            self._on_event(ev, state, eng)

    def track(self, ev, state):
        return bool(self._track and self._track(ev, state))

    def fact_key(self, atom):
        return bool(self._fact_key and self._fact_key(atom))

    def on_fact(self, atom, val, state):
        if self._on_fact:
            self._on_fact(atom, val, state)

    def call_hook(self, eng, term, state, node):
        return self._hook(eng, term, state, node) if self._hook else None

    def may_raise(self, term):
        return self._may_raise(term) if self._may_raise else True


def iscall(t, *names):
    """t is a call whose callee is one of names: 'ext.dotted', repo qualname, or '.method'."""
    if t[0] != "call":
        return False
    f = t[1]
    for n in names:
        if n.startswith("."):
            if f[0] == "attr" and f[2] == n[1:]:
                return True
            if f[0] == "ext" and f[1].endswith(n):
                return True
        elif f[0] in ("ext", "fn", "class", "localfn") and f[1] == n:
            return True
        elif f[0] == "attr" and fname(f) == n:
            return True
    return False


def calls_in(t, *names):
    return [x for x in subterms(t) if x[0] == "call" and iscall(x, *names)]


def arg(t, name=None, pos=None):
    if name is not None:
        for k, v in t[3]:
            if k == name:
                return v
    if pos is not None and pos < len(t[2]):
        return t[2][pos]
    return None


def mentions_term(t, x):
    return any(y == x for y in subterms(t))


def alts(t):
    return sorted(t[1], key=repr) if t[0] == "phi" else [t]


def strip_sites(t):
    """Term with call-site identities removed (structural comparison)."""
    if isinstance(t, frozenset):
        return frozenset(strip_sites(x) for x in t)
    if isinstance(t, tuple):
        if t and t[0] == "call":
            return ("call",) + tuple(strip_sites(x) for x in t[1:4])
        if t and t[0] in ("list", "dict", "set") and len(t) == 3:
            return (t[0], strip_sites(t[1]))
        return tuple(strip_sites(x) for x in t)
    return t


def strconst_prefix(t):
    """Leading literal text of a string-valued term."""
    if t[0] == "const" and isinstance(t[1], str):
        return t[1]
    if t[0] == "fstr" and t[1]:
        return strconst_prefix(t[1][0])
    if t[0] == "bin" and t[1] in ("Add", "Mod"):
        return strconst_prefix(t[2])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "format":
        return strconst_prefix(t[1][1])
    return ""


def own_calls(fn):
    for n in walk_own(fn):
        if isinstance(n, ast.Call):
            yield n


def resolve_call(p, fi, call):
    """What a call expression denotes by name resolution (no dataflow)."""
    d = dotted(call.func)
    if d is None:
        return None
    return p.resolve_dotted(fi.module, d, p.local_imports(fi))


def ext_name(p, fi, expr):
    d = dotted(expr)
    if d is None:
        return None
    r = p.resolve_dotted(fi.module, d, p.local_imports(fi))
    if isinstance(r, tuple) and r[0] == "ext":
        return r[1]
    if isinstance(r, FuncInfo) or isinstance(r, ClassInfo):
        return r.qual
    if r is None:
        import builtins
        if hasattr(builtins, d.split(".")[0]):
            return d
    return None


class Unknown(Exception):
    pass


def peval(t, env):
    """Value of a term when the terms in `env` have the given Python values; Unknown otherwise."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "const":
        return t[1]
    if k == "not":
        return not peval(t[1], env)
    if k == "cmp":
        return atom_val(t[1], env)
    if k == "bin":
        import operator as o
        ops = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod, "Pow": o.pow}
        if t[1] in ops:
            return ops[t[1]](peval(t[2], env), peval(t[3], env))
    if k == "call" and t[1][0] == "ext" and not t[3] and t[1][1] in ("bool", "int", "abs", "float", "max", "min", "str", "len"):
        return {"bool": bool, "int": int, "abs": abs, "float": float, "max": max, "min": min, "str": str, "len": len}[t[1][1]](*[peval(x, env) for x in t[2]])
    if k in ("tuple", "list"):
        return [peval(x, env) for x in t[1]]
    if k == "or" or k == "and":
        vs = [peval(x, env) for x in t[1:]]
        return (any if k == "or" else all)(vs)
    raise Unknown(show(t, 3))


def atom_val(a, env):
    k = a[0]
    if k == "truth":
        return bool(peval(a[1], env))
    x = peval(a[1], env)
    if k == "isinstance":
        raise Unknown("isinstance")
    y = peval(a[2], env)
    if k == "eq":
        return x == y
    if k == "lt":
        return x < y
    if k == "le":
        return x <= y
    if k == "in":
        return x in y
    raise Unknown(k)


def feasible(st, env):
    """No fact of the path is contradicted when the terms in `env` have the given values."""
    for a, v in st.facts.items():
        try:
            if atom_val(a, env) != v:
                return False
        except Exception:
            continue
    return True


def round_func(f, loop):
    """One round of a loop as a function: every name it uses is a parameter."""
    mine = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    names = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - set(mine)
    node = copy.copy(f.node)
    node.args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in mine + sorted(names)], vararg=None,
                              kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
    node.body = loop.body
    node.returns = None
    return FuncInfo(f.module, node, f.cls, f)
