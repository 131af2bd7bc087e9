"""Shared knowledge about the DSL implementation used by the D rules."""
from __future__ import annotations

import ast

from .lib import *

INTERP = "yapcad.dsl.runtime.interpreter"
CONTEXT = "yapcad.dsl.runtime.context"
CHECKER = "yapcad.dsl.checker"
PARSER = "yapcad.dsl.parser"
AST = "yapcad.dsl.ast"
CREATE = (("fn", CONTEXT + ".create_context"), ("class", CONTEXT + ".ExecutionContext"))
RESULT = ("class", INTERP + ".ExecutionResult")


def icls(p):
    return p.cls(INTERP + ".Interpreter")


def evaluators(p):
    """The two recursive dispatchers of the interpreter."""
    return p.func(INTERP + ".Interpreter._evaluate"), p.func(INTERP + ".Interpreter._execute_statement")


def inline_interp(p, stop=("_evaluate", "_execute_statement"), also=()):
    mods = {INTERP} | set(also)

    def f(eng, fi, depth):
        return fi.module.name in mods and fi.name not in stop
    return f


def erase_ctx(eng, term, st, node):
    """A context is identified by where it was created, not by what it was created with."""
    if term[1] in CREATE:
        ev = _Created(term, node, eng)
        eng.pol.on_event(ev, st, eng)
        return [(st, ev.term)]
    return None


class _Created:
    kind = "create"
    args = ()

    def __init__(self, term, node, eng):
        self.term = ("call", CREATE[0], (), ()) + term[4:]
        self.full = term
        self.where = "%s:%d" % (eng.entry.module.rel, node.lineno)


def is_ctx(t):
    return t[0] == "call" and t[1] == CREATE[0]


def is_eval(t):
    """Call of a dispatcher (the engine does not follow those)."""
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("_evaluate", "_execute_statement")


def dispatch_outs(ctx, fi, cls, on_event=None, stop=None, **kw):
    """Walk a dispatcher for a node known to be exactly of class `cls`."""
    prm = ("param", fi.params[1])
    stop = stop if stop is not None else (fi.name,)
    own = fi.module.name

    def inl(eng, f, depth):
        return f.module.name == own and f.name not in stop
    pol = Pol(inline=inl, on_event=on_event, call_hook=erase_ctx, **kw)
    return ctx.walk(fi, pol, facts={("exact", prm, ("class", cls.qual)): True}, types={prm: cls})


def node_classes(p, base):
    """Concrete AST classes under `base` (aliases resolved away)."""
    m = p.mod(AST)
    b = p.cls(AST + "." + base)
    return [c for c in p.all_classes(m) if b in p.mro(c) and c is not b]


def constructed(p, modname):
    """Class -> list of construction sites (ast.Call, FuncInfo) in a module."""
    m = p.mod(modname)
    out = {}
    for f in p.all_funcs(m):
        for c in own_calls(f.node):
            r = resolve_call(p, f, c)
            if isinstance(r, ClassInfo):
                out.setdefault(r.qual, []).append((c, f))
    return out


# -- access paths of AST nodes -------------------------------------------------
def path_of(t, node):
    """Field path by which term t is reached from AST node `node`, or None."""
    if t == node:
        return ()
    if t[0] == "attr":
        b = path_of(t[1], node)
        return None if b is None else b + (t[2],)
    if t[0] in ("elem", "item"):
        return path_of(t[1], node)
    if t[0] == "call":
        f = t[1]
        if f[0] == "attr" and f[2] in ("items", "values", "keys", "copy", "get"):
            return path_of(f[1], node)
        if f[0] == "ext" and f[1] in ("enumerate", "list", "tuple", "reversed", "sorted", "iter", "zip") and t[2]:
            for x in t[2]:
                r = path_of(x, node)
                if r:
                    return r
    return None


def paths_in(t, node):
    out = set()
    for x in subterms(t):
        r = path_of(x, node)
        if r:
            out.add(r)
    return out


def ann_text(ci, field):
    fs = {}
    for s in ci.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            fs[s.target.id] = s.annotation
    return fs.get(field)


def _ann_names(a):
    out = []
    for n in ast.walk(a):
        if isinstance(n, ast.Name):
            out.append(n.id)
        elif isinstance(n, ast.Attribute):
            out.append(n.attr)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                out += _ann_names(ast.parse(n.value, mode="eval").body)
            except SyntaxError:
                pass
    return out


def children(p, ci, roots=("Expression", "Statement", "Block"), _seen=()):
    """Paths of the executable children of an AST class; helper nodes are expanded."""
    m = p.mod(AST)
    out = []
    for c in reversed(p.mro(ci)):
        for s in c.node.body:
            if not (isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)):
                continue
            f = s.target.id
            for nm in _ann_names(s.annotation):
                k = p.sym(AST, nm)
                if not isinstance(k, ClassInfo) or k.module is not m:
                    continue
                names = {x.name for x in p.mro(k)}
                if names & set(roots):
                    if (f,) not in out:
                        out.append((f,))
                elif k.name not in ("AstNode", "TypeNode") and "TypeNode" not in names and k.qual not in _seen:
                    for sub in children(p, k, roots, _seen + (k.qual,)):
                        if (f,) + sub not in out:
                            out.append((f,) + sub)
    return out


def absent(st, node, path):
    """Path facts say that nothing is there at `path` (a prefix is None, empty or of another kind)."""
    for a, v in st.facts.items():
        if a[0] == "truth" and v is False or a[0] == "eq" and v is True and NONE in a[1:] or a[0] == "isinstance" and v is False and str(a[2]).rstrip("')").endswith(("dict", "list", "Block")) \
                or a[0] in ("eq", "lt", "le") and any(x[0] == "call" and iscall(x, "len") for x in a[1:] if isinstance(x, tuple)):
            x = a[1] if a[0] != "eq" or a[1] != NONE else a[2]
            if a[0] in ("eq", "lt", "le") and not (x[0] == "call" and iscall(x, "len")):
                x = next((y for y in a[1:] if isinstance(y, tuple) and iscall(y, "len")), x)
                if a[0] in ("lt", "le") and (v if a[1] == x else not v) is False:
                    continue
            if x[0] == "call" and iscall(x, "len") and x[2]:
                x = x[2][0]
                if v is False and a[0] == "eq":
                    continue
            r = path_of(x, node)
            if r and r == path[:len(r)]:
                return True
    return False


def whole(visits, node, path):
    """The visits together reach every element at `path`, not a slice or a single one."""
    idx, frm = set(), []
    for t in visits:
        for x in t[2]:
            if path_of(x, node) != path:
                continue
            part = None
            for y in subterms(x):
                if y[0] == "item" and path_of(y, node) is not None:
                    k = y[2]
                    if k[0] == "const" and isinstance(k[1], int) and path_of(y[1], node) and y[1][0] == "attr":
                        part = ("idx", k[1])
                    elif k[0] == "slice":
                        lo, hi, st = k[1:4]
                        if hi != NONE or st not in (NONE, C(1)):
                            part = ("some",)
                        elif lo not in (NONE, C(0)):
                            part = ("from", lo[1]) if lo[0] == "const" else ("some",)
            if part is None:
                return True
            if part[0] == "idx":
                idx.add(part[1])
            elif part[0] == "from":
                frm.append(part[1])
    return any(all(i in idx for i in range(k)) for k in frm)


def ident(n):
    """An opaque object made up by a rule."""
    return ("param", "$" + n)
