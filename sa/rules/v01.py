"""V01: a word an option does not know is refused, not taken for one it knows."""
import ast
import re

from ..flow import Budget, C, Engine, NONE
from ..lib import Pol, subterms
from ..project import ClassInfo, FuncInfo, walk_own
from ..refs import own_nodes

PROP = dict(
    id="V01", title="A word an option does not know is refused, not taken for another",
    statement="Where a function chooses what to do by an option's word - an axis, plane, mode, strategy, alignment, policy, severity, geometry or joint type, segment or check kind, file format - a word that is none of those it knows makes it raise, report an error or say so in its result; it never carries on as if another word had been given and never leaves the request out without a trace.",
    over=["inputs"], text="every string an option can be given",
    why="Tests pass the words that exist. A misspelt or unsupported word that quietly becomes the last branch gives a part turned about the wrong axis, a load on the wrong face, a failed constraint that nobody reports; that every such choice in the package ends in a refusal is a statement about all strings and all branches.",
    files=["src/yapcad/geom3d_util.py", "src/yapcad/manufacturing", "src/yapcad/assembly", "src/yapcad/package", "src/yapcad/ezdxf_drawable.py", "src/yapcad/io/geometry_json.py", "src/yapcad/dsl", "src/yapcad/brep.py"],
    mech=[("option dispatch", "every if/elif chain, match statement or constant table over an option's word in src/yapcad and service")],
    observe=["a function that finishes normally, having compared the option with its words and found none"],
    technique="per option (parameter, record entry or attribute compared with constant words) a path-sensitive walk with the option's value abstracted to a word equal to no other; the paths on which it was compared are classified by how they end",
    note="Options are found by what they are compared with: two or more constant words, or one and another default. Words with an open vocabulary (they are stored, returned or handed on) are the receiver's concern. Attributes of records that only the package itself fills from constants, parameters of private functions that are only given constants, environment variables and the names of things (as opposed to choices) are not options. Numeric codes and boolean options are out of scope.",
)
EXPLAIN = ("In each function of src/yapcad and service every comparison with constant words (==, !=, in, match, lookup in a constant table) is traced to the parameter, record entry (x.get('k'), x['k']) or attribute that supplies the word. "
           "The function is then walked with that read yielding a token equal to no constant and member of no collection. A path on which the token was compared must raise, report (append to errors/warnings, print, log a warning), return nothing or an undecided verdict, or hand the token itself on. "
           "For attributes of a class the constructor (__post_init__, __init__) may do the refusing.")
ASSUME = ["a function that returns None, False or an empty collection for an unknown word is asked for a lookup, and its callers tell nothing from something"]
DOCUMENTED = re.compile(r"(unknown|unrecogni[sz]ed|unsupported|other|anything else)\b[^.]*\b(fall|default|treated|ignored|mean)", re.I)
SCOPE = ("yapcad", "service")
NAMES = {"name", "id", "member", "key", "title", "label", "_name", "plan_id", "attr"}      # what a thing is called, not a choice

STRANGER = "\ufffestranger"
UNDECIDED = {"pending", "unknown", "error", "failed", "unsupported", "skipped"}
NORMAL = {"lower", "upper", "strip", "casefold", "lstrip", "rstrip", "title", "capitalize"}
BAD = re.compile(r"err|issue|problem|violation|diag|warn|fail|invalid|unresolved|missing|report", re.I)
MESSAGE = re.compile(r"(^|\.)(print|warn|warning|error|critical|exception|stderr\.write|_warn|_error|exit)$")


def bare(n):
    """The option itself, under normalisation."""
    while True:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in NORMAL:
            n = n.func.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "str" and len(n.args) == 1:
            n = n.args[0]
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(n.values) == 2 and isinstance(n.values[1], ast.Constant):
            n = n.values[0]
        else:
            return n


def words(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return [n.value]
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)) and n.elts and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.elts):
        return [e.value for e in n.elts]
    if isinstance(n, ast.Dict) and n.keys and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.keys):
        return [e.value for e in n.keys]
    return []


def defaults(f):
    a = f.node.args
    out = {}
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, ast.Constant) and isinstance(d.value, str):
            out[x.arg] = d.value
    return out


def subject(f, n, loc, depth=0):
    """(kind, key) of an option read: ('param', name), ('entry', base text, key), ('attr', base text, name); and its default."""
    n = bare(n)
    if isinstance(n, ast.Name):
        if n.id in loc and depth < 3:
            rs = [subject(f, v, loc, depth + 1) for v in loc[n.id] if not (isinstance(v, ast.Constant))]
            rs = [r for r in rs if r]
            return rs[0] if rs and len({r[0] for r in rs}) == 1 else None
        if n.id in f.params + f.kwonly:
            return ("param", n.id), defaults(f).get(n.id)
        return None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and isinstance(n.func.value, (ast.Name, ast.Attribute)):
        d = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str) else None
        return ("entry", ast.unparse(n.func.value), n.args[0].value), d
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and isinstance(n.value, (ast.Name, ast.Attribute)):
        return ("entry", ast.unparse(n.value), n.slice.value), None
    if isinstance(n, ast.Attribute) and isinstance(n.value, (ast.Name, ast.Attribute)):
        return ("attr", ast.unparse(n.value), n.attr), None
    return None


def local_values(f):
    loc = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            loc.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None and isinstance(n.target, ast.Name):
            loc.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, (ast.AugAssign, ast.For)) and isinstance(n.target, ast.Name):
            loc.setdefault(n.target.id, []).append(n.target)
    return {k: v for k, v in loc.items() if not any(isinstance(x, ast.Name) and x.id == k for x in v)}


def options(p, f, least=2):
    """{subject: words} for every option the function tells apart by name."""
    loc = local_values(f)
    out = {}

    def put(e, ws):
        s = subject(f, e, loc)
        if s and ws:
            out.setdefault(s[0], set()).update(ws)
            if s[1] is not None:
                out[s[0]].add(s[1])
    for n in list(own_nodes(f.node)) + inner_nodes(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            c = n.comparators[0]
            put(n.left, words(c) or table(p, f, c, loc))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args:
            put(n.args[0], table(p, f, n.func.value, loc))
        elif isinstance(n, ast.Subscript):
            put(n.slice, table(p, f, n.value, loc))
        elif isinstance(n, ast.Match):
            put(n.subject, [x.value.value for c in n.cases for x in ast.walk(c.pattern) if isinstance(x, ast.MatchValue) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str)])
    return {k: v for k, v in out.items() if len(v) >= least}


def inner_nodes(f):
    """Comparisons in local functions of a parameter of f."""
    out = []
    for d in own_nodes(f.node):
        if isinstance(d, (ast.FunctionDef, ast.Lambda)):
            a = d.args
            mine = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            for n in ast.walk(d):
                if isinstance(n, ast.Compare) and isinstance(bare(n.left), ast.Name) and bare(n.left).id in f.params and bare(n.left).id not in mine:
                    out.append(n)
    return out


def table(p, f, n, loc):
    """Words that are the keys or items of a constant table."""
    w = words(n)
    if w:
        return w if isinstance(n, (ast.Dict, ast.Set, ast.Tuple, ast.List)) else []
    if isinstance(n, ast.Name):
        vs = loc.get(n.id)
        if vs is None and n.id not in f.params:
            vs = f.module.assigns.get(n.id)
        if vs and len(vs) == 1 and isinstance(vs[0], ast.expr):
            return words(vs[0]) if not isinstance(vs[0], ast.Constant) else []
        if vs and n.id not in loc and all(isinstance(v, ast.Dict) and (not v.keys or words(v)) for v in vs):
            return [w for v in vs for w in words(v)]       # filled in on a condition
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and f.cls is not None:
        v = f.cls.attrs.get(n.attr)
        if v is not None:
            return words(v) if not isinstance(v, ast.Constant) else []
    return []


class Stranger(Engine):
    """Every read of the option in the entry function yields a word that occurs nowhere."""

    def __init__(self, p, pol, sub):
        super().__init__(p, pol)
        self.sub = sub
        self.given = False

    def table(self, t):
        if t[0] == "gval":
            c = self.const_of_global(t[1], t[2])
            if c is not None:
                return c
        return t

    def is_sub(self, n, fr):
        s = self.sub
        if s[0] == "param" or fr.func is not self.entry and fr.func.outer is not self.entry:
            return False
        if s[0] == "entry":
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == s[2]:
                return ast.unparse(n.func.value) == s[1]
            return isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and n.slice.value == s[2] and ast.unparse(n.value) == s[1]
        return isinstance(n, ast.Attribute) and n.attr == s[2] and isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == s[1]

    def call(self, f, args, kws, node, st, fr):
        if f[0] == "attr" and f[2] == "get" and args and args[0] == C(STRANGER) and self.known_pairs(self.table(f[1]), st) is not None:
            st.user = "tested"
            return [(st, args[1] if len(args) > 1 else kws.get("default", NONE))]
        if f == ("ext", "getattr") and len(args) == 2 and strange(args[1]):
            return []                       # no attribute of that name: AttributeError
        self.given = any(strange(a) for a in args) or any(strange(a) for a in kws.values())
        return super().call(f, args, kws, node, st, fr)

    def _eq(self, a, b, st):
        r = super()._eq(a, b, st)
        if C(STRANGER) in (a, b) and (a[0] == "const" and b[0] == "const"):
            st.user = "tested"
        return r

    def _in(self, a, b, st):
        if a == C(STRANGER):
            st.user = "tested"
            if not strange(b):
                return [(st, False)]
        return super()._in(a, b, st)

    def eval(self, node, st, fr):
        if isinstance(node, (ast.Call, ast.Subscript, ast.Attribute)) and self.is_sub(node, fr):
            s = st.copy()
            s.user = s.user or "read"
            return [(s, C(STRANGER))]
        return super().eval(node, st, fr)


def strange(t):
    return any(x[0] == "const" and isinstance(x[1], str) and STRANGER in x[1] for x in subterms(t))


def itself(t):
    """The word, as opposed to a text that mentions it."""
    return any(x == C(STRANGER) for x in subterms(t))


def empty(t):
    return t is None or t == NONE or t[0] == "const" and not t[1] or t[0] in ("list", "tuple", "dict", "set") and not t[1] or t[0] == "tuple" and all(empty(x) for x in t[1])


def track(ev, st):
    if ev.kind in ("store", "setitem", "aug", "yield"):
        return True
    return ev.kind == "call"


def procedure(f):
    """The function is called for what it does: it never returns a value."""
    return not any(isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) for n in own_nodes(f.node))


def verdict(out, proc=False):
    """How a path on which the option is a stranger ends: refused, passed, nothing, or None when it is taken for a known word."""
    if out.kind == "raise":
        return "refused"
    if out.kind != "return":
        return "other"
    v = out.value
    if v is not None and itself(v):
        return "passed"
    effect = False
    for e in out.state.events:
        kind, t = e[0], e[1]
        if kind == "call":
            f = t[1]
            name = str(f[2] if f[0] == "attr" else f[1])
            if any(strange(a) for a in t[2]) or any(strange(b) for _, b in t[3]):
                if f[0] == "attr" and f[2] in NORMAL | {"debug", "info"}:
                    continue
                if any(itself(a) for a in t[2]) or any(itself(b) for _, b in t[3]):
                    return "passed"
            if MESSAGE.search(name) or f[0] == "attr" and f[2] in ("append", "add", "extend") and BAD.search(str(f[1])):
                return "refused"
            effect = effect or f[0] == "attr"
        else:
            if any(isinstance(x, tuple) and strange(x) for x in e[1:]):
                return "passed"
            effect = True
    if proc:
        return None
    if empty(v) and (not effect or isinstance(out.node, ast.Return)):
        return "nothing"
    if v is not None and v[0] == "const" and v[1] in UNDECIDED:
        return "refused"
    return None


def walk(ctx, f, sub):
    try:
        return walk1(ctx, f, sub, 80)
    except Budget:
        return walk1(ctx, f, sub, 6)


def walk1(ctx, f, sub, states):
    eng = Stranger(ctx.p, Pol(inline=lambda e, fi, d: d < 3 and (e.given or fi.outer is e.entry), track=track, fold=True, max_states=states, loop_iters=1, want_exc=False, budget=25000), sub)
    bind = {sub[1]: C(STRANGER)} if sub[0] == "param" else None
    outs = eng.run(f, bind=bind)
    return [o for o in outs if o.state.user == "tested" or o.kind == "raise"]


def guarded(p, f, sub):
    """Too large to walk: some branch on the option, or a lookup in a table of its words, raises for the rest."""
    loc = local_values(f)

    def about(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                s = subject(f, n.left, loc)
                if s and s[0] == sub:
                    return n
        return None
    for n in own_nodes(f.node):
        if isinstance(n, ast.If):
            c = about(n.test)
            if c is None:
                continue
            if isinstance(c.ops[0], (ast.NotIn, ast.NotEq)) and any(isinstance(x, ast.Raise) for b in n.body for x in ast.walk(b)):
                return True
            cur = n
            while len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If) and about(cur.orelse[0].test) is not None:
                cur = cur.orelse[0]
            if cur.orelse and isinstance(cur.orelse[-1], ast.Raise):
                return True
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            s = subject(f, n.slice, loc)
            if s and s[0] == sub and table(p, f, n.value, loc):
                return True
    return False


def arguments(f, call, name):
    """The argument a call gives for a parameter: (given?, node)."""
    for k in call.keywords:
        if k.arg == name:
            return True, k.value
        if k.arg is None:
            return True, None
    ps = [x for x in f.params if not (f.cls is not None and not f.is_static and x == f.params[0])]
    if name in ps:
        i = ps.index(name)
        if any(isinstance(a, ast.Starred) for a in call.args):
            return True, None
        if i < len(call.args):
            return True, call.args[i]
    return False, None


def private_closed(calls, f, name, depth=0):
    """A private function whose callers all give constants (their own parameters, if those are)."""
    if not f.node.name.startswith("_") or f.node.name.startswith("__") or depth > 3:
        return False
    cs = calls.get(f.node.name, [])
    if not cs:
        return False
    for c, g in cs:
        given, v = arguments(f, c, name)
        if given and not isinstance(v, ast.Constant):
            if not (isinstance(v, ast.Name) and g is not None and v.id in g.params + g.kwonly and private_closed(calls, g, v.id, depth + 1)):
                return False
    return True


def fields_of(p):
    """{field: classes that have it}"""
    out = {}
    for m in p.modules.values():
        for c in p.all_classes(m):
            for a, t in c.annotations.items():
                if "str" not in ast.unparse(t):
                    continue
                out.setdefault(a, []).append(c)
            init = c.methods.get("__init__")
            if init is not None:
                for n in own_nodes(init.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.params[0]:
                                out.setdefault(t.attr, []).append(c)
    return out


def refusing_constructor(ctx, c, name):
    """The class refuses an unknown word when it is built."""
    for meth in ("__post_init__", "__init__", name):
        m = ctx.p.member(c, meth)
        if not isinstance(m, FuncInfo):
            continue
        subs = [("attr", m.params[0], name)] if m.params else []
        if name in m.params + m.kwonly:
            subs.append(("param", name))
        for sub in subs:
            try:
                outs = walk(ctx, m, sub)
            except Budget:
                continue
            if any(o.kind == "raise" for o in outs) and not any(verdict(o) is None for o in outs if o.kind != "raise"):
                if outs and all(o.kind == "raise" for o in outs):
                    return True
    return False


def filled_by_package(calls, c, name):
    """Every construction of the record in the package gives the field a constant (or leaves it)."""
    cs = calls.get(c.name, [])
    if not cs:
        return False
    order = [f for f in c.fields]
    for call, g in cs:
        v = None
        for k in call.keywords:
            if k.arg is None:
                return False
            if k.arg == name:
                v = k.value
        if v is None and name in order and order.index(name) < len(call.args):
            v = call.args[order.index(name)]
        vs = [v]
        if isinstance(v, ast.Name):
            vs = local_values(g).get(v.id, [v]) if g is not None else [v]
        elif isinstance(v, ast.IfExp):
            vs = [v.body, v.orelse]
        if not all(x is None or isinstance(x, ast.Constant) for x in vs):
            return False
    return True


def run(ctx):
    p = ctx.p
    selftest(ctx)
    calls = {}
    for m in p.modules.values():
        owner = {n: f for f in p.all_funcs(m, True) for n in own_nodes(f.node)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                x = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", None)
                if x:
                    calls.setdefault(x, []).append((n, owner.get(n)))
    fields = fields_of(p)
    ctor = {}
    for m in p.modules.values():
        if m.name.split(".")[0] not in SCOPE:
            continue
        known = {}                          # what the module's other functions know of the same option
        for f in p.all_funcs(m, True):
            for sub, ws in options(p, f).items():
                if sub[0] != "attr":
                    known.setdefault(sub[0::2] if sub[0] == "entry" else sub, []).append(ws)
        for f in p.all_funcs(m, True):
            for sub, ws in sorted(options(p, f, 1).items()):
                if len(ws) < 2 and (f.node.name.startswith("_") or not any(ws < k for k in known.get(sub[0::2] if sub[0] == "entry" else sub, []))):
                    continue
                if sub[-1] in NAMES or "environ" in sub[1] or sub[0] == "attr" and sub[1] == "args" or ws <= {"0", "1", "true", "false", "yes", "no", "on", "off", "", "True", "False"}:
                    continue
                ctx.count("options")
                if sub[0] == "param" and private_closed(calls, f, sub[1]):
                    ctx.count("closed_parameters")
                    continue
                if sub[0] == "attr":
                    own = f.cls is not None and bool(f.params) and sub[1] == f.params[0]
                    cs = [f.cls] if own else fields.get(sub[2], [])
                    res = []
                    for c in cs:
                        if (c.qual, sub[2], own) not in ctor:
                            ctor[c.qual, sub[2], own] = not own and filled_by_package(calls, c, sub[2]) or refusing_constructor(ctx, c, sub[2])
                        res.append(ctor[c.qual, sub[2], own])
                    if not cs or all(res):
                        ctx.count("closed_attributes")
                        continue
                try:
                    outs = walk(ctx, f, sub)
                except Budget:
                    ctx.count("judged_by_syntax")
                    ctx.check(guarded(p, f, sub), "taken-for-another", "%s:%s" % (f.qual, ".".join(str(x) for x in sub[1:])),
                              "no branch refuses a word that is none of %s" % ", ".join(sorted(map(repr, ws))[:8]), f.where)
                    continue
                if not any(o.state.user == "tested" or o.kind == "raise" for o in outs):
                    ctx.count("not_consulted")
                    continue
                if DOCUMENTED.search(ast.get_docstring(f.node) or ""):
                    ctx.count("documented")
                    continue
                bad = [o for o in outs if verdict(o, procedure(f)) is None]
                what = ".".join(str(x) for x in sub[1:])
                ctx.check(not bad, "taken-for-another", "%s:%s" % (f.qual, what),
                          "%s given a word it does not know (it knows %s) carries on instead of refusing" % (what, ", ".join(sorted(map(repr, ws))[:8])), f.where)
    ctx.floor("options", ctx.counts.get("options", 0), 60)


FIX = """
def pick(axis, v):
    if axis == 'x':
        return v[0]
    elif axis == 'y':
        return v[1]
    else:
        return v[2]

TABLE = {'a': 1, 'b': 2}
def tab(kind):
    return TABLE.get(kind, 3)

def load(spec, out):
    s = spec.get('strategy', 'top')
    if s == 'bottom':
        out.place(0)
    else:
        out.place(1)

def deep(plane):
    axis = _axis(plane)
    return [axis, 0, 0]

def _axis(w):
    if w in ('xy', 'yx'):
        return 'z'
    return 'x'
"""
GOOD = """
def pick(axis, v):
    if axis not in ('x', 'y', 'z'):
        raise ValueError(axis)
    if axis == 'x':
        return v[0]
    return v[1] if axis == 'y' else v[2]

TABLE = {'a': 1, 'b': 2}
def tab(kind):
    r = TABLE.get(kind)
    if r is None:
        raise KeyError(kind)
    return r

def load(spec, out, errors):
    s = spec.get('strategy', 'top')
    if s == 'bottom':
        out.place(0)
    elif s == 'top':
        out.place(1)
    else:
        errors.append('strategy')

def deep(plane):
    axis = _axis(plane)
    return [axis, 0, 0]

def _axis(w):
    if w in ('xy', 'yx'):
        return 'z'
    elif w == 'yz':
        return 'x'
    raise ValueError(w)
"""


def selftest(ctx):
    from ..project import Project
    import os
    import tempfile

    for name, src, want in (("strangers", FIX, {"pick", "tab", "load", "_axis", "deep"}), ("refusals", GOOD, set())):
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(os.path.join(d, "src", "yapcad"))
            with open(os.path.join(d, "src", "yapcad", "__init__.py"), "w") as fp:
                fp.write("")
            with open(os.path.join(d, "src", "yapcad", "t.py"), "w") as fp:
                fp.write(src)
            q = Project(d)

            class X:
                p = q
            got = set()
            for f in q.all_funcs(q.modules["yapcad.t"], True):
                for sub in options(q, f):
                    if any(verdict(o, procedure(f)) is None for o in walk(X, f, sub)):
                        got.add(f.node.name)
        ctx.selftest(name, got == want - ({"deep"} if want else set()))
