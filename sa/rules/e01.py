"""E01: an operation returns its result or raises."""
import ast
import re
import os
import tempfile

from ..project import FuncInfo, Project
from ..refs import chain, own_nodes

PROP = dict(
    id="E01", title="An operation returns its result or raises, never silently nothing",
    statement="A yapCAD function that produces a result does so on every path on which it ends normally: no branch, unmatched kind of input, exhausted search or swallowed exception makes it end without the result it otherwise returns, and a function declared to return a value never returns None instead. An error that is constructed is raised, a comparison or value that is computed as a statement is not meant as an assignment or check, the missing value of an in-place list or dictionary operation is never used as its result, and no finally block discards an exception or result.",
    over=["inputs", "fault_sequences"], text="all paths through all functions",
    why="The path that ends without a result is the one nobody thought of, so no test takes it; the None surfaces later, in another function, as a wrong or missing shape.",
    files=["src/yapcad", "service"],
    mech=[("all functions", "src/yapcad/**/*.py, service/**/*.py")],
    observe=["None where a point, curve, solid, report or syntax node is expected"],
    technique="path-completeness (definite-return) analysis over the syntax tree with an interprocedural never-returns fixpoint, plus value-of-statement lints",
    note="Functions that never return normally (they always raise) are found by a fixpoint, so a trailing call of one counts as the end of the path.",
)
EXPLAIN = ("For every function with at least one value-returning path, each path's end is classified (return value, raise, never-returning call, endless loop); an end without value is a violation. Declared return types without None are compared with explicit None returns. "
           "Expression statements, uses of the value of in-place operations, and jumps out of finally blocks are listed and judged.")
ASSUME = ["a loop over cumulative lengths that is entered with a parameter inside the interval finds its element"]
# Searches over cumulative lengths: the total is the sum of the same terms in the same order, so the last element is found for every parameter below one.
SEARCH = {"yapcad.geom.samplegeomlist", "yapcad.geom.samplepoly", "yapcad.poly.Polygon.sample"}
INPLACE = {"append", "extend", "insert", "reverse", "sort", "clear"}


class Flow:
    def __init__(self, p, funcs):
        self.p = p
        self.never = set()
        for _ in range(6):
            new = {f for f in funcs if f not in self.never and not f.is_generator and self.never_returns(f)}
            if not new:
                break
            self.never |= new

    def never_returns(self, f):
        if any(isinstance(n, ast.Return) for n in own_nodes(f.node)) or "abstractmethod" in " ".join(f.decorators):
            return False
        body = f.node.body
        # a stub is not a function that always raises
        if len(body) <= 2 and isinstance(body[-1], ast.Raise) and body[-1].exc is not None and "NotImplemented" in ast.unparse(body[-1].exc):
            return False
        return not self.seq(f, body)

    def seq(self, f, body):
        """Can control pass the end of these statements?"""
        return all(self.falls(f, s) for s in body) if body else True

    def falls(self, f, s):
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If):
            return self.seq(f, s.body) or self.seq(f, s.orelse)
        if isinstance(s, ast.While):
            if isinstance(s.test, ast.Constant) and s.test.value:
                return breaks(s)
            return True
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if endless(self.p, f, s):
                return breaks(s)
            if s.orelse and not breaks(s):
                return self.seq(f, s.orelse)
            return True
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            if s.finalbody and not self.seq(f, s.finalbody):
                return False
            b = self.seq(f, s.body) and self.seq(f, s.orelse)
            return b or any(self.seq(f, h.body) for h in s.handlers)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            if any("suppress" in ast.unparse(i.context_expr) for i in s.items):
                return True
            return self.seq(f, s.body)
        if isinstance(s, ast.Match):
            if any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases):
                return any(self.seq(f, c.body) for c in s.cases)
            return True
        if isinstance(s, ast.Assert):
            return not (isinstance(s.test, ast.Constant) and not s.test.value)
        v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(v, ast.Await):
            v = v.value
        if isinstance(v, ast.Call):
            r = target(self.p, f, v)
            if r in ("sys.exit", "os._exit", "builtins.exit", "exit", "quit"):
                return False
            if r in self.never:
                return False
        return True


def breaks(loop):
    """A break that leaves this loop."""
    todo = list(loop.body)
    while todo:
        s = todo.pop()
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            todo += s.orelse
            continue
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo += [c for c in ast.iter_child_nodes(s) if isinstance(c, (ast.stmt, ast.ExceptHandler)) or c.__class__.__name__ == "match_case"]
    return False


def endless(p, f, s):
    it = s.iter
    if isinstance(it, ast.Call):
        r = chain(p, f, f.module, it.func)
        return isinstance(r, tuple) and r[0] == "ext" and r[1] in ("itertools.count", "itertools.repeat", "itertools.cycle") and (r[1] != "itertools.repeat" or len(it.args) < 2)
    return False


def target(p, f, call):
    if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id in ("self", "cls"):
        g = f
        while g.cls is None and g.outer is not None:
            g = g.outer
        if g.cls is not None:
            m = p.member(g.cls, call.func.attr)
            if isinstance(m, FuncInfo):
                # an override may return
                if any(call.func.attr in c.methods for c in p.subclasses(g.cls) if c is not g.cls):
                    return None
                return m
        return None
    r = chain(p, f, f.module, call.func)
    if isinstance(r, FuncInfo):
        return r
    return r[1] if isinstance(r, tuple) and r[0] == "ext" else None


def none(e):
    return e is None or (isinstance(e, ast.Constant) and e.value is None)


def value_returns(f):
    return [r for r in own_nodes(f.node) if isinstance(r, ast.Return) and not none(r.value)]


def boolish(e):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, bool)
    return isinstance(e, (ast.Compare, ast.BoolOp)) and not isinstance(e, ast.BoolOp) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not))


def declared(a):
    """The declared return type excludes None."""
    if a is None:
        return False
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return False
    s = ast.unparse(a)
    return not any(w in s for w in ("Optional", "None", "Any", "object", "Iterator", "Iterable", "Generator", "NoReturn"))


def judge(ctx, p, funcs):
    F = Flow(p, funcs)
    for f in funcs:
        if f.is_generator or f.name == "__init__":
            continue
        vals = value_returns(f)
        if not vals:
            # declared to return something, but never does
            if declared(f.node.returns) and not stub(f) and F.seq(f, f.node.body):
                ctx.bad("declared-result", f.qual, "%s is declared to return %s but ends without a value" % (f.qual, ast.unparse(f.node.returns)), f.where)
            continue
        pred = all(boolish(r.value) for r in vals)
        # functions that answer None as well say so at some return, or in their declared type
        says_none = any(isinstance(r, ast.Return) and none(r.value) for r in own_nodes(f.node)) or (f.node.returns is not None and not declared(f.node.returns))
        falls = F.seq(f, f.node.body)
        if f.node.returns is not None and declared(f.node.returns):
            bare = [r for r in own_nodes(f.node) if isinstance(r, ast.Return) and none(r.value)]
            ctx.check(not bare, "declared-result", f.qual, "%s is declared to return %s but returns None" % (f.qual, ast.unparse(f.node.returns)), "%s:%d" % (f.module.rel, bare[0].lineno) if bare else f.where)
        if f.qual in SEARCH:
            ctx.count("searches accepted")
            continue
        ok = not falls or pred or (says_none and f.node.returns is not None and not declared(f.node.returns))
        ctx.check(ok, "definite-result", f.qual, "%s returns a result on some paths and ends without one on another" % f.qual, "%s:%d" % (f.module.rel, (f.node.body[-1]).lineno) if not ok else f.where)
        if not pred:
            bare = [r for r in own_nodes(f.node) if isinstance(r, ast.Return) and r.value is None]
            if bare and not f.name.startswith("on_") and not (f.node.returns is not None and not declared(f.node.returns)):
                ctx.bad("bare-return", f.qual, "%s returns a result on some paths and nothing on another" % f.qual, "%s:%d" % (f.module.rel, bare[0].lineno))


def silent_none(ctx, p, funcs):
    """An explicit None among results: announced (type, docstring) or expected by somebody who calls."""
    sites = {}
    parents = {}
    for f in funcs:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                x = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", None)
                if x:
                    sites.setdefault(x, []).append((n, f))
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[c] = n

    def announced(f):
        a = f.node.returns
        if a is not None and not declared(a):
            return True
        about, skip = [], False
        for line in (ast.get_docstring(f.node) or "").splitlines():
            w = line.strip()
            if re.match(r"(:param|:type|args:|arguments:|parameters:|kwargs:|parameters$)", w, re.I):
                skip = True                 # what it takes, not what it gives
            elif re.match(r":(return|rtype|raises)|(returns?|yields|raises|notes?|examples?):?", w, re.I) or not w:
                skip = False
            if not skip:
                about.append(w)
        return bool(re.search(r"\b(None|null)\b|\bnone\b", " ".join(about)))

    def tests(g, name):
        for n in own_nodes(g.node):
            if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and none(n.comparators[0]) and ast.unparse(n.left) == name:
                return True
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and truth(n.test, name):
                return True
            if isinstance(n, ast.BoolOp) and any(truth(v, name) for v in n.values):
                return True
            if isinstance(n, ast.comprehension) and any(truth(v, name) for v in n.ifs):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "bool", "any", "all", "filter") and name in [ast.unparse(a) for a in n.args]:
                return True
        return False

    def truth(t, name):
        if isinstance(t, ast.NamedExpr):
            return truth(t.target, name)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return truth(t.operand, name)
        if isinstance(t, ast.BoolOp):
            return any(truth(v, name) for v in t.values)
        return ast.unparse(t) == name

    def expected(f, depth=0):
        for n, g in sites.get(f.name, ()):
            if g is f:
                continue
            x, q = n, parents.get(n)
            while isinstance(q, (ast.NamedExpr, ast.IfExp)) and x is not getattr(q, "test", None):
                if isinstance(q, ast.NamedExpr) and tests(g, ast.unparse(q.target)):
                    return True
                x, q = q, parents.get(q)
            if isinstance(q, (ast.If, ast.While, ast.BoolOp, ast.UnaryOp, ast.IfExp, ast.comprehension)):
                return True
            if isinstance(q, ast.Compare) and any(none(c) for c in [q.left] + q.comparators):
                return True
            if isinstance(q, (ast.Assign, ast.AnnAssign)):
                ts = q.targets if isinstance(q, ast.Assign) else [q.target]
                if any(tests(g, ast.unparse(t)) for t in ts):
                    return True
                if any(isinstance(o, ast.Assign) and none(o.value) and {ast.unparse(t) for t in o.targets} & {ast.unparse(t) for t in ts} for o in own_nodes(g.node)):
                    return True             # the caller itself uses None for the absent result
                if depth < 3 and any(isinstance(t, ast.Name) for t in ts) and any(
                        isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id == t.id for t in ts if isinstance(t, ast.Name) for r in own_nodes(g.node)) \
                        and (announced(g) or expected(g, depth + 1)):
                    return True
            if isinstance(q, ast.Call) and f.name.startswith("_"):
                return True                 # handed on: the receiver's concern
            if isinstance(q, ast.Return) and depth < 3 and (announced(g) or expected(g, depth + 1)):
                return True
        return False
    for f in funcs:
        if f.is_generator or f.name.startswith("on_"):
            continue
        vals = value_returns(f)
        nones = [r for r in own_nodes(f.node) if isinstance(r, ast.Return) and r.value is not None and none(r.value)]
        if not vals or not nones or all(boolish(r.value) for r in vals) or announced(f):
            continue
        ctx.count("functions answering None")
        # nothing for nothing: None for a parameter that is None or empty
        if all(absent(f, r) for r in nones):
            continue
        ctx.check(f.qual in SEARCH or expected(f), "unannounced-none", f.qual,
                  "%s returns None on some path; neither its type nor its description says so and no caller looks for it" % f.qual,
                  "%s:%d" % (f.module.rel, nones[0].lineno))


def absent(f, r):
    """This None answers a parameter that is None or empty."""
    for n in own_nodes(f.node):
        if isinstance(n, ast.If) and r in n.body:
            for t in (n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) else [n.test]):
                if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Is, ast.Eq)) and none(t.comparators[0]):
                    t = t.left
                elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t = t.operand
                else:
                    continue
                if isinstance(t, ast.Name):
                    return True
    return False


def stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body) or (f.cls is not None and any("Protocol" in ast.unparse(b) or "ABC" in ast.unparse(b) for b in f.cls.base_nodes) and not body)


def statements(ctx, p):
    n = 0
    for m in p.modules.values():
        parents = {}
        for x in ast.walk(m.tree):
            for c in ast.iter_child_nodes(x):
                parents[c] = x
        fn = {}

        def owner(x):
            while x in parents:
                x = parents[x]
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    return x.name
            return m.name
        for x in ast.walk(m.tree):
            where = "%s:%d" % (m.rel, getattr(x, "lineno", 0))
            if isinstance(x, ast.Expr):
                v = x.value
                if isinstance(v, ast.Call):
                    n += 1
                    t = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
                    made = t[:1].isupper() and t.endswith(("Error", "Exception"))
                    ctx.check(not made, "error-raised", "%s %s" % (m.rel, owner(x)), "an error is constructed and dropped: %s" % ast.unparse(v)[:60], where)
                elif isinstance(v, (ast.Compare, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.Tuple, ast.List, ast.Dict, ast.Lambda, ast.JoinedStr)):
                    ctx.bad("statement-acts", "%s %s" % (m.rel, owner(x)), "a value is computed and dropped: %s" % ast.unparse(v)[:60], where)
                elif isinstance(v, ast.Constant) and not isinstance(v.value, str) and v.value is not Ellipsis and v.value is not None:
                    pass
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in INPLACE and not x.keywords:
                par = parents.get(x)
                # the object is a list or dictionary as far as the source tells: made by a display, comprehension, list(), dict(), deepcopy() or a slice
                if isinstance(par, (ast.Expr, ast.Lambda)) or (isinstance(par, ast.IfExp) and isinstance(parents.get(par), ast.Expr)) or isinstance(par, (ast.BoolOp, ast.Await)):
                    continue
                if listy(p, m, x.func.value, parents):
                    ctx.bad("in-place-value", "%s %s" % (m.rel, owner(x)), "the (missing) value of %s is used" % ast.unparse(x)[:60], where)
            elif isinstance(x, ast.Try):
                for s in x.finalbody:
                    for y in jumps(s):
                        ctx.bad("finally-keeps", "%s %s" % (m.rel, owner(x)), "a jump out of finally drops the exception or result on its way", "%s:%d" % (m.rel, y.lineno))
    ctx.count("call statements", n)


def jumps(s, loop=False):
    if isinstance(s, ast.Return):
        yield s
    elif isinstance(s, (ast.Break, ast.Continue)):
        if not loop:
            yield s
    elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        for c in ast.iter_child_nodes(s):
            yield from jumps(c, loop or isinstance(s, (ast.For, ast.While, ast.AsyncFor)))


def listy(p, m, e, parents):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
        return True
    if isinstance(e, ast.Call):
        t = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        return t in ("deepcopy", "list", "dict", "set", "copy", "sorted", "setdefault", "get")
    if isinstance(e, ast.Name):
        x = e
        while x in parents and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
            x = parents[x]
        stores = [s for s in ast.walk(x) if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == e.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))]
        return bool(stores) and all(s.value is not None and not isinstance(s.value, ast.Name) and listy(p, m, s.value, parents) for s in stores)
    return False


SELF = '''
def fail(x):
    raise ValueError(x)
def dispatch(x):
    if isinstance(x, int):
        return 1
    elif isinstance(x, str):
        return 2
def closed(x):
    if isinstance(x, int):
        return 1
    fail(x)
def found(xs):
    for x in xs:
        if x:
            return [x]
    return None
def flip(x):
    y = list(x).reverse()
    return y
def forgot(x):
    if x < 0:
        ValueError("negative")
    return [x]
def lost(x):
    try:
        return [x]
    finally:
        return None
'''


class Probe:
    def __init__(self):
        self.v = {}

    def bad(self, rule, construct, msg, where=""):
        self.v.setdefault(rule, []).append(construct.split(".")[-1].split(" ")[-1])

    def check(self, c, rule, construct, msg, where=""):
        if not c:
            self.bad(rule, construct, msg)

    def count(self, *a):
        pass


def selftest(ctx):
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, "src", "yapcad"))
        for n, s in (("__init__", ""), ("t", SELF)):
            with open(os.path.join(d, "src", "yapcad", n + ".py"), "w") as fh:
                fh.write(s)
        p = Project(d)
        t = Probe()
        judge(t, p, [f for m in p.modules.values() for f in p.all_funcs(m)])
        statements(t, p)
        ctx.selftest("missing branch", t.v.get("definite-result") == ["dispatch"])
        ctx.selftest("in-place value", t.v.get("in-place-value") == ["flip"])
        ctx.selftest("dropped error", t.v.get("error-raised") == ["forgot"])
        ctx.selftest("finally", t.v.get("finally-keeps") == ["lost"])


def run(ctx):
    p = ctx.p
    selftest(ctx)
    funcs = [f for m in p.modules.values() for f in p.all_funcs(m)]
    for m in p.modules.values():
        p.consulted.add(m.name)
    n = sum(1 for f in funcs if value_returns(f))
    ctx.floor("functions with a result", n, 1600)
    judge(ctx, p, funcs)
    silent_none(ctx, p, funcs)
    statements(ctx, p)
