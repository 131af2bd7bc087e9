"""G02: code that treats the elements of a shape by their kind leaves none of them out in silence."""
import ast

from ..refs import own_nodes

PROP = dict(
    id="G02", title="No element of a shape is silently skipped",
    statement="Wherever yapCAD goes through the elements of a shape - a region, sketch, outline, path or list of geometry - and treats them by their kind (point, line, arc, circle, ellipse, spline, polyline, nested list), every element is used or the operation raises: an element of a kind that the code does not know is not passed over, nor is one whose treatment failed. The same holds for functions that treat one element by its kind.",
    over=["inputs"], text="every element kind, in every loop or function that distinguishes element kinds, over every list of geometry",
    why="Tests go through the code with lines and arcs; an element of another kind that is skipped yields a region, outline, package or measure that lacks it, without any error.",
    files=["src/yapcad", "tools/ycpkg_export.py", "service"],
    mech=[("geometry", "src/yapcad/geom.py, poly.py, geom_util.py, geom3d_util.py"), ("serialisation and export", "src/yapcad/io/geometry_json.py, tools/ycpkg_export.py"), ("paths", "src/yapcad/manufacturing/path_utils.py")],
    observe=["a kind-dispatching loop or function with a path on which the element fails every kind test and is not used", "a branch for a kind which does not use the element", "an exception of an element's treatment that is swallowed"],
    technique="path analysis of every kind-dispatching loop body and function: on each path the element must be used or an exception raised",
    note="Decides that every element is used, not that it is used correctly. Filters that only distinguish solids from surfaces select what they collect and are not judged.",
)
EXPLAIN = ("Every loop whose element (the loop variable or one indexed with it) is tested by two or more kind predicates or compared with two or more kind names, and every function that tests a parameter so, is walked path by path; a path that has tested the element's kind and reaches the next iteration (or the function's end) without using the element in anything but those tests, "
           "and an exception handler around a use that neither raises nor uses the element, are violations.")
ASSUME = ["an element that occurs in a statement other than a kind test or a log or warning is treated by it"]

PRED = {"ispoint", "isline", "isarc", "ispoly", "isgeomlist", "iscatmullrom", "isnurbs", "isbezier", "isbspline", "isellipse", "isparabola", "ishyperbola", "iscircle", "ispolygon", "istriangle", "isvect", "is_catmullrom", "is_nurbs", "isgeom"}
KINDS = {"line", "arc", "circle", "full_circle", "tilted_circle", "ellipse", "polyline", "catmullrom", "nurbs", "bezier", "bspline", "parabola", "hyperbola", "point", "spline"}
LOUD = {"print", "warn", "warning", "debug", "info", "error", "log", "exception"}


def fname(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""


def selects(e, names):
    """the expression reads a part of one of the names (seg['type'], seg.get('kind'), seg.kind, seg[0])"""
    part = False
    while True:
        if isinstance(e, (ast.Subscript, ast.Attribute)):
            e, part = e.value, True
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "lower", "strip", "upper"):
            e, part = e.func.value, True
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1:
            e = e.args[0]
        elif isinstance(e, ast.BoolOp):
            e = e.values[0]
        else:
            return e.id if part and isinstance(e, ast.Name) and e.id in names else None


def consts(e):
    if isinstance(e, ast.Constant):
        return {e.value} & KINDS if isinstance(e.value, str) else set()
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return set().union(*[consts(x) for x in e.elts]) if e.elts else set()
    return set()


# kinds that a function leaves out by design
ON_PURPOSE = {"yapcad.poly.Polygon.__init__": {"isline"}}  # a polygon's lines follow from its points and arcs


class Unit:
    """how one element is treated: v its name, body the statements that see it"""

    def __init__(self, v, body, function=False, allowed=()):
        self.v, self.body, self.function, self.allowed = v, body, function, set(allowed)
        self.kindvars, self.flags = set(), {}
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    t = n.targets[0].id
                    if selects(n.value, {v}):
                        self.kindvars.add(t)
                    elif self.raw(n.value):
                        self.flags[t] = self.raw(n.value)
        # a variable is one for the kind only if it is compared with kind names somewhere
        named = {n.left.id for s in body for n in ast.walk(s) if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in self.kindvars and any(consts(c) for c in n.comparators)}
        named |= {n.subject.id for s in body for n in ast.walk(s) if isinstance(n, ast.Match) and isinstance(n.subject, ast.Name) and n.subject.id in self.kindvars}
        self.kindvars &= named
        self.found = set().union(*[self.kinds(s) for s in body]) if body else set()

    def raw(self, e):
        """kinds for which the expression tests the element itself"""
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and fname(n) in PRED and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == self.v:
                out.add(fname(n))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.In, ast.NotEq, ast.NotIn)) and selects(n.left, {self.v}):
                out |= consts(n.comparators[0])
        return out

    def kinds(self, e):
        out = self.raw(e)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id in self.flags and isinstance(n.ctx, ast.Load):
                out |= self.flags[n.id]
            elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in self.kindvars:
                for c in n.comparators:
                    out |= consts(c)
            elif isinstance(n, ast.Match):
                s = n.subject
                if (isinstance(s, ast.Name) and s.id in self.kindvars) or selects(s, {self.v}):
                    for c in n.cases:
                        for q in ast.walk(c.pattern):
                            if isinstance(q, ast.MatchValue):
                                out |= consts(q.value)
        return out

    def used(self, s):
        """the element is used outside kind tests and messages"""
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (s.targets[0].id in self.flags or s.targets[0].id in self.kindvars):
            return False
        todo = [s]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Call) and (fname(n) in PRED or fname(n) in LOUD or fname(n) == "isinstance"):
                if n.args and isinstance(n.args[0], ast.Name):
                    continue
                if fname(n) in LOUD:
                    continue
            if isinstance(n, ast.Compare) and (selects(n.left, {self.v}) or isinstance(n.left, ast.Name) and n.left.id in self.kindvars) and any(consts(c) for c in n.comparators):
                continue
            if isinstance(n, ast.Name) and n.id == self.v and isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) and n is not s:
                continue
            todo += list(ast.iter_child_nodes(n))
        return False

    # states: (used, tested)
    def walk(self, body, state, leave):
        states = {state}
        for s in body:
            new = set()
            for st in states:
                if st[0]:
                    new.add(st)
                    continue
                new |= self.step(s, st, leave)
            states = new
        return states

    def step(self, s, st, leave):
        used, tested = st
        if isinstance(s, ast.If):
            t = bool(self.kinds(s.test))
            if self.used(s.test):
                used = True
            a = (used, tested or t)
            if not t:
                return self.walk(s.body, a, leave) | self.walk(s.orelse, a, leave)
            no = isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) or isinstance(s.test, ast.Compare) and isinstance(s.test.ops[0], (ast.NotEq, ast.NotIn))
            yes, rest = (s.orelse, s.body) if no else (s.body, s.orelse)
            # in the branch for a kind it is enough that the element is used at all; points have no extent
            b = (used or any(self.used(x) for x in yes) or self.kinds(s.test) <= {"ispoint", "point"} | self.allowed, True)
            return self.walk(yes, b, leave) | self.walk(rest, a, leave)
        if isinstance(s, ast.Match):
            t = bool(self.kinds(s))
            out = set()
            full = False
            for c in s.cases:
                out |= self.walk(c.body, (used, tested or t), leave)
                full |= isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None
            return out if full else out | {(used, tested or t)}
        if isinstance(s, ast.Continue):
            leave.append((s.lineno, st))
            return set()
        if isinstance(s, ast.Return):
            v = s.value
            if self.function and not (v is not None and self.used(v)) and (v is None or isinstance(v, ast.Constant) and not isinstance(v.value, (bool, str)) or isinstance(v, (ast.List, ast.Tuple)) and not v.elts):
                leave.append((s.lineno, st))
            return set()
        if isinstance(s, (ast.Raise, ast.Break)):
            return set()
        if isinstance(s, ast.Assert):
            return {(used, tested)}
        if isinstance(s, (ast.With, ast.AsyncWith)):
            if any(self.used(i.context_expr) for i in s.items):
                return {(True, tested)}
            return self.walk(s.body, st, leave)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            head = s.test if isinstance(s, ast.While) else s.iter
            if self.used(head):
                return {(True, tested)}
            if not any(self.used(x) or self.kinds(x) for x in s.body):
                return {st}
            inner = []
            return self.walk(s.body, st, inner) | {x for _, x in inner}
        if isinstance(s, ast.Try):
            out = self.walk(s.body + s.orelse, st, leave)
            if any(self.used(x) for x in s.body):
                for h in s.handlers:
                    got = self.walk(h.body, (False, True), leave)
                    out |= got
            else:
                for h in s.handlers:
                    out |= self.walk(h.body, st, leave)
            if s.finalbody:
                out = set().union(*[self.walk(s.finalbody, x, leave) for x in out]) if out else out
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return {st}
        return {(used or self.used(s), tested)}

    def lost(self):
        """lines of the paths' ends on which the element is dropped"""
        leave = []
        end = self.walk(self.body, (False, False), leave)
        out = [ln for ln, st in leave if st == (False, True)]
        if (False, True) in end:
            out.append(self.body[-1].end_lineno)
        return sorted(set(out))


def units(fi):
    """(unit, node) of the loops and, last, the parameters of a function"""
    for n in own_nodes(fi.node):
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            names = set() if isinstance(n, ast.While) else {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            # lists that the loop refines in place keep the elements which it does not touch
            refined = {ast.unparse(t.value) for s in n.body for x in ast.walk(s) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Subscript)}
            for s in n.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        v = x.value
                        if isinstance(v, ast.Subscript) and isinstance(v.value, (ast.Name, ast.Attribute)) and not isinstance(v.slice, ast.Constant) and ast.unparse(v.value) not in refined:
                            names.add(x.targets[0].id)
                        elif isinstance(v, ast.Call) and fname(v) in ("pop", "popleft", "next"):
                            names.add(x.targets[0].id)
            for v in sorted(names):
                u = Unit(v, n.body, False, ON_PURPOSE.get(getattr(fi, 'qual', ''), ()))
                if len(u.found) >= 2:
                    yield u, n
    for v in fi.params:
        u = Unit(v, fi.node.body, True, ON_PURPOSE.get(getattr(fi, 'qual', ''), ()))
        if len(u.found) >= 2:
            yield u, fi.node


SRC = '''
def good(g):
    for e in g:
        if isline(e):
            a(e)
        elif isarc(e):
            b(e)
        else:
            raise ValueError(e)
def skips(g):
    for e in g:
        if isline(e):
            a(e)
        elif isarc(e):
            b(e)
def drops(g):
    for e in g:
        k = e['type']
        if k == 'line':
            a(e)
        elif k == 'arc':
            continue
        else:
            raise ValueError(k)
def swallows(g):
    for e in g:
        try:
            if isline(e):
                a(e)
            elif isarc(e):
                b(e)
            else:
                raise ValueError(e)
        except Exception:
            pass
def one(e):
    if isline(e):
        return a(e)
    if isarc(e):
        return b(e)
def takes(e):
    if isline(e):
        return a(e)
    if isarc(e):
        return b(e)
    return c(e)
def matches(g):
    for e in g:
        match e['kind']:
            case 'line':
                a(e)
            case 'arc':
                b(e)
'''


class _F:
    def __init__(self, node):
        self.node, self.params = node, [a.arg for a in node.args.args]


def run(ctx):
    p = ctx.p
    got = {f.name: any(u.lost() for u, _ in units(_F(f))) for f in ast.parse(SRC).body}
    ctx.selftest("skipped elements are found", got == {"good": False, "skips": True, "drops": True, "swallows": True, "one": True, "takes": False, "matches": True})
    mods = dict(p.modules)
    loops = funcs = 0
    for m in mods.values():
        for fi in p.all_funcs(m):
            seen = set()
            for u, n in units(fi):
                loop = not u.function
                loops += loop
                funcs += not loop
                lost = u.lost()
                what = "%s %s over %s" % ("loop" if loop else "function", fi.qual, u.v)
                key = "%s:%s" % (fi.qual, u.v)
                while key in seen:
                    key += "'"
                seen.add(key)
                ctx.check(not lost, "element-skipped", key, "%s lets an element go unused (kinds told apart: %s), path ends at line %s" % (what, ", ".join(sorted(u.found)), ", ".join(map(str, lost))), "%s:%d" % (m.rel, n.lineno))
    ctx.floor("kind-dispatching loops", loops, 8)
    ctx.floor("kind-dispatching functions", funcs, 15)
