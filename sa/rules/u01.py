"""U01: a parameter that a caller sets has an influence beyond being checked."""
import ast
import re

from ..lib import own_calls, resolve_call
from ..project import ClassInfo, FuncInfo
from ..refs import chain, ext_name, own_nodes

PROP = dict(
    id="U01", title="No option is silently ignored",
    statement="Every parameter that a function, constructor, DSL builtin or method of yapCAD accepts influences what the call does: its value reaches the result, an effect, or a decision about one, directly or through the functions it is handed to. It is not merely validated, not overwritten before use, not handed only to code that ignores it. Where a function leaves its work to another one that has an option of the same name, and does not use the option itself, it hands it on, in each of its modes. The same holds for every command line option and for every field of a request to the service. Parameters that an interface prescribes and an implementation has no use for, and a fixed list of parameters documented as unused, are excepted.",
    over=["programs", "inputs"], text="every parameter of every function, every argparse option, every field of a request model",
    why="A tolerance, angle, direction, unit or flag that is accepted and then not used yields a result for the default; tests that leave the option at its default, or only check that it is accepted, pass.",
    files=["src/yapcad", "service", "tools"],
    mech=[("all modules", "src/yapcad/**/*.py, service/**/*.py, tools/*.py")],
    observe=["a parameter whose value flows into no result, effect or decision", "a parameter handed only to functions that ignore it", "an option that is parsed and not read"],
    technique="interprocedural liveness (flow of each parameter into results, effects and decisions, least fixpoint over the call graph)",
    note="Decides that an option has an influence, not that it is the documented one.",
)
EXPLAIN = ("For every parameter a flow analysis of its function marks what is computed from it (data flow, and variables assigned under a test of it) and looks for a use that returns it, stores it, passes it to external code or to a project function's parameter that is itself used, or decides about such an action; raising an error on bad values is a check, not a use. "
           "Parameters without such a use are violations unless the method implements an interface in which another implementation uses it, or all implementations are stubs, or the table of documented exceptions lists them. Options of argparse parsers must be read from the parsed namespace, fields of pydantic request models from the request.")
ASSUME = ["external functions use the arguments they are given", "a value stored into an object or list is read there by somebody"]

PURE = {"float", "int", "len", "str", "isinstance", "abs", "min", "max", "bool", "round", "list", "tuple", "set", "dict", "sorted", "sum", "any", "all", "type", "repr", "hasattr", "getattr", "range", "enumerate", "zip", "reversed", "map", "filter", "deepcopy", "copy", "callable", "id", "frozenset", "iter", "next", "isfinite", "isnan", "cast", "format"}
PUREM = {"get", "lower", "upper", "strip", "lstrip", "rstrip", "items", "keys", "values", "copy", "split", "startswith", "endswith", "join", "format", "replace", "is_integer", "index", "count", "title"}
QUIET = {"debug", "info"}

# parameters that are documented as unused, kept for compatibility or prescribed by the caller's protocol
EXEMPT = {
    # surface and curve functions share one signature; these surfaces' results do not vary with the parameter
    "yapcad.analytic_surfaces.plane_surface_normal": {"u", "v"}, "yapcad.analytic_surfaces.tessellated_surface_normal": {"u", "v"},
    "yapcad.analytic_surfaces.cone_surface_normal": {"v"}, "yapcad.analytic_surfaces.cylinder_surface_normal": {"v"},
    "yapcad.geom.samplepoint": {"u"},
    # documented: kept for compatibility, reserved or not implemented yet
    "yapcad.geom3d_util.helical_extrude": {"auxiliary_radius"}, "yapcad.geom3d_util.loft": {"segments"},
    "yapcad.collision.registry.InterfaceRegistry.check_overlap_compatibility": {"overlap_region"},
    "yapcad.octtree.box2boxes": {"type"},  # one supported value, others raise
    # prescribed by the caller: boolean engines, section validators, checks and field validators of one table
    "yapcad.boolean.trimesh_engine.solid_boolean": {"tol", "stitch"},
    "yapcad.package.analysis.schema.validate_check_section": {"warnings"},
    "yapcad.package.analysis.yapcad_native.YapCADNativeAdapter._check_centroid": {"check_spec"},
    "yapcad.dsl.transforms.metadata._validate_assembly_field": {"hint"}, "yapcad.dsl.transforms.metadata._validate_operation_field": {"hint"},
    # internal helpers: redundant context (the third axis of a frame, start positions, function spaces)
    "yapcad.geom3d_util.sweep_adaptive.<locals>._transform_wire_to_frame": {"up"},
    "yapcad.dsl.lexer.Lexer._scan_escape_sequence": {"string_start"}, "yapcad.dsl.parser.Parser._parse_native_function": {"decorators"},
    "yapcad.package.analysis.fenics.FenicsxAdapter._build_load_vector": {"V", "plan"},
    "yapcad.package.analysis.mechatron_fea_setup._generate_bolts_from_datums": {"bp"},
    "tools.reference.assembly_xray_6view.annotate_key_parts": {"azim", "elev"},
}
CALLBACK = ("on_", "_on_")  # event handlers take what the window system passes


def fname(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}


def all_params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def body_of(node):
    b = node.body if isinstance(node.body, list) else [ast.copy_location(ast.Return(value=node.body), node.body)]
    return [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def const(e):
    return e is None or isinstance(e, ast.Constant) or isinstance(e, (ast.List, ast.Tuple)) and not e.elts or isinstance(e, ast.Dict) and not e.keys or isinstance(e, ast.Name) and e.id == "NotImplemented" or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


def stub(node):
    """nothing but constants, pass or an error: the parameters cannot matter"""
    for s in body_of(node):
        if isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Return) and const(s.value):
            continue
        return False
    return True


def blocks(s):
    return [b for k in ("body", "orelse", "finalbody") for b in [getattr(s, k, None)] if b] + [h.body for h in getattr(s, "handlers", [])] + [c.body for c in getattr(s, "cases", [])]


class Flow:
    """uses of one parameter in one function: direct (a use that counts), args (callee, parameter) pairs on which it depends, checked"""

    def __init__(self, an, fi, node, name):
        self.an, self.fi, self.node = an, fi, node
        self.taint, self.live, self.args, self.checked = {name}, False, set(), False
        self.guarded = self.deciding = False
        self.consts = {n for n in fi.module.assigns if n not in all_params(node)} if hasattr(fi.module, "assigns") else set()
        body = body_of(node)
        if self.overwritten(body, name):
            return
        for _ in range(6):
            before = len(self.taint)
            for s in body:
                self.stmt(s)
            if len(self.taint) == before or self.live:
                break

    @staticmethod
    def overwritten(body, name):
        for s in body:
            if name in names(s):
                return False
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return True
        return False

    def hit(self, e):
        return e is not None and bool(self.taint & names(e))

    def add(self, target):
        for n in ast.walk(target):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                self.live = True
                return
        self.taint |= {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}

    def control(self, stmts):
        """the statements run or not depending on the parameter"""
        for s in stmts:
            if isinstance(s, (ast.Return, ast.Break, ast.Continue, ast.Delete, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if not (isinstance(s, (ast.Import, ast.ImportFrom))):
                    self.live = True
            elif isinstance(s, ast.Raise):
                self.checked = True
                self.live |= self.deciding
            elif isinstance(s, ast.Expr):
                v = s.value
                if isinstance(v, (ast.Yield, ast.YieldFrom, ast.Await)):
                    self.live = True
                elif isinstance(v, ast.Call) and fname(v) not in QUIET:
                    self.live = True
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    self.add(t)
            else:
                for b in blocks(s):
                    self.control(b)

    def stmt(self, s):
        if self.live:
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            inner = set(all_params(s)) if not isinstance(s, ast.ClassDef) else set()
            if (self.taint - inner) & names(s):
                self.live = True
            return
        if isinstance(s, (ast.Return, ast.Expr)):
            v = s.value
            if isinstance(s, ast.Return) and self.value(v):
                self.live = True
            elif isinstance(s, ast.Expr) and self.hit(v):
                if isinstance(v, (ast.Yield, ast.YieldFrom)) and self.value(v.value):
                    self.live = True
                elif self.value(v) and isinstance(v, ast.Call) and not fname(v) in QUIET | PURE | PUREM:
                    self.live = True
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is not None and self.value(s.value):
                for t in ts:
                    self.add(t)
            for t in ts:
                if not isinstance(t, ast.Name) and self.hit(t):
                    self.live = True
        elif isinstance(s, ast.AugAssign):
            if self.value(s.value) or self.hit(s.target):
                self.add(s.target)
        elif isinstance(s, (ast.If, ast.While)):
            guarded = self.guarded
            if self.value(s.test):
                # compared with anything else than constants, the parameter decides about the error, too
                if names(s.test) - self.taint - PURE - {"math", "np"} - self.consts:
                    self.deciding = True
                self.control(s.body)
                self.control(s.orelse)
                self.deciding = False
                self.guarded = True
            for b in blocks(s):
                for x in b:
                    self.stmt(x)
            self.guarded = guarded
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            if self.value(s.iter):
                self.add(s.target)
                self.control(s.body)
            for x in s.body + s.orelse:
                self.stmt(x)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                if self.value(i.context_expr):
                    if i.optional_vars is not None:
                        self.add(i.optional_vars)
                    else:
                        self.live = True
            for x in s.body:
                self.stmt(x)
        elif isinstance(s, ast.Match):
            if self.value(s.subject):
                for c in s.cases:
                    for n in ast.walk(c.pattern):
                        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                            self.taint.add(n.name)
                    self.control(c.body)
            for c in s.cases:
                if c.guard is not None and self.value(c.guard):
                    self.control(c.body)
                for x in c.body:
                    self.stmt(x)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            if self.hit(s):
                self.checked = True
                # an error that tells the value without having tested it
                if not self.guarded and isinstance(s, ast.Raise) or isinstance(s, ast.Assert) and self.value(s.test) and names(s.test) - self.taint - PURE:
                    self.live = True
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name) and self.hit(t):
                    self.live = True
        else:
            for b in blocks(s):
                for x in b:
                    self.stmt(x)

    @staticmethod
    def ends(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def value(self, e):
        """the value of the expression depends on the parameter; calls within it are judged"""
        if e is None or not self.hit(e):
            return False
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.Lambda,)):
            return bool((self.taint - set(all_params(e))) & names(e.body))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            dep = False
            for g in e.generators:
                if self.value(g.iter):
                    self.taint |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                    dep = True
                for i in g.ifs:
                    dep |= self.value(i)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                dep |= self.value(x)
            return dep
        if isinstance(e, (ast.Name, ast.Constant)):
            return isinstance(e, ast.Name) and e.id in self.taint
        if isinstance(e, ast.NamedExpr):
            d = self.value(e.value)
            if d:
                self.add(e.target)
            return d
        return any([self.value(x) for x in ast.iter_child_nodes(e) if isinstance(x, (ast.expr, ast.keyword, ast.FormattedValue))] or [False]) if not isinstance(e, ast.keyword) else self.value(e.value)

    def call(self, c):
        """the parameter occurs in the call; does the call's value depend on it? (effects set live or args)"""
        hits = [a for a in c.args if self.hit(a)]
        kws = [k for k in c.keywords if self.hit(k.value)]
        recv = isinstance(c.func, ast.Attribute) and self.hit(c.func.value)
        name = fname(c)
        vals = [self.value(a.value if isinstance(a, ast.Starred) else a) for a in hits] + [self.value(k.value) for k in kws]
        if recv:
            rv = self.value(c.func.value)
            if rv and name not in PUREM:
                self.live = True
            if rv:
                return True
        elif isinstance(c.func, ast.Name) and c.func.id in self.taint or not isinstance(c.func, (ast.Name, ast.Attribute)) and self.hit(c.func):
            self.live = True
            return True
        if not any(vals):
            return False
        t = self.an.target(self.fi, c)
        if t is None:
            if name in PURE and (isinstance(c.func, ast.Name) or isinstance(c.func.value, ast.Name) and c.func.value.id in ("math", "copy", "np", "os", "typing")) or name in PUREM and isinstance(c.func, ast.Attribute):
                return True
            if name in QUIET:
                return False
            self.live = True
            return True
        g, skip = t
        dep = False
        ps = [a.arg for a in g.args.posonlyargs + g.args.args][skip:]
        for i, a in enumerate(c.args):
            if not self.hit(a):
                continue
            if isinstance(a, ast.Starred) or any(isinstance(x, ast.Starred) for x in c.args[:i]):
                self.live = dep = True
            elif i < len(ps):
                self.args.add((id(g), ps[i]))
                dep = True
            elif g.args.vararg:
                self.args.add((id(g), g.args.vararg.arg))
                dep = True
        for k in kws:
            if k.arg is None:
                self.live = dep = True
            elif k.arg in ps or k.arg in [a.arg for a in g.args.kwonlyargs]:
                self.args.add((id(g), k.arg))
                dep = True
            elif g.args.kwarg:
                self.args.add((id(g), g.args.kwarg.arg))
                dep = True
        # the result depends on the parameter only as far as the callee's parameter is used, which is what args records
        return False


class Analysis:
    def __init__(self, p):
        self.p = p
        self.funcs = {}
        self.qual = {}
        for m in p.modules.values():
            for fi in p.all_funcs(m):
                if id(fi.node) not in self.funcs:
                    self.funcs[id(fi.node)] = fi
        self.flows = {}
        self.live = set()
        self.checked = set()
        self.family = {}

    def target(self, fi, c):
        """(node of the called function, number of leading parameters bound otherwise)"""
        f = c.func
        t = chain(self.p, fi, fi.module, f)
        bound = False
        if t is None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
            g = fi
            while g is not None and g.cls is None:
                g = g.outer
            if g is not None:
                t, bound = self.p.member(g.cls, f.attr), True
        if isinstance(t, ClassInfo):
            t, bound = self.p.member(t, "__init__"), True
        if not isinstance(t, FuncInfo) or id(t.node) not in self.funcs:
            return None
        deco = {d.id for d in t.node.decorator_list if isinstance(d, ast.Name)}
        if any(not isinstance(d, ast.Name) for d in t.node.decorator_list):
            return None
        if deco - {"staticmethod", "classmethod", "property", "abstractmethod"}:
            return None
        if t.cls is not None and "staticmethod" not in deco and (bound or "classmethod" in deco):
            return t.node, 1
        return t.node, 0

    def solve(self):
        for k, fi in self.funcs.items():
            ps = all_params(fi.node)
            for n in ps:
                self.flows[k, n] = Flow(self, fi, fi.node, n)
        self.live = {k for k, f in self.flows.items() if f.live}
        self.checked = {k for k, f in self.flows.items() if f.checked}
        # a method's parameter is live if that of an implementation that a call may reach is
        fam = {}
        for k, fi in self.funcs.items():
            if fi.cls is None or fi.outer is not None:
                continue
            group = {k}
            for c in [x for x in self.p.mro(fi.cls) if isinstance(x, ClassInfo)] + list(self.p.subclasses(fi.cls)):
                m = self.p.member(c, fi.node.name)
                if isinstance(m, FuncInfo):
                    group.add(id(m.node))
            fam[k] = group
        self.family = fam
        changed = True
        while changed:
            changed = False
            for (k, n), f in self.flows.items():
                if (k, n) in self.live:
                    continue
                for g, q in f.args:
                    if any((h, q) in self.live for h in fam.get(g, {g})) or (g not in self.funcs):
                        self.live.add((k, n))
                        changed = True
                        break
                    if (k, n) not in self.checked and any((h, q) in self.checked for h in fam.get(g, {g})):
                        self.checked.add((k, n))
                        changed = True

    def positional(self, k, n):
        a = self.funcs[k].node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        return ps.index(n) if n in ps else None


def excused(an, k, n):
    fi = an.funcs[k]
    if n in ("self", "cls") or n.startswith("_"):
        return True
    if fi.node.name.startswith(CALLBACK) and fi.module.name.split(".")[1:2] and fi.module.name.endswith(("viewer", "drawable")):
        return True
    if stub(fi.node) or fi.node.name in ("__exit__", "__aexit__"):
        return True
    # pure checks: the function does nothing but raise
    if not any((k, q) in an.live for q in all_params(fi.node) if q not in ("self", "cls")) and (k, n) in an.checked:
        return True
    i = an.positional(k, n)
    for h in an.family.get(k, ()):
        if h == k:
            continue
        g = an.funcs[h].node
        if n in all_params(g) or stub(g):
            return True
        gp = [x.arg for x in g.args.posonlyargs + g.args.args]
        if i is not None and i < len(gp):
            return True
    return False


def cli(p):
    """(module, option, line, read) of every argparse option"""
    for m in p.modules.values():
        opts = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument"]
        if not opts:
            continue
        spaces = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and fname(n.value) in ("parse_args", "parse_known_args"):
                spaces |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
        # functions of the module that are given the namespace
        for _ in range(3):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    g = m.funcs.get(n.func.id)
                    if g is not None:
                        for a, q in zip(n.args, all_params(g.node)):
                            if isinstance(a, ast.Name) and a.id in spaces:
                                spaces.add(q)
        reads, whole = set(), False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in spaces:
                reads.add(n.attr)
            elif isinstance(n, ast.Call) and fname(n) == "getattr" and len(n.args) > 1 and isinstance(n.args[0], ast.Name) and n.args[0].id in spaces and isinstance(n.args[1], ast.Constant):
                reads.add(n.args[1].value)
            elif isinstance(n, ast.Call) and fname(n) == "vars":
                whole = True
        for n in opts:
            kw = {k.arg: k.value for k in n.keywords}
            if isinstance(kw.get("action"), ast.Constant) and kw["action"].value in ("version", "help"):
                continue
            flags = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            if isinstance(kw.get("dest"), ast.Constant):
                d = kw["dest"].value
            elif flags:
                d = ([x for x in flags if x.startswith("--")] or flags)[0].lstrip("-").replace("-", "_")
            else:
                continue
            yield m, d, n.lineno, whole or not spaces or d in reads


def requests(p):
    """(function, model, field, read) for every function that takes a request model"""
    models = {}
    for m in p.modules.values():
        for c in p.all_classes(m):
            if any(isinstance(b, (ast.Name, ast.Attribute)) and (getattr(b, "id", None) or b.attr) == "BaseModel" for b in c.node.bases):
                models[c.qual] = c
    for m in p.modules.values():
        for fi in p.all_funcs(m):
            for a in fi.node.args.args + fi.node.args.kwonlyargs:
                t = chain(p, fi.outer, m, a.annotation) if a.annotation is not None and isinstance(a.annotation, (ast.Name, ast.Attribute)) else None
                if isinstance(t, ClassInfo) and t.qual in models:
                    reads = set()
                    whole = False
                    inner = set()
                    for n in ast.walk(fi.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == a.arg:
                            inner.add(id(n.value))
                            reads.add(n.attr)
                    for n in ast.walk(fi.node):
                        if isinstance(n, ast.Name) and n.id == a.arg and isinstance(n.ctx, ast.Load) and id(n) not in inner:
                            whole = True
                    whole |= bool(reads & {"model_dump", "dict"})
                    for fl in t.fields:
                        yield fi, t, fl, whole or fl in reads


SPEC = re.compile(r"(Config|Options?|Settings|Profile|Spec|CutPoint|Clearance|Requirement|Constraint|Criterion|Mate|Limits?|Joint|Params|Coupling|Policy|Rule)$")


def records(p):
    """(class, option, read): dataclass fields of specifications, constructor parameters kept in attributes"""
    reads = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                reads.add(n.attr)
            elif isinstance(n, ast.Call) and fname(n) in ("getattr", "hasattr", "attrgetter"):
                reads |= {a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
    for m in p.modules.values():
        for c in p.all_classes(m):
            whole = any(isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Call) and fname(n) in ("asdict", "vars", "fields") for n in ast.walk(c.node))
            if c.is_dataclass and SPEC.search(c.name):
                for x in c.fields:
                    yield c, x, whole or x in reads
            init = c.methods.get("__init__")
            if init is not None and not c.name.endswith("Result") and not any("Exception" in ast.unparse(b) or "Error" in ast.unparse(b) for b in c.node.bases):
                ps = set(all_params(init.node))
                for n in ast.walk(init.node):
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" and not n.targets[0].attr.startswith("__") and names(n.value) & ps - {"self"}:
                        yield c, n.targets[0].attr, whole or n.targets[0].attr in reads


SRC = """
import math
def used(a): return a
def dead(a, b): return a
def overwritten(a):
    a = 3
    return a
def validated(a, b):
    if a < 0:
        raise ValueError(a)
    return b
def decided(a, b):
    if a:
        b = b + 1
    return b
def defaulted(a, b):
    if a is None:
        a = 3
    return b
def handed(a, b): return dead(b, a)
def handed2(a, b): return used(a), used(b)
def compared(a, b):
    if a > len(b):
        raise ValueError("long")
    return b
"""


class _M:
    name, assigns, rel = "m", {}, "m.py"


class _Fake:
    def __init__(self, node):
        self.node, self.module, self.cls, self.outer, self.qual = node, _M, None, None, node.name


def _selftest():
    fs = {f.name: f for f in ast.parse(SRC).body if isinstance(f, ast.FunctionDef)}
    an = Analysis.__new__(Analysis)
    an.p = None
    an.funcs = {id(f): _Fake(f) for f in fs.values()}
    an.flows, an.family = {}, {}
    an.target = lambda fi, c: (fs[c.func.id], 0) if isinstance(c.func, ast.Name) and c.func.id in fs else None
    an.solve()
    return {"%s.%s" % (n, q) for n, f in fs.items() for q in all_params(f) if (id(f), q) not in an.live}


def reads(node, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in ast.walk(node))


def used_beside(fi, call, par, q):
    """Is q read in something that is executed along with the call (not in another branch)?"""
    x = call
    while x is not fi.node:
        y = par[x]
        blocks_ = [b for b in (getattr(y, "body", None), getattr(y, "orelse", None), getattr(y, "finalbody", None)) if isinstance(b, list)]
        if isinstance(y, ast.If):
            if x is not y.test and reads(y.test, q):
                return True
            blocks_ = [b for b in blocks_ if x in b]
        if blocks_:
            if any(reads(s, q) for b in blocks_ for s in b if s is not x and not isinstance(s, ast.FunctionDef)):
                return True
            heads = [getattr(y, "iter", None), getattr(y, "test", None)] + [i.context_expr for i in getattr(y, "items", [])]
            if any(h is not None and h is not x and reads(h, q) for h in heads):
                return True
        elif any(reads(s, q) for s in ast.iter_child_nodes(y) if s is not x):
            return True
        x = y
    return False


def not_handed_on(p):
    """(function, call, parameter, target): the target has an option of that name and does not get the function's."""
    n, out = 0, []
    for m in p.modules.values():
        for fi in p.all_funcs(m, nested=True):
            mine = [a for a in fi.params + fi.kwonly if a not in ("self", "cls")]
            if not mine:
                continue
            par = {c: x for x in ast.walk(fi.node) for c in ast.iter_child_nodes(x)}
            for c in own_calls(fi.node):
                g = resolve_call(p, fi, c)
                if g is None and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ("self", "cls"):
                    k = fi
                    while k is not None and k.cls is None:
                        k = k.outer
                    g = p.member(k.cls, c.func.attr) if k is not None else None
                target = getattr(g, "qual", None)
                if isinstance(g, ClassInfo):
                    i = p.member(g, "__init__")
                    if isinstance(i, FuncInfo):
                        g = i
                    elif g.is_dataclass:
                        pos, names = list(g.fields), set(g.fields)
                if isinstance(g, FuncInfo):
                    pos = [a for a in g.params if a not in ("self", "cls")]
                    names = set(g.params + g.kwonly)
                elif not isinstance(g, ClassInfo) or not g.is_dataclass:
                    continue
                if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                    continue
                kw = {k.arg: k.value for k in c.keywords}
                for q in mine:
                    if q not in names:
                        continue
                    n += 1
                    if reads(c, q):
                        continue
                    i = pos.index(q) if q in pos else None
                    v = kw.get(q, c.args[i] if i is not None and i < len(c.args) else None)
                    if (v is None or isinstance(v, ast.Constant)) and not used_beside(fi, c, par, q):
                        out.append((fi, c, q, target))
    return n, out


def run(ctx):
    p = ctx.p
    ctx.selftest("ignored parameters are found, others not", _selftest() == {"dead.b", "overwritten.a", "validated.a", "defaulted.a", "handed.a"})
    an = Analysis(p)
    an.solve()
    total = 0
    live = {}
    for (k, n), f in sorted(an.flows.items(), key=lambda x: (an.funcs[x[0][0]].qual, x[0][1])):
        fi = an.funcs[k]
        if n in ("self", "cls"):
            continue
        total += 1
        if (k, n) in an.live:
            live[fi.module.name] = live.get(fi.module.name, 0) + 1
            continue
        if excused(an, k, n) or n in EXEMPT.get(fi.qual, ()):
            continue
        how = "is only checked" if (k, n) in an.checked else "has no influence"
        ctx.bad("ignored-parameter", "%s:%s" % (fi.qual, n), "parameter %s of %s %s" % (n, fi.qual, how), "%s:%d" % (fi.module.rel, fi.node.lineno))
    for m, k in sorted(live.items()):
        ctx.ok("parameters-used", m, "%d parameters" % k)
    n, out = not_handed_on(p)
    for fi, c, q, target in out:
        ctx.bad("not-handed-on", "%s:%s" % (fi.qual, q), "%s leaves the work to %s and does not hand on its %s, nor uses it there" % (fi.qual, target, q), "%s:%d" % (fi.module.rel, c.lineno))
    ctx.count("options handed on", n)
    ctx.floor("options handed on", n, 300)
    ctx.check(not out, "not-handed-on", "all", "%d calls of functions with an option of the caller's name hand it on or the caller uses it" % n, "src/yapcad")
    ncli = nreq = 0
    for m, d, ln, read in cli(p):
        ncli += 1
        ctx.check(read, "ignored-cli-option", "%s:%s" % (m.name, d), "the command line option %s of %s is parsed and not read" % (d, m.name), "%s:%d" % (m.rel, ln))
    for fi, t, fl, read in requests(p):
        nreq += 1
        ctx.check(read, "ignored-request-field", "%s:%s.%s" % (fi.qual, t.name, fl), "%s does not read the field %s of its %s" % (fi.qual, fl, t.name), "%s:%d" % (fi.module.rel, fi.node.lineno))
    nrec = 0
    for c, x, read in records(p):
        nrec += 1
        ctx.check(read, "ignored-record-option", "%s:%s" % (c.qual, x), "the option %s of %s is stored and never read" % (x, c.qual), "%s:%d" % (c.module.rel, c.node.lineno))
    ctx.floor("options of records", nrec, 100)
    ctx.floor("parameters", total, 4000)
    ctx.floor("command line options", ncli, 10)
    ctx.floor("request fields", nreq, 8)
