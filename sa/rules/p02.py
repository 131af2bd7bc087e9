"""P02: module tables, class attributes and default arguments stay what they were."""
import ast
import os
import tempfile

from ..mutation import Mutation, is_mutable_literal
from ..project import Project
from ..refs import own_nodes
from .p01 import BUILTINS, keys

PROP = dict(
    id="P02", title="No call leaves a trace in tables, defaults or class attributes",
    statement="What a yapCAD call returns does not depend on which calls were made before: no function changes a module-level table, a class-level attribute shared by all instances, or the default value of a parameter, directly or through anything it calls, and no geometry it returns contains such an object. The only exceptions are registries and caches: BREP shapes and mesh acceleration data by identity, analysis backends, viewer modules, the mesh builder's vertex index, the lazily built builtin registry, callbacks added by register functions and optional OCC bindings.",
    over=["histories", "inputs"], text="all call sequences",
    why="A leaked change shows only in a later, unrelated call; tests run each function from a fresh or fixed order.",
    files=["src/yapcad"],
    mech=[("module tables", "src/yapcad/**/*.py module-level assignments"), ("default arguments", "src/yapcad/**/*.py def statements")],
    observe=["the table or default compared before and after a call", "the result of the same call made twice"],
    technique="interprocedural alias and mutation summaries rooted at module-level containers, default values and class attributes; inventory of global statements",
    note="Every function's summary names the module-level containers and defaults it may change or hand out.",
)
EXPLAIN = ("The alias and mutation fixpoint of P01, rooted at every module-level mutable literal and every mutable default value; class-level mutable attributes changed through self or the class without being set per instance; names rebound by global statements; "
           "module containers reachable from the result of a geometry function.")
ASSUME = ["a module-level object built by a constructor call other than list, dict, set, point or vect is not tracked"]
CACHES = {("yapcad.brep", "_BREP_SOLID_CACHE"), ("yapcad.boolean.native", "_SURFACE_CACHE"), ("yapcad.package.analysis.base", "_BACKENDS"), ("yapcad.viewer", "_cache"),
          ("yapcad.geom3d_util", "vertexHash"), ("yapcad.geom3d_util", "_vertexHash_owner"), ("yapcad.dsl.runtime.builtins", "_registry")}
CACHE_WRITERS = {"yapcad.geom3d_util": {"addVertex"}}
GEOM = ("yapcad.geom", "yapcad.poly", "yapcad.combine", "yapcad.spline", "yapcad.text3d", "yapcad.threadgen", "yapcad.fasteners", "yapcad.manufacturing", "yapcad.analytic_surfaces", "yapcad.boolean", "yapcad.octtree", "yapcad.native_brep")


def cached(m, x):
    """A registry or cache: by name, so that a new private cache is not an alarm."""
    low = x.lower()
    return (m, x) in CACHES or any(w in low for w in ("cache", "registry", "memo"))


def part(e, up):
    """Is the part of the literal e at keys up itself a mutable container?"""
    if e is None:
        return False
    if not up:
        return is_mutable_literal(e)
    k = up[0]
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return any(part(x, up[1:]) for i, x in enumerate(e.elts) if not isinstance(k, int) or k < 0 or k == i)
    if isinstance(e, ast.Dict):
        return any(part(x, up[1:]) for a, x in zip(e.keys, e.values) if k is None or not isinstance(a, ast.Constant) or a.value == k)
    if isinstance(e, (ast.ListComp, ast.SetComp)):
        return part(e.elt, up[1:])
    if isinstance(e, ast.DictComp):
        return part(e.value, up[1:])
    return False


def class_attrs(ctx, p, classes):
    """Mutable class-level attributes, and their changes through self, cls or the class name."""
    n = 0
    muts = {"append", "extend", "insert", "sort", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "popitem", "reverse"}
    for c in classes:
        if any(b.endswith(("Enum", "NodeVisitor")) for b in (ast.unparse(x) for x in c.base_nodes)):
            continue
        for a, e in c.attrs.items():
            if e is None or not is_mutable_literal(e) or cached(c.module.name, a):
                continue
            n += 1
            hit = None
            for f in c.methods.values():
                own = any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == c.node.name)
                          for g in c.methods.values() if g.name in ("__init__", "__new__", "__post_init__") or g.is_classmethod for x in own_nodes(g.node))
                if f.name.startswith(("register", "unregister")):
                    continue
                for x in own_nodes(f.node):
                    if not (isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.value, ast.Name) and (x.value.id in ("cls", c.node.name) or (x.value.id == "self" and not own))):
                        continue
                    for y in own_nodes(f.node):
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.value is x and y.func.attr in muts:
                            hit = (f, y)
                        if isinstance(y, ast.Subscript) and y.value is x and isinstance(y.ctx, (ast.Store, ast.Del)):
                            hit = (f, y)
                        if isinstance(y, ast.AugAssign) and y.target is x:
                            hit = (f, y)
            ctx.check(hit is None, "class-attribute-kept", "%s.%s" % (c.qual, a), "the attribute shared by all %s objects is changed by %s" % (c.node.name, hit[0].qual if hit else ""),
                      "%s:%d" % (c.module.rel, hit[1].lineno) if hit else c.module.rel)
    return n


def judge(ctx, p, M):
    seen = set()
    for f in M.funcs:
        for r, u in M.sum[f].muts:
            if not isinstance(r, tuple) or (f, r) in seen:
                continue
            seen.add((f, r))
            if r[0] == "global":
                if not cached(r[1], r[2]):
                    ctx.bad("table-kept", "%s.%s" % r[1:], "the module table %s.%s is changed through %s: %s" % (r[1], r[2], f.qual, " -> ".join(M.path(f, r))), f.where)
            else:
                ctx.bad("default-kept", "%s:%s" % r[1:], "the default value of parameter %s of %s is changed through %s: %s" % (r[2], r[1], f.qual, " -> ".join(M.path(f, r))), f.where)
        if f.module.name.startswith(GEOM) and not f.module.name.startswith("yapcad.dsl"):
            for r, d, u in sorted(M.sum[f].rets, key=str):
                if isinstance(r, tuple) and r[0] == "global" and not cached(r[1], r[2]) and any(part(e, u) for e in p.modules[r[1]].assigns.get(r[2], [])):
                    if f.module.name == r[1] and any(part(e, u) for e in p.modules[r[1]].assigns.get(r[2], [])):
                        ctx.bad("table-not-handed-out", "%s:%s" % (f.qual, r[2]), "the result of %s contains the module's own table: result%s is %s%s" % (f.qual, keys(d), r[2], keys(u)), f.where)
                        break


SELF = '''
TABLE = {'a': [1]}
ROWS = [[1, 2], [3, 4]]
def default(x, acc=[]):
    acc.append(x)
    return len(acc)
def table(k):
    TABLE[k].append(2)
def hands():
    return ['s', ROWS]
def fine():
    t = dict(TABLE)
    t['b'] = 1
    return [list(r) for r in ROWS]
class A:
    items = []
    def add(self, x):
        self.items.append(x)
'''


def run(ctx):
    p = ctx.p
    selftest(ctx)
    M = Mutation(p, [f for m in p.modules.values() for f in p.all_funcs(m, m.name == BUILTINS)])
    ctx.count("functions summarised", len(M.funcs))
    tables = [(m.name, x) for m in p.modules.values() for x, es in m.assigns.items() if x != "__all__" and any(is_mutable_literal(e) for e in es if e is not None)]
    dflts = [(f.qual, i) for f in M.funcs for i, d in enumerate(f.node.args.defaults + [x for x in f.node.args.kw_defaults if x is not None]) if is_mutable_literal(d)]
    ctx.floor("module-level tables", len(tables), 60)
    ctx.floor("mutable default values", len(dflts), 40)
    for m in p.modules.values():
        p.consulted.add(m.name)
    judge(ctx, p, M)
    bad = {k for k in ctx.viol}
    for m, x in tables:
        if "table-kept:%s.%s" % (m, x) not in bad:
            ctx.ok("table-kept", "%s.%s" % (m, x))
    for q, i in dflts:
        ctx.ok("default-kept", "%s #%d" % (q, i))
    class_attrs(ctx, p, [c for m in p.modules.values() for c in p.all_classes(m)])
    for m in p.modules.values():
        for f in p.all_funcs(m):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Global):
                    for x in n.names:
                        late = all(e is not None and isinstance(e, ast.Constant) and e.value is None for e in m.assigns.get(x, [None]) if e is not None)
                        ctx.check(cached(m.name, x) or late, "no-rebound-global", "%s.%s" % (m.name, x), "%s rebinds the module variable %s: later calls see it" % (f.qual, x), "%s:%d" % (m.rel, n.lineno))


class Probe:
    def __init__(self):
        self.v = {}

    def bad(self, rule, construct, msg, where=""):
        self.v.setdefault(rule, []).append(construct)

    def check(self, c, rule, construct, msg, where=""):
        if not c:
            self.bad(rule, construct, msg)


def selftest(ctx):
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, "src", "yapcad"))
        for n, s in (("__init__", ""), ("geom", SELF)):
            with open(os.path.join(d, "src", "yapcad", n + ".py"), "w") as fh:
                fh.write(s)
        p = Project(d)
        t = Probe()
        judge(t, p, Mutation(p))
        class_attrs(t, p, [c for m in p.modules.values() for c in p.all_classes(m)])
        ctx.selftest("default changed", t.v.get("default-kept") == ["yapcad.geom.default:acc"])
        ctx.selftest("table changed", t.v.get("table-kept") == ["yapcad.geom.TABLE"])
        ctx.selftest("table handed out", t.v.get("table-not-handed-out") == ["yapcad.geom.hands:ROWS"])
        ctx.selftest("class attribute changed", t.v.get("class-attribute-kept") == ["yapcad.geom.A.items"])
