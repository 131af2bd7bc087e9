"""K11: an analysis covers every entity, load, condition and material its plan names, or fails."""
import ast
import copy
import re

from ..flow import Budget, C, Engine, NONE
from ..lib import Pol, resolve_call, subterms
from ..project import FuncInfo
from ..refs import own_nodes

PROP = dict(
    id="K11", title="An analysis carries out its whole plan or fails",
    statement="An analysis that does not end in an error has applied every load and every boundary condition of its plan (a load of zero magnitude aside), each where the plan puts it and none in place of another, has used exactly the entities of the geometry source that the plan names, or all of them, and the material the plan gives; a load, condition, entity or material it cannot apply makes it fail rather than be left out.",
    over=["inputs"], text="all plans: any number and kind of loads, boundary conditions, entities and materials, and every backend",
    why="Tests run one plan per backend, mostly without its solver. A backend that takes the first load, skips the kind it does not know or overwrites one load by another where they meet passes its acceptance criteria with a part that was never loaded as planned.",
    files=["src/yapcad/package/analysis/base.py", "src/yapcad/package/analysis/fenics.py", "src/yapcad/package/analysis/yapcad_native.py", "src/yapcad/package/analysis/calculix.py"],
    mech=[("plan geometry", "base.py: plan_geometry"), ("loads and conditions", "fenics.py: _get_surface_load_form, _apply_boundary_conditions"), ("material", "fenics.py: _get_material")],
    observe=["what a backend hands to its solver or its measuring functions"],
    technique="path-sensitive dataflow per loop body (every path contributes or raises), symbolic two-element scenarios for entities and geometry, per-path obligations for materials",
    note="What is applied is decided by the paths through the backend's own loops; whether the region a strategy selects is the surface the author meant is geometry and out of reach. Loads, conditions and materials do not exist in geometric plans.",
)
EXPLAIN = ("In every backend the loops over a plan's loads and boundary conditions are found; the body of one is walked with an opaque element: each path must raise, hold the fact that the element's magnitude is zero, or contribute to a value that reaches what the function returns or stores, "
           "and may not leave the loop. Regions found for one element are combined with the others', not written over them. The geometry of a plan with two entities is walked symbolically: both reach every normal result. Geometry is read only through the function that does this. "
           "A material given as text, or materials without the one used, must raise. A backend that reads none of these must refuse them.")
ASSUME = ["a contribution (append, update, combination) handed to the solver is used by it"]
PKG = "yapcad.package.analysis"
SPECS = ("loads", "boundary_conditions")
REMARK = re.compile(r"warn|err|log|note|summary|message|remark|info|self|seen|used", re.I)
ADD = {"append", "extend", "add", "insert", "update", "put", "appendleft", "setdefault"}


def plan_attr(n, names):
    """x.loads and the like, under list(), enumerate(), sorted(), `or []`, reversed()."""
    while True:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "iter", "reversed", "sorted") and n.args:
            n = n.args[0]
        elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
            n = n.values[0]
        else:
            break
    return n.attr if isinstance(n, ast.Attribute) and n.attr in names else None


def aliases(f):
    """local = plan.loads"""
    out = {}
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            a = plan_attr(n.value, SPECS)
            if a and isinstance(t, ast.Name):
                out[t.id] = a
    return out


def loops(p, f, feeds):
    """(list name, loop target, body statements, node) of every loop of f over a plan's list, directly or through a function that yields it."""
    al = aliases(f)

    def over(it):
        a = plan_attr(it, SPECS)
        if a:
            return a
        x = it
        while isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "enumerate") and x.args:
            x = x.args[0]
        if isinstance(x, ast.Name) and x.id in al:
            return al[x.id]
        if isinstance(x, ast.Call):
            g = resolve_call(p, f, x)
            if isinstance(g, FuncInfo) and g.qual in feeds:
                return feeds[g.qual]
        return None

    for n in own_nodes(f.node):
        if isinstance(n, (ast.For, ast.AsyncFor)):
            a = over(n.iter)
            if a:
                yield a, n.target, n.body, n
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(n.generators) == 1:
            g = n.generators[0]
            a = over(g.iter)
            if a:
                body = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=c), body=[ast.Continue()], orelse=[]) for c in g.ifs]
                body.append(ast.Assign(targets=[ast.Name(id="__out", ctx=ast.Store())], value=n.elt))
                yield a, g.target, [ast.fix_missing_locations(ast.copy_location(b, n)) for b in body], n


def names_in(nodes, ctx):
    return {x.id for b in nodes for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def surviving(f, body, node):
    """Names from outside the loop whose value is read after it (in anything but a test) before they are set again, or that come from the caller."""
    inside = {id(x) for b in body for x in ast.walk(b)} | {id(x) for x in ast.walk(node)}
    end = getattr(node, "end_lineno", node.lineno)
    sets, gets = {}, {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Name) and id(n) not in inside:
            (sets if isinstance(n.ctx, ast.Store) else gets).setdefault(n.id, []).append(n.lineno)
    tests = {}
    for n in own_nodes(f.node):
        if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
            for x in ast.walk(n.test):
                if isinstance(x, ast.Name):
                    tests.setdefault(x.id, []).append(x.lineno)
    live = set()
    for k, ls in gets.items():
        ls = list(ls)
        for t in tests.get(k, []):
            if t in ls:
                ls.remove(t)
        if any(x > end and not any(end < s < x for s in sets.get(k, [])) for x in ls) and any(s <= node.lineno for s in sets.get(k, [])):
            live.add(k)
    return live | set(f.params) | {"__out"}


def zero(st, elem):
    """A fact of the path: a number of the element is zero."""
    for at, v in st.facts.items():
        if not any(x == elem for x in subterms(at)):
            continue
        num = any(x in (C(0), C(0.0)) for x in subterms(at))
        if at[0] in ("eq", "==") and v and num:
            return True
        if at[0] == "truth" and not v and at[1][0] == "call" and at[1][1] in (("ext", "float"), ("ext", "abs"), ("ext", "int")):
            return True
    return False


def collides(e, elems, st):
    """x[key] = v with a key taken from the element (its name, its kind), not known to be new, and the old value not part of the new."""
    base, key, val = e[1], e[2][0], e[2][1]
    if not any(x in elems for x in subterms(key)) or key in elems:
        return False
    if any(x == base for x in subterms(val)) or any(x[0] in ("sub", "item") and x[1] == base for x in subterms(val)):
        return False
    for at, v in st.facts.items():
        if not v and at[0] == "in" and at[1] == key:
            return False
    return True


def root(t):
    while isinstance(t, tuple) and t and t[0] in ("attr", "sub", "item", "call", "elem"):
        t = t[1]
    return t


def track(ev, st):
    return ev.kind in ("call", "setitem", "aug", "store", "yield")


def body_verdicts(ctx, f, target, body, loop):
    """[(reason, node)] for each path through one round that neither contributes nor fails."""
    live = surviving(f, body, loop)
    tnames = names_in([target], ast.Store)
    free = sorted((names_in(body, ast.Load) | names_in(body, ast.Store) | {"__out"} | (set(f.params))) - tnames)
    mine = {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}
    node = copy.copy(f.node)
    node.args = copy.copy(f.node.args)
    local = sorted(names_in([f.node], ast.Store) & set(free) - mine)
    extra = [ast.arg(arg=x) for x in local + sorted(tnames) if x not in mine]
    node.args = ast.arguments(posonlyargs=f.node.args.posonlyargs, args=f.node.args.args + extra, vararg=f.node.args.vararg, kwonlyargs=f.node.args.kwonlyargs,
                              kw_defaults=f.node.args.kw_defaults, kwarg=f.node.args.kwarg, defaults=[])
    node.body = body
    g = FuncInfo(f.module, node, f.cls, f.outer)
    eng = Engine(ctx.p, Pol(inline=lambda e, fi, d: d < 3 and fi.module is f.module, track=track, fold=True, loop_iters=1, max_states=120, budget=40000, want_exc=False))
    outs = eng.run(g)
    bad = []
    given = []
    elems = [("param", x) for x in sorted(tnames)]
    for o in outs:
        if o.kind == "raise":
            continue
        if o.kind == "break" or o.kind == "return" and o.node is not g.node and isinstance(o.node, ast.Return):
            bad.append(("ends the loop before the rest was looked at", o.node))
            continue
        st = o.state
        did = set()
        for n in live - tnames:
            v = st.env.get(n)
            if v is not None and v != ("param", n) and v != NONE:
                if n == "__out" or any(x == ("param", n) for x in subterms(v)):
                    did.add(n)
                elif any(val and x[0] in ("is", "eq", "isnone") and ("param", n) in x for x, val in st.facts.items()):
                    did.add(n)
                elif n not in mine and v[0] != "const":
                    bad.append(("puts the element in place of the ones before it (%s)" % n, o.node))
        for e in st.events:
            if e[0] == "yield" and e[1] != NONE:
                did.add("yield")
            r = None
            if e[0] in ("setitem", "aug", "store"):
                r = root(e[1])
                if e[0] == "setitem" and r[0] == "param" and r[1] in live and collides(e, elems, st):
                    bad.append(("puts the element in place of another with the same key", o.node))
            elif e[0] == "call" and e[1][1][0] == "attr" and e[1][1][2] in ADD:
                r = root(e[1][1][1])
            if r is not None and r[0] == "param" and r not in elems and r[1] in live:
                did.add(r[1])
        if did:
            given.append(({x for x in did if not REMARK.search(x)}, o.node))
        elif not any(zero(st, x) for x in elems):
            bad.append(("leaves an element out without failing", o.node))
    every = set().union(*[d for d, _ in given]) if given else set()
    for d, n in given:
        if every - d:
            bad.append(("adds the element to %s but not to %s" % (", ".join(sorted(d)) or "its remarks", ", ".join(sorted(every - d))), n))
            break
    return bad, len(outs), g, eng


def overwrites(f, body):
    """x[region] = ... on an array from outside the loop, where the region was located on the mesh: a later element takes the place of an earlier one."""
    here = {}
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                here.setdefault(n.targets[0].id, []).append(n.value)

    def located(e, depth=0):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
                if nm.startswith("locate_") or nm in ("where", "nonzero", "flatnonzero"):
                    return True
            if isinstance(x, ast.Name) and depth < 3 and any(located(v, depth + 1) for v in here.get(x.id, [])):
                return True
        return False
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id not in here and located(t.slice):
                        own = ast.unparse(t)
                        if not any(isinstance(x, ast.Subscript) and ast.unparse(x) == own for x in ast.walk(n.value)):
                            yield n


def adapters(p):
    out = {}
    for m in p.modules.values():
        if not m.name.startswith(PKG + "."):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "register_backend" and len(n.args) == 2 and isinstance(n.args[1], ast.Name):
                c = p.resolve_dotted(m, n.args[1].id)
                if c is not None:
                    out[c.qual] = c
    return [out[k] for k in sorted(out)]


def methods(p, c):
    """The functions an adapter is made of: its methods and the functions of its module they can call."""
    ms = []
    for k in p.mro(c):
        if k.module.name != PKG + ".base":
            ms += list(k.methods.values())
    mods = {f.module.name for f in ms}
    for m in mods:
        for f in p.all_funcs(p.modules[m], True):
            if f.cls is None and f not in ms:
                ms.append(f)
    return ms


def reads(f, attr):
    return any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) for n in own_nodes(f.node))


def used(p, c, f):
    """Some method calls f and keeps what it returns (or f is called for its effect on an argument)."""
    for g in methods(p, c):
        keep = {}
        for n in own_nodes(g.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if nm == f.name:
                    keep[id(n)] = n
        if not keep:
            continue
        for n in own_nodes(g.node):
            if isinstance(n, ast.Assign) and id(n.value) in keep and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                name = n.targets[0].id
                tests = {id(x) for s in own_nodes(g.node) if isinstance(s, (ast.If, ast.IfExp, ast.While)) for x in ast.walk(s.test)}
                return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in tests for x in own_nodes(g.node))
            if isinstance(n, ast.Expr) and id(n.value) in keep:
                return not any(isinstance(r, ast.Return) and r.value is not None and not isinstance(r.value, ast.Constant) for r in own_nodes(f.node))
        return True
    return False


def run(ctx):
    p = ctx.p
    selftest(ctx)
    loading(ctx)
    sums(ctx)
    ads = adapters(p)
    ctx.floor("backends", len(ads), 3)
    for c in ads:
        fs = methods(p, c)
        simulation = any(reads(f, a) for f in fs for a in SPECS + ("materials",)) or not any(check_spec(f) for f in fs)
        if not simulation:
            ctx.count("measuring_backends")
            geometry(ctx, c, fs)
            measured(ctx, fs)
            continue
        for a in SPECS:
            feeds = {}
            for f in fs:
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, ast.Return) and n.value is not None for n in own_nodes(f.node)):
                    for x, _, body, n in loops(p, f, {}):
                        if x == a:
                            feeds[f.qual] = a
            found = [(f, t, b, n) for f in fs for x, t, b, n in loops(p, f, feeds) if x == a]
            if not found:
                ctx.check(any(refuses(ctx, f, a) for f in fs), "ignored", "%s:%s" % (c.qual, a), "the backend neither applies nor refuses the %s of a plan" % a, c.where if hasattr(c, "where") else c.module.rel)
                continue
            ctx.count("loops", len(found))
            best = None
            for f, t, b, n in found:
                bad, paths, _, _ = body_verdicts(ctx, f, t, b, n)
                ctx.count("loop_paths", paths)
                if best is None or len(bad) < len(best[0]):
                    best = (bad, f, b, n)
            bad, f, b, n = best
            at = "%s:%d" % (f.module.rel, n.lineno)
            ctx.check(not bad, "left-out", "%s:%s" % (f.qual, a), "one of the %s: a path %s" % (a, bad[0][0] if bad else ""), at)
            ov = list(overwrites(f, b))
            ctx.check(not ov, "overwritten", "%s:%s" % (f.qual, a), "where the regions of two elements meet the later one takes the place of the earlier", at)
            ctx.check(used(p, c, f), "unused", "%s:%s" % (f.qual, a), "what was built from the %s does not reach the solution" % a, at)
        material(ctx, c, fs)
        geometry(ctx, c, fs)
    named(ctx)


class Once(ast.NodeTransformer):
    """Inner loops over pieces of the piece (judged on their own) go round once."""

    def __init__(self, mine):
        self.mine = mine

    def visit_For(self, n):
        self.generic_visit(n)
        if not names_in([n.iter], ast.Load) & self.mine:
            return n
        item = ast.Call(func=ast.Name(id="__piece", ctx=ast.Load()), args=[n.iter], keywords=[])
        body = [ast.Assign(targets=[n.target], value=item)] + n.body
        return ast.fix_missing_locations(ast.copy_location(ast.If(test=ast.Constant(True), body=body, orelse=[]), n))


def measured(ctx, fs):
    """Loops over solids, surfaces and faces of the geometry measure each of them."""
    for f in fs:
        mine = {x for x in f.params if re.search(r"geometry|solid|entit|surf", x)}
        if not mine or f.name == "run":
            continue
        grown = True
        while grown:
            grown = False
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and names_in([n.value], ast.Load) & mine:
                    new = names_in(n.targets, ast.Store) - mine
                elif isinstance(n, ast.For) and names_in([n.iter], ast.Load) & mine:
                    new = names_in([n.target], ast.Store) - mine
                else:
                    continue
                grown, mine = grown or bool(new), mine | new
        for n in own_nodes(f.node):
            if isinstance(n, ast.For) and names_in([n.iter], ast.Load) & mine and not any(isinstance(x, ast.Name) and x.id in ("issolid", "issurface") for b in n.body for x in ast.walk(b)):
                bad, paths, _, _ = body_verdicts(ctx, f, n.target, [Once(mine).visit(copy.deepcopy(b)) for b in n.body], n)
                ctx.count("measuring_loops")
                ctx.count("loop_paths", paths)
                ctx.check(not bad, "left-out", "%s:%s" % (f.qual, ast.unparse(n.iter)), "one of the pieces of the geometry: a path %s" % (bad[0][0] if bad else ""), "%s:%d" % (f.module.rel, n.lineno))


def sums(ctx):
    """A total that is read is added to: a name that only ever holds zero is none."""
    for m in ctx.p.modules.values():
        if not m.name.startswith(PKG):
            continue
        for f in ctx.p.all_funcs(m, True):
            held, grown, read = {}, set(), set()
            for n in own_nodes(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        pairs = zip(t.elts, n.value.elts) if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) else [(t, n.value)]
                        for a, v in pairs:
                            if isinstance(a, ast.Name) and isinstance(v, ast.Constant) and v.value in (0, 0.0) and not isinstance(v.value, bool):
                                held[a.id] = n.lineno
                            else:
                                grown |= {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Name):
                    (read if isinstance(n.ctx, ast.Load) else set()).add(n.id)
                if isinstance(n, (ast.AugAssign, ast.NamedExpr, ast.For, ast.comprehension)):
                    grown |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    grown |= set(n.names)
            nested = {x for d in own_nodes(f.node) if isinstance(d, (ast.FunctionDef, ast.Lambda)) for s in ast.walk(d) if isinstance(s, ast.Nonlocal) for x in s.names}
            zero_names = {k for k in held if k not in grown and k not in nested and k in read and not k.isupper()}
            for k in sorted(held):
                ctx.count("sums")
                ctx.check(k not in zero_names or not re.search(r"total|weight|sum|acc|count|volume|area|mass|mag", k), "never-added", "%s:%s" % (f.qual, k), "%s starts at zero, is read, and nothing is ever added to it" % k, "%s:%d" % (f.module.rel, held[k]))


def loading(ctx):
    """Every field of a plan's document is in the plan that is carried out."""
    p = ctx.p
    f = p.find(PKG + ".base.load_plan")
    if not isinstance(f, FuncInfo):
        return

    def P(n):
        return ("param", "$" + n)

    def D(n, *prs):
        return ("dict", tuple((C(k), v) for k, v in prs), ("site", "$" + n, 0, 0))

    def L(n, *xs):
        return ("list", tuple(xs), ("site", "$" + n, 0, 0))
    want = {"plan_id": [P("id")], "kind": [P("kind")], "backend": [P("backend")], "geometry": [P("source"), P("e1"), P("e2")], "materials": [P("m1"), P("m2")], "loads": [P("l1"), P("l2"), P("l3")],
            "boundary_conditions": [P("b1"), P("b2"), P("c1")], "acceptance": [P("a1"), P("a2")], "backend_options": [P("o1")], "execution": [P("mode"), P("command"), P("env")]}
    bcs = [("boundaryConditions", L("bc", P("b1"), P("b2"))), ("boundary_conditions", L("bc2", P("c1")))]
    for lab, given in (("both spellings", bcs), ("boundaryConditions", bcs[:1]), ("boundary_conditions", bcs[1:]), ("the first spelling empty", [("boundaryConditions", L("bc")), bcs[1]])):
        doc = D("doc", ("id", P("id")), ("kind", P("kind")), ("backend", P("backend")), ("geometry", D("g", ("source", P("source")), ("entities", L("e", P("e1"), P("e2"))))), ("materials", D("m", ("m1", P("m1")), ("m2", P("m2")))),
                ("loads", L("l", P("l1"), P("l2"), P("l3"))), *given, ("acceptance", D("a", ("a1", P("a1")), ("a2", P("a2")))), ("backendOptions", D("o", ("o1", P("o1")))),
                ("execution", D("x", ("mode", P("mode")), ("command", P("command")), ("env", D("v", ("K", P("env"))))), ), ("check", D("k", ("property", P("prop")))))

        def hook(eng, t, st, node):
            if t[1][0] == "ext" and t[1][1] in ("yaml.safe_load", "yaml.load", "yaml.full_load"):
                return [(st, doc)]
        eng = Engine(p, Pol(inline=lambda e, g, d: g.module is f.module and d < 3, fold=True, call_hook=hook, loop_iters=4, max_states=200, budget=60000, want_exc=False, list_cap=20))
        outs = [o for o in eng.run(f) if o.kind == "return"]
        ctx.count("loaded_plans", len(outs))
        present = {x for _, v in given for x in subterms(v) if x[0] == "param"}
        for k, vals in want.items():
            vals = [v for v in vals if k != "boundary_conditions" or v in present]
            miss = None
            for o in outs:
                v = o.value
                c = p.find(v[1][1]) if v[0] == "call" and v[1][0] == "class" else None
                if c is None:
                    continue
                t = o.state.heap.get((v, k)) or eng.ctor_field(v, c, k)
                if t is None:
                    miss = miss or "nothing"
                    continue
                have = set(subterms(t))
                gone = [x for x in vals if x not in have]
                if gone:
                    miss = miss or gone[0][1][1:]
            ctx.check(miss is None, "not-loaded", "%s:%s:%s" % (f.qual, k, lab), "%s of the plan's document is not in the plan's %s (%s given)" % (miss, k, lab), f.where)
        raw = [o for o in outs if o.value[0] == "call" and not any(("param", "$prop") in set(subterms(eng.ctor_field(o.value, p.find(o.value[1][1]), x) or NONE)) for x in ("raw", "metadata"))]
        ctx.check(not raw, "not-loaded", "%s:check:%s" % (f.qual, lab), "the check of the plan's document is in no field of the plan", f.where)


def check_spec(f):
    return any(isinstance(n, ast.Constant) and n.value == "check" for n in own_nodes(f.node))


def refuses(ctx, f, a):
    """f raises whenever the plan has any of a."""
    return any(isinstance(n, ast.If) and any(isinstance(x, ast.Attribute) and x.attr == a for x in ast.walk(n.test)) and any(isinstance(x, ast.Raise) for x in n.body) for n in own_nodes(f.node))


def material(ctx, c, fs):
    """Text where a record of numbers is used, and materials without the one used, must raise."""
    p = ctx.p
    mine = [f for f in fs if reads(f, "materials")]
    if not mine:
        ctx.check(False, "ignored", "%s:materials" % c.qual, "the backend neither uses nor refuses the materials of a plan", c.module.rel)
        return
    for f in mine:
        plan = next((x for x in f.params + f.kwonly if "plan" in x), None)
        if plan is None:
            continue
        ctx.count("material_functions")
        P = ("param", plan)
        for name, val in (("a file name", ("dict", ((C("default"), C("steel.yaml")),), ("site", "$m", 0, 0))),
                          ("materials without the one used", ("dict", ((C("\ufffeelsewhere"), ("param", "$spec")),), ("site", "$m", 0, 0)))):
            eng = Engine(p, Pol(inline=lambda e, fi, d: d < 3 and fi.module is f.module, fold=True, loop_iters=1, max_states=100, budget=30000, want_exc=True))
            outs = eng.run(f, heap={(P, "materials"): val})
            ok = all(o.kind == "raise" for o in outs)
            ctx.check(ok, "material", "%s:%s" % (f.qual, name), "given %s the backend goes on with a material of its own" % name, f.where)


def geometry(ctx, c, fs):
    """Geometry is read through the function that knows the plan's entities, and no entity of it is dropped."""
    p = ctx.p
    loads = []
    for f in fs:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if nm in ("load_geometry", "geometry_from_json", "plan_geometry"):
                    loads.append((f, n, nm))
    takes = [(f, n) for f, n, nm in loads if nm == "plan_geometry"]
    for f, n, nm in loads:
        if nm != "plan_geometry" and not any(isinstance(x, ast.Constant) and x.value == "entities" for x in own_nodes(f.node)):
            ctx.check(False, "entities", "%s:%s" % (f.qual, nm), "geometry is read without regard to the entities the plan names", "%s:%d" % (f.module.rel, n.lineno))
    if not loads:
        ctx.check(False, "ignored", "%s:geometry" % c.qual, "the backend does not read the geometry of the package", c.module.rel)
    for f, n in takes:
        G = [("param", "$g1"), ("param", "$g2")]
        lst = ("list", tuple(G), ("site", "$geo", 0, 0))

        def hook(eng, term, st, node):
            nm = term[1][-1] if isinstance(term[1][-1], str) else ""
            return [(st, lst)] if nm.rsplit(".", 1)[-1] == "plan_geometry" else None
        eng = Engine(p, Pol(inline=lambda e, fi, d: d < 2 and fi.module is f.module, call_hook=hook, fold=True, loop_iters=2, max_states=150, budget=40000, want_exc=False))
        outs = eng.run(f)
        ctx.count("geometry_paths", len(outs))
        bad = []
        for o in outs:
            if o.kind == "raise":
                continue
            have = {x for x in subterms(o.value) if x in G} if o.value else set()
            out = {g for at, v in o.state.facts.items() if not v for g in G if any(x == g for x in subterms(at))}
            if set(G) - have - out:
                bad.append(o)
        ctx.check(outs and not bad, "entity-dropped", f.qual, "with two entities a path keeps only one", f.where)


def named(ctx):
    """The function that picks the entities: every named one is in every normal result."""
    p = ctx.p
    pickers = [f for m in p.modules.values() if m.name.startswith(PKG) and not m.name.endswith((".schema", ".cli")) for f in p.all_funcs(m, True)
               if any(isinstance(x, ast.Constant) and x.value == "entities" for x in own_nodes(f.node)) and any("plan" in x for x in f.params)]
    ctx.floor("entity_pickers", len(pickers), 1)
    for f in pickers:
        plan = next(x for x in f.params if "plan" in x)
        A, B = ("param", "$id1"), ("param", "$id2")
        ids = ("list", (A, B), ("site", "$ids", 0, 0))
        geo = ("dict", ((C("entities"), ids),), ("site", "$geo", 0, 0))
        eng = Engine(p, Pol(inline=lambda e, fi, d: d < 2 and fi.module is f.module, fold=True, loop_iters=1, max_states=300, budget=60000, want_exc=False))
        outs = eng.run(f, heap={(("param", plan), "geometry"): geo})
        bad = [o for o in outs if o.kind == "return" and not {A, B} <= set(subterms(o.value))]
        ctx.count("picker_paths", len(outs))
        ctx.check(outs and not bad, "entity-missing", f.qual, "a named entity is missing from the result and nothing is raised", f.where)


FIX = """
def register_backend(name, c):
    pass

class Adapter:
    def solve(self, plan):
        bcs = self._bcs(plan)
        q = self._loads(plan)
        return self.problem(bcs, q)

    def _bcs(self, plan):
        out = []
        for spec in plan.boundary_conditions:
            if spec.get('type') != 'fixed':
                continue
            out.append(self.fix(spec))
        return out

    def _loads(self, plan):
        total = 0.0
        for load in plan.loads:
            mag = float(load.get('mag', 0.0))
            if mag == 0.0:
                continue
            total = total + self.form(load, mag)
            break
        return total

    def _all(self, plan):
        marks = self.marks()
        for load in plan.loads:
            mag = float(load.get('mag', 0.0))
            if not mag:
                continue
            where = locate_entities(load)
            marks[where] = mag
        return marks

register_backend('x', Adapter)
"""
GOOD = """
def register_backend(name, c):
    pass

class Adapter:
    def solve(self, plan):
        bcs = self._bcs(plan)
        q = self._loads(plan)
        return self.problem(bcs, q)

    def _bcs(self, plan):
        return [self._bc(spec) for spec in plan.boundary_conditions]

    def _bc(self, spec):
        if spec.get('type') != 'fixed':
            raise ValueError(spec)
        return self.fix(spec)

    def _loads(self, plan):
        total = 0.0
        for load in plan.loads:
            mag = float(load.get('mag', 0.0))
            if mag == 0.0:
                continue
            total = total + self.form(load, mag)
        return total

    def _all(self, plan):
        marks = self.marks()
        for load in plan.loads:
            mag = float(load.get('mag', 0.0))
            if not mag:
                continue
            where = locate_entities(load)
            marks[where] |= mag
        return marks

register_backend('x', Adapter)
"""


def selftest(ctx):
    import os
    import tempfile

    from ..project import Project
    for name, src, want in (("left out", FIX, {"_bcs", "_loads", "_all", "_all!"}), ("complete", GOOD, set())):
        with tempfile.TemporaryDirectory() as d:
            base = os.path.join(d, "src", "yapcad", "package", "analysis")
            os.makedirs(base)
            for x in (os.path.join(d, "src", "yapcad"), os.path.join(d, "src", "yapcad", "package"), base):
                open(os.path.join(x, "__init__.py"), "w").close()
            with open(os.path.join(base, "t.py"), "w") as fp:
                fp.write(src)
            q = Project(d)

            class X:
                p = q
            got = set()
            for c in adapters(q):
                for f in methods(q, c):
                    for a, t, b, n in loops(q, f, {}):
                        if body_verdicts(X, f, t, b, n)[0]:
                            got.add(f.name)
                        if list(overwrites(f, b)):
                            got.add(f.name + "!")
        if got != want: print(name, got)
        ctx.selftest(name, got == want)
