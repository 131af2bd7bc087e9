"""T01: a transformation moves every representation of a shape by the same amount, or drops it."""
import ast

from ..flow import C, FALSE, NONE, TRUE
from ..lib import *
from ..refs import own_nodes

PROP = dict(
    id="T01", title="A transformation moves every representation of a shape, or drops it",
    statement="When a solid is translated, rotated, mirrored or scaled (through the geometry functions, Geometry objects or the DSL's apply), the result's mesh, its OCC boundary representation and its native topology have all been moved by the same operation with the same parameters, and a representation that cannot follow is removed from the result. The original solid keeps its own shape. The solid is returned unmoved only if the parameters amount to no transformation. Moving native topology moves every vertex and every position, direction and length among the parameters of its curves and surfaces, and a rotation or scaling about a centre is the operation about the origin conjugated with the translation from the centre.",
    over=["inputs"], text="all solids with any combination of representations, all transformation parameters",
    why="Tests transform meshes; the other representations are looked at only by exporters and by OCC, which is not installed where the tests run, and show the wrong place only after several operations.",
    files=["src/yapcad/geom3d.py", "src/yapcad/brep.py", "src/yapcad/native_brep.py", "src/yapcad/geometry.py", "src/yapcad/combine.py", "src/yapcad/geom.py", "src/yapcad/dsl/runtime/builtins.py"],
    mech=[("solid transforms", "src/yapcad/geom3d.py: translatesolid, rotatesolid, mirrorsolid, scalesolid"), ("BREP transforms", "src/yapcad/brep.py, src/yapcad/native_brep.py"),
          ("Geometry objects", "src/yapcad/geometry.py, src/yapcad/combine.py"), ("DSL apply", "src/yapcad/dsl/runtime/builtins.py")],
    observe=["the surfaces, BREP and native topology of the transformed solid"],
    technique="path-sensitive dataflow (effect completeness per representation with argument correspondence) and parameter-key coverage of the native topology",
    note="The matrices' numeric entries and OCC's own transformation classes are assumed.",
)
EXPLAIN = ("Every returning path of the four solid transforms and of the DSL's apply is classified: unmoved copy (only behind a test of all factors, the offset or the angle), or surfaces stored from the surface transform plus, for each of the two other representations, a call of its transform or its removal on the returned solid, with "
           "equal terms for parameters of the same meaning. Each representation's own transform is walked likewise: it attaches a shape derived from the old one and all parameters, removes the data, or there was none. The parameter keys written by the constructors of native curves and surfaces are compared with the keys the native "
           "transform rewrites, by kind (position, direction, length).")
ASSUME = ["OCC's gp_Trsf setters and BRepBuilderAPI_Transform do what they document", "xform.Translation, Rotation and Scale return the matrices they name"]

G3, BREP, NB, GEOM, GY = "yapcad.geom3d", "yapcad.brep", "yapcad.native_brep", "yapcad.geom", "yapcad.geometry"
MEAN = {"cent": "center", "factor": "sx", "mat": "matrix", "m": "matrix", "angle": "ang"}
OPS = ("translate", "rotate", "mirror", "scale")


def reaches(p, modname, target):
    """Functions of a module that call `target` directly or through others of the module."""
    fs = {f.name: f for f in p.mod(modname).funcs.values()}
    hit = {target}
    while True:
        new = {n for n, f in fs.items() if n not in hit and any(dotted(c.func) in hit for c in own_calls(f.node))}
        if not new:
            return hit
        hit |= new


def fn_of(t):
    return t[1][1] if t[0] == "call" and t[1][0] == "fn" else None


def bound(p, t):
    """Formal name (by meaning) -> argument of a call of a known function."""
    f = p.sym(t[1][1]) if hasattr(p, "sym") and False else p.func(t[1][1])
    out = {}
    for n, a in zip(f.params, t[2]):
        out[n] = a
    out.update({k: v for k, v in t[3] if k})
    return f.params[0] if f.params else None, {MEAN.get(k, k): v for k, v in out.items()}


def same_copy(a, b):
    return strip_sites(a) == strip_sites(b) and a[4:] == b[4:]


def falsy(t, st):
    if t in (FALSE, NONE):
        return True
    for a, v in st.facts.items():
        if a[0] == "truth" and a[1] == t and not v:
            return True
        if a[0] == "eq" and v and t in a[1:] and (FALSE in a[1:] or NONE in a[1:]):
            return True
    return False


def equal_terms(st):
    """Terms known to be (close to) equal on this path."""
    cls = {}

    def root(x):
        while cls.get(x, x) != x:
            x = cls[x]
        return x
    for a, v in st.facts.items():
        if v and a[0] == "truth" and a[1][0] == "call" and (fname(a[1][1]) or "").split(".")[-1] in ("close", "isclose") and len(a[1][2]) >= 2:
            cls[root(strip_sites(a[1][2][0]))] = root(strip_sites(a[1][2][1]))
        if v and a[0] == "eq":
            cls[root(strip_sites(a[1]))] = root(strip_sites(a[2]))
    return lambda x, y: root(strip_sites(x)) == root(strip_sites(y))


def trivial_hook(eng, term, st, node):
    if term[0] == "call" and term[1][0] == "fn" and term[1][1].endswith(".close") and len(term[2]) == 2 and strip_sites(term[2][0]) == strip_sites(term[2][1]):
        return [(st, TRUE)]
    return None


class Reps:
    def __init__(self, p):
        self.p = p
        self.move = {"BREP": {BREP + "." + n for n in reaches(p, BREP, "attach_brep_to_solid")} - {BREP + ".attach_brep_to_solid"},
                     "native topology": {NB + "." + n for n in reaches(p, NB, "attach_native_brep_to_solid")} - {NB + ".attach_native_brep_to_solid"}}
        self.drop = {"BREP": {BREP + "._clear_brep_data"}, "native topology": {NB + ".clear_native_brep"}}
        for k, m in (("BREP", BREP), ("native topology", NB)):
            p.func(next(iter(self.drop[k])))
            # a wrapper whose whole body is a drop
            for f in p.mod(m).funcs.values():
                if any(dotted(c.func) in {d.split(".")[-1] for d in self.drop[k]} for c in own_calls(f.node)) and f.qual not in self.move[k] and not any(isinstance(n, (ast.If, ast.Return)) for n in own_nodes(f.node)):
                    self.drop[k].add(f.qual)

    def relevant(self):
        s = set()
        for k in self.move:
            s |= self.move[k] | self.drop[k]
        return s


def surface_movers(p):
    return {G3 + "." + o + "surface" for o in OPS if G3 and p.mod(G3).funcs.get(o + "surface")}


def uses_reps(p, fi, _seen=None):
    """Does a helper (directly or through same-module helpers) touch a representation or a surface mover?"""
    _seen = _seen or set()
    if fi.qual in _seen:
        return False
    _seen.add(fi.qual)
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.Name, ast.Attribute, ast.alias)):
            nm = n.id if isinstance(n, ast.Name) else n.name if isinstance(n, ast.alias) else n.attr
            if "brep" in nm or nm in {o + "surface" for o in OPS}:
                return True
    for c in own_calls(fi.node):
        r = resolve_call(p, fi, c)
        if isinstance(r, FuncInfo) and r.module is fi.module and uses_reps(p, r, _seen):
            return True
    return False


def surfs_of(t):
    """Surface-transform calls in the value stored as a solid's surfaces."""
    return [x for x in subterms(t) if x[0] == "call" and x[1][0] == "fn" and x[1][1].startswith(G3 + ".") and x[1][1].endswith("surface")]


def solid_transform(ctx, p, reps, fi, op, solid_param, movers, label, want_params):
    rel = reps.relevant()

    def track(ev, st):
        return (ev.kind == "call" and fn_of(ev.term) in rel) or (ev.kind == "setitem" and ev.args and ev.args[0] == C(1))

    def inline(eng, g, d):
        return g.module in (fi.module, p.mod(G3)) and g.qual not in movers and g.name != "issolid" and not g.name.startswith("issol") and uses_reps(p, g)
    outs, eng = ctx.walk(fi, Pol(inline=inline, track=track, call_hook=trivial_hook, may_raise=lambda t: False, want_exc=False, loop_iters=3, max_states=400, fold=True))
    x = solid_param if isinstance(solid_param, tuple) else ("param", solid_param)
    moved = n = 0
    for o in outs:
        if o.kind == "raise":
            continue
        for v in alts(o.value):
            w = v
            while w[0] == "call" and w[2] and not copy_of(w, x) and fn_of(w) and fn_of(w).endswith("_val"):
                w = w[2][0]
            if not copy_of(w, x) and w != x:
                if label == "apply" and not mentions_term(w, x):
                    continue
                if label == "apply":
                    continue    # not the solid branch
                ctx.bad("result-is-the-copy", label, "%s returns %s, not a copy of its solid" % (label, show(v)), fi.where)
                continue
            n += 1
            evs = [e for e in o.state.events]
            st = o.state
            stores = [e for e in evs if e[0] == "setitem" and w == e[1]]
            calls = [e[1] for e in evs if e[0] == "call" and e[1][2] and e[1][2][0] == w]
            if not stores:
                # unmoved copy
                tests = [a for a, val in st.facts.items() if val and a[0] == "truth" and a[1][0] == "call" and (fname(a[1][1]) or "").split(".")[-1] in ("close", "vclose")]
                tests += [a for a, val in st.facts.items() if val and a[0] == "eq"]
                tested = set()
                for a in tests:
                    for y in a[1:]:
                        tested |= {z[1] for z in subterms(y) if z[0] == "param"}
                need = [q for q in want_params if not falsy(("param", q), st)]
                miss = [q for q in need if q not in tested]
                ctx.check(bool(tests) and not miss, "unmoved-only-if-identity", label, "%s returns the solid unmoved without a test of %s" % (label, ", ".join(miss) or "its parameters"), fi.where)
                ctx.check(not calls, "unmoved-as-a-whole", label, "%s moves %s but not the surfaces" % (label, [show(c) for c in calls]), fi.where)
                continue
            moved += 1
            val = stores[-1][2][1]
            mesh = [c for c in surfs_of(val)]
            empty = any(not b and a[0] == "truth" and a[1][0] == "item" and a[1][1] == x for a, b in st.facts.items()) or (not mesh and val[0] == "list" and not val[1])
            margs = None
            if not empty:
                ok = bool(mesh) and all(c[1][1] in movers for c in mesh) and all(op is None or c[1][1] == G3 + "." + op + "surface" for c in mesh)
                ctx.check(ok, "surfaces-moved", label, "%s stores surfaces %s that were not moved by %s" % (label, show(val), op or "a surface transform"), fi.where)
                if mesh:
                    s0, margs = bound(p, mesh[0])
                    src = margs.pop(s0)
                    ctx.check(any(y == ("item", x, C(1)) for y in subterms(src)) or mentions_term(src, ("item", w, C(1))), "surfaces-of-the-solid", label, "%s moves %s, not the solid's own surfaces" % (label, show(src)), fi.where)
                    for q in want_params:
                        if not falsy(("param", q), st):
                            ctx.check(any(mentions_term(a, ("param", q)) for a in margs.values()), "surfaces-use-parameter", "%s:%s" % (label, q), "%s moves the surfaces without its parameter %s" % (label, q), fi.where)
            same = equal_terms(st)
            for rep in reps.move:
                mv = [c for c in calls if fn_of(c) in reps.move[rep]]
                dr = [c for c in calls if fn_of(c) in reps.drop[rep]]
                ctx.check(bool(mv or dr), "representation-follows", "%s:%s" % (label, rep), "on a path of %s the %s of the result is neither moved nor removed" % (label, rep), fi.where)
                ctx.check(len(mv) <= 1, "moved-once", "%s:%s" % (label, rep), "%s moves the %s twice" % (label, rep), fi.where)
                if not mv or dr:
                    continue
                nm = fn_of(mv[0]).split(".")[-1]
                if op is not None:
                    kind = [q for q in OPS if nm.startswith(q)]
                    ctx.check(not kind or kind == [op], "same-operation", "%s:%s" % (label, rep), "%s applies %s to the %s" % (label, nm, rep), fi.where)
                if margs is None:
                    continue
                s0, ra = bound(p, mv[0])
                ra.pop(s0, None)
                mf = {MEAN.get(q, q) for q in p.func(mesh[0][1][1]).params}
                for k, a in sorted(ra.items()):
                    if k in mf and k not in margs:
                        ctx.bad("same-parameter", "%s:%s:%s" % (label, rep, k), "%s moves the %s with %s=%s, which the surfaces do not get" % (label, rep, k, show(a)), fi.where)
                    if k in margs:
                        ctx.check(same(a, margs[k]), "same-parameter", "%s:%s:%s" % (label, rep, k), "%s moves the %s with %s=%s but the surfaces with %s" % (label, rep, k, show(a), show(margs[k])), fi.where)
                for k, a in sorted(margs.items()):
                    if k in ra or falsy(a, st):
                        continue
                    if k in ("sy", "sz"):
                        ctx.check(same(a, ra.get("sx", NONE)), "uniform-only", "%s:%s:%s" % (label, rep, k), "%s scales the %s uniformly on a path where %s is not known to equal the other factors" % (label, rep, k), fi.where)
                    elif k == "preserveNormal":
                        continue
                    elif "matrix" in ra:
                        continue    # the matrix says it all
                    else:
                        ctx.bad("same-parameter", "%s:%s:%s" % (label, rep, k), "%s moves the surfaces with %s=%s, which the %s does not get" % (label, k, show(a), rep), fi.where)
    ctx.check(moved > 0, "paths-found", label, "no path of %s moves the solid" % label, fi.where)
    return n


def copy_of(w, x):
    return w[0] == "call" and len(w[2]) == 1 and w[2][0] == x and (fname(w[1]) or w[1][-1] or "").split(".")[-1] in ("deepcopy", "copy", "solid")


def occ_part(ctx, p, reps):
    """Each function that re-attaches an OCC shape to a solid."""
    n = 0
    trs = sorted(q for q in reps.move["BREP"] if p.func(q).params[:1] == ["solid"] and p.func(q).name.split("_")[-1] == "solid" and any(o in q.split(".")[-1] for o in OPS + ("matrix", "apply")))
    opaque = {BREP + "." + x for x in ("attach_brep_to_solid", "brep_from_solid", "_clear_brep_data", "occ_available", "_regenerate_solid_id", "require_occ")}
    # functions that give a solid an identity of its own
    fresh = {f.qual for f in p.mod(BREP).funcs.values() if any("uuid" in (dotted(c.func) or "") for c in own_calls(f.node))}
    if not fresh:
        raise AnchorError("no function of brep.py gives a solid a new identity")
    opaque |= fresh
    for q in trs:
        fi = p.func(q)
        label = fi.name

        def track(ev, st):
            return ev.kind == "call" and (fn_of(ev.term) in opaque - {BREP + ".occ_available"} or (ev.term[1][0] == "attr" and ev.term[1][2].startswith("Set")))
        outs, eng = ctx.walk(fi, Pol(inline=lambda e, g, d: g.module is fi.module and g.qual not in opaque, track=track, loop_iters=1, max_states=400))
        rest = fi.params[1:]
        att = 0
        for o in outs:
            if o.kind == "raise":
                continue
            n += 1
            calls = [e[1] for e in o.state.events if e[0] == "call"]
            a = [c for c in calls if fn_of(c) == BREP + ".attach_brep_to_solid"]
            d = [c for c in calls if fn_of(c) == BREP + "._clear_brep_data"]
            s = ("param", fi.params[0])
            if a:
                att += 1
                rg = [c for c in calls if fn_of(c) in fresh and c[2][:1] == (s,)]
                ctx.check(bool(rg) and calls.index(rg[0]) < calls.index(a[-1]), "original-keeps-its-shape", label, "%s attaches the moved shape under the identity the copy shares with its original" % label, fi.where)
                ctx.check(a[-1][2][0] == s, "attached-to-the-solid", label, "%s attaches the shape to %s" % (label, show(a[-1][2][0])), fi.where)
                sets = [c for c in calls if c[1][0] == "attr" and c[1][2].startswith("Set")]
                val = a[-1][2][1]
                tr = [c for c in subterms(val) if c[0] == "call" and "BRepBuilderAPI_Transform" in (fname(c[1]) or "")]
                ctx.check(bool(tr), "shape-transformed", label, "%s attaches %s, which is not a transformed shape" % (label, show(val)), fi.where)
                for c in tr[:1]:
                    ctx.check(any(fn_of(y) == BREP + ".brep_from_solid" and y[2][:1] == (s,) for y in subterms(c[2][0])), "own-shape-transformed", label, "%s transforms %s, not the solid's own shape" % (label, show(c[2][0])), fi.where)
                    on = [z for z in sets if mentions_term(c[2][1], z[1][1]) or z[1][1] == c[2][1]]
                    used = {y[1] for z in on for w in z[2] for y in subterms(w) if y[0] == "param"}
                    for r in rest:
                        if falsy(("param", r), o.state):
                            continue
                        ctx.check(r in used, "operation-uses-parameter", "%s:%s" % (label, r), "%s transforms the shape without its parameter %s" % (label, r), fi.where)
                    for z in on:
                        ctx.check(z[1][2] == {"translate": "SetTranslation", "rotate": "SetRotation", "mirror": "SetMirror", "scale": "SetScale"}.get(label.split("_")[0], z[1][2]), "same-operation", "%s:OCC" % label, "%s uses %s" % (label, z[1][2]), fi.where)
                        if z[1][2] == "SetRotation":
                            ctx.check(any(iscall(y, "math.radians") and ("param", "ang") in list(subterms(y)) for w in z[2] for y in subterms(w)), "degrees-to-radians", label, "%s passes OCC an angle that is not converted from degrees" % label, fi.where)
                        if z[1][2] == "SetValues":
                            idx = [(w[1][2][1], w[2][1]) if w[0] == "item" and w[1][0] == "item" and w[2][0] == "const" and w[1][2][0] == "const" else None for w in z[2]]
                            ctx.check(idx == [(i, j) for i in range(3) for j in range(4)], "matrix-rows", label, "%s fills the transformation from %s" % (label, idx), fi.where)
            elif d:
                ctx.check(d[-1][2][:1] == (s,), "removed-from-the-solid", label, "%s removes the data of %s" % (label, show(d[-1])), fi.where)
            else:
                ok = any(a[0] == "eq" and v and NONE in a[1:] and any(fn_of(y) == BREP + ".brep_from_solid" for y in a[1:]) for a, v in o.state.facts.items()) \
                    or any(a[0] == "truth" and not v and fn_of(a[1]) in (BREP + ".brep_from_solid", BREP + ".has_brep_data") for a, v in o.state.facts.items())
                ok = ok or degenerate(o.state, rest)
                ctx.check(ok, "moved-or-removed", label, "%s may end without moving or removing the BREP of the solid (%s)" % (label, "; ".join("%s=%s" % (show(a), v) for a, v in list(o.state.facts.items())[-3:])), fi.where)
        ctx.check(att > 0, "paths-found", label, "no path of %s attaches a moved shape" % label, fi.where)
    return n, len(trs)


def degenerate(st, params):
    """The parameters describe no operation: unknown plane or an axis without direction."""
    for a, v in st.facts.items():
        if a[0] in ("le", "lt") and v and a[2][0] == "const" and isinstance(a[2][1], float) and a[2][1] <= 1e-6 and any(iscall(y, "math.sqrt", "math.hypot") or fn_of(y) == GEOM + ".mag" for y in subterms(a[1])) and any(y == ("param", "axis") for y in subterms(a[1])):
            return True
        if a[0] in ("le", "lt") and v and a[2][0] == "const" and isinstance(a[2][1], float) and a[2][1] <= 1e-6 and not any(y[0] == "param" and y[1] not in ("axis",) for y in subterms(a[1])) and any(iscall(y, "math.sqrt") for y in subterms(a[1])):
            return True
        if a[0] == "eq" and v and NONE in a[1:] and any(y[0] == "call" and y[1][0] == "attr" and y[1][2] == "get" and y[2][:1] and y[2][0] == ("param", "plane") for y in a[1:]):
            return True
        if a[0] == "in" and not v and a[1] == ("param", "plane"):
            return True
    return False


def names_behind(fi, fn_node):
    """Names a nested function depends on, through the locals of the enclosing function."""
    assigns = {}
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        assigns.setdefault(x.id, []).append(n.value)
    todo, seen = [n.id for n in ast.walk(fn_node) if isinstance(n, ast.Name)], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        for v in assigns.get(k, ()):
            todo += [n.id for n in ast.walk(v) if isinstance(n, ast.Name)]
    return seen


def native_part(ctx, p, reps):
    n = k = 0
    for q in sorted(reps.move["native topology"]):
        fi = p.func(q)
        if not any(fi.name.startswith(o) for o in OPS):
            continue
        k += 1
        label = fi.name
        T, A, F = NB + ".transform_topology_graph", NB + ".attach_native_brep_to_solid", NB + ".native_brep_from_solid"
        opaque = {T, A, F}

        def track(ev, st):
            return ev.kind == "call" and fn_of(ev.term) in opaque
        outs, eng = ctx.walk(fi, Pol(inline=lambda e, g, d: g.module is fi.module and g.qual not in opaque and any(dotted(c.func) and dotted(c.func).split(".")[-1] in ("transform_topology_graph", "attach_native_brep_to_solid", "native_brep_from_solid") for c in own_calls(g.node)),
                                     track=track, loop_iters=1, max_states=200, want_exc=False, may_raise=lambda t: False, key_flags=False))
        s = ("param", fi.params[0])
        done = 0
        for o in outs:
            if o.kind == "raise":
                continue
            n += 1
            calls = [e[1] for e in o.state.events if e[0] == "call"]
            none = any((a[0] == "eq" and v and NONE in a[1:] and any(fn_of(y) == F for y in a[1:])) or (a[0] == "truth" and not v and fn_of(a[1]) == F) for a, v in o.state.facts.items())
            t = [c for c in calls if fn_of(c) == T]
            a = [c for c in calls if fn_of(c) == A]
            if none and not t:
                continue
            done += 1
            ctx.check(len(t) == 1 and len(a) == 1 and calls.index(t[0]) < calls.index(a[0]), "native-moved-and-stored", label, "on a path of %s the native topology is moved %d times and stored %d times" % (label, len(t), len(a)), fi.where)
            for c in a[:1]:
                ctx.check(c[2][0] == s, "attached-to-the-solid", label, "%s stores the topology in %s" % (label, show(c[2][0])), fi.where)
                ctx.check(any(fn_of(y) == F and y[2][:1] == (s,) for y in subterms(c[2][1])) and (not t or t[0][2][0] == c[2][1]), "own-shape-transformed", label, "%s stores %s" % (label, show(c[2][1])), fi.where)
        ctx.check(done > 0, "paths-found", label, "no path of %s moves the native topology" % label, fi.where)
        # the point function uses every parameter
        fns = [x for x in ast.walk(fi.node) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fi.node]
        dep = set()
        for f in fns:
            dep |= names_behind(fi, f)
        if fns:
            for r in fi.params[1:]:
                ctx.check(r in dep, "operation-uses-parameter", "%s:%s" % (label, r), "%s moves points without its parameter %s" % (label, r), fi.where)
        for f in fns:
            for c in ast.walk(f):
                if isinstance(c, ast.Call) and len(c.args) == 3 and not c.keywords and (dotted(c.func) or "") in ("point", "vect"):
                    es = [alike(fi, a, i) for i, a in enumerate(c.args)]
                    ctx.check(len(set(es)) == 1, "coordinates-alike", label, "%s moves the coordinates differently: %s" % (label, ", ".join(ast.unparse(a) for a in c.args)), "%s:%d" % (fi.module.rel, c.lineno))
            gr = [c for c in ast.walk(f) if isinstance(c, ast.Call) and (dotted(c.func) or "").split(".")[-1].endswith(tuple(OPS))]
            for c in gr:
                nm = (dotted(c.func) or "").split(".")[-1].split("_")[-1]
                ctx.check(nm == label.split("_")[0], "same-operation", "%s:native" % label, "%s moves points by %s" % (label, nm), fi.where)
    return n, k


def alike(fi, e, i):
    """Text of a coordinate's expression with locals expanded and its own index abstracted."""
    one = {}
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            one.setdefault(n.targets[0].id, []).append(n.value)

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            v = one.get(n.id)
            if v and len(v) == 1 and not any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(v[0])):
                return self.visit(ast.parse(ast.unparse(v[0]), mode="eval").body)
            return n

        def visit_Constant(self, n):
            return ast.Name("_i") if type(n.value) is int and n.value == i else n
    return ast.unparse(T().visit(ast.parse(ast.unparse(e), mode="eval").body))


def const_keys(node):
    return {x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}


def classify(expr, env):
    """position / direction / length / None for a constructor's parameter value."""
    s = ast.unparse(expr)
    for _ in range(3):
        if isinstance(expr, ast.Name) and expr.id in env:
            expr = env[expr.id]
            s = ast.unparse(expr)
    return s


def native_keys(ctx, p):
    """Geometric parameter keys written by constructors, and keys the native transform rewrites."""
    m = p.mod(NB)
    am = p.mod("yapcad.analytic_surfaces")
    POS, DIR, LEN = set(), set(), set()
    INV = {"orientation", "bulge", "t_start", "t_end", "knots", "degree", "weights", "u_range", "v_range", "u_knots", "v_knots", "u_degree", "v_degree", "half_angle", "n_u", "n_v", "is_tessellated"}
    edge, surf = {}, {}
    for f in m.funcs.values():
        if not f.name.endswith("_edge") or f.name.startswith("_") or f.name.startswith(("is_", "brep_", "evaluate")):
            continue
        for d in ast.walk(f.node):
            if isinstance(d, ast.Dict):
                for k, v in zip(d.keys, d.values):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        edge.setdefault(k.value, kind(f, k.value, v))
    for f in am.funcs.values():
        if not f.name.endswith("_surface") or f.name.startswith(("_", "is_", "evaluate", "tessellate_")):
            continue
        st = None
        for r in own_nodes(f.node):
            if isinstance(r, ast.Return) and isinstance(r.value, ast.List) and r.value.elts and isinstance(r.value.elts[0], ast.Constant):
                st = r.value.elts[0].value
                data = r.value.elts[1]
        if st is None:
            continue
        for d in own_nodes(f.node):
            if isinstance(d, ast.Dict):
                for k, v in zip(d.keys, d.values):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        surf.setdefault(st, {}).setdefault(k.value, kind(f, k.value, v))
        surf.setdefault(st, {})["[1]"] = "structure" if isinstance(data, ast.Dict) else "position"
    return edge, surf, INV


LENGTHS = ("radius", "semi_major", "semi_minor", "major_radius", "minor_radius", "height", "length")


def kind(f, key, v):
    if key in LENGTHS or key.endswith("radius"):
        return "length"
    s = ast.unparse(v)
    if isinstance(v, ast.Name):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets):
                s += " " + ast.unparse(n.value)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name) and n.func.value.id == v.id:
                s += " " + ast.unparse(n)
    if "_normalize_vector" in s or key in ("normal", "axis", "ref_direction", "u_axis", "v_axis", "normals", "direction", "x_axis", "y_axis"):
        return "direction"
    if "_normalize_point" in s or "point(" in s or key in ("center", "origin", "apex", "vertices", "control_points"):
        return "position"
    return "other"


def rewrites(ctx, p):
    """What transform_topology_graph and its helpers rewrite: (surface type or None for edges, key) -> how."""
    fi = p.func(NB + ".transform_topology_graph")
    P, V = NB + "._transform_point", NB + "._transform_vector"
    done = {}

    def how(t):
        names = {fn_of(y) for y in subterms(t)} - {None}
        return "direction" if V in names else "position" if P in names else None

    def on_event(ev, st, eng):
        if ev.kind != "setitem":
            return
        key, val = ev.args[0], ev.args[1]
        h = how(val)
        if h is None:
            return
        typ = None
        for a, v in st.facts.items():
            if v and a[0] == "eq":
                for c in a[1:]:
                    if c[0] == "const" and isinstance(c[1], str) and c[1].endswith("_surface"):
                        typ = c[1]
            if v and a[0] == "in" and a[2][0] in ("tuple", "list", "set"):
                for c in a[2][1]:
                    if c[0] == "const" and isinstance(c[1], str) and c[1].endswith("_surface"):
                        done.setdefault((c[1], "[1]" if key == C(1) else key[1] if key[0] == "const" else "[1]"), h)
        edges = any(y[0] in ("attr",) and y[2] == "edges" for y in subterms(ev.term))
        verts = any(y[0] == "attr" and y[2] == "vertices" for y in subterms(ev.term))
        if edges:
            ks = [key[1]] if key[0] == "const" else []
            for k in ks:
                done.setdefault(("edge", k), h)
        elif verts and key == C(1):
            done[("vertex", "[1]")] = h
        elif typ is not None:
            k = key[1] if key[0] == "const" and isinstance(key[1], str) else "[1]"
            done.setdefault((typ, k), h)
        else:
            k = key[1] if key[0] == "const" and isinstance(key[1], str) else "[1]"
            done.setdefault(("any", k), h)
    ctx.walk(fi, Pol(inline=lambda e, g, d: g.module is fi.module and g.qual not in (P, V), on_event=on_event, loop_iters=1, max_states=300, want_exc=False, may_raise=lambda t: False))
    return done, fi


def native_coverage(ctx, p):
    edge, surf, INV = native_keys(ctx, p)
    done, fi = rewrites(ctx, p)
    n = 0
    ctx.check(done.get(("vertex", "[1]")) == "position", "native-key-moved", "vertex", "vertex locations are not moved", fi.where)
    for k, kd in sorted(edge.items()):
        if kd in ("position", "direction"):
            n += 1
            ctx.check(done.get(("edge", k)) == kd, "native-key-moved", "edge:%s" % k, "the curve parameter '%s' is a %s but is moved as %s" % (k, kd, done.get(("edge", k))), fi.where)
        elif kd == "other":
            ctx.check(k in INV, "native-key-known", "edge:%s" % k, "the curve parameter '%s' is neither moved nor known to be unaffected by transformations" % k, fi.where)
    for t, keys in sorted(surf.items()):
        for k, kd in sorted(keys.items()):
            if kd in ("position", "direction"):
                n += 1
                h = done.get((t, k), done.get(("any", k)))
                ctx.check(h == kd, "native-key-moved", "%s:%s" % (t, k), "parameter '%s' of a %s is a %s but is moved as %s" % (k, t, kd, h), fi.where)
            elif kd == "other":
                ctx.check(k in INV or k == "faces", "native-key-known", "%s:%s" % (t, k), "parameter '%s' of a %s is neither moved nor known to be unaffected by transformations" % (k, t), fi.where)
    sc = p.func(NB + ".scale_native_brep")
    texts = {"edges": set(), "faces": set()}

    def gather(node, which, depth=0):
        texts[which] |= const_keys(node)
        refd = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}
        for name, v in p.mod(NB).assigns.items():
            if name in refd:
                texts[which] |= const_keys(v if isinstance(v, ast.AST) else v[0])
        for f in p.mod(NB).funcs.values():
            if f.name in refd and f.name.startswith("_") and depth < 3:
                gather(f.node, which, depth + 1)

    def loops(fn, depth=0):
        for x in ast.walk(fn):
            if isinstance(x, ast.For):
                for which in texts:
                    if any(isinstance(y, ast.Attribute) and y.attr == which for y in ast.walk(x.iter)):
                        gather(x, which)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in p.mod(NB).funcs and x.func.id.startswith("_") and depth < 3:
                loops(p.mod(NB).funcs[x.func.id].node, depth + 1)
    loops(sc.node)
    for t, keys in [("edge", edge)] + sorted(surf.items()):
        for k, kd in sorted(keys.items()):
            if kd == "length":
                n += 1
                ctx.check(k in texts["edges" if t == "edge" else "faces"], "native-length-scaled", "%s:%s" % (t, k), "scaling native topology leaves the length '%s' of a %s as it was" % (k, t), sc.where)
    return n


def geometry_part(ctx, p):
    """Geometry objects: every transforming method stores a moved element and invalidates what was derived from the old one."""
    base = p.cls(GY + ".Geometry")
    n = 0
    fam = {"translate": {"translate", "translatesolid"}, "rotate": {"rotate", "rotatesolid"}, "scale": {"scale", "scalesolid"}, "mirror": {"mirror", "mirrorsolid"}, "transform": {"transform"}}
    for c in [base] + list(p.subclasses(base)):
        for mname, ops in fam.items():
            fi = c.methods.get(mname)
            if fi is None:
                continue
            label = "%s.%s" % (c.name, mname)
            me = fi.params[0]
            stop = {"_setElem", "_setUpdate", "_clearSurfaceCache", "_brepMirrorAxis"}

            def track(ev, st):
                if ev.kind == "store":
                    return True
                if ev.kind != "call":
                    return False
                f = ev.term[1]
                nm = f[2] if f[0] == "attr" else f[1].split(".")[-1] if f[0] == "fn" else ""
                return nm in ("_setElem", "_setUpdate", "_clearSurfaceCache") or (f[0] == "attr" and (nm.startswith("Set") or nm in fam)) or nm == "require_occ"

            def inline(e, g, d):
                return g.cls is not None and g.module is fi.module and g.name not in stop
            outs, eng = ctx.walk(fi, Pol(inline=inline, track=track, loop_iters=1, max_states=300, want_exc=False, may_raise=lambda t: False))
            for o in outs:
                if o.kind == "raise":
                    continue
                n += 1
                evs = o.state.events
                upd = setelem = None
                delegated = []
                sets = []
                for e in evs:
                    if e[0] == "call":
                        f = e[1][1]
                        nm = f[2] if f[0] == "attr" else f[1].split(".")[-1]
                        argv = e[1][2]
                        if nm == "_setUpdate":
                            upd = argv[-1] if argv else None
                        elif nm == "_setElem":
                            setelem = argv[-1]
                        elif nm.startswith("Set"):
                            sets.append(e[1])
                        elif nm in fam and f[0] == "attr":
                            delegated.append(e[1])
                    elif e[0] == "store" and str(e[2][0] if not isinstance(e[2][0], tuple) else e[2][0][1]).endswith("elem"):
                        setelem = e[2][1]
                    elif e[0] == "store" and str(e[2][0] if not isinstance(e[2][0], tuple) else e[2][0][1]) == "update":
                        upd = TRUE
                st = o.state
                # transform_brep_shape gives nothing only without OCC, which require_occ has ruled out
                nothing = any(a[0] == "truth" and not v and any(fn_of(y) == BREP + ".transform_brep_shape" for y in subterms(a[1])) for a, v in st.facts.items())
                if nothing and setelem is None and any(e[0] == "call" and (e[1][1][-1] if e[1][1][0] != "attr" else e[1][1][2]).split(".")[-1] == "require_occ" for e in evs):
                    continue
                noelem = any(a[0] == "truth" and not v and mentions_elem(a[1]) for a, v in st.facts.items())
                ctx.check(upd == TRUE, "derived-values-invalidated", label, "a path of %s moves the figure without marking its derived values stale" % label, fi.where)
                if delegated and setelem is None:
                    for dcall in delegated:
                        ctx.check(dcall[1][2] == mname, "same-operation", label, "%s applies %s to its elements" % (label, dcall[1][2]), fi.where)
                        pc(ctx, label, fi, [dcall], st)
                    continue
                if setelem is None:
                    ctx.check(noelem or (c is not base and empty_loop(st)), "element-moved", label, "a path of %s ends without a moved element" % label, fi.where)
                    continue
                calls = [y for y in subterms(setelem) if y[0] == "call"]
                tb = [y for y in calls if fn_of(y) == BREP + ".transform_brep_shape"]
                if tb:
                    on = [z for z in sets if z[1][1] in list(subterms(tb[0][2][1]))]
                    mt = [y for y in subterms(tb[0][2][1]) if y[0] == "call" and (fname(y[1]) or "").endswith("matrix_to_trsf")]
                    pc(ctx, label, fi, on + mt, st, skip=("keepSign",))
                    for z in on:
                        ctx.check(z[1][2] == {"translate": "SetTranslation", "rotate": "SetRotation", "mirror": "SetMirror", "scale": "SetScale"}.get(mname, z[1][2]), "same-operation", label + ":OCC", "%s uses %s" % (label, z[1][2]), fi.where)
                    continue
                mv = [y for y in calls if fn_of(y) and fn_of(y).split(".")[-1] in set().union(*fam.values())]
                ctx.check(bool(mv) and all(fn_of(y).split(".")[-1] in ops for y in mv), "element-moved", label, "%s stores %s, which is not the moved element" % (label, show(setelem)), fi.where)
                pc(ctx, label, fi, mv, st, skip=("keepSign",))
                if mname == "mirror" and "keepSign" in fi.params and mv and fn_of(mv[0]).endswith(".mirror"):
                    keep = [v for a, v in st.facts.items() if a == ("truth", ("param", "keepSign"))]
                    rev = any((fn_of(y) or "").endswith("reverseGeomList") for y in calls)
                    ctx.check(bool(keep) and keep[0] == rev, "sign-kept-on-demand", label, "%s with keepSign=%s %s the figure" % (label, keep[:1], "reverses" if rev else "does not reverse"), fi.where)
    return n


def mentions_elem(t):
    return any(y[0] == "attr" and y[2].endswith("elem") for y in subterms(t))


def empty_loop(st):
    return any(not v and a[0] == "truth" for a, v in st.facts.items())


def pc(ctx, label, fi, calls, st, skip=()):
    """Every parameter of the method reaches the operation (or is known to be equal to one that does)."""
    same = equal_terms(st)
    used = [y for c in calls for w in list(c[2]) + [v for _, v in c[3]] for y in subterms(w) if y[0] == "param"]
    for q in fi.params[1:] + fi.kwonly:
        if q in skip or falsy(("param", q), st):
            continue
        ok = ("param", q) in used or any(same(("param", q), u) for u in used)
        ctx.check(ok, "operation-uses-parameter", "%s:%s" % (label, q), "%s moves the figure without its parameter %s" % (label, q), fi.where)


def conjugation(ctx, p):
    n = 0
    for m in (GEOM, G3):
        for fi in p.mod(m).funcs.values():
            if not any(isinstance(x, ast.Constant) and x.value is True for x in ast.walk(fi.node)) or not any(isinstance(c.func, ast.Attribute) and c.func.attr == "Translation" for c in own_calls(fi.node)):
                continue
            seen = []

            def on_event(ev, st, eng):
                if ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] == "mul" and any(is_tr(y) for y in subterms(ev.term)):
                    seen.append((ev.term, ev.where))
            ctx.walk(fi, Pol(inline=lambda e, g, d: g.module is fi.module and any(isinstance(c.func, ast.Attribute) and c.func.attr == "Translation" for c in own_calls(g.node)) and g is not fi,
                             on_event=on_event, loop_iters=1, max_states=200, want_exc=False, may_raise=lambda t: False))
            full = [(t, w) for t, w in seen if t[2] and len(prod(t)) >= 3]
            for t, w in full:
                f = prod(t)
                if not any(is_tr(y) for y in f):
                    continue
                f = f[:3]
                ok = is_tr(f[0]) and not inv(f[0]) and is_tr(f[2]) and inv(f[2]) and strip_sites(f[0][2][0]) == strip_sites(f[2][2][0]) and not is_tr(f[1])
                n += 1
                ctx.check(ok, "about-the-centre", fi.qual, "%s composes %s instead of translation, operation, inverse translation" % (fi.qual, " * ".join(show(y) for y in f)), w)
    return n


def is_tr(t):
    return t[0] == "call" and (fname(t[1]) or "").split(".")[-1] == "Translation"


def inv(t):
    return any(k == "inverse" and v == TRUE for k, v in t[3]) or (len(t[2]) > 1 and t[2][-1] == TRUE)


def prod(t):
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "mul" and len(t[2]) == 1:
        return prod(t[1][1]) + prod(t[2][0])
    return [t]


def dsl_apply(p):
    m = p.mod("yapcad.dsl.runtime.builtins")
    for fi in p.all_funcs(m):
        for c in own_calls(fi.node):
            if (dotted(c.func) or "").split(".")[-1] == "BuiltinFunction" and c.args and isinstance(c.args[0], ast.Constant) and c.args[0].value == "apply":
                for a in c.args[1:] + [k.value for k in c.keywords]:
                    if isinstance(a, ast.Name):
                        for g in p.all_funcs(m):
                            if g.name == a.id and g.outer is fi:
                                return g
                        if a.id in m.funcs:
                            return m.funcs[a.id]
    raise AnchorError("the DSL builtin apply was not found")


def run(ctx):
    p = ctx.p
    reps = Reps(p)
    movers = surface_movers(p)
    n = 0
    for op in OPS:
        fi = p.func("%s.%ssolid" % (G3, op))
        want = [q for q in fi.params[1:] if MEAN.get(q, q) not in ("center", "axis", "preserveNormal", "matrix")]
        n += solid_transform(ctx, p, reps, fi, op, fi.params[0], movers, fi.name, want)
    ap = dsl_apply(p)
    n += solid_transform(ctx, p, reps, ap, None, ("attr", ("param", ap.params[1]), "data"), movers, "apply", [ap.params[0]])
    k, kk = occ_part(ctx, p, reps)
    j, jj = native_part(ctx, p, reps)
    keys = native_coverage(ctx, p)
    g = geometry_part(ctx, p)
    cj = conjugation(ctx, p)
    ctx.floor("solid transform paths", n, 10)
    ctx.floor("BREP transform functions", kk, 5)
    ctx.floor("native transform functions", jj, 4)
    ctx.floor("native parameter keys", keys, 20)
    ctx.floor("Geometry transform paths", g, 15)
    ctx.floor("conjugations", cj, 4)
