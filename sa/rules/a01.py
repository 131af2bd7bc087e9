"""A01: a check of an assembly passes only if everything it covers was examined and kept."""
import ast
import itertools

from ..lib import *
from ..project import AnchorError
from ..refs import own_nodes

PROP = dict(
    id="A01", title="A check of an assembly passes only if all it covers was examined",
    statement="yapCAD's assembly checks say that a requirement is kept only after comparing what they measured with the tolerance. (a) Where an assembly check (constraint, mate, coincidence, "
              "bolt circle, clearance) builds a result that is passed or satisfied, every error it reports in that result was compared and is not above its tolerance, and at least one "
              "measured quantity was compared; boxes that meet on all three axes fail NO_OVERLAP, and a mesh check that collides or fails does. (b) Constraint.evaluate runs the check of the constraint's own type; a type without a check, a CUSTOM constraint without a "
              "validator and a validator that raises fail; a KinematicConstraint likewise, on the transforms of its own frames, and it fails when a frame or a face it names is not found. (c) Assembly.validate and "
              "AssemblyValidator.validate evaluate every constraint (Assembly on its own part's datum in world coordinates), is_valid is "
              "False whenever one of severity error fails, each failed one is in failed_constraints or warnings, and validate_and_raise raises on every invalid result. (d) check_assembly "
              "examines every unordered pair of parts that is not in skip_pairs, with each part's own transform; a part without geometry or with an invalid transform, and a check that raises, give a result with an error "
              "message; an overlap is taken for an interface only if check_overlap_compatibility says so, and that says so only if some and all overlapping interface pairs of the two parts are "
              "compatible; gears need the same module and pressure angle, threads the same diameter and pitch and one internal side; a geometry is moved by its part's transform before it is checked. (e) Mate.evaluate lists each limit that the given state violates, and a position outside its limits is not satisfied. (f) AssemblyIntent collects the constraints of "
              "every requirement and connection, and solve reports no success when one of them is an error. (g) KinematicChain.validate names every part whose parent or parent frame is missing.",
    over=["inputs", "programs"], text="all assemblies, transforms and tolerances",
    why="A check that skips one element or one comparison still passes every correct assembly and fails most wrong ones.",
    files=["src/yapcad/assembly", "src/yapcad/collision", "src/yapcad/kinematics/chain.py"],
    mech=[("assembly validation", "src/yapcad/assembly/assembly.py:Assembly.validate"), ("constraint checks", "src/yapcad/assembly/constraint.py:Constraint.evaluate"),
          ("collision pairs", "src/yapcad/collision/detector.py:CollisionDetector.check_assembly"), ("mate limits", "src/yapcad/assembly/mate.py:Mate.evaluate"),
          ("clearance", "src/yapcad/assembly/intent.py:Clearance.validate")],
    observe=["is_valid / passed / satisfied of an assembly with one violated requirement", "the pairs in the results of check_assembly"],
    technique="path-sensitive typestate of verdict objects (measured error against tolerance on every passing path); abstract execution of the aggregating loops over small assemblies",
    note="The comparisons are found in the path conditions; what the measured numbers mean geometrically is not decided (N03, N06).",
)
EXPLAIN = ("Every construction of a result with passed or satisfied, path by path: the comparisons that hold when it passes; the aggregating loops walked over assemblies of known constraints, parts and interfaces.")
ASSUME = ["a measured error is the value put into an error_* or actual_* field of the result"]
S, NONE = ("param", "self"), ("const", None)


def C(v):
    return ("const", v)


def tr(eng, t, st):
    """Whether t is true in st: True, False, or None for both."""
    if t is None:
        return None
    bs = {b for _, b in eng.truth(t, st)}
    return bs.pop() if len(bs) == 1 else None


# ---- (a) verdicts ----

def atoms(v, val=True):
    """Comparisons that hold when the term v is true (val) or false."""
    if v[0] == "not":
        yield from atoms(v[1], not val)
    elif v[0] == "call" and v[1] in (("ext", "bool"), ("ext", "numpy.bool_")) and v[2]:
        yield from atoms(v[2][0], val)
    elif v[0] == "cmp":
        yield v[1], val
    elif v[0] in ("and", "boolop") and val:
        for x in v[1:]:
            if isinstance(x, tuple):
                for y in ([x] if x and isinstance(x[0], str) else x):
                    if isinstance(y, tuple) and y:
                        yield from atoms(y, val)


def norm(a, val):
    """(small, large) of a comparison that holds, or None."""
    if a[0] in ("lt", "le"):
        return (a[1], a[2]) if val else (a[2], a[1])
    return None


OVERLAP = ("_evaluate_no_overlap", "_evaluate_mesh_collision")


def overlap(ctx):
    """NO_OVERLAP has no tolerance: boxes that meet on all three axes fail, a mesh check decides by its own result."""
    p = ctx.p
    c = p.cls("yapcad.assembly.kinematic_integration.KinematicConstraint")
    f, g = (p.member(c, k) for k in OVERLAP)
    R = p.cls("yapcad.assembly.kinematic_integration.ConstraintEvaluationResult")
    n = 0
    A, B = ("param", f.params[1]), ("param", f.params[2])
    box = lambda lo, hi: ("tuple", (("tuple", tuple(C(float(x)) for x in lo)), ("tuple", tuple(C(float(x)) for x in hi))))
    for axes in itertools.product((-20, 0, 20), repeat=3):
        def hook(eng, t, st, node):
            if t[1] == ("attr", S, "_transform_aabb"):
                if t[2] == (A, ("attr", S, "bounds_a")):
                    return [(st, box((0, 0, 0), (10, 10, 10)))]
                if t[2] == (B, ("attr", S, "bounds_b")):
                    return [(st, box([x + 3 for x in axes], [x + 6 for x in axes]))]
                return [(st, box((9e9,) * 3, (9e9,) * 3))]
            return None
        outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.cls is c and fi.name not in ("_transform_aabb", OVERLAP[1]), call_hook=hook, fold=True, max_states=40), types={S: c},
                             heap={(S, "stl_path_a"): NONE, (S, "stl_path_b"): NONE, (S, "bounds_a"): ("attr", S, "bounds_a"), (S, "bounds_b"): ("attr", S, "bounds_b")},
                             facts={("eq", ("attr", S, "bounds_a"), NONE): False, ("eq", ("attr", S, "bounds_b"), NONE): False, ("eq", B, NONE): False})
        for o in outs:
            if o.kind != "return":
                continue
            n += 1
            got = tr(eng, eng.ctor_field(o.value, R, "satisfied") if o.value[0] == "call" else None, o.state)
            ctx.check(got is (axes != (0, 0, 0)), "overlap-fails", f"{f.qual.split('yapcad.')[-1]}:{axes}", f"a box at {axes} off a ten times larger one: satisfied={got}", f.where)
    ctx.floor("positions of two boxes", n, 27)
    # without the second part there is nothing examined
    outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, fold=True), types={S: c}, facts={("eq", B, NONE): True})
    for o in outs:
        if o.kind == "return":
            ctx.check(tr(eng, eng.ctor_field(o.value, R, "satisfied") if o.value[0] == "call" else None, o.state) is False, "overlap-fails", f"{f.qual.split('yapcad.')[-1]}:none", "passes without a second part", f.where)
    m = ("param", "mesh")
    for col, msg in ((True, None), (False, None), (False, "broken"), (True, "note")):
        given = []

        def hook(eng, t, st, node):
            if str(t[1]).find("check_mesh_collision") >= 0:
                given.append(t)
                return [(st, m)]
            return None
        outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: False, call_hook=hook, fold=True, max_states=40), types={S: c}, heap={(m, "collides"): C(col), (m, "error_message"): C(msg)})
        for o in outs:
            if o.kind != "return" or o.value[0] != "call":
                continue
            got = tr(eng, eng.ctor_field(o.value, R, "satisfied"), o.state)
            done = any(a[0] == "truth" and "HAS_TRIMESH" in str(a) and v is False for a, v in o.state.facts.items())
            ctx.check(got is (not done and not col and not msg), "mesh-decides", f"{g.qual.split('yapcad.')[-1]}:{col},{msg}", f"the mesh check says collides={col}, error={msg}: satisfied={got}", g.where)
        ctx.check(bool(given) and all(len(t[2]) >= 4 and t[2][0] == ("attr", S, "stl_path_a") and t[2][1] == ("param", g.params[1]) and t[2][2] == ("attr", S, "stl_path_b") and t[2][3] == ("param", g.params[2]) or t[3] for t in given),
                  "mesh-own-transform", f"{g.qual.split('yapcad.')[-1]}:{col},{msg}", "a mesh is checked with another part's transform", g.where)


def mentions(t, word):
    return any((x[0] == "attr" and word in str(x[2]) or x[0] == "param" and word in str(x[1])) for x in subterms(t) if isinstance(x, tuple) and len(x) > 1)


def verdicts(ctx):
    p, n, funcs = ctx.p, 0, 0
    for m in p.modules.values():
        if not m.name.startswith(("yapcad.assembly", "yapcad.collision")):
            continue
        for f in p.all_funcs(m, True):
            if not any(isinstance(c, ast.Call) and any(k.arg in ("passed", "satisfied") for k in c.keywords) for c in own_nodes(f.node)):
                continue
            funcs += 1
            who = f.qual.split("yapcad.")[-1]
            if who.endswith(OVERLAP):
                continue
            outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.module is m and d < 2 and len(list(ast.walk(fi.node))) < 120 and fi.name not in ("_parse_direction",), max_states=200, fold=True, loop_iters=1))
            for o in outs:
                if o.kind != "return" or not isinstance(o.value, tuple) or o.value[0] != "call":
                    continue
                cls = eng.p.cls(o.value[1][1]) if o.value[1][0] == "class" and o.value[1][1].startswith("yapcad") else None
                if cls is None:
                    continue
                kw = {k: eng.ctor_field(o.value, cls, k) for k in cls.fields}
                V = kw.get("passed", kw.get("satisfied"))
                if V is None:
                    continue
                if V == C(False):
                    continue
                n += 1
                if tr(eng, V, o.state) is False:
                    continue
                V = strip_sites(V)
                held = [norm(a, val) for a, val in atoms(V)] + [norm(strip_sites(a), val) for a, val in o.state.facts.items() if a[0] in ("lt", "le", "gt", "ge")]
                held = [h for h in held if h]
                none = any(a[0] == "eq" and a[2] == NONE and v and least(a[1]) for a, v in o.state.facts.items())
                low = lambda t: least(t) or none and t == C(0.0)
                tols = [(a, b) for a, b in held if limit(b) and not limit(a) and not low(b) and not cosine(b) and unscaled(b) or low(a) and not limit(b) and unscaled(a) or cosine(a) and a[0] == "call" or cosine(b) and b[0] != "call"]
                over = [a for a in exceeded(o.state.facts) if a not in held]
                ctx.check(not over, "none-exceeded", who, f"'{who}' passes on a path where a tolerance is exceeded: {str(over)[:120]}", f.where)
                lax = [a for a in map(strip_sites, o.state.facts) if a[0] in ("lt", "le") and any(limit(x) and not unscaled(x) for x in a[1:3])]
                ctx.check(not lax, "tolerance-as-given", who, f"'{who}' compares with a multiple of the tolerance: {str(lax)[:120]}", f.where)
                sub = [a for a, v in o.state.facts.items() if a[0] == "truth" and a[1][0] == "attr" and a[1][2] in ("satisfied", "passed") and not v]
                ctx.check(not sub, "part-not-kept", who, f"'{who}' passes although a check it is made of did not", f.where)
                site = f.where
                # something measured was compared, or the validator decides
                if V[0] == "call" and not tols:
                    ctx.check(mentions(V[1], "validator"), "measured", who, f"'{who}' passes on the result of {str(V[1])[:60]}, not on a comparison with a tolerance", site)
                    continue
                if V == C(True) and not tols:
                    ctx.check(any(a[0] in ("lt", "le") and val and ("param", f.params[1]) in subterms(a[1]) and a[2][0] == "const" for a, val in o.state.facts.items()) if len(f.params) > 1 else False,
                              "measured", who, f"'{who}' passes without comparing anything it measured", site)
                    continue
                ctx.check(bool(tols), "measured", who, f"'{who}' passes although nothing it measured was found to be within a tolerance: {str(V)[:90]}", site)
                for k, e in kw.items():
                    if e is None or k != "error" and not k.startswith(("error_", "actual_")) or k in ("error_message", "error_vector"):
                        continue
                    e = strip_sites(e)
                    if e[0] == "const" or e == NONE:
                        continue
                    core = e
                    ctx.check(not (core[0] == "call" and core[1] == ("ext", "min") and len(core[2]) > 1), "error-not-least", f"{who}:{k}", f"'{who}' reports the least of several errors as {k}", site)
                    if core[0] == "call" and core[1] == ("ext", "max") and not core[3]:
                        parts = [x for x in core[2] if x[0] != "const"]
                    else:
                        parts = [core]
                    if any(x[0] == "bin" and x[1] == "Sub" and low(x[2]) for x in parts):
                        ok = all((x[2], x[3]) in tols for x in parts)
                    elif k.startswith("actual_"):
                        ok = any(same(core, b) for a, b in held)
                    else:
                        ok = any(same(core, a) for a, b in tols) or all(any(same(x, a) for a, b in tols) for x in parts) or any(cosine(a) or cosine(b) for a, b in tols)
                    ctx.check(ok, "error-compared", f"{who}:{k}", f"'{who}' reports {k} in a result that passes without having found it within its tolerance", site)
    ctx.floor("functions that build verdicts", funcs, 8)
    ctx.floor("verdict paths", n, 12)


def limit(t):
    return mentions(t, "tol") or mentions(t, "required")


def least(t):
    """A bound from below: what must at least be between two parts."""
    return mentions(t, "required") or mentions(t, "min_distance") or mentions(t, "reference_radius")


def unscaled(t):
    """The tolerance is not multiplied by a number (a conversion of units is a call)."""
    return not any(x[0] == "bin" and x[1] in ("Mult", "Div") and any(y[0] == "const" and y[1] != 1 for y in x[2:4]) and limit(x) or x[0] == "un" and limit(x) and not cosine(x) for x in subterms(t) if isinstance(x, tuple) and len(x) > 2)


def exceeded(facts):
    """Measured values that a path found to be above a tolerance."""
    for a, v in facts.items():
        a = strip_sites(a)
        if a[0] == "le" and not v and limit(a[2]) and not limit(a[1]) and not least(a[2]) and not cosine(a[2]):
            yield a[1], a[2]
        elif a[0] == "lt" and v and limit(a[1]) and not limit(a[2]) and not least(a[1]) and not cosine(a[1]) and a[2][0] != "const":
            yield a[1], a[2]


def cosine(t):
    """cos(tolerance): a bound from below."""
    return any(iscall(x, "ext.math.cos") or x[0] == "call" and str(x[1]).find("'math.cos'") >= 0 and mentions(x, "tol") for x in subterms(t) if isinstance(x, tuple) and x)


def same(a, b):
    """a is b, up to float() and abs()."""
    strip = lambda t: strip(t[2][0]) if t[0] == "call" and t[1] in (("ext", "float"), ("ext", "numpy.float64")) and t[2] else t
    a, b = strip(a), strip(b)
    return a == b


# ---- (b) dispatch on the constraint's type ----

WORDS = {"TANGENT_TO_CIRCLE": "tangent", "RADIAL_FROM_CENTER": "radial", "FACING": "facing", "AT_RADIUS": "at_radius", "PARALLEL_TO": "parallel", "PERPENDICULAR_TO": "perpendicular"}


def dispatch(ctx):
    p = ctx.p
    c = p.cls("yapcad.assembly.constraint.Constraint")
    f = p.member(c, "evaluate")
    enum = p.cls("yapcad.assembly.constraint.ConstraintType")
    members = list(p.enum_members(enum))
    ctx.floor("constraint types", len(members), 8)
    seen = {}
    R = "yapcad.assembly.constraint.ConstraintResult"
    for mname in members:
        mem = ("enum", enum.qual, mname)
        outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.cls is c and not fi.name.startswith("_check"), fold=True, max_states=60), heap={(S, "constraint_type"): mem}, types={S: c})
        checks, verdicts_ = set(), []
        for o in outs:
            if o.kind != "return":
                continue
            v = o.value
            if v[0] == "call" and v[1][0] == "attr" and v[1][2].startswith("_check"):
                checks.add(v[1][2])
                ctx.check(v[2] == (("param", f.params[1]),), "dispatch-datum", f"Constraint.evaluate:{mname}", "the check is given something else than the datum in world coordinates", f.where)
                continue
            if v[0] == "call" and v[1] == ("class", R):
                ps = eng.ctor_field(v, p.cls(R), "passed")
                verdicts_.append((ps, o))
        if mname in WORDS:
            ctx.check(len(checks) == 1 and WORDS[mname] in next(iter(checks)), "dispatch", f"Constraint.evaluate:{mname}", f"a constraint of type {mname} is checked by {sorted(checks) or 'nothing'}", f.where)
            for k in checks:
                ctx.check(k not in seen, "dispatch-once", f"Constraint.evaluate:{mname}", f"{k} checks both {mname} and {seen.get(k)}", f.where)
                seen[k] = mname
        for ps, o in verdicts_:
            if ps == C(False):
                continue
            ok = mname == "CUSTOM" and any(x[0] == "call" and x[1] == ("attr", S, "validator") or x == ("attr", S, "validator") for x in subterms(ps) if isinstance(x, tuple) and x)
            ctx.check(ok, "unchecked-type-fails", f"Constraint.evaluate:{mname}", f"a constraint of type {mname} is reported as {str(ps)[:60]} without a check", f.where)
        if mname not in WORDS and mname != "CUSTOM":
            ctx.check(bool(checks) or bool(verdicts_) or any(o.kind == "raise" for o in outs), "unchecked-type-fails", f"Constraint.evaluate:{mname}:result", "no result", f.where)


def kinematic(ctx):
    """A KinematicConstraint runs the check of its own type on the transforms of its own frames; a frame or a face it does not find is not kept."""
    p = ctx.p
    c = p.cls("yapcad.assembly.kinematic_integration.KinematicConstraint")
    R = p.cls("yapcad.assembly.kinematic_integration.ConstraintEvaluationResult")
    enum = p.cls("yapcad.assembly.kinematic_integration.KinematicConstraintType")
    f = p.member(c, "evaluate")
    W, seen, n = ("param", f.params[1]), {}, 0
    TA, TB = ("param", "TA"), ("param", "TB")
    members = list(p.enum_members(enum))
    ctx.floor("kinematic constraint types", len(members), 8)
    for mname in members:
        for lost in (None, "A", "B", "face_a", "face_b", "faces", "A.v", "V"):
            if lost and lost.startswith(("A.", "V")) and mname != "CUSTOM":
                continue
            ran = []

            def hook(eng, t, st, node):
                if t[1][0] == "attr" and t[1][1] == S and t[1][2].startswith("_evaluate"):
                    ran.append((t[1][2], t[2] + tuple(v for k, v in t[3])))
                    return [(st, ("param", "verdict"))]
                if t[1] == ("attr", S, "_get_face_position"):
                    which = "face_a" if t[2][2:3] == (C("FA"),) else "face_b"
                    return [(st, ("tuple", (("param", "pos_" + which), C("lost") if lost in (which, "faces") else NONE)))]
                if t[1] == ("ext", "numpy.array") and t[2] and t[2][0] in (TA, TB):
                    return [(st, t[2][0])]
                return None
            w = ("dict", tuple((C(k), v) for k, v in (("A", TA), ("B", TB)) if k != lost), ("s", "w"))
            heap = {(S, "constraint_type"): ("enum", enum.qual, mname), (S, "frame_a"): C("A"), (S, "frame_b"): C("B"), (S, "face_a"): C("FA") if lost in ("face_a", "faces") else NONE, (S, "face_b"): C("FB") if lost in ("face_b", "faces") else NONE,
                    (S, "name"): C("k"), (S, "validator"): NONE if lost == "A.v" else ("param", "validator"), (TA, "matrix"): TA, (TB, "matrix"): TB}
            outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.cls is c and not fi.name.startswith(("_evaluate", "_get_face")), call_hook=hook, fold=True, max_states=40), bind={f.params[1]: w}, heap=heap, types={S: c},
                                 facts={("eq", TA, NONE): False, ("eq", TB, NONE): False, ("eq", ("param", "validator"), NONE): False, ("truth", ("param", "validator")): True})
            key = f"KinematicConstraint.evaluate:{mname}:{lost}"
            for o in outs:
                if o.kind != "return":
                    continue
                n += 1
                v = o.value
                if v == ("param", "verdict") or v[0] == "call" and v[1] in (("param", "validator"), ("attr", S, "validator")):
                    ctx.check(lost in (None, "V"), "lost-is-not-kept", key, f"although {lost} is missing the verdict is {str(v)[:50]}", f.where)
                    continue
                got = tr(eng, eng.ctor_field(v, R, "satisfied"), o.state) if v[0] == "call" and v[1] == ("class", R.qual) else None
                ctx.check(got is False, "lost-is-not-kept" if lost else "dispatch", key, f"with {lost} missing the result is {str(v)[:60]}", f.where)
            if lost is None:
                names = {k for k, _ in ran}
                if mname != "CUSTOM":
                    ctx.check(len(names) == 1 and mname.lower() in next(iter(names)), "dispatch", key, f"a constraint of type {mname} is checked by {sorted(names) or 'nothing'}", f.where)
                for k, a in ran:
                    ctx.check(a in ((TA, TB), (TA,)), "dispatch-own-frames", key, f"{k} is given {str(a)[:60]}", f.where)
    ctx.floor("kinematic dispatch paths", n, 40)


# ---- (c) Assembly.validate ----

def validation(ctx, cname="yapcad.assembly.assembly.Assembly", R="yapcad.assembly.assembly.AssemblyValidationResult", ok="passed"):
    p = ctx.p
    c = p.cls(cname)
    f = p.member(c, "validate")
    short = cname.rsplit(".", 1)[1]
    own = ok == "passed"
    cons = [("param", "c%d" % i) for i in range(3)]
    n = 0
    for sev in (("error", "error", "error"), ("error", "warning", "info"), ("warning", "error", "warning")):
        for fails in ((0,), (1,), (2,), (), (0, 2)):
            heap = {(S, "constraints"): ("list", tuple(cons), ("s", "constraints"))}
            facts = {}
            for i, k in enumerate(cons):
                heap[(k, "name")], heap[(k, "part")], heap[(k, "datum")], heap[(k, "severity")] = C("n%d" % i), C("p%d" % i), C("d%d" % i), C(sev[i])
                heap[(("param", "r%d" % i), ok)] = C(i not in fails)
                heap[(("param", "r%d" % i), "error_message")] = C("why%d" % i)
            used = []

            def hook(eng, t, st, node):
                if t[1][0] == "attr" and t[1][2] == "evaluate" and t[1][1] in cons:
                    i = cons.index(t[1][1])
                    used.append((i, t[2] + tuple(v for k, v in t[3])))
                    return [(st, ("param", "r%d" % i))]
                if t[1] == ("attr", S, "get_transformed_datum"):
                    a = list(t[2]) + [v for k, v in t[3]]
                    return [(st, ("world", tuple(a)))]
                return None
            outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.cls is c and fi.name != "get_transformed_datum", call_hook=hook, fold=True, max_states=40, loop_iters=6), heap=heap, facts=facts, types={S: c})
            rets = [o for o in outs if o.kind == "return"]
            name = f"{short}.validate:{'/'.join(sev)}:{fails}"
            ctx.check(bool(rets), "validated", name, "no result", f.where)
            for i in range(3):
                got = [a for j, a in used if j == i]
                ctx.check(bool(got) and all(a and a[0] == (("world", (C("p%d" % i), C("d%d" % i))) if own else ("param", f.params[1])) for a in got), "evaluated-on-own-datum", name + f":{i}",
                          f"constraint {i} of three is {'not evaluated' if not got else 'evaluated on ' + str(got[0])[:60]}", f.where)
            for o in rets:
                n += 1
                v = o.value
                if v[0] != "call" or v[1] != ("class", R):
                    ctx.bad("validated", name, f"validate returns {str(v)[:60]}", f.where)
                    continue
                g = lambda k: eng.ctor_field(v, p.cls(R), k)
                bad = [i for i in fails if sev[i] == "error"]
                valid = tr(eng, g("is_valid"), o.state)
                ctx.check(valid is (not bad), "valid-iff-no-error", name, f"with failed errors {bad} the result says is_valid={valid}", f.where)
                fc = items(eng, o, g("failed_constraints"))
                ctx.check(fc is not None and sorted(map(str, fc)) == sorted(str(C("n%d" % i)) for i in bad), "failures-listed", name, f"failed constraints {bad}, listed {str(fc)[:80]}", f.where)
                ws = items(eng, o, g("warnings"))
                want = [i for i in fails if sev[i] == "warning"]
                ctx.check(ws is not None and len(ws) == len(want), "warnings-listed", name, f"failed warnings {want}, listed {str(ws)[:80]}", f.where)
    ctx.floor(f"{short} validation cases", n, 15)
    # validate_and_raise
    g = p.member(c, "validate_and_raise")
    for valid in (True, False):
        heap = {(("param", "R"), "is_valid"): C(valid), (("param", "R"), "failed_constraints"): ("list", (C("a"),) if not valid else (), ("s", "fc"))}
        outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: False, call_hook=lambda e, t, st, nd: [(st, ("param", "R"))] if t[1] == ("attr", S, "validate") else None, fold=True, max_states=20), heap=heap, types={S: c})
        kinds = {o.kind for o in outs}
        ctx.check(kinds == ({"return"} if valid else {"raise"}) or not valid and kinds == {"raise"}, "raises-when-invalid", f"{short}.validate_and_raise:{valid}", f"for is_valid={valid} it ends with {sorted(kinds)}", g.where)
    if not own:
        return
    # the datum in world coordinates: the part's datum, moved by the part's transform
    g = p.member(c, "get_transformed_datum")
    outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: False), types={S: c})
    for o in outs:
        if o.kind == "return":
            v = strip_sites(o.value)
            ok = v[0] == "call" and v[1][0] == "attr" and v[1][2] == "transform" and v[2] and any(x[0] == "attr" and x[2] == "transforms" for x in subterms(v[2][0])) \
                and ("param", g.params[1]) in subterms(v[2][0]) and ("param", g.params[2]) in subterms(v[1][1]) and ("param", g.params[1]) in subterms(v[1][1])
            ctx.check(ok, "world-datum", "Assembly.get_transformed_datum", f"the datum handed out is {str(v)[:100]}", g.where)


def items(eng, o, t):
    """Elements of a list term in the state of o, or None."""
    if t is None:
        return None
    if t[0] in ("list", "tuple"):
        return list(t[1])
    return None


# ---- (d) collisions ----

def collisions(ctx):
    p = ctx.p
    c = p.cls("yapcad.collision.detector.CollisionDetector")
    f = p.member(c, "check_assembly")
    names = ["a", "b", "c", "d"]
    all_pairs = {frozenset((x, y)) for i, x in enumerate(names) for y in names[i + 1:]}
    for skip in (None, [("b", "a")], [("a", "c"), ("d", "c")], [("c", "b")]):
        used = []

        def hook(eng, t, st, node):
            if t[1] == ("attr", S, "check_collision"):
                fi = p.member(c, "check_collision")
                b = dict(zip(fi.params[1:], t[2]))
                b.update(dict(t[3]))
                used.append(tuple(b.get(k) for k in fi.params[1:5]))
                return [(st, ("param", "res%d" % len(used)))]
            return None
        w = ("dict", tuple((C(x), ("param", "T_" + x)) for x in names), ("s", "w"))
        sk = NONE if skip is None else ("list", tuple(("tuple", (C(x), C(y))) for x, y in skip), ("s", "skip"))
        outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, call_hook=hook, fold=True, max_states=30, loop_iters=8, list_cap=60), bind={f.params[1]: w, f.params[2]: sk}, heap={(S, "verbose"): C(False)}, types={S: c})
        want = all_pairs - {frozenset(x) for x in skip or ()}
        got = {frozenset((a[1], b[1])) for a, ta, b, tb in used if a and b and a[0] == b[0] == "const"}
        key = f"check_assembly:skip={skip}"
        if any(not (x and x[0] == "const") for a, _, b, _ in used for x in (a, b)):
            ctx.count("pairs not decided", 1)
            continue
        ctx.check(want <= got, "every-pair", key, f"of four parts the pairs {[sorted(x) for x in want - got]} are not checked", f.where)
        if any(a[0] == "in" for o in outs for a in o.state.facts):
            continue
        ctx.check(got <= want, "only-pairs", key, f"pairs checked that were to be skipped: {[sorted(x) for x in got - want]}", f.where)
        ctx.check(all(ta == ("param", "T_" + a[1]) and tb == ("param", "T_" + b[1]) for a, ta, b, tb in used), "own-transform", key, "a part is checked with another part's transform", f.where)
        for o in outs:
            if o.kind == "return":
                ls = items(eng, o, o.value)
                ctx.check(ls is not None and len(ls) == len(used) == len(want), "every-result", key, f"{len(used)} pairs were checked, {len(ls) if ls is not None else '?'} results returned", f.where)
    # check_collision
    f = p.member(c, "check_collision")
    A, B = ("param", f.params[1]), ("param", f.params[3])
    err = lambda v: v[0] == "call" and v[1][0] == "attr" and v[1][2] == "error" or v[0] == "call" and v[1][0] in ("class", "attr") and str(v[1][1]).endswith("CollisionResult") and any(k == "error_message" for k, _ in v[3])
    for miss in ("geom_a", "geom_b", "tf_a", "tf_b", None):
        for collides in (True, False):
            for compat in (True, False):
                R = ("param", "R")

                def hook(eng, t, st, node):
                    if t[1][0] == "attr" and t[1][2] == "_get_geometry":
                        w = "geom_a" if t[2] == (A,) else "geom_b"
                        return [(st, NONE if miss == w else ("param", w))]
                    if t[1][0] == "attr" and t[1][2] == "_to_numpy_transform":
                        w = "tf_a" if t[2] == (("param", f.params[2]),) else "tf_b"
                        return [(st, NONE if miss == w else ("param", w))]
                    if t[1][0] == "attr" and t[1][2] in ("_check_brep_collision", "_check_mesh_collision", "_check_aabb_collision"):
                        return [(st, R)]
                    if t[1][0] == "attr" and t[1][2] == "check_overlap_compatibility":
                        return [(st, ("tuple", (C(compat), ("param", "crs"))))]
                    return None
                fx = {}
                for w in ("geom_a", "geom_b", "tf_a", "tf_b"):
                    fx[("eq", ("param", w), NONE)] = False
                outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, call_hook=hook, fold=True, max_states=40), heap={(R, "collides"): C(collides), (R, "compatible_interface"): C(False)}, facts=fx, types={S: c})
                key = f"check_collision:missing={miss},collides={collides},compatible={compat}"
                for o in outs:
                    if o.kind != "return":
                        continue
                    if miss:
                        ctx.check(err(o.value), "unexamined-is-error", key, f"without {miss} the result is {str(o.value)[:70]}", f.where)
                    else:
                        ctx.check(o.value == R, "own-result", key, f"the result is {str(o.value)[:70]}, not the one of the check", f.where)
                        ci = o.state.heap.get((R, "compatible_interface"))
                        ctx.check(ci == C(collides and compat), "interface-only-if-compatible", key, f"compatible_interface is {ci}", f.where)
                        co = o.state.heap.get((R, "collides"))
                        ctx.check(co == C(collides), "collides-kept", key, f"collides becomes {co}", f.where)
                ctx.check(any(o.kind == "return" for o in outs), "own-result", key + ":returns", "no result", f.where)
    # a check that raises, or a geometry that does not load, is an error
    n = 0
    for name in ("_check_brep_collision", "_check_mesh_collision", "_check_aabb_collision"):
        g = p.member(c, name)
        for which in ("first", "second"):
            cnt = [0]

            def hook(eng, t, st, node):
                if t[1][0] == "attr" and t[1][2] in ("_load_mesh", "_load_brep_shape"):
                    first = t[2] and t[2][0] == ("param", g.params[2])
                    own = list(t[2]) + [v for k, v in t[3]]
                    ctx.check(own in ([("param", x) for x in g.params[2:4]], [("param", x) for x in g.params[5:7]]), "own-transform", f"{name}:load", "a part's geometry is loaded with something else than its own transform", g.where)
                    return [(st, NONE if (which == "first") == bool(first) else ("param", "shape"))]
                return None
            outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: False, call_hook=hook, fold=True, max_states=80, want_exc=True), facts={("eq", ("param", "shape"), NONE): False}, types={S: c})
            for o in outs:
                n += 1
                if o.kind == "return":
                    kw = dict(o.value[3]) if o.value[0] == "call" else {}
                    ctx.check(err(o.value) or kw.get("collides") == C(True), "unloaded-is-error", f"{name}:{which}", f"with the {which} geometry not loaded the result is {str(o.value)[:80]}", g.where)
                else:
                    ctx.bad("unloaded-is-error", f"{name}:{which}", f"ends with {o.kind}", g.where) if o.kind == "raise" and False else None
    ctx.floor("paths of geometry that does not load", n, 6)
    # a mesh check counts the points of each part that lie in the other
    g = p.member(c, "_check_mesh_collision")
    ma, mb = ("param", "mesh_a"), ("param", "mesh_b")

    def hook(eng, t, st, node):
        if t[1] == ("attr", S, "_load_mesh"):
            return [(st, ma if t[2][:1] == (("param", g.params[2]),) else mb)]
        return None
    outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: False, call_hook=hook, fold=True, max_states=60, loop_iters=1), types={S: c}, facts={("eq", ma, NONE): False, ("eq", mb, NONE): False})
    n = 0
    for o in outs:
        v = o.value if o.kind == "return" else None
        if v is None or v[0] != "call" or not dict(v[3]).get("metadata"):
            continue
        n += 1
        k = dict(v[3])["collides"]
        k = next((a for a, b in o.state.facts.items() if a[0] in ("lt", "le") and "contains" in str(a) and "sum" in str(a) and str(a).count("contains") > 1), k)
        of = {x[1][1] for x in subterms(k) if isinstance(x, tuple) and len(x) > 3 and x[0] == "call" and x[1][0] == "attr" and x[1][2] == "contains"}
        ctx.check({ma, mb} <= of, "both-ways", "_check_mesh_collision", f"whether two meshes collide is decided by the points inside {sorted(x[1] for x in of if x[0] == 'param')} alone", g.where)
    ctx.floor("results of the mesh check", n, 1)
    # boxes that are apart on one axis do not meet, boxes that meet on all three do
    g = p.member(c, "_aabb_intersects")
    ba, bb = ("param", g.params[1]), ("param", g.params[2])
    for pos in itertools.product((-20, 0, 20), repeat=3):
        heap = {}
        for i in range(3):
            for j, (x, y) in enumerate(((0.0, pos[i] + 3.0), (10.0, pos[i] + 6.0))):
                for b, z in ((ba, x), (bb, y)):
                    heap[("item", b, ("tuple", (C(j), C(i))))] = heap[("item", ("item", b, C(j)), C(i))] = C(z)
        outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: False, fold=True, max_states=40, loop_iters=4), types={S: c}, heap=heap)
        got = {tr(eng, o.value, o.state) for o in outs if o.kind == "return" and not any("HAVE_" in str(a) and b is False for a, b in o.state.facts.items())}
        ctx.check(bool(got) and got <= {pos == (0, 0, 0), None}, "boxes-meet", f"_aabb_intersects:{pos}", f"a box at {pos} off a larger one: {got}", g.where)
    # an overlap is an error unless it is an interface
    rcls = p.cls("yapcad.collision.result.CollisionResult")
    for col, com in itertools.product((True, False), repeat=2):
        for prop, want in (("is_error", col and not com), ("is_interface_overlap", col and com)):
            g = p.member(rcls, prop)
            outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: fi.cls is rcls, fold=True), types={S: rcls}, heap={(S, "collides"): C(col), (S, "compatible_interface"): C(com)})
            got = {tr(eng, o.value, o.state) for o in outs if o.kind == "return"}
            ctx.check(got == {want}, "error-unless-interface", f"CollisionResult.{prop}:{col},{com}", f"collides={col}, compatible={com}: {got}", g.where)
    # whether an overlap is an interface
    rc = p.cls("yapcad.collision.registry.InterfaceRegistry")
    g = p.member(rc, "check_overlap_compatibility")
    ia, ib = [("param", "ia%d" % i) for i in range(2)], [("param", "ib%d" % i) for i in range(2)]
    pairs = [(x, y) for x in ia for y in ib]
    n = 0
    for states in itertools.product(("apart", "ok", "bad"), repeat=4):
        if n > 200:
            break
        table = dict(zip(pairs, states))

        def hook(eng, t, st, node):
            if t[1][0] == "attr" and t[1][2] == "get_interfaces_for_part":
                return [(st, ("list", tuple(ia if t[2][:1] == (("param", g.params[1]),) else ib), ("s", "ifs", t[2])))]
            if t[1][0] == "attr" and t[1][2] == "overlaps_with":
                k = (t[1][1], t[2][0]) if (t[1][1], t[2][0]) in table else (t[2][0], t[1][1])
                return [(st, C(table.get(k) != "apart"))]
            if t[1][0] == "attr" and t[1][2] == "check_compatibility":
                k = (t[1][1], t[2][0]) if (t[1][1], t[2][0]) in table else (t[2][0], t[1][1])
                return [(st, ("param", "cr_" + table.get(k, "?")))]
            return None
        heap = {(("param", "cr_ok"), "is_compatible"): C(True), (("param", "cr_bad"), "is_compatible"): C(False), (("param", "cr_apart"), "is_compatible"): C(True)}
        outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: False, call_hook=hook, fold=True, max_states=30, loop_iters=6), heap=heap, types={S: rc})
        want = "ok" in states and "bad" not in states
        for o in outs:
            if o.kind == "return":
                n += 1
                v = o.value[1][0] if o.value[0] == "tuple" else None
                got = tr(eng, v, o.state) if v is not None else None
                ctx.check(got is want, "compatible-iff-all", f"check_overlap_compatibility:{'/'.join(states)}", f"with interface pairs {states} an overlap is {'an interface' if got else 'a collision'}", g.where)
    ctx.floor("interface tables", n, 81)


def interfaces(ctx):
    """Two interfaces are compatible only if what must agree agrees; the registry hands out every registered interface of a part; a geometry is checked where its part is."""
    p = ctx.p
    n = 0
    for cname, base, off in (("gear_interface.GearMeshInterface", {"module": 1.5, "pressure_angle": 20.0, "helix_angle": 0.0, "face_width": 8.0, "teeth": 20, "backlash": 0.1}, {"module": (1.6, 1.4, 1.51), "pressure_angle": (21.0, 14.5, 19.4)}),
                             ("thread_interface.ThreadInterface", {"major_diameter": 8.0, "pitch": 1.25, "minor_diameter": 6.6, "engagement_length": 10.0, "is_internal": False, "thread_type": "T"},
                              {"major_diameter": (8.1, 7.9, 10.0), "pitch": (1.0, 1.3, 1.5), "is_internal": (True,)})):
        c = p.cls("yapcad.collision." + cname)
        R = p.cls("yapcad.collision.interface.CompatibilityResult")
        f = p.member(c, "check_compatibility")
        O = ("param", f.params[1])
        for attr, values in [(None, (None,)), ("kind", (None,))] + list(off.items()):
            for v in values:
                heap = {}
                for k, x in base.items():
                    heap[(S, k)], heap[(O, k)] = C(x), C(x)
                if "is_internal" in base:
                    heap[(O, "is_internal")] = C(not base["is_internal"])
                if attr in base:
                    heap[(O, attr)] = C(v) if attr != "is_internal" else C(base["is_internal"])
                outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, fold=True, max_states=30), types={S: c} if attr == "kind" else {S: c, O: c}, heap=heap,
                                     facts={("isinstance", O, ("class", c.qual)): attr != "kind"})
                for o in outs:
                    if o.kind != "return" or o.value[0] != "call":
                        continue
                    n += 1
                    got = tr(eng, eng.ctor_field(o.value, R, "is_compatible"), o.state)
                    ctx.check(got is (attr is None), "interfaces-agree", f"{c.name}.check_compatibility:{attr}={v}", f"interfaces that differ in {attr or 'nothing'} ({base.get(attr)} and {v}): compatible={got}", f.where)
    ctx.floor("interface comparisons", n, 14)
    rc = p.cls("yapcad.collision.registry.InterfaceRegistry")
    f, g = p.member(rc, "register"), p.member(rc, "get_interfaces_for_part")
    # the index by part names every interface that was registered, and get_interfaces_for_part reads it
    I = ("param", f.params[1])
    for before in ((), ("x",)):
        one = ("param", "one")
        names = ("list", tuple(C(b) for b in before), ("s", "names"))
        heap = {(S, "_interfaces"): ("dict", tuple((C(b), one) for b in before), ("s", "i")), (S, "_by_part"): ("dict", ((C("P"), names),) if before else (), ("s", "p")), (S, "_by_type"): ("dict", (), ("s", "t")),
                (I, "name"): C("new"), (I, "part_name"): C("P"), (I, "interface_type"): C("T")}
        outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.cls is rc, fold=True), types={S: rc}, heap=heap)
        for o in outs:
            if o.kind not in ("return", "fall"):
                continue
            h = dict(o.state.heap)
            outs2, eng2 = ctx.walk(g, Pol(inline=lambda e, fi, d: fi.cls is rc, fold=True, loop_iters=4), bind={g.params[1]: C("P")}, types={S: rc}, heap=h)
            for o2 in outs2:
                if o2.kind == "return":
                    ls = items(eng2, o2, o2.value)
                    ctx.check(ls is not None and set(ls) == ({one} if before else set()) | {I}, "registered-is-found", f"InterfaceRegistry:{before}", f"after registering one more interface the part has {str(ls)[:80]}", g.where)
    c = p.cls("yapcad.collision.detector.CollisionDetector")
    n = 0
    for name in ("_load_mesh", "_load_brep_shape"):
        f = p.member(c, name)
        T = ("param", f.params[2])
        outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, max_states=80, track=lambda ev, st: ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] in ("apply_transform", "SetValues")), types={S: c})
        for o in outs:
            if o.kind != "return" or o.value == NONE or any("HAVE_NUMPY" in str(a) and v is False for a, v in o.state.facts.items()):
                continue
            n += 1
            moved = any(T in subterms(e[1]) and (e[1][1][2] == "apply_transform" or "Transform" in str(o.value)) for e in o.state.events)
            ctx.check(moved or T in subterms(o.value), "moved-to-its-place", f"CollisionDetector.{name}", "hands out a geometry that was not moved by its part's transform", f.where)
    ctx.floor("loaded geometries", n, 2)


# ---- (e) mate limits ----

def limits(ctx):
    p = ctx.p
    c = p.cls("yapcad.assembly.mate.Mate")
    lim = p.cls("yapcad.assembly.mate.MateLimits")
    f = p.member(c, "evaluate")
    L = ("param", "L")
    which = {"value": "current_position", "velocity": "current_velocity", "effort": "current_effort"}
    n = 0
    for fld in lim.fields:
        kind = fld.split("_", 1)[1] if "_" in fld else ""
        if kind not in which or not fld.startswith(("min_", "max_")):
            continue
        low = fld.startswith("min_")
        for at, val, violated in [(5.0, 7.0, True), (5.0, 0.0, False), (0.0, 1.0, True), (0.0, -1.0, kind != "value")] if not low else [(-5.0, -7.0, True), (-5.0, 0.0, False), (0.0, -1.0, True), (0.0, 1.0, False)]:
            heap = {(S, "limits"): L, (S, "dynamics"): NONE}
            for x in lim.fields:
                heap[(L, x)] = NONE
            heap[(L, fld)] = C(at)
            bind = {k: NONE for k in f.params[1:]}
            if which[kind] not in bind:
                raise AnchorError(f"Mate.evaluate has no parameter {which[kind]}")
            bind[which[kind]] = C(val)
            outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, fold=True, max_states=30), bind=bind, heap=heap, types={S: c}, facts={("eq", L, NONE): False, ("truth", L): True})
            key = f"Mate.evaluate:{fld}={at}:{val}"
            for o in outs:
                if o.kind != "return":
                    continue
                n += 1
                d = entries(o)
                vs = d.get("limit_violations")
                k = len(vs[1]) if vs is not None and vs[0] == "list" else None
                ctx.check(k == (1 if violated else 0), "violation-listed", key, f"{which[kind]}={val} with {fld}={heap[(L, fld)][1]}: {k} violations listed", f.where)
                if kind == "value":
                    ctx.check(d.get("satisfied") == C(not violated), "position-out-is-unsatisfied", key, f"{which[kind]}={val} with {fld}={heap[(L, fld)][1]}: satisfied={d.get('satisfied')}", f.where)
            ctx.check(any(o.kind == "return" for o in outs), "violation-listed", key + ":returns", "no result", f.where)
    ctx.floor("limit cases", n, 8)


def entries(o):
    v, d = o.value, {}
    if v[0] == "dict":
        for k, x in v[1]:
            if k[0] == "const":
                d[k[1]] = x
    for k, x in o.state.heap.items():
        if k[0] == "item" and len(k) == 3 and k[1] == v and k[2][0] == "const":
            d[k[2][1]] = x
    return d


# ---- (f) intent, (g) chain ----

def intent(ctx):
    p = ctx.p
    c = p.cls("yapcad.assembly.intent.AssemblyIntent")
    f = p.member(c, "collect_constraints")
    rq, cn = [("param", "req%d" % i) for i in range(2)], [("param", "con%d" % i) for i in range(2)]
    G = ("param", "geo")

    def hook(eng, t, st, node):
        if t[1][0] == "attr" and t[1][2] == "get_implied_constraints" and t[1][1] in rq:
            return [(st, ("list", (("dict", ((C("of"), t[1][1]),), ("s", "rd", t[1][1])),), ("s", "rl", t[1][1])))]
        if t[1][0] == "attr" and t[1][2] == "to_mate_spec" and t[1][1] in cn:
            return [(st, ("dict", ((C("of"), t[1][1]),), ("s", "cd", t[1][1])))]
        return None
    heap = {(S, "functional_requirements"): ("list", tuple(rq), ("s", "fr")), (S, "connections"): ("list", tuple(cn), ("s", "cn")), (S, "reference_geometry"): G}
    outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, call_hook=hook, fold=True, max_states=30, loop_iters=4), heap=heap, types={S: c})
    for o in outs:
        ls = items(eng, o, o.value) if o.kind == "return" else None
        got = {x for t in ls or () for x in subterms(t) if x in rq + cn}
        ctx.check(got == set(rq + cn), "all-collected", "AssemblyIntent.collect_constraints", f"of two requirements and two connections the constraints of {sorted(str(x[1]) for x in set(rq + cn) - got)} are missing", f.where)
    ctx.check(bool(outs), "all-collected", "AssemblyIntent.collect_constraints:returns", "no path", f.where)
    # solve
    f = p.member(c, "solve")
    R = "yapcad.assembly.intent.SolveResult"
    for kinds in (("mate", "error"), ("error", "mate"), ("mate", "mate"), ("error", "error")):
        ds = tuple(("dict", ((C("type"), C(k)), (C("message"), C("m%d" % i))), ("s", "k%d" % i)) for i, k in enumerate(kinds))
        outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, fold=True, max_states=30, loop_iters=4,
                                    call_hook=lambda e, t, st, nd: [(st, ("list", ds, ("s", "cc")))] if t[1] == ("attr", S, "collect_constraints") else None),
                             heap={(S, "functional_requirements"): ("list", (), ("s", "fr")), (S, "connections"): ("list", (), ("s", "cn"))}, types={S: c})
        for o in outs:
            if o.kind != "return":
                continue
            v = o.value
            cls = p.cls(R)
            suc = o.state.heap.get((v, "success"), eng.ctor_field(v, cls, "success") if v[0] == "call" else None)
            ctx.check(suc == C("error" not in kinds), "error-is-no-success", f"AssemblyIntent.solve:{'/'.join(kinds)}", f"with constraints {kinds} the result says success={suc}", f.where)


def chain(ctx):
    from . import c02
    p = ctx.p
    K = p.cls("yapcad.kinematics.chain.KinematicChain")
    f = p.member(K, "validate")
    n = 0
    for lost in (None, "parent", "frame"):
        for who in ("a", "c", "e"):
            heap, types, facts, PT, solid = c02.tree(p)
            P = c02.PARTS[who]
            if lost == "parent":
                heap[(P, "parent")] = C("nowhere")
            if lost == "frame":
                heap[(P, "parent_frame")] = C("NOFRAME")
            outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: False, fold=True, max_states=40, loop_iters=12,
                                        call_hook=lambda e, t, st, nd: [(st, ("list", (C("x"),), ("s", "chain")))] if t[1] == ("attr", S, "get_chain_to_root") else None), heap=heap, types=types, facts=facts)
            for o in outs:
                if o.kind != "return":
                    continue
                n += 1
                ls = items(eng, o, o.value)
                ctx.check(ls is not None and len(ls) == (1 if lost else 0), "chain-issue", f"KinematicChain.validate:{lost}:{who}", f"part {who} with a missing {lost}: {len(ls) if ls is not None else '?'} issues", f.where)
    ctx.floor("chains", n, 9)


def run(ctx):
    verdicts(ctx)
    overlap(ctx)
    dispatch(ctx)
    kinematic(ctx)
    validation(ctx)
    validation(ctx, "yapcad.assembly.kinematic_integration.AssemblyValidator", "yapcad.assembly.kinematic_integration.ValidationReport", "satisfied")
    collisions(ctx)
    interfaces(ctx)
    limits(ctx)
    intent(ctx)
    chain(ctx)
