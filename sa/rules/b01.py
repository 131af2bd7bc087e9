"""B01: a search by boxes misses nothing: boxes contain their shapes, and what meets a box is found."""
import ast
import itertools

from ..flow import Budget
from ..lib import *
from ..project import AnchorError

PROP = dict(
    id="B01", title="A search by boxes misses nothing",
    statement="yapCAD finds what may touch by bounding boxes, and nothing that touches is left out. (a) Two boxes are judged to overlap exactly when their intervals meet on every axis (both arguments in "
              "either order, 2D on the first two axes only). (b) The parts that box2boxes splits a box into cover it, and bbox2quad and bbox2oct put a box into cells that together hold all of it. (c) "
              "NTree.getElements returns every element whose bounding box meets the query box, and no element whose box does not, for a quadtree and an octtree, at every level of the tree and also for elements "
              "that were added after an earlier query. (d) The box of a point, a line, a polyline, a list of them, a mesh surface, a solid, a triangle and a segment holds all their points, widened by the given pad. (e) The trees "
              "of a surface and of a shell contain every triangle of the mesh; shells whose boxes come within the tolerance are not told apart; a shell's box is taken over the mesh that is searched; the "
              "intersection searches ask for a box that holds the triangle or segment, and test every candidate returned.",
    over=["inputs", "histories"], text="all boxes, trees and meshes",
    why="A search that misses one neighbour gives a hole in a boolean or an undetected collision only for particular geometry.",
    files=["src/yapcad/octtree.py", "src/yapcad/geom.py", "src/yapcad/geom3d.py", "src/yapcad/native_brep.py", "src/yapcad/boolean/native.py"],
    mech=[("overlap", "src/yapcad/octtree.py:boxoverlap2"), ("tree search", "src/yapcad/octtree.py:NTree.getElements"), ("cells", "src/yapcad/octtree.py:bbox2oct"),
          ("boxes", "src/yapcad/geom.py:polybbox"), ("shell search", "src/yapcad/native_brep.py:TopologyGraph.shells_intersect"), ("segment search", "src/yapcad/boolean/native.py:_collect_segment_intersections")],
    observe=["the elements getElements returns against a comparison of every box", "shells_intersect against all pairs of triangles"],
    technique="abstract interpretation over the finite abstraction of interval order (every relation of two intervals on every axis), with the tree code folded on representative boxes of each relation; call argument dataflow for the searches",
    note="Comparisons and min/max depend only on the order of the coordinates, so one representative per order decides all. Boxes taken from sampled curves (splines, ellipses) are approximations and not claimed.",
)
EXPLAIN = ("boxoverlap2 in every relation of intervals per axis; cells for every position of an element against the centre; NTree built and queried with known boxes; box functions for orders of "
           "coordinates; the functions that fill and query the trees.")
ASSUME = ["bounding boxes are ordered: the first corner is not above the second on any axis", "splines and ellipses, whose boxes are sampled, are outside the property"]
S, NONE = ("param", "self"), ("const", None)


def C(v):
    return ("const", v)


REL = {"before": (-9.0, -5.0), "after": (15.0, 19.0), "low": (-3.0, 4.0), "high": (6.0, 14.0), "within": (3.0, 7.0), "across": (-2.0, 13.0), "touch": (10.0, 14.0)}


def pt(*xs):
    return ("list", tuple(C(float(x)) for x in xs) + (C(1),), ("s", "pt") + xs)


def box(lo, hi):
    return ("list", (pt(*lo), pt(*hi)), ("s", "box") + tuple(lo) + tuple(hi))


def nums(eng, t, st):
    ms = eng.known(t, st)
    return [m[1] for m in ms] if ms is not None and all(m[0] == "const" and isinstance(m[1], (int, float)) for m in ms) else None


def vec(eng, t, st, node):
    """point, add, sub, scale3 of known numbers."""
    if t[1][0] != "fn" or t[3] or not t[1][1].startswith("yapcad.geom."):
        return None
    k = t[1][1].rsplit(".", 1)[1]
    if k in ("point", "vect") and t[2] and all(a[0] == "const" and isinstance(a[1], (int, float)) for a in t[2]):
        xs = [a[1] for a in t[2]]
    elif k in ("add", "sub", "scale3") and len(t[2]) == 2:
        a = nums(eng, t[2][0], st)
        b = nums(eng, t[2][1], st) if k != "scale3" else t[2][1][1] if t[2][1][0] == "const" else None
        if a is None or b is None:
            return None
        xs = [x * b for x in a[:3]] if k == "scale3" else [x + y if k == "add" else x - y for x, y in zip(a[:3], b[:3])]
    else:
        return None
    xs = (xs + [0.0] * 3)[:3]
    return [(st, ("list", tuple(C(float(x)) for x in xs) + (C(1),), ("s", "vec") + tuple(xs)))]


def walk(ctx, f, bind, hook=None, heap=None, trees=True, **kw):
    def h(eng, t, st, node):
        r = hook(eng, t, st, node) if hook else None
        return r if r is not None else vec(eng, t, st, node)
    kw.setdefault("max_states", 20)
    try:
        return ctx.walk(f, Pol(inline=lambda e, fi, d: trees and fi.module.name == "yapcad.octtree" or fi.name in INLINE, call_hook=h, fold=True, loop_iters=24, max_depth=14, list_cap=40, budget=200000, **kw), bind=bind, heap=heap)
    except Budget:    # not told
        return [], None


INLINE = {"isinsidebbox", "isinsidebbox2D", "polybbox", "pointbbox", "linebbox", "surfacebbox", "_segment_bbox", "_triangle_bbox", "_bbox_overlap"}


def verdict(outs, eng):
    """The truth values f may return, or None where the walk does not tell."""
    got = set()
    for o in outs:
        if o.kind == "return":
            got |= {x for _, x in eng.truth(o.value, o.state)}
        elif o.kind != "raise":
            return None
    return got


def value(eng, t, st):
    """A known nested list as Python lists, or None."""
    if t is None:
        return None
    if t[0] == "const":
        return t[1]
    ms = eng.known(t, st)
    if ms is None:
        return None
    r = [value(eng, m, st) for m in ms]
    return None if any(x is None for x in r) else r


def values(outs, eng):
    return [value(eng, o.value, o.state) for o in outs if o.kind == "return"]


def meets(ctx):
    p = ctx.p
    for name, tail in (("yapcad.octtree.boxoverlap2", (C(True),)), ("yapcad.octtree.boxoverlap2", (C(False),)), ("yapcad.boolean.native._bbox_overlap", (C(0.5),))):
        f = p.func(name)
        flat = tail == (C(False),)
        wrong = []
        for r in itertools.product(REL, repeat=2 if flat else 3):
            r3 = r + ("before",) * (3 - len(r))
            b = box([REL[k][0] for k in r3], [REL[k][1] for k in r3])
            a = box((0, 0, 0), (10, 10, 10))
            want = not {"before", "after"} & set(r)
            for x, y in ((a, b), (b, a)):
                got = verdict(*walk(ctx, f, dict(zip(f.params, (x, y) + tail))))
                ctx.count("box pairs", 1)
                if got is None or len(got) != 1:
                    ctx.count("box pairs not told", 1)
                elif got != {want}:
                    wrong.append(r)
        ctx.check(not wrong, "R-meet", "%s%s" % (f.name, " 2D" if flat else ""), "boxes that are %s each other on the axes are judged wrongly" % "/".join(wrong[0] if wrong else ()), f.where)


def cells(ctx):
    p = ctx.p
    split = p.func("yapcad.octtree.box2boxes")
    for n, fn in ((4, "bbox2quad"), (8, "bbox2oct")):
        f = p.func("yapcad.octtree." + fn)
        c = (4.0, 6.0, 3.0)
        vs = values(*walk(ctx, split, dict(zip(split.params, (box((0, 0, 0), (10, 10, 10)), pt(*c), C(n))))))
        if len(vs) != 1 or vs[0] is None:
            ctx.count("splits not told", 1)
            continue
        boxes = [x[0] for x in vs[0]]
        dims = 2 if n == 4 else 3

        def holds(b, q):
            return all(b[0][i] <= q[i] <= b[1][i] for i in range(dims))
        grid = [q for q in itertools.product((0.0, 1.5, 3.0, 3.5, 4.0, 5.0, 6.0, 8.0, 10.0), repeat=dims)]
        ctx.check(len(boxes) == n and all(any(holds(b, q) for b in boxes) for q in grid), "R-split", "box2boxes n=%d" % n, "the %d parts do not cover the box" % n, split.where)
        wrong = None
        for iv in itertools.product(("low", "high", "both", "tolow", "tohigh", "flat"), repeat=dims):
            lo, hi = [], []
            for k, x in zip(iv, c):
                a, b = {"low": (0.5, x - 1), "high": (x + 1, 9.5), "both": (x - 1, x + 1), "tolow": (1.0, x), "tohigh": (x, 9.0), "flat": (x, x)}[k]
                lo.append(a)
                hi.append(b)
            e = box((lo + [0.0])[:3], (hi + [0.0])[:3])
            for ref in (e, box((0, 0, 0), (10, 10, 10))):
                vs = values(*walk(ctx, f, dict(zip(f.params, (e, ref, pt(*c))))))
                ctx.count("assignments", 1)
                if len(vs) != 1 or vs[0] is None:
                    ctx.count("assignments not told", 1)
                    continue
                for q in itertools.product(*[(a, (a + b) / 2, b) for a, b in zip(lo, hi)]):
                    if not any(isinstance(j, int) and 0 <= j < len(boxes) and holds(boxes[j], q) for j in vs[0]):
                        wrong = wrong or (iv, vs[0])
        ctx.check(wrong is None, "R-cell", fn, "a box lying %s of the centre is put into the cells %s, which do not hold all of it" % (wrong or ("", "")), f.where)


BOXES = [((0, 0, 0), (1, 1, 1)), ((9, 9, 0), (10, 10, 2)), ((0, 9, 8), (1, 10, 10)), ((9, 0, 8), (10, 1, 9)), ((1, 1, 0), (9, 9, 10)), ((2, 2, 2), (3, 3, 3)), ((2.5, 1, 1), (5, 2, 4)),
         ((5, 5, 5), (6, 6, 6)), ((1, 2, 1), (2, 2.2, 1.5)), ((0.5, 3, 4), (1.5, 4, 5)), ((0, 0, 7), (10, 10, 7)), ((2, 1, 9), (2, 1, 9)),
         ((1, 1, 2), (2, 2, 3)), ((3, 3, 1), (4, 4, 2)), ((6, 1, 1), (7, 2, 2)), ((3.2, 0.4, 6), (4, 1.2, 7)), ((8, 6, 3), (9, 7, 4)), ((4, 2, 4), (6, 3, 6))]
QUERIES = [((0, 0, 0), (0.5, 0.5, 0.5)), ((9.5, 9.5, 1), (12, 12, 12)), ((-5, -5, -5), (20, 20, 20)), ((2, 2, 2), (2.2, 2.2, 2.2)), ((5, 5, 5), (5, 5, 5)), ((4.5, 1.5, 2), (5.5, 1.6, 9)),
           ((12, 12, 12), (13, 13, 13)), ((1.2, 2.1, 1.2), (1.3, 2.1, 1.2)), ((0, 0, 6.5), (0.2, 10, 7.5)), ((2, 1, 9), (2, 1, 9)), ((0, 3.5, 4.5), (10, 3.5, 4.5)), ((-3, -3, 4), (0, 0, 8)),
           ((6.5, 1.5, 1.5), (6.6, 1.6, 1.6)), ((3.5, 3.5, 1.5), (3.6, 3.6, 9)), ((8.5, 6.5, 0), (8.6, 6.6, 3))]


def tree(ctx):
    p = ctx.p
    cls = p.cls("yapcad.octtree.NTree")
    get, add = p.member(cls, "getElements"), p.member(cls, "addElement")
    for n, deep, small in ((4, 2, 1.0), (8, 2, 1.0), (4, 5, 3.0)):    # leaves by count and depth, and by size
        dims = 2 if n == 4 else 3
        es = [("param", "e%d" % i) for i in range(len(BOXES) + 1)]
        lo, hi = (0, 0, 0), (10, 10, 10)
        extra = ((12, 12, 12), (13, 13, 13))

        def hook(eng, t, st, node):
            if t[1] == ("fn", "yapcad.geom.bbox") and len(t[2]) == 1:
                return [(st, box(*(BOXES + [extra])[es.index(t[2][0])] if t[2][0] in es else (lo, (13, 13, 13) if es[-1] in subterms(t[2][0]) else hi)))]
            if t[1] == ("fn", "yapcad.octtree.untag"):
                return [(st, t[2][0])]
            if t[1] == ("fn", "yapcad.geom.isgeomlist"):
                return [(st, C(True))]
        heap = {(S, "__n"): C(n), (S, "__depth"): C(0), (S, "__maxdepth"): C(deep), (S, "__mindim"): C(small), (S, "__update"): C(True),
                (S, "__geom"): ("list", tuple(es[:-1]), ("s", "geom")), (S, "__center"): NONE, (S, "__octree_size"): C(256)}
        missed, more, told = None, None, 0

        def ask(q, heap, es2, bxs):
            nonlocal missed, more, told
            outs, eng = walk(ctx, get, {get.params[0]: S, get.params[1]: box(*q)}, hook=hook, heap=heap, recurse=5, max_states=8)
            rets = [o for o in outs if o.kind == "return"]
            ctx.count("queries", 1)
            ms = eng.known(rets[0].value, rets[0].state) if len(rets) == 1 and rets[0].value is not None else None
            if ms is None or len(outs) != 1 or not all(m in es for m in ms):
                ctx.count("queries not told", 1)
                return None
            told += 1
            want = {e for e, b in zip(es2, bxs) if all(b[0][i] <= q[1][i] and q[0][i] <= b[1][i] for i in range(dims))}
            if want - set(ms):
                missed = missed or (q, sorted(want - set(ms))[0][1])
            if set(ms) - want:
                more = more or (q, sorted(set(ms) - want)[0][1])
            return rets[0].state.heap
        after = None
        for k, q in enumerate(QUERIES):
            if k == 3 and not told:    # the tree code cannot be folded
                break
            after = ask(q, heap, es[:-1], BOXES) or after
        if not told:
            continue
        ctx.check(not missed, "R-find", "NTree.getElements n=%d%s" % (n, "" if small == 1.0 else " by size"), "a query with the box %s does not return the element %s, whose box meets it" % (missed or ("", "")), get.where)
        ctx.check(not more, "R-only", "NTree.getElements n=%d%s" % (n, "" if small == 1.0 else " by size"), "a query with the box %s returns the element %s, whose box does not meet it" % (more or ("", "")), get.where)
        if after is None:
            continue
        missed = None
        outs, eng = walk(ctx, add, {add.params[0]: S, add.params[1]: es[-1], add.params[2]: C(None)}, hook=hook, heap=after)
        rets = [o for o in outs if o.kind == "return"]
        if len(rets) == 1:
            ask(((12.5, 12.5, 12.5), (12.6, 12.6, 20)), rets[0].state.heap, es, BOXES + [extra])
            ctx.check(not missed, "R-find", "NTree.addElement n=%d%s" % (n, "" if small == 1.0 else " by size"), "an element added after a query is not found by the next one", add.where)


def triples():
    """Three points, every order of the coordinates on every axis."""
    for x, y, z in itertools.product(itertools.permutations((1.0, 4.0, 9.0)), repeat=3):
        yield list(zip(x, y, z))


def inside(vs, pts, pad=0.0, tight=None):
    """Whether every returned box holds the points widened by pad; None when not told."""
    if not vs or any(not isinstance(v, list) or len(v) != 2 or any(not isinstance(c, list) or len(c) < 3 for c in v) for v in vs):
        return None
    return all(v[0][i] <= q[i] - pad and q[i] + pad <= v[1][i] for v in vs for q in pts for i in range(3))


def lst(xs, tag):
    return ("list", tuple(xs), ("s", "lst", tag))


def holds(ctx):
    p = ctx.p
    tri = list(triples())
    T = lambda ts: lst([pt(*q) for q in ts], tuple(map(tuple, ts)))
    for name in ("yapcad.geom.polybbox", "yapcad.geom.linebbox", "yapcad.geom.pointbbox", "yapcad.geom.geomlistbbox", "yapcad.geom3d.surfacebbox", "yapcad.geom3d.solidbbox",
                 "yapcad.boolean.native._triangle_bbox", "yapcad.boolean.native._segment_bbox"):
        f = p.func(name)
        bad = None
        for ts in tri[::1 if name.endswith("polybbox") else 5]:
            pts, pad = ts, 0.0
            if f.name == "linebbox":
                pts = ts[:2]
                args = (T(pts),)
            elif f.name == "pointbbox":
                pts = ts[:1]
                args = (pt(*pts[0]),)
            elif f.name == "polybbox":
                args = (T(ts),)
            elif f.name == "geomlistbbox":
                args = (lst([T([ts[0]] * 3), T([ts[1]] * 2), pt(*ts[2])], ("gl",) + tuple(map(tuple, ts))),)
            elif f.name == "surfacebbox":
                args = (lst([C("surface"), T(ts), lst([], "n"), lst([], "f"), lst([], "b"), lst([], "h")], ("surf",) + tuple(map(tuple, ts))),)
            elif f.name == "solidbbox":
                ss = [lst([C("surface"), T([q]), lst([], "n"), lst([], "f"), lst([], "b"), lst([], "h")], ("surf",) + tuple(q)) for q in ts]
                args = (lst([C("solid"), lst(ss, ("ss",) + tuple(map(tuple, ts))), lst([], "m"), lst([], "c")], ("sol",) + tuple(map(tuple, ts))),)
            elif f.name == "_triangle_bbox":
                args, pad = (T(ts), C(0.25)), 0.25
            else:
                pts = ts[:2]
                args, pad = (pt(*pts[0]), pt(*pts[1]), C(0.25)), 0.25

            def hook(eng, t, st, node):
                if t[1][0] != "fn":
                    return None
                k = t[1][1].rsplit(".", 1)[1]
                if k in ("isgeomlist", "issurface", "issolid"):
                    return [(st, C(True))]
                a = t[2][0] if t[2] else None
                ms = a[1] if a is not None and a[0] == "list" else None
                if k in ("ispoint", "isline", "ispoly", "isarc", "isellipse", "iscatmullrom", "isnurbs") and ms is not None:
                    point = bool(ms) and ms[0][0] == "const"
                    return [(st, C(k == "ispoint" and point or k == "isline" and not point and len(ms) == 2 or k == "ispoly" and not point and len(ms) > 2))]
            vs = values(*walk(ctx, f, dict(zip(f.params, args)), hook=hook))
            r = inside(vs, pts, pad)
            ctx.count("boxes", 1)
            if r is None:
                ctx.count("boxes not told", 1)
            elif not r:
                bad = bad or (pts, vs[0])
        ctx.check(bad is None, "R-hold", f.name, "the box of the points %s is %s, which does not hold them" % (bad or ("", "")), f.where)


BREP = "yapcad.native_brep.TopologyGraph"


def name_of(t):
    f = t[1] if t[0] == "call" else t
    return f[1].rsplit(".", 1)[1] if f[0] in ("fn", "class") else f[2] if f[0] == "attr" else None


def plain(t):
    """A list display as Python lists, as it was when the event happened."""
    if t[0] == "const":
        return t[1]
    if t[0] not in ("list", "tuple"):
        return None
    r = [plain(x) for x in t[1]]
    return None if any(x is None for x in r) else r


def calls(st, name):
    return [e for e in st.events if name_of(e[1]) == name]


def users(ctx):
    """The searches that use the trees and the boxes."""
    p = ctx.p
    cls = p.cls(BREP)
    track = lambda ev, st: ev.kind == "call" and name_of(ev.term) in ("addElement", "getElements", "triTriIntersect", "_segment_triangle_intersection_param", "tessellate_surface")
    # every triangle of a mesh goes into its tree
    verts = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 2.0, 0.0), (0.0, 2.0, 3.0)]
    faces = [(0, 1, 2), (0, 2, 3), (3, 1, 0), (2, 1, 3)]
    V = lst([pt(*v) for v in verts], "verts")
    F = lst([lst([C(i) for i in f], ("f",) + f) for f in faces], "faces")
    mesh = lst([C("surface"), V, lst([], "n"), F, lst([], "b"), lst([], "h")], "mesh")
    for f, bind in ((p.func("yapcad.boolean.native.surface_octree"), lambda f: {f.params[0]: mesh, f.params[1]: C(True)}),
                    (p.member(cls, "shell_octree"), lambda f: {f.params[0]: S, f.params[2]: C(True)})):
        def hook(eng, t, st, node):
            if name_of(t) == "tessellate_shell":
                return [(st, mesh)]
            if name_of(t) in ("_iter_shell_triangles", "_iter_triangles_from_surface"):
                return [(st, lst([lst([pt(*verts[i]) for i in fc], ("tri",) + fc) for fc in faces], "tris"))]
        outs, eng = walk(ctx, f, bind(f), hook=hook, track=track, trees=False)
        lost = None
        for o in outs:
            if o.kind != "return" or o.value is None or name_of(o.value) != "NTree":
                continue
            ctx.count("trees built", 1)
            vs = [plain(e[1][2][0]) for e in calls(o.state, "addElement") if e[1][2]]
            if any(not isinstance(v, list) or not all(isinstance(q, list) for q in v) for v in vs) or not vs and (o.value[2] or any(k == "geom" for k, _ in o.value[3])):
                ctx.count("trees not told", 1)
                continue
            got = [sorted(tuple(q[:3]) for q in v) for v in vs]
            for fc in faces:
                if sorted(verts[i] for i in fc) not in got:
                    lost = lost or fc
        ctx.check(lost is None, "R-fill", f.qual[7:], "the triangle %s of the mesh is not added to the tree" % (lost,), f.where)
    # shells whose boxes come within the tolerance are not told apart
    f = p.member(cls, "shells_bboxes_overlap")
    wrong = None
    for r in itertools.product(("before", "after", "low", "high", "within", "near-", "near+"), repeat=3):
        iv = [{"near-": (-4.0, -0.25), "near+": (10.25, 12.0)}.get(k) or REL[k] for k in r]
        for tol in (0.0, 0.5):
            ids = {C("one"): box((0, 0, 0), (10, 10, 10)), C("two"): box([x[0] for x in iv], [x[1] for x in iv])}

            def hook(eng, t, st, node):
                if name_of(t) == "shell_bbox" and t[2]:
                    return [(st, ids[t[2][-1]])] if t[2][-1] in ids else None
            got = verdict(*walk(ctx, f, dict(zip(f.params, (S, C("one"), C("two"), C(tol)))), hook=hook))
            want = all(k in ("low", "high", "within") or (tol and k.startswith("near")) for k in r)
            ctx.count("shell box pairs", 1)
            if want and got == {False}:
                wrong = wrong or (r, tol)
    ctx.check(wrong is None, "R-meet", f.name, "shells whose boxes are %s each other on the axes are told apart at tolerance %s" % (wrong or ("", "")), f.where)
    # the box of a shell covers the mesh that is searched
    f, g = p.member(cls, "shell_bbox"), p.member(cls, "tessellate_shell")
    ctx.check(divisions(ctx, f, g) == divisions(ctx, g, g), "R-mesh", f.name, "the box of a shell is taken from another mesh than the one searched for intersections", f.where)
    # every candidate is tested, and the query covers the triangle or segment
    cands = [lst([pt(k, 0.0, 0.0), pt(k, 1.0, 0.0), pt(k, 0.0, 1.0)], ("cand", k)) for k in (20.0, 21.0, 22.0)]
    tri = next(triples())
    for f, test, pts in ((p.member(cls, "shells_intersect"), "triTriIntersect", None), (p.func("yapcad.boolean.native._collect_segment_intersections"), "_segment_triangle_intersection_param", 2)):
        for ts in list(triples())[::17]:
            T = lst([pt(*q) for q in ts], ("tri",) + tuple(map(tuple, ts)))
            pts2 = ts[:pts] if pts else ts
            asked, seen = [], []

            def hook(eng, t, st, node):
                k = name_of(t)
                if k == "_iter_shell_triangles":
                    return [(st, lst([T], ("it",) + tuple(map(tuple, ts))))]
                if k == "getElements":
                    asked.append(plain(t[2][0]) if t[2] else None)
                    return [(st, lst(cands, "cands"))]
                if k in ("shells_bboxes_overlap",):
                    return [(st, C(True))]
                if k in ("shell_octree", "surface_octree"):
                    return [(st, ("class", "yapcad.octtree.NTree"))]
                if k == test:
                    seen.extend(t[2])
                    return [(st, C(False) if pts is None else NONE)]
            bind = dict(zip(f.params, (S, C("one"), C("two"), C(0.0)))) if pts is None else \
                dict(zip(f.params, (pt(*ts[0]), pt(*ts[1]), lst([C("solid"), lst([mesh], "ss")], "sol"), C(0.0))))
            outs, eng = walk(ctx, f, bind, hook=hook, trees=False)
            ctx.count("searches", 1)
            told = [q for q in asked if q is not None]
            ctx.count("searches told", bool(told))
            ctx.check(inside(told, pts2) is not False, "R-query", f.name, "the box asked for does not hold the %s" % ("segment" if pts else "triangle"), f.where)
            ctx.check(not asked or any(o.kind != "return" for o in outs) or all(c in seen for c in cands), "R-each", f.name, "a candidate the tree returned is not tested", f.where)


def divisions(ctx, f, g):
    """What f passes to tessellate_surface as divisions (tessellate_shell's defaults for its parameters)."""
    a = g.node.args
    dflt = {x.arg: d.value for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant)}
    if f is not g and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == g.name and not n.args[1:] and not n.keywords for n in ast.walk(f.node)):
        f = g
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")) == "tessellate_surface":
            d = ctx.p.func("yapcad.analytic_surfaces.tessellate_surface").node.args
            given = {k.arg for k in n.keywords}
            out |= {(x.arg, y.value) for x, y in zip(d.kwonlyargs, d.kw_defaults) if isinstance(y, ast.Constant) and x.arg not in given}
            for k in n.keywords:
                v = dflt.get(k.value.id) if isinstance(k.value, ast.Name) else k.value.value if isinstance(k.value, ast.Constant) else ast.dump(k.value)
                out.add((k.arg, v))
    return out


def run(ctx):
    meets(ctx)
    cells(ctx)
    tree(ctx)
    holds(ctx)
    users(ctx)
