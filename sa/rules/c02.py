"""C02: a remembered result is used only for the inputs it was computed from."""
import ast

from ..lib import *
from ..project import AnchorError
from ..refs import own_nodes

PROP = dict(
    id="C02", title="A remembered result is used only for the inputs it was computed from",
    statement="Where yapCAD keeps a computed result to use it again, what a later call receives is what it would have computed: (a) a function that looks a result up under a key, "
              "or computes and stores it (the mate solver, the collision geometry, shapes read from BREP data), computes it from nothing but the key: every argument, or field of an "
              "argument, that the stored value or the choice of the path to it depends on is part of the key, or is compared with what is stored before the entry is used, and the entry it "
              "returns is the one of that key; (b) KinematicChain.set_joint_value and add_part leave no cached world transform on the part or on any of its descendants, a "
              "part's cached transform is handed out only while it is valid, and what get_world_transform caches is the parent's world transform at the attachment frame times the joint's; "
              "(c) a datum source or a part's geometry that was not found is looked for again at the next request; (d) the octree of a shell is handed out from its metadata only when no "
              "rebuild is asked for and it is not marked dirty, transforming a graph marks the octree of every shell, and a mesh's remembered data is used only for the same vertex and "
              "face lists of the same lengths.",
    over=["histories", "inputs"], text="all sequences of calls",
    why="A stale entry needs two calls that share the key and differ in something else; tests call each solver once.",
    files=["src/yapcad/assembly/solver.py", "src/yapcad/assembly/datum_registry.py", "src/yapcad/brep.py", "src/yapcad/kinematics", "src/yapcad/collision/detector.py",
           "src/yapcad/native_brep.py", "src/yapcad/boolean/native.py"],
    mech=[("mate cache", "src/yapcad/assembly/solver.py:MateConstraintSolver.solve_mate"), ("world transform cache", "src/yapcad/kinematics/chain.py:KinematicChain.get_world_transform"),
          ("BREP cache", "src/yapcad/brep.py:brep_from_solid"), ("shell octree", "src/yapcad/native_brep.py:TopologyGraph.shell_octree")],
    observe=["the second of two calls that differ in one argument", "get_world_transform of a descendant after set_joint_value"],
    technique="key completeness of memo functions by path-sensitive dataflow (arguments reaching the stored value against arguments reaching the key); cache validity as typestate",
    note="Memo functions are found by their shape: a store under a key and a look-up that is returned.",
)
EXPLAIN = ("For every function that stores under a key and returns what it looked up, each path to the store with the arguments its value and branches come from; the invalidation walks of the "
           "kinematic chain on an abstract tree of parts; the guards in front of each cached octree.")
ASSUME = ["state of the object itself (the registry a solver reads, its tolerance) is fixed while its cache is in use; invalidate_cache exists for its change",
          "different argument values make different keys: collisions of a formatted key are not considered"]
LOSSY = ("len", "type", "bool", "id", "isinstance", "hash")


def step(t):
    """(what is projected, by what) for x.a, x[k], x.get(k); else None."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] in ("attr", "item") and len(t) > 2:
        return t[1], t[2]
    if t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "attr" and t[1][2] == "get" and t[2]:
        return t[1][1], t[2][0]
    return None


def path(t, params):
    """(base, k1, k2 ...): a field of an argument, or of the result of a call on one; None for anything else."""
    ks = []
    while step(t):
        t, k = step(t)
        ks.append(k[1] if isinstance(k, tuple) and k[0] == "const" else k)
    if isinstance(t, tuple) and len(t) > 1 and (t[0] == "param" and t[1] in params or t[0] == "call" and ks and paths_of(t, params)):
        return (t[1] if t[0] == "param" else t,) + tuple(reversed(ks))
    return None


def paths_of(t, params, out=None):
    """Every path in a term."""
    out = set() if out is None else out
    if not isinstance(t, tuple) or not t:
        return out
    q = path(t, params)
    if q:
        out.add(q)
        while step(t):
            t, k = step(t)
            if isinstance(k, tuple) and k[0] != "const":
                paths_of(k, params, out)
        return out
    if t[0] == "attr" and len(t) > 2 and isinstance(t[1], tuple):
        return paths_of(t[1], params, out)
    if t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "attr":
        # a method's result depends on the whole object
        paths_of(t[1][1], params, out)
        for x in t[2:]:
            if isinstance(x, tuple):
                paths_of(x, params, out)
        return out
    for x in t:
        if isinstance(x, tuple):
            paths_of(x, params, out)
    return out


def covers(have, want, params):
    if any(want[:len(h)] == h for h in have):
        return True
    return isinstance(want[0], tuple) and all(covers(have, w, params) for w in paths_of(want[0], params))


def show(d):
    return ".".join(x if isinstance(x, str) else show_call(x) for x in d)[:70]


def show_call(x):
    return (str(x[1][-1]).split(".")[-1] + "()") if isinstance(x, tuple) and x and x[0] == "call" else str(x)[:12]


# ---- (a) memo functions ----

def containers(f, names):
    """Containers f stores into by key, and those it looks up: 'self.x' or a module global."""
    st, ld = set(), set()
    args = set(f.params) | set(f.kwonly)

    def cid(e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls"):
            return "self." + e.attr
        if isinstance(e, ast.Name) and e.id in names and e.id not in args:
            return e.id
        return None
    for n in own_nodes(f.node):
        if isinstance(n, ast.Subscript) and cid(n.value):
            (ld if isinstance(n.ctx, ast.Load) else st if isinstance(n.ctx, ast.Store) else set()).add(cid(n.value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and cid(n.func.value):
            if n.func.attr in ("get", "setdefault"):
                ld.add(cid(n.func.value))
            if n.func.attr == "setdefault":
                st.add(cid(n.func.value))
    return st, ld


def callees(p, f):
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                out.add(n.func.id)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls"):
                out.add(n.func.attr)
    return out


def short(fi):
    if not any(isinstance(s, ast.Return) for s in ast.walk(fi.node)):
        return False
    body = [s for s in ast.walk(fi.node) if isinstance(s, ast.stmt)]
    return len(body) <= 8 and not any(isinstance(s, (ast.For, ast.While, ast.Try)) for s in body)


def memos(p):
    """(function, container) with a keyed store and a look-up, itself or through helpers of its module."""
    for m in p.modules.values():
        names = {t.id for s in m.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in ([s.target] if isinstance(s, ast.AnnAssign) else s.targets) if isinstance(t, ast.Name)}
        fs = list(p.all_funcs(m, True))
        own = {f.qual: containers(f, names) for f in fs}
        if not any(o[0] for o in own.values()):
            continue
        both, cand = {}, []
        for f in fs:
            st, ld = set(own[f.qual][0]), set(own[f.qual][1])
            cs = callees(p, f)
            for g in fs:
                if g is not f and g.name in cs and (g.cls is None or f.cls is None or g.cls.name == f.cls.name):
                    st |= own[g.qual][0] if g.cls is f.cls or g.cls is None else set()
                    ld |= own[g.qual][1] if g.cls is f.cls or g.cls is None else set()
            for c in st & ld:
                if c in own[f.qual][0] and c in own[f.qual][1]:
                    both.setdefault(c, []).append(f)
                    yield f, c
                else:
                    cand.append((f, c, cs))
        for f, c, cs in cand:
            if not any(g.name in cs for g in both.get(c, ())):
                yield f, c


def lookups(t, is_c, out):
    """Keys under which the container is looked up anywhere in a term."""
    if not isinstance(t, tuple) or not t:
        return out
    if t[0] == "item" and len(t) > 2 and is_c(t[1]):
        out.append(t[2])
    if t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "attr" and is_c(t[1][1]) and t[1][2] in ("get", "setdefault", "pop") and t[2]:
        out.append(t[2][0])
    if t[0] == "in" and len(t) > 2 and is_c(t[2]):
        out.append(t[1])
    for x in t:
        if isinstance(x, tuple):
            lookups(x, is_c, out)
    return out


def lossless(t):
    """A key with what loses information (len, bool, id, ...) left out."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "call" and t[1] in [("ext", n) for n in LOSSY] + [("builtin", n) for n in LOSSY]:
        return ("lost",)
    return tuple(lossless(x) if isinstance(x, tuple) else x for x in t)


def is_container(c):
    def f(t):
        if not isinstance(t, tuple) or len(t) < 2:
            return False
        if c.startswith("self."):
            return t[0] == "attr" and t[2] == c[5:] and t[1] in (("param", "self"), ("param", "cls"))
        return t[0] == "gval" and t[2] == c
    return f


def ret_of(o):
    return strip_sites(o.value) if isinstance(o.value, tuple) else o.value


def keys(ctx):
    p, n = ctx.p, 0
    found = []
    for f, c in memos(p):
        is_c = is_container(c)
        params = set(f.params) | set(f.kwonly)
        params -= {"self", "cls"}
        if not params:
            continue
        fs = {g.name for g in p.all_funcs(f.module, True)}
        touching = {g.qual for g in p.all_funcs(f.module, True) if c in set().union(*containers(g, {c}))}
        pol = Pol(inline=lambda e, fi, d: fi.module is f.module and (fi.qual in touching or "key" in fi.name or short(fi)) and d < 3,
                  track=lambda ev, st: ev.kind == "setitem" and is_c(ev.term), max_states=60, max_depth=3)
        try:
            outs, eng = ctx.walk(f, pol)
        except Exception as e:
            if type(e).__name__ != "AnchorError":
                raise
            continue
        rets = [o for o in outs if o.kind == "return"]
        stores, hits = [], []
        for o in rets:
            evs = [e for e in o.state.events if e[0] == "setitem"] if o.state.events else []
            if evs:
                stores.append((o, evs[-1]))
            elif isinstance(o.value, tuple) and lookups(o.value, is_c, []):
                hits.append(o)
        if not stores or not hits:
            continue
        n += 1
        found.append(f.qual.split(".")[-1])
        who = f.qual.split("yapcad.")[-1]
        need, sizes = {}, set()
        looked = [k for o in hits for k in lookups(strip_sites(o.value), is_c, [])]
        for o, ev in stores:
            k, v = ev[2] if not isinstance(ev[2], tuple) or len(ev[2]) == 2 else ev[2][:2]
            sizes |= {x for x in subterms(strip_sites(v)) if iscall(x, "len") and x[2] and path(x[2][0], params)}
            for d in paths_of(strip_sites(v), params):
                need.setdefault(d, set())
            for a, val in o.state.facts.items():
                if a[0] != "touched":
                    for d in paths_of(strip_sites(a), params):
                        need.setdefault(d, set()).add((strip_sites(a), val))
            for d in paths_of(strip_sites(v), params):
                need[d].add(None)
            sk = strip_sites(k)
            ctx.check(sk in looked, "stored-under", who, f"'{who}' stores what it computed under a key it did not look up: {str(sk)[:120]}", f.where)
            rv, sv = ret_of(o), strip_sites(v)
            same = rv == sv or any(rv == x for x in subterms(sv)) or rv == ("item",) or bool(lookups(rv, is_c, []))
            ctx.check(same, "what-is-stored", who, f"'{who}' stores something else than what it returns: {str(sv)[:80]} / {str(rv)[:80]}", f.where)
        for o in hits:
            ks = lookups(strip_sites(o.value), is_c, [])
            have = set()
            for k in ks:
                have |= paths_of(lossless(k), params)
            pinned, lens = set(), {x for k in ks for x in subterms(k) if iscall(x, "len")}
            for a, val in o.state.facts.items():
                b = strip_sites(a)
                if a[0] in ("eq", "is") and val and lookups(b, is_c, []):
                    have |= paths_of(lossless(b), params)
                    lens |= {x for x in subterms(b) if iscall(x, "len")}
                if a[0] == "eq" and val and (a[1][0] == "const" or a[2][0] == "const"):
                    q = path(a[1] if a[2][0] == "const" else a[2], params)
                    if q:
                        pinned.add(q)
                if a[0] == "in" and val and is_c(a[2]):
                    ctx.check(b[1] in ks, "the-entry", who, f"'{who}' tests one key and returns the entry of another", f.where)
            for x in sorted(sizes, key=str):
                ctx.check(x in lens, "sizes", f"{who}:{show(path(x[2][0], params) or ('?',))}",
                          f"'{who}' remembers the length of {show(path(x[2][0], params) or ('?',))} and does not compare it before it uses the entry: a list can grow in place", f.where)
            here = {(strip_sites(a), val) for a, val in o.state.facts.items()}
            for d in sorted(need, key=str):
                ok = covers(have, d, params) or covers(pinned, d, params) or need[d] <= here
                ctx.check(ok, "complete-key", f"{who}:{show(d)}", f"'{who}' returns a remembered result whose computation depends on {show(d)}, which neither is part of the key nor is "
                          "compared with the entry", f.where)
    return found


# ---- (b) world transforms of a kinematic chain ----

S, NONE = ("param", "self"), ("const", None)
NAMES = ["GLOBAL_DATUM", "a", "b", "c", "d", "e"]
PARENT = {"a": "GLOBAL_DATUM", "b": "a", "c": "b", "d": "b", "e": "a"}
PARTS = {n: ("param", "part_" + n) for n in NAMES}


def C(v):
    return ("const", v)


def tree(p):
    """An abstract chain: datum > a > (b > (c, d), e), with frames F and G on every part."""
    K, PT = p.cls("yapcad.kinematics.chain.KinematicChain"), p.cls("yapcad.kinematics.part.KinematicPart")
    heap = {(S, "parts"): ("dict", tuple((C(n), PARTS[n]) for n in NAMES), ("s", "parts")), (S, "DATUM_NAME"): C("GLOBAL_DATUM"),
            (S, "_children"): ("dict", tuple((C(n), ("list", tuple(C(k) for k in NAMES if PARENT.get(k) == n), ("s", "ch" + n))) for n in NAMES), ("s", "ch"))}
    types, facts = {S: K}, {}

    def solid(t):
        facts[("eq", t, NONE)] = False
        facts[("truth", t)] = True
    for n in NAMES:
        part(heap, types, n, PARENT.get(n), PT, solid)
        solid(("param", "T_" + n))
    return heap, types, facts, PT, solid


def part(heap, types, n, parent, PT, solid):
    P = PARTS.get(n, ("param", "part_" + n))
    for t in (P, ("param", "F_" + n), ("param", "G_" + n), ("param", "joint_" + n)):
        solid(t)
    heap[(P, "name")], heap[(P, "parent")], heap[(P, "parent_frame")] = C(n), C(parent), C("F")
    heap[(P, "frames")] = ("dict", ((C("F"), ("param", "F_" + n)), (C("G"), ("param", "G_" + n))), ("s", "fr" + n))
    heap[(P, "joint")] = ("param", "joint_" + n)
    types[P] = PT
    return P


def product(t):
    """The factors of a product of transforms, identities left out."""
    if t[0] == "bin" and t[1] == "MatMult":
        return product(t[2]) + product(t[3])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("__matmul__", "compose", "multiply", "matmul") and len(t[2]) == 1:
        return product(t[1][1]) + product(t[2][0])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "identity":
        return []
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get_transform" and t[1][1][0] == "param":
        return [t[1][1][1]]
    if t[0] == "call" and t[1] in (("attr", ("ext", "copy"), "copy"), ("ext", "copy.copy"), ("ext", "copy.deepcopy")) and t[2]:
        return product(t[2][0])
    return [t[1] if t[0] == "param" else "?" + str(t)[:60]]


def kinematics(ctx):
    p = ctx.p
    heap, types, facts, PT, solid = tree(p)
    K = types[S]
    inl = lambda e, fi, d: fi.module.name.startswith("yapcad.kinematics") and fi.cls is not None and (fi.cls is K or fi.cls is PT or fi.cls.name not in ("Transform", "Joint", "CoordinateFrame", "JointSpec"))
    n_obl = 0

    def walk(fi, bind, h, fx=None):
        f2 = dict(facts)
        f2.update({k: v for k, v in (fx or {}).items()})
        outs, _ = ctx.walk(fi, Pol(inline=inl, fold=True, max_depth=24, recurse=10, max_states=200, loop_iters=8), bind=bind, heap=h, types=types, facts=f2)
        return outs
    setter, getter, valid = p.member(PT, "set_cached_world_transform"), p.member(PT, "get_cached_world_transform"), p.member(PT, "is_cache_valid")

    def cached(n, o):
        g = getter
        return [x.value for x in walk(g, {g.params[0]: PARTS.get(n, ("param", "part_" + n))}, o.state.heap, o.state.facts) if x.kind == "return"]

    def clean(names, h):
        for n in names:
            outs = walk(setter, {setter.params[0]: PARTS.get(n, ("param", "part_" + n)), setter.params[1]: ("param", "T_" + n)}, h)
            if len(outs) != 1:
                raise AnchorError("set_cached_world_transform has more than one path")
            h = dict(outs[0].state.heap)
        return h

    class O:
        pass
    full = clean(NAMES, heap)
    o0 = O()
    o0.state = O()
    o0.state.heap, o0.state.facts = full, {}
    for n in NAMES:
        ctx.check(cached(n, o0) == [("param", "T_" + n)], "cached-is-returned", f"KinematicPart:{n}", "a part does not hand out the world transform that was cached for it", getter.where)
        n_obl += 1
    # a part whose cache was invalidated
    inv = p.member(PT, "invalidate_cache")
    for o in walk(inv, {inv.params[0]: PARTS["b"]}, full):
        ctx.check(cached("b", o) == [NONE], "invalid-is-not-returned", "KinematicPart.invalidate_cache", "an invalidated part still hands out a world transform", inv.where)
        vs = [x.value for x in walk(valid, {valid.params[0]: PARTS["b"]}, o.state.heap, o.state.facts)]
        ctx.check(bool(vs) and all(v == C(False) or v == ("not", C(True)) for v in vs), "invalid-is-not-valid", "KinematicPart.is_cache_valid", f"an invalidated part says its cache is valid: {vs}", valid.where)
    for n in NAMES:
        heap = dict(next(iter(walk(inv, {inv.params[0]: PARTS[n]}, heap))).state.heap)
    # set_joint_value on each part: it and its descendants
    down = {n: [m for m in NAMES if n in lineage(m)] for n in NAMES}
    f = p.member(K, "set_joint_value")
    for n in NAMES:
        h = dict(full)
        outs = [o for o in walk(f, {f.params[1]: C(n)}, h) if o.kind == "return"]
        ctx.check(bool(outs), "moved", f"set_joint_value:{n}", "set_joint_value has no returning path", f.where)
        for o in outs:
            for m in down[n]:
                vs = cached(m, o)
                ctx.check(bool(vs) and all(v == NONE for v in vs), "descendants-invalid", f"set_joint_value:{n}:{m}",
                          f"after set_joint_value on {n}, '{m}' below it (chain {' > '.join(reversed(lineage(m)))}) keeps its cached world transform", f.where)
                n_obl += 1
    # add_part under every part
    f = p.member(K, "add_part")
    for n in NAMES:
        h = dict(heap)
        t2 = dict(types)
        P = part(h, types, "new", n, PT, solid)
        solid(("param", "T_new"))
        h = clean(["new"], h)
        for o in walk(f, {f.params[1]: P}, h):
            if o.kind == "return":
                vs = cached("new", o)
                ctx.check(bool(vs) and all(v == NONE for v in vs), "added-invalid", f"add_part:{n}", "a part added to a chain keeps a world transform cached elsewhere", f.where)
                # and a later set_joint_value on its parent reaches it
                h2 = clean(NAMES + ["new"], dict(o.state.heap))
                sj = p.member(K, "set_joint_value")
                for o2 in walk(sj, {sj.params[1]: C(n)}, h2, o.state.facts):
                    if o2.kind == "return":
                        vs = cached("new", o2)
                        ctx.check(bool(vs) and all(v == NONE for v in vs), "added-is-child", f"add_part:{n}", f"a part added below '{n}' keeps its cached transform when the joint of '{n}' moves", sj.where)
                        n_obl += 1
    # world transforms
    f = p.member(K, "get_world_transform")
    for state, h in (("nothing cached", heap), ("b moved", None)):
        if h is None:
            sj = p.member(K, "set_joint_value")
            h = next(o for o in walk(sj, {sj.params[1]: C("b")}, full) if o.kind == "return").state.heap
        for n in NAMES[1:]:
            for fr in ("ORIGIN", "G"):
                want = []
                for m in reversed(lineage(n)[:-1]):
                    want += ["F_" + PARENT[m], "joint_" + m]
                if state == "b moved":
                    i = next((i for i, m in enumerate(lineage(n)) if m not in down["b"]), None)
                    m = lineage(n)[i]
                    keep = ["T_" + m]
                    for q in reversed(lineage(n)[:i]):
                        keep += ["F_" + PARENT[q], "joint_" + q]
                    want = keep
                if fr == "G":
                    want = want + ["G_" + n]
                outs = [o for o in walk(f, {f.params[1]: C(n), f.params[2]: C(fr)}, dict(h)) if o.kind == "return"]
                for o in outs:
                    got = product(o.value)
                    ctx.check(got == want, "world-transform", f"get_world_transform:{state}:{n}.{fr}", f"({state}) the world transform of {n}.{fr} is {' @ '.join(got)}, expected {' @ '.join(want)}", f.where)
                    n_obl += 1
                    if fr == "G":
                        again = [product(x.value) for x in walk(f, {f.params[1]: C(n), f.params[2]: C("ORIGIN")}, dict(o.state.heap), o.state.facts) if x.kind == "return"]
                        ctx.check(again == [want[:-1]], "asked-again", f"get_world_transform:{state}:{n}", f"({state}) asked again, the world transform of {n} is {again}", f.where)
                ctx.check(bool(outs), "world-transform", f"get_world_transform:{state}:{n}.{fr}:returns", "no returning path", f.where)
    ctx.floor("kinematic obligations", n_obl, 40)


def lineage(n):
    out = [n]
    while PARENT.get(n):
        n = PARENT[n]
        out.append(n)
    return out


# ---- (c) what was not found ----

def absent(ctx):
    p = ctx.p
    c = p.cls("yapcad.assembly.datum_registry.DatumRegistry")
    f = p.member(c, "_load_source")
    n = 0
    stored = lambda ev, st: ev.kind in ("setitem", "call") and (ev.kind == "setitem" or ev.term[1][0] == "attr" and ev.term[1][2] in ("add", "append", "update", "setdefault"))

    def hook(eng, t, st, node):
        nm = t[1][2] if t[1][0] == "attr" else str(t[1][-1]).split(".")[-1]
        if nm in ("_find_source_file",):
            return [(st, NONE)]
        return None
    src = ("param", f.params[1])
    h = {(S, "_sources"): ("dict", (), ("s", "sources")), (S, "_loaded_sources"): ("set", (), ("s", "loaded")), (S, "_search_paths"): ("list", (), ("s", "sp"))}
    fx = {("eq", src, NONE): False, ("truth", src): True}
    outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.cls is c, track=stored, call_hook=hook, fold=True, max_depth=6, max_states=80), heap=h, types={S: c}, facts=fx)
    for o in outs:
        n += 1
        for ev in o.state.events:
            tgt = ev[1] if ev[0] == "setitem" else ev[1][1][1]
            ctx.check(tgt not in ((S, "_sources"), ("attr", S, "_sources"), ("attr", S, "_loaded_sources"), h[(S, "_sources")], h[(S, "_loaded_sources")]), "not-found-not-kept",
                      "DatumRegistry._load_source", f"a datum source of which no file was found is recorded in {str(tgt)[:60]}, so that it is never looked for again", f.where)
    ctx.check(n > 0, "not-found-not-kept", "DatumRegistry._load_source:paths", "no path for a source that is not found", f.where)
    ctx.floor("paths of a source that is not found", n, 1)
    # the same for a part's geometry
    c = p.cls("yapcad.collision.detector.CollisionDetector")
    f = p.member(c, "_get_geometry")
    is_c = is_container("self._geometry_cache")
    outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.cls is c, track=lambda ev, st: ev.kind == "setitem" and is_c(ev.term), want_exc=False,
                                call_hook=lambda e, t, st, nd: [(st, ("param", "geom"))] if t[1][0] == "attr" and t[1][2] == "get_geometry" else None), facts={("eq", ("param", "geom"), NONE): True, ("truth", ("param", "geom")): False})
    for o in outs:
        ctx.check(not o.state.events, "not-found-not-kept", "CollisionDetector._get_geometry", "the absence of a part's geometry is remembered", f.where)


# ---- (d) octrees ----

def octrees(ctx):
    p = ctx.p
    c = p.cls("yapcad.native_brep.TopologyGraph")
    f = p.member(c, "shell_octree")
    shell, meta = ("param", "shell"), ("param", "meta")
    built = lambda e, t, st, nd: ([(st, shell)] if t[1][0] == "attr" and t[1][2] == "get_shell" else [(st, ("param", "mesh"))] if t[1][0] == "attr" and t[1][2] == "tessellate_shell" else None)
    OLD = ("param", "old_tree")
    n = 0
    for rebuild in (True, False):
        for dirty in (True, False, None):
            pairs = [(C("_octree"), OLD)] + ([(C("_octree_dirty"), C(dirty))] if dirty is not None else [])
            h = {("item", shell, C(2)): ("dict", tuple(pairs), ("s", "meta"))}
            outs, eng = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.cls is c and fi.name not in ("get_shell", "tessellate_shell"), call_hook=built, fold=True, max_states=60, loop_iters=1),
                                 bind={f.params[2]: C(rebuild)}, heap=h, facts={("eq", shell, NONE): False, ("truth", shell): True})
            rets = [o for o in outs if o.kind == "return"]
            ctx.check(bool(rets), "octree-current", f"shell_octree:rebuild={rebuild},dirty={dirty}", "no returning path", f.where)
            for o in rets:
                n += 1
                if rebuild or dirty:
                    ctx.check(OLD not in subterms(o.value), "octree-current", f"shell_octree:rebuild={rebuild},dirty={dirty}",
                              f"shell_octree(rebuild={rebuild}) with a tree marked dirty={dirty} returns the old octree", f.where)
    ctx.floor("octree cases", n, 6)
    # invalidation marks; transforming marks every shell
    inv = p.member(c, "invalidate_shell_octree")
    outs, eng = ctx.walk(inv, Pol(inline=lambda e, fi, d: False, call_hook=built, fold=True), heap={("item", shell, C(2)): ("dict", ((C("_octree"), OLD), (C("_octree_dirty"), C(False))), ("s", "meta"))},
                         facts={("eq", shell, NONE): False, ("truth", shell): True})
    for o in outs:
        if o.kind == "return":
            o2, _ = ctx.walk(f, Pol(inline=lambda e, fi, d: False, call_hook=built, fold=True, max_states=60, loop_iters=1), bind={f.params[2]: C(False)}, heap=o.state.heap, facts={("eq", shell, NONE): False, ("truth", shell): True})
            ctx.check(bool(o2) and all(OLD not in subterms(x.value) for x in o2 if x.kind == "return"), "marked", "invalidate_shell_octree", "an invalidated shell still hands out its old octree", inv.where)
    movers = []
    for g in p.all_funcs(p.mod("yapcad.native_brep"), False):
        # takes a graph, writes to the parameters of its vertices
        if g.cls is None and g.params and "transform" in g.name and any(isinstance(x, ast.Attribute) and x.attr == "shells" and isinstance(x.value, ast.Name) and x.value.id == g.params[0] for x in ast.walk(g.node)):
            movers.append(g)
    ctx.floor("functions that move a graph", len(movers), 1)
    for g in movers:
        G = ("param", g.params[0])
        s1, s2 = ("list", (C("shell"), C("s1"), ("dict", ((C("_octree"), OLD), (C("_octree_dirty"), C(False))), ("s", "m1"))), ("s", "sh1")), ("list", (C("shell"), C("s2"), ("dict", ((C("_octree"), OLD),), ("s", "m2"))), ("s", "sh2"))
        h = {(G, a): ("dict", (), ("s", a)) for a in ("vertices", "edges", "faces", "loops", "trims", "coedges", "solids")}
        h[(G, "shells")] = ("dict", ((C("s1"), s1), (C("s2"), s2)), ("s", "shells"))
        outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: False, fold=True, track=lambda ev, st: ev.kind == "setitem" and ev.args[0] in (C("_octree_dirty"), C("_octree")) or ev.kind in ("call", "del"), max_states=60), heap=h)
        for o in outs:
            if o.kind != "return":
                continue
            marked = set()
            for ev in o.state.events:
                if ev[0] == "setitem" and (ev[2] == (C("_octree_dirty"), C(True)) or ev[2] == (C("_octree"), NONE)):
                    marked.add(strip_sites(ev[1]) if False else ev[1])
                if ev[0] == "del" and ev[2][:1] == (C("_octree"),):
                    marked.add(ev[1])
                if ev[0] == "call" and ev[1][1][0] == "attr" and ev[1][1][2] == "invalidate_shell_octree":
                    marked.add(ev[1][2][0])
                if ev[0] == "call" and ev[1][1][0] == "attr" and ev[1][1][2] == "pop" and ev[1][2][:1] == (C("_octree"),):
                    marked.add(ev[1][1][1])
            ctx.check(len(marked) >= 2, "moved-is-marked", g.name, f"'{g.name}' moves a graph with two shells and marks the octree of {len(marked)}", g.where)


def run(ctx):
    found = keys(ctx)
    ctx.floor("memo functions", len(found), 2)
    kinematics(ctx)
    absent(ctx)
    octrees(ctx)
