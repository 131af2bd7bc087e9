"""P01: operations leave their arguments alone."""
import ast
import json
import os

from ..mutation import Mutation
from ..project import AnchorError, FuncInfo, Project

INV = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "p01_inventory.json")
BUILTINS = "yapcad.dsl.runtime.builtins"

PROP = dict(
    id="P01", title="Operations never change the values they are given",
    statement="Apart from the functions documented to work in place (metadata setters and their create-on-read getters, BREP and topology attachment, mesh accumulators, in-place DSL decoration), no public yapCAD function or DSL builtin changes an argument: lists, dictionaries, metadata, geometry and options passed in are the same afterwards, to any depth and through every helper called. Translating, rotating, mirroring, scaling, reversing or combining solids and surfaces yields a result that shares no mutable part with its input, so that later changes of either never show in the other.",
    over=["inputs", "histories"], text="all arguments of all public functions",
    why="Whether an argument survives depends on every statement of every callee and on which levels of a structure were copied; tests rarely look at an argument again, and hardly ever at its depths.",
    files=["src/yapcad/geom.py", "src/yapcad/geom3d.py", "src/yapcad/geom3d_util.py", "src/yapcad/geometry.py", "src/yapcad/poly.py", "src/yapcad/metadata.py", "src/yapcad/boolean/native.py", "src/yapcad/io", "src/yapcad/assembly", "src/yapcad/dsl/runtime/builtins.py"],
    mech=[("transformations", "src/yapcad/geom3d.py: translatesolid, rotatesolid, mirrorsolid, scalesolid and the surface versions"),
          ("everything public", "src/yapcad/**/*.py")],
    observe=["the arguments compared before and after a call", "identity of list and dictionary objects in input and result"],
    technique="interprocedural alias and mutation summaries (access-path effect analysis to a fixpoint) compared with the declared in-place functions",
    note="Summaries are computed for every function of the tree from its source; a fixed list names the parameters that must stay unchanged, and functions added later are judged through the functions that call them.",
)
EXPLAIN = ("For every function, the set of access paths of its parameters it may store to, append to, delete from or pass to a changing callee (fixpoint over the whole call graph, key-sensitive through copies at each level), "
           "and the access paths its result may share. Each listed parameter must not be among the changed ones; the transformations must share nothing.")
ASSUME = ["objects reached only through self are outside the rule", "a method call on a value of unknown class changes it only when named like a container mutator"]
FRESH = ["yapcad.geom3d." + x for x in ("translatesolid", "rotatesolid", "mirrorsolid", "scalesolid", "translatesurface", "rotatesurface", "mirrorsurface", "scalesurface", "reversesurface",
                                        "solid_boolean", "translate", "rotate", "mirror", "scale")]


def analysed(p):
    return Mutation(p, [f for m in p.modules.values() for f in p.all_funcs(m, m.name == BUILTINS)])


def public(f):
    if f.module.name == BUILTINS and f.outer is not None:
        return True
    parts = f.qual.split(".")
    own = parts[len(f.module.name.split(".")):]
    return f.module.name.split(".")[0] == "yapcad" and all(not x.startswith("_") or x == "__init__" for x in own)


def params(f):
    a = f.node.args
    xs = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    return [x for x in xs if x not in ("self", "cls")]


def inventory(M):
    out = {}
    for f in M.funcs:
        if public(f):
            changed = M.sum[f].roots()
            ps = sorted(x for x in params(f) if x not in changed)
            if ps:
                out[f.qual] = sorted(set(out.get(f.qual, ps)) & set(ps))
    return out


SELF = '''
def keep(g):
    out = [list(x) for x in g]
    out[0][0] = 1
    return out
def level(g):
    out = list(g)
    out[0][0] = 1
    return out
def helper(x):
    x.append(1)
def through(g, n=0):
    h = g[2]
    helper(h)
def shared(g):
    return ['a', g[1], list(g[2])]
'''


def run(ctx):
    p = ctx.p
    selftest(ctx)
    M = analysed(p)
    ctx.count("functions summarised", len(M.funcs))
    ctx.count("rounds to the fixpoint", M.round)
    inv = json.load(open(INV))
    byq = {}
    for f in M.funcs:
        byq.setdefault(f.qual, []).append(f)
    found = judged = 0
    for q in sorted(inv):
        fs = byq.get(q)
        if not fs:
            continue
        found += 1
        for f in fs:
            p.consulted.add(f.module.name)
            changed = M.sum[f].roots()
            have = params(f)
            for x in inv[q]:
                if x in have:
                    judged += 1
                    ctx.check(x not in changed, "argument-kept", "%s:%s" % (q, x), "%s changes its argument %s: %s" % (f.qual, x, " -> ".join(M.path(f, x)) if x in changed else ""), f.where)
    ctx.floor("functions of the inventory", found, int(len(inv) * 0.85))
    ctx.floor("parameters judged", judged, int(sum(map(len, inv.values())) * 0.8))
    n = 0
    for q in FRESH:
        for f in byq.get(q, []):
            n += 1
            rs = [(r, d, u) for r, d, u in M.sum[f].rets if isinstance(r, str)]
            ctx.check(not rs, "result-fresh", q, "the result of %s shares a part with its input: %s" % (q, "; ".join("result%s is %s%s" % (keys(d), r, keys(u)) for r, d, u in sorted(rs, key=str)[:2])), f.where)
    ctx.floor("transformations judged", n, 11)


def keys(ks):
    return "".join("[%s]" % ("*" if k is None else repr(k)) for k in ks)


def selftest(ctx):
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, "src", "yapcad"))
        with open(os.path.join(d, "src", "yapcad", "__init__.py"), "w") as fh:
            fh.write("")
        with open(os.path.join(d, "src", "yapcad", "t.py"), "w") as fh:
            fh.write(SELF)
        p = Project(d)
        M = Mutation(p)
        s = {f.qual.split(".")[-1]: M.sum[f] for f in M.funcs}
        ctx.selftest("copy of both levels stays quiet", not s["keep"].roots())
        ctx.selftest("one level copied, the next changed", "g" in s["level"].roots())
        ctx.selftest("changed by a helper", "g" in s["through"].roots())
        ctx.selftest("result shares a part", any(r == "g" for r, _, _ in s["shared"].rets) and any(u[:1] == (1,) for _, _, u in s["shared"].rets))
