"""K08: an analysis passes only when every acceptance criterion was evaluated and met."""
from ..dsl import ident
from ..lib import *
from ..flow import show

PROP = dict(
    id="K08", title="An analysis passes only if every acceptance criterion is met",
    statement="A validation plan's result is 'passed' only if every acceptance criterion of the plan has a computed metric, a limit and a known comparison and the metric satisfies it; a violated criterion makes the result 'failed'; a criterion that cannot be evaluated, or a metric that is not a number, never counts as met. With no criteria the result passes only if a metric was computed. All six documented comparisons mean the same for every backend, and the detailed acceptance results and failed criteria agree with the status.",
    over=["inputs"], text="all metrics, criteria and comparisons",
    why="Tests check a few satisfied and one violated criterion; missing metrics, absent limits, NaN and rarely used comparisons decide the verdict silently.",
    files=["src/yapcad/package/analysis/yapcad_native.py", "src/yapcad/package/analysis/calculix.py", "src/yapcad/package/analysis/fenics.py", "src/yapcad/package/analysis/schema.py"],
    mech=[("acceptance decision", "src/yapcad/package/analysis/yapcad_native.py: YapCADNativeAdapter._evaluate_acceptance"),
          ("acceptance decision (solvers)", "src/yapcad/package/analysis/calculix.py, fenics.py: _evaluate_acceptance"),
          ("documented comparisons", "src/yapcad/package/analysis/schema.py: ComparisonOp")],
    observe=["status of an analysis result", "acceptance_results of a summary"],
    technique="path-sensitive dataflow of the verdict under symbolic metrics and limits, per comparison and missing-part scenario",
    note="Metric values, limits and tolerances are symbolic; every path's verdict is compared with the comparison facts the path has established, where only a comparison known to hold (not the negation of its opposite) counts as met.",
)
EXPLAIN = ("For each backend, each documented comparison and each scenario (two criteria, missing metric, missing limit, unknown or absent comparison, no criteria) the decision "
           "function is walked with symbolic values. A path returning 'passed' must have established for every criterion that its comparison holds; a path that established a "
           "violation must return 'failed'; a path on which all hold must return 'passed'.")
ASSUME = ["two criteria stand for any number", "a comparison with NaN is false"]

BASE = "yapcad.package.analysis.base"
SCHEMA = "yapcad.package.analysis.schema"
SITE = ("site", "$", 0, 0)


def d(**kw):
    return ("dict", tuple((C(k), v) for k, v in kw.items()), ("site", "$" + "".join(sorted(kw)), 0, 0))


def dd(pairs, tag):
    return ("dict", tuple((C(k), v) for k, v in pairs), ("site", "$" + tag, 0, 0))


def num(t):
    """float(x), int(x) of a number is that number."""
    while t[0] == "call" and t[1] in (("ext", "float"),) and len(t[2]) == 1:
        t = t[2][0]
    if isinstance(t, tuple):
        return tuple(num(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (tuple(num(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x) for x in t)
    return t


def holds(op, v, lim, tol):
    """(atom, truth) that says the comparison is met."""
    if op == "<=":
        return ("le", v, lim), True
    if op == "<":
        return ("lt", v, lim), True
    if op == ">=":
        return ("le", lim, v), True
    if op == ">":
        return ("lt", lim, v), True
    return "abs", True


def near(a, v, lim, tol):
    """Atom `a` compares the distance of v and lim with tol: 'met' when it says within."""
    if a[0] not in ("le", "lt"):
        return None

    def dist(t):
        if t[0] == "call" and iscall(t, "abs", "math.fabs") and len(t[2]) == 1:
            x = t[2][0]
            return x[0] == "bin" and x[1] == "Sub" and {x[2], x[3]} == {v, lim}
        return False
    if a[0] == "le" and dist(a[1]) and a[2] == tol:
        return "met"
    if a[0] == "lt" and dist(a[2]) and a[1] == tol:
        return "not met"
    return None


def verdict(facts, op, v, lim, tol):
    """True: established met; False: established not met; None: not established."""
    r = None
    for a0, val in facts.items():
        if a0[0] not in ("le", "lt", "eq"):
            continue
        a = (a0[0],) + tuple(strip_sites(num(x)) for x in a0[1:])
        if op in ("==", "~="):
            k = near(a, v, lim, tol)
            if k == "met":
                return val
            if k == "not met" and val:
                return False
            continue
        atom, _ = holds(op, v, lim, tol)
        if a == atom:
            return val
        # the opposite strict comparison being true refutes it; being false proves nothing (NaN)
        opp = {"le": "lt", "lt": "le"}[atom[0]], atom[2], atom[1]
        if a == opp and val:
            r = False
    return r


def adapters(p):
    base = p.cls(BASE + ".AnalysisAdapter")
    return [c for m in list(p.modules.values()) if m.name.startswith("yapcad.") for c in p.all_classes(m) if c is not base and base in p.mro(c)]


def ops(p):
    out = []
    c = p.cls(SCHEMA + ".ComparisonOp")
    for s in c.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant):
            out.append(s.value.value)
    return out


def decide(ctx, fi, metrics, acceptance, extra=None):
    facts = dict(extra or {})
    for n in ("v1", "v2", "l1", "l2", "t1", "t2"):
        a = ident(n)
        facts[("eq", a, NONE)] = False
    # the metrics argument may have other metrics too; known ones are enough
    outs, eng = ctx.walk(fi, Pol(inline={fi.module.name, BASE, SCHEMA}, fold=True, fact_key=lambda a: a[0] in ("le", "lt"), max_depth=6),
                         bind={fi.params[-2]: metrics, fi.params[-1]: acceptance}, facts=facts)
    return outs


V1, V2, L1, L2, T1, T2 = (ident(n) for n in ("v1", "v2", "l1", "l2", "t1", "t2"))


def run(ctx):
    p = ctx.p
    all_ops = ops(p)
    ctx.floor("documented comparisons", len(all_ops), 6)
    n = 0
    for ci in adapters(p):
        fi = p.member(ci, "_evaluate_acceptance")
        calls = p.member(ci, "run")
        if fi is None:
            ctx.bad("decision", ci.qual, "the backend has no acceptance decision that can be followed", ci.where)
            continue
        n += 1
        backend(ctx, p, ci, fi, all_ops)
    ctx.count("backends", n)
    ctx.floor("backends", n, 3)
    detail(ctx, p, all_ops)


def rets(outs):
    return [o for o in outs if o.kind == "return"]


def backend(ctx, p, ci, fi, all_ops):
    name = ci.name
    both = dd((("m1", V1), ("m2", V2)), "metrics")
    n = 0
    for op in all_ops + [None]:
        lab = op or "default"
        o1 = (("comparison", C(op)),) if op else ()
        r1 = dd((("limit", L1),) + o1 + (("tolerance", T1),), "r1")
        r2 = dd((("limit", L2),) + o1 + (("tolerance", T2),), "r2")
        outs = decide(ctx, fi, both, dd((("m1", r1), ("m2", r2)), "acc"))
        seen = set()
        for o in rets(outs):
            n += 1
            v = [verdict(o.state.facts, op or "<=", V1, L1, T1), verdict(o.state.facts, op or "<=", V2, L2, T2)]
            st = o.value[1] if o.value[0] == "const" else None
            seen.add(st)
            if st == "passed":
                ctx.check(v == [True, True], "met", "%s %s" % (name, lab), "'passed' is returned although %s criterion is not known to satisfy its '%s' comparison" % (
                    "the first" if v[0] is not True else "the second", lab), fi.where)
            elif st == "failed":
                ctx.check(False in v, "violated", "%s %s" % (name, lab), "'failed' is returned although no criterion is known to violate its '%s' comparison" % lab, fi.where)
            else:
                ctx.check(None in v and False not in v, "undecided", "%s %s" % (name, lab), "the verdict is %s although every '%s' comparison was evaluated" % (show(o.value), lab), fi.where)
            if False in v:
                ctx.check(st == "failed", "violated", "%s %s" % (name, lab), "a violated '%s' criterion gives %s" % (lab, show(o.value)), fi.where)
        for want in ("passed", "failed"):
            ctx.check(want in seen, "reached", "%s %s %s" % (name, lab, want), "no path of a '%s' criterion gives '%s'" % (lab, want), fi.where)
        # tolerance left out means zero
        if op in ("==", "~="):
            q = dd((("limit", L1),) + o1, "r1")
            for o in rets(decide(ctx, fi, both, dd((("m1", q),), "acc"))):
                if o.value == C("passed"):
                    ctx.check(any(verdict(o.state.facts, op, V1, L1, C(z)) for z in (0.0, 0)), "met", "%s %s without tolerance" % (name, lab),
                              "'passed' is returned for a '%s' criterion without tolerance that is not met exactly" % lab, fi.where)
    ok = dd((("limit", L2), ("comparison", C("<="))), "r2")
    miss = {
        "missing metric": (dd((("m2", V2),), "metrics"), dd((("limit", L1), ("comparison", C("<="))), "r1")),
        "metric without value": (dd((("m1", NONE), ("m2", V2)), "metrics"), dd((("limit", L1), ("comparison", C("<="))), "r1")),
        "missing limit": (both, dd((("comparison", C("<=")),), "r1")),
        "limit without value": (both, dd((("limit", NONE), ("comparison", C("<="))), "r1")),
        "unknown comparison": (both, dd((("limit", L1), ("comparison", C("!="))), "r1")),
        "misspelled comparison": (both, dd((("limit", L1), ("comparison", C("=>"))), "r1")),
    }
    for lab, (m, r) in miss.items():
        for first in (True, False):
            acc = (("m1", r), ("m2", ok)) if first else (("m2", ok), ("m1", r))
            outs = rets(decide(ctx, fi, m, dd(acc, "acc")))
            for o in outs:
                n += 1
                ctx.check(o.value != C("passed"), "unevaluated", "%s %s" % (name, lab), "'passed' is returned with a criterion that could not be evaluated (%s)" % lab, fi.where)
                ctx.check(o.value[0] == "const" and o.value[1] in statuses(p), "status", "%s %s" % (name, lab), "the verdict %s is not a documented status" % show(o.value), fi.where)
    empty = ("dict", (), SITE)
    for m, lab in ((empty, "no metrics"), (NONE, "no metrics")):
        for acc in (empty,):
            for o in rets(decide(ctx, fi, m, acc)):
                ctx.check(o.value != C("passed"), "nothing", "%s %s" % (name, lab), "'passed' is returned although nothing was computed", fi.where)
    for o in rets(decide(ctx, fi, both, empty)):
        ctx.check(o.value == C("passed"), "nothing", "%s no criteria" % name, "a computed plan without criteria gives %s" % show(o.value), fi.where)
    # the caller hands over the computed metrics and the plan's own criteria
    rn = p.member(ci, "run")
    k = 0
    for c in own_calls(rn.node):
        if isinstance(c.func, ast.Attribute) and c.func.attr == "_evaluate_acceptance":
            k += 1
    ctx.count("verdict paths of " + name, n)
    ctx.floor("verdict paths of " + name, n, 20)


def statuses(p):
    out = set()
    for s in p.cls(SCHEMA + ".ResultStatus").node.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant):
            out.add(s.value.value)
    return out


def detail(ctx, p, all_ops):
    """acceptance_results and failed criteria say the same as the verdict."""
    n = 0
    both = dd((("m1", V1),), "metrics")
    for ci in adapters(p):
        br = p.member(ci, "_build_acceptance_results")
        fc = p.member(ci, "_get_failed_criteria")
        for op in all_ops + [None]:
            lab = op or "default"
            r1 = dd((("limit", L1),) + ((("comparison", C(op)),) if op else ()) + (("tolerance", T1),), "r1")
            acc = dd((("m1", r1),), "acc")
            if br is not None:
                for o in rets(decide(ctx, br, both, acc)):
                    n += 1
                    e = entry(o, "m1")
                    got = {k: item(o, e, k) for k in ("value", "limit", "passed")} if e else {}
                    ps = got.get("passed")
                    ok = ps is not None and claims(o, ps, op or "<=")
                    ctx.check(bool(ok), "detail", "%s %s" % (ci.name, lab), "acceptance_results marks a '%s' criterion as %s, which is not its comparison" % (lab, show(ps) if ps else "nothing"), br.where)
                    ctx.check(got.get("value") == V1, "detail", "%s value" % ci.name, "acceptance_results gives %s as the criterion's value" % show(got.get("value") or NONE), br.where)
            if fc is not None:
                for o in rets(decide(ctx, fc, both, acc)):
                    n += 1
                    v = verdict(o.state.facts, op or "<=", V1, L1, T1)
                    lst = o.value
                    some = lst[0] == "list" and len(lst[1]) == 1
                    none = lst[0] == "list" and not lst[1]
                    ctx.check(v is False and some or v is True and none, "listed", "%s %s" % (ci.name, lab),
                              "a %s '%s' criterion is %s" % ("violated" if v is False else "met" if v else "not evaluated", lab, "listed as failed" if some else "not listed as failed"), fc.where)
    ctx.count("detail paths", n)
    ctx.floor("detail paths", n, 12)


def entry(o, k):
    v = o.value
    if v[0] == "dict":
        for a, b in v[1]:
            if a == C(k):
                return b
    return o.state.heap.get(("item", v, C(k)))


def item(o, e, k):
    if e is None:
        return None
    if e[0] == "dict":
        got = None
        for a, b in e[1]:
            if a == C(k):
                got = b
        return got
    return o.state.heap.get(("item", e, C(k)))


def claims(o, ps, op):
    """The 'passed' term says exactly whether the comparison holds."""
    if ps[0] == "const":
        v = verdict(o.state.facts, op, V1, L1, T1)
        return isinstance(ps[1], bool) and v is ps[1]
    neg = False
    while ps[0] in ("not",) or ps[0] == "call" and ps[1] == ("ext", "bool"):
        if ps[0] == "not":
            neg = not neg
            ps = ps[1]
        else:
            ps = ps[2][0]
    if ps[0] != "cmp":
        return False
    a = ps[1]
    t, f = verdict({a: not neg}, op, V1, L1, T1), verdict({a: neg}, op, V1, L1, T1)
    # a term that is merely the negation of the opposite is true for NaN
    return t is True and f is False
