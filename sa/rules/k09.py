"""K09: a recorded analysis result is what happened in this run."""
import ast

from ..dsl import ident
from ..lib import *
from ..flow import show
from .k08 import BASE, SCHEMA, adapters, dd

CLI = "yapcad.package.analysis.cli"
AR = BASE + ".AnalysisResult"

PROP = dict(
    id="K09", title="A recorded analysis result is the result of this run",
    statement="Running a validation plan records exactly what happened: 'skipped' only when a required tool or library is missing, 'error' when the solver returned a failure or the check raised, and otherwise the verdict of this plan's acceptance criteria over the metrics computed in this run - never over output files of an earlier run. The check property named in the plan is the one that is computed. The package's manifest and the summary file carry that status, those metrics and notes under that plan's id, replacing what an earlier run of the plan recorded and leaving other plans' results as they were, and each field of the plan comes from the YAML key documented for it.",
    over=["inputs", "histories", "fault_sequences"], text="all plans, prior results, solver outcomes and exceptions",
    why="Tests run one fresh package with the solver missing; second runs, solver failures and stale files are what put a wrong verdict into a released package.",
    files=["src/yapcad/package/analysis/cli.py", "src/yapcad/package/analysis/base.py", "src/yapcad/package/analysis/calculix.py", "src/yapcad/package/analysis/fenics.py", "src/yapcad/package/analysis/yapcad_native.py"],
    mech=[("recording", "src/yapcad/package/analysis/cli.py: analyze_package"),
          ("solver execution", "src/yapcad/package/analysis/calculix.py: CalculixAdapter.run"),
          ("plan loading and backend registry", "src/yapcad/package/analysis/base.py: load_plan, register_backend, get_backend")],
    observe=["validation.results in manifest.yaml", "validation/results/<plan>/summary.json", "status of the returned result"],
    technique="path-sensitive dataflow over every adapter's run, the recording of results with a known manifest, and the plan loader with known keys",
    note="Adapters are walked with exceptions; recording is walked with a manifest that already holds a result of this plan and one of another plan, whose contents are tracked through aliases.",
)
EXPLAIN = ("Every path through every AnalysisAdapter.run: what status is returned after which solver outcome, missing tool or exception, over which metrics and which files. Every path through "
           "analyze_package with a manifest whose previous results are known: the manifest's content when save() is called and the payload dumped to the summary. Every plan field from load_plan.")
ASSUME = ["availability flags set by a guarded import, and shutil.which, tell whether a tool is present", "an adapter's result is the one its run returned"]

SITE = ("site", "$k9", 0, 0)
RUNNERS = ("subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen")
READS = (".read_text", ".read_bytes")


def reaching(p, m, want=None):
    """Functions of the module from which a result is built, a solver run, or a file read, deleted or opened."""
    fns = {f.qual: f for f in p.all_funcs(m)}
    hot = set()
    for q, f in fns.items():
        for c in own_calls(f.node):
            n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
            if want is not None:
                if n in want or n.endswith("evaluate_acceptance"):
                    hot.add(q)
                continue
            if n in ("AnalysisResult", "unlink", "which", "open", "read_text", "rmtree", "remove") or n in [r.split(".")[1] for r in RUNNERS] or n.endswith("_available"):
                hot.add(q)
    names = {f.name: q for q, f in fns.items()}
    while True:
        more = {q for q, f in fns.items() if q not in hot and any((c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")) in {fns[h].name for h in hot} for c in own_calls(f.node))}
        if not more:
            return hot
        hot |= more


def flags(p):
    """Module-level names set differently by a try body and its handler."""
    out = set()
    for m in p.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.Try):
                a = {t.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
                b = {t.id for h in n.handlers for s in h.body for x in ast.walk(s) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
                out |= {m.name + "." + x for x in a & b}
    return out


def same_obj(a, b):
    if "phi" in (a[0], b[0]):
        return all(any(same_obj(x, y) for y in alts(b)) for x in alts(a)) or all(any(same_obj(x, y) for y in alts(a)) for x in alts(b))
    return a == b or (a[0] == b[0] == "dict" and len(a) == 3 and len(b) == 3 and a[2] == b[2])


def mode_of(t):
    m = arg(t, "mode", 1 if t[1][0] == "ext" else 0)
    return m[1] if m is not None and m[0] == "const" else "r"


def adapter(ctx, p, cls, avail):
    run = p.member(cls, "run")
    hot = reaching(p, run.module)
    deciding = reaching(p, run.module, ("AnalysisResult",)) | {run.qual}
    name = cls.name
    bad = ctx.bad
    PLAN, WS = ident("plan"), ident("ws")

    def ev(e, st, eng):
        t = e.term
        u = st.user or frozenset()
        if e.kind == "handler" and e.func.qual in deciding:
            st.user = u | {("exc",)}
        if e.kind != "call":
            return
        if iscall(t, *RUNNERS):
            st.user = u | {("ran", t[4])} | ({("checked", t[4])} if arg(t, "check") == TRUE or iscall(t, "subprocess.check_call", "subprocess.check_output") else set())
        elif iscall(t, ".unlink", "os.remove", "os.unlink"):
            q = t[1][1] if t[1][0] == "attr" and t[1][1][0] != "ext" else t[2][0]
            st.user = u | {("gone", strip_sites(q))}
        elif iscall(t, ".open", "open", *READS):
            q = t[1][1] if t[1][0] == "attr" else (t[2][0] if t[2] else None)
            if q is None or not mentions_term(q, WS):
                return
            q = strip_sites(q)
            if not iscall(t, *READS) and mode_of(t)[:1] in ("w", "x"):
                st.user = u | {("gone", q)}
            elif any(x[0] == "ran" for x in u):
                ctx.count("solver output files read")
                ctx.check(("gone", q) in u, "stale", "%s reads %s" % (name, show(q)[-60:]),
                          "a file that the solver may not have written in this run is read without having been removed first: the result of an earlier run decides the verdict", e.where)

    def inl(eng, fi, d):
        return fi.qual in hot or fi.name.endswith("_available")
    pol = Pol(inline=inl, on_event=ev, fold=True, want_exc=True, max_depth=5, loop_iters=2,
              fact_key=lambda a: any(x[0] == "attr" and x[2] == "returncode" for x in subterms(a)) or any(iscall(x, "shutil.which") for x in subterms(a) if x[0] == "call") or any(x[0] in ("gval",) for x in subterms(a)))
    outs, eng = ctx.walk(run, pol, bind={run.params[2]: PLAN, run.params[3]: WS}, types={PLAN: p.cls(BASE + ".AnalysisPlan")})
    n = 0
    seen = {"ok": 0, "skipped": 0, "error": 0}
    for o in outs:
        if o.kind != "return":
            continue
        u = o.state.user or frozenset()
        for r in alts(o.value):
            if r == NONE:
                continue
            if not (r[0] == "call" and r[1] == ("class", AR)):
                bad("result", name, "a path returns %s instead of an AnalysisResult" % show(r)[:60], run.where)
                continue
            n += 1
            h = o.state.heap

            def fld(k, pos):
                return h.get((r, k), arg(r, k, pos))
            pid, status, metrics = fld("plan_id", 0), fld("status", 1), fld("metrics", 2)
            ctx.check(pid == ("attr", PLAN, "plan_id"), "plan-id", name, "a result is given under %s, not under the plan's id" % (show(pid) if pid else "no id"), run.where)
            ran = [x for x in u if x[0] == "ran"]
            for s in alts(status) if status is not None else ():
                if is_eval(s):
                    seen["ok"] += 1
                    m, acc = s[2][-2], s[2][-1]
                    ctx.check(acc == ("attr", PLAN, "acceptance"), "criteria", name, "the verdict is evaluated over %s instead of the plan's acceptance criteria" % show(acc)[:60], run.where)
                    ctx.check(metrics is not None and same_obj(m, metrics), "metrics", name, "the recorded metrics (%s) are not the ones the verdict was evaluated over (%s)" % (show(metrics)[:50] if metrics else "none", show(m)[:50]), run.where)
                    ctx.check(("exc",) not in u, "after-exception", name, "a path on which an exception was caught still returns an evaluated verdict", run.where)
                    for x in ran:
                        good = ("checked", x[1]) in u or any(
                            (a[0] == "eq" and v and zero(a, x[1])) or (a[0] == "truth" and not v and rc(a[1], x[1])) for a, v in o.state.facts.items())
                        ctx.check(good, "solver-failed", name, "a path evaluates the criteria although the solver's return code is not known to be 0 on it", run.where)
                elif s == C("skipped"):
                    seen["skipped"] += 1
                    why = [a for a, v in o.state.facts.items() if missing(a, v, avail)]
                    ctx.check(bool(why) and not ran, "skipped", name, "a result is reported as skipped on a path on which no tool was found missing%s" % (" and the solver has run" if ran else ""), run.where)
                elif s == C("error"):
                    seen["error"] += 1
                else:
                    bad("verdict", name, "status %s does not come from evaluating the acceptance criteria" % show(s)[:60], run.where)
    ctx.check(seen["ok"] > 0, "evaluates", name, "no path evaluates the acceptance criteria", run.where)
    # whatever a caught exception leaves behind
    if any(("exc",) in (o.state.user or ()) for o in outs):
        ctx.check(all(any(s == C("error") for s in alts(o.state.heap.get((o.value, "status"), arg(o.value, "status", 1)) or NONE)) for o in outs
                      if o.kind == "return" and o.value[0] == "call" and ("exc",) in (o.state.user or ())), "exception", name, "a caught exception does not end in status 'error'", run.where)
    ctx.count("adapter results", n)
    return n


def is_eval(t):
    return t[0] == "call" and iscall(t, "._evaluate_acceptance") or (t[0] == "call" and t[1][0] in ("fn", "attr") and fname(t[1]).endswith("evaluate_acceptance")) and len(t[2]) >= 2


def rc(t, site):
    return t[0] == "attr" and t[2] == "returncode" and t[1][0] == "call" and t[1][4] == site


def zero(a, site):
    return (rc(a[1], site) and a[2] == C(0)) or (rc(a[2], site) and a[1] == C(0))


def missing(a, v, avail):
    ts = list(subterms(a))
    tool = any(x[0] == "call" and iscall(x, "shutil.which") for x in ts)
    flag = any((x[0] == "gval" and "%s.%s" % (x[1], x[2]) in avail) or (x[0] == "call" and fname(x[1]).endswith("_available")) or (x[0] in ("ext", "attr") and fname(x) in avail) for x in ts)
    if tool:
        return (a[0] == "eq" and v and NONE in a[1:]) or (a[0] == "truth" and not v)
    return flag and ((a[0] == "truth" and not v) or (a[0] == "eq" and v and (NONE in a[1:] or FALSE in a[1:])))



def keys_of(p, fi, seen=()):
    """Leading text of the string keys a function gives the dictionaries it builds."""
    out = set()

    def lead(k):
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            return k.value
        if isinstance(k, ast.JoinedStr) and k.values and isinstance(k.values[0], ast.Constant):
            return k.values[0].value
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Dict):
            out |= {lead(k) for k in n.keys if k is not None}
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            out.add(lead(n.slice))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict":
            out |= {k.arg for k in n.keywords}
    for c in own_calls(fi.node):
        g = resolve_call(p, fi, c)
        if isinstance(g, FuncInfo) and g.module is fi.module and g.qual not in seen and len(seen) < 4:
            out |= keys_of(p, g, seen + (fi.qual,))
    return {k for k in out if k}


def dispatch(ctx, p):
    """The property named by the plan is the one measured."""
    cls = [c for c in adapters(p) if c.module.name.endswith("yapcad_native")][0]
    run = p.member(cls, "run")
    hot = reaching(p, run.module)
    known = set()
    for m in [p.mod(SCHEMA)]:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value in ("geometric", "measurement") and isinstance(v, ast.Set):
                        known |= {e.value for e in v.elts}
    ctx.floor("documented check properties", len(known), 6)
    done = 0
    for prop in sorted(known) + ["$nonsense"]:
        PLAN, WS = ident("plan"), ident("ws")
        raw = dd((("check", dd((("property", C(prop)),), "spec")),), "raw")
        outs, eng = ctx.walk(run, Pol(inline=lambda e, f, d: f.qual in hot, fold=True, want_exc=True, max_depth=5), bind={run.params[2]: PLAN, run.params[3]: WS},
                             heap={(PLAN, "raw"): raw}, types={PLAN: p.cls(BASE + ".AnalysisPlan"), ident("self"): cls, ("param", run.params[0]): cls})
        hit = False
        for o in outs:
            if o.kind != "return" or o.value[0] != "call" or o.value[1] != ("class", AR):
                continue
            st = o.state.heap.get((o.value, "status"), arg(o.value, "status", 1))
            if not any(is_eval(x) for x in alts(st)):
                continue
            hit = True
            m = [x[2][-2] for x in alts(st) if is_eval(x)][0]
            for mm in alts(m):
                src = [v for k, v in mm[1] if k == ("dstar",)] if mm[0] == "dict" else [mm]
                for t in src:
                    fs = [x for x in subterms(t) if x[0] == "call"]
                    fi = next((eng.fn_info(x[1]) for x in fs if eng.fn_info(x[1]) is not None), None)
                    if fi is None or not any(isinstance(x, ast.Return) and x.value is not None for x in walk_own(fi.node)):
                        continue        # it always raises, and so ends in an error
                    ks = keys_of(p, fi)
                    ctx.check(any(k == prop or k.startswith((prop + ".", prop + "_")) for k in ks), "measured", prop, "a plan that checks %r is judged by the metrics of %s, which computes %s" % (prop, fi.name, sorted(ks)[:4]), fi.where)
                    done += 1
        if prop == "$nonsense":
            ctx.check(not hit, "unknown-property", "native", "a plan naming an unknown check property gets a verdict", run.where)
    ctx.floor("properties computed", done, 5)


def recorded(ctx, p):
    """The manifest when it is saved, and the summary that is dumped."""
    fi = p.func(CLI + ".analyze_package")
    PL, MAN, RES, EX, STAT, ROOT = (ident(x) for x in ("plan", "manifest", "result", "exec", "stat", "root"))
    PID = ("attr", PL, "plan_id")
    OS, OM, ON, XS, RS, RM, RN, RA, RB, RT = (ident(x) for x in ("os", "om", "on", "xs", "rs", "rm", "rn", "ra", "rb", "rt"))
    old = dd((("plan", PID), ("status", OS), ("metrics", OM), ("notes", ON), ("artifacts", ident("oa")), ("timestamp", ident("ot"))), "old")
    oth = dd((("plan", C("$other")), ("status", XS)), "oth")
    plans = ("list", (dd((("id", PID),), "pl"),), ("site", "$plans", 0, 0))

    def manifest(prior):
        if prior == "none":
            return ("dict", (), ("site", "$data", 0, 0))
        rs = (oth, old) if prior == "both" else (oth,)
        return dd((("name", ident("pkgname")), ("validation", dd((("results", ("list", rs, ("site", "$results", 0, 0))), ("plans", plans)), "val"))), "data")
    n = 0
    for prior in ("none", "other", "both"):
        for what in ("metrics", "bare", "no-adapter"):
            dumps, saves, runs = [], [], []
            has = what == "metrics"

            def hook(eng, t, st, node):
                f = t[1]
                if iscall(t, BASE + ".load_plan"):
                    return [(st, PL)]
                if f[0] == "attr" and f[2] == "load" and f[1][0] == "class":
                    return [(st, MAN)]
                if iscall(t, BASE + ".get_backend"):
                    runs.append(("backend", t))
                    return [(st, NONE if what == "no-adapter" else ident("cls"))]
                if f[0] == "attr" and f[2] == "run":
                    runs.append(("run", t))
                    return [(st, RES)]
                if iscall(t, "json.dump"):
                    dumps.append((t, dict(st.facts)))
                if f[0] == "attr" and f[2] == "save" and f[1] == MAN:
                    saves.append(st.heap.get((MAN, "data")))
                    st = st.copy()
                    st.user = (st.user or frozenset()) | {"saved"}
                    return [(st, NONE)]
            facts = {("eq", ident("cls"), NONE): False, ("truth", RES): True, ("eq", C("$other"), PID): False, ("eq", PID, C("$other")): False}
            for x in (RM, RA, RN):
                facts[("truth", x)] = has
            facts[("eq", RN, NONE)] = not has
            for x in (RB, RT, PID):
                facts[("truth", x)] = True
            heap = {(MAN, "data"): manifest(prior), (MAN, "root"): ROOT, (PL, "execution"): EX, (EX, "mode"): NONE,
                    (RES, "plan_id"): PID, (RES, "status"): RS, (RES, "metrics"): RM, (RES, "artifacts"): RA, (RES, "notes"): RN, (RES, "backend"): RB,
                    (RES, "timestamp"): RT, (RES, "summary_path"): NONE, (RES, "summary"): dd((("acceptance_results", ident("acc")),), "summ")}
            for a in ("acceptance", "loads", "boundary_conditions"):
                facts[("truth", ("attr", PL, a))] = False

            def inl(e, g, dep):
                return g.module.name in (CLI, BASE) and g.name not in ("load_plan", "get_backend")
            outs, eng = ctx.walk(fi, Pol(inline=inl, fold=True, call_hook=hook, loop_iters=3, max_depth=6),
                                 bind={"status": STAT}, heap=heap, facts=facts, types={PL: p.cls(BASE + ".AnalysisPlan"), RES: p.cls(AR), MAN: p.cls("yapcad.package.core.PackageManifest")})
            want = STAT if what == "no-adapter" else RS
            c = "%s, %s" % ({"none": "no earlier result", "other": "a result of another plan", "both": "an earlier result of this plan"}[prior],
                            {"metrics": "with metrics", "bare": "without metrics", "no-adapter": "no adapter"}[what])
            ctx.check(all("saved" in (o.state.user or ()) for o in outs if o.kind == "return"), "saved", c, "a path returns normally without the manifest having been saved", fi.where)
            for k, t in runs:
                if k == "backend":
                    ctx.check(t[2] == (("attr", PL, "backend"),), "backend", c, "the adapter is looked up for %s, not for the plan's backend" % show(t)[:60], fi.where)
                else:
                    ctx.check(MAN in t[2] and PL in t[2] and any(mentions_term(x, PID) and mentions_term(x, ROOT) for x in t[2]), "run-args", c, "the adapter is run with %s" % show(t)[:80], fi.where)
            for d in saves:
                n += 1
                val = get(d, "validation")
                res = get(val, "results")
                if res is None or res[0] != "list":
                    ctx.bad("results", c, "the saved manifest has no list of results (%s)" % (show(res)[:60] if res else "none"), fi.where)
                    continue
                mine = [e for e in res[1] if get(e, "plan") == PID]
                others = [e for e in res[1] if get(e, "plan") == C("$other")]
                ctx.check(len(mine) == 1, "one-entry", c, "the saved manifest holds %d results of the plan" % len(mine), fi.where)
                if prior != "none":
                    ctx.check(others == [oth], "others", c, "another plan's result is changed or lost", fi.where)
                    ctx.check(get(d, "name") == ident("pkgname"), "rest", c, "the rest of the manifest is lost", fi.where)
                for e in mine:
                    ctx.check(get(e, "status") == want, "status", c, "the status recorded is %s" % show(get(e, "status") or NONE), fi.where)
                    stale = [k[1] for k, v in e[1] if any(mentions_term(v, x) for x in (OS, OM, ON, ident("oa"), ident("ot")))]
                    ctx.check(not stale, "stale-fields", c, "the recorded result keeps %s of the earlier run" % ", ".join(stale), fi.where)
                    if what != "no-adapter":
                        for k, v in (("metrics", RM), ("artifacts", RA), ("notes", RN)):
                            if has:
                                ctx.check(get(e, k) == v, k, c, "the recorded %s are %s" % (k, show(get(e, k) or NONE)[:60]), fi.where)
                        ctx.check(get(e, "timestamp") == RT and get(e, "backend") == RB, "provenance", c, "timestamp or backend of the result are not recorded", fi.where)
                    ctx.check(get(e, "path") is not None, "path", c, "the summary's path is not recorded", fi.where)
            ctx.check(bool(dumps), "summary", c, "no summary is written", fi.where)
            for t, f in dumps:
                pay = t[2][0]
                ctx.check(get(pay, "plan") == PID, "summary-plan", c, "the summary names plan %s" % show(get(pay, "plan") or NONE)[:50], fi.where)
                ctx.check(get(pay, "status") == want, "summary-status", c, "the summary says status %s" % show(get(pay, "status") or NONE)[:50], fi.where)
                if what != "no-adapter":
                    ctx.check(get(pay, "acceptance_results") == ident("acc"), "summary-rest", c, "the adapter's summary is not what is written", fi.where)
    ctx.floor("manifest states at save", n, 9)
    dflt = dict(zip(fi.params[::-1], [x for x in (fi.node.args.kw_defaults or fi.node.args.defaults)[::-1]]))
    ctx.check(all(not (isinstance(x, ast.Constant) and x.value in ("passed", "failed")) for x in dflt.values() if x is not None), "default-status", "analyze_package", "without an adapter the default status recorded is a verdict", fi.where)


def get(t, k):
    if t is None or t[0] != "dict":
        return None
    for a, v in t[1]:
        if a == C(k):
            return v
    return None


ESCAPES = ("..", "../x", "../../../x", "a/../../../x", "/abs/x")


def contained(ctx, p):
    fi = p.func(CLI + ".analyze_package")
    PL, MAN = ident("plan"), ident("manifest")
    for pid in ESCAPES:
        hits = []

        def hook(eng, t, st, node):
            f = t[1]
            if iscall(t, BASE + ".load_plan"):
                return [(st, PL)]
            if f[0] == "attr" and f[2] == "load" and f[1][0] == "class":
                return [(st, MAN)]

        def ev(e, st, eng):
            if e.kind == "call" and iscall(e.term, ".mkdir", "os.makedirs", ".run", ".open") and any(mentions_term(x, C(pid)) for x in e.term[2] + ((e.term[1],))):
                if not any(mentions_term(a, C(pid)) and not (a[0] == "eq" and C(pid) in a[1:] and not any(mentions_term(x, C(pid)) for x in a[1:] if x != C(pid))) for a in st.facts):
                    hits.append(e.where)
        ctx.walk(fi, Pol(inline=lambda e, g, d: g.module.name == CLI, fold=True, call_hook=hook, on_event=ev), heap={(PL, "plan_id"): C(pid), (MAN, "data"): ("dict", (), ("site", "$data", 0, 0))}, types={PL: p.cls(BASE + ".AnalysisPlan")})
        ctx.check(not hits, "plan-id-path", repr(pid), "a plan with the id %r makes files outside the package's results" % pid, hits[0] if hits else "")


def loading(ctx, p):
    fi = p.func(BASE + ".load_plan")
    cls = p.cls(BASE + ".AnalysisPlan")
    ecls = p.cls(BASE + ".ExecutionConfig")
    fields = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign)]
    efields = [s.target.id for s in ecls.node.body if isinstance(s, ast.AnnAssign)]
    special = {"plan_id": "id", "boundary_conditions": "boundaryConditions", "backend_options": "backendOptions"}
    keys = [special.get(f, f) for f in fields if f not in ("metadata", "raw", "execution")]
    ctx.floor("plan fields", len(keys), 10)
    # every other key the loading code names: none of them may feed a documented field
    named = {n.value for g in p.all_funcs(fi.module) for n in ast.walk(g.node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier()}
    extra = sorted(named - set(keys) - {"boundary_conditions", "execution"}) + ["extra"]
    eextra = sorted(named - set(efields)) + ["extra"]
    for alt in (False, True):
        def key(k):
            return "boundary_conditions" if alt and k == "boundaryConditions" else k
        ex = dd(tuple((k, ident("e_" + k)) for k in efields) + tuple((k, ident("ex_" + k)) for k in eextra), "ex")
        data = dd(tuple((key(k), ident("k_" + k)) for k in keys) + (("execution", ex),) + tuple((k, ident("k_" + k)) for k in extra), "yaml")

        def hook(eng, t, st, node):
            if iscall(t, "yaml.safe_load", "yaml.load"):
                return [(st, data)]
        facts = {("truth", ident("k_" + k)): True for k in keys + extra}
        facts.update({("eq", ident("k_" + k), NONE): False for k in keys})
        facts[("truth", data)] = True
        outs, eng = ctx.walk(fi, Pol(inline=lambda e, g, d: g.module.name == BASE, fold=True, call_hook=hook, loop_iters=3, list_cap=32), facts=facts)
        n = 0
        for o in outs:
            if o.kind != "return":
                continue
            for r in alts(o.value):
                if not (r[0] == "call" and r[1] == ("class", cls.qual)):
                    ctx.bad("loaded", "load_plan", "a path returns %s" % show(r)[:50], fi.where)
                    continue
                for i, f in enumerate(fields):
                    v = o.state.heap.get((r, f), arg(r, f, i))
                    if f in ("metadata", "raw"):
                        continue
                    if f == "execution":
                        for x in alts(v) if v is not None else ():
                            for j, g in enumerate(efields):
                                w = o.state.heap.get((x, g), arg(x, g, j)) if x[0] == "call" else None
                                n += 1
                                ids = {y[1] for y in subterms(w) if y[0] == "param" and y[1].startswith("$")} if w is not None else set()
                                ctx.check(ids == {"$e_" + g}, "execution-field", g, "the plan's execution.%s is read from %s" % (g, show(w)[:50] if w else "nothing"), fi.where)
                        continue
                    n += 1
                    ids = {y[1] for y in subterms(v) if y[0] == "param" and y[1].startswith("$")} if v is not None else set()
                    ctx.check(ids == {"$k_" + special.get(f, f)}, "plan-field", f, "the plan's %s is read from %s, not from the key %s" % (f, show(v)[:50] if v else "nothing", key(special.get(f, f))), fi.where)
        ctx.floor("fields read (%s)" % ("boundary_conditions" if alt else "boundaryConditions"), n, 18)
    # a plan without one of the required keys is refused
    for k in ("id", "kind", "backend"):
        data = dd(tuple((x, ident("k_" + x)) for x in ("id", "kind", "backend") if x != k), "yaml")

        def hook(eng, t, st, node):
            if iscall(t, "yaml.safe_load", "yaml.load"):
                return [(st, data)]
        outs, eng = ctx.walk(fi, Pol(inline=lambda e, g, d: g.module.name == BASE, fold=True, call_hook=hook, loop_iters=3), facts={("truth", data): True})
        ctx.check(not any(o.kind == "return" for o in outs), "required", k, "a plan without %r is loaded" % k, fi.where)


def registry(ctx, p, ads):
    reg, get_ = p.func(BASE + ".register_backend"), p.func(BASE + ".get_backend")
    keys = {"set": set(), "get": set()}
    N = ident("name")

    def ev(kind):
        def f(e, st, eng):
            if e.kind == "setitem":
                keys["set"].add(strip_sites(e.args[0]))
            if e.kind == "call" and iscall(e.term, ".get", ".setdefault") and e.term[2]:
                keys["get" if kind == "get" else "set"].add(strip_sites(e.term[2][0]))
        return f
    ctx.walk(reg, Pol(inline={BASE}, on_event=ev("set")), bind={reg.params[0]: N})
    outs, eng = ctx.walk(get_, Pol(inline={BASE}, on_event=ev("get")), bind={get_.params[0]: N})
    for o in outs:
        if o.kind == "return":
            for x in subterms(o.value):
                if x[0] == "item":
                    keys["get"].add(strip_sites(x[2]))
                if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get" and x[2]:
                    keys["get"].add(strip_sites(x[2][0]))
    ctx.check(keys["set"] and keys["set"] == keys["get"], "registry", "key", "backends are registered under %s and looked up under %s" % ([show(k) for k in keys["set"]], [show(k) for k in keys["get"]]), get_.where)
    names = {}
    for c in ads:
        calls = [n for n in ast.walk(c.module.tree) if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "register_backend"]
        mine = [n for n in calls if any(isinstance(a, ast.Name) and a.id == c.name for a in list(n.args) + [k.value for k in n.keywords])]
        ctx.check(bool(mine), "registered", c.name, "the adapter is not registered under any backend name", "%s:%d" % (c.module.rel, c.node.lineno))
        own = next((s.value.value for s in c.node.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Constant)
                    and any(isinstance(t, ast.Name) and t.id == "name" for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))), None)
        for n in mine:
            a = n.args[0] if n.args else None
            if isinstance(a, ast.Constant):
                ctx.check(a.value.lower() not in names, "backend-name", a.value, "two adapters are registered as %r" % a.value, c.module.rel)
                names[a.value.lower()] = c
                ctx.check(own is None or own.lower() == a.value.lower() or len(mine) > 1, "adapter-name", c.name, "the adapter calls itself %r and is registered as %r" % (own, a.value), c.module.rel)
    pkg = p.mod("yapcad.package.analysis")
    imported = {n.module for n in ast.walk(pkg.tree) if isinstance(n, ast.ImportFrom)} | {a.name for n in ast.walk(pkg.tree) if isinstance(n, ast.ImportFrom) for a in n.names} | {a.name.split(".")[-1] for n in ast.walk(pkg.tree) if isinstance(n, ast.Import) for a in n.names}
    for c in ads:
        ctx.check(c.module.name.split(".")[-1] in {str(x).split(".")[-1] for x in imported}, "imported", c.name, "importing the analysis package does not load the adapter's module, so its plans are never run", pkg.rel)
    for b in ("yapcad", "calculix", "fenics"):
        ctx.check(b in names, "backend-known", b, "no adapter is registered for the documented backend %r" % b, pkg.rel)


def run(ctx):
    p = ctx.p
    avail = flags(p)
    ads = adapters(p)
    ctx.floor("adapters", len(ads), 3)
    for c in ads:
        adapter(ctx, p, c, avail)
    dispatch(ctx, p)
    recorded(ctx, p)
    contained(ctx, p)
    loading(ctx, p)
    registry(ctx, p, ads)
