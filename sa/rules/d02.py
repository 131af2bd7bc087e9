"""D02: only programs the checker accepted are executed."""
import ast

from ..dsl import *
from ..flow import show

PROP = dict(
    id="D02", title="Only a DSL program that passed the type checker is executed",
    statement="Every way of running DSL source (library call, command line, packaging, web service, rendering tool) executes exactly the module that was parsed from the given source and only after the type checker examined that module and reported no error. Every error the checker reports is counted, so that a program with at least one reported error is never executed and never reported as checked OK.",
    over=["inputs"], text="all DSL sources and entry points",
    why="Tests run a few rejected programs through one entry point; a path that skips, ignores or races the check shows only with a program that is both ill-typed and executable.",
    files=["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/checker.py", "src/yapcad/dsl/errors.py", "src/yapcad/dsl/__main__.py"],
    mech=[("compile and run", "src/yapcad/dsl/runtime/interpreter.py: compile_and_run"),
          ("error reporting", "src/yapcad/dsl/checker.py: TypeChecker.check and error recording"),
          ("error counting", "src/yapcad/dsl/errors.py: DiagnosticCollector")],
    observe=["ExecutionResult.success for a program with a type error", "exit status of the check command"],
    technique="path-sensitive must-dataflow over the syntax tree (value provenance of the executed module plus dominating check facts)",
    note="Every call in the repository that hands a module to the interpreter is enumerated and each path to it must hold the fact that the checker found no error in that same module.",
)
EXPLAIN = ("All functions of the package, service and tools are searched for calls that hand a module to the interpreter; a function "
           "forwarding its own module parameter becomes an executor itself and its callers are examined. On every path to such a call "
           "the module must come from parsing the tokens of the source that is also passed on, and the path must hold that the error flag "
           "of the checker's result for that module is false. The checker's reporting functions are walked to show that every "
           "report reaches the error count and the flag.")
ASSUME = ["AST transforms passed to an Interpreter explicitly are the caller's responsibility; no entry point passes any"]

CHECKFN = (CHECKER + ".check", CHECKER + ".TypeChecker.check")


def positive(t, counts, st):
    """On this path t is true exactly when the count is positive."""
    for k in (0, 1, 2, 3, 19, 20, 21, 1000):
        env = {c: k for c in counts}
        try:
            if feasible(st, env) and bool(peval(t, env)) != (k > 0):
                return False
        except Unknown:
            return False
    return True


def scans(t, coll):
    """t is any(d is an error for d in the collected diagnostics)."""
    if t[0] == "call" and t[1] == ("ext", "bool"):
        t = t[2][0]
    if not (t[0] == "call" and t[1] == ("ext", "any") and t[2] and t[2][0][0] == "comp"):
        return False
    _, _, elts, iters, inner = t[2][0]
    el = ("elem", coll, "c")
    sev = (("attr", el, "severity"), ("attr", ("attr", el, "severity"), "value"), ("attr", ("attr", el, "severity"), "name"))

    def is_err(a):
        return a[0] == "eq" and any(x in sev for x in a[1:]) and any(
            x[0] == "enum" and x[-1] == "ERROR" or x in (C("error"), C("ERROR")) for x in a[1:])
    if iters != (coll,):
        return False
    conds = [a for a, v in inner if v and is_err(a)]
    return len(inner) == 0 and len(elts) == 1 and elts[0][0] == "cmp" and is_err(elts[0][1]) or \
        len(inner) == 1 and len(conds) == 1 and elts[0] in (TRUE,)


def is_check(t):
    return t[0] == "call" and (iscall(t, *CHECKFN) or (t[1][0] == "attr" and t[1][2] == "check" and t[1][1][0] == "call" and t[1][1][1] == ("class", CHECKER + ".TypeChecker")))


def error_free(st, module=None):
    """The path established that a checker result (for `module`) carries no error."""
    for a, v in st.facts.items():
        if a[0] == "truth" and v is False:
            for c in subterms(a[1]):
                if is_check(c) and (module is None or module in c[2] or any(k == "module" and x == module for k, x in c[3])):
                    if a[1] == ("attr", c, "has_errors"):
                        return True
                    if a[1][0] == "comp" or iscall(a[1], "any", "list", "len"):
                        return True
    return False


def run(ctx):
    p = ctx.p
    execs = {INTERP + ".Interpreter.execute": 0}
    forwards = {}
    sites = []
    todo = True
    seen = set()
    n_gate = 0
    while todo:
        todo = False
        for modname in sorted(p.modules):
            m = p.mod(modname)
            src = m.src
            names = {q.rsplit(".", 1)[1] for q in execs}
            if not any(n in src for n in names):
                continue
            for f in p.all_funcs(m):
                if f.qual in execs or f.qual in seen:
                    continue
                cand = [c for c in own_calls(f.node) if (isinstance(c.func, ast.Attribute) and c.func.attr in names) or
                        (isinstance(c.func, ast.Name) and c.func.id in names)]
                if not cand:
                    continue
                got = []

                def on_event(ev, st, eng):
                    if ev.kind != "call":
                        return
                    t = ev.term
                    hit = None
                    if t[1][0] in ("fn", "attr"):
                        fi = eng.fn_info(t[1]) if t[1][0] != "attr" else None
                        if fi is not None and fi.qual in execs:
                            hit = fi.qual
                        elif t[1][0] == "attr" and t[1][2] == "execute":
                            c = eng.type_of(t[1][1])
                            if (isinstance(c, ClassInfo) and c.name == "Interpreter") or (
                                    t[1][1][0] == "call" and t[1][1][1] == ("class", INTERP + ".Interpreter")):
                                hit = INTERP + ".Interpreter.execute"
                    if hit:
                        got.append((t, st.copy(), ev.where))
                inl = lambda eng, fi, d, f=f: fi.module is f.module and fi.qual not in execs and fi.name not in ("tokenize", "parse", "check")
                outs, eng = ctx.walk(f, Pol(inline=inl, on_event=on_event, max_states=40))
                if not got:
                    continue
                mods = [arg(t, "module", 0) for t, _, _ in got]
                if all(x is not None and x[0] == "param" and x[1] != "self" for x in mods) and \
                        not any(error_free(st, x) for (t, st, w), x in zip(got, mods)):
                    execs[f.qual] = 0
                    todo = True
                    ctx.ok("forward", f.qual, f.where)
                    continue
                seen.add(f.qual)
                for (t, st, w), mod in zip(got, mods):
                    n_gate += 1
                    sites.append(f.qual)
                    if mod is None:
                        ctx.bad("gate", f.qual, "the interpreter is called without a module", w)
                        continue
                    ctx.check(error_free(st, mod), "gate", f.qual,
                              "the interpreter runs a module on a path where the checker's result for that module was not found free of errors", w)
                    parses = [x for x in subterms(mod) if iscall(x, PARSER + ".parse")]
                    if parses and mod in parses:
                        toks = arg(mod, "tokens", 0)
                        srcs = [arg(x, "source", 0) for x in subterms(toks) if x[0] == "call" and iscall(x, "yapcad.dsl.lexer.tokenize")]
                        want = arg(t, "source", 3)
                        psrc = arg(mod, "source", 1)
                        ctx.check(bool(srcs) and all(s == srcs[0] for s in srcs) and (want is None or want == srcs[0])
                                  and (psrc is None or psrc == srcs[0]), "same-source", f.qual,
                                  "the module that runs, the text native blocks are cut from and the recorded source are not the same text", w)
                        ip = t[1][1] if t[1][0] == "attr" else None
                        tr = arg(ip, "transforms", 0) if ip is not None and ip[0] == "call" else None
                        ctx.check(tr is None or tr in (NONE, ("list", (), tr[2] if len(tr) > 2 else None)), "no-rewrite", f.qual,
                                  "the module is rewritten between the check and the run", w)
                    else:
                        ctx.check(mod[0] in ("param", "attr", "elem", "item", "phi", "call"), "same-source", f.qual, "unrecognised module value", w)
    ctx.floor("checked hand-overs to the interpreter", n_gate, 1)

    # nobody reaches the interpreter's internals around execute()
    inner = {"_execute_command", "_execute_statement", "_evaluate", "_call_command", "_execute_native_block", "_execute_python_block"}
    for modname in sorted(p.modules):
        if modname == INTERP or "Interpreter" not in p.mod(modname).src:
            continue
        for n in ast.walk(p.mod(modname).tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in inner:
                ctx.bad("bypass", modname, "%s is called outside the interpreter" % n.func.attr, "%s:%d" % (p.mod(modname).rel, n.lineno))
    ctx.ok("bypass", "all modules")

    # reporting: error -> collected -> counted -> flag -> result
    inl = lambda eng, fi, d: fi.module.name in (CHECKER, "yapcad.dsl.errors") and fi.name != "_check_module"
    chk = p.func(CHECKER + ".TypeChecker.check")
    visited = []

    def on_chk(ev, st, eng):
        if ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] == "_check_module":
            st.user = ev.term[2]
    outs, _ = ctx.walk(chk, Pol(inline=inl, on_event=on_chk))
    scanned = False
    self_ = ("param", "self")
    coll = ("attr", self_, "diagnostics")
    count = ("attr", coll, "_error_count")
    for o in outs:
        if o.kind != "return":
            continue
        ctx.check(o.state.user == (("param", chk.params[1]),), "check-runs", "TypeChecker.check", "a result is returned without checking the given module", chk.where)
        flag = arg(o.value, "has_errors", 1) if o.value is not None and o.value[0] == "call" else None
        good = flag is not None and (positive(flag, (count, ("attr", coll, "error_count")), o.state) or scans(flag, ("attr", coll, "diagnostics")))
        scanned = scanned or flag is not None and scans(flag, ("attr", coll, "diagnostics"))
        ctx.check(good, "flag", "CheckResult.has_errors", "the error flag of a check result is not the collector's error count being positive: %s" % (flag and show(flag, 5)), chk.where)
        di = arg(o.value, "diagnostics", 0) if o.value is not None and o.value[0] == "call" else None
        ctx.check(di is not None and ("attr", coll, "diagnostics") in list(subterms(di)), "flag", "CheckResult.diagnostics", "the diagnostics of a check result are not the collected ones", chk.where)
    for qual in (CHECKER + ".check",):
        w = p.func(qual)
        got = []
        outs, _ = ctx.walk(w, Pol(inline=lambda eng, fi, d: False))
        for o in outs:
            if o.kind == "return":
                v = o.value
                ctx.check(v is not None and any(is_check(x) and ("param", w.params[0]) in x[2] for x in subterms(v)), "check-runs", qual,
                          "the convenience check does not return the checker's result for the given module", w.where)
    err = p.func(CHECKER + ".TypeChecker._error")
    outs, _ = ctx.walk(err, Pol(inline=inl))
    for o in outs:
        h = {(k[0], k[1]): v for k, v in o.state.heap.items()}
        ctx.check(o.kind == "return" and (scanned or h.get((coll, "_error_count")) == ("bin", "Add", count, C(1))), "count", "error report",
                  "reporting an error can leave the error count unchanged", err.where)
    add = p.func("yapcad.dsl.errors.DiagnosticCollector.add")
    kept = []

    def on_add(ev, st, eng):
        if ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] in ("append", "extend", "insert") and \
                ev.term[1][1] == ("attr", self_, "diagnostics"):
            st.user = True
    outs, _ = ctx.walk(add, Pol(on_event=on_add))
    d = ("param", add.params[1])
    for o in outs:
        ctx.check(o.kind == "return" and bool(o.state.user), "collect", "DiagnosticCollector.add", "a diagnostic can be dropped", add.where)
        inc = o.state.heap.get((self_, "_error_count")) == ("bin", "Add", ("attr", self_, "_error_count"), C(1))
        sev = [v for a, v in o.state.facts.items() if a[0] == "eq" and ("attr", d, "severity") in a and any(x[0] == "enum" and x[-1] == "ERROR" for x in a if isinstance(x, tuple))]
        ctx.check(scanned or inc or sev == [False], "count", "DiagnosticCollector.add", "an error diagnostic is collected without being counted", add.where)
    # nothing resets the count or drops diagnostics
    for modname in (CHECKER, "yapcad.dsl.errors"):
        for f in p.all_funcs(p.mod(modname)):
            if f.name == "__init__":
                continue
            for n in walk_own(f.node):
                t = []
                if isinstance(n, ast.Assign):
                    t = n.targets
                elif isinstance(n, ast.AugAssign) and not isinstance(n.op, ast.Add):
                    t = [n.target]
                for x in t:
                    if isinstance(x, ast.Attribute) and x.attr in ("_error_count", "diagnostics"):
                        ctx.bad("reset", f.qual, "%s is overwritten after construction" % x.attr, f.where)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clear", "pop", "remove") \
                        and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "diagnostics":
                    ctx.bad("reset", f.qual, "collected diagnostics are removed", f.where)

    # reports of a check are honest: OK (0) only without errors
    for qual in ("yapcad.dsl.__main__.cmd_check",):
        f = p.func(qual)
        outs, _ = ctx.walk(f, Pol(inline=lambda eng, fi, d: fi.module is f.module, max_states=60))
        n = 0
        for o in outs:
            if o.kind == "return" and (o.value is None or o.value in (NONE, C(0))):
                n += 1
                ctx.check(error_free(o.state), "report", qual, "the check command exits with success on a path where the checker's errors were not tested", f.where)
        ctx.floor("successful exits of the check command", n, 1)
