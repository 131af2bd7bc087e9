"""D01: a violated require always fails the run."""
import ast

from ..dsl import *
from ..flow import show

PROP = dict(
    id="D01", title="A require that evaluates to false always fails the run",
    statement="If any require (or assert) statement executed during a DSL run - in the invoked command, in any command it calls directly or indirectly, or in a default-value expression - has a false condition, the run's result is unsuccessful. No path discards a recorded requirement failure, and the result of a run that executed its requirements to the end lists them.",
    over=["inputs", "histories"], text="all programs, parameter values and call structures",
    why="Every nesting of calls, loops, branches, defaults and early exits around a require is a different path; tests sample a few straight-line ones.",
    files=["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/context.py"],
    mech=[("record a failed require", "src/yapcad/dsl/runtime/interpreter.py: require statement execution"),
          ("propagate failures from called commands", "src/yapcad/dsl/runtime/interpreter.py: command call"),
          ("fail the result", "src/yapcad/dsl/runtime/interpreter.py: Interpreter.execute")],
    observe=["ExecutionResult.success", "ExecutionResult.require_failures"],
    technique="path-sensitive typestate dataflow over the syntax tree (failure lists tracked from record to result)",
    note="Decides on every path of the current source that a false condition is recorded, that every execution context's failures reach the caller's context or the result, and that no successful result is built while a list may be non-empty.",
)
EXPLAIN = ("The statement dispatcher is walked for a require statement: each normal exit either holds the fact that the "
           "evaluated condition is truthy or has recorded a failure. Every function that creates an execution context and "
           "evaluates code in it is walked with helpers inlined; a context becomes dirty when code is evaluated in it and "
           "clean when its failure list flows into another context or is known empty; normal exits and successful results "
           "need every context clean. Writes that could shrink a failure list are enumerated.")
ASSUME = ["code in embedded Python blocks does not manipulate interpreter state through reflection"]

RF = "require_failures"


def lists_of(t):
    """contexts whose failure list the term contains"""
    return [x[1] for x in subterms(t) if x[0] == "attr" and x[2] == RF]


def recorded(ev):
    t = ev.term
    if ev.kind != "call":
        return False
    if iscall(t, ".add_require_failure"):
        return True
    return t[1][0] == "attr" and t[1][2] in ("append", "extend", "insert") and t[1][1][0] == "attr" and t[1][1][2] == RF


def run(ctx):
    p = ctx.p
    ev_, ex = evaluators(p)

    # A: executing the statement
    node = p.cls(AST + ".AssertStatement")

    def on_event(ev, st, eng):
        if recorded(ev):
            st.user = True
    outs, _ = dispatch_outs(ctx, ex, node, on_event, stop=("_evaluate", "_execute_statement"), max_states=120)
    stmt = ("param", ex.params[1])
    cond = ("attr", stmt, "condition")
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        held = [a for a, v in o.state.facts.items() if v and a[0] == "truth" and
                any(is_eval(x) and cond in x[2] for x in subterms(a[1])) and not any(x[0] == "not" for x in subterms(a[1]))]
        ctx.check(bool(o.state.user) or bool(held), "records", "require statement",
                  "a require with a false condition can finish without recording a failure; path facts: %s" % (
                      "; ".join(("" if v else "not ") + show(a, 4) for a, v in o.state.facts.items() if a[0] != "exact")[:300]), ex.where)
    ctx.floor("exits of a require statement", n, 2)

    # the record itself
    add = p.func(CONTEXT + ".ExecutionContext.add_require_failure")

    def on_add(ev, st, eng):
        if ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] in ("append", "extend", "insert") \
                and ev.term[1][1] == ("attr", ("param", "self"), RF):
            st.user = True
    outs, _ = ctx.walk(add, Pol(on_event=on_add))
    for o in outs:
        if o.kind == "return":
            grown = o.state.heap.get((("param", "self"), RF))
            ctx.check(bool(o.state.user) or (grown is not None and grown != ("attr", ("param", "self"), RF)), "records", "failure list",
                      "recording a requirement failure can leave the failure list unchanged", add.where)

    # B: contexts
    m = p.mod(INTERP)
    makers = []
    for f in p.all_funcs(m):
        for c in own_calls(f.node):
            r = resolve_call(p, f, c)
            if isinstance(r, (FuncInfo, ClassInfo)) and r.qual in (CREATE[0][1], CREATE[1][1]):
                if f not in makers:
                    makers.append(f)
    ctx.floor("functions creating execution contexts", len(makers), 2)
    exe = p.func(INTERP + ".Interpreter.execute")
    entries = [exe] + [f for f in makers if f is not exe]
    results = [0, 0]
    followed = set()
    for f in entries:
        if f.qual in followed:
            continue        # analysed in the context of its callers

        def dirty(st):
            return st.user or frozenset()

        def on_event(ev, st, eng, f=f):
            if ev.kind == "call" and is_eval(ev.term):
                for a in list(ev.term[2]) + [v for _, v in ev.term[3]]:
                    for c in alts(a):
                        if is_ctx(c):
                            st.user = dirty(st) | {c}
                            for k in [k for k, v in st.facts.items() if k == ("truth", ("attr", c, RF))]:
                                st.facts = {a: b for a, b in st.facts.items() if a != k}
                return
            if ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] in ("extend", "append", "insert"):
                tgt = ev.term[1][1]
                move(st, tgt, ev.term[2])
            if ev.kind == "aug":
                move(st, ev.term if ev.term[0] == "attr" else ("attr", ev.term, ev.args[0] if ev.args and isinstance(ev.args[0], str) else ""), ev.args)
            if ev.kind == "store" and ev.args and ev.args[0] == RF:
                src = lists_of(ev.args[1])
                if ev.term in src or not is_ctx(ev.term):
                    move(st, ("attr", ev.term, RF), [ev.args[1]])
                elif is_ctx(ev.term) and ev.term not in dirty(st):
                    move(st, ("attr", ev.term, RF), [ev.args[1]])
                else:
                    ctx.bad("discard", f.name, "the failure list of a context is replaced", ev.where)
            if ev.kind == "call" and ev.term[1] == RESULT:
                ok = arg(ev.term, "success", 0)
                if ok == FALSE:
                    results[1] += 1
                    return
                results[0] += 1
                left = dirty(st)
                good = not left
                if left and ok is not None and ok[0] in ("not", "bin", "cmp"):
                    good = all(any(x == ("not", ("attr", c, RF)) for x in subterms(ok)) for c in left)
                ctx.check(good, "success", f.name,
                          "a successful result is built although the requirement failures of a context that ran were not checked to be empty", ev.where)

        def move(st, tgt, vals):
            src = []
            for v in vals:
                if isinstance(v, tuple):
                    src += lists_of(v)
            src = [c for s in src for c in alts(s)]
            if not src or tgt[0] != "attr" or tgt[2] != RF:
                if tgt[0] == "param" and src:
                    st.user = dirty(st) - set(src)
                return
            d = dirty(st) - set(c for c in src if c != tgt[1])
            if is_ctx(tgt[1]):
                d = d | {tgt[1]}
            st.user = d

        def on_fact(atom, val, st):
            if atom[0] == "truth" and not val and atom[1][0] == "attr" and atom[1][2] == RF:
                st.user = dirty(st) - {atom[1][1]}
            if atom[0] == "eq" and val and atom[1][0] == "attr" and atom[1][2] == RF and atom[2][0] == "list":
                st.user = dirty(st) - {atom[1][1]}

        pol = Pol(inline=inline_interp(p), on_event=on_event, on_fact=on_fact, call_hook=erase_ctx, max_states=60,
                  loop_iters=1, fact_key=lambda a: a[0] == "truth" and a[1][0] == "attr" and a[1][2] in (RF, "should_return", "_should_return"))
        outs, eng = ctx.walk(f, pol)
        followed |= eng.inlined
        for o in outs:
            if o.kind != "return":
                continue
            left = set(dirty(o.state))
            if o.value is not None:
                left -= {x for x in alts(o.value) if is_ctx(x)}
                left -= set(lists_of(o.value))
            if o.value is not None and o.value[0] == "call" and o.value[1] == RESULT and arg(o.value, "success", 0) == FALSE:
                left = set()
            ctx.check(not left, "propagates", f.name,
                      "the requirement failures of a context evaluated here are dropped on return: %s" % "; ".join(show(c, 3) + str(c[4]) for c in left), f.where)
    ctx.floor("successful results", results[0], 1)
    ctx.counts["unsuccessful results"] = results[1]

    # C: nothing shrinks a failure list
    for mod in sorted(p.modules):
        if not mod.startswith("yapcad.dsl") and not mod.startswith("service"):
            continue
        for n in ast.walk(p.mod(mod).tree):
            bad = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clear", "pop", "remove") \
                    and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == RF:
                bad = n.func.attr
            if isinstance(n, ast.Delete) and any(isinstance(x, ast.Attribute) and x.attr == RF for t in n.targets for x in ast.walk(t)):
                bad = "del"
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == RF for t in n.targets) \
                    and not any(isinstance(x, ast.Attribute) and x.attr == RF for x in ast.walk(n.value)):
                bad = "assignment"
            if bad:
                ctx.bad("discard", mod, "requirement failures are removed by %s" % bad, "%s:%d" % (p.mod(mod).rel, n.lineno))
    # the dispatch of nested commands must not construct results from contexts it drops
    res = p.cls(INTERP + ".ExecutionResult")
    ctx.check("require_failures" in p.all_fields(res), "result-field", "ExecutionResult", "the result has no failure list", res.where)
