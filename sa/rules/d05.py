"""D05: arguments reach the parameters they are written for."""
from itertools import permutations

from ..dsl import *
from ..flow import show

PROP = dict(
    id="D05", title="Call arguments reach the parameters they are written for",
    statement="Every positional and named argument written in a DSL call of a command, native function, builtin or method, and every parameter value supplied for a run, reaches exactly the parameter it is written for, in any order of the named arguments; a parameter left out gets its own default; an unknown, repeated or missing one is an error and nothing is called. A called name means the native function before the command before the builtin, for the checker and at run time.",
    over=["inputs"], text="all calls and parameter sets",
    why="Tests call with positional arguments in the usual order; the combinations of positional, named, defaulted and misspelled arguments are not enumerated.",
    files=["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/builtins.py", "src/yapcad/dsl/checker.py"],
    mech=[("call evaluation", "src/yapcad/dsl/runtime/interpreter.py: Interpreter._eval_function_call, _bind_named_arguments, _call_command"),
          ("run parameters", "src/yapcad/dsl/runtime/interpreter.py: Interpreter._wrap_parameters"),
          ("name resolution", "src/yapcad/dsl/checker.py: TypeChecker._check_function_call")],
    observe=["emitted value computed from an argument in the wrong place", "a misspelled argument silently ignored"],
    technique="interprocedural constant/provenance propagation of call-argument terms for an enumerated set of call shapes",
    note="Argument values are opaque provenance terms; argument lists, names and defaults are propagated as constants through the binding code for every call shape of up to 4 parameters.",
)
EXPLAIN = ("For each call shape (positional count, set and order of named arguments, defaults) the call evaluators are walked with opaque argument terms; "
           "the mapping that reaches the callee (command context, native call, builtin call, method call) is compared with the one the call is written for, "
           "and erroneous shapes must not reach any callee.")
ASSUME = ["argument binding treats more than four parameters like four"]

SELF = ("param", "self")
NAMES = "abcd"


def ident(i):
    return ("param", "$" + i)


def heap_call(p, call, callee_cls, name, args, named, node="call"):
    """Heap facts of a call node with the given arguments."""
    cal = ident("callee")
    h = {(call, "arguments"): ("list", tuple(args), ("site", "$args", 0, 0)),
         (call, "named_arguments"): ("dict", tuple((C(k), v) for k, v in named), ("site", "$named", 0, 0)),
         (call, "callee"): cal, (cal, "name"): C(name)}
    f = {("exact", cal, ("class", callee_cls)): True}
    return h, f


def heap_command(tag, name, ndef, npar=4):
    """A command node with `npar` parameters, the last `ndef` of them with defaults."""
    cmd = ident("cmd_" + tag)
    h = {(cmd, "name"): C(name)}
    ps, f = [], {}
    for i in range(npar):
        prm = ident("p_%s_%s" % (tag, NAMES[i]))
        ps.append(prm)
        d = ident("default_" + NAMES[i]) if i >= npar - ndef else NONE
        h[(prm, "name")] = C(NAMES[i])
        h[(prm, "default_value")] = d
        f[("eq", prm, NONE)] = False
        f[("eq", d, NONE)] = d == NONE
        f[("truth", d)] = d != NONE
    h[(cmd, "parameters")] = ("list", tuple(ps), ("site", "$params_" + tag, 0, 0))
    return cmd, h, f


def expected(npos, named, ndef, npar=4):
    """{name: value term} by Python's own calling rules, or None for an error."""
    got = {}
    if npos > npar:
        return None
    for i in range(npos):
        got[NAMES[i]] = ("val", ident("A%d" % i))
    for k, v in named:
        if k in got or k not in NAMES[:npar]:
            return None
        got[k] = ("val", v)
    for i in range(npar):
        if NAMES[i] not in got:
            if i < npar - ndef:
                return None
            got[NAMES[i]] = ("val", ident("default_" + NAMES[i]))
    return got


def evald(eng, term, st, node):
    """self._evaluate(x, ctx) is the value of x."""
    f = term[1]
    if f[0] == "attr" and f[2] == "_evaluate" and len(term[2]) >= 1:
        return [(st, ("val", term[2][0]))]
    return None


def shapes():
    """(npos, ((name, term), ...)) for calls of a four-parameter callee."""
    out = [(n, ()) for n in range(6)]
    for npos in range(0, 4):
        rest = NAMES[npos:]
        for k in range(1, len(rest) + 1):
            seen = 0
            for names in permutations(rest, k):
                fwd = list(names) == sorted(names)
                if not fwd and list(names) != sorted(names, reverse=True):
                    continue
                out.append((npos, tuple((x, ident("N_" + x)) for x in names)))
                seen += 1
    out.append((1, (("a", ident("N_a")),)))
    out.append((2, (("b", ident("N_b")), ("d", ident("N_d")))))
    out.append((3, (("zz", ident("N_zz")),)))
    out.append((4, (("zz", ident("N_zz")),)))
    out.append((4, (("d", ident("N_d")),)))
    out.append((0, (("d", ident("N_d")), ("zz", ident("N_zz")), ("a", ident("N_a")))))
    return out


def label(npos, named, ndef):
    a = ["a%d" % i for i in range(npos)] + ["%s=" % k for k, _ in named]
    return "f(%s) with %d default(s)" % (", ".join(a), ndef)


def norm(t):
    """EmitResult/val wrappers aside, the value term."""
    return strip_sites(t)


class Sink:
    """Collects what reaches the callee on each path."""

    def __init__(self):
        self.hits = []


def run(ctx):
    p = ctx.p
    it = icls(p)
    efc = p.func(INTERP + ".Interpreter._eval_function_call")
    commands(ctx, p, efc)
    natives(ctx, p, efc)
    builtins_(ctx, p, efc)
    methods(ctx, p)
    run_params(ctx, p)
    precedence(ctx, p, efc)


def walk_call(ctx, p, fi, tables, args, named, name="foo", stop=(), extra_heap=None, extra_facts=None, hook=None, inline_mods=()):
    call = ("param", fi.params[1])
    heap, facts = heap_call(p, call, p.cls(AST + ".Identifier").qual, name, args, named)
    heap.update(tables[0])
    facts.update(tables[1])
    heap.update(extra_heap or {})
    facts.update(extra_facts or {})

    def inl(e, f, d):
        return f.module.name in ({INTERP} | set(inline_mods)) and f.name not in ("_evaluate", "_execute_command", "_execute_body", "_execute_statement", "_apply_command_meta_hint") + tuple(stop)

    def hk(eng, term, st, node):
        r = hook(eng, term, st, node) if hook else None
        return r if r is not None else evald(eng, term, st, node)
    pol = Pol(inline=inl, call_hook=hk, fold=True, list_cap=40, max_depth=8, track=lambda ev, st: ev.kind == "call" and ev.term[1][0] == "$sink")
    return ctx.walk(fi, pol, heap=heap, facts=facts)


def sink_hook(match, out):
    """Record calls `match` accepts as an event of the path."""
    def hook(eng, term, st, node):
        r = match(term)
        if r is None:
            return None
        st = st.copy()
        st.events = st.events + (("sink", r, ()),)
        return [(st, ("val", r))]
    return hook


def sinks(o):
    return [e[1] for e in o.state.events if e[0] == "sink"]


def module_heap(cmds, natives):
    m = ident("module")
    return ({(SELF, "current_module"): m, (m, "commands"): ("list", tuple(cmds), ("site", "$cmds", 0, 0)),
             (SELF, "native_functions"): ("dict", tuple((C(n), f) for n, f in natives), ("site", "$natives", 0, 0))},
            {("eq", m, NONE): False, ("truth", m): True})


def dict_term(t):
    """{name: term} of a constant-key dict term, or None."""
    if t is None or t[0] != "dict":
        return None
    if any(k[0] != "const" for k, _ in t[1]):
        return None
    return {k[1]: v for k, v in t[1]}


def commands(ctx, p, efc):
    def match(term):
        if term[1] in CREATE:
            prm = arg(term, "parameters", 2)
            # a context without a command name only serves a default value
            name = arg(term, "command_name", 1)
            if name in (C(""), None):
                return None
            return ("tuple", (name, prm if prm is not None else NONE))
        return None
    n = 0
    for ndef in (0, 1, 2):
        other, h0, f0 = heap_command("other", "Foo", 0)
        cmd, h1, f1 = heap_command("foo", "foo", ndef)
        mh, mf = module_heap([other, cmd], [])
        tables = ({**h0, **h1, **mh}, {**f0, **f1, **mf})
        for npos, named in shapes():
            want = expected(npos, named, ndef)
            outs, _ = walk_call(ctx, p, efc, tables, [ident("A%d" % i) for i in range(npos)], named,
                                stop=("create_context", "_evaluate_default"), hook=default_hook(match))
            judge(ctx, "command", label(npos, named, ndef), outs, want, efc,
                  lambda s: dict_term(s[1][1]) if s[0] == "tuple" and s[1][0] == C("foo") else None)
            n += 1
    ctx.floor("command call shapes", n, 60)


def default_hook(match):
    base = sink_hook(match, None)

    def hook(eng, term, st, node):
        r = base(eng, term, st, node)
        if r is not None:
            return r
        return None
    return hook


def is_default(v, name):
    """The value of this parameter's own default expression."""
    if v == ("val", ident("default_" + name)):
        return True
    # a helper of the interpreter applied to the default expression
    return v[0] == "call" and any(x == ident("default_" + name) for x in v[2]) and not any(
        x[0] == "param" and x[1].startswith("$default_") and x != ident("default_" + name) for a in v[2] for x in [a])


def same(got, want):
    if got is None or set(got) != set(want):
        return False
    for k, w in want.items():
        g = got[k]
        if w[1][1].startswith("$default_"):
            if not is_default(g, k):
                return False
        elif norm(g) != norm(w):
            return False
    return True


def describe(got):
    if got is None:
        return "an argument set that cannot be determined"
    return ", ".join("%s=%s" % (k, show(v, 3)) for k, v in sorted(got.items()))


def judge(ctx, rule, lab, outs, want, fi, view):
    reached = False
    for o in outs:
        for s in sinks(o):
            reached = True
            got = view(s)
            if want is None:
                ctx.bad(rule, lab, "an erroneous call is carried out (with %s)" % describe(got), fi.where)
                return
            if not same(got, want):
                ctx.bad(rule, lab, "the callee gets %s" % describe(got), fi.where)
                return
        if o.kind == "return" and not sinks(o):
            ctx.bad(rule, lab, "the call returns a value without calling anything", fi.where)
            return
    if want is not None and not reached:
        ctx.bad(rule, lab, "a correct call never reaches the callee", fi.where)
        return
    ctx.ok(rule, lab)


def listed(s):
    return None


def natives(ctx, p, efc):
    nat = ident("native")
    mh, mf = module_heap([], [("Foo", ident("nat0")), ("foo", nat)])
    tables = (mh, mf)
    raw = lambda t: strip_sites(t)
    n = 0
    for npos, named in shapes():
        if len({k for k, _ in named}) != len(named):
            continue
        # Python itself rejects bad names; the interpreter must hand everything over as written
        def match(term):
            if term[1] == nat or term[1] == ident("nat0"):
                return ("tuple", (term[1], ("tuple", term[2]), ("dict", tuple((C(k), v) for k, v in term[3]))))
            return None
        outs, _ = walk_call(ctx, p, efc, tables, [ident("A%d" % i) for i in range(npos)], named, hook=sink_hook(match, None))
        lab = label(npos, named, 0)
        ok = False
        for o in outs:
            for s in sinks(o):
                ok = True
                f, ps, ks = s[1]
                want = [("attr", ("val", ident("A%d" % i)), "data") for i in range(npos)]
                wk = {k: ("attr", ("val", v), "data") for k, v in named}
                ctx.check(f == nat and [raw(x) for x in ps[1]] == want and {k[1]: raw(v) for k, v in ks[1]} == wk, "native", lab,
                          "the native function gets (%s; %s)" % (", ".join(show(x, 3) for x in ps[1]), describe({k[1]: v for k, v in ks[1]})), efc.where)
        ctx.check(ok, "native", lab, "the native function is not called", efc.where)
        n += 1
    ctx.floor("native call shapes", n, 20)


def builtins_(ctx, p, efc):
    sig, impl = ident("sig"), ident("impl")
    bf = ident("builtin")
    for ndef in (0, 2):
        mh, mf = module_heap([], [])
        ps = tuple(("tuple", (C(NAMES[i]), ident("t%d" % i), NONE if i < 4 - ndef else C(1))) for i in range(4))
        heap = {**mh, (sig, "params"): ("list", ps, ("site", "$sig", 0, 0)), (bf, "implementation"): impl}
        facts = {**mf, ("eq", sig, NONE): False, ("truth", sig): True, ("eq", bf, NONE): False, ("truth", bf): True}

        def hook(eng, term, st, node):
            f = term[1]
            if f[0] == "attr" and f[2] == "lookup_builtin":
                return [(st, sig if term[2] == (C("foo"),) else ident("othersig"))]
            if f[0] == "attr" and f[2] == "get_function":
                return [(st, bf if term[2] == (C("foo"),) else ident("otherfn"))]
            if f == impl:
                st = st.copy()
                st.events = st.events + (("sink", ("tuple", (("tuple", term[2]), ("dict", tuple((C(k), v) for k, v in term[3])))), ()),)
                return [(st, ("val", impl))]
            return None
        for npos, named in shapes():
            # omitted builtin parameters are left to the implementation's own defaults
            want = builtin_expected(npos, named)
            outs, _ = walk_call(ctx, p, efc, (heap, facts), [ident("A%d" % i) for i in range(npos)], named, hook=hook,
                                inline_mods=("yapcad.dsl.runtime.builtins",), stop=("get_builtin_registry",))

            def view(s):
                got = {NAMES[i] if i < 4 else "arg%d" % i: v for i, v in enumerate(s[1][0][1])}
                for k, v in s[1][1][1]:
                    if k[1] in got:
                        return None
                    got[k[1]] = v
                return got
            judge(ctx, "builtin", label(npos, named, ndef), outs, want, efc, view)


def builtin_expected(npos, named):
    got = {NAMES[i] if i < 4 else "arg%d" % i: ("val", ident("A%d" % i)) for i in range(npos)}
    for k, v in named:
        if k in got or k not in NAMES:
            return None
        got[k] = ("val", v)
    idx = sorted(NAMES.index(k) for k in got if k in NAMES)
    if named and idx != list(range(len(idx))):
        return None
    return got


def methods(ctx, p):
    emc = p.func(INTERP + ".Interpreter._eval_method_call")
    impl, mt = ident("impl"), ident("method")
    call = ("param", emc.params[1])
    for npos in range(4):
        for named in ((), (("a", ident("N_a")),)):
            heap = {(call, "arguments"): ("list", tuple(ident("A%d" % i) for i in range(npos)), ("site", "$args", 0, 0)),
                    (call, "named_arguments"): ("dict", tuple((C(k), v) for k, v in named), ("site", "$named", 0, 0)),
                    (call, "object"): ident("recv"), (call, "method"): C("meth"), (mt, "implementation"): impl}
            facts = {("eq", mt, NONE): False, ("truth", mt): True}

            def hook(eng, term, st, node):
                f = term[1]
                if f[0] == "attr" and f[2] == "get_method":
                    return [(st, mt if len(term[2]) == 2 and term[2][1] == C("meth") else ident("othermethod"))]
                if f == impl:
                    st = st.copy()
                    st.events = st.events + (("sink", ("tuple", term[2]), ()),)
                    return [(st, ("val", impl))]
                return evald(eng, term, st, node)
            pol = Pol(inline=lambda e, f, d: f.module.name in (INTERP, "yapcad.dsl.runtime.builtins") and f.name not in ("_evaluate", "get_builtin_registry"),
                      call_hook=hook, fold=True, list_cap=40)
            outs, _ = ctx.walk(emc, pol, heap=heap, facts=facts)
            lab = "x.meth(%s)" % ", ".join(["a%d" % i for i in range(npos)] + [k + "=" for k, _ in named])
            want = [("val", ident("recv"))] + [("val", ident("A%d" % i)) for i in range(npos)]
            hit = False
            for o in outs:
                for s in sinks(o):
                    hit = True
                    ctx.check(not named and [norm(x) for x in s[1]] == want, "method", lab, "the method gets (%s)" % ", ".join(show(x, 3) for x in s[1]), emc.where)
                if o.kind == "return" and not sinks(o):
                    ctx.bad("method", lab, "the call returns a value without calling the method", emc.where)
            ctx.check(hit or bool(named), "method", lab, "the method is not called", emc.where)


def run_params(ctx, p):
    fi = p.func(INTERP + ".Interpreter._wrap_parameters")
    raw = [("param", x) for x in fi.params]
    n = 0
    for ndef in (0, 2):
        cmd, h, f = heap_command("foo", "foo", ndef)
        for i in range(4):
            ta = ident("type_" + NAMES[i])
            h[(ident("p_foo_" + NAMES[i]), "type_annotation")] = ta
            h[(ta, "name")] = C("float")
            f[("eq", ta, NONE)] = False
            f[("truth", ("call", ("ext", "hasattr"), (ta, C("name")), (), None))] = True
        cases = [(), ("a",), ("d",), ("a", "b"), ("b", "a"), ("a", "b", "c", "d"), ("d", "c", "b", "a"), ("a", "b", "d"), ("a", "b", "c", "d", "zz"), ("a", "b", "zz")]
        for names in cases:
            given = [(k, ident("N_" + k)) for k in names]
            want = expected(0, given, ndef)
            heap, facts = dict(h), dict(f)
            if len(names) <= 1:
                for k in names:
                    heap[(ident("p_foo_" + k), "type_annotation")] = NONE
            pol = Pol(inline=lambda e, g, d: g.module.name == INTERP and g.name not in ("_evaluate", "_evaluate_default"), call_hook=evald, fold=True, list_cap=40, max_states=600)
            outs, _ = ctx.walk(fi, pol, heap=heap, facts=facts, bind={
                fi.params[1]: cmd, fi.params[2]: ("dict", tuple((C(k), v) for k, v in given), ("site", "$given", 0, 0))})
            lab = "run with %s, %d default(s)" % (", ".join(names) or "nothing", ndef)
            rets = [o for o in outs if o.kind == "return"]
            if want is None:
                ctx.check(not rets, "run", lab, "an erroneous parameter set is accepted", fi.where)
            else:
                ctx.check(bool(rets), "run", lab, "a correct parameter set is rejected on every path", fi.where)
                for o in rets:
                    got = dict_term(o.value)
                    ok = got is not None and set(got) == set(want)
                    for k in want if ok else ():
                        g, w = got[k], want[k]
                        if w[1][1].startswith("$default_"):
                            ok = ok and is_default(g, k)
                        else:
                            mine = {x for x in subterms(g) if x[0] == "param" and x[1].startswith(("$N_", "$default_"))}
                            ok = ok and mine == {w[1]}
                    if not ctx.check(ok, "run", lab, "the command runs with %s" % describe(got), fi.where):
                        break
            n += 1
    ctx.floor("run parameter sets", n, 20)


def precedence(ctx, p, efc):
    """native before command before builtin, for both sides."""
    nat = ident("native")
    cmd, h, f = heap_command("foo", "foo", 0)
    call_args = [ident("A%d" % i) for i in range(4)]

    def match(term):
        if term[1] == nat:
            return C("native")
        if term[1] in CREATE and arg(term, "command_name", 1) == C("foo"):
            return C("command")
        if term[1][0] == "attr" and term[1][2] == "implementation":
            return C("builtin")
        return None
    for tabs, want in (((1, 1), "native"), ((1, 0), "native"), ((0, 1), "command"), ((0, 0), "builtin")):
        mh, mf = module_heap([cmd] if tabs[1] else [], [("foo", nat)] if tabs[0] else [])
        outs, _ = walk_call(ctx, p, efc, ({**h, **mh}, {**f, **mf}), call_args, (), hook=sink_hook(match, None),
                            inline_mods=("yapcad.dsl.runtime.builtins",), stop=("get_builtin_registry", "create_context"))
        got = {s[1] for o in outs for s in sinks(o)}
        ctx.check(got == {want}, "precedence", "run time, native=%d command=%d" % tabs, "calls the %s, expected the %s" % ("/".join(map(str, sorted(got))) or "nothing", want), efc.where)
    cf = p.func(CHECKER + ".TypeChecker._check_function_call")
    kinds = p.cls("yapcad.dsl.symbols.SymbolKind")
    expr = ("param", cf.params[1])
    sym, cal = ident("sym"), ident("callee")
    for kind in ("COMMAND", "FUNCTION"):
        heap = {(expr, "callee"): cal, (cal, "name"): C("foo"), (sym, "kind"): ("enum", kinds.qual, kind),
                (expr, "arguments"): ("list", (), ("site", "$a", 0, 0)), (expr, "named_arguments"): ("dict", (), ("site", "$n", 0, 0))}
        facts = {("exact", cal, ("class", p.cls(AST + ".Identifier").qual)): True, ("eq", sym, NONE): False, ("truth", sym): True}

        def hook(eng, term, st, node):
            f = term[1]
            if f[0] == "attr" and f[2] == "lookup":
                return [(st, sym)]
            if f[0] == "attr" and f[2] == "_check_builtin_call":
                st = st.copy()
                st.events = st.events + (("sink", C("builtin"), ()),)
                return [(st, ("top", "b"))]
            return None
        outs, _ = ctx.walk(cf, Pol(inline=lambda e, g, d: g.module.name == CHECKER and not g.name.startswith("_check_"), call_hook=hook, fold=True), heap=heap, facts=facts)
        ctx.check(not any(sinks(o) for o in outs), "precedence", "checker, user-defined " + kind.lower(), "a call of a user-defined %s may be checked against a builtin's signature" % kind.lower(), cf.where)
