"""D08: a binding is visible where the language says and nowhere else."""
from ..dsl import *
from ..flow import show

PROP = dict(
    id="D08", title="DSL variable bindings are visible exactly in their own scope",
    statement="A variable, loop variable, comprehension variable, lambda parameter or match binding is visible exactly inside the construct that introduces it, after its introduction, and no longer after that construct ends, normally, by return or by an error. A lookup finds the innermost binding, an assignment changes that binding and no other, a declaration never changes an outer variable. A called command and a default value see only that command's own parameters. Python blocks and expressions see what DSL code at the same place sees. The type checker and the interpreter agree on all of this.",
    over=["inputs"], text="all programs",
    why="A scope left open, shared or resolved in the wrong order shows only with particular nestings and repeated names.",
    files=["src/yapcad/dsl/runtime/context.py", "src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/symbols.py", "src/yapcad/dsl/checker.py"],
    mech=[("runtime scopes", "src/yapcad/dsl/runtime/context.py: Scope, ExecutionContext.new_scope, create_context"),
          ("scope-opening constructs", "src/yapcad/dsl/runtime/interpreter.py: Interpreter statement and expression dispatch"),
          ("checker scopes", "src/yapcad/dsl/symbols.py: Scope, SymbolTable"),
          ("checker constructs", "src/yapcad/dsl/checker.py: TypeChecker statement and expression dispatch")],
    observe=["emitted value using the wrong variable", "undefined variable errors", "an accepted program failing at run time"],
    technique="typestate of the current scope per AST node class (open/restore on every exit), with binding visibility compared between interpreter and checker",
    note="Each dispatcher is walked once per node class; the scope every child is evaluated in, the scope every name is bound in and the scope left behind at every exit, normal or raising, are compared with the language's table and between interpreter and checker.",
)
EXPLAIN = ("The dispatchers of interpreter and checker are walked for a node of each AST class, with the scope primitives inlined. For each child evaluation the chain of "
           "scopes it runs in, for each binding the scope it is put in. Obligations: the scope at every exit is the scope at entry; only declarations bind in the "
           "entry scope; the set of names visible to each child is the same for interpreter and checker and equals the language's table. Scope.get/set/update, the symbol "
           "table, create_context and the namespaces of Python code are walked with two nested scopes of known content.")
ASSUME = ["a scope chain of two levels behaves like a longer one", "loops are followed for two iterations"]

SYMS = "yapcad.dsl.symbols"
SCOPE = ("class", CONTEXT + ".Scope")
CHSCOPE = ("class", SYMS + ".Scope")

# names the language binds in the scope a construct is executed in
LASTING = {"VarDecl": ("name",), "LetStatement": ("name",), "PythonBlock": ("result_var",)}
# (class, child) -> names of the construct visible to that child on every path / on some path
TABLE = {
    ("ForStatement", ("iterable",)): (set(), set()),
    ("ForStatement", ("body",)): ({("variable",)}, {("variable",)}),
    ("ListComprehension", ("clauses", "iterable")): (set(), {("clauses", "variable")}),
    ("ListComprehension", ("clauses", "conditions")): ({("clauses", "variable")},) * 2,
    ("ListComprehension", ("element_expr",)): (set(), {("clauses", "variable")}),
    ("LambdaExpr", ("body",)): (set(), {("parameters",)}),
    ("MatchExpr", ("subject",)): (set(), set()),
    ("MatchExpr", ("arms", "body")): (set(), {("arms", "pattern", "name")}),
}


def chain(t, cls, base):
    """Scope constructions from `t` outwards to the entry scope, or None."""
    out = []
    while t != base:
        if t[0] == "phi":
            cs = [chain(x, cls, base) for x in t[1]]
            if any(c is None for c in cs) or len(set(cs)) != 1:
                return None
            return tuple(out) + cs[0]
        if t[0] != "call" or t[1] != cls:
            return None
        out.append(t)
        t = arg(t, "parent", 1)
        if t is None:
            return None
        if len(out) > 12:
            return None
    return tuple(out)


def block_path(pth):
    """Statements and trailing expression of a block count as the block."""
    out = list(pth)
    while out and out[-1] in ("statements", "final_expression"):
        out.pop()
    return tuple(out)


class Walk:
    """Visits and bindings of one dispatcher walked for one node class."""

    def __init__(self, ctx, p, fi, ci, side):
        self.p, self.side, self.ci = p, side, ci
        self.node = ("param", fi.params[1])
        self.problems = []
        if side == "interpreter":
            self.env = ("param", fi.params[2])
            self.attr, self.cls = "current_scope", SCOPE
            self.mods = {INTERP, CONTEXT}
            stop = ("_evaluate", "_execute_statement", "create_context", "set", "update", "add_require_failure", "get", "_call_command", "_bind_named_arguments", "_evaluate_default")
        else:
            self.env = ("attr", ("param", "self"), "symbols")
            self.attr, self.cls = "_current_scope", CHSCOPE
            self.mods = {CHECKER, SYMS}
            stop = ("_check_expression", "_check_statement", "define", "lookup", "lookup_local", "_resolve_type_node", "_error", "_warning", "is_builtin", "lookup_builtin")
        self.base = ident("entry-scope")
        self.stop = stop
        # the dispatcher itself is entered, its recursion is not
        entry = fi

        def inl(e, f, d):
            return f.module.name in self.mods and f.name not in stop
        pol = Pol(inline=inl, on_event=self.event, call_hook=erase_ctx if side == "interpreter" else None, want_exc=True, exc_exits=side == "interpreter", max_depth=9, recurse=3 if "omprehension" in ci.name else 1)
        facts = {("exact", self.node, ("class", ci.qual)): True}
        if side != "interpreter":
            # the checker works below the global scope
            below(facts, self.base)
        self.outs, self.eng = ctx.walk(entry, pol, facts=facts, types={self.node: ci, self.base: p.cls(self.cls[1])}, heap={(self.env, self.attr): self.base})

    def scope(self, st):
        return st.heap.get((self.env, self.attr), self.base)

    def event(self, ev, st, eng):
        if ev.kind != "call":
            return
        t = ev.term
        f = t[1]
        name = f[2] if f[0] == "attr" else fname(f)
        args = t[2]
        if self.side == "interpreter":
            if name in ("_evaluate", "_execute_statement") and args:
                pth = path_of(args[0], self.node)
                if pth is None:
                    return
                c = arg(t, "ctx", 1)
                self.visit(st, block_path(pth), ("other",) if c is not None and c != self.env else self.chain(st), ev.where)
            elif f[0] == "attr" and name in ("set", "update") and len(args) == 2 and not t[3]:
                self.bound(st, name, path_of(args[0], self.node) or ("=" + show(args[0]),), chain(f[1], self.cls, self.base), ev.where)
        else:
            if name in ("_check_expression", "_check_statement") and args:
                pth = path_of(args[0], self.node)
                if pth is not None:
                    self.visit(st, block_path(pth), self.chain(st), ev.where)
            elif f[0] == "attr" and name == "define" and args:
                sym = args[0]
                nm = arg(sym, "name", 0) if sym[0] == "call" else None
                self.bound(st, "set", nm and path_of(nm, self.node) or ("?",), chain(f[1], self.cls, self.base) if f[1] != self.env else self.chain(st), ev.where)

    def bound(self, st, kind, name, ch, where):
        b, v = st.user or (frozenset(), frozenset())
        st.user = (b | {(kind, name, ch, where)}, v)

    def visit(self, st, pth, ch, where):
        b, v = st.user or (frozenset(), frozenset())
        vis = None
        if ch is not None and ch != ("other",):
            # the scope a name was put in must be part of the chain of the visit
            vis = frozenset(x[1] for x in b if x[0] == "set" and x[2] is not None and (not x[2] or x[2][0] in ch))
        st.user = (b, v | {(pth, ch, vis, where)})

    def chain(self, st):
        return chain(self.scope(st), self.cls, self.base)


def below(facts, base):
    """`base` is a scope below the global one."""
    for t in (base, ("attr", base, "parent")):
        facts[("eq", t, NONE)] = False
        facts[("truth", t)] = True
    return facts


def summarise(w):
    """child -> (names visible on every path, on some path, shallowest chain length)."""
    out = {}
    for o in w.outs:
        for pth, ch, vis, _ in (o.state.user or ((), ()))[1]:
            if vis is not None:
                lo, hi, d = out.get(pth, (vis, set(), 99))
                out[pth] = (lo & vis, hi | vis, min(d, len(ch)))
    return out


def run(ctx):
    p = ctx.p
    ev, ex = evaluators(p)
    ce = p.func(CHECKER + ".TypeChecker._check_expression")
    cs = p.func(CHECKER + ".TypeChecker._check_statement")
    made = constructed(p, PARSER)
    n = nb = 0
    for base, fi, cf in (("Statement", ex, cs), ("Expression", ev, ce)):
        for ci in node_classes(p, base):
            if ci.qual not in made:
                continue
            iw = Walk(ctx, p, fi, ci, "interpreter")
            cw = Walk(ctx, p, cf, ci, "checker")
            n += 1
            for w in (iw, cw):
                nb += one(ctx, p, w, fi if w is iw else cf)
            agree(ctx, p, ci, summarise(iw), summarise(cw), children(p, ci))
    ctx.count("node classes walked in interpreter and checker", n)
    ctx.floor("node classes walked", n, 20)
    ctx.count("names bound", nb)
    ctx.floor("names bound", nb, 8)
    commands(ctx, p)
    runtime_scope(ctx, p)
    symbol_scope(ctx, p)
    only_stores(ctx, p)
    python_namespaces(ctx, p)


def one(ctx, p, w, fi):
    """Obligations of one dispatcher for one node class."""
    name = w.ci.name
    n = 0
    lasting = {(x,) for x in LASTING.get(name, ())}
    seen = set()
    for o in w.outs:
        s = w.scope(o.state)
        key = "%s:%s" % (w.side, name)
        if o.kind == "raise" and w.side != "interpreter":
            continue
        how = "an error" if o.kind == "raise" else "normal completion"
        ctx.check(s == w.base, "restored", "%s:%s" % (key, how),
                  "after %s of %s the %s's current scope is not the one it was entered with" % (how, name, w.side), getattr(o, "where", None) or fi.where)
        bound, visits = o.state.user or ((), ())
        for pth, ch, vis, where in visits:
            ctx.check(ch is not None and vis is not None, "visit", "%s:%s" % (key, ".".join(pth)), "%s is evaluated in %s" % (
                ".".join(pth), "another context" if ch else "a scope that is not nested in the current one"), where)
        for e in bound:
            if e in seen:
                continue
            seen.add(e)
            n += 1
            what = "%s:%s" % (key, ".".join(e[1]))
            if e[0] == "update":
                ctx.check(name == "AssignmentStatement", "assign", what, "%s assigns to an existing variable" % name, e[3])
                continue
            ctx.check(e[2] is not None, "bind", what, "a name is bound in a scope that is not nested in the current one", e[3])
            if e[2] == ():
                ctx.check(e[1] in lasting or name == "PythonBlock", "leak", what,
                          "%s binds a name in the scope around it, where it outlives the construct and replaces a variable of the same name" % name, e[3])
            elif e[2]:
                ctx.check(e[1] not in lasting, "short", what, "the declared name is bound in a scope that ends with the declaration", e[3])
    return n


def agree(ctx, p, ci, it, ch, kids):
    name = ci.name
    blocks = set()
    for k in kids:
        c = ann_field_class(p, ci, k)
        if c and "Block" in c:
            blocks.add(k)
    for k in sorted(set(it) | set(ch)):
        lab = "%s.%s" % (name, ".".join(k))
        want = TABLE.get((name, k))
        for side, tab in (("interpreter", it), ("checker", ch)):
            if k not in tab:
                continue
            lo, hi, depth = tab[k]
            if (name, k) in TABLE:
                lo_w, hi_w = want
                ctx.check(lo >= lo_w and hi == hi_w, "visible", "%s:%s" % (side, lab),
                          "the %s evaluates %s with %s visible (always %s), the language makes %s visible" % (side, lab, names(hi), names(lo), names(hi_w)), ci.where)
            else:
                ctx.check(not hi, "visible", "%s:%s" % (side, lab), "the %s evaluates %s with %s visible, which the language does not bind there" % (side, lab, names(hi)), ci.where)
            if k in blocks and k != ():
                ctx.check(depth >= 1, "own-scope", "%s:%s" % (side, lab), "the %s runs the block %s in the scope around it: its declarations outlive it" % (side, lab), ci.where)
    for k in kids:
        if k in blocks and it and ch:
            for side, tab in (("interpreter", it), ("checker", ch)):
                ctx.check(k in tab or any(x[:len(k)] == k for x in tab), "runs", "%s:%s.%s" % (side, name, ".".join(k)),
                          "the %s does not process the block %s.%s" % (side, name, ".".join(k)), ci.where)


def names(s):
    return ", ".join(".".join(x) for x in sorted(s)) or "nothing"


def ann_field_class(p, ci, path):
    """Class names the annotation of the field at `path` mentions."""
    cur = [ci]
    out = []
    for f in path:
        nxt, out = [], []
        for c in cur:
            for k in p.mro(c):
                a = ann_text(k, f)
                if a is None:
                    continue
                for nm in _names(a):
                    out.append(nm)
                    s = p.sym(AST, nm)
                    if isinstance(s, ClassInfo):
                        nxt.append(s)
                break
        cur = nxt
    return out


def _names(a):
    from ..dsl import _ann_names
    return _ann_names(a)


def commands(ctx, p):
    """Bodies and default values of a called command run in a context of their own."""
    it = icls(p)
    n = nd = 0
    for f in p.all_funcs(p.mod(INTERP)):
        if f.cls is not it or "ctx" not in " ".join(f.params) and f.name != "execute":
            continue
        if not any(isinstance(c.func, ast.Attribute) and c.func.attr in ("_execute_command", "_execute_body", "_evaluate_default", "_evaluate", "_call_command") for c in own_calls(f.node)):
            continue
        own = [("param", x) for x in f.params if "ctx" in x or "context" in x]
        evs = []

        def on_event(ev, st, eng, evs=evs):
            if ev.kind == "call":
                nm = ev.term[1][2] if ev.term[1][0] == "attr" else fname(ev.term[1])
                if nm in ("_execute_body", "_execute_command", "_evaluate") and ev.term[2]:
                    evs.append((nm, ev.term, ev.where))

        def inl(e, g, d):
            return g.module.name == INTERP and g.name in ("_evaluate_default", "_bind_named_arguments", "_call_command", "_execute_command")
        ctx.walk(f, Pol(inline=inl, on_event=on_event, call_hook=erase_ctx))
        for nm, t, where in evs:
            what = t[2][0]
            c = arg(t, "ctx", 1)
            if c is None:
                continue
            if what[0] == "attr" and what[2] == "body" and nm == "_execute_body" and "ommand" in repr(what) or nm == "_execute_command":
                fresh = c not in own or f.name == "_execute_command"
                n += 1
                ctx.check(fresh, "callee", f.qual, "the body of the called command is executed in the caller's context and sees the caller's variables", where)
            d = [x for x in subterms(what) if x[0] == "attr" and x[2] == "default_value"] or ([what] if "default" in show(what) else [])
            if nm == "_evaluate" and d:
                nd += 1
                ctx.check(c not in own and (is_ctx(c) or c[0] == "param"), "default", f.qual, "a default value is evaluated in the caller's context and sees the caller's variables", where)
    ctx.count("command bodies executed", n)
    ctx.count("default values evaluated", nd)
    ctx.floor("command bodies executed", n, 2)
    ctx.floor("default values evaluated", nd, 2)
    # a fresh context holds the given parameters and nothing else
    fi = p.func(CONTEXT + ".create_context")
    prm = ("dict", ((C("x"), ident("vx")), (C("y"), ident("vy"))), ("site", "$prm", 0, 0))
    outs, eng = ctx.walk(fi, Pol(inline={CONTEXT}, fold=True), bind={fi.params[2]: prm}, facts={("truth", ident("vx")): True, ("truth", ident("vy")): True})
    rets = [o for o in outs if o.kind == "return"]
    ctx.check(bool(rets), "fresh", "create_context", "create_context returns a context", fi.where)
    for o in rets:
        c = o.value
        ok = c[0] == "call" and c[1] == CREATE[1]
        sc = None
        if ok:
            sc = arg(c, "current_scope", 0)
            sc = o.state.heap.get((c, "current_scope"), sc)
        ctx.check(ok, "fresh", "create_context:new", "create_context returns a new ExecutionContext", o_where(o, fi))
        if not ok:
            continue
        got = bindings(o.state, c, sc)
        ctx.check(got == {"x": ident("vx"), "y": ident("vy")}, "fresh", "create_context:params",
                  "the new context binds %s instead of exactly the given parameters" % ("nothing that can be followed" if got is None else ", ".join(sorted(map(str, got)))), o_where(o, fi))
    # the default scope of a context is a new one
    m = p.cls(CONTEXT + ".ExecutionContext")
    for k, nm in ((m, "current_scope"), (p.cls(CONTEXT + ".Scope"), "variables")):
        d = next((s.value for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == nm), None)
        ok = isinstance(d, ast.Call) and any(kw.arg == "default_factory" and (isinstance(kw.value, ast.Lambda) and isinstance(kw.value.body, ast.Call) or isinstance(kw.value, ast.Name)) for kw in d.keywords)
        init = p.member(k, "__init__")
        ctx.check(ok or init is not None, "fresh", "%s.%s" % (k.name, nm), "every %s gets its own %s" % (k.name, nm), k.where)


def o_where(o, fi):
    return fi.where


def bindings(st, c, sc):
    """{name: term} bound in the scope of context c."""
    cands = [k for k in ((c, "current_scope"),) if k in st.heap]
    s = st.heap[cands[0]] if cands else sc if sc is not None else ("attr", c, "current_scope")
    v = st.heap.get((s, "variables"))
    if v is None and s[0] == "call":
        v = arg(s, "variables", 0)
    if v is not None and v[0] == "dict":
        return dict_of(v)
    out = {}
    base = v if v is not None else ("attr", s, "variables")
    for k, x in st.heap.items():
        if len(k) == 3 and k[0] == "item" and k[1] == base and k[2][0] == "const":
            out[k[2][1]] = x
    return out


def dict_of(v):
    if any(k[0] != "const" for k, _ in v[1]):
        return None
    return {k[1]: x for k, x in v[1]}


def two_scopes(vars_attr, cls):
    """Two nested scopes: inner {x}, outer {x, z}."""
    s0, s1 = ident("inner"), ident("outer")
    h = {(s0, vars_attr): ("dict", ((C("x"), ident("x0")),), ("site", "$v0", 0, 0)),
         (s1, vars_attr): ("dict", ((C("x"), ident("x1")), (C("z"), ident("z1"))), ("site", "$v1", 0, 0)),
         (s0, "parent"): s1, (s1, "parent"): NONE}
    f = {("truth", s0): True, ("truth", s1): True}
    for v in ("x0", "x1", "z1", "new"):
        f[("truth", ident(v))] = True
        a = ident(v)
        f[("eq", a, NONE)] = False
    for v in (s0, s1):
        f[("eq", v, NONE)] = False
    return s0, s1, h, f


def runtime_scope(ctx, p):
    sc = p.cls(CONTEXT + ".Scope")
    s0, s1, h, f = two_scopes("variables", sc)
    types = {s0: sc, s1: sc}
    pol = lambda: Pol(inline={CONTEXT}, fold=True, recurse=3, max_depth=6)
    ec = p.cls(CONTEXT + ".ExecutionContext")
    C0 = ident("ctx")
    h[(C0, "current_scope")] = s0
    types[C0] = ec
    n = 0

    def dicts(st):
        return {s: dict_of(st.heap.get((s, "variables"), ("dict", ((C("?"), NONE),)))) for s in (s0, s1)}
    before = {s0: {"x": ident("x0")}, s1: {"x": ident("x1"), "z": ident("z1")}}
    for owner, meth, recv in ((sc, "get", s0), (ec, "get_variable", C0)):
        fi = p.member(owner, meth)
        for nm, want in (("x", ident("x0")), ("z", ident("z1")), ("q", NONE)):
            outs, _ = ctx.walk(fi, pol(), bind={fi.params[0]: recv, fi.params[1]: C(nm)}, heap=h, facts=f, types=types)
            n += 1
            vals = {o.value for o in outs if o.kind == "return"}
            ctx.check(vals == {want}, "lookup", "%s.%s(%s)" % (owner.name, meth, nm),
                      "looking up %s gives %s instead of %s" % (nm, " or ".join(sorted(map(show, vals))) or "nothing", show(want)), fi.where)
    for owner, meth, recv in ((sc, "set", s0), (ec, "set_variable", C0)):
        fi = p.member(owner, meth)
        for nm in ("x", "z", "q"):
            outs, _ = ctx.walk(fi, pol(), bind={fi.params[0]: recv, fi.params[1]: C(nm), fi.params[2]: ident("new")}, heap=h, facts=f, types=types)
            n += 1
            want = {s0: dict(before[s0], **{nm: ident("new")}), s1: before[s1]}
            ctx.check(bool(outs) and all(dicts(o.state) == want for o in outs), "declare", "%s.%s(%s)" % (owner.name, meth, nm),
                      "declaring %s does not bind it in the current scope and only there" % nm, fi.where)
    for owner, meth, recv in ((sc, "update", s0), (ec, "update_variable", C0)):
        fi = p.member(owner, meth)
        for nm in ("x", "z", "q"):
            outs, _ = ctx.walk(fi, pol(), bind={fi.params[0]: recv, fi.params[1]: C(nm), fi.params[2]: ident("new")}, heap=h, facts=f, types=types)
            n += 1
            want = {s0: dict(before[s0]), s1: dict(before[s1])}
            if nm == "x":
                want[s0]["x"] = ident("new")
            if nm == "z":
                want[s1]["z"] = ident("new")
            res = {"x": TRUE, "z": TRUE, "q": FALSE}[nm]
            ctx.check(bool(outs) and all(dicts(o.state) == want for o in outs), "assign", "%s.%s(%s)" % (owner.name, meth, nm),
                      "assigning %s does not change exactly its innermost binding" % nm, fi.where)
            ctx.check(bool(outs) and all(o.value == res for o in outs if o.kind == "return"), "assign", "%s.%s(%s):result" % (owner.name, meth, nm),
                      "assigning %s reports %s" % (nm, "success although no such variable exists" if res == FALSE else "failure although the variable exists"), fi.where)
    ctx.count("runtime scope operations on nested scopes", n)


def symbol_scope(ctx, p):
    sc = p.cls(SYMS + ".Scope")
    tb = p.cls(SYMS + ".SymbolTable")
    s0, s1, h, f = two_scopes("symbols", sc)
    T = ident("table")
    h[(T, "_current_scope")] = s0
    types = {s0: sc, s1: sc, T: tb}
    pol = lambda: Pol(inline={SYMS}, fold=True, recurse=3, max_depth=6)
    n = 0
    fi = p.member(tb, "lookup")
    for nm, want in (("x", ident("x0")), ("z", ident("z1")), ("q", NONE)):
        outs, _ = ctx.walk(fi, pol(), bind={fi.params[0]: T, fi.params[1]: C(nm)}, heap=h, facts=f, types=types)
        n += 1
        vals = {o.value for o in outs if o.kind == "return"}
        ctx.check(vals == {want}, "lookup", "SymbolTable.lookup(%s)" % nm, "looking up %s gives %s instead of %s" % (nm, " or ".join(sorted(map(show, vals))) or "nothing", show(want)), fi.where)
    fi = p.member(tb, "define")
    sym = ident("new")
    for nm in ("x", "z", "q"):
        hh = dict(h)
        hh[(sym, "name")] = C(nm)
        outs, _ = ctx.walk(fi, pol(), bind={fi.params[0]: T, fi.params[1]: sym}, heap=hh, facts=f, types=types)
        n += 1
        res = C(nm != "x")
        ctx.check(bool(outs) and all(o.value == res for o in outs if o.kind == "return"), "declare", "SymbolTable.define(%s):result" % nm,
                  "defining %s reports %s" % (nm, "success although the scope already has it" if nm == "x" else "a duplicate although only an outer scope has that name"), fi.where)
        for o in outs:
            d0, d1 = (dict_of(o.state.heap[(s, "symbols")]) for s in (s0, s1))
            ctx.check(d1 == {"x": ident("x1"), "z": ident("z1")} and (d0 or {}).get(nm) == (ident("x0") if nm == "x" else sym), "declare", "SymbolTable.define(%s)" % nm,
                      "defining %s does not put it in the current scope and only there" % nm, fi.where)
    push, pop = p.member(tb, "push_scope"), p.member(tb, "pop_scope")
    outs, _ = ctx.walk(push, pol(), bind={push.params[0]: T}, heap=h, facts=f, types=types)
    for o in outs:
        s = o.state.heap.get((T, "_current_scope"))
        ctx.check(s is not None and s[0] == "call" and s[1] == CHSCOPE and arg(s, "parent", 1) == s0 and arg(s, "symbols", 0) in (None,) or s is not None and s[0] == "call" and arg(s, "symbols", 0) and arg(s, "symbols", 0)[0] == "dict" and not arg(s, "symbols", 0)[1],
                  "open", "SymbolTable.push_scope", "push_scope opens an empty scope nested in the current one", push.where)
    outs, _ = ctx.walk(pop, pol(), bind={pop.params[0]: T}, heap=h, facts=f, types=types)
    for o in outs:
        ctx.check(o.state.heap.get((T, "_current_scope")) == s1, "close", "SymbolTable.pop_scope", "pop_scope returns to the enclosing scope", pop.where)
    ctx.count("checker scope operations on nested scopes", n + 2)
    # the command scope of the checker
    fi = p.func(CHECKER + ".TypeChecker._check_command")
    cmd = ("param", fi.params[1])
    env = ("attr", ("param", "self"), "symbols")
    base = ident("entry-scope")
    facts = below({}, base)
    heap = {(env, "_current_scope"): base}
    recs = []

    def on_event(ev, st, eng):
        if ev.kind != "call":
            return
        nm = ev.term[1][2] if ev.term[1][0] == "attr" else fname(ev.term[1])
        s = chain(st.heap.get((env, "_current_scope"), base), CHSCOPE, base)
        u = st.user or ()
        if nm == "define" and ev.term[2] and ev.term[2][0][0] == "call":
            st.user = u + (("set", path_of(arg(ev.term[2][0], "name", 0) or NONE, cmd), s, ev.where),)
        elif nm in ("_check_block", "_check_statement", "_check_expression") and ev.term[2]:
            st.user = u + (("visit", block_path(path_of(ev.term[2][0], cmd) or ()), s, ev.where),)
    outs, _ = ctx.walk(fi, Pol(inline=lambda e, g, d: g.module.name in (CHECKER, SYMS) and g.name not in ("define", "_check_statement", "_check_expression", "_error", "_warning", "_resolve_type_node", "_check_meta_hint"),
                               on_event=on_event, max_depth=6), facts=facts, heap=heap)
    nv = 0
    for o in outs:
        if o.kind != "return":
            continue
        ctx.check(o.state.heap.get((env, "_current_scope"), base) == base, "restored", "checker:Command", "the checker leaves the scope of a command open", fi.where)
        bound = set()
        for e in o.state.user or ():
            if e[0] == "set":
                bound.add(e[1])
                ctx.check(e[2] is not None and len(e[2]) >= 1, "leak", "checker:Command:%s" % ".".join(e[1] or ("?",)), "a parameter is bound outside the command's scope", e[3])
            else:
                nv += 1
                ctx.check(e[2] is not None and len(e[2]) >= 1, "own-scope", "checker:Command:%s" % ".".join(e[1]), "part of a command is checked outside the command's scope", e[3])
                if e[1] == ("body",):
                    ctx.check(("parameters", "name") in bound or absent(o.state, cmd, ("parameters",)), "visible", "checker:Command.body", "a command's body is checked without its parameters", e[3])
    ctx.floor("checked parts of a command", nv, 2)


def only_stores(ctx, p):
    """Nobody else moves the current scope or writes into one."""
    n = 0
    for m in list(p.modules.values()):
        if not m.name.startswith("yapcad.dsl"):
            continue
        for f in p.all_funcs(m):
            for s in walk_own(f.node):
                if isinstance(s, ast.Attribute) and isinstance(s.ctx, (ast.Store, ast.Del)) and s.attr in ("current_scope", "_current_scope", "parent", "variables", "symbols"):
                    slf = isinstance(s.value, ast.Name) and f.params and s.value.id == f.params[0]
                    if s.attr in ("symbols", "variables", "parent") and slf:
                        continue
                    n += 1
                    ctx.check(m.name in (CONTEXT, SYMS), "store", "%s:%s" % (f.qual, s.attr), "a scope or the current scope is replaced outside the scope primitives", "%s:%d" % (m.rel, s.lineno))
                w = None
                if isinstance(s, ast.Subscript) and isinstance(s.ctx, (ast.Store, ast.Del)):
                    w = s.value
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("update", "pop", "clear", "setdefault", "popitem", "__setitem__"):
                    w = s.func.value
                if isinstance(w, ast.Attribute) and w.attr == "variables":
                    n += 1
                    ctx.check(m.name == CONTEXT, "store", "%s:variables" % f.qual, "a scope is written outside the scope primitives", "%s:%d" % (m.rel, s.lineno))
    ctx.count("stores to a current scope", n)
    ctx.floor("stores to a current scope", n, 4)


def python_namespaces(ctx, p):
    sc = p.cls(CONTEXT + ".Scope")
    s0, s1, h, f = two_scopes("variables", sc)
    C0 = ident("ctx")
    h[(C0, "current_scope")] = s0
    types = {s0: sc, s1: sc, C0: p.cls(CONTEXT + ".ExecutionContext")}
    n = 0
    for f_ in p.all_funcs(p.mod(INTERP)):
        calls = [c for c in own_calls(f_.node) if isinstance(c.func, ast.Name) and c.func.id in ("exec", "eval")]
        if not calls or not any("ctx" in x or "context" in x for x in f_.params):
            continue
        cp = next(x for x in f_.params if "ctx" in x or "context" in x)
        hits = []

        def on_event(ev, st, eng, hits=hits):
            if ev.kind == "call" and ev.term[1] in (("ext", "exec"), ("ext", "eval")) and len(ev.term[2]) > 1:
                code = ev.term[2][0]
                if code[0] != "const":
                    hits.append((ev.term[2][1:], ev.where))
        ctx.walk(f_, Pol(inline={INTERP, CONTEXT}, fold=True, on_event=on_event, while_iters=4, loop_iters=4), bind={cp: C0}, heap=h, facts=f, types=types)
        ctx.check(bool(hits), "namespace", f_.qual, "the Python code runs in a namespace built from the DSL scopes", f_.where)
        for ns, where in hits:
            n += 1
            d = {}
            ok = True
            for x in reversed(ns):
                if x[0] != "dict":
                    ok = False
                    continue
                d.update({k[1]: v for k, v in x[1] if k[0] == "const"})
            data = lambda v: ("attr", ident(v), "data")
            ctx.check(ok and d.get("x") == data("x0"), "namespace", "%s:shadowed" % f_.qual, "Python code sees %s for a variable shadowed in an inner scope" % (show(d["x"]) if "x" in d else "nothing"), where)
            ctx.check(ok and d.get("z") == data("z1"), "namespace", "%s:outer" % f_.qual, "Python code does not see a variable of an enclosing scope", where)
    ctx.count("Python namespaces", n)
    ctx.floor("Python namespaces", n, 2)
