"""D06: the checker's builtin catalogue and the runtime's agree."""
import ast

from ..dsl import *
from ..flow import show

PROP = dict(
    id="D06", title="The checker's builtin catalogue and the runtime's builtins agree",
    statement="Every builtin function name the type checker accepts can be executed and every builtin the runtime offers can be called from a checked program; each name is declared once. A call with the number of arguments the checker accepts fits the builtin's implementation, parameters stand in the same order on both sides, the implementation uses every argument it receives, and the value returned has the type the checker announced for it.",
    over=["inputs"], text="all builtin functions and call shapes",
    why="The catalogue is written twice, by hand, in two files of more than a hundred entries; tests call a few of the builtins.",
    files=["src/yapcad/dsl/symbols.py", "src/yapcad/dsl/runtime/builtins.py", "src/yapcad/dsl/runtime/values.py"],
    mech=[("checker's catalogue", "src/yapcad/dsl/symbols.py: SymbolTable builtin registration"),
          ("runtime registry", "src/yapcad/dsl/runtime/builtins.py: BuiltinRegistry")],
    observe=["a checked program fails with an unknown builtin or an argument count error", "a value of another type than declared"],
    technique="constant propagation of both registration tables and type-term dataflow through every builtin implementation",
    note="Both registries are reconstructed from the source by propagating constants through their initialisers; each implementation is then walked and the type term of every returned value compared with the declared type.",
)
EXPLAIN = ("The initialisers of the checker's symbol table and of the runtime registry are evaluated over terms, which yields both tables "
           "(name, parameters with optional flags, return type; implementation function). Names, required and maximal argument counts, parameter order, use of "
           "every parameter, and the type of every value returned on every path of the implementation are compared.")
ASSUME = ["the kernel's issolid/issurface predicates agree with the declared value types", "paths whose returned value cannot be resolved to a value constructor are counted but not judged"]

SYM = "yapcad.dsl.symbols"
BI = "yapcad.dsl.runtime.builtins"
SIG, BF = SYM + ".FunctionSignature", BI + ".BuiltinFunction"
VAL = "yapcad.dsl.runtime.values"


def tables(ctx):
    p = ctx.p
    chk, dup = {}, []

    def const_key(t):
        return t[1] if t[0] == "const" else None

    def on_c(ev, st, eng):
        if ev.kind == "setitem" and iscall(ev.args[1], SIG):
            k = const_key(ev.args[0])
            if k in chk:
                dup.append(("checker", k, ev.where))
            chk[k] = (ev.args[1], ev.where)
    init = p.func(SYM + ".SymbolTable.__init__")
    ctx.walk(init, Pol(inline=lambda e, f, d: f.module.name == SYM, on_event=on_c, list_cap=400, max_depth=8))
    rt = {}

    def on_r(ev, st, eng):
        if ev.kind == "setitem" and iscall(ev.args[1], BF):
            k = ev.args[0]
            k = const_key(k) if k[0] == "const" else k
            if k in rt:
                dup.append(("runtime", k, ev.where))
            rt[k] = (ev.args[1], ev.where)
    init = p.func(BI + ".BuiltinRegistry.__init__")
    own = lambda e, f, d: f.module.name == BI and (f.name.startswith(("_register", "register", "_make_sig")) or f.name == "__init__")
    eng = ctx.walk(init, Pol(inline=own, on_event=on_r, list_cap=400, max_depth=8))[1]
    return chk, rt, dup, eng


TY = "yapcad.dsl.types."


def tname(t):
    """Comparable form of a type term: name string, ('list', x) or None."""
    if t is None:
        return None
    if t[0] == "gval":
        return t[2]
    if iscall(t, TY + "make_list_type", TY + "ListType"):
        e = t[2][0] if t[2] else (t[3][0][1] if t[3] else None)
        return ("list", tname(e))
    if iscall(t, TY + "make_optional_type", TY + "OptionalTypeWrapper"):
        return ("opt", tname(t[2][0]) if t[2] else None)
    if iscall(t, TY + "DictType"):
        return "DICT"
    if t[0] == "ifexp":
        return None
    return None


def stem(n):
    return n[:-2] if n.endswith(("2D", "3D")) and n[:-2] in ("POINT", "VECTOR") else n


def fits(want, got):
    """A value of type `got` may be used where `want` is declared (None: unknown)."""
    if want is None or got is None or "UNKNOWN" in (want, got):
        return True
    if want == got:
        return True
    if isinstance(want, tuple) or isinstance(got, tuple):
        return isinstance(want, tuple) and isinstance(got, tuple) and want[0] == got[0] and fits(want[1], got[1])
    if want == "FLOAT" and got == "INT" or want == "REGION2D" and got == "PROFILE2D":
        return True
    return stem(want) == stem(got) and (stem(want) == want or stem(got) == got)


class Sig:
    def __init__(self, term):
        self.params = []            # (name, type, optional)
        ps = arg(term, "params", 1)
        self.known = ps is not None and ps[0] == "list"
        if self.known:
            for x in ps[1]:
                if x[0] != "tuple" or len(x[1]) != 3 or x[1][0][0] != "const":
                    self.known = False
                    break
                self.params.append((x[1][0][1], tname(x[1][1]), x[1][2] != NONE))
        self.ret = tname(arg(term, "return_type", 2))
        self.variadic = arg(term, "is_variadic", 4) == TRUE
        self.required = sum(1 for p in self.params if not p[2])


def run(ctx):
    p = ctx.p
    chk, rt, dup, eng = tables(ctx)
    ctx.floor("builtins known to the checker", len(chk), 120)
    ctx.floor("builtins known to the runtime", len(rt), 120)
    for side, name, where in dup:
        ctx.bad("once", name, "registered twice by the %s; the later entry replaces the earlier one" % side, where)
    for n in sorted(set(chk) | {k for k in rt if isinstance(k, str)}):
        ctx.check(n in rt, "executable", n, "the checker accepts calls of %s but the runtime has no such builtin" % n, chk.get(n, (0, ""))[1])
        ctx.check(n in chk, "callable", n, "the runtime implements %s but the checker rejects calls of it" % n, rt.get(n, (0, ""))[1])
    judged = 0
    for n in sorted(set(chk) & set(rt)):
        sig = Sig(chk[n][0])
        fi = eng.fn_info(arg(rt[n][0], "implementation", 2))
        key = rt[n][0]
        ctx.check(arg(key, "name", 0) == C(n), "name", n, "registered under another name than its own", rt[n][1])
        if fi is None or not sig.known:
            ctx.count("entries whose implementation or signature is not resolved")
            continue
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        need = len(pos) - len(a.defaults)
        ctx.check(sig.required >= need, "arity", n, "the checker accepts %d argument(s), the implementation needs %d" % (sig.required, need), fi.where)
        ctx.check(a.vararg is not None or len(sig.params) <= len(pos), "arity", n,
                  "the checker declares %d parameters, the implementation takes %d" % (len(sig.params), len(pos)), fi.where)
        names = [x[0] for x in sig.params]
        for i, x in enumerate(pos):
            if x in names:
                ctx.check(names.index(x) == i, "order", n, "parameter %s is number %d for the checker and %d for the implementation" % (x, names.index(x) + 1, i + 1), fi.where)
        used = {x.id for b in fi.node.body for x in ast.walk(b) if isinstance(x, ast.Name)} if not isinstance(fi.node, ast.Lambda) else None
        for x in pos + ([a.vararg.arg] if a.vararg else []):
            ctx.check(used is None or x in used, "used", "%s.%s" % (n, x), "the argument %s of %s is ignored" % (x, n), fi.where)
        judged += returns(ctx, n, fi, sig, pos)
    ctx.floor("returned values judged", judged, 130)
    lookup(ctx, p)


def returns(ctx, n, fi, sig, pos):
    inl = lambda e, f, d: f.module.name == VAL or f.module.name == BI and "<locals>" in f.qual
    outs, _ = ctx.walk(fi, Pol(inline=inl, loop_iters=1, max_states=40 if not ctx.thorough else 120, want_exc=False,
                               fact_key=lambda a: a[0] == "eq" and any(x[0] == "attr" and x[2] == "type" for x in a[1:] if isinstance(x, tuple)) or a[0] in ("in", "truth")))
    ptype = {}
    for i, x in enumerate(pos):
        if i < len(sig.params):
            ptype[("param", x)] = sig.params[i][1]
    k = 0

    def vt(t):
        """Type names a returned value term can have (None: not resolved)."""
        if t[0] == "phi":
            return {y for x in t[1] for y in vt(x)}
        if t in ptype:
            return {ptype[t]}
        if iscall(t, VAL + ".Value", VAL + ".wrap_value"):
            ty = arg(t, "type", 1)
            return tt(ty)
        return {None}

    def tt(ty):
        if ty is None:
            return {None}
        if ty[0] == "phi":
            return {y for x in ty[1] for y in tt(x)}
        if ty[0] == "attr" and ty[2] == "type":
            return vt(ty[1])
        if ty[0] == "attr" and ty[2] == "element_type":
            return {x[1] if isinstance(x, tuple) else None for x in tt(ty[1])}
        if iscall(ty, TY + "ListType", TY + "make_list_type"):
            e = ty[2][0] if ty[2] else None
            return {("list", x) for x in tt(e)}
        return {tname(ty)}
    PV = tuple(a + b for a in ("POINT", "VECTOR") for b in ("", "2D", "3D"))
    pred = {"issolid": ("SOLID",), "issurface": ("SURFACE",), "isregion2d": ("REGION2D",), "isvect": PV, "ispoint": PV}

    def family(x):
        return {y for y in PV if stem(y) == stem(x) and fits(x, y)} if x in PV else {x}
    for o in outs:
        if o.kind != "return":
            continue
        dead = False
        for a, v in o.state.facts.items():
            if a[0] == "eq" and v:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x[0] == "attr" and x[2] == "type" and x[1] in ptype and tname(y):
                        dead = dead or not fits(ptype[x[1]], tname(y))
            if a[0] == "in" and a[1][0] == "attr" and a[1][2] == "type" and a[1][1] in ptype and a[2][0] in ("tuple", "list", "set"):
                want, have = ptype[a[1][1]], {tname(y) for y in a[2][1]}
                if want not in (None, "UNKNOWN") and None not in have:
                    fam = {want} | family(want) if isinstance(want, str) else {want}
                    dead = dead or (v and not (fam & have)) or (not v and fam <= have)
            if a[0] == "truth" and v and a[1][0] == "call" and a[1][2]:
                f = a[1][1]
                nm = (f[1] if f[0] in ("fn", "ext") else "").rsplit(".", 1)[-1]
                x = a[1][2][0]
                if nm in pred and x[0] == "attr" and x[2] == "data" and x[1] in ptype and ptype[x[1]] not in (None, "UNKNOWN"):
                    dead = dead or ptype[x[1]] not in pred[nm]
        if dead:
            continue
        if o.value is None or o.value == NONE:
            ctx.bad("returns", n, "an exit returns nothing although %s is declared" % (sig.ret,), fi.where)
            continue
        for g in vt(o.value):
            if g is None:
                ctx.count("returned values not resolved")
                continue
            k += 1
            ctx.check(fits(sig.ret, g), "returns", n, "declared to return %s, an exit returns %s" % (sig.ret, g), fi.where)
    return k


def lookup(ctx, p):
    """A builtin call runs the implementation registered under the called name with the arguments in order."""
    f = p.func(BI + ".call_builtin")
    outs, _ = ctx.walk(f, Pol(inline=lambda e, g, d: g.module.name == BI and g.name in ("get_function",)))
    nm, args = ("param", f.params[0]), ("param", f.params[1])
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        v = o.value
        good = v is not None and v[0] == "call" and v[1][0] == "attr" and v[1][2] == "implementation" and v[2] == (("star", args),) and not v[3] \
            and any(x == nm for x in subterms(v[1]))
        ctx.check(good, "dispatch", "call_builtin", "a builtin call does not run the named implementation with exactly the given arguments: %s" % (v and show(v, 6)), f.where)
    ctx.floor("builtin dispatch exits", n, 1)
    f = p.func(SYM + ".SymbolTable.lookup_builtin")
    outs, _ = ctx.walk(f, Pol())
    for o in outs:
        if o.kind == "return":
            ctx.check(o.value is not None and any(x == ("param", f.params[1]) for x in subterms(o.value)), "dispatch", "lookup_builtin",
                      "the signature looked up is not the one registered under the name", f.where)
