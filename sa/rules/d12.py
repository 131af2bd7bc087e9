"""D12: operators, literals and value forms compute the documented value and kind."""
from ..dsl import *
from ..flow import show

PROP = dict(
    id="D12", title="Operators and literals compute the documented value and type",
    statement="Every arithmetic, comparison, logical and unary operator applied at run time computes that operation on its operands in their written order, and for numeric operands the value has the int, float or bool type the type checker announced. A condition holds exactly for true booleans, non-empty lists, present optionals and any other value. Literals keep their written value and type; list, dict, index, member and range forms give the written elements in order; a match pattern accepts exactly the values it describes; a boolean result of a native function stays boolean.",
    over=["inputs"], text="all operand values, operators and value forms",
    why="The operator table is a product of operator, operand kinds and order; tests touch a few cells.",
    files=["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/values.py", "src/yapcad/dsl/checker.py"],
    mech=[("operator evaluation", "src/yapcad/dsl/runtime/interpreter.py: Interpreter._eval_binary_op, _eval_unary_op"),
          ("value constructors", "src/yapcad/dsl/runtime/values.py: int_val, float_val, bool_val, list_val, Value.is_truthy"),
          ("announced types", "src/yapcad/dsl/checker.py: TypeChecker._check_binary_op")],
    observe=["emitted value of an expression", "type of the emitted value"],
    technique="symbolic-term dataflow of each operator's result, compared with the operator's definition and with the checker's result type",
    note="For every operator token and operand kind the result term on every path is compared with the defining term (commutative forms identified); values themselves stay symbolic.",
)
EXPLAIN = ("For each operator token and each combination of operand types the evaluator is walked with opaque operand terms; the data and type of every value returned "
           "must be the operator's defining term and the type the checker's own walk returns. The same for truthiness, literals, ranges, indexing, members, collections and patterns.")
ASSUME = ["Python's own arithmetic on int and float is the documented arithmetic"]

VALUES = "yapcad.dsl.runtime.values"
TYPES = "yapcad.dsl.types"
TOK = "yapcad.dsl.tokens.TokenType"
VCLS = ("class", VALUES + ".Value")
SELF = ("param", "self")


def gv(n):
    return ("gval", TYPES, n)


def ident(n):
    return ("param", "$" + n)


TYPE_NAMES = ("INT", "FLOAT", "BOOL", "STRING", "ERROR", "UNKNOWN")


def type_facts():
    f = {}
    for a in TYPE_NAMES:
        for b in TYPE_NAMES:
            if a != b:
                x, y = gv(a), gv(b)
                f[("eq", x, y) if repr(x) <= repr(y) else ("eq", y, x)] = False
        for c in ("ListType", "OptionalTypeWrapper", "GeometricPrimitiveType", "DictType", "FunctionType"):
            f[("isinstance", gv(a), ("class", TYPES + "." + c))] = False
    return f


def evald(eng, term, st, node):
    f = term[1]
    if f[0] == "attr" and f[2] in ("_evaluate", "_check_expression") and term[2]:
        return [(st, ("val", term[2][0]))]
    if f == ("fn", TYPES + ".is_numeric") and term[2] and term[2][0][0] == "gval":
        return [(st, C(term[2][0][2] in ("INT", "FLOAT")))]
    if f[0] == "ext" and f[1].startswith("operator.") and f[1][9:] in OPS and len(term[2]) == len(OPS[f[1][9:]]) - 1 or False:
        return None
    return None


OPS = {}
KIND = {"int": "INT", "float": "FLOAT", "bool": "BOOL", "str": "STRING"}
CONV = {"INT": "int", "FLOAT": "float", "BOOL": "bool", "STRING": "str"}


def inl(p, *mods, stop=("_evaluate", "is_truthy")):
    def f(e, g, d):
        return g.module.name in mods and g.name not in stop
    return f


def value_of(t):
    """(data term without redundant conversions, type name) of a Value term, or None."""
    if t is None or t[0] != "call" or t[1] != VCLS:
        return None
    d, ty = arg(t, "data", 0), arg(t, "type", 1)
    if d is None or ty is None or ty[0] != "gval":
        return (d, ty)
    conv = CONV.get(ty[2])
    while conv and d[0] == "call" and d[1] == ("ext", conv) and len(d[2]) == 1:
        d = d[2][0]
    return (d, ty[2])


def op_term(t):
    """operator.xxx(a, b) calls as plain operator terms."""
    names = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow"}
    if t[0] == "call" and t[1][0] == "ext" and len(t[2]) == 2:
        n = t[1][1].split(".")[-1]
        a, b = t[2]
        if t[1][1].startswith("operator.") and n in names:
            return ("bin", names[n], a, b)
        if t[1][1].startswith("operator."):
            cmpo = {"lt": ("lt", a, b), "le": ("le", a, b), "gt": ("lt", b, a), "ge": ("le", b, a)}
            if n in cmpo:
                return ("cmp", cmpo[n])
            if n in ("eq", "ne"):
                e = ("cmp", ("eq", a, b) if repr(a) <= repr(b) else ("eq", b, a))
                return e if n == "eq" else ("not", e)
        if t[1][1] == "pow":
            return ("bin", "Pow", a, b)
    return t


def same_op(t, want, commut):
    t = strip_sites(op_term(t))
    if t == want:
        return True
    return commut and t[0] == "bin" and t == ("bin", want[1], want[3], want[2])


def run(ctx):
    p = ctx.p
    binary(ctx, p)
    logical(ctx, p)
    unary(ctx, p)
    truthy(ctx, p)
    literals(ctx, p)
    constructors(ctx, p)
    collections_(ctx, p)
    patterns(ctx, p)
    native_results(ctx, p)


L, R = ("val", ident("L")), ("val", ident("R"))
LD, RD = ("attr", L, "data"), ("attr", R, "data")
ARITH = {"PLUS": "Add", "MINUS": "Sub", "STAR": "Mult", "SLASH": "Div", "PERCENT": "Mod", "DOUBLE_SLASH": "FloorDiv", "DOUBLE_STAR": "Pow"}


def atom(op):
    if op in ("EQ", "NE"):
        return ("eq", LD, RD) if repr(LD) <= repr(RD) else ("eq", RD, LD)
    return {"LT": ("lt", LD, RD), "GT": ("lt", RD, LD), "LE": ("le", LD, RD), "GE": ("le", RD, LD)}[op]


def op_setup(fi, tok, lt, rt, fields=("left", "right")):
    op = ("param", fi.params[1])
    heap = {(op, "operator"): ("enum", TOK, tok), (op, fields[0]): ident("L")}
    heap[(L, "type")] = lt
    if len(fields) > 1:
        heap[(op, fields[1])] = ident("R")
        heap[(R, "type")] = rt
    return heap


def binary(ctx, p):
    fi = p.func(INTERP + ".Interpreter._eval_binary_op")
    cf = p.func(CHECKER + ".TypeChecker._check_binary_op")
    n = 0
    for tok, op in list(ARITH.items()) + [(x, None) for x in ("EQ", "NE", "LT", "GT", "LE", "GE")]:
        for lt in ("INT", "FLOAT"):
            for rt in ("INT", "FLOAT"):
                outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, fold=True), heap=op_setup(fi, tok, gv(lt), gv(rt)), facts=type_facts())
                announced = checked_type(ctx, p, cf, tok, lt, rt)
                lab = "%s %s %s" % (lt.lower(), tok, rt.lower())
                rets = [o for o in outs if o.kind == "return"]
                ctx.check(bool(rets), "operator", lab, "no result", fi.where)
                for o in rets:
                    v = value_of(o.value)
                    if v is None:
                        ctx.bad("operator", lab, "result is %s" % show(o.value, 4), fi.where)
                        continue
                    d, ty = v
                    n += 1
                    if op:
                        ok = same_op(d, ("bin", op, LD, RD), op in ("Add", "Mult"))
                        # an integer quotient may be written as a conversion of the float one only if it floors
                        ctx.check(ok, "operator", lab, "computes %s" % show(d, 5), fi.where)
                        neg = any(a == ("lt", RD, C(0)) and x or a == ("le", C(0), RD) and not x for a, x in o.state.facts.items())
                        if op == "Pow" and ty == "INT":
                            pos = any(a == ("lt", RD, C(0)) and not x or a == ("le", C(0), RD) and x for a, x in o.state.facts.items())
                            ctx.check(pos, "operator", lab, "a negative power is truncated to an integer", fi.where)
                        ctx.check(ty == announced or (op == "Pow" and neg and ty == "FLOAT"), "announced", lab,
                                  "gives a value of type %s, the checker announces %s" % (ty, announced), fi.where)
                    else:
                        a = atom(tok)
                        t = strip_sites(op_term(d))
                        want = tok != "NE"
                        if t[0] == "not" and t[1][0] == "cmp":
                            ok = t[1][1] == a and not want
                        elif t[0] == "cmp":
                            ok = t[1] == a and want
                        elif t[0] == "const":
                            f = o.state.facts.get(a)
                            ok = f is not None and (f == want) == t[1]
                        else:
                            ok = False
                        ctx.check(ok, "operator", lab, "computes %s" % show(d, 5), fi.where)
                        ctx.check(ty == "BOOL" and announced == "BOOL", "announced", lab, "gives a value of type %s, the checker announces %s" % (ty, announced), fi.where)
    ctx.floor("numeric operator results", n, 52)
    # strings and lists
    outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, fold=True), heap=op_setup(fi, "PLUS", gv("STRING"), gv("STRING")), facts=type_facts())
    for o in outs:
        if o.kind == "return":
            v = value_of(o.value)
            ok = v is not None and v[1] == "STRING" and strip_sites(unconv(v[0], "str")) == ("bin", "Add", LD, RD)
            ctx.check(ok, "operator", "string PLUS string", "computes %s" % show(o.value, 5), fi.where)
    lt, rt = ident("LT"), ident("RT")
    f = type_facts()
    for t in (lt, rt):
        f[("isinstance", t, ("class", TYPES + ".ListType"))] = True
        for nme in TYPE_NAMES:
            f[("eq", t, gv(nme)) if repr(t) <= repr(gv(nme)) else ("eq", gv(nme), t)] = False
    outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, fold=True), heap=op_setup(fi, "PLUS", lt, rt), facts=f)
    for o in outs:
        if o.kind == "return":
            v = value_of(o.value)
            ok = v is not None and strip_sites(op_term(v[0])) == ("bin", "Add", LD, RD) and v[1] is not None and (
                v[1] in (lt, rt) or iscall(v[1], TYPES + ".ListType", TYPES + ".make_list_type") and v[1][2] and v[1][2][0] in (("attr", lt, "element_type"), ("attr", rt, "element_type")))
            ctx.check(ok, "operator", "list PLUS list", "computes %s" % show(o.value, 6), fi.where)
    # arithmetic on points: the checker's announcement against the runtime
    for tok in ("PLUS", "MINUS", "STAR"):
        geo = gv("POINT3D")
        other = gv("POINT3D") if tok != "STAR" else gv("FLOAT")
        ff = type_facts()
        for t in {geo, other}:
            for c in ("ListType", "OptionalTypeWrapper", "DictType", "FunctionType"):
                ff[("isinstance", t, ("class", TYPES + "." + c))] = False
            if t == geo:
                ff[("isinstance", t, ("class", TYPES + ".GeometricPrimitiveType"))] = True
            for nme in TYPE_NAMES:
                if gv(nme) != t:
                    ff[("eq", t, gv(nme)) if repr(t) <= repr(gv(nme)) else ("eq", gv(nme), t)] = False
        chk = {tname(o.value) for o in checker_outs(ctx, p, cf, tok, geo, other, ff) if o.kind == "return"}
        outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, fold=True), heap=op_setup(fi, tok, geo, other), facts=ff)
        got = {value_of(o.value)[1] for o in outs if o.kind == "return" and value_of(o.value)}
        if chk == {"ERROR"} or not chk:
            ctx.ok("announced", "point " + tok)
        else:
            ctx.check(not (got & {"FLOAT", "INT"}), "announced", "point " + tok, "the checker accepts it and announces a point, the evaluator converts the result to a number, which always fails", fi.where)


def unconv(t, conv):
    """Remove a conversion everywhere below additions."""
    if t[0] == "call" and t[1] == ("ext", conv) and len(t[2]) == 1:
        return unconv(t[2][0], conv)
    if t[0] == "bin":
        return (t[0], t[1], unconv(t[2], conv), unconv(t[3], conv))
    return t


def tname(t):
    return t[2] if t is not None and t[0] == "gval" else (show(t, 3) if t is not None else None)


def checker_outs(ctx, p, cf, tok, lt, rt, facts):
    expr = ("param", cf.params[1])

    def hook(eng, term, st, node):
        f = term[1]
        if f[0] == "attr" and f[2] == "_check_expression" and term[2]:
            return [(st, {ident("L"): lt, ident("R"): rt}.get(term[2][0], ("top", "t")))]
        if f == ("fn", TYPES + ".is_numeric") and term[2] and term[2][0][0] == "gval":
            return [(st, C(term[2][0][2] in ("INT", "FLOAT")))]
        if f == ("fn", TYPES + ".common_type"):
            return [(st, term[2][0])]
        return None
    heap = {(expr, "operator"): ("enum", TOK, tok), (expr, "left"): ident("L"), (expr, "right"): ident("R"), (expr, "operand"): ident("L")}
    return ctx.walk(cf, Pol(inline=inl(p, CHECKER, stop=("_check_expression", "_error")), call_hook=hook, fold=True), heap=heap, facts=facts)[0]


def checked_type(ctx, p, cf, tok, lt, rt):
    ts = {tname(o.value) for o in checker_outs(ctx, p, cf, tok, gv(lt), gv(rt), type_facts()) if o.kind == "return"}
    return ts.pop() if len(ts) == 1 else "/".join(sorted(map(str, ts)))


def truth_call(v):
    return ("call", ("attr", v, "is_truthy"), (), ())


def bool_outcomes(ctx, outs, envs, rule, lab, fi, want):
    """On every path feasible under each valuation the returned BOOL has the wanted value."""
    for env in envs:
        e2 = dict(env)
        hit = False
        for o in outs:
            if o.kind != "return":
                continue
            st = o.state
            if any(atom_truth(a, e2) not in (None, v) for a, v in st.facts.items()):
                continue
            v = value_of(o.value)
            hit = True
            try:
                got = bool(peval(strip_sites(v[0]), e2)) if v else None
            except Unknown:
                got = None
            ctx.check(v is not None and v[1] == "BOOL" and got == want(env), rule, lab, "gives %s where %s holds" % (show(o.value, 5), {show(k, 3): x for k, x in env.items()}), fi.where)
        ctx.check(hit, rule, lab, "no result where %s holds" % {show(k, 3): x for k, x in env.items()}, fi.where)


def atom_truth(a, env):
    try:
        return atom_val(strip_sites(a), env)
    except Exception:
        return None


def logical(ctx, p):
    fi = p.func(INTERP + ".Interpreter._eval_binary_op")
    tl, tr = truth_call(L), truth_call(R)
    for tok, fn in (("AND", lambda a, b: a and b), ("OR", lambda a, b: a or b)):
        outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, fold=True), heap=op_setup(fi, tok, gv("BOOL"), gv("BOOL")), facts=type_facts())
        envs = [{tl: a, tr: b} for a in (True, False) for b in (True, False)]
        bool_outcomes(ctx, outs, envs, "operator", tok, fi, lambda e: fn(e[tl], e[tr]))


def unary(ctx, p):
    fi = p.func(INTERP + ".Interpreter._eval_unary_op")
    cf = p.func(CHECKER + ".TypeChecker._check_unary_op")
    for ty in ("INT", "FLOAT"):
        outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, fold=True), heap=op_setup(fi, "MINUS", gv(ty), None, ("operand",)), facts=type_facts())
        ann = {tname(o.value) for o in checker_outs(ctx, p, cf, "MINUS", gv(ty), None, type_facts()) if o.kind == "return"}
        for o in outs:
            if o.kind == "return":
                v = value_of(o.value)
                ok = v is not None and strip_sites(v[0]) in (("un", "USub", LD), ("bin", "Sub", C(0), LD), ("bin", "Mult", C(-1), LD), ("bin", "Mult", LD, C(-1)), ("call", ("ext", "operator.neg"), (LD,), ()))
                ctx.check(ok and ann == {v[1]}, "operator", "MINUS " + ty.lower(), "gives %s, the checker announces %s" % (show(o.value, 4), sorted(map(str, ann))), fi.where)
    outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, fold=True), heap=op_setup(fi, "NOT", gv("BOOL"), None, ("operand",)), facts=type_facts())
    tl = truth_call(L)
    bool_outcomes(ctx, outs, [{tl: True}, {tl: False}], "operator", "NOT", fi, lambda e: not e[tl])


def truthy(ctx, p):
    fi = p.func(VALUES + ".Value.is_truthy")
    data, ty = ("attr", SELF, "data"), ("attr", SELF, "type")
    ln = ("call", ("ext", "len"), (data,), ())
    tt = ident("T")

    def facts(kind):
        f = {}
        for n in TYPE_NAMES:
            f[("eq", tt, gv(n)) if repr(tt) <= repr(gv(n)) else ("eq", gv(n), tt)] = n == kind
        for c in ("ListType", "OptionalTypeWrapper"):
            f[("isinstance", tt, ("class", TYPES + "." + c))] = c == kind
        return f
    for kind, envs, want in (
            ("BOOL", [{data: True}, {data: False}], lambda e: e[data]),
            ("ListType", [{ln: 0, data: []}, {ln: 1, data: [1]}, {ln: 3, data: [1, 2, 3]}, {ln: 1, data: [False]}], lambda e: e[ln] > 0),
            ("OptionalTypeWrapper", [{data: None}, {data: 0}, {data: False}, {data: 5}], lambda e: e[data] is not None),
            ("INT", [{data: 0}, {data: 3}], lambda e: True), ("FLOAT", [{data: 0.0}], lambda e: True), ("STRING", [{data: ""}], lambda e: True)):
        outs, _ = ctx.walk(fi, Pol(fold=True), heap={(SELF, "type"): tt}, facts=facts(kind))
        for e in envs:
            got = set()
            for o in outs:
                if o.kind != "return" or any(atom_truth(a, e) not in (None, v) for a, v in o.state.facts.items()):
                    continue
                try:
                    got.add(bool(peval(strip_sites(o.value), e)))
                except Unknown:
                    got.add(show(o.value, 4))
            ctx.check(got == {want(e)}, "truthiness", "%s %r" % (kind, e.get(data)), "counts as %s" % sorted(map(str, got)), fi.where)


def literals(ctx, p):
    fi = p.func(INTERP + ".Interpreter._eval_literal")
    lit = ("param", fi.params[1])
    val = ("attr", lit, "value")
    for tok, ty in (("INT_LITERAL", "INT"), ("FLOAT_LITERAL", "FLOAT"), ("STRING_LITERAL", "STRING"), ("BOOL_LITERAL", "BOOL")):
        facts = type_facts()
        facts[("isinstance", val, ("ext", "bool"))] = tok == "BOOL_LITERAL"
        outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), fold=True), heap={(lit, "literal_type"): ("enum", TOK, tok)}, facts=facts)
        rets = [o for o in outs if o.kind == "return"]
        ctx.check(bool(rets), "literal", tok, "no value", fi.where)
        for o in rets:
            v = value_of(o.value)
            ctx.check(v is not None and v[1] == ty and (strip_sites(v[0]) == val or strip_sites(v[0])[0] == "const" and o.state.facts.get(("truth", val)) == v[0][1]), "literal", tok, "evaluates to %s" % show(o.value, 5), fi.where)


def constructors(ctx, p):
    for name, ty in (("int_val", "INT"), ("float_val", "FLOAT"), ("bool_val", "BOOL"), ("string_val", "STRING")):
        fi = p.func(VALUES + "." + name)
        for o in ctx.walk(fi, Pol(inline=inl(p, VALUES)))[0]:
            if o.kind == "return":
                v = value_of(o.value)
                ctx.check(v == (("param", fi.params[0]), ty), "constructor", name, "gives %s" % show(o.value, 5), fi.where)
    fi = p.func(VALUES + ".wrap_value")
    for o in ctx.walk(fi, Pol(inline=inl(p, VALUES)))[0]:
        if o.kind == "return":
            ok = o.value[0] == "call" and o.value[1] == VCLS and (arg(o.value, "data", 0), arg(o.value, "type", 1)) == (("param", fi.params[0]), ("param", fi.params[1]))
            ctx.check(ok, "constructor", "wrap_value", "gives %s" % show(o.value, 5), fi.where)
    fi = p.func(VALUES + ".list_val")
    xs = [ident("x%d" % i) for i in range(3)]
    for o in ctx.walk(fi, Pol(inline=inl(p, VALUES), fold=True), bind={fi.params[0]: ("list", tuple(xs), ("site", "$x", 0, 0))})[0]:
        if o.kind == "return":
            d = arg(o.value, "data", 0)
            ty = arg(o.value, "type", 1)
            ok = d is not None and d[0] == "list" and list(d[1]) == [("attr", x, "data") for x in xs] and iscall(ty, TYPES + ".ListType", TYPES + ".make_list_type") and ("param", fi.params[1]) in [v for v in ty[2]] + [v for _, v in ty[3]]
            ctx.check(ok, "constructor", "list_val", "gives %s" % show(o.value, 6), fi.where)
    fi = p.func(VALUES + ".dict_val")
    prs = tuple((C("k%d" % i), x) for i, x in enumerate(xs))
    for o in ctx.walk(fi, Pol(inline=inl(p, VALUES), fold=True), bind={fi.params[0]: ("dict", prs, ("site", "$x", 0, 0))})[0]:
        if o.kind == "return":
            d = arg(o.value, "data", 0)
            ok = d is not None and d[0] == "dict" and dict(d[1]) == {k: ("attr", v, "data") for k, v in prs}
            ctx.check(ok, "constructor", "dict_val", "gives %s" % show(o.value, 6), fi.where)


def collections_(ctx, p):
    es = [ident("e%d" % i) for i in range(3)]
    data = [("attr", ("val", e), "data") for e in es]
    pol = lambda: Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, fold=True)
    fi = p.func(INTERP + ".Interpreter._eval_list_literal")
    n = ("param", fi.params[1])
    for k in range(4):
        for o in ctx.walk(fi, pol(), heap={(n, "elements"): ("list", tuple(es[:k]), ("site", "$e", 0, 0))})[0]:
            if o.kind != "return":
                continue
            d = arg(o.value, "data", 0) if o.value[0] == "call" else None
            ctx.check(d is not None and d[0] == "list" and list(d[1]) == data[:k], "form", "list literal of %d" % k, "gives %s" % show(o.value, 6), fi.where)
            if k:
                ty = arg(o.value, "type", 1)
                ctx.check(ty is not None and iscall(ty, TYPES + ".ListType", TYPES + ".make_list_type") and mentions_term(ty, ("attr", ("val", es[0]), "type")), "form", "element type of a list literal", "is %s" % show(ty, 4), fi.where)
    fi = p.func(INTERP + ".Interpreter._eval_dict_literal")
    n = ("param", fi.params[1])
    prs = tuple((C("k%d" % i), e) for i, e in enumerate(es))
    for o in ctx.walk(fi, pol(), heap={(n, "entries"): ("dict", prs, ("site", "$d", 0, 0))})[0]:
        if o.kind == "return":
            d = arg(o.value, "data", 0) if o.value[0] == "call" else None
            ctx.check(d is not None and d[0] == "dict" and dict(d[1]) == {C("k%d" % i): data[i] for i in range(3)}, "form", "dict literal", "gives %s" % show(o.value, 6), fi.where)
    # range
    fi = p.func(INTERP + ".Interpreter._eval_range")
    n = ("param", fi.params[1])
    hits = []

    def on(ev, st, eng):
        if ev.kind == "call" and ev.term[1] == ("ext", "range"):
            hits.append(ev.term)
    outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=evald, on_event=on), heap={(n, "start"): es[0], (n, "end"): es[1]})
    for o in outs:
        if o.kind == "return":
            d = arg(o.value, "data", 0) if o.value[0] == "call" else None
            rs = calls_in(o.value, "range")
            ok = d is not None and len({strip_sites(r) for r in rs}) == 1 and [unconv(strip_sites(x), "int") for x in rs[0][2]] in ([data[0], data[1]], [data[0], data[1], C(1)])
            ctx.check(ok, "form", "range", "gives %s" % show(o.value, 7), fi.where)
            ty = arg(o.value, "type", 1)
            ctx.check(ty is not None and mentions_term(ty, gv("INT")), "form", "range element type", "is %s" % show(ty, 4), fi.where)
    # index
    fi = p.func(INTERP + ".Interpreter._eval_index_access")
    n = ("param", fi.params[1])
    ok_n = 0
    for o in ctx.walk(fi, pol(), heap={(n, "object"): es[0], (n, "index"): es[1]})[0]:
        if o.kind != "return":
            continue
        d = arg(o.value, "data", 0) if o.value[0] == "call" else None
        ok = d is not None and d[0] == "item" and d[1] == data[0] and unconv(strip_sites(d[2]), "int") == data[1]
        ctx.check(ok, "form", "index", "gives %s" % show(o.value, 6), fi.where)
        ok_n += 1
        for a, v in o.state.facts.items():
            if v and a[0] == "isinstance" and a[2] == ("class", TYPES + ".ListType"):
                ctx.check(arg(o.value, "type", 1) == ("attr", a[1], "element_type"), "form", "index element type", "is %s" % show(arg(o.value, "type", 1), 4), fi.where)
    ctx.check(ok_n > 0, "form", "index", "no value", fi.where)
    # members x, y, z of points
    fi = p.func(INTERP + ".Interpreter._eval_member_access")
    n = ("param", fi.params[1])
    for i, m in enumerate("xyz"):
        facts = {("truth", ("call", ("ext", "hasattr"), (data[0], C(m)), (), None)): False,
                 ("truth", ("call", ("ext", "hasattr"), (data[0], C("__getitem__")), (), None)): True,
                 ("isinstance", ("attr", ("val", es[0]), "type"), ("class", TYPES + ".DictType")): False}
        got = set()
        for o in ctx.walk(fi, pol(), heap={(n, "object"): es[0], (n, "member"): C(m)}, facts=facts)[0]:
            if o.kind == "return":
                v = value_of(o.value)
                got.add(v)
        ctx.check(got == {(("item", data[0], C(i)), "FLOAT")}, "form", "member " + m, "gives %s" % " / ".join(show(v[0], 4) if v else "?" for v in got), fi.where)


def patterns(ctx, p):
    fi = p.func(INTERP + ".Interpreter._pattern_matches")
    pat, val = ("param", fi.params[1]), ("param", fi.params[2])
    data = ("attr", val, "data")
    lit = ("attr", ("attr", pat, "value"), "value")
    base = p.cls(AST + ".Pattern")
    n = 0
    for c in node_classes(p, "Pattern"):
        pol = Pol(inline=inl(p, INTERP, VALUES, CONTEXT), fold=True, track=lambda ev, st: ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] in ("set_variable", "set", "update_variable"))
        outs, _ = ctx.walk(fi, pol, facts={("exact", pat, ("class", c.qual)): True}, types={pat: c})
        rets = [o for o in outs if o.kind == "return"]
        n += 1
        if c.name == "WildcardPattern":
            ctx.check(rets and all(o.value == TRUE for o in rets), "pattern", c.name, "does not accept every value", fi.where)
        elif c.name == "IdentifierPattern":
            binds = [any(e[1][2][:2] == (("attr", pat, "name"), val) for e in o.state.events) for o in rets]
            ctx.check(rets and all(o.value == TRUE for o in rets) and all(binds), "pattern", c.name, "does not accept and bind every value", fi.where)
        elif c.name == "LiteralPattern":
            a = ("eq", data, lit) if repr(data) <= repr(lit) else ("eq", lit, data)
            for o in rets:
                v = strip_sites(o.value)
                ok = v == ("cmp", a) or v[0] == "const" and o.state.facts.get(a) == v[1]
                ctx.check(ok, "pattern", c.name, "matches when %s" % show(o.value, 5), fi.where)
        else:
            ctx.check(all(o.value == FALSE for o in rets), "pattern", c.name, "an unsupported pattern is accepted", fi.where)
    ctx.floor("pattern classes", n, 3)


def native_results(ctx, p):
    fi = p.func(INTERP + ".Interpreter._call_native_function")
    res = ident("res")

    def hook(eng, term, st, node):
        if term[1] == ident("nat"):
            return [(st, res)]
        if term[1][0] in ("fn", "ext") and term[1][1].endswith("issolid"):
            return [(st, FALSE)]
        return None
    for kind, ty in (("bool", "BOOL"), ("int", "FLOAT"), ("float", "FLOAT"), ("str", "STRING")):
        f = type_facts()
        for k in ("bool", "int", "float", "str", "list", "dict", "tuple"):
            f[("isinstance", res, ("ext", k))] = k == kind or (kind == "bool" and k == "int")
        outs, _ = ctx.walk(fi, Pol(inline=inl(p, INTERP, VALUES), call_hook=hook, fold=True, want_exc=False),
                           heap={(SELF, "native_functions"): ("dict", ((("param", fi.params[1]), ident("nat")),), ("site", "$n", 0, 0)),
                                 ("item", ("dict", ((("param", fi.params[1]), ident("nat")),), ("site", "$n", 0, 0)), ("param", fi.params[1])): ident("nat")},
                           facts=f)
        got = {value_of(o.value) for o in outs if o.kind == "return"}
        ok = got and all(v is not None and v[0] == res and v[1] in ((ty, "INT") if kind == "int" else (ty,)) for v in got)
        ctx.check(ok, "native", kind, "a native result of type %s becomes %s" % (kind, " / ".join("%s %s" % (show(v[0], 3), v[1]) if v else "?" for v in got)), fi.where)
