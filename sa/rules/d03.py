"""D03: the checker examines every part of every construct and rejects mismatches."""
import ast

from ..dsl import *
from ..flow import show

PROP = dict(
    id="D03", title="The type checker examines every construct and reports every mismatch",
    statement="For every statement and expression form the parser can produce, checking it also checks every nested statement, expression, argument, default value and branch, wherever it stands. On every path a violated typing rule - non-boolean condition or logical operand, non-integer index or range bound, non-string message, a value not assignable to its declared, parameter or return type, an undefined name, function or method, a duplicate definition, too few arguments - is reported as an error.",
    over=["inputs"], text="all parsed modules",
    why="The rules are spread over some thirty node handlers; tests reject a few programs, while a handler that skips one operand or one branch accepts ill-typed programs only of that shape.",
    files=["src/yapcad/dsl/checker.py", "src/yapcad/dsl/ast.py", "src/yapcad/dsl/parser.py"],
    mech=[("statement and expression checking", "src/yapcad/dsl/checker.py: TypeChecker"),
          ("node vocabulary", "src/yapcad/dsl/ast.py")],
    observe=["CheckResult.has_errors"],
    technique="path-sensitive coverage dataflow per AST node class (children enumerated from the node declarations, typing rules as per-path obligations)",
    note="Each node class the parser constructs is walked through the checker's dispatcher; every path that reports no error must have visited every child and must hold the facts the typing rule demands.",
)
EXPLAIN = ("Node classes and their executable children are enumerated from the AST declarations; only classes the parser constructs are "
           "considered. For each class the checker's dispatcher is walked with a node known to be of that class. A path that reports no error "
           "must visit each child (unless the path knows the child is absent), must hold the required type facts about each visited child, "
           "and may return the error type only when an error was reported or received.")
ASSUME = ["symbol tables and type compatibility functions answer correctly (catalogue agreement is property D06)"]

VISIT = ("_check_expression", "_check_statement", "_check_block")
STOP = VISIT + ("_error", "_warning", "_resolve_type_node", "_check_command")
SELF = ("param", "self")

BOOLS = {"IfStatement": [("condition",), ("elif_branches", "condition")], "AssertStatement": [("condition",)],
         "ConditionalExpr": [("condition",)], "IfExpr": [("condition",), ("elif_branches", "condition")],
         "ListComprehension": [("clauses", "conditions")]}
OTHER = {"AssertStatement": [(("message",), "STRING")], "IndexAccess": [(("index",), "INT")],
         "RangeExpr": [(("start",), "INT"), (("end",), "INT")]}
LOGIC = ("AND", "OR")
COMPARE = ("LT", "GT", "LE", "GE")


def is_visit(t):
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] in VISIT


def gname(t):
    return t[2] if t[0] == "gval" else None


def operators(p, cls):
    """TokenType members the parser gives to the operator of a node class (None: not restricted)."""
    return None


def early(st):
    for a, v in st.facts.items():
        if a[0] in ("lt", "le") and any(x[0] == "attr" and x[2] == "max_errors" for x in a[1:]) and \
                any(y[0] == "attr" and y[2] in ("error_count", "_error_count") for x in a[1:] for y in subterms(x)):
            # the limit is reached
            hi = a[1][0] == "attr" and a[1][2] == "max_errors"
            if hi and v or (not hi and not v):
                return True
    return any(a[0] == "truth" and v and a[1][0] == "attr" and a[1][2] in ("should_stop",) for a, v in st.facts.items())


def token_type(p, name):
    return ("enum", "yapcad.dsl.tokens.TokenType", name)


class Walk:
    def __init__(self, ctx, fi, cls, extra=None):
        self.node = ("param", fi.params[1])
        node = self.node

        def on_event(ev, st, eng):
            if ev.kind != "call":
                return
            u = st.user or (frozenset(), 0)
            t = ev.term
            if is_visit(t):
                st.user = (u[0] | {t}, u[1])
            elif t[1][0] == "attr" and t[1][2] == "_error":
                st.user = (u[0], 1)

        facts = {("exact", node, ("class", cls.qual)): True}
        facts.update(extra or {})
        own = fi.module.name
        inl = lambda eng, f, d: f.module.name == own and f.name not in STOP
        self.outs, _ = ctx.walk(fi, Pol(inline=inl, on_event=on_event, max_states=500, fact_key=lambda a: True,
                                         loop_iters=2 if cls.name == "ListLiteral" else 1), facts=facts, types={node: cls})


def is_error_type(st, t):
    return any(a[0] == "eq" and v and t in a[1:] and any(gname(x) == "ERROR" for x in a[1:]) for a, v in st.facts.items())


def any_error_type(st):
    return any(a[0] == "eq" and v and any(gname(x) == "ERROR" for x in a[1:]) and any(is_visit(x) for x in a[1:]) for a, v in st.facts.items())


def type_fact(st, t, names):
    for a, v in st.facts.items():
        if a[0] == "eq" and v and t in a[1:] and any(gname(x) in names + ("ERROR",) for x in a[1:]):
            return True
        if a[0] == "in" and v and a[1] == t:
            els = a[2][1] if a[2][0] in ("tuple", "list", "set") else ()
            if els and all(gname(x) in names + ("ERROR",) for x in els):
                return True
    return False


def numeric(st, t):
    for a, v in st.facts.items():
        if a[0] == "truth" and v and a[1][0] == "call" and iscall(a[1], "yapcad.dsl.types.is_numeric") and t in a[1][2]:
            return True
    return type_fact(st, t, ("INT", "FLOAT"))


def assignable(st, t, source):
    """A positive verdict that t may be given to something resolved from `source`."""
    for a, v in st.facts.items():
        if a[0] == "truth" and v and a[1][0] == "call" and a[1][1][0] == "attr" and a[1][1][2] == "is_assignable_from" and t in a[1][2]:
            if source(a[1][1][1]):
                return True
    return False


def run(ctx):
    p = ctx.p
    base = CHECKER + ".TypeChecker."
    con = constructed(p, PARSER)
    n_cls = n_req = 0
    for kind, disp in (("Statement", "_check_statement"), ("Expression", "_check_expression")):
        fi = p.func(base + disp)
        for cls in node_classes(p, kind):
            if cls.qual not in con:
                continue
            n_cls += 1
            name = cls.name
            variants = [None]
            kids = children(p, cls)
            if name == "RangeExpr":
                made = {k.arg for c, _ in con[cls.qual] for k in c.keywords}
                kids = [k for k in kids if k[0] in made]
            if name == "BinaryOp":
                variants = ["PLUS", "MINUS", "STAR", "SLASH", "PERCENT", "DOUBLE_SLASH", "DOUBLE_STAR", "LT", "GT", "LE", "GE", "EQ", "NE", "AND", "OR"]
            elif name == "UnaryOp":
                variants = ["MINUS", "NOT"]
            elif name == "Literal":
                variants = ["INT_LITERAL", "FLOAT_LITERAL", "STRING_LITERAL", "BOOL_LITERAL"]
            for var in variants:
                node = ("param", fi.params[1])
                extra = {}
                if var is not None:
                    fld = "literal_type" if name == "Literal" else "operator"
                    p.cls("yapcad.dsl.tokens.TokenType")
                    extra[("eq", ("attr", node, fld), token_type(p, var))] = True
                w = Walk(ctx, fi, cls, extra)
                label = name + ("." + var if var else "")
                clean = 0
                for o in w.outs:
                    if o.kind != "return":
                        continue
                    st = o.state
                    seen, err = st.user or (frozenset(), 0)
                    if early(st) or err or impossible(st):
                        continue
                    clean += 1
                    got = {}
                    for t in seen:
                        for x in t[2]:
                            r = path_of(x, node)
                            if r:
                                got.setdefault(r, []).append(t)
                    # children
                    for k in kids:
                        if k == ("callee",) and k not in got:
                            good = callee_known(st, node)
                        elif name == "FunctionCall" and ("callee",) in got and not isinst(st, ("attr", node, "callee"), "Identifier", True):
                            good = True        # rejected by the interpreter: only names can be called
                        elif name == "FunctionCall" and (not_function(st) or nameless(st, node)):
                            good = True        # registration gives every command and native function a function type
                        else:
                            good = k in got and whole(got[k], node, k) or absent(st, node, k) or any_error_type(st) and name == "MethodCall"
                        ctx.check(good, "visits", "%s.%s" % (name, ".".join(k)),
                                  "%s is not checked on a path that reports no error (%s)" % (".".join(k), facts_str(st)), fi.where)
                    # error type only with an error
                    if o.value is not None and gname(o.value) == "ERROR":
                        ctx.check(any_error_type(st) or any_negative_of_error(st), "error-type", label,
                                  "the error type is returned although no error was reported or received (%s)" % facts_str(st), fi.where)
                    # typing rules
                    bools = list(BOOLS.get(name, ()))
                    others = [(k, (t,)) for k, t in OTHER.get(name, ())]
                    if var in LOGIC:
                        bools += [("left",), ("right",)]
                    if name == "UnaryOp" and var == "NOT":
                        bools += [("operand",)]
                    for k, types in [(b, ("BOOL",)) for b in bools] + others:
                        for t in got.get(k, ()):
                            n_req += 1
                            ctx.check(type_fact(st, t, types), "type", "%s.%s" % (label, ".".join(k)),
                                      "%s may have a type other than %s without an error being reported" % (".".join(k), types[0].lower()), fi.where)
                    if var in COMPARE:
                        for k in (("left",), ("right",)):
                            for t in got.get(k, ()):
                                n_req += 1
                                ctx.check(numeric(st, t) or any_error_type(st), "type", "%s.%s" % (label, k[0]), "a non-numeric operand of an ordering comparison is accepted", fi.where)
                    if name == "VarDecl" and ("initializer",) in got and not absent(st, node, ("type_annotation",)):
                        t = got[("initializer",)][0]
                        n_req += 1
                        ctx.check(assignable(st, t, lambda r: ("type_annotation",) in paths_in(r, node)), "type", "VarDecl.initializer",
                                  "an initializer is accepted without being assignable to the declared type", fi.where)
                    if name == "AssignmentStatement":
                        for t in got.get(("value",), ()):
                            n_req += 1
                            ctx.check(assignable(st, t, lambda r: ("target",) in paths_in(r, node)), "type", "AssignmentStatement.value",
                                      "an assigned value is accepted without being assignable to the target's type", fi.where)
                    if name == "EmitStatement":
                        cur = ("attr", SELF, "_current_command")
                        rt = ("attr", cur, "return_type")
                        none = any(a[0] == "eq" and v and NONE in a[1:] and (cur in a[1:] or rt in a[1:]) or a[0] == "truth" and not v and a[1] in (cur, rt)
                                   for a, v in st.facts.items())
                        if not none:
                            for t in got.get(("value",), ()):
                                n_req += 1
                                ctx.check(assignable(st, t, lambda r: rt in list(subterms(r))), "type", "EmitStatement.value",
                                          "an emitted value is accepted without being assignable to the command's return type", fi.where)
                    if name in ("FunctionCall", "MethodCall"):
                        for t in got.get(("arguments",), ()):
                            if typed_args(st, node, name):
                                n_req += 1
                                ctx.check(arg_ok(st, t), "type", name + ".arguments",
                                          "an argument is accepted without being assignable to its own parameter (%s)" % facts_str(st), fi.where)
                    if name == "Identifier":
                        n_req += 1
                        ctx.check(looked_up(st, node, ("name",)), "defined", "Identifier", "a name is accepted although nothing defines it (%s)" % facts_str(st), fi.where)
                    if name == "FunctionCall" and ("callee",) not in got:
                        n_req += 1
                        ctx.check(looked_up(st, node, ("callee", "name")), "defined", "FunctionCall", "a call of an unknown function is accepted (%s)" % facts_str(st), fi.where)
                        if builtin_path(st, node):
                            ctx.check(counted(st, node), "arity", "FunctionCall", "a built-in call with too few arguments is accepted", fi.where)
                            named = [t for t in got.get(("named_arguments",), ())]
                            if named:
                                ctx.check(named_known(st, node), "named", "FunctionCall", "an unknown named argument of a built-in is accepted", fi.where)
                    if name == "MethodCall" and not any_error_type(st):
                        n_req += 1
                        ctx.check(looked_up(st, node, ("method",)), "defined", "MethodCall", "a call of an unknown method is accepted", fi.where)
                    if name == "MemberAccess" and not any_error_type(st):
                        n_req += 1
                        ctx.check(any(v and a[0] in ("in", "eq", "truth") and any(("member",) in paths_in(x, node) for x in a[1:]) for a, v in st.facts.items()),
                                  "defined", "MemberAccess", "an unknown member is accepted", fi.where)
                    # a refused definition is an error
                    for a, v in st.facts.items():
                        if a[0] == "truth" and v is False and a[1][0] == "call" and a[1][1][0] == "attr" and a[1][1][2] == "define":
                            ctx.bad("duplicate", name, "a duplicate definition is not reported", fi.where)
                ctx.check(clean > 0, "accepts", label, "every program using this construct is rejected", fi.where)
    ctx.floor("node classes the parser constructs", n_cls, 24)
    ctx.floor("typing obligations", n_req, 60)

    # helpers above statements: block, command, module
    blk = p.func(base + "_check_block")
    w = Walk(ctx, blk, p.cls(AST + ".Block"))
    cover(ctx, w, blk, [("statements",), ("final_expression",)], "Block")
    cmd = p.func(base + "_check_command")
    fd = p.cls(AST + ".FunctionDef")
    node = ("param", cmd.params[1])

    def on_cmd(ev, st, eng):
        if ev.kind == "call":
            u = st.user or (frozenset(), 0)
            if is_visit(ev.term):
                st.user = (u[0] | {ev.term}, u[1])
            elif ev.term[1][0] == "attr" and ev.term[1][2] == "_error":
                st.user = (u[0], 1)
    inl = lambda eng, f, d: f.module.name == CHECKER and f.name not in VISIT + ("_error", "_warning", "_resolve_type_node", "_check_meta_hint")
    outs, _ = ctx.walk(cmd, Pol(inline=inl, on_event=on_cmd, max_states=300, fact_key=lambda a: True), types={node: fd})
    w.outs, w.node = outs, node
    cover(ctx, w, cmd, [("body",), ("parameters", "default_value")], "FunctionDef")
    for o in outs:
        st = o.state
        seen, err = st.user or (frozenset(), 0)
        if o.kind != "return" or err:
            continue
        for t in seen:
            if any(path_of(x, node) == ("parameters", "default_value") for x in t[2]):
                untyped = any(a[0] == "eq" and v and any(gname(x) == "UNKNOWN" for x in a[1:]) for a, v in st.facts.items()) or \
                    absent(st, node, ("parameters", "type_annotation"))
                ctx.check(untyped or assignable(st, t, lambda r: ("parameters", "type_annotation") in paths_in(r, node)), "type", "Parameter.default_value",
                          "a default value is accepted without being assignable to the parameter's type", cmd.where)
        for a, v in st.facts.items():
            if a[0] == "truth" and v is False and a[1][0] == "call" and a[1][1][0] == "attr" and a[1][1][2] == "define":
                ctx.bad("duplicate", "parameter", "a duplicate parameter is not reported", cmd.where)
    mod = p.func(base + "_check_module")
    mnode = ("param", mod.params[1])
    seenm = {}

    def on_mod(ev, st, eng):
        if ev.kind == "call" and ev.term[1][0] == "attr":
            for x in ev.term[2]:
                r = path_of(x, mnode)
                if r:
                    u = st.user or frozenset()
                    st.user = u | {(ev.term[1][2], r)}
    regs = ("_register_native_block", "_register_native_function", "_register_command", "_check_command", "_check_recursion")
    outs, _ = ctx.walk(mod, Pol(inline=lambda eng, f, d: f.module.name in (CHECKER, AST) and f.name not in regs, on_event=on_mod, max_states=300),
                       types={mnode: p.cls(AST + ".Module")})
    for o in outs:
        if o.kind != "return":
            continue
        u = o.state.user or frozenset()
        for need, path in (("_register_command", ("functions",)), ("_check_command", ("functions",)), ("_register_native_block", ("native_blocks",))):
            ctx.check((need, path) in u or (need, ("commands",)) in u or absent(o.state, mnode, path) or absent(o.state, mnode, ("commands",)), "module", need,
                      "%s is not applied to every element of %s" % (need, path[0]), mod.where)
    for reg in ("_register_command", "_register_native_block"):
        f = p.func(base + reg)
        outs, _ = ctx.walk(f, Pol(inline=inl, on_event=on_cmd, max_states=100))
        for o in outs:
            seen, err = o.state.user or (frozenset(), 0)
            for a, v in o.state.facts.items():
                if a[0] == "truth" and v is False and a[1][0] == "call" and a[1][1][0] == "attr" and a[1][1][2] == "define":
                    ctx.check(bool(err), "duplicate", reg, "a duplicate definition is not reported", f.where)
        defs = [c for c in own_calls(f.node) if isinstance(c.func, ast.Attribute) and c.func.attr == "define"]
        ctx.check(bool(defs), "defines", reg, "the definition is not entered in the symbol table", f.where)
    # severity matches the code family
    m = p.mod(CHECKER)
    n = 0
    for f in p.all_funcs(m):
        for c in own_calls(f.node):
            if isinstance(c.func, ast.Attribute) and c.func.attr in ("_error", "_warning"):
                for a in list(c.args) + [k.value for k in c.keywords]:
                    if isinstance(a, ast.Constant) and isinstance(a.value, str) and len(a.value) == 4 and a.value[1:].isdigit():
                        n += 1
                        ctx.check((a.value[0] == "E") == (c.func.attr == "_error"), "severity", a.value,
                                  "diagnostic %s is reported with the wrong severity" % a.value, "%s:%d" % (m.rel, c.lineno))
    ctx.floor("diagnostic report sites", n, 40)


def cover(ctx, w, fi, paths, name):
    n = 0
    for o in w.outs:
        if o.kind != "return" or early(o.state):
            continue
        seen, err = o.state.user or (frozenset(), 0)
        if err:
            continue
        n += 1
        got = {}
        for t in seen:
            for x in t[2]:
                got.setdefault(path_of(x, w.node), []).append(t)
        for k in paths:
            ctx.check(k in got and whole(got[k], w.node, k) or absent(o.state, w.node, k), "visits", "%s.%s" % (name, ".".join(k)),
                      "%s is not checked on a path that reports no error (%s)" % (".".join(k), facts_str(o.state)), fi.where)
    ctx.floor("clean paths through %s" % name, n, 1)


def facts_str(st):
    return "; ".join(("" if v else "not ") + show(a, 4) for a, v in st.facts.items() if a[0] not in ("exact", "touched", "grown"))[:240]


def impossible(st):
    """A check returned no type at all."""
    return any(a[0] == "eq" and v and NONE in a[1:] and any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "_check_expression" for x in a[1:] if isinstance(x, tuple))
               for a, v in st.facts.items())


def not_function(st):
    return any(a[0] == "isinstance" and not v and str(a[2]).endswith("FunctionType')") for a, v in st.facts.items())


def nameless(st, node):
    return any(a[0] == "eq" and v and NONE in a[1:] and ("attr", ("attr", node, "callee"), "name") in a[1:] for a, v in st.facts.items())


def isinst(st, t, cls, val):
    return any(a[0] == "isinstance" and a[1] == t and v == val and str(a[2][-1] if isinstance(a[2], tuple) else a[2]).endswith(cls) for a, v in st.facts.items())


def callee_known(st, node):
    return nameless(st, node) or isinst(st, ("attr", node, "callee"), "Identifier", True)


def any_negative_of_error(st):
    return False


def looked_up(st, node, path):
    for a, v in st.facts.items():
        xs = [x for x in a[1:] if isinstance(x, tuple) and path in paths_in(x, node)]
        if not xs:
            continue
        if a[0] == "eq" and NONE in a[1:] and v is False and any(y[0] == "call" for x in xs for y in subterms(x)):
            return True
        if a[0] in ("truth", "in") and v and any(y[0] == "call" for x in xs for y in subterms(x)):
            return True
    return False


def builtin_path(st, node):
    for a, v in st.facts.items():
        if a[0] == "eq" and NONE in a[1:] and v is False and any(x[0] == "call" and iscall(x, ".lookup_builtin") for x in a[1:] if isinstance(x, tuple)):
            # taken only when the name is not user-defined
            for b, u in st.facts.items():
                if b[0] == "in" and u and any(y[0] == "enum" for x in b[1:] for y in subterms(x)):
                    return False
            return True
    return False


def counted(st, node):
    """The path knows that there are at least as many positional arguments as required parameters."""
    def is_args(x):
        return x[0] == "call" and iscall(x, "len") and bool(x[2]) and ("arguments",) in paths_in(x[2][0], node)

    def is_req(x):
        return not is_args(x) and any(y[0] == "comp" or y[0] == "call" and iscall(y, ".lookup_builtin") for y in subterms(x))
    for a, v in st.facts.items():
        if a[0] in ("lt", "le"):
            if is_args(a[1]) and is_req(a[2]) and v is False:
                return True
            if is_req(a[1]) and is_args(a[2]) and v is True:
                return True
    return False


def named_known(st, node):
    for a, v in st.facts.items():
        if a[0] == "in" and v and ("named_arguments",) in paths_in(a[1], node):
            return True
    return False


def typed_args(st, node, name):
    """The callee's parameter types are known on this path."""
    if name == "MethodCall":
        return True
    for a, v in st.facts.items():
        if a[0] == "isinstance" and v and str(a[2]).endswith("FunctionType')"):
            return True
    return builtin_path(st, node)


def elems(t):
    return {x for x in subterms(t) if x[0] == "elem"}


def arg_ok(st, t):
    el = set()
    for x in t[2]:
        el |= elems(x)
    if assignable(st, t, lambda r: bool(elems(r) & el)) or is_error_type(st, t):
        return True
    for a, v in st.facts.items():
        # beyond the declared parameters
        if a[0] in ("lt", "le") and v is (a[0] == "le") and False:
            return True
        if a[0] == "lt" and v is False and any(elems(x) & el for x in a[1:] if isinstance(x, tuple)) and any(iscall(y, "len") for x in a[1:] for y in subterms(x) if y[0] == "call"):
            return True
        if a[0] == "le" and v is True and any(elems(x) & el for x in a[1:] if isinstance(x, tuple)) and any(iscall(y, "len") for x in a[1:] for y in subterms(x) if y[0] == "call"):
            return True
        if a[0] == "eq" and v and any(gname(x) == "UNKNOWN" for x in a[1:]) and any(elems(x) & el for x in a[1:] if isinstance(x, tuple)):
            return True
    return False
