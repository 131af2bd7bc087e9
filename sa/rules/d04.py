"""D04: execution evaluates the selected parts of a construct, all of them, in order."""
import ast

from ..dsl import *
from ..flow import show

PROP = dict(
    id="D04", title="Executing a construct evaluates exactly its selected parts in order",
    statement="For every statement and expression form, execution evaluates its operands, arguments, elements and conditions in source order and each exactly when the language selects it: only the taken branch of if, elif, conditional and match forms, the right operand of and/or only when the left one does not decide, a comprehension's element only when all its conditions hold, every statement of a body including a trailing expression, and nothing of a command after emit or return was reached. The value bound by a declaration, loop, emit or return is the value of its own expression.",
    over=["inputs"], text="all programs and parameter values",
    why="A branch taken wrongly, a skipped trailing statement or a re-evaluated operand shows only for particular nestings and values; the tests run a handful of programs.",
    files=["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/context.py", "src/yapcad/dsl/ast.py"],
    mech=[("statement execution", "src/yapcad/dsl/runtime/interpreter.py: Interpreter statement dispatch"),
          ("expression evaluation", "src/yapcad/dsl/runtime/interpreter.py: Interpreter expression dispatch")],
    observe=["the emitted value", "require failures", "errors raised by operands that must not run"],
    technique="path-sensitive effect-trace dataflow per AST node class (evaluation events on every path against the language's order)",
    note="The interpreter's dispatchers are walked once per node class; the sequence of evaluations on each path is compared with the order and selection the language prescribes under the truth facts of that path.",
)
EXPLAIN = ("For each AST node class the parser constructs, the interpreter's dispatcher is walked with a node of exactly that class and helper "
           "functions inlined. Each evaluation of a child is an event carrying the child's field path. The event sequence of every normal path is "
           "parsed by the construct's evaluation grammar under the truth facts of the path; children left out must be known absent.")
ASSUME = ["Value.is_truthy is the language's truth test", "loops are followed for two iterations"]


def ordered(t, node):
    """The child is taken from its collection in source order and as a whole."""
    for y in subterms(t):
        if y[0] == "call" and y[1][0] == "ext" and y[1][1] in ("reversed", "sorted", "set", "frozenset") and path_of(y, node) is not None:
            return False
        if y[0] == "item" and y[2][0] == "slice" and path_of(y, node) and (y[2][1] not in (NONE, C(0)) or y[2][2] != NONE or y[2][3] not in (NONE, C(1))):
            return False
    return True


class Bad(Exception):
    pass


class Tr:
    """Cursor over the evaluation events of one path."""

    def __init__(self, p, out, node):
        self.st, self.node, self.ev, self.i = out.state, node, list(out.state.user or ()), 0
        self.value = out.value

    def peek(self):
        return self.ev[self.i][0] if self.i < len(self.ev) else None

    def take(self, *path):
        if self.peek() != path:
            raise Bad("expected %s to be evaluated, found %s" % (".".join(path), ".".join(self.peek() or ("nothing",))))
        self.i += 1
        return self.ev[self.i - 1][1]

    def has(self, *path):
        return self.peek() == path

    def absent(self, *path):
        return absent(self.st, self.node, path)

    def end(self):
        if self.i < len(self.ev):
            raise Bad("%s is evaluated although it is not selected" % ".".join(self.peek()))

    def truth(self, t):
        for a, v in self.st.facts.items():
            if a[0] == "truth" and any(x == t for x in subterms(a[1])):
                return v if not any(x[0] == "not" for x in subterms(a[1])) else not v
            if a[0] == "eq" and any(x == t for y in a[1:] for x in subterms(y)) and any(y in (TRUE, FALSE) for y in a[1:]):
                return v == (TRUE in a[1:])
        return None

    def need_truth(self, t):
        v = self.truth(t)
        if v is None:
            raise Bad("what follows does not depend on the condition's value")
        return v

    def returned(self):
        return any(a[0] == "truth" and v and a[1][0] == "attr" and a[1][2] in ("should_return", "_should_return") for a, v in self.st.facts.items())

    def star(self, *path):
        n = 0
        while self.has(*path):
            self.i += 1
            n += 1
        return n

    def many(self, *path):
        """All elements of a collection (or of the literal found there), in order."""
        n = 0
        while (self.peek() or ())[:len(path)] == path:
            self.i += 1
            n += 1
        if not n and not self.absent(*path) and not self.absent(*path, "entries"):
            raise Bad("the elements of %s are not evaluated" % ".".join(path))

    def body(self, *path, elem=None):
        s, f = path + ("statements",), path + ("final_expression",)
        k = self.i
        n = 0
        while self.has(*s):
            self.i += 1
            n += 1
        fin = self.star(*f)
        if fin > 1:
            raise Bad("the trailing expression of a body is evaluated twice")
        if not n and not self.absent(*s) and not self.absent(*path):
            raise Bad("the statements of %s are not executed" % ".".join(path))
        if not fin and not self.absent(*f) and not self.absent(*path) and not self.returned():
            raise Bad("the trailing expression of %s is not executed" % ".".join(path))
        if elem is not None:
            for e in self.ev[k:self.i]:
                if not (elems(e[1]) & elem):
                    raise Bad("the body executed is not the one whose condition held")


def elems(t):
    return {x for x in subterms(t) if x[0] == "elem"}


def branches(t, then, els):
    if t.need_truth(t.take("condition")):
        t.body(*then)
        return
    if not t.has("elif_branches", "condition") and not t.absent("elif_branches"):
        raise Bad("elif branches are not tried")
    while t.has("elif_branches", "condition"):
        c = t.take("elif_branches", "condition")
        e = {x for x in elems(c) if path_of(x, t.node) == ("elif_branches",)}
        if t.need_truth(c):
            t.body("elif_branches", "body", elem=e)
            return
    t.body(*els)


def spec_for(t):
    t.take("iterable")
    while t.has("body", "statements") or t.has("body", "final_expression"):
        s = t.star("body", "statements")
        f = t.star("body", "final_expression") if s or t.has("body", "final_expression") else 0
    ran = len(t.ev) > 1
    if not ran and not t.absent("body", "statements") and not any(
            a[0] == "truth" and not v and any(x == t.ev[0][1] for x in subterms(a[1])) for a, v in t.st.facts.items()):
        raise Bad("the loop body is not executed")
    if ran and t.ev[-1][0] == ("body", "statements") and not t.absent("body", "final_expression") and not t.returned():
        raise Bad("the trailing expression of the loop body is not executed")


def spec_logic(op):
    def f(t):
        left = t.take("left")
        v = t.truth(left)
        if v is None:
            raise Bad("the right operand does not depend on the left one")
        decides = (v is False) if op == "AND" else (v is True)
        if not decides:
            t.take("right")
    return f


def spec_assert(t):
    c = t.take("condition")
    if t.has("message"):
        if t.truth(c) is not False:
            raise Bad("the message is evaluated although the condition holds")
        t.take("message")


def spec_match(t):
    t.take("subject")
    if t.has("arms", "body"):
        t.take("arms", "body")
    else:
        raise Bad("no arm is evaluated on a normal exit")


def spec_comp(t):
    holds = True
    while t.peek() is not None:
        if t.has("element_expr"):
            t.take("element_expr")
            if not holds:
                raise Bad("the element is evaluated although a condition is false")
        elif t.has("bind"):
            t.take("bind")
            holds = True
        elif t.has("clauses", "iterable"):
            t.take("clauses", "iterable")
        else:
            c = t.take("clauses", "conditions")
            if t.need_truth(c) is False:
                holds = False


def seq(*steps):
    def f(t):
        for s in steps:
            if s[0] == "*":
                t.many(*s[1:])
            elif s[0] == "?":
                if t.has(*s[1:]):
                    t.take(*s[1:])
                elif not t.absent(*s[1:]):
                    raise Bad("%s is not evaluated" % ".".join(s[1:]))
            else:
                t.take(*s)
    return f


SPEC = {
    "ExpressionStatement": seq(("expression",)),
    "VarDecl": seq(("?", "initializer")),
    "AssignmentStatement": seq(("value",)),
    "AssertStatement": spec_assert,
    "EmitStatement": seq(("value",), ("*", "metadata")),
    "ForStatement": spec_for,
    "IfStatement": lambda t: branches(t, ("then_branch",), ("else_branch",)),
    "ReturnStatement": seq(("?", "value")),
    "PassStatement": seq(),
    "ConditionalExpr": lambda t: t.take("true_branch" if t.need_truth(t.take("condition")) else "false_branch"),
    "IfExpr": lambda t: branches(t, ("then_branch",), ("else_branch",)),
    "UnaryOp": seq(("operand",)),
    "MemberAccess": seq(("object",)),
    "IndexAccess": seq(("object",), ("index",)),
    "ListLiteral": seq(("*", "elements")),
    "DictLiteral": seq(("*", "entries")),
    "RangeExpr": seq(("start",), ("end",)),
    "MethodCall": seq(("object",), ("*", "arguments")),
    "FunctionCall": seq(("*", "arguments"), ("*", "named_arguments")),
    "MatchExpr": spec_match,
    "ListComprehension": spec_comp,
}
PY = {"PythonBlock", "PythonExpr"}


def run(ctx):
    p = ctx.p
    ev_, ex = evaluators(p)
    con = constructed(p, PARSER)
    n_cls = n_paths = 0
    for kind, fi in (("Statement", ex), ("Expression", ev_)):
        node = ("param", fi.params[1])
        for cls in node_classes(p, kind):
            if cls.qual not in con or cls.name in PY or cls.name == "LambdaExpr":
                continue
            name = cls.name
            variants = [None]
            if name == "BinaryOp":
                variants = ["PLUS", "LT", "EQ", "AND", "OR"] if not ctx.thorough else \
                    ["PLUS", "MINUS", "STAR", "SLASH", "PERCENT", "DOUBLE_SLASH", "DOUBLE_STAR", "LT", "GT", "LE", "GE", "EQ", "NE", "AND", "OR"]
            n_cls += 1
            for var in variants:
                def on_event(ev, st, eng):
                    if ev.kind != "call":
                        return
                    if name == "ListComprehension" and ev.term[1][0] == "attr":
                        if ev.term[1][2] == "set_variable":
                            st.user = (st.user or ()) + ((("bind",), ev.term),)
                        elif not is_eval(ev.term) and eng.fn_info(ev.term[1]) is not None:
                            # a recursive call evaluates the rest: the element and the inner clauses
                            if any(path_of(x, node) == ("element_expr",) for x in ev.term[2]):
                                st.user = (st.user or ()) + ((("element_expr",), ev.term),)
                    if is_eval(ev.term):
                        ps = [path_of(x, node) for x in ev.term[2]]
                        ps = [x for x in ps if x]
                        st.user = (st.user or ()) + ((ps[0] if ps else ("?",), ev.term),)
                        if ev.term[1][2] == "_execute_statement":
                            # whether the command returned has to be asked again after each statement
                            st.facts = {a: b for a, b in st.facts.items() if not (a[0] == "truth" and a[1][0] == "attr" and a[1][2] in ("should_return", "_should_return"))}
                        for x in ev.term[2]:
                            if path_of(x, node) and not ordered(x, node):
                                ctx.bad("order", name, "%s is not taken in source order or not completely" % ".".join(path_of(x, node)), ev.where)
                pol = dict(fact_key=lambda a: a[0] != "touched" and not mentions_native(a), max_states=400, comp_skip=True, loop_iters=1 if name in ("FunctionCall",) else 2)
                facts = {("exact", node, ("class", cls.qual)): True}
                if var:
                    facts[("eq", ("attr", node, "operator"), ("enum", "yapcad.dsl.tokens.TokenType", var))] = True
                own = fi.module.name
                stop = ("_evaluate", "_execute_statement", "_call_command", "_call_native_function", "_bind_named_arguments", "_pattern_matches")

                def inl(eng, f, depth):
                    return f.module.name == own and f.name not in stop
                outs, _ = ctx.walk(fi, Pol(inline=inl, on_event=on_event, call_hook=erase_ctx, **pol), facts=facts, types={node: cls})
                label = name + ("." + var if var else "")
                spec = SPEC.get(name)
                if name == "BinaryOp":
                    spec = spec_logic(var) if var in ("AND", "OR") else seq(("left",), ("right",))
                if name in ("Identifier", "Literal"):
                    spec = seq()
                if spec is None:
                    spec = seq(*[("?",) + k for k in children(p, cls)])
                normal = 0
                for o in outs:
                    if o.kind != "return":
                        continue
                    normal += 1
                    n_paths += 1
                    t = Tr(p, o, node)
                    try:
                        spec(t)
                        t.end()
                        ctx.ok("trace", label, fi.where)
                    except Bad as b:
                        ctx.bad("trace", label, "%s (path: %s)" % (b, facts_str(o.state)), fi.where)
                ctx.check(normal > 0, "runs", label, "the construct can never execute successfully", fi.where)
    ctx.floor("node classes", n_cls, 23)
    ctx.floor("paths compared", n_paths, 150)
    values(ctx, p, ex, ev_)
    bodies(ctx, p)


def mentions_native(a):
    return any(x[0] == "attr" and x[2] == "native_functions" for y in a[1:] if isinstance(y, tuple) for x in subterms(y))


def bodies(ctx, p):
    """Wherever statements are executed one after another, a signalled return is looked at in between."""
    m = p.mod(INTERP)
    n = 0
    for f in p.all_funcs(m):
        if not any(isinstance(c.func, ast.Attribute) and c.func.attr in ("_execute_statement", "_execute_body") for c in own_calls(f.node)):
            continue
        if f.name == "_execute_statement":
            continue
        n += 1

        def on_event(ev, st, eng):
            if ev.kind == "call" and is_eval(ev.term):
                if st.user == "pending":
                    known = any(a[0] == "truth" and not v and a[1][0] == "attr" and a[1][2] in ("should_return", "_should_return") for a, v in st.facts.items())
                    ctx.check(known, "stops", f.name, "code is executed after a statement without knowing that the command did not emit or return", ev.where)
                if ev.term[1][2] == "_execute_statement":
                    st.user = "pending"
                    st.facts = {a: b for a, b in st.facts.items() if not (a[0] == "truth" and a[1][0] == "attr" and a[1][2] in ("should_return", "_should_return"))}
        inl = lambda eng, fi, d: fi.module is m and fi.name not in ("_evaluate", "_execute_statement", "_wrap_parameters", "_execute_native_block")
        ctx.walk(f, Pol(inline=inl, on_event=on_event, call_hook=erase_ctx, loop_iters=2, max_states=80,
                        fact_key=lambda a: a[0] == "truth" and a[1][0] == "attr" and a[1][2] in ("should_return", "_should_return")))
    ctx.floor("functions executing statements", n, 3)
    # emit and return signal
    for cname, what in (("EmitStatement", "emit"), ("ReturnStatement", "return")):
        ev_, ex = evaluators(p)
        cls = p.cls(AST + "." + cname)

        def on_event(ev, st, eng):
            if ev.kind == "store" and ev.args[0] in ("_should_return", "should_return") and ev.args[1] == TRUE:
                st.user = True
        node = ("param", ex.params[1])
        inl = lambda eng, f, d: f.module.name in (INTERP, CONTEXT) and f.name not in ("_evaluate", "_execute_statement")
        types = {node: cls, ("param", ex.params[2]): p.cls(CONTEXT + ".ExecutionContext")}
        outs, _ = ctx.walk(ex, Pol(inline=inl, on_event=on_event), facts={("exact", node, ("class", cls.qual)): True}, types=types)
        for o in outs:
            if o.kind == "return":
                ctx.check(bool(o.state.user), "signals", what, "%s finishes without ending the command" % what, ex.where)
    sr = p.func(CONTEXT + ".ExecutionContext.should_return")
    outs, _ = ctx.walk(sr, Pol())
    for o in outs:
        ctx.check(o.kind == "return" and o.value is not None and o.value in (("attr", ("param", "self"), "_should_return"), ) or
                  o.value is not None and any(x[0] == "attr" and x[2] == "_should_return" for x in subterms(o.value)) and o.value[0] in ("call", "attr"),
                  "signals", "should_return", "the signalled return is not what is asked", sr.where)


def values(ctx, p, ex, ev_):
    """What gets bound is the value of the construct's own expression."""
    own = {INTERP}
    stop = ("_evaluate", "_execute_statement", "_call_command", "_call_native_function", "_bind_named_arguments")

    def walk(fi, cname, on_event):
        cls = p.cls(AST + "." + cname)
        node = ("param", fi.params[1])
        inl = lambda eng, f, d: f.module.name in own and f.name not in stop
        outs, _ = ctx.walk(fi, Pol(inline=inl, on_event=on_event, call_hook=erase_ctx, max_states=200, loop_iters=1),
                           facts={("exact", node, ("class", cls.qual)): True}, types={node: cls})
        return node, outs

    def ev_of(t, node, path):
        return [x for x in subterms(t) if is_eval(x) and any(path_of(y, node) == path for y in x[2])]

    def bound(fi, cname, meth, name_path, val_path, name_arg=0, val_arg=1):
        node = ("param", fi.params[1])
        got = []

        def on_event(ev, st, eng):
            if ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] == meth:
                a = ev.term[2]
                good = True
                if name_path is not None:
                    good = len(a) > name_arg and path_of(a[name_arg], node) == name_path
                v = a[val_arg] if len(a) > val_arg else None
                good = good and v is not None and bool(ev_of(v, node, val_path))
                if good and v is not None and cname in ("ForStatement", "ListComprehension"):
                    good = any(x[0] == "elem" and plain_seq(x[1], node, val_path) for x in subterms(v))
                if good and v is not None:
                    others = [x for x in subterms(v) if is_eval(x) and not any(path_of(y, node) == val_path for y in x[2])]
                    good = not others
                got.append(1)
                st.user = True
                ctx.check(good, "binds", "%s.%s" % (cname, meth), "%s does not bind the value of %s: %s" % (meth, ".".join(val_path), show(ev.term, 4)), ev.where)
        node, outs = walk(fi, cname, on_event)
        for o in outs:
            if o.kind == "return" and not (absent(o.state, node, val_path)):
                ctx.check(bool(o.state.user) or cname in ("ForStatement", "ListComprehension"), "binds", "%s.%s" % (cname, meth),
                          "%s finishes without %s" % (cname, meth), fi.where)
        ctx.floor("%s in %s" % (meth, cname), len(got), 1)
    bound(ex, "VarDecl", "set_variable", ("name",), ("initializer",))
    bound(ex, "AssignmentStatement", "update_variable", ("target", "name"), ("value",))
    bound(ex, "ForStatement", "set_variable", ("variable",), ("iterable",))
    bound(ex, "EmitStatement", "set_emit", None, ("value",), 0, 0)
    bound(ev_, "ListComprehension", "set_variable", ("clauses", "variable"), ("clauses", "iterable"))
    # the arm evaluated is the one that matched
    arms = []

    def on_arm(ev, st, eng):
        if ev.kind != "call" or not is_eval(ev.term):
            return
        for x in ev.term[2]:
            if path_of(x, arm_node) == ("arms", "body") and x[0] == "attr":
                arms.append(1)
                ok = any(a[0] == "truth" and v and any(y[0] == "attr" and y[1] == x[1] and path_of(y, arm_node) == ("arms", "pattern") for y in subterms(a[1])) or
                         a[0] in ("isinstance", "exact") and v and ("attr", x[1], "pattern") == a[1] for a, v in st.facts.items())
                ctx.check(ok, "binds", "MatchExpr", "the arm evaluated is not the arm whose pattern matched", ev.where)
    arm_node = ("param", ev_.params[1])
    walk(ev_, "MatchExpr", on_arm)
    ctx.floor("match arms evaluated", len(arms), 1)
    # results of pass-through forms
    for cname, paths in (("ConditionalExpr", {("true_branch",), ("false_branch",)}), ("MatchExpr", {("arms", "body")})):
        node, outs = walk(ev_, cname, None)
        for o in outs:
            if o.kind == "return":
                v = o.value
                ctx.check(v is not None and is_eval(v) and any(path_of(y, node) in paths for y in v[2]), "result", cname,
                          "the result is not the value of the selected branch", ev_.where)
    node, outs = walk(ev_, "ListLiteral", None)
    for o in outs:
        if o.kind == "return" and not absent(o.state, node, ("elements",)):
            ctx.check(bool(ev_of(o.value, node, ("elements",))), "result", "ListLiteral", "the list does not contain the values of its elements", ev_.where)


def plain_seq(t, node, path):
    """The collection iterated is the value evaluated from `path`, in its own order and complete."""
    if t[0] == "attr" and t[2] == "data":
        return is_eval(t[1]) and any(path_of(y, node) == path for y in t[1][2])
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "tuple", "iter", "enumerate") and t[2]:
        return plain_seq(t[2][0], node, path)
    if t[0] == "phi":
        return all(plain_seq(x, node, path) for x in t[1])
    return False


def facts_str(st):
    return "; ".join(("" if v else "not ") + show(a, 4) for a, v in st.facts.items() if a[0] not in ("exact", "touched", "grown"))[:240]
