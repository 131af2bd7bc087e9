"""L02: a value that carries a parameter's, field's or result's name is bound to it and not exchanged with another."""
import ast

from ..project import ClassInfo, FuncInfo
from ..refs import chain, own_nodes

PROP = dict(
    id="L02", title="Same-named values are never exchanged between caller and callee",
    statement="When yapCAD's code passes variables, attributes or unwrapped values to one of its own functions, constructors or records, positionally or by keyword, a value that carries the name (or a word of the name) of one of the target's parameters is not bound to another parameter while the parameter of that name is given this parameter's namesake (positionally) or any value (by keyword). Results returned as a tuple of named values are unpacked in the order in which they are returned.",
    over=["programs"], text="every call of a yapCAD function or constructor and every unpacking of its results, in every module",
    why="Exchanged arguments of the same type run without error and give plausible geometry, metadata or results; a test notices only if it uses different values for both and checks the dimension in question.",
    files=["src/yapcad", "service"],
    mech=[("all modules", "src/yapcad/**/*.py, service/**/*.py")],
    observe=["a call whose arguments are permuted against the parameter names of its target"],
    technique="name-correspondence analysis of every resolved call site and result unpacking against the target's signature",
    note="Decides exchanges among values that carry the names of parameters or results; names of one or two letters and numbered names (p0, p1) are not judged.",
)
EXPLAIN = ("For every call site whose target resolves, the names of the argument expressions or the words in them (also of x.data, self.x, float(x), x[...] wrappers of records) are compared with the target's parameters: two arguments that carry each other's parameter name, or a keyword bound to a value that has the "
           "name of another parameter which in turn gets something else, are violations; likewise tuple results whose element names are unpacked into the same names in another order.")
ASSUME = ["a local variable, attribute or parameter that has the name of a parameter of the called function holds the value meant for it"]

WRAP = {"float", "int", "str", "bool", "list", "tuple", "Path", "deepcopy", "dict", "set", "abs"}


def nm(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return nm(e.value) if e.attr in ("data", "value") and not (isinstance(e.value, ast.Name) and e.value.id in ("self", "cls")) else e.attr
    if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords:
        f = e.func
        if (f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None) in WRAP:
            return nm(e.args[0])
    return None


def telling(a):
    return a is not None and len(a.strip("_")) > 2 and not a[-1].isdigit()


def static(fi):
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fi.node.decorator_list)


def target(p, fi, mod, c):
    """(parameter names that positional arguments meet in order, all parameter names, title)"""
    f = c.func
    t = chain(p, fi, mod, f)
    bound = False
    if t is None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
        g = fi
        while g is not None and g.cls is None:
            g = g.outer
        if g is not None:
            t = p.member(g.cls, f.attr)
            bound = True
    if isinstance(t, ClassInfo):
        init = p.member(t, "__init__")
        if isinstance(init, FuncInfo):
            t, bound = init, True
        elif t.is_dataclass:
            fields = []
            for k in reversed(p.mro(t)):
                if isinstance(k, ClassInfo):
                    fields += [x for x in k.fields if x not in fields]
            return fields, fields, t.qual
        else:
            return None
    if not isinstance(t, FuncInfo):
        return None
    ps = [a.arg for a in t.node.args.posonlyargs + t.node.args.args]
    if t.cls is not None and ps and not static(t):
        cm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in t.node.decorator_list)
        if bound or cm:
            ps = ps[1:]
    return ps, ps + [a.arg for a in t.node.args.kwonlyargs], t.qual


def exchanged(ps, allp, c):
    """Argument pairs bound crosswise."""
    got = {}
    for q, a in zip(ps, c.args):
        if isinstance(a, ast.Starred):
            return
        got[q] = nm(a)
    for k in c.keywords:
        if k.arg:
            got[k.arg] = nm(k.value)
    kws = {k.arg for k in c.keywords}
    for q, a in got.items():
        if not telling(a) or a == q or a not in allp:
            continue
        if q in kws and a in got:
            yield tuple(sorted((q, a)))     # q=a although a parameter a is passed as well
            continue
        b = got.get(a)          # what the parameter of that name gets
        if a not in got or b == a or b is None:
            continue
        # a closed exchange among parameters of the target: follow the names until they return to q
        seen, cur = [q], a
        while cur in got and cur not in seen and telling(cur):
            seen.append(cur)
            cur = got[cur]
        if cur == q and len(seen) > 1:
            yield tuple(sorted(seen))


def toks(n):
    return {t for t in (n or "").lower().split("_") if len(t) > 2}


def akin(ps, c):
    """Argument pairs that share words with each other's parameter and none with their own."""
    got = []
    for q, a in zip(ps, c.args):
        if isinstance(a, ast.Starred):
            return
        got.append((q, toks(q), toks(nm(a))))
    got += [(k.arg, toks(k.arg), toks(nm(k.value))) for k in c.keywords if k.arg]
    for i, (q, Q, A) in enumerate(got):
        for r, R, B in got[i + 1:]:
            if A & R and B & Q and not A & Q and not B & R:
                yield tuple(sorted((q, r)))


def returned_names(fi):
    """Name tuples a function returns, if every tuple return gives the same names."""
    out = None
    for n in own_nodes(fi.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            t = tuple(nm(x) if not isinstance(x, ast.Starred) else None for x in n.value.elts)
            if out is not None and len(out) != len(t):
                return None
            out = t if out is None else tuple(x if x == y else None for x, y in zip(out, t))
    return out


def crossed(ret, tgt):
    """Pairs of positions whose names are exchanged between returned and unpacked tuple."""
    for i, a in enumerate(ret):
        for j in range(i + 1, len(ret)):
            b = ret[j]
            if telling(a) and telling(b) and a != b and tgt[i] == b and tgt[j] == a:
                yield tuple(sorted((a, b)))


def analyse(p):
    calls = unpacks = 0
    bad, ok = [], {}
    for mod in list(p.modules.values()):
        for fi in list(p.all_funcs(mod)):
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Call):
                    t = target(p, fi, mod, n)
                    if t is None:
                        continue
                    calls += 1
                    hits = set(exchanged(t[0], t[1], n)) | set(akin(t[0], n))
                    for h in hits:
                        bad.append((fi, n, "arguments", t[2], h))
                    if not hits:
                        ok[fi] = ok.get(fi, 0) + 1
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call):
                    g = chain(p, fi, mod, n.value.func)
                    if g is None and isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == "self":
                        h = fi
                        while h is not None and h.cls is None:
                            h = h.outer
                        g = p.member(h.cls, n.value.func.attr) if h is not None else None
                    if not isinstance(g, FuncInfo):
                        continue
                    ret = returned_names(g)
                    el = n.targets[0].elts
                    if ret is None or len(ret) != len(el):
                        continue
                    unpacks += 1
                    for h in set(crossed(ret, [nm(x) for x in el])):
                        bad.append((fi, n, "results", g.qual, h))
    return calls, unpacks, bad, ok


def run(ctx):
    p = ctx.p
    src = "def f(width, height, depth=1):\n    return width, height\ndef g(width, height):\n    f(height, width)\n    f(width, height)\n    f(height=width, width=height)\n    height, width = f(1, 2)\n    f(width, width)\n    f(width=width, height=width)\n"
    t = ast.parse(src)
    cs = [n for n in ast.walk(t.body[1]) if isinstance(n, ast.Call)]
    ps = ["width", "height", "depth"]
    hit = [bool(list(exchanged(ps, ps, c))) for c in cs]
    want = [ast.unparse(c) in ("f(height, width)", "f(height=width, width=height)", "f(width=width, height=width)") for c in cs]
    ctx.selftest("exchanged arguments are found, others not", hit == want)
    ctx.selftest("exchanged arguments of kindred names are found", [bool(list(akin(["bottom_width", "top_width"], n))) for n in (ast.parse(x, mode="eval").body for x in ("f(top_w, bottom_w)", "f(bottom_w, top_w)", "f(bottom_w, bottom_w)"))] == [True, False, False])
    ctx.selftest("exchanged results are found", list(crossed(("width", "height"), ("height", "width"))) == [("height", "width")] and not list(crossed(("width", "height"), ("width", "height"))))
    calls, unpacks, bad, ok = analyse(p)
    for fi, n, kind, tq, h in bad:
        ctx.bad("exchanged-" + kind, "%s::%s:%s" % (fi.qual, tq.split(".")[-1], ",".join(h)), "%s %s %s with %s exchanged" % (fi.qual, "calls" if kind == "arguments" else "unpacks the results of", tq, " and ".join(h)), "%s:%d" % (fi.module.rel, n.lineno))
    for fi, k in ok.items():
        ctx.ok("exchanged-arguments", fi.qual, "%d calls" % k)
    ctx.floor("resolved calls", calls, 4000)
    ctx.floor("result unpackings", unpacks, 60)
