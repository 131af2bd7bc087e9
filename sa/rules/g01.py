"""G01: what is written by a to_dict/serialize function is what its reader brings back."""
import ast
import re

from ..flow import C, FALSE, NONE, TRUE
from ..lib import *
from ..refs import own_nodes

PROP = dict(
    id="G01", title="What is written to a dictionary or JSON is read back the same",
    statement="Every object that can be written to a dictionary (or JSON document) and read back comes back with every one of its values: each constructor field of provenance records, collision results, load cases, bolt patterns, mates, viewer configurations, kinematic parts, frames, joints, transforms and chains, and every slot of native BREP vertices, edges, trims, loops, faces, shells, solids and analytic surfaces. A value may be left out of the document only when it equals what the reader puts in its place. No document the writer can produce makes the reader fail.",
    over=["inputs"], text="all values of all fields, including absent optional ones",
    why="A round-trip test compares the few fields it sets; a field that a writer forgets, a key spelled differently on either side, or a value read with another field's key shows only with values that differ from the default.",
    files=["src/yapcad/dsl/runtime/provenance.py", "src/yapcad/collision/result.py", "src/yapcad/assembly/load_case.py", "src/yapcad/assembly/mate.py", "src/yapcad/viewer/config.py", "src/yapcad/kinematics/part.py", "src/yapcad/kinematics/chain.py",
           "src/yapcad/kinematics/frame.py", "src/yapcad/kinematics/joint.py", "src/yapcad/kinematics/transform.py", "src/yapcad/native_brep.py", "src/yapcad/analytic_surfaces.py", "src/yapcad/io/geometry_json.py"],
    mech=[("to_dict / from_dict pairs", "the classes listed in files"), ("native topology", "src/yapcad/native_brep.py: _serialize_*, _deserialize_*"), ("geometry JSON", "src/yapcad/io/geometry_json.py")],
    observe=["the fields of the object that from_dict returns for to_dict's result"],
    technique="composition of the writer's and the reader's path summaries (the reader is interpreted on the writer's abstract document) and comparison of every field with its origin",
    note="Conversions between equal representations (list/tuple, float, str) are taken as the identity; JSON's own encoding is assumed.",
)
EXPLAIN = ("For each class with to_dict and from_dict, every returning path of to_dict yields an abstract dictionary over the object's attributes; from_dict is interpreted on it under the path's conditions. Every path of the reader must return a new object whose every public constructor field is, after removing conversions, the attribute of the same name, "
           "or a constant that the path's conditions say the attribute equals. The native BREP records are composed the same way from a record with an opaque value in each slot. Geometry JSON's sketch primitives and surfaces are composed per kind.")
ASSUME = ["list, tuple, float, int, str, bool and numpy.array(x.tolist()) keep the value", "dataclass constructors store each argument in the field of its name"]

IDENT = {"list", "tuple", "float", "int", "str", "bool", "dict", "numpy.array", "numpy.asarray", "copy.deepcopy", "copy.copy", "pathlib.Path", "os.fspath"}
SELF = ("param", "self")
NB = "yapcad.native_brep"
AN = "yapcad.analytic_surfaces"


def call_(t):
    return isinstance(t, tuple) and len(t) >= 4 and t[0] == "call"


class Norm:
    def __init__(self, p, pairs=()):
        self.p = p
        self.ident_fns = set()
        self.pair_fns = dict(pairs)      # reader function -> writer function
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] in ("const", "param", "class", "fn", "ext", "global"):
            return t
        r = self.memo.get(t)
        if r is None:
            r = tuple(self(x) if isinstance(x, tuple) else x for x in t)
            r = self.rule(r)
            self.memo[t] = r
        return r

    def rule(self, t):
        k = t[0]
        if k == "elem" and len(t) == 3:
            x = t[1]
            if x[0] == "comp" and x[1] in ("list", "gen") and len(x[2]) == 1 and not x[4]:
                return x[2][0]
            return ("elem", x, "*")
        if k == "item":
            x, i = t[1], t[2]
            if x[0] == "item" and x[2][0] == "slice" and x[2][1] in (NONE, C(0)) and x[2][3] == NONE and i[0] == "const" and isinstance(i[1], int) and i[1] >= 0:
                return ("item", x[1], i)        # a prefix keeps positions
            if i[0] == "item" and i[2] == C(0) and i[1][0] == "elem" and items_of(i[1][1]) == x:
                return ("item", i[1], C(1))        # d[k] for k, v in d.items()
            if i[0] == "elem" and (i[1] == x or call_(i[1]) and i[1][1] == ("attr", x, "keys")):
                return self(("item", ("elem", ("call", ("attr", x, "items"), (), ()), "*"), C(1)))
            if x[0] == "elem" and items_of(x[1]) is not None and i in (C(0), C(1)):
                d = items_of(x[1])
                if d[0] == "comp" and d[1] == "dict" and not d[4]:
                    return d[2][i[1]]
            if x[0] == "dict" and len(x[1]) == 1 and x[1][0][0][0] == "item" and x[1][0][0][1][0] == "elem" and i[0] == "elem":
                return x[1][0][1]      # every entry of a dictionary filled by one loop has this form
            if x[0] == "class" and i[0] == "attr" and i[2] == "name":
                return self.enum(x[1], i[1], "name") or t
            return t
        if k == "call":
            f, a, kw = t[1], t[2], t[3]
            if f[0] == "ext" and f[1] in IDENT and len(a) >= 1:
                return a[0]
            if f == ("ext", "map") and len(a) == 2 and a[0][0] == "ext" and a[0][1] in IDENT:
                return a[1]
            if f[0] == "fn" and f[1] in self.ident_fns and a:
                return a[0]
            if f[0] == "fn" and f[1] in self.pair_fns and a and call_(a[0]) and a[0][1] == ("fn", self.pair_fns[f[1]]) and a[0][2]:
                return a[0][2][0]
            if f[0] == "attr" and f[2] == "get" and len(a) == 1 and a[0][0] in ("item", "elem"):
                return self(("item", f[1], a[0]))
            if f[0] == "attr" and f[2] in ("tolist", "copy") and not a and not kw:
                return f[1]
            if f[0] == "class" and len(a) == 1 and a[0][0] == "attr" and a[0][2] == "value":
                return self.enum(f[1], a[0][1], "value") or t
            if f[0] == "attr" and f[2] == "from_dict" and f[1][0] == "class" and len(a) == 1 and call_(a[0]) and a[0][1][0] == "attr" and a[0][1][2] == "to_dict":
                return a[0][1][1]
            return t
        if k == "comp":
            if t[4]:
                return t
            if t[1] == "list" and len(t[2]) == 1 and len(t[3]) == 1 and t[2][0] == ("elem", t[3][0], "*"):
                return t[3][0]
            if t[1] == "dict" and len(t[2]) == 2 and len(t[3]) == 1 and items_of(t[3][0]) is not None:
                e = ("elem", t[3][0], "*")
                if t[2] == (("item", e, C(0)), ("item", e, C(1))):
                    d = items_of(t[3][0])
                    return d[3][0][1][1] if d[0] == "comp" and False else d
            return t
        if k in ("list", "tuple") and len(t[1]) >= 2:
            es = t[1]
            if all(e[0] == "item" and e[1] == es[0][1] and e[2] == C(i) for i, e in enumerate(es)):
                return es[0][1]
            if all(e == es[0] and e[0] == "elem" for e in es):
                return es[0][1]
            return t
        if k in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "elem":
            return t[1][0][1]
        if k == "dict" and t[1]:
            ks = {kk for kk, v in t[1]}
            vs = {v for kk, v in t[1]}
            if len(ks) == 1 and len(vs) == 1:
                kk, vv = next(iter(ks)), next(iter(vs))
                if kk[0] == "item" and kk[2] == C(0) and kk[1][0] == "elem" and vv == ("item", kk[1], C(1)) and items_of(kk[1][1]) is not None:
                    return items_of(kk[1][1])
            return t
        return t

    def enum(self, cls, x, how):
        c = self.p.cls(cls)
        if c is not None and any("Enum" in ast.unparse(b) or "Flag" in ast.unparse(b) for b in c.base_nodes):
            return x
        return None


def items_of(t):
    if call_(t) and t[1][0] == "attr" and t[1][2] == "items" and not t[2]:
        return t[1][1]
    return None


def known_const(facts, want, v, strict=False):
    """Do the facts say that the attribute `want` equals the constant (or empty container) v?"""
    empty = v in (("dict", ()), ("list", ()), ("tuple", ()))
    falsy = empty or (v[0] == "const" and not v[1])
    if strict and v == NONE:
        falsy = False      # a false value is not the missing one: it may be 0 or ""
    for f, val in facts.items():
        if f[0] == "eq" and want in f[1:3]:
            other = f[2] if f[1] == want else f[1]
            if val and (other == v):
                return True
        if f[0] == "truth" and f[1] == want:
            if not val and falsy:
                return True
            if val and v == TRUE:
                return True
        if f == want:
            if (not val and falsy) or (val and v == TRUE):
                return True
    return False


def ann_classes(p, module, ann):
    out = []
    if ann is None:
        return out
    text = ast.unparse(ann)
    for name in re.findall(r"[A-Za-z_][A-Za-z_0-9.]*", text):
        c = None
        try:
            c = p.resolve_dotted(module, name)
        except Exception:
            c = None
        if c is not None and type(c).__name__ == "ClassInfo":
            out.append(c)
    return out


def init_fields(p, c):
    """[(name, default expr or None, annotation)] of the constructor's public fields, in order."""
    out = []
    init = p.member(c, "__init__")
    if init is not None and type(init).__name__ == "FuncInfo":
        a = init.node.args
        names = [x for x in a.args[1:]] + list(a.kwonlyargs)
        defs = [None] * (len(a.args) - len(a.defaults)) + list(a.defaults)
        defs = defs[1:] + list(a.kw_defaults)
        return [(x.arg, d, x.annotation) for x, d in zip(names, defs) if not x.arg.startswith("_")]
    for k in reversed(p.mro(c)):
        if getattr(k, "is_dataclass", False):
            for f in k.fields:
                d = k.attrs.get(f)
                if isinstance(d, ast.Call) and any(kw.arg == "init" and isinstance(kw.value, ast.Constant) and kw.value.value is False for kw in d.keywords):
                    continue
                out = [o for o in out if o[0] != f] + [(f, d, k.annotations[f])]
    return [o for o in out if not o[0].startswith("_")]


class Trip:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.norm = Norm(ctx.p)
        self.classes = []
        for m in self.p.modules.values():
            for c in self.p.all_classes(m):
                if self.p.member(c, "to_dict") is not None and self.p.member(c, "from_dict") is not None:
                    self.classes.append(c)

    def walk(self, fi, **kw):
        own = fi.cls
        pol = Pol(track=lambda ev, st: ev.kind in ("setitem", "call"), inline=lambda e, f, d: f.cls is not None and own is not None and f.cls.qual == own.qual and f.name != fi.name and len(f.node.body) <= 3 and "classmethod" in f.decorators)
        pol.fold = True
        return self.ctx.walk(fi, policy=pol, **kw)

    def inline_children(self, t, c, facts):
        """Replace x.to_dict() of an attribute whose class has no from_dict by what its to_dict returns."""
        if not isinstance(t, tuple) or not t:
            return t
        if call_(t) and t[1][0] == "attr" and t[1][2] == "to_dict" and not t[2] and t[1][1][0] == "attr" and t[1][1][1] == SELF:
            for a in ann_classes(self.p, c.module, c.annotations.get(t[1][1][2])):
                w = self.p.member(a, "to_dict")
                if w is not None and self.p.member(a, "from_dict") is None:
                    outs, _ = self.walk(w, bind={w.params[0]: t[1][1]}, facts=facts)
                    outs = [o for o in outs if o.kind == "return"]
                    if len(outs) == 1:
                        return outs[0].value
            return t
        return tuple(self.inline_children(x, c, facts) if isinstance(x, tuple) else x for x in t)

    def self_calls(self, t, c, facts, depth=0):
        """Resolve calls of own methods without arguments that have one value under the facts."""
        if not isinstance(t, tuple) or not t or depth > 40:
            return t
        if call_(t) and t[1][0] == "attr" and t[1][1] == SELF and not t[2] and not t[3]:
            f = self.p.member(c, t[1][2])
            if f is not None and type(f).__name__ == "FuncInfo":
                outs, _ = self.walk(f, facts=facts)
                vals = {strip_sites(o.value) for o in outs if o.kind == "return"}
                if len(vals) == 1 and not any(o.kind == "raise" for o in outs):
                    return vals.pop()
            return t
        return tuple(self.self_calls(x, c, facts, depth + 1) if isinstance(x, tuple) else x for x in t)

    def same(self, v, want, facts, anns, module, strict=False):
        n = self.norm(v)
        wants = {want}
        if want[0] == "attr" and want[1] == SELF:
            wants.add(("attr", SELF, "_" + want[2]))
        if n in wants:
            return True
        if any(known_const(facts, w, n, strict) for w in wants):
            return True
        if n[0] == "call" and n[1][0] == "class" and not n[2]:
            c2 = self.p.cls(n[1][1])
            if c2 is not None and any(a.qual == c2.qual for a in anns):
                kw = dict(n[3])
                return all(f in kw and self.same(kw[f], ("attr", want, f), facts, ann_classes(self.p, c2.module, a), c2.module) for f, d, a in init_fields(self.p, c2))
        return False

    def check_class(self, c):
        p, ctx = self.p, self.ctx
        w, r = p.member(c, "to_dict"), p.member(c, "from_dict")
        fields = init_fields(p, c)
        ctx.count("classes")
        if not fields:
            fields = []
        wouts, _ = self.walk(w)
        filled = {f: False for f, d, a in fields}
        empties = {}
        bad = {}
        npaths = 0
        passed = set()
        readers = []
        for o in wouts:
            if o.kind != "return":
                continue
            npaths += 1
            doc = self.inline_children(o.value, c, dict(o.state.facts))
            given = dict(o.state.facts)
            for t in subterms(doc):
                if call_(t) and t[1][0] == "attr" and t[1][2] == "to_dict":      # a document is never None or empty
                    given.setdefault(("eq", t, NONE), False)
                    given.setdefault(("truth", t), True)
            routs, _ = self.walk(r, bind={r.params[1]: doc}, facts=given)
            if not [x for x in routs if x.kind == "return"]:
                bad.setdefault(("reader", "never returns"), r.where)
            for x in routs:
                if x.kind == "raise":
                    bad.setdefault(("reader raises", str(strip_sites(x.value))[:80]), r.where)
                    continue
                if x.kind != "return":
                    continue
                facts = {self.norm(strip_sites(k)): v for k, v in x.state.facts.items()}
                facts.update({self.norm(strip_sites(k)): v for k, v in o.state.facts.items()})
                v = strip_sites(x.value)
                if not (v[0] == "call" and (v[1] == ("class", c.qual) or v[1] == ("param", r.params[0]))):
                    bad.setdefault(("result", "is not a new %s" % c.name), r.where)
                    continue
                kw = dict(v[3])
                mine = set()
                for ev in x.state.events:
                    for t in (ev[2] if ev[0] == "setitem" else ev[1][2] if call_(ev[1]) else ()):
                        mine.add(self.norm(strip_sites(t)))
                passed |= mine
                readers.append((mine, {self.norm(strip_sites(k)): b for k, b in x.state.facts.items() if k not in o.state.facts}))
                for (f, d, a), arg in zip(fields, v[2]):
                    kw[f] = arg
                for f, d, a in fields:
                    anns = ann_classes(p, c.module, a)
                    val = kw.get(f)
                    if val is None:
                        val = const_of(d)
                    if val is None:
                        bad.setdefault((f, "is not passed by the reader"), r.where)
                        continue
                    val = self.self_calls(val, c, dict(x.state.facts))
                    if self.same(val, ("attr", SELF, f), facts, anns, c.module, a is not None and re.search(r"\b(float|int|bool)\b", ast.unparse(a)) is not None):
                        filled[f] = True
                        if a is not None and re.match(r"(typing\.)?(Optional\[)?[Tt]uple\b", ast.unparse(a)) and self.norm(val) == ("attr", SELF, f) and not (val[0] == "tuple" or call_(val) and val[1] == ("ext", "tuple")):
                            bad.setdefault((f, "is declared a tuple and comes back from JSON as a list"), r.where)
                    elif self.norm(val) in (("dict", ()), ("list", ())):
                        empties[f] = self.empty_loop(x, o)
                    else:
                        bad.setdefault((f, "comes back as %s" % short(self.norm(val))), r.where)
        for f, d, a in fields:
            if f in empties and not (filled[f] and empties[f]):
                bad.setdefault((f, "comes back empty"), r.where)
        ctx.count("writer paths", npaths)
        for attr in self.members(c, {f for f, d, a in fields}):
            src = ("call", ("attr", ("attr", SELF, attr), "items"), (), ())
            want = ("item", ("elem", src, "*"), C(1))
            ctx.check(want in passed, "member", "%s.%s" % (c.name, attr), "each of %s.%s is written by to_dict and given to the new object by from_dict" % (c.name, attr), r.where)
            conds = [k for mine, fs in readers if want not in mine for k in fs if any(self.own_value(t, want) for t in subterms(k))]
            for o in wouts:
                if o.kind == "return" and want not in subterms(self.norm(strip_sites(o.value))):
                    conds += [k for k in map(lambda k: self.norm(strip_sites(k)), o.state.facts) if any(self.own_value(t, want) for t in subterms(k))]
            ctx.check(not conds, "conditional", "%s.%s" % (c.name, attr), "whether to_dict writes and from_dict adds an entry of %s.%s depends on the entry's own values (%s)" % (c.name, attr, short(conds[0]) if conds else ""), r.where)
            inner = {t for t in passed if t[0] == "item" and t[2] == C(1) and t[1][0] == "elem" and items_of(t[1][1]) is not None and items_of(t[1][1])[0] == "attr" and t != want}
            skipped = self.skipped(wouts, attr)
            if skipped:
                ctx.check(any(SELF in subterms(t) for t in inner), "skipped", "%s.%s" % (c.name, attr), "an entry of %s.%s that to_dict leaves out (%s) has its own values written and read back" % (c.name, attr, short(skipped[0])), w.where)
        for f, d, a in fields:
            mine = [m for k, m in bad if k == f]
            ctx.check(not mine, "field", "%s.%s" % (c.name, f), "%s.%s is written by to_dict and read by from_dict, but %s" % (c.name, f, (mine or [""])[0]), r.where)
        for k, m in bad:
            if k in ("reader", "result", "reader raises"):
                ctx.bad(k, c.name, "%s.from_dict on to_dict's document: %s %s" % (c.name, k, m), r.where)
        ctx.check(npaths > 0, "writer", c.name, "%s.to_dict has a returning path" % c.name, w.where)

    def own_value(self, t, want):
        """Is t a value read from the entry `want` (or from its document), or a decision made about it?"""
        entry = (want, ("call", ("attr", want, "to_dict"), (), ()))
        if t[0] == "item":
            return t[2][0] == "const" and isinstance(t[2][1], str) and t[1] in entry or t[1] == ("attr", want, t[2])
        if t[0] == "in":
            return t[2] in entry
        if t[0] == "attr":
            return t[1] == want and t[2] != "to_dict"
        if call_(t):
            return any(a in entry for a in t[2]) or t[1][0] == "attr" and t[1][1] in entry and t[1][2] != "to_dict"
        return False

    def members(self, c, known):
        """Public container attributes that __init__ creates empty."""
        init = c.methods.get("__init__")
        out = []
        for n in own_nodes(init.node) if init is not None else []:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and isinstance(n.value, (ast.Dict, ast.List)) and not t.attr.startswith("_") and t.attr not in known:
                out.append(t.attr)
        return out

    def skipped(self, wouts, attr):
        """Conditions under which the writer's loop over the attribute leaves an entry out."""
        out = []
        for o in wouts:
            for f, val in o.state.facts.items():
                f = self.norm(strip_sites(f))
                if f[0] == "eq" and val and any(x[0] == "item" and x[2] == C(0) and x[1][0] == "elem" and items_of(x[1][1]) == ("attr", SELF, attr) for x in f[1:3]):
                    out.append(f)
        return out

    def empty_loop(self, x, o):
        return True


def const_of(d):
    if d is None:
        return None
    if isinstance(d, ast.Constant):
        return C(d.value)
    if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "field":
        for kw in d.keywords:
            if kw.arg == "default":
                return const_of(kw.value)
            if kw.arg == "default_factory":
                return {"dict": ("dict", ()), "list": ("list", ())}.get(ast.unparse(kw.value), ("ext", "default factory"))
    return ("ext", ast.unparse(d))


def short(t):
    s = str(t)
    s = re.sub(r"\('const', ([^()]*)\)", r"\1", s)
    s = re.sub(r"\('attr', \('param', 'self'\), '(\w+)'\)", r"self.\1", s)
    return s[:160]


RECORDS = [("vertex", ["brep_vertex"]), ("edge", ["line_edge", "arc_edge", "circle_edge", "bspline_edge"]), ("trim", ["brep_trim"]), ("loop", ["brep_loop"]),
           ("face", ["brep_face"]), ("shell", ["brep_shell"]), ("solid", ["brep_solid"])]


def helper(norm, f, module):
    """A nested function, or a small private helper of the module that is no record's writer or reader."""
    if f.module.name != module or f.qual in norm.ident_fns or f.qual in norm.pair_fns or f.qual in norm.pair_fns.values():
        return False
    if f.outer is not None:
        return True
    return f.name.startswith("_") and not re.match("_(de)?serialize_|_rehydrate_", f.name) and sum(isinstance(n, ast.stmt) for n in ast.walk(f.node)) <= 14


def componentwise(ctx, norm, *modules):
    """Find the helpers that return the point or vector they are given (other representation, same components)."""
    geom = {"yapcad.geom.point", "yapcad.geom.vect"}

    def part(t, want):
        """Component i of the parameter, possibly divided by a common length."""
        t = norm(t)
        if t == want:
            return "same"
        if t[0] == "bin" and t[1] == "Div" and norm(t[2]) == want:
            return ("over", strip_sites(t[3]))
        return None

    def keeps(v, P, facts):
        v = strip_sites(v)
        if norm(v) == P:
            return True
        if v[0] in ("call", "list", "tuple"):
            k = 2 if v[0] == "call" else 1
            es = ()
            for e in v[k]:
                n = e[1][2][2][1] if e[0] == "star" and e[1][0] == "item" and e[1][2][0] == "slice" and e[1][2][1] in (NONE, C(0)) and e[1][2][2][0] == "const" else None
                es += tuple(("item", e[1][1], C(i)) for i in range(n)) if isinstance(n, int) and 0 < n < 5 else (e,)
            v = v[:k] + (es,) + v[k + 1:]
        if v == NONE:
            return known_const(facts, P, NONE)
        if call_(v) and v[1][0] == "fn" and v[1][1] in geom:
            es = v[2]
            if len(es) == 1 and norm(es[0]) == P:
                return True
        elif v[0] in ("list", "tuple"):
            es = v[1]
        else:
            return False
        if es and all(e[0] == "const" for e in es):
            return any(call_(t) or t[0] == "bin" for f in facts for t in subterms(f))      # a degenerate direction
        hows = {part(e, ("item", P, C(i))) for i, e in enumerate(es[:3])} if len(es) >= 2 else {None}
        if None in hows and len(es) >= 3 and part(es[2], ("item", P, C(2))) is None and es[2][0] == "const":
            hows = {part(e, ("item", P, C(i))) for i, e in enumerate(es[:2])}
            short_ = True
        else:
            short_ = len(es) == 2
        if None in hows or len(hows) != 1:
            return False
        if short_ and not any(("item", P, C(2)) in subterms(f) or ("call", ("ext", "len"), (P,), ()) in subterms(f) for f in facts):
            return False
        return len(es) < 4 or es[3][0] == "const" or part(es[3], ("item", P, C(3))) is not None

    todo = [f for m in modules for f in ctx.p.mod(m).funcs.values()
            if f.name.startswith("_") and f.params and sum(isinstance(n, ast.stmt) for n in ast.walk(f.node)) <= 14 and len(f.params) == 1]
    n = 0
    for rnd in range(2):
        for f in list(todo):
            P = ("param", f.params[0])
            pol = Pol(inline=lambda e, g, d: False)
            pol.fold = True
            outs, _ = ctx.walk(f, policy=pol)
            rets = [o for o in outs if o.kind == "return"]
            if rets and all(keeps(o.value, P, {norm(strip_sites(k)): b for k, b in o.state.facts.items()}) for o in rets):
                norm.ident_fns.add(f.qual)
                norm.memo.clear()
                todo.remove(f)
                n += 1
    ctx.count("component-wise helpers", n)


class Native:
    """Records of the native topology: constructor -> serialiser -> deserialiser."""

    def __init__(self, ctx, tr):
        self.ctx, self.p, self.tr = ctx, ctx.p, tr
        self.norm = tr.norm
        self.mod = self.p.mod(NB)
        self.cons = {f for f in self.mod.funcs if f.startswith("brep_") or f.endswith("_edge")}
        componentwise(ctx, self.norm, NB, AN)
        self.norm.pair_fns[NB + "._deserialize_surface"] = NB + "._serialize_surface"

    def pol(self, more=()):
        p = Pol(inline=lambda e, f, d: f.qual.startswith(NB) and f.name in self.cons or f.qual in more or helper(self.norm, f, NB), call_hook=self.hook)
        p.fold = True
        return p

    def hook(self, eng, term, state, node):
        f = term[1]
        n = f[1].split(".")[-1] if f[0] == "fn" else ""
        if n.startswith("is_brep_") and term[2]:
            a = term[2][0]
            tag = n[3:].replace("_native", "")
            return [(state, C(bool(a[0] == "list" and a[1] and a[1][0] == C(tag))))]
        if f == ("ext", "isinstance") and len(term[2]) == 2 and term[2][0][0] in ("list", "dict") and term[2][1] == ("ext", term[2][0][0]):
            return [(state, TRUE)]
        return None

    def generic(self, t, kinds):
        """The record's shape with an opaque value in each slot (equal slots keep one value)."""
        seen = {}

        def g(t, path):
            while call_(t) and t[1][0] == "ext" and t[1][1] in ("copy.deepcopy", "copy.copy") and t[2]:
                t = t[2][0]
            if t[0] == "const" and isinstance(t[1], str) and len(path) <= 1:
                return t
            if t[0] == "dict" and all(k[0] == "const" for k, v in t[1]):
                return ("dict", tuple((k, g(v, path + (str(k[1]),))) for k, v in t[1]))
            k = strip_sites(t)
            if k in seen:
                return seen[k]
            r = ("param", "slot " + ".".join(path))
            kind = "container" if t[0] in ("comp", "list") or (t[0] == "bin" and any(x[0] == "list" for x in t[2:])) else "value" if t[0] in ("call", "item", "bin") else "any"
            kinds.setdefault(r, set()).add(kind)
            if t[0] in ("param", "call", "item", "elem"):
                seen[k] = r
            return r
        return ("list", tuple(g(x, (str(i),)) for i, x in enumerate(t[1])))

    def leaves(self, t, path=()):
        if t[0] == "dict" and t[1] and all(k[0] == "const" for k, v in t[1]):
            for k, v in t[1]:
                yield from self.leaves(v, path + (str(k[1]),))
        else:
            yield path, t

    def get(self, t, path):
        for k in path:
            if t[0] != "dict":
                return None
            t = dict((str(a[1]), b) for a, b in t[1] if a[0] == "const").get(k)
            if t is None:
                return None
        return t

    def trip(self, kind, cname, cons, ser, des, more=()):
        ctx = self.ctx
        bind = {}
        if cons.node.args.kwarg is not None:
            bind[cons.node.args.kwarg.arg] = ("dict", ())
        outs, _ = ctx.walk(cons, policy=self.pol(more), bind=bind)
        shapes, kinds = [], {}
        for o in outs:
            v = strip_sites(o.value) if o.kind == "return" else None
            if v is not None and v[0] == "list":
                L = self.generic(v, kinds)
                if L not in shapes:
                    shapes.append(L)
        ctx.check(bool(shapes), "record", cname, "%s returns a list record that can be followed" % cname, cons.where)
        for L in shapes:
            ctx.count("record shapes")
            bad, filled, empty = {}, set(), set()
            ok = False
            souts, _ = ctx.walk(ser, policy=self.pol(more), bind={ser.params[0]: L})
            for s in souts:
                if s.kind == "raise":
                    bad.setdefault("the writer raises %s" % short(strip_sites(s.value))[:80], ())
                if s.kind != "return":
                    continue
                b = {des.params[0]: strip_sites(s.value)}
                for q in des.params[1:]:
                    b[q] = NONE
                douts, _ = ctx.walk(des, policy=self.pol(more), bind=b, facts=dict(s.state.facts))
                for d in douts:
                    facts = {self.norm(strip_sites(k)): v for k, v in d.state.facts.items()}
                    if self.impossible(facts, kinds):
                        continue
                    if d.kind != "return":
                        continue
                    v = strip_sites(d.value)
                    if v[0] != "list":
                        bad.setdefault("the reader does not return a record", ())
                        continue
                    ok = True
                    for i, slot in enumerate(L[1]):
                        got = self.norm(v[1][i]) if i < len(v[1]) else None
                        for path, want in self.leaves(slot):
                            n = self.get(got, path) if got is not None else None
                            if n is None:
                                if not known_const(facts, want, NONE):
                                    bad.setdefault(".".join(path) or str(i), "is not restored")
                            elif n == want:
                                filled.add(path or (str(i),))
                            elif n == ("list", ()):
                                empty.add(path or (str(i),))
                            elif not known_const(facts, want, n):
                                bad.setdefault(".".join(path) or str(i), "comes back as %s" % short(n))
            for path in empty - filled:
                bad.setdefault(".".join(path), "comes back empty")
            for i, slot in enumerate(L[1]):
                for path, want in self.leaves(slot):
                    name = ".".join(path) or "element %d" % i
                    m = bad.get(".".join(path) or str(i))
                    ctx.check(m is None, "slot", "%s.%s" % (cname, name), "the value %r of a record made by %s %s" % (name, cname, m), des.where)
            rest = [k for k, v in bad.items() if v == ()]
            ctx.check(ok and not rest, "trip", cname, "%s: %s" % (cname, (rest or ["no path of the reader returns the record"])[0]), des.where)

    def impossible(self, facts, kinds):
        """The constructor never leaves this value None, or this list empty unless the record is degenerate."""
        for f, val in facts.items():
            if f[0] == "eq" and val and NONE in f[1:3]:
                x = f[1] if f[2] == NONE else f[2]
                if kinds.get(x) and "any" not in kinds[x]:
                    return True
            if f[0] == "truth" and not val and kinds.get(f[1]) == {"container"}:
                return True
        return False

    def run(self):
        p = self.p
        for kind, cons in RECORDS:
            ser, des = p.func(NB + "._serialize_" + kind), p.func(NB + "._deserialize_" + kind)
            for c in cons:
                self.trip(kind, c, p.func(NB + "." + c), ser, des)
            self.norm.pair_fns[des.qual] = ser.qual
        self.graph()
        ser, des = p.func(NB + "._serialize_surface"), p.func(NB + "._deserialize_surface")
        an = p.mod(AN)
        cons = {f.qual for n, f in an.funcs.items() if n.endswith("_surface") and n.split("_")[0] not in ("is", "evaluate", "tessellate") and self.makes_record(f)}
        helpers = {f.qual for f in self.mod.funcs.values() if f.qual != ser.qual and f.qual != des.qual and "surface" in f.name and f.name.startswith(("_serialize", "_deserialize", "_rebuild"))}
        ctx = self.ctx
        ctx.floor("surface constructors", len(cons), 7)
        for q in sorted(cons):
            self.surface(q.split(".")[-1], p.func(q), ser, des, helpers)

    def moved_keys(self):
        """Metadata keys that code other than constructors and (de)serialisers assigns."""
        out = set()
        for f in self.mod.funcs.values():
            if f.name.startswith(("_serialize", "_deserialize", "_rebuild", "serialize", "deserialize")):
                continue
            for n in own_nodes(f.node):
                for t in getattr(n, "targets", []) if isinstance(n, ast.Assign) else []:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                        out.add(t.slice.value)
        return out

    def surface(self, cname, cons, ser, des, helpers):
        """Each constructor parameter is read back from the slot it was stored in, and slots that change later are restored."""
        ctx = self.ctx
        outs, _ = ctx.walk(cons, policy=self.pol())
        slots = {}
        kinds, L = {}, None
        for o in outs:
            v = strip_sites(o.value) if o.kind == "return" else None
            if v is None or v[0] != "list":
                continue
            L = self.generic(v, kinds)
            for i, slot in enumerate(v[1]):
                for path, t in self.leaves(slot):
                    deps = {x[1] for x in subterms(t) if x[0] == "param"}
                    slots.setdefault(path or (str(i),), []).append((t, deps, i))
        ctx.check(L is not None, "record", cname, "%s returns a list record that can be followed" % cname, cons.where)
        if L is None:
            return
        ctx.count("record shapes")
        params = [x for x in cons.params] + [x for x in cons.kwonly]
        home = {}
        for q in params:
            named = [(0, path, ts[0][2]) for path, ts in slots.items() if path[-1] == q]
            cand = named or [(len(str(t)), path, i) for path, ts in slots.items() for t, d, i in ts if d == {q} and not (call_(t) and t[1] == ("ext", "len"))]
            if not cand or not named and min(cand)[1] in home.values():
                cand = [(0, path, ts[0][2]) for path, ts in slots.items() if path == ("1",) and all(not d for t, d, i in ts)]
            if cand:
                home[q] = min(cand)[1:]
        for q in params:
            ctx.check(q in home, "home", "%s.%s" % (cname, q), "%s stores its parameter %s in a slot of the record" % (cname, q), cons.where)
        moved = self.moved_keys()
        pol = Pol(inline=lambda e, f, d: f.qual in helpers, call_hook=self.hook, track=lambda ev, st: ev.kind == "setitem")
        pol.fold = True
        bad, seen, restored = {}, set(), set()
        souts, _ = ctx.walk(ser, policy=pol, bind={ser.params[0]: L})
        for s in souts:
            if s.kind != "return":
                continue
            douts, _ = ctx.walk(des, policy=pol, bind={des.params[0]: strip_sites(s.value)}, facts=dict(s.state.facts))
            for d in douts:
                facts = {self.norm(strip_sites(k)): v for k, v in d.state.facts.items()}
                if self.impossible(facts, kinds) or d.kind == "raise":
                    continue
                v = strip_sites(d.value)
                if not (call_(v) and v[1] == ("fn", cons.qual)):
                    bad.setdefault("result", "the reader returns %s for it" % short(v)[:60])
                    continue
                given = dict(zip(cons.params, v[2]))
                given.update(dict(v[3]))
                for q, (path, i) in home.items():
                    want = self.get(L[1][i], path) if len(path) and L[1][i][0] == "dict" else L[1][i]
                    got = self.unroll(given.get(q))
                    if got == want or (got is not None and known_const(facts, want, got)):
                        seen.add(q)
                    elif got == ("list", ()):
                        pass
                    else:
                        bad.setdefault(q, "gets %s instead of the value stored for it" % (short(got) if got is not None else "its default"))
                for ev in d.state.events:
                    if ev[0] == "setitem":
                        key, val = strip_sites(ev[2][0]), self.norm(strip_sites(ev[2][1]))
                        if key[0] == "const" and val == ("param", "slot 2.%s" % key[1]):
                            restored.add(key[1])
        for q in home:
            ctx.check(q in seen and q not in bad, "surface parameter", "%s.%s" % (cname, q), "rebuilding a %s, the parameter %s %s" % (cname, q, bad.get(q, "is never the stored value")), des.where)
        ctx.check("result" not in bad, "trip", cname, "%s: %s" % (cname, bad.get("result")), des.where)
        homes = {path[-1] for path, i in home.values()}
        for path in slots:
            if path[-1] in moved and path[-1] not in homes:
                ctx.check(path[-1] in restored, "moved slot", "%s.%s" % (cname, path[-1]), "%s, which transforms change, is restored from the document and not left as the constructor computes it" % path[-1], des.where)

    def unroll(self, t):
        return None if t is None else self.norm(t)

    def graph(self):
        """Each section of the topology graph is written, and read back into the same section."""
        ctx, p = self.ctx, self.p
        w, r = p.func(NB + ".serialize_topology_graph"), p.func(NB + ".deserialize_topology_graph")
        init = p.func(NB + ".TopologyGraph.__init__")
        sections = []
        for n in own_nodes(init.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and isinstance(n.targets[0], ast.Attribute) and not n.targets[0].attr.startswith("_"):
                sections.append(n.targets[0].attr)
        ctx.floor("graph sections", len(sections), 7)
        pol = Pol(inline=lambda e, f, d: False, track=lambda ev, st: ev.kind == "setitem")
        pol.fold = True
        got = {}
        outs, _ = ctx.walk(w, policy=pol)
        for o in outs:
            if o.kind != "return":
                continue
            routs, _ = ctx.walk(r, policy=pol, bind={r.params[0]: strip_sites(o.value)})
            for x in routs:
                if x.kind != "return":
                    continue
                for ev in x.state.events:
                    if ev[0] == "setitem" and ev[1][0] == "attr" and ev[1][2] in sections:
                        got.setdefault(ev[1][2], set()).add(self.norm(strip_sites(ev[2][1])))
        for a in sections:
            src = ("attr", ("param", w.params[0]), a)
            e = ("elem", ("call", ("attr", src, "items"), (), ()), "*")
            vals = got.get(a, set())
            want = ("item", e, C(1))
            ctx.check(want in vals, "section", a, "the graph's %s are written and read back into %s (read: %s)" % (a, a, [short(v) for v in vals][:1] or "nothing"), r.where)

    def makes_record(self, f):
        return any(isinstance(n, ast.Return) and isinstance(n.value, ast.List) and n.value.elts and isinstance(n.value.elts[0], ast.Constant) and n.value.elts[0].value == f.name for n in own_nodes(f.node))


class GeometryJson:
    """Geometry JSON: each kind of sketch primitive and the surface record, written and read back."""
    MOD = "yapcad.io.geometry_json"
    KINDS = {"line": "isline", "circle": "iscircle", "arc": "isarc", "ellipse": "isellipse", "catmullrom": "iscatmullrom", "nurbs": "isnurbs"}

    def __init__(self, ctx, nat):
        self.ctx, self.p, self.nat, self.norm = ctx, ctx.p, nat, nat.norm
        componentwise(ctx, self.norm, self.MOD)

    def hook_for(self, kind):
        tests = set(self.KINDS.values())

        def hook(eng, term, state, node):
            f = term[1]
            n = f[1].split(".")[-1] if f[0] == "fn" else ""
            if n in tests and term[2]:
                # the tests are tried in order; a circle also passes isarc
                return [(state, C(n == self.KINDS[kind] or (kind == "circle" and n == "isarc")))]
            return self.nat.hook(eng, term, state, node)
        return hook

    def pol(self, kind=None):
        p = Pol(inline=lambda e, f, d: helper(self.norm, f, self.MOD), call_hook=self.hook_for(kind) if kind else self.nat.hook)
        p.fold = True
        return p

    def shape(self, kind):
        """(record of the element, {constructor parameter: slot term})"""
        P = lambda n: ("param", "slot " + n)
        if kind == "line":
            return [(("list", (P("0"), P("1"))), {0: P("0"), 1: P("1")}, "line")]
        if kind in ("circle", "arc"):
            angles = (C(0.0), C(360.0)) if kind == "circle" else (P("start"), P("end"))
            out = []
            for nrm in (False, True):
                v = ("list", (P("radius"),) + ((P("start"), P("end"))) + (P("orientation"),))
                home = {0: P("center"), "vect": (P("radius"),) + angles + (P("orientation"),)}
                if nrm:
                    home[2] = P("normal")
                out.append((("list", (P("center"), v) + ((P("normal"),) if nrm else ())), home, "arc"))
            return out
        cons = self.p.func("yapcad.geom." + kind)
        outs, _ = self.ctx.walk(cons, policy=self.nat.pol())
        out = []
        for o in outs:
            v = strip_sites(o.value) if o.kind == "return" else None
            if v is None or v[0] != "list":
                continue
            kinds = {}
            L = self.nat.generic(v, kinds)
            if any(L == x[0] for x in out):
                continue
            home = {}
            for i, slot in enumerate(L[1]):
                for path, t in self.nat.leaves(slot):
                    if path and path[-1] in cons.params + cons.kwonly:
                        home[path[-1]] = t
                    elif not path and t[0] == "param" and i == 1:
                        home[cons.params[0]] = t
            out.append((L, home, kind))
        return out

    def run(self):
        ctx, p = self.ctx, self.p
        w, r = p.func(self.MOD + "._serialize_sketch"), p.func(self.MOD + ".geometry_from_json")
        schema = p.mod(self.MOD).assigns.get("SCHEMA_ID")
        for kind in self.KINDS:
            shapes = self.shape(kind)
            ctx.check(bool(shapes), "record", "sketch " + kind, "the constructor of %s returns a list record" % kind, w.where)
            for L, home, cname in shapes:
                ctx.count("sketch shapes")
                self.sketch(kind, L, home, cname, w, r)
        self.surface()
        self.document()

    def document(self):
        """A document with a solid (two surfaces, one void or a material), a surface of its own and a sketch."""
        ctx, p, M = self.ctx, self.p, self.MOD
        w, r = p.func(M + ".geometry_to_json"), p.func(M + ".geometry_from_json")
        ser = p.func(M + "._serialize_solid")
        O = lambda n: ("param", "slot " + n)
        surfaces = {O(n) for n in "ABVC"}
        sketch = O("K")
        LAYER = C("default")

        def hook(eng, term, state, node):
            f, a = term[1], term[2]
            n = f[1].split(".")[-1] if f[0] in ("fn", "ext") else ""
            if n in ("issurface", "issolid", "isgeomlist") and a:
                x = strip_sites(a[0])
                return [(state, C(n == ("issurface" if x in surfaces else "isgeomlist" if x == sketch else "issolid" if x[0] == "list" and x[1] and x[1][0] == C("solid") else "")))]
            if f == ("ext", "isinstance") and len(a) == 2 and a[1][0] == "ext":
                x = strip_sites(a[0])
                if x in surfaces or x == sketch or x[0] == "list":
                    return [(state, C(a[1][1] == "list"))]
                if x in (O("m1"), O("m2")):
                    return [(state, C(a[1][1] == "str"))]
                if x[0] == "dict":
                    return [(state, C(a[1][1] == "dict"))]
            if f[0] == "fn" and n in ("solidbbox", "_bbox_or_none"):
                return [(state, NONE)]
            if f[0] == "fn" and f[1] == M + "._serialize_surface" and a and strip_sites(a[0]) in surfaces:
                name = strip_sites(a[0])[1]
                return [(state, ("dict", ((C("id"), C(name)), (C("type"), C("surface")), (C("payload"), O(name[-1])), (C("metadata"), ("dict", ((C("layer"), LAYER),)))), ("site", "doc " + name, 0, 0)))]
            if f[0] == "fn" and f[1] == M + "._rehydrate_surface" and a and a[0][0] == "dict":
                return [(state, dict(a[0][1]).get(C("payload"), ("top", "surface")))]
            if f[0] == "fn" and f[1] == M + "._serialize_sketch" and a and strip_sites(a[0]) == sketch:
                prim = ("dict", ((C("kind"), C("line")), (C("start"), ("list", (C(1.0), C(2.0)), ("site", "p", 0, 1))), (C("end"), ("list", (C(3.0), C(4.0)), ("site", "p", 0, 2)))), ("site", "prim", 0, 0))
                return [(state, ("dict", ((C("id"), C("slot K")), (C("type"), C("sketch")), (C("primitives"), ("list", (prim,), ("site", "prims", 0, 0)))), ("site", "doc K", 0, 0)))]
            if f[0] == "fn" and f[1].split(".")[-1] in ("get_solid_metadata", "get_surface_metadata"):
                return [(state, ("dict", ((C("layer"), LAYER), (C("entityId"), C("id of the solid"))), ("site", "meta", 0, 0)))]
            return self.nat.hook(eng, term, state, node)

        for label, slot2 in (("voids", ("list", (("list", (O("V"),)),))), ("material", ("list", (O("m1"), O("m2"))))):
            S = ("list", (C("solid"), ("list", (O("A"), O("B"))), slot2, O("construction")))
            pol = Pol(inline=lambda e, f, d: f.qual == ser.qual or helper(self.norm, f, M) and "surface" not in f.name and "sketch" not in f.name, call_hook=hook,
                      track=lambda ev, st: ev.kind == "call" and ev.term[1][0] == "fn" and ev.term[1][1].endswith("set_solid_metadata"))
            pol.fold = True
            bind = {w.params[0]: ("list", (S, O("C"), sketch))}
            bind.update({q: NONE for q in w.params[1:] + w.kwonly})
            outs, _ = ctx.walk(w, policy=pol, bind=bind)
            want = {"surfaces": ("list", (O("A"), O("B"))), label: slot2, "construction": O("construction")}
            ok, bad = set(), {}
            for o in outs:
                if o.kind != "return":
                    continue
                fs = {k: v for k, v in o.state.facts.items() if k[0] != "touched"}
                routs, _ = ctx.walk(r, policy=pol, bind={r.params[0]: strip_sites(o.value)}, facts=fs)
                for x in routs:
                    if x.kind != "return":
                        bad.setdefault("document", "is refused: %s" % short(strip_sites(x.value))[:100])
                        continue
                    facts2 = {self.norm(strip_sites(k)): v for k, v in x.state.facts.items()}
                    res = strip_sites(x.value)
                    items = res[1] if res[0] == "list" else ()
                    sol = [t for t in items if t[0] == "list" and t[1] and t[1][0] == C("solid")]
                    if len(sol) != 1 or len(sol[0][1]) < 4:
                        bad.setdefault("solid", "does not come back once: %s" % short(res))
                        continue
                    for n, i in (("surfaces", 1), (label, 2), ("construction", 3)):
                        got = self.norm(sol[0][1][i])
                        if got == want[n] or known_const(facts2, want[n], got):
                            ok.add(n)
                        else:
                            bad.setdefault(n, "comes back as %s" % short(got))
                    n = sum(t == O("C") for t in items)
                    ok.add("surface") if n == 1 and not any(t in items for t in (O("A"), O("B"), O("V"))) else bad.setdefault("surface", "a surface of its own comes back %d times, or a solid's surface comes back beside it" % n)
                    n = sum(any(call_(u) and u[1] == ("fn", "yapcad.geom.line") for u in subterms(t)) for t in items)
                    ok.add("sketch") if n == 1 else bad.setdefault("sketch", "a sketch comes back %d times" % n)
                    if any(t[0] == "fn" and "set_solid_metadata" in t[1] for ev in x.state.events for t in subterms(ev[1])):
                        ok.add("metadata")
                    else:
                        bad.setdefault("metadata", "is not given back to the solid")
            for n in ("surfaces", label, "construction", "metadata", "surface", "sketch"):
                ctx.check(n in ok and n not in bad and not {"document", "solid"} & set(bad), "document", "solid with %s: %s" % (label, n), "geometry JSON of a solid with %s, a surface and a sketch: the %s %s" % (label, n, bad.get(n) or bad.get("document") or bad.get("solid") or "is not followed"), r.where)

    def sketch(self, kind, L, home, cname, w, r):
        ctx = self.ctx
        bad, ok = {}, set()
        wouts, _ = ctx.walk(w, policy=self.pol(kind), bind={w.params[0]: ("list", (L,))})
        for o in wouts:
            if o.kind != "return":
                continue
            doc = ("dict", ((C("schema"), C(self.schema())), (C("entities"), ("list", (strip_sites(o.value),)))))
            routs, _ = ctx.walk(r, policy=self.pol(kind), bind={r.params[0]: doc}, facts=dict(o.state.facts))
            for x in routs:
                facts = {self.norm(strip_sites(k)): v for k, v in x.state.facts.items()}
                if x.kind != "return" or self.degenerate(facts):
                    continue
                calls = [t for t in subterms(strip_sites(x.value)) if call_(t) and t[1] == ("fn", "yapcad.geom." + cname)]
                if not calls:
                    bad.setdefault("element", "is not rebuilt")
                    continue
                c = calls[0]
                f = self.p.func("yapcad.geom." + cname)
                given = dict(zip(range(len(c[2])), c[2]))
                given.update({q: a for q, a in zip(f.params, c[2])})
                given.update(dict(c[3]))
                for q, want in home.items():
                    if q == "vect":
                        v = given.get(1)
                        got = tuple(self.norm(a) for a in v[2]) if v is not None and call_(v) else None
                        good = got is not None and len(got) == len(want) and all(g == x_ or known_const(facts, x_, g) for g, x_ in zip(got, want))
                    else:
                        got = self.norm(given[q]) if q in given else None
                        good = got == want if got is not None else known_const(facts, want, NONE)
                        good = good or (got is not None and known_const(facts, want, got))
                    if good:
                        ok.add(q)
                    else:
                        bad.setdefault(q, "comes back as %s" % (short(got) if got is not None else "its default"))
        for q in home:
            ctx.check(q in ok and q not in bad, "primitive", "%s.%s" % (kind, q), "a sketch %s's %s %s" % (kind, q, bad.get(q, "is not read back")), r.where)
        ctx.check("element" not in bad and ok, "primitive", kind, "a sketch's %s is rebuilt from its primitive" % kind, r.where)

    def schema(self):
        v = self.p.mod(self.MOD).assigns.get("SCHEMA_ID")
        node = v[-1] if isinstance(v, (list, tuple)) else v
        node = getattr(node, "value", node)
        return ast.literal_eval(node) if isinstance(node, ast.AST) else node

    def degenerate(self, facts):
        """A point with fewer than two coordinates."""
        for f, val in facts.items():
            if f[0] in ("lt", "le") and len(f) == 3:
                for a, b, low in ((f[1], f[2], not val), (f[2], f[1], val)):
                    # 2 <= len(point) is false, or len(point) < 2 is true
                    if low and a[0] == "const" and isinstance(a[1], int) and a[1] <= 3 and call_(b) and b[1] == ("ext", "len") and b[2][0][0] == "param":
                        return True
        return False

    def surface(self):
        ctx = self.ctx
        w, r = self.p.func(self.MOD + "._serialize_surface"), self.p.func(self.MOD + "._rehydrate_surface")
        S = ("list", (C("surface"),) + tuple(("param", "slot %d" % i) for i in range(1, 6)))
        ok, bad = set(), {}
        wouts, _ = ctx.walk(w, policy=self.pol(), bind={w.params[0]: S})
        for o in wouts:
            if o.kind != "return":
                continue
            routs, _ = ctx.walk(r, policy=self.pol(), bind={r.params[0]: strip_sites(o.value)}, facts=dict(o.state.facts))
            for x in routs:
                v = strip_sites(x.value)
                if x.kind != "return" or v[0] != "list" or len(v[1]) != 6:
                    bad.setdefault(0, "is not rebuilt")
                    continue
                for i in range(1, 6):
                    if self.norm(v[1][i]) == ("param", "slot %d" % i):
                        ok.add(i)
                    else:
                        bad.setdefault(i, "comes back as %s" % short(self.norm(v[1][i])))
        names = ["surface", "vertices", "normals", "faces", "boundary", "holes"]
        for i in range(1, 6):
            ctx.check(i in ok and i not in bad and 0 not in bad, "surface", names[i], "a surface's %s %s" % (names[i], bad.get(i) or bad.get(0) or "is not read back"), r.where)


def run(ctx):
    tr = Trip(ctx)
    for c in tr.classes:
        tr.check_class(c)
    ctx.floor("classes", len(tr.classes), 9)
    nat = Native(ctx, tr)
    nat.run()
    GeometryJson(ctx, nat).run()
