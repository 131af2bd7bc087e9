"""K10: what breaks the validation schema is reported invalid, what follows it valid."""
import ast
import os
import tempfile

from ..flow import C, NONE
from ..lib import Pol, alts, strip_sites, subterms
from ..project import ClassInfo, FuncInfo, Project

PROP = dict(
    id="K10", title="A plan or result that breaks the validation schema is reported invalid",
    statement="validate_plan, validate_result and their file forms report as invalid, with an error that names the place of each fault, every plan or result that breaks the documented schema: a required field missing or empty, a kind, status, comparison, property, load or boundary condition type the schema does not list (for that kind), a section or an element of a section of the wrong shape, a criterion without limit, a check missing where the kind needs one - wherever in its lists it stands, under either spelling of boundaryConditions and whatever else the document holds. A document that follows the schema is reported valid; departures the schema only advises against are warned of. A file that is missing, unparsable, empty or not a mapping is invalid. The summary an analysis writes follows the schema.",
    over=["inputs"], text="all plans and results: every field present or absent, any value, any number of criteria, loads, conditions, results and artifacts",
    why="Tests try one fault at a time in the smallest document. A check that looks at the first load only, is skipped when another section is there, or forgets one kind lets a plan through that the backend later misreads.",
    files=["src/yapcad/package/analysis/schema.py", "src/yapcad/package/analysis/cli.py"],
    mech=[("plans", "schema.py: validate_plan"), ("results", "schema.py: validate_result"), ("files", "schema.py: validate_plan_file, validate_result_file")],
    observe=["the ValidationReport (valid, errors, warnings)"],
    technique="path-sensitive dataflow over the validators for abstract documents: every path of a document with a fault ends in an invalid report naming it, every path of a sound one in a valid report",
    note="The schema is taken from docs/validation_schema.rst. A document is abstract only in the values the schema leaves free; lists are taken with up to three elements, the fault at every position. Value types the document gives for numbers and strings below the level of a section (limit: number) are not enforced by the validators and not claimed.",
)
EXPLAIN = ("Each abstract document (faulty or sound; alone and among every other section the kind allows) is followed along all paths of the validator. A path of a faulty document must return a report with valid false and an "
           "error whose place names the faulty field or element; a sound one valid true without errors. The file validators are walked with opaque content: each return is an invalid report or the validator's own, on the content read.")
ASSUME = ["a document is made of plain mappings, lists and scalars, as YAML and JSON loaders make them"]
M = "yapcad.package.analysis.schema"
PLAN, RESULT = M + ".validate_plan", M + ".validate_result"

WORDS = {
    "load": ("pressure", "force", "moment"),
    "bc": ("fixed", "pinned", "roller", "spring"),
    "status": ("passed", "failed", "error", "skipped", "pending"),
    "comparison": ("<=", ">=", "<", ">", "==", "~="),
    "geometric": ("volume", "area", "bbox", "centroid", "distance", "clearance"),
    "measurement": ("dimension", "mass", "centroid", "moment"),
    "assembly": ("interference", "fit", "alignment", "clearance"),
}
FOREIGN = {"geometric": "mass", "measurement": "volume", "assembly": "volume"}
SIM = ("structural", "thermal", "cfd", "multiphysics")
BAD = "no-such-word"
_n = [0]


class Any:
    """A value the schema leaves free."""
    def __init__(self, n):
        self.n = n


def term(v):
    if isinstance(v, Any):
        return ("param", "any_" + v.n)
    if isinstance(v, dict):
        _n[0] += 1
        return ("dict", tuple((C(k), term(x)) for k, x in v.items()), ("site", "$doc", _n[0], 0))
    if isinstance(v, list):
        _n[0] += 1
        return ("list", tuple(term(x) for x in v), ("site", "$doc", _n[0], 0))
    return NONE if v is None else C(v)


def load(i, **kw):
    d = {"id": "l%d" % i, "type": WORDS["load"][i % 3], "surfaces": ["top"], "magnitude_pa": Any("mag")}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not Ellipsis}


def bc(i, **kw):
    d = {"id": "b%d" % i, "type": WORDS["bc"][i % 4], "surfaces": ["base"]}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not Ellipsis}


def crit(**kw):
    d = {"limit": Any("limit"), "comparison": "<="}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not Ellipsis}


def smallest(kind):
    d = {"id": "p", "kind": kind, "backend": "b"}
    if kind in WORDS:
        d["check"] = {"property": WORDS[kind][0]}
    elif kind in ("structural", "thermal"):
        d["materials"] = {"default": {"name": Any("m")}}
    return d


def fullest(kind, spelling="boundaryConditions"):
    d = {"id": "p", "kind": kind, "backend": "b", "name": Any("name"), "description": Any("d"), "geometry": {"source": "geometry/primary.json", "entities": ["a", "b"]},
         "acceptance": {"m1": crit(), "m2": crit(comparison=">="), "m3": crit(comparison=...)}, "execution": {"mode": "local"}, "metadata": {"author": Any("a")}, "attachments": [{"path": Any("att")}]}
    if kind in WORDS:
        d["check"] = {"property": WORDS[kind][-1], "units": Any("u")}
    else:
        d["materials"] = {"default": {"name": Any("m")}}
        if kind != "cfd":
            d["loads"] = [load(0), load(1), load(2)]
        d[spelling] = [bc(0), bc(1), bc(2)]
        d["backendOptions"] = {"mesh": {"element_size": Any("s")}}
        d["faceNaming"] = {"strategy": Any("fs")}
    return d


def small_result():
    return {"plan_id": "p", "status": "passed"}


def full_result():
    return {"plan_id": "p", "status": "failed", "timestamp": Any("t"), "backend": "b", "backend_version": Any("v"), "execution_time_s": Any("e"), "metrics": {"x": Any("x")},
            "acceptance_results": {"x": {"value": Any("v1"), "passed": True}, "y": {"value": Any("v2"), "passed": False}}, "artifacts": [{"kind": "mesh", "path": "m"}, {"kind": "log", "path": "l"}],
            "errors": [], "warnings": [], "notes": Any("n")}


def put(d, key, v):
    d = dict(d)
    if v is Ellipsis:
        d.pop(key, None)
    else:
        d[key] = v
    return d


def at(good, bad, i, n=3):
    return [bad if j == i else good(j) for j in range(n)]


def faults():
    """(name, validator, document, words one of which the place or the message of an error must hold)"""
    for kind in ("geometric", "measurement", "assembly") + SIM:
        for size, base in (("smallest", smallest(kind)), ("fullest", fullest(kind))):
            T = "%s plan, %s" % (kind, size)
            for k in ("id", "backend"):
                yield "%s: %s missing" % (T, k), PLAN, put(base, k, ...), (k,)
                for lab, v in (("empty", ""), ("blank", "  "), ("a number", 5), ("null", None), ("a list", ["x"])):
                    yield "%s: %s %s" % (T, k, lab), PLAN, put(base, k, v), (k,)
            yield T + ": kind missing", PLAN, put(base, "kind", ...), ("kind",)
            yield T + ": kind unknown", PLAN, put(base, "kind", BAD), ("kind",)
            yield T + ": kind a list", PLAN, put(base, "kind", [kind]), ("kind",)
            for lab, v in (("text", "primary.json"), ("a list", ["a"]), ("null", None)):
                yield "%s: geometry %s" % (T, lab), PLAN, put(base, "geometry", v), ("geometry",)
            for lab, v in (("text", "a"), ("a mapping", {"a": 1}), ("null", None)):
                yield "%s: entities %s" % (T, lab), PLAN, put(base, "geometry", {"source": "s", "entities": v}), ("entities",)
            yield T + ": entities text, no source", PLAN, put(base, "geometry", {"entities": "a"}), ("entities",)
            for lab, v in (("text", "m1 <= 3"), ("a list", [crit()]), ("null", None)):
                yield "%s: acceptance %s" % (T, lab), PLAN, put(base, "acceptance", v), ("acceptance",)
            for i in range(3):
                for lab, v in (("a number", 3.0), ("text", "<= 3"), ("null", None), ("without limit", crit(limit=...)), ("without limit or comparison", {"tolerance": Any("t")}),
                               ("with an unknown comparison", crit(comparison=BAD)), ("without limit, ~=", crit(limit=..., comparison="~=", tolerance=Any("t"))), ("with a null comparison", crit(comparison=None)), ("with a list for comparison", crit(comparison=["<="]))):
                    yield "%s: criterion %d %s" % (T, i, lab), PLAN, put(base, "acceptance", {"m%d" % (j + 1): (v if j == i else crit()) for j in range(3)}), ("m%d" % (i + 1),)
            if kind in WORDS:
                yield T + ": no check", PLAN, put(base, "check", ...), ("check",)
                for lab, v in (("text", "volume"), ("a list", ["volume"]), ("null", None), ("without property", {"units": "mm"}), ("empty", {}), ("of unknown property", {"property": BAD}), ("of another kind's property", {"property": FOREIGN[kind]}),
                               ("of null property", {"property": None}), ("of a list of properties", {"property": ["volume"]})):
                    yield "%s: check %s" % (T, lab), PLAN, put(base, "check", v), ("check",)
                continue
            for lab, v in (("a list", [{"name": "x"}]), ("text", "steel"), ("null", None)):
                yield "%s: materials %s" % (T, lab), PLAN, put(base, "materials", v), ("materials",)
            for lst, mk in (("loads", load), ("boundaryConditions", bc), ("boundary_conditions", bc)):
                b2 = put(put(base, "boundaryConditions", ...), "boundary_conditions", ...) if lst != "loads" else base
                for lab, v in (("a mapping", mk(0)), ("text", "z_min"), ("null", None)):
                    yield "%s: %s %s" % (T, lst, lab), PLAN, put(b2, lst, v), (lst,)
                for i in range(3):
                    for lab, v in (("text", "fixed"), ("null", None), ("a list", ["x"]), ("without type", mk(i, type=...)), ("of unknown type", mk(i, type=BAD)), ("of null type", mk(i, type=None)), ("of a list of types", mk(i, type=["fixed"])), ("bare of unknown type", {"type": BAD}), ("empty", {})):
                        yield "%s: %s[%d] %s" % (T, lst, i, lab), PLAN, put(b2, lst, at(mk, v, i)), ("%s[%d]" % (lst, i),)
            for lst in ("boundaryConditions", "boundary_conditions"):
                b2 = dict(base, boundaryConditions=[bc(0)], boundary_conditions=[bc(0)])
                yield "%s: both spellings, %s[0] of unknown type" % (T, lst), PLAN, put(b2, lst, [bc(0, type=BAD)]), (lst,)
    for size, base in (("smallest", small_result()), ("fullest", full_result())):
        T = "result, %s" % size
        for k in ("plan_id", "status"):
            yield "%s: %s missing" % (T, k), RESULT, put(base, k, ...), (k,)
        for lab, v in (("empty", ""), ("blank", "  "), ("a number", 5), ("null", None)):
            yield "%s: plan_id %s" % (T, lab), RESULT, put(base, "plan_id", v), ("plan_id",)
        yield T + ": status unknown", RESULT, put(base, "status", BAD), ("status",)
        yield T + ": status a list", RESULT, put(base, "status", ["passed"]), ("status",)
        yield T + ": status null", RESULT, put(base, "status", None), ("status",)
        for k in ("metrics", "acceptance_results"):
            for lab, v in (("a list", [Any("x")]), ("text", "x"), ("null", None)):
                yield "%s: %s %s" % (T, k, lab), RESULT, put(base, k, v), (k,)
        for lab, v in (("a mapping", {"path": "x"}), ("text", "x"), ("null", None)):
            yield "%s: artifacts %s" % (T, lab), RESULT, put(base, "artifacts", v), ("artifacts",)
        for i in range(3):
            for lab, v in (("a flag", True), ("text", "ok"), ("null", None)):
                yield "%s: acceptance result %d %s" % (T, i, lab), RESULT, put(base, "acceptance_results", {"m%d" % j: (v if j == i else {"value": Any("v"), "passed": True}) for j in range(3)}), ("m%d" % i,)
                yield "%s: artifact %d %s" % (T, i, lab), RESULT, put(base, "artifacts", at(lambda j: {"path": "p"}, v, i)), ("artifacts[%d]" % i,)


def doubles():
    """Documents with two faults: each is named."""
    bads = {"acceptance": [3.0, crit(limit=...), crit(comparison=BAD)], "loads": ["x", load(0, type=...), load(0, type=BAD)], "boundaryConditions": [None, bc(0, type=...), bc(0, type=BAD)],
            "acceptance_results": [3, None], "artifacts": ["x", None]}
    for sec, bs in bads.items():
        fn, base = (RESULT, full_result()) if sec in ("acceptance_results", "artifacts") else (PLAN, fullest("structural"))
        for x in bs:
            for y in bs:
                if sec in ("acceptance", "acceptance_results"):
                    good = crit() if sec == "acceptance" else {"value": 1, "passed": True}
                    yield "%s: two faults" % sec, fn, put(base, sec, {"m0": x, "m1": good, "m2": y}), ("m0", "m2")
                else:
                    good = {"loads": load(1), "boundaryConditions": bc(1), "artifacts": {"path": "p"}}[sec]
                    yield "%s: two faults" % sec, fn, put(base, sec, [x, good, y]), (sec + "[0]", sec + "[2]")
    secs = {"id": "", "backend": 5, "geometry": "x", "acceptance": [], "materials": "steel", "loads": {}, "boundaryConditions": "x"}
    for a in secs:
        for b in secs:
            if a < b:
                yield "%s and %s wrong" % (a, b), PLAN, put(put(fullest("structural"), a, secs[a]), b, secs[b]), (a, b)
    secs = {"plan_id": "", "status": BAD, "metrics": [], "acceptance_results": [], "artifacts": {}}
    for a in secs:
        for b in secs:
            if a < b:
                yield "%s and %s wrong" % (a, b), RESULT, put(put(full_result(), a, secs[a]), b, secs[b]), (a, b)


def sound():
    """(name, validator, document, warned: None for none expected, or a word of the warning's place or message)"""
    for kind in ("geometric", "measurement", "assembly") + SIM:
        a, b = smallest(kind), fullest(kind)
        yield kind + " plan, smallest", PLAN, a, None
        yield kind + " plan, fullest", PLAN, b, None
        for w in WORDS.get(kind, ()):
            yield "%s plan: property %s" % (kind, w), PLAN, put(a, "check", {"property": w}), None
        for w in WORDS["comparison"]:
            yield "%s plan: comparison %s" % (kind, w), PLAN, put(a, "acceptance", {"m": crit(comparison=w, tolerance=Any("t"))}), None
        yield kind + " plan: empty sections", PLAN, dict(a, acceptance={}, geometry={"source": "s", "entities": []}), None
        if kind in SIM:
            yield kind + " plan, other spelling", PLAN, fullest(kind, "boundary_conditions"), None
            for w in WORDS["bc"]:
                yield "%s plan: condition %s" % (kind, w), PLAN, put(a, "boundaryConditions", [bc(0, type=w)]), None
            for w in WORDS["load"] if kind != "cfd" else ():
                yield "%s plan: load %s" % (kind, w), PLAN, put(a, "loads", [load(0, type=w)]), None
            for i in range(3):
                for lst, mk in (("loads", load), ("boundaryConditions", bc)):
                    if kind == "cfd" and lst == "loads":
                        continue
                    for base in (a, b):
                        yield "%s plan: %s[%d] without surfaces" % (kind, lst, i), PLAN, put(base, lst, at(mk, mk(i, surfaces=...), i)), "%s[%d]" % (lst, i)
                        yield "%s plan: %s[%d] without id" % (kind, lst, i), PLAN, put(base, lst, at(mk, mk(i, id=...), i)), "%s[%d]" % (lst, i)
                    yield "%s plan: %s[%d] by strategy" % (kind, lst, i), PLAN, put(a, lst, at(mk, mk(i, surfaces=..., strategy="z_min"), i)), None
        if kind in ("structural", "thermal"):
            yield kind + " plan: no materials", PLAN, put(b, "materials", ...), "materials"
        for base in (a, b):
            yield kind + " plan: field the schema does not list", PLAN, dict(base, colour=1), "colour"
            yield kind + " plan: geometry without source", PLAN, put(base, "geometry", {"entities": ["a"]}), "source"
            for i in range(3):
                yield "%s plan: criterion %d ~= without tolerance" % (kind, i), PLAN, put(base, "acceptance", {"m%d" % j: crit(comparison="~=" if i == j else "<=") for j in range(3)}), "m%d" % i
    yield "result, smallest", RESULT, small_result(), None
    yield "result, fullest", RESULT, full_result(), None
    for base in (small_result(), full_result()):
        for w in WORDS["status"]:
            yield "result: status " + w, RESULT, put(base, "status", w), None
        yield "result: field the schema does not list", RESULT, dict(base, colour=1), "colour"
        for i in range(3):
            for k in ("value", "passed"):
                yield "result: acceptance result %d without %s" % (i, k), RESULT, put(base, "acceptance_results", {"m%d" % j: put({"value": Any("v"), "passed": True}, k, ... if i == j else 1) for j in range(3)}), "m%d" % i
            yield "result: artifact %d without path" % i, RESULT, put(base, "artifacts", [{"kind": "log"} if i == j else {"path": "p"} for j in range(3)]), "artifacts[%d]" % i


def text(t, eng):
    """The constant text in a term, in order."""
    if t[0] == "const":
        return str(t[1]) if t[1] is not None else ""
    if t[0] == "fstr":
        return "".join(text(x, eng) for x in t[1])
    if t[0] == "bin" and t[1] in ("Add", "Mod"):
        return text(t[2], eng) + text(t[3], eng)
    if t[0] in ("list", "tuple", "set"):
        return " ".join(text(x, eng) for x in t[1])
    if t[0] == "call":
        return " ".join([text(t[1], eng)] + [text(x, eng) for x in t[2]] + [text(x, eng) for _, x in t[3]])
    if t[0] == "attr":
        return text(t[1], eng)
    return ""


class Report:
    def __init__(self, p, eng, o):
        self.valid = self.errors = self.warnings = None
        for v in alts(o.value) if o.value is not None else ():
            if v[0] == "call" and v[1][0] == "class" and v[1][1].endswith(".ValidationReport"):
                c = p.find(v[1][1])
                g = lambda n: eng.ctor_field(v, c, n) if (v, n) not in o.state.heap else o.state.heap[(v, n)]
                x = g("valid")
                if x is not None:
                    x = eng.settled(x, o.state)
                    if x[0] == "const":
                        self.valid = bool(x[1])
                    else:
                        rs = {b for _, b in eng.truth(x, o.state)}
                        self.valid = rs.pop() if len(rs) == 1 else None
                for k in ("errors", "warnings"):
                    x = g(k)
                    if x is not None and x[0] == "list" and not any(y[0] == "star" for y in x[1]):
                        setattr(self, k, [" ".join(text(z, eng) for z in ([*y[2]] + [w for _, w in y[3]] if y[0] == "call" else [y])) for y in x[1]])
                self.found = True
                return
        self.found = False


def walk(ctx, name, doc):
    f = ctx.p.func(name)
    pol = Pol(inline=lambda e, g, d: g.module is f.module, fold=True, loop_iters=3, max_states=400, budget=80000, want_exc=False, list_cap=40)
    return ctx.walk(f, pol, bind={f.params[0]: term(doc)})


def run(ctx):
    p = ctx.p
    selftest(ctx)
    documents(ctx)
    for name, inner in (("validate_plan_file", PLAN), ("validate_result_file", RESULT)):
        files(ctx, p.func(M + "." + name), inner)
    summary(ctx)
    printed(ctx)


def documents(ctx):
    p = ctx.p
    groups = {}
    decided = 0
    for name, fn, doc, words, need in [(*x, any) for x in faults()] + [(*x, all) for x in doubles()]:
        outs, eng = walk(ctx, fn, doc)
        ctx.count("faulty_documents")
        why = None
        for o in outs:
            ctx.count("paths")
            if any(a[0] == "unhashable" for a in o.state.facts):
                decided += 1
                why = why or "ends in an exception (an unhashable value is looked up)"
                continue
            if o.kind != "return":
                decided += 1
                continue
            r = Report(p, eng, o)
            if r.valid is None:
                if r.errors is not None and r.errors == []:
                    why = why or "ends without an error"
                continue
            decided += 1
            if r.valid:
                why = why or "is reported valid"
            elif r.errors == []:
                why = why or "is reported invalid without an error"
            elif r.errors is not None and not need(any(w in e for e in r.errors) for w in words):
                why = why or "no error names %s" % " or ".join(w for w in words if not any(w in e for e in r.errors))
        if why:
            groups.setdefault((fn, name.split(": ", 1)[-1]), (name, why))
        else:
            ctx.ok("invalid", "%s:%s" % (fn.rsplit(".", 1)[1], name))
    for (fn, what), (name, why) in sorted(groups.items()):
        ctx.bad("invalid", "%s:%s" % (fn.rsplit(".", 1)[1], what), "%s: %s" % (name, why), p.func(fn).where)
    groups = {}
    for name, fn, doc, warned in sound():
        outs, eng = walk(ctx, fn, doc)
        ctx.count("sound_documents")
        why = None
        for o in outs:
            ctx.count("paths")
            if o.kind != "return":
                why = why or "ends in an exception"
                continue
            r = Report(p, eng, o)
            if r.valid is None:
                continue
            decided += 1
            if not r.valid or r.errors:
                why = why or "is reported invalid (%s)" % "; ".join((r.errors or [])[:1])[:100]
            elif warned is None and r.warnings:
                why = why or "is warned of (%s)" % r.warnings[0][:100]
            elif warned is not None and r.warnings is not None and not any(warned in w for w in r.warnings):
                why = why or "is not warned of"
        if why:
            groups.setdefault((fn, name), why)
        else:
            ctx.ok("valid", "%s:%s" % (fn.rsplit(".", 1)[1], name))
    for (fn, name), why in sorted(groups.items()):
        ctx.bad("valid", "%s:%s" % (fn.rsplit(".", 1)[1], name), "%s: %s" % (name, why), p.func(fn).where)
    ctx.floor("decided", decided, 700)


def files(ctx, f, inner):
    """Every return of a file validator is an invalid report, or the inner validator's on what was read; a document that is a mapping always reaches it."""
    p = ctx.p
    pol = Pol(inline=lambda e, g, d: g.module is f.module and g.qual not in (PLAN, RESULT), fold=True, want_exc=True, max_states=200, budget=40000)
    outs, eng = ctx.walk(f, pol)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        ctx.count("file_paths")
        v = o.value
        calls = [t for t in alts(v) if t[0] == "call" and t[1] == ("fn", inner)]
        if calls:
            doc = calls[0][2][0] if calls[0][2] else dict(calls[0][3]).get(p.func(inner).params[0])
            read = doc is not None and any(x[0] == "call" and x[1][0] in ("ext", "attr") and str(x[1][-1]).rsplit(".", 1)[-1] in ("safe_load", "load", "loads", "full_load") for x in subterms(doc))
            ctx.check(read, "file", "%s:content" % f.qual, "the validator is not given what was read from the file", f.where)
            continue
        r = Report(p, eng, o)
        if r.found:
            good = r.valid is False and (r.errors is None or len(r.errors) > 0)
            ctx.check(good, "file", "%s:report" % f.qual, "a path that did not validate the content reports it as valid or gives no error", "%s:%d" % (f.module.rel, getattr(o.node, "lineno", 0)))
            for at_, val in o.state.facts.items():
                if at_[0] == "isinstance" and at_[2] == ("ext", "dict") and val:
                    ctx.bad("file", "%s:refused" % f.qual, "a document that is a mapping is refused unread", f.where)
        else:
            ctx.bad("file", "%s:return" % f.qual, "returns something other than a report", "%s:%d" % (f.module.rel, getattr(o.node, "lineno", 0)))
    ctx.floor("file validator returns", n, 2)


def summary(ctx):
    """The summary file an analysis writes holds what the schema requires of a result."""
    p = ctx.p
    f = p.func("yapcad.package.analysis.cli.analyze_package")
    need = ("plan_id", "status")

    def dumps(g):
        return any(isinstance(n, ast.Call) and ast.unparse(n.func) in ("json.dump", "json.dumps") for n in ast.walk(g.node))

    def track(ev, st):
        return ev.kind == "setitem" or ev.kind == "call" and ev.term[1][0] == "fn" and ev.term[1][1].startswith(f.module.name) or ev.kind == "call" and (ev.term[1] in (("ext", "json.dump"), ("ext", "json.dumps")) or ev.term[1][0] == "attr" and ev.term[1][2] in ("setdefault", "update"))
    pol = Pol(inline=lambda e, g, d: g.module is f.module and g is not f and dumps(g), want_exc=False, max_states=200, budget=150000, track=track)
    outs, eng = ctx.walk(f, pol)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        set_ = {}
        for e in o.state.events:
            if e[0] == "setitem":
                set_.setdefault(strip_sites(e[1]), set()).update(x[1] for x in e[2][0:1] if x[0] == "const")
                continue
            t = e[1]
            if t[1][0] == "fn":
                for x in [*t[2]] + [y for _, y in t[3]]:
                    set_.setdefault(strip_sites(x), set()).update(need)  # filled in elsewhere: not decided
                continue
            if t[1][0] == "attr":
                ks = {x[1] for x in t[2][0:1] if x[0] == "const"} if t[1][2] == "setdefault" else {k[1] for x in t[2] if x[0] == "dict" for k, _ in x[1] if k[0] == "const"}
                set_.setdefault(strip_sites(t[1][1]), set()).update(ks)
                continue
            d = t[2][0] if t[2] else dict(t[3]).get("obj")
            if d is None:
                continue
            n += 1
            ks = ({k[1] for k, _ in d[1] if k[0] == "const"} if d[0] == "dict" else set()) | set_.get(strip_sites(d), set())
            for k in need:
                ctx.check(k in ks, "summary", "%s:%s" % (f.qual, k), "the summary of an analysis lacks the result field %r" % k, f.where)
    ctx.floor("summaries", n, 1)


def printed(ctx):
    """The printed report says passed only of a valid one."""
    p = ctx.p
    c = p.cls(M + ".ValidationReport")
    g = p.member(c, "__str__")
    if not isinstance(g, FuncInfo):
        return
    S = ("param", g.params[0])
    for valid in (True, False):
        for errs in (["err1", "err2"], ["err1"]) if not valid else ([],):
            outs, eng = ctx.walk(g, Pol(fold=True, want_exc=False, list_cap=20, loop_iters=4), heap={(S, "valid"): C(valid), (S, "errors"): term([Any(x) for x in errs]), (S, "warnings"): term([Any("w1")])})
            for o in outs:
                if o.kind != "return":
                    continue
                ctx.count("printed_paths")
                have = {x[1] for x in subterms(o.value) if x[0] == "param"}
                ctx.check(valid or "passed" not in text(o.value, eng), "printed", g.qual + ":passed", "an invalid report is printed as passed", g.where)
                gone = [x for x in errs + (["w1"] if not valid else []) if "any_" + x not in have]
                ctx.check(not gone or any(x[0] == "star" for x in subterms(o.value)), "printed", g.qual + ":errors", "an error or warning of an invalid report is not printed", g.where)


FIX = '''
from dataclasses import dataclass, field
@dataclass
class ValidationReport:
    valid: bool
    errors: list = field(default_factory=list)
    warnings: list = field(default_factory=list)
def one(c, path, errors):
    if c not in ("a", "b"):
        errors.append(path)
def validate_plan(data):
    errors = []
    if "id" not in data:
        return ValidationReport(valid=False, errors=["id"])
    for i, c in enumerate(data["cs"]):
        one(c, f"cs[{i}]", errors)
        %s
    return ValidationReport(valid=not errors, errors=errors)
'''


def selftest(ctx):
    for name, stmt, want in (("first only", "break", [False, True]), ("all", "pass", [False, False])):
        with tempfile.TemporaryDirectory() as d:
            base = os.path.join(d, "src", "yapcad")
            os.makedirs(base)
            open(os.path.join(base, "__init__.py"), "w").close()
            with open(os.path.join(base, "t.py"), "w") as fp:
                fp.write(FIX % stmt)
            q = Project(d)

            class X:
                p = q

                @staticmethod
                def walk(f, pol, bind):
                    from ..flow import Engine
                    e = Engine(q, pol)
                    return e.run(f, bind=bind), e
            got = []
            for doc in ({"cs": ["a"]}, {"id": 1, "cs": ["a", "z"]}):
                outs, eng = walk(X, "yapcad.t.validate_plan", doc)
                got.append(any(Report(q, eng, o).valid is not False for o in outs))
        ctx.selftest(name, got == want)
