"""D09: a command line tool exits with 0 only if it did all it was asked for."""
import ast
import re

from ..flow import C, FALSE, NONE
from ..lib import Pol, strip_sites, subterms
from ..project import ClassInfo, FuncInfo
from ..refs import own_nodes

PROP = dict(
    id="D09", title="A command line tool exits with 0 only if it did all it was asked",
    statement="python -m yapcad.dsl (check, list, run) and the package tools (validate, export, analyze) report success to the caller exactly when the work was done: they return 0 only if the call that did the work reported success, every requested output file was handed to a writer that did not report failure, every option given on the command line was taken into account, and no error or warning that something could not be done was printed; and the exit status of the process is the value main() returns.",
    over=["inputs", "configurations"], text="every path through main() of each command line tool, for every combination of options",
    why="The tools' exit status is what scripts and build systems go by; whether each combination of options, geometry kind and output format ends in the right status is a matter of many paths, of which tests (which call the library, not the tool) run none.",
    files=["src/yapcad/dsl/__main__.py", "src/yapcad/package/analysis/cli.py", "tools/ycpkg_validate.py", "tools/ycpkg_export.py", "tools/ycpkg_analyze.py", "tools/ycpkg_viewer.py"],
    mech=[("command line tools", "src/yapcad/dsl/__main__.py, src/yapcad/package/analysis/cli.py, tools/ycpkg_*.py")],
    observe=["a path that returns 0 after a failure, without the requested output or without regard to a given option"],
    technique="path enumeration of each tool's main() with its command functions inlined; per path, facts about results and events (writers, messages) are matched against the exit value and the option table read from the argparse calls",
    note="What the library functions behind the tools do is decided by other properties. Options whose help text ties them to another option count only where that one is given; on/off flags are not required to be consulted on every path.",
)
EXPLAIN = ("main() of each tool is walked symbolically (all paths, helper functions of the module inlined). On each path that returns 0: verdict attributes (success, has_errors, ...) and boolean statuses of calls that did the work must be known to be good; each option that may be set must occur in a fact or call; an output option must reach a writing call; "
           "no printed constant may announce an error. Module level must pass main()'s value to sys.exit or SystemExit.")
ASSUME = ["a message that announces a failure starts with Error, Warning, Failed, Cannot, Could not, Unknown or Unsupported"]

PROBLEM = re.compile(r"^\W*(error|warning|fail|cannot|can't|could not|unknown|unsupported|invalid)", re.I)
GOOD = {"success": True, "ok": True, "passed": True, "is_valid": True, "valid": True, "has_errors": False, "failed": False}
WRITER = re.compile(r"^_*(write|export|save|create|package|dump|to_|render|open|mkdir|touch|copy|unlink)|_(from|to)_")
PURE = {"str", "print", "len", "getattr", "repr", "bool", "isinstance", "type", "pathlib.Path", "Path", "os.path.exists", "os.fspath", "os.path.splitext", "os.path.abspath", "os.path.dirname", "os.path.join", "os.path.basename"}


def tools(p):
    """main() functions that parse a command line, with the status they report."""
    for name in ("yapcad.dsl.__main__", "yapcad.package.analysis.cli", "tools.ycpkg_validate", "tools.ycpkg_export", "tools.ycpkg_viewer"):
        m = p.modules.get(name)
        if m is not None:
            f = m.funcs.get("main")
            if f is not None:
                yield m, f


def options(m):
    """{dest: (value option?, help, action)} from the add_argument calls."""
    sub = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "add_parser" and n.value.args and isinstance(n.value.args[0], ast.Constant):
            sub[n.targets[0].id if isinstance(n.targets[0], ast.Name) else None] = n.value.args[0].value
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
            flags = [a.value for a in n.args if isinstance(a, ast.Constant)]
            kw = {k.arg: k.value for k in n.keywords}
            dest = kw["dest"].value if isinstance(kw.get("dest"), ast.Constant) else None
            if dest is None:
                long = [f for f in flags if f.startswith("--")] or [f for f in flags]
                dest = long[0].lstrip("-").replace("-", "_") if long else None
            act = kw["action"].value if isinstance(kw.get("action"), ast.Constant) else None
            hlp = ""
            if "help" in kw:
                hlp = " ".join(x.value for x in ast.walk(kw["help"]) if isinstance(x, ast.Constant) and isinstance(x.value, str))
            v = n.func.value
            out[(sub.get(v.id) if isinstance(v, ast.Name) else None, dest)] = (act in (None, "append", "store", "extend"), hlp, any(f.startswith("-") for f in flags))
    return out


_SEEN = {}
_TERM = {}


def bare(t):
    k = id(t)
    r = _TERM.get(k)
    if r is None or r[0] is not t:
        r = _TERM[k] = (t, strip_sites(t))
    return r[1]


def option_terms(t):
    """Names of the options mentioned in a term."""
    k = _SEEN.get(id(t))
    if k is None or k[0] is not t:
        k = _SEEN[id(t)] = (t, frozenset(_options_in(t)))
    return k[1]


def _options_in(t):
    out = set()
    for x in subterms(t):
        if x[0] == "attr" and isinstance(x[1], tuple) and parsed(x[1]):
            out.add(x[2])
        if x[0] == "call" and x[1] == ("ext", "getattr") and len(x[2]) >= 2 and parsed(x[2][0]) and x[2][1][0] == "const":
            out.add(x[2][1][1])
    return out


def parsed(t):
    return t[0] == "call" and t[1][0] in ("attr", "ext") and str(t[1][-1]).split(".")[-1] in ("parse_args", "parse_known_args") or t[0] == "param" and t[1] in ("args", "opts", "options", "namespace")


def callee(t):
    f = t[1]
    return str(f[2]) if f[0] == "attr" else str(f[1])


def text_of(t):
    """Constant beginning of a printed message."""
    if not t[2]:
        return ""
    a = t[2][0]
    if a[0] == "const" and isinstance(a[1], str):
        return a[1]
    if a[0] == "fstr" and a[1] and a[1][0][0] == "const":
        return str(a[1][0][1])
    return ""


def failing(p, q):
    """Does a repo function report failure by returning False without having written through another writer?"""
    f = p.find(q)
    if not isinstance(f, FuncInfo):
        return False
    par = {c: (x, fld) for x in ast.walk(f.node) for fld in ("body", "orelse", "finalbody") for c in (getattr(x, fld, None) if isinstance(getattr(x, fld, None), list) else ())}
    names = set(f.params)
    for n in own_nodes(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and n.value.value is False:
            x, fld = par.get(n, (None, None))
            before = []
            if x is not None:
                blk = getattr(x, fld)
                before = blk[:blk.index(n)]
            wrote = any(isinstance(c, ast.Call) and any(isinstance(a, ast.Name) and a.id in names for a in c.args) and WRITER.match((c.func.id if isinstance(c.func, ast.Name) else getattr(c.func, "attr", ""))) for s in before for c in ast.walk(s))
            if not wrote:
                return True
    return False


def direct(a):
    """The argument is an option, as such or as a path or text."""
    while a[0] == "call" and a[2] and callee(a).split(".")[-1] in ("Path", "str", "fspath", "resolve", "expanduser", "abspath"):
        a = a[2][0]
    return a[0] == "attr" and parsed(a[1])


def returns(p, t):
    f = p.find(t[1][1])
    if not isinstance(f, FuncInfo) or f.node.returns is None:
        return ""
    a = f.node.returns
    return a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else ast.unparse(a)


def verdicts(p, t):
    """Verdict attributes of the class that a repo function returns."""
    if t[1][0] != "fn":
        return []
    f = p.find(t[1][1])
    if not isinstance(f, FuncInfo) or f.node.returns is None:
        return []
    a = f.node.returns
    nm = a.value if isinstance(a, ast.Constant) else ast.unparse(a)
    c = p.resolve_dotted(f.module, str(nm).strip("'\""))
    if not isinstance(c, ClassInfo):
        return []
    own = {n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return [g for g in GOOD if g in c.fields or g in own or p.member(c, g) is not None]


def problems(p, m, opts, o, action=None):
    """Complaints about a path that ends with status 0."""
    facts = {bare(k): v for k, v in o.state.facts.items()}
    truth = {k[1]: v for k, v in facts.items() if k[0] == "truth"}
    calls = [bare(e[1]) for e in o.state.events if e[0] == "call"]
    seen = set()
    for k in facts:
        seen |= option_terms(k)
    for t in calls:
        seen |= option_terms(t)
    for k, v in facts.items():
        if k[0] == "eq" and v and k[2][0] == "const" and option_terms(k[1]):
            if any(s == k[2][1] for s, _ in opts):
                action = k[2][1]
    false = set()
    for k, v in truth.items():
        if v is False and k[0] == "attr" and parsed(k[1]):
            false.add(k[2])
    for k, v in facts.items():
        if k[0] == "eq" and k[2] == NONE and v and k[1][0] == "attr" and parsed(k[1][1]):
            false.add(k[1][2])
    for t in calls:
        if t[1] in (("ext", "print"), ("ext", "builtins.print")) or callee(t) in ("error", "warning", "critical"):
            s = text_of(t)
            if PROBLEM.match(s):
                yield "status-after-problem", s.strip()[:40], "returns 0 after announcing %r" % s.strip()[:60]
    for t in calls:
        for g in verdicts(p, t):
            v = truth.get(("attr", t, g))
            if v is not GOOD[g]:
                yield "verdict", "%s.%s" % (callee(t).split(".")[-1], g), "returns 0 although %s of %s is %s" % (g, callee(t), "not looked at" if v is None else v)
                break
        if t[1][0] == "fn" and option_terms(t) and returns(p, t).lower().startswith(("tuple[bool", "typing.tuple[bool")):
            v = [x for k, x in truth.items() if k[0] == "item" and k[1] == t and k[2] in (0, C(0))]
            if v[-1:] != [True]:
                yield "verdict", callee(t).split(".")[-1], "returns 0 although the verdict of %s is %s" % (callee(t), "not looked at" if not v else v[-1])
        if t[1][0] == "fn" and returns(p, t) == "bool" and any(direct(a) for a in t[2]) or t[1][0] == "fn" and WRITER.match(callee(t).split(".")[-1]):
            if failing(p, t[1][1]) and truth.get(t) is not True:
                yield "writer-status", callee(t).split(".")[-1], "returns 0 although %s reported failure or its status was not looked at" % callee(t)
    for (act, d), (value, hlp, dashed) in opts.items():
        if act is not None and act != action:
            continue
        if not value or d in seen or d in false:
            continue
        w = set(re.findall(r"\w+", hlp.lower()))
        if any(e != d and e in w and (e in false or e not in seen) for (_, e) in opts):
            continue
        yield "option-unused", "%s" % d, "returns 0 without regard to the option %s" % d
    if m.rel.startswith("tools/") and any(d in ("output", "out") for _, d in opts):
        if not any(t[1][0] in ("fn", "localfn", "attr") and re.match(r"_*(write|export|save|dump|render)", callee(t).split(".")[-1]) for t in calls):
            yield "nothing-written", "main", "returns 0 on a path on which nothing is written"
    for d in ("output", "out"):
        if any(e == d for _, e in opts) and d in seen and d not in false and known_set(truth, d):
            if not any(d in option_terms(t) and t[1][0] in ("fn", "localfn", "attr", "ext", "class") and WRITER.search(callee(t).split(".")[-1]) for t in calls):
                yield "output-unwritten", d, "returns 0 without handing --%s to a writer" % d


def known_set(truth, d):
    return any(v is True and k[0] == "attr" and k[2] == d and parsed(k[1]) for k, v in truth.items())


def exits(m):
    """Does the module pass the value of main() to the operating system?"""
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in ("exit", "SystemExit", "_exit") and any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "main") for a in n.args for x in ast.walk(a)):
                return True
            if nm in ("exit", "SystemExit", "_exit") and n.args and isinstance(n.args[0], ast.Name):
                v = n.args[0].id
                if any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in x.targets) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "main" for x in ast.walk(m.tree)):
                    return True
    return False


def reports(g):
    """A helper that decides about the exit status: it is given the options, returns a status or complains."""
    if any(a in ("args", "opts", "options", "namespace", "argv", "ns") for a in g.params) or g.outer is not None and g.outer.node.name == "main":
        return True
    if g.node.returns is not None and ast.unparse(g.node.returns) in ("int", "Optional[int]", "int | None", "bool"):
        return True
    for n in own_nodes(g.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            return True
        if isinstance(n, ast.Attribute) and n.attr == "stderr":
            return True
    return False


def walk_main(ctx, m, f):
    lib = set()
    for v in m.assigns.get("__all__", []):
        try:
            lib |= set(ast.literal_eval(v))
        except Exception:
            pass
    lib.discard("main")
    pol = Pol(inline=lambda e, g, d: g.module is m and g.node.name not in lib and reports(g), track=lambda ev, st: ev.kind == "call", max_states=6000, loop_iters=1,
              fact_key=lambda a: a[0] == "eq" and bool(option_terms(a)))
    return ctx.walk(f, pol)


def run(ctx):
    p = ctx.p
    total = n = 0
    for m, f in tools(p):
        n += 1
        ctx.check(exits(m), "exit-status", m.name, "%s does not pass the value of main() to sys.exit" % m.rel, m.rel)
        opts = options(m)
        outs, eng = walk_main(ctx, m, f)
        zero = 0
        bad = set()
        todo = [(None, o) for o in outs]
        # command functions that main() reaches through a table
        reached = {g.qual if isinstance(g, FuncInfo) else g for g in eng.inlined}
        acts = {a for a, _ in opts if a}
        for g in m.funcs.values():
            if g is not f and g.qual not in reached and reports(g) and any(a in ("args", "opts", "options", "namespace", "ns") for a in g.params):
                os2, _ = walk_main(ctx, m, g)
                todo += [(next((a for a in sorted(acts) if a in g.node.name), None), o) for o in os2]
        for act, o in todo:
            if o.kind != "return":
                continue
            v = o.value if o.value is not None else NONE
            if v not in (C(0), NONE, FALSE):
                continue        # a failure, or a status computed elsewhere
            zero += 1
            for rule, what, msg in problems(p, m, opts, o, act):
                if (rule, what) not in bad:
                    bad.add((rule, what))
                    ctx.bad(rule, "%s:%s" % (m.name, what), msg, f.where)
        if not bad:
            ctx.ok("success-path", m.name, "%d paths return 0" % zero)
        ctx.count("options", len(opts))
        total += zero
        ctx.floor("paths of %s that return 0" % m.name, zero, 1)
    ctx.floor("command line tools", n, 4)
    ctx.count("success paths", total)
