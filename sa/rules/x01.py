"""X01: data never runs as code, and evaluation leaves the host alone."""
import ast

from ..dsl import ident
from ..flow import show
from ..lib import *
from ..refs import Refs, Slicer, chain, effect, ext_name as xname, own_nodes

EVAL = ("yapcad.dsl.lexer", "yapcad.dsl.parser", "yapcad.dsl.checker", "yapcad.dsl.symbols", "yapcad.dsl.types", "yapcad.dsl.meta_apply", "yapcad.dsl.tokens", "yapcad.dsl.ast")
AST = "yapcad.dsl.ast"

PROP = dict(
    id="X01", title="Data never runs as code, and evaluation leaves the host alone",
    statement="Only a DSL module's own python and native blocks are ever run as Python: no other text of a module, package, manifest, plan, part description or request is passed to exec, eval, compile or an import, or chooses an attribute to call. Files that come from outside are loaded as plain data (never by a loader that can build arbitrary objects), and what is written can be read back by those loaders. External programs are started with an argument list whose program is a fixed name or one found on the search path, never through a shell. Parsing, checking and evaluating DSL code starts no process, opens no connection and creates, changes or removes no file but temporary files it named itself, and puts back every process-wide setting it changes, also when it fails.",
    over=["inputs", "programs", "fault_sequences"], text="all DSL programs, packages, manifests, plans and requests",
    why="A test runs benign programs and files; whether some input can reach exec, a shell, an object-building loader or the file system depends on every sink and every flow into it.",
    files=["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/boolean/trimesh_engine.py", "src/yapcad/package/core.py", "src/yapcad/package/signing.py", "src/yapcad/package/analysis/calculix.py", "src/yapcad/brep.py", "src/yapcad/fasteners/catalog.py"],
    mech=[("python and native blocks", "src/yapcad/dsl/runtime/interpreter.py: _execute_python_block, _execute_native_block, _eval_python_expr"),
          ("safe loaders", "src/yapcad/package/core.py: PackageManifest.load; analysis/base.py: load_plan; fasteners/catalog.py"),
          ("argument lists", "src/yapcad/package/signing.py, analysis/calculix.py, viewer/api_server.py")],
    observe=["sys.modules, the file system, os.environ after an evaluation", "process arguments"],
    technique="whole-tree sink inventory with backward slicing of every sink argument, and an effect analysis over all functions reachable from the DSL front end and runtime",
    note="Every call in src, tools and service is classified; sink arguments are sliced through locals, parameters (all callers) and returns.",
)
EXPLAIN = ("Every exec/eval/compile/import sink and the leaves its argument is built from; every loader and dumper; every process start and its program and arguments; every host effect in any "
           "function reachable by reference from the DSL front end and runtime; every change of os.environ on every path including exceptions.")
ASSUME = ["functions are reached by naming them or their class", "a name given by tempfile is the library's own file"]

OBJ_LOAD = ("pickle.", "cPickle.", "dill.", "cloudpickle.", "marshal.", "shelve.", "jsonpickle.", "joblib.", "_pickle.")
SAFE_YAML = ("yaml.SafeLoader", "yaml.CSafeLoader", "yaml.loader.SafeLoader", "yaml.BaseLoader", "yaml.CBaseLoader")
SAFE_DUMP = ("yaml.SafeDumper", "yaml.CSafeDumper", "yaml.dumper.SafeDumper")
SHELLS = {"sh", "bash", "zsh", "cmd", "cmd.exe", "powershell", "/bin/sh", "/bin/bash", "env", "python", "python3"}


def calls_of(p):
    """(function or None, module, call) for every call in the tree."""
    for m in sorted(p.modules.values(), key=lambda m: m.name):
        inside = set()
        for f in p.all_funcs(m):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    inside.add(id(n))
                    yield f, m, n
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and id(n) not in inside:
                yield None, m, n


def code_classes(p):
    """DSL syntax-tree classes that carry Python text."""
    out = set()
    for c in p.all_classes(p.mod(AST)):
        if any(isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == "code" for s in c.node.body):
            out.add(c.name)
    return out


def own_code(p, S, f, m, node, classes, seen=()):
    """An attribute .code of a syntax-tree node that carries Python text."""
    if node.attr != "code" or not isinstance(node.value, ast.Name) or f is None:
        return False

    def ann(g, name):
        a = next((a for a in ast.walk(g.node.args) if isinstance(a, ast.arg) and a.arg == name), None)
        if a is not None and a.annotation is not None:
            names = {x.id for x in ast.walk(a.annotation) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(a.annotation) if isinstance(x, ast.Attribute)} | \
                    {x.value for x in ast.walk(a.annotation) if isinstance(x, ast.Constant)}
            return bool(names & classes) and not (names - classes - {"Union", "Optional", "ast", "None", None})
        return None
    for k, g, x in S.bindings(f, m, node.value.id) or []:
        if k == "param":
            r = ann(g, x)
            if r is None and g.qual not in seen:
                cs = S.callers(g)
                r = bool(cs)
                for cf, cm, call in cs:
                    a = S.actual(g, call, x)
                    if a is None or not isinstance(a, ast.Name):
                        r = False
                    else:
                        r = r and own_code(p, S, cf, cm, ast.Attribute(a, "code", ast.Load()), classes, seen + (g.qual,))
            if not r:
                return False
        elif k == "expr" and isinstance(x, ast.Name) and len(seen) < 6:
            if not own_code(p, S, g, m, ast.Attribute(x, "code", ast.Load()), classes, seen + (x.id,)):
                return False
        else:
            return False
    return True


def leaf_ok(p, S, leaf, classes):
    k, f, x = leaf
    if k == "const":
        return True
    if k == "attr":
        return own_code(p, S, f, f.module if f else None, x, classes)
    return False


def code_sinks(ctx, p, S, sites):
    classes = code_classes(p)
    ctx.floor("syntax-tree classes with Python text", len(classes), 3)
    n = 0
    for f, m, c in sites:
        e = effect(p, f, m, c)
        if not e or e[0] != "code":
            continue
        if e[1] == "builtins.compile" and f is not None and not c.args:
            continue
        n += 1
        ctx.count("code sinks")
        where = "%s:%d" % (m.rel, c.lineno)
        args = [a.value if isinstance(a, ast.Starred) else a for a in c.args[:1]] or [k.value for k in c.keywords]
        for a in args:
            for leaf in S.sources(f, m, a):
                ctx.check(leaf_ok(p, S, leaf, classes), "code-sink", "%s in %s" % (e[1].split(".")[-1], f.qual if f else m.name),
                          "text that is not a module's own python or native block reaches %s: %s" % (e[1].split(".")[-1], ast.unparse(leaf[2])[:60]), where)
    ctx.floor("exec, eval and import sinks", n, 6)
    for f, m, c in sites:
        # a syntax-tree node with Python text is made by the parser, or copied from another one
        r = chain(p, f, m, c.func)
        if isinstance(r, ClassInfo) and r.module.name == AST and r.name in classes:
            where = "%s:%d" % (m.rel, c.lineno)
            if m.name == "yapcad.dsl.parser":
                ctx.ok("python-node", r.name, where)
                continue
            a = next((k.value for k in c.keywords if k.arg == "code"), c.args[0] if c.args else None)
            good = a is not None and all(k == "attr" and x.attr == "code" for k, g, x in S.sources(f, m, a))
            ctx.check(good, "python-node", "%s in %s" % (r.name, f.qual if f else m.name), "a %s is built outside the parser from other text" % r.name, where)
        # an attribute picked by data and called
        if isinstance(c.func, ast.Call) and xname(p, f, m, c.func.func) == "builtins.getattr" and len(c.func.args) > 1 and m.name.startswith(("yapcad.dsl", "service")):
            bad = [x for k, g, x in S.sources(f, m, c.func.args[1]) if k != "const"]
            ctx.check(not bad, "picked-call", f.qual if f else m.name, "the attribute that is called is chosen by data: %s" % (ast.unparse(bad[0])[:50] if bad else ""), "%s:%d" % (m.rel, c.lineno))


def resolves_to(p, S, f, m, node, names, depth=0):
    """The class an expression denotes is one of names or derives from one."""
    r = chain(p, f, m, node)
    if isinstance(r, tuple) and r[0] == "ext":
        return r[1] in names
    if isinstance(r, ClassInfo):
        return any(resolves_to(p, S, None, r.module, b, names, depth + 1) for b in r.node.bases) if depth < 5 else False
    if isinstance(node, ast.Name):
        bs = S.bindings(f, m, node.id) or []
        return bool(bs) and depth < 5 and all(k == "expr" and resolves_to(p, S, g, m, x, names, depth + 1) for k, g, x in bs)
    if isinstance(node, ast.Call) and xname(p, f, m, node.func) == "builtins.getattr" and len(node.args) == 3:
        a = node.args
        return isinstance(a[1], ast.Constant) and any(n.endswith("." + a[1].value) for n in names) and resolves_to(p, S, f, m, a[2], names, depth + 1)
    return False


def plain(ctx, p, S, sites):
    n = 0
    for f, m, c in sites:
        q = xname(p, f, m, c.func)
        if not q:
            continue
        where = "%s:%d" % (m.rel, c.lineno)
        who = f.qual if f else m.name
        if q.startswith(OBJ_LOAD) and q.split(".")[-1] in ("load", "loads", "open", "Unpickler", "decode"):
            ctx.bad("object-loader", "%s in %s" % (q, who), "%s can build any object or run code from the file it reads" % q, where)
        elif q.split(".")[0] == "yaml":
            fn = q.split(".")[-1]
            kw = {k.arg: k.value for k in c.keywords}
            if fn in ("safe_load", "safe_load_all"):
                n += 1
                ctx.ok("plain-load", who, where)
            elif fn in ("load", "load_all"):
                n += 1
                L = kw.get("Loader", c.args[1] if len(c.args) > 1 else None)
                ctx.check(L is not None and resolves_to(p, S, f, m, L, SAFE_YAML), "object-loader", "%s in %s" % (fn, who), "yaml.%s is called without a safe loader: a tag in the file can build any object" % fn, where)
            elif fn in ("unsafe_load", "full_load", "unsafe_load_all", "full_load_all", "Loader", "UnsafeLoader", "FullLoader"):
                ctx.bad("object-loader", "%s in %s" % (fn, who), "yaml.%s builds objects named by tags in the file" % fn, where)
            elif fn in ("dump", "dump_all"):
                n += 1
                D = kw.get("Dumper", c.args[2] if len(c.args) > 2 else None)
                ctx.check(D is not None and resolves_to(p, S, f, m, D, SAFE_DUMP), "plain-dump", "%s in %s" % (fn, who),
                          "yaml.%s writes tuples and other objects with Python tags, which the plain loaders refuse to read back" % fn, where)
        elif q in ("numpy.load", "numpy.loadtxt", "numpy.genfromtxt"):
            n += 1
            ap = next((k.value for k in c.keywords if k.arg == "allow_pickle"), None)
            ctx.check(ap is None or (isinstance(ap, ast.Constant) and not ap.value), "object-loader", "numpy.load in " + who, "numpy.load is allowed to unpickle objects", where)
        elif q in ("torch.load", "pandas.read_pickle"):
            ctx.bad("object-loader", "%s in %s" % (q, who), "%s unpickles the file" % q, where)
        elif q in ("json.load", "json.loads"):
            n += 1
            ctx.check(not any(k.arg in ("object_hook", "object_pairs_hook", "cls") and not (isinstance(k.value, ast.Constant)) for k in c.keywords), "json-hook", who, "json is loaded through a hook that builds objects", where)
    ctx.floor("loaders and dumpers", n, 15)


def programs(ctx, p, S, sites):
    n = 0
    for f, m, c in sites:
        q = xname(p, f, m, c.func)
        if not q:
            continue
        where = "%s:%d" % (m.rel, c.lineno)
        who = f.qual if f else m.name
        if q in ("os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput", "asyncio.create_subprocess_shell", "pty.spawn"):
            leaves = S.sources(f, m, c.args[0]) if c.args else []
            ctx.check(bool(leaves) and all(k == "const" for k, g, x in leaves), "shell", "%s in %s" % (q, who), "a command line built from data is given to a shell", where)
            continue
        if q not in ("subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "asyncio.create_subprocess_exec", "os.execv", "os.execvp", "os.spawnv", "os.spawnvp"):
            continue
        n += 1
        sh = next((k.value for k in c.keywords if k.arg == "shell"), None)
        ctx.check(sh is None or all(k == "const" and not x.value for k, g, x in S.sources(f, m, sh)), "shell", "%s in %s" % (q, who), "the command is run through a shell", where)
        argv = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == "args"), None)
        if argv is None:
            ctx.bad("argv", who, "a process is started without a visible argument list", where)
            continue
        heads = argv_heads(p, S, f, m, argv, {})
        ctx.check(bool(heads), "argv", who, "the command is not an argument list", where)
        for kind, g, x in heads:
            ctx.check(kind == "prog", "argv", who, "the command is not an argument list with a fixed program: %s" % ast.unparse(x)[:60], where)
    ctx.floor("processes started", n, 8)


def argv_heads(p, S, f, m, e, seen, depth=0):
    """('prog'|'other', function, expr) for the first element of every list the expression can be."""
    if depth > 8 or (f, id(e)) in seen:
        return []
    seen[(f, id(e))] = True
    if isinstance(e, (ast.List, ast.Tuple)):
        h = e.elts[0] if e.elts else None
        if h is None:
            return [("other", f, e)]
        if isinstance(h, ast.Starred):
            return argv_heads(p, S, f, m, h.value, seen, depth + 1)
        out = []
        for k, g, x in S.sources(f, m, h):
            fixed = k == "const" and (x.value is None or isinstance(x.value, str) and x.value and x.value not in SHELLS)
            which = k == "call" and xname(p, g, g.module if g else m, x.func) == "shutil.which"
            exe = k == "attr" and ast.unparse(x) == "sys.executable"
            out.append(("prog" if fixed or which or exe else "other", g, x))
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return argv_heads(p, S, f, m, e.left, seen, depth + 1)
    if isinstance(e, ast.IfExp):
        return argv_heads(p, S, f, m, e.body, seen, depth + 1) + argv_heads(p, S, f, m, e.orelse, seen, depth + 1)
    if isinstance(e, ast.Call):
        q = xname(p, f, m, e.func)
        if q in ("builtins.list", "builtins.tuple") and e.args:
            return argv_heads(p, S, f, m, e.args[0], seen, depth + 1)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "copy":
            return argv_heads(p, S, f, m, e.func.value, seen, depth + 1)
        r = chain(p, f, m, e.func)
        if isinstance(r, FuncInfo):
            out = []
            for n in own_nodes(r.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    out += argv_heads(p, S, r, r.module, n.value, seen, depth + 1)
            return out
        return [("other", f, e)]
    if isinstance(e, ast.Name):
        out = []
        for k, g, x in S.bindings(f, m, e.id) or [("other", f, e)]:
            if k == "param":
                for cf, cm, call in S.callers(g):
                    a = S.actual(g, call, x)
                    if a is not None:
                        out += argv_heads(p, S, cf, cm, a, seen, depth + 1)
            elif k == "expr":
                if isinstance(x, (ast.List, ast.Tuple, ast.Name, ast.Call, ast.BinOp, ast.IfExp)) and not appended(g, e.id, x):
                    out += argv_heads(p, S, g, g.module if g else m, x, seen, depth + 1)
            else:
                out.append(("other", g, x))
        return out
    if isinstance(e, ast.Constant) and e.value is None:
        return []
    return [("other", f, e)]


def appended(g, name, x):
    """x is something added to the end of the list called name, not what it starts with."""
    if g is None:
        return False
    for n in own_nodes(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") and isinstance(n.func.value, ast.Name) and n.func.value.id == name and any(a is x for a in n.args):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "insert" and isinstance(n.func.value, ast.Name) and n.func.value.id == name and any(a is x for a in n.args):
            return not (isinstance(n.args[0], ast.Constant) and n.args[0].value == 0)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is x:
            return True
    return False


def from_temp(p, S, f, m, e):
    """The path comes from an object made by tempfile."""
    def root(x):
        while isinstance(x, (ast.Attribute, ast.BinOp, ast.Call)):
            if isinstance(x, ast.Call):
                q = xname(p, f, m, x.func)
                if q and q.startswith("tempfile."):
                    return x
                if q in ("os.path.join", "pathlib.Path", "builtins.str", "os.fspath") and x.args:
                    x = x.args[0]
                    continue
                if isinstance(x.func, ast.Attribute) and q is None:
                    x = x.func.value
                    continue
                return x
            x = x.value if isinstance(x, ast.Attribute) else x.left
        return x
    todo, n = [(f, m, e)], 0
    seen = set()
    while todo:
        g, mm, x = todo.pop()
        x = root(x)
        if (g, id(x)) in seen:
            continue
        seen.add((g, id(x)))
        if isinstance(x, ast.Call):
            q = xname(p, g, mm, x.func)
            if not (q and q.startswith("tempfile.")):
                r = chain(p, g, mm, x.func)
                if isinstance(r, FuncInfo):
                    rs = [y.value for y in own_nodes(r.node) if isinstance(y, ast.Return) and y.value is not None]
                    if rs:
                        todo += [(r, r.module, y) for y in rs]
                        continue
                return False
            n += 1
        elif isinstance(x, ast.Name):
            bs = S.bindings(g, mm, x.id)
            if not bs:
                return False
            for k, h, y in bs:
                if k == "param":
                    cs = [(cf, cm, S.actual(h, call, y)) for cf, cm, call in S.callers(h)]
                    if not cs or any(a is None for _, _, a in cs):
                        return False
                    todo += cs
                elif k in ("expr", "other") and isinstance(y, ast.AST):
                    todo.append((h, h.module if h else mm, y.elts[0] if isinstance(y, ast.Tuple) and y.elts else y))
                else:
                    return False
        else:
            return False
        if len(seen) > 60:
            return False
    return n > 0


def target_of(n):
    if isinstance(n.func, ast.Attribute) and n.func.attr in ("write_text", "write_bytes", "unlink", "mkdir", "rmdir", "touch", "open", "chmod", "symlink_to") and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("os", "io", "codecs", "gzip")):
        return n.func.value
    return n.args[0] if n.args else None


def host(ctx, p, S, R):
    roots = [f for m in p.modules.values() if m.name in EVAL or m.name.startswith(("yapcad.dsl.runtime", "yapcad.dsl.transforms")) for f in p.all_funcs(m, False)]
    par = R.reach(roots)
    ctx.floor("functions of the DSL front end and runtime", len(roots), 300)
    ctx.floor("functions reachable from them", len(par), 900)
    ctx.count("functions analysed for host effects", len(par))
    envs = []
    for f in sorted(par, key=lambda f: f.qual):
        todo = list(own_nodes(f.node))
        for n in todo:
            e = effect(p, f, f.module, n)
            if not e:
                continue
            kind, what = e
            where = "%s:%d" % (f.module.rel, n.lineno)
            path = " <- ".join(reversed(R.path(par, f)[-4:]))
            if kind in ("read", "code"):
                continue
            ctx.count("host effects judged")
            if kind == "temp":
                ctx.ok("host", "%s in %s" % (what, f.qual), where)
            elif kind == "env":
                envs.append(f)
            elif kind == "write":
                t = target_of(n)
                ctx.check(t is not None and from_temp(p, S, f, f.module, t), "host", "%s in %s" % (what, f.qual), "evaluating DSL code can change a file it did not create itself (%s)" % path, where)
            else:
                ctx.bad("host", "%s in %s" % (what, f.qual), "evaluating DSL code can %s (%s)" % ({"proc": "start or end a process", "net": "open a connection", "state": "change a process-wide setting"}[kind], path), where)
    return envs


def env_restored(ctx, p, funcs):
    """On every path, including exceptions, os.environ ends up with what it held before."""
    for f in sorted(set(funcs), key=lambda f: f.qual):
        keys = set()

        def env(t):
            return t == ("ext", "os.environ")

        def ev(e, st, eng):
            u = st.user or frozenset()
            t = e.term
            if e.kind == "setitem" and env(t):
                k, v = strip_sites(e.args[0]), e.args[1]
                keys.add(k)
                rest = v[0] != "const" and any(x[0] == "call" and iscall(x, ".get", "os.getenv", ".pop") and x[2] and strip_sites(x[2][0]) == k and x[4] in {y[1] for y in u if y[0] == "read"} for x in alts(v)) \
                    or (v[0] == "item" and env(v[1]))
                st.user = frozenset(x for x in u if x[:2] != ("dirty", k)) | (frozenset() if rest else {("dirty", k)})
            elif e.kind == "del" and env(t):
                k = strip_sites(e.args[0])
                keys.add(k)
                st.user = frozenset(x for x in u if x[:2] != ("dirty", k))
            elif e.kind == "call" and (iscall(t, "os.environ.pop", "os.unsetenv") or (iscall(t, ".pop") and env(t[1][1]))):
                k = strip_sites(t[2][0])
                keys.add(k)
                st.user = frozenset(x for x in u if x[:2] != ("dirty", k))
            elif e.kind == "call" and (iscall(t, "os.environ.get", "os.getenv") or (iscall(t, ".get") and t[1][0] == "attr" and env(t[1][1]))):
                st.user = u | {("read", t[4])} if ("dirty", strip_sites(t[2][0])) not in u else u
            elif e.kind == "call" and iscall(t, "os.environ.update", "os.environ.clear", "os.environ.setdefault", "os.putenv"):
                st.user = u | {("dirty", C("*"))}

        def may(t):
            return not iscall(t, ".lower", ".upper", ".strip", ".get", "os.getenv", ".format", "os.environ.pop", "os.environ.get", "builtins.len", "builtins.str", "builtins.isinstance")
        outs, eng = ctx.walk(f, Pol(inline=lambda e, g, d: g.module is f.module and any(effect(p, g, g.module, n) and effect(p, g, g.module, n)[0] == "env" for n in own_nodes(g.node)),
                                    on_event=ev, exc_exits=True, may_raise=may))
        ctx.floor("paths through " + f.name, len(outs), 2)
        for o in outs:
            d = [x for x in (o.state.user or ()) if x[0] == "dirty"]
            ctx.check(not d, "env-restored", f.qual, "a path (%s) leaves the environment variable %s changed" % (o.kind, show(d[0][1]) if d else ""), f.where)
        ctx.check(bool(keys), "env-restored", f.qual, "the change of the environment could not be followed", f.where)


def run(ctx):
    p = ctx.p
    S, R = Slicer(p), Refs(p)
    sites = list(calls_of(p))
    ctx.floor("call sites classified", len(sites), 8000)
    code_sinks(ctx, p, S, sites)
    plain(ctx, p, S, sites)
    programs(ctx, p, S, sites)
    env_restored(ctx, p, host(ctx, p, S, R))
