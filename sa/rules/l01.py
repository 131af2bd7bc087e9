"""L01: every internal reference the code makes resolves and is called with arguments its target accepts."""
import ast
import builtins
import importlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

from ..project import REPO, AnchorError

PROP = dict(
    id="L01", title="Every reference to yapCAD's own code resolves and fits its target",
    statement="Wherever yapCAD's code names one of its own modules, functions, classes, class or instance attributes, enum members, or passes positional or keyword arguments to one of its own functions or constructors, that module, name or attribute exists and the target accepts those arguments. No operation fails, or silently falls back inside an except clause, because it names something yapCAD does not define.",
    over=["programs"], text="every import, name, attribute and call site of the source tree",
    why="A missing name only fails when its line runs; rarely used branches, optional-dependency code and swallowed exceptions keep it from any test.",
    files=["src/yapcad", "service"],
    mech=[("all modules", "src/yapcad/**/*.py, service/**/*.py")],
    observe=["AttributeError, NameError, TypeError or ImportError raised or swallowed by the named construct"],
    technique="name, attribute and call-signature resolution over the type-checked program (mypy's semantic graph) plus an internal-import resolver",
    note="Decides references whose target is statically typed: modules, imports, classes, constructed or annotated instances. An attribute of a value of unknown type is decided only when nothing in the program has an attribute of that name.",
)
EXPLAIN = ("The whole tree is type-checked; every unresolved name, every attribute read on a yapCAD module, class, enum or instance that no class of its hierarchy defines or assigns, every attribute read whose name nothing in the program or its libraries has, and every "
           "call to a yapCAD callable with missing, unknown or too many arguments is a violation, as is an import of a yapCAD module that does not exist and a typing-only import used at run time. Code after a raise or return is ignored.")
ASSUME = ["mypy's inference of the types of names, constructed objects and annotated parameters"]

MYPY = ["mypy", "--config-file=", "--ignore-missing-imports", "--check-untyped-defs", "--no-error-summary", "--allow-redefinition-new", "--local-partial-types",
        "--no-color-output", "--hide-error-context", "--cache-dir=/dev/null"]
LINE = re.compile(r"^(.*?):(\d+): error: (.*)  \[([a-z-]+)\]$")


def files(root):
    out = []
    for base in ("src/yapcad", "service"):
        for d, ds, fs in os.walk(os.path.join(root, base)):
            ds[:] = sorted(x for x in ds if x != "__pycache__" and not x.startswith("."))
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".py")]
    return out


class Index:
    """Names every class defines or receives, dead lines, enclosing functions, import tables."""

    def __init__(self, root):
        self.root = root
        self.trees = {}
        self.classes = {}     # simple name -> list of (members, bases)
        self.funcs = set()
        self.stored = set()   # every attribute name assigned through some object
        self.mods = set()
        self.modnames = set()
        for f in files(root):
            rel = os.path.relpath(f, root)
            with open(f, encoding="utf-8") as fh:
                t = ast.parse(fh.read())
            self.trees[rel] = t
            q = rel[4:] if rel.startswith("src/") else rel
            q = q[:-3].replace("/", ".")
            q = q[:-9] if q.endswith(".__init__") else q
            self.mods.add(q)
            self.modnames |= set(q.split("."))
            for n in ast.walk(t):
                if isinstance(n, ast.ClassDef):
                    mem = set()
                    for m in ast.walk(n):
                        if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                            mem.add(m.name)
                        elif isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Store):
                            mem.add(m.attr)
                        elif isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                            mem.add(m.id)
                        elif isinstance(m, ast.Constant) and isinstance(m.value, str):
                            mem.add(m.value)      # setattr / __slots__ / namedtuple style declarations
                    bases = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "?" for b in n.bases]
                    self.classes.setdefault(n.name, []).append((mem, bases))
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") or \
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__":
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            self.stored.add(a.value)

    def where(self, rel, line):
        """Dotted name of the innermost function or class holding the line."""
        best = []

        def go(n, path):
            nonlocal best
            for c in ast.iter_child_nodes(n):
                p = path
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if not c.lineno <= line <= c.end_lineno:
                        continue
                    p = path + [c.name]
                    best = p
                go(c, p)
        go(self.trees[rel], [])
        return ".".join(best) or "<module>"

    def dead(self, rel, line):
        """Is the line after a statement of its own block that never completes?"""
        for n in ast.walk(self.trees[rel]):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Raise, ast.Return, ast.Continue, ast.Break)) and i + 1 < len(b):
                        if b[i + 1].lineno <= line <= b[-1].end_lineno:
                            return True
        return False

    def family(self, name, seen=None):
        """Members of a class, its bases and its subclasses (by simple name)."""
        up, todo, out, ext = set(), [name], set(), False
        while todo:
            c = todo.pop()
            if c in up:
                continue
            up.add(c)
            for mem, bases in self.classes.get(c, []):
                out |= mem
                todo += bases
        todo, down = [name], set()
        while todo:
            c = todo.pop()
            if c in down:
                continue
            down.add(c)
            for k, defs in self.classes.items():
                for mem, bases in defs:
                    if c in bases:
                        out |= mem
                        todo.append(k)
        return out


def split_mangled(a):
    m = re.match(r"^_([A-Za-z0-9]\w*?)(__\w+)$", a)
    return (m.group(1), m.group(2)) if m else (None, a)


def judge(ix, rel, line, msg, cat):
    """(kind, name) when the message is an unresolved internal reference, else None."""
    if cat == "name-defined":
        m = re.match(r'Name "(\w+)" is not defined', msg)
        return ("name", m.group(1)) if m else None
    if cat == "attr-defined":
        m = re.match(r'Module(?: "([\w.]+)")? has no attribute "(\w+)"', msg)
        if m:
            if m.group(1) and m.group(1).split(".")[0] not in ("yapcad", "service"):
                return None
            return ("module attribute", m.group(2))
        m = re.match(r'"(?:type\[)?([\w.]+)\]?" has no attribute "(\w+)"', msg)
        if not m:
            return None
        c, a = m.group(1).split(".")[-1], m.group(2)
        if c not in ix.classes:
            return None
        fam = ix.family(c)
        k, plain = split_mangled(a)
        if a in fam or (k and plain in fam):
            return None
        if a in ix.stored:
            # assigned through some object of unknown class: only members of the very class may rely on it
            if not msg.startswith('"type['):
                return None
        return ("attribute of %s" % c, a)
    if cat == "call-arg":
        for rx in (r'Unexpected keyword argument "(\w+)" for "(\w+)"', r'(?:Missing (?:positional|named) arguments? (".*") in call to) "(\w+)"',
                   r'(Too many) (?:positional )?arguments for "(\w+)"', r'(Too few) arguments for "(\w+)"', r'Missing (named) argument .* for "(\w+)"'):
            m = re.match(rx, msg)
            if m and (m.group(2) in ix.classes or m.group(2) in ix.funcs):
                return ("call of %s" % m.group(2), m.group(1).replace('"', ""))
    return None


def typecheck(root, targets):
    r = subprocess.run(MYPY + targets, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600,
                       env={**{k: v for k, v in os.environ.items() if not k.startswith("MYPY")}, "PYTHONDONTWRITEBYTECODE": "1"})
    if r.returncode not in (0, 1):
        raise AnchorError("mypy could not analyse the tree: %s" % (r.stdout + r.stderr).strip()[-200:])
    out = []
    for l in r.stdout.splitlines():
        m = LINE.match(l)
        if m:
            out.append((m.group(1), int(m.group(2)), m.group(3), m.group(4)))
    return out


def imports(ix):
    """(rel, node, module wanted) of every import of an internal module."""
    for rel, t in ix.trees.items():
        q = (rel[4:] if rel.startswith("src/") else rel)[:-3].replace("/", ".")
        pkg = q[:-9].split(".") if q.endswith(".__init__") else q.split(".")[:-1]
        for n in ast.walk(t):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == "yapcad":
                        yield rel, n, a.name
            elif isinstance(n, ast.ImportFrom):
                if n.level:
                    base = pkg[:len(pkg) - (n.level - 1)]
                    m = ".".join(base + ([n.module] if n.module else []))
                else:
                    m = n.module or ""
                if m.split(".")[0] in ("yapcad", "service") or n.level:
                    yield rel, n, m


def typing_only(t):
    """Names bound only under `if TYPE_CHECKING` and read where the value is needed."""
    only, other, uses = {}, set(), []
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in t.body)

    def bind(n, tc):
        for a in n.names:
            nm = (a.asname or a.name).split(".")[0]
            (only.setdefault(nm, n) if tc else other.add(nm))

    def go(n, tc, ann):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            bind(n, tc)
            return
        if isinstance(n, ast.If) and (isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING" or isinstance(n.test, ast.Attribute) and n.test.attr == "TYPE_CHECKING"):
            for c in n.body:
                go(c, True, ann)
            for c in n.orelse:
                go(c, False, ann)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                if not ann:
                    uses.append(n)
            else:
                other.add(n.id)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            other.add(n.name)
        if isinstance(n, ast.arg):
            other.add(n.arg)
        for f, v in ast.iter_fields(n):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    go(c, tc, ann or f in ("annotation", "returns"))
    go(t, False, False)
    for u in uses:
        if u.id in only and u.id not in other:
            yield u


NDARRAY = set("""T all any argmax argmin argsort astype base choose clip compress conj copy cumprod cumsum data diagonal dot dtype fill flags flat flatten imag item
itemsize max mean min nbytes ndim nonzero partition prod ravel real repeat reshape resize round searchsorted shape size sort squeeze std strides sum swapaxes take tobytes
tofile tolist trace transpose var view linalg norm array eye""".split())
LIBS = {"numpy", "yaml"}


def vocabulary(ix):
    """Every attribute name that some object could have: defined or stored in yapCAD, built in, or in a standard module yapCAD imports."""
    v = set(ix.stored) | ix.funcs | set(ix.classes) | NDARRAY
    for defs in ix.classes.values():
        for mem, _ in defs:
            v |= mem
    third = {}
    mods = set()
    for rel, t in ix.trees.items():
        for n in ast.walk(t):
            if isinstance(n, ast.Import):
                ms = [a.name for a in n.names]
                v |= {(a.asname or a.name).split(".")[-1] for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                ms = [n.module] if n.module and not n.level else []
                v |= {a.asname or a.name for a in n.names}
            else:
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
                    v |= {a.value.lstrip("-").replace("-", "_") for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
                    v |= {k.value.value for k in n.keywords if k.arg in ("dest",) and isinstance(k.value, ast.Constant)}
                elif isinstance(n, ast.Call):
                    d = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                    if d in ("add_subparsers", "set_defaults", "SimpleNamespace", "Namespace", "namedtuple", "type", "make_dataclass"):
                        v |= {k.arg for k in n.keywords if k.arg} | {k.value.value for k in n.keywords if isinstance(k.value, ast.Constant) and isinstance(k.value.value, str)}
                        for a in n.args:
                            v |= {c.value for c in ast.walk(a) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
                continue
            for m in ms:
                top = m.split(".")[0]
                if top in sys.stdlib_module_names:
                    mods.add(m)
                elif top not in ("yapcad", "service"):
                    third.setdefault(rel, set()).add(top)
        for n in t.body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    v.add(x.id)
    v |= set(ix.modnames)
    for o in [getattr(builtins, k) for k in dir(builtins)] + [types.FunctionType, types.ModuleType, types.GeneratorType, types.TracebackType, types.CodeType, types.FrameType, types.MethodType]:
        v |= set(dir(o))
    v |= set(dir(builtins))
    for m in sorted(mods):
        try:
            mod = importlib.import_module(m)
        except Exception:
            continue
        for k in dir(mod):
            v.add(k)
            v |= set(dir(getattr(mod, k, None)))
    return v, third


def external_roots(t):
    """Local names bound to third-party modules or members of them."""
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] not in sys.stdlib_module_names and a.name.split(".")[0] not in ("yapcad", "service"):
                    out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            if n.module.split(".")[0] not in sys.stdlib_module_names and n.module.split(".")[0] not in ("yapcad", "service"):
                out |= {a.asname or a.name for a in n.names}
    return out


def base_of(r):
    while isinstance(r, (ast.Attribute, ast.Call, ast.Subscript)):
        r = r.func if isinstance(r, ast.Call) else r.value
    return r.id if isinstance(r, ast.Name) else None


def unknown_attributes(ix):
    v, third = vocabulary(ix)
    for rel, t in ix.trees.items():
        if third.get(rel, set()) - LIBS:
            continue
        roots = external_roots(t)
        # a third-party module handed on through a local name
        for n in ast.walk(t):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                r = n.value
                while isinstance(r, (ast.Attribute, ast.Call, ast.Subscript)):
                    r = r.func if isinstance(r, ast.Call) else r.value
                if isinstance(r, ast.Name) and r.id in roots:
                    roots.add(n.targets[0].id)
            elif isinstance(n, ast.ClassDef) and any(base_of(b) in roots for b in n.bases):
                roots |= {n.name, "self", "cls"} | {a.arg for f in n.body if isinstance(f, ast.FunctionDef) for a in f.args.args}
        # a callback handed to a third-party object gets third-party arguments
        for n in ast.walk(t):
            if isinstance(n, ast.Call) and base_of(n.func) in roots:
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Lambda):
                        roots |= {x.arg for x in a.args.args}
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr not in v:
                r = n.value
                while isinstance(r, (ast.Attribute, ast.Call, ast.Subscript)):
                    r = r.func if isinstance(r, ast.Call) else r.value
                if isinstance(r, ast.Name) and r.id in roots:
                    continue
                k, plain = split_mangled(n.attr)
                if k and plain in v:
                    continue
                yield rel, n


def analyse(ctx, root, selftest=False):
    ix = Index(root)
    bad, n = [], 0
    for rel, node, m in imports(ix):
        n += 1
        known = m in ix.mods
        if not known:
            bad.append((rel, node.lineno, "module", m, "imports %s, which does not exist" % m))
    for rel, t in ix.trees.items():
        for u in typing_only(t):
            bad.append((rel, u.lineno, "name", u.id, "uses %s at run time, but it is imported only for type checking" % u.id))
    for rel, u in unknown_attributes(ix):
        if not ix.dead(rel, u.lineno):
            bad.append((rel, u.lineno, "attribute", u.attr, "no class, module or object of the program has an attribute %s" % u.attr))
    for rel, line, msg, cat in typecheck(root, [d for d in ("src/yapcad", "service") if os.path.isdir(os.path.join(root, d))]):
        if rel not in ix.trees:
            continue
        j = judge(ix, rel, line, msg, cat)
        if j and not ix.dead(rel, line):
            bad.append((rel, line, j[0], j[1], msg))
    return ix, bad, n


SELF = {
    "src/yapcad/__init__.py": "",
    "src/yapcad/a.py": "from enum import Enum\nclass K(Enum):\n    A = 1\nclass R:\n    def __init__(self, x):\n        self.x = x\n    def m(self, a: int, b: int = 1):\n        return a\ndef f(a: int, *, k: int = 1) -> R:\n    return R(a)\n",
    "src/yapcad/b.py": "from . import a\nfrom yapcad.a import f, K\nfrom typing import TYPE_CHECKING\nif TYPE_CHECKING:\n    from yapcad.a import R\n"
    "def g1():\n    return a.nothere(1)\ndef g2():\n    return f(1).yyy\ndef g3():\n    return K.BB\ndef g4():\n    return f(1, kk=2)\ndef g5():\n    return f(1).m()\ndef g6():\n    return undefinedname\n"
    "def g7():\n    from yapcad.zz import q\n    return q\ndef g8():\n    try:\n        from yapcad.a import gone\n    except ImportError:\n        return None\n    return gone\ndef g9(v):\n    return isinstance(v, R)\n"
    "def g10(v):\n    return v.notdefinedanywhere\ndef ok(v):\n    raise ValueError()\n    return undefined2\n",
}


def run(ctx):
    tmp = tempfile.mkdtemp(prefix="l01self")
    try:
        for f, s in SELF.items():
            os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True)
            with open(os.path.join(tmp, f), "w") as fh:
                fh.write(s)
        ix, bad, _ = analyse(ctx, tmp)
        hit = {ix.where(r, l) for r, l, *_ in bad}
        for g in range(1, 11):
            ctx.selftest("unresolved reference of kind g%d is reported" % g, "g%d" % g in hit)
        ctx.selftest("code after raise is not judged", "ok" not in hit)
    finally:
        shutil.rmtree(tmp)
    root = os.environ.get("VERIF_REPO", REPO)
    ix, bad, nimp = analyse(ctx, root)
    refs = calls = 0
    badmods = {}
    for rel, line, kind, name, msg in bad:
        key = "%s::%s:%s:%s" % (rel, ix.where(rel, line), kind, name)
        ctx.bad("unresolved", key, "%s: %s names %s %s, which yapCAD does not define or accept (%s)" % (rel, ix.where(rel, line), kind, name, msg), "%s:%d" % (rel, line))
        badmods[rel] = True
    for rel, t in ix.trees.items():
        k = 0
        for n in ast.walk(t):
            if isinstance(n, (ast.Name, ast.Attribute)):
                k += 1
            elif isinstance(n, ast.Call):
                calls += 1
        refs += k
        if rel not in badmods:
            ctx.ok("unresolved", rel, "%d names and attributes" % k)
    ctx.floor("files", len(ix.trees), 90)
    ctx.floor("names and attributes", refs, 50000)
    ctx.floor("call sites", calls, 10000)
    ctx.floor("internal imports", nimp, 400)
