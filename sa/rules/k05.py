"""K05: what a package records about its files is what is stored."""
import ast

from ..dsl import ident
from ..lib import *
from ..flow import show
from .k08 import dd
from .k09 import get

CORE = "yapcad.package.core"
SIGN = "yapcad.package.signing"
DPK = "yapcad.dsl.packaging"

PROP = dict(
    id="K05", title="Package entries describe the stored files; building destroys nothing",
    statement="Every manifest entry yapCAD writes for a stored file (primary geometry, imported derived geometry and attachments, the DSL source) names the file that was written, relative to the package, with a hash computed over all the bytes stored there, whatever extra metadata the caller passes. Files are written only below the package root. A non-empty package directory or an existing file is not overwritten unless that was asked for, a refused request writes nothing, recording a file replaces only the entry of the same path, adding a signature keeps the files of earlier signatures, and a manifest that cannot be serialised leaves the one on disk intact.",
    over=["inputs", "histories", "fault_sequences"], text="all entities, files, destinations, metadata and prior package contents",
    why="Tests add one file to a fresh package; a wrong hash, a clobbered directory or a lost entry shows only when the package is used again.",
    files=["src/yapcad/package/core.py", "src/yapcad/dsl/packaging.py", "src/yapcad/package/signing.py"],
    mech=[("package creation and file import", "src/yapcad/package/core.py: create_package_from_entities, add_geometry_file, PackageManifest.save"),
          ("hashing", "src/yapcad/package/core.py: _compute_hash"),
          ("DSL source attachment", "src/yapcad/dsl/packaging.py: _add_dsl_source_attachment"),
          ("signature files", "src/yapcad/package/signing.py: sign_package")],
    observe=["manifest.yaml entries", "files below the package root"],
    technique="path-sensitive dataflow with a known manifest: effect order, provenance of recorded paths and hashes, containment",
    note="Each builder is walked with symbolic files and a manifest with known entries; every path's file effects and the manifest it leaves are compared with what was stored.",
)
EXPLAIN = ("Every path through package creation, file import, DSL source attachment, signing and saving, for each combination of existing files, overwrite flag, category, destination and "
           "metadata: order of refusals and file effects, the path and hash recorded, other entries kept.")
ASSUME = ["pathlib, hashlib and shutil do what their documentation says", "geometry_to_json gives the document of the entities (its own property)"]

WRITES = (".mkdir", ".write_text", ".write_bytes", "shutil.copy2", "shutil.copy", "shutil.copyfile", "shutil.move", "shutil.copytree", "shutil.rmtree", ".unlink", ".rename", ".replace",
          "os.remove", "os.rename", "os.replace", "os.makedirs", ".touch", ".symlink_to", ".hardlink_to", "json.dump", "yaml.safe_dump", "yaml.dump")


def is_write(t):
    if iscall(t, ".open", "open") and t[0] == "call":
        m = arg(t, "mode", 1 if t[1][0] == "ext" else 0)
        return m is not None and m[0] == "const" and any(c in str(m[1]) for c in "wax+")
    if iscall(t, "yaml.safe_dump", "yaml.dump") and len(t[2]) < 2 and arg(t, "stream") is None:
        return False
    if iscall(t, ".replace") and len(t[2]) > 1:
        return False
    return iscall(t, *WRITES)


def target(t):
    if iscall(t, "shutil.copy2", "shutil.copy", "shutil.copyfile", "shutil.move", "shutil.copytree"):
        return arg(t, "dst", 1)
    if t[1][0] == "attr":
        return t[1][1]
    return t[2][0] if t[2] else None


def hashing(ctx, p):
    fi = p.func(CORE + "._compute_hash")
    news, ups = [], []
    loops = [n for n in ast.walk(fi.node) if isinstance(n, (ast.For, ast.While))]

    def ev(e, st, eng):
        if e.kind == "call":
            if iscall(e.term, "hashlib.new"):
                news.append(e.term)
            elif e.term[1][0] == "ext" and e.term[1][1].startswith("hashlib."):
                news.append(e.term)
            if iscall(e.term, ".update") and e.term[2]:
                ups.append((e.term[2][0], e.node, e.where))
    P, A = ident("path"), ident("alg")
    outs, eng = ctx.walk(fi, Pol(inline={CORE}, on_event=ev, loop_iters=1), bind={fi.params[0]: P, fi.params[1]: A})
    ctx.check(bool(news), "hash", "algorithm", "no hash object is made", fi.where)
    for t in news:
        ctx.check(mentions_term(t, A), "hash", "algorithm", "the hash is %s whatever algorithm is asked for" % show(t)[:40], fi.where)
    for x, node, where in ups:
        reads = [y for y in subterms(x) if y[0] == "call" and iscall(y, ".read", ".read_bytes")]
        lam = [n for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "iter" and len(n.args) == 2]
        inside = any(node in ast.walk(l) for l in loops)
        sized = [r for r in reads if iscall(r, ".read") and (r[2] or r[3])]
        ctx.check(inside or not sized, "hash", "all-bytes", "only the first block of the file is hashed", where)
        for n in lam:
            ctx.check(isinstance(n.args[1], ast.Constant) and n.args[1].value == b"", "hash", "until-end", "reading stops at %s, not at the end of the file" % ast.unparse(n.args[1]), where)
        if inside:
            for l in loops:
                for n in ast.walk(l):
                    if isinstance(n, ast.Break):
                        first = l.body[0] if l.body else None
                        ok = any(isinstance(i, ast.If) and n in i.body and isinstance(i.test, ast.UnaryOp) and isinstance(i.test.op, ast.Not) for i in ast.walk(l))
                        ctx.check(ok, "hash", "until-end", "the loop over the file's blocks is left before its end", where)
    ctx.floor("hash updates", len(ups), 1)
    binary = False
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and ((isinstance(n.func, ast.Attribute) and n.func.attr == "open") or (isinstance(n.func, ast.Name) and n.func.id == "open")):
            ms = [a.value for a in list(n.args) + [k.value for k in n.keywords] if isinstance(a, ast.Constant)]
            ctx.check(any("b" in str(m) for m in ms), "hash", "binary", "the file is hashed as text", fi.where)
    for o in outs:
        if o.kind == "return":
            t = o.value
            ctx.check(mentions_term(t, A) and any(iscall(x, ".hexdigest") for x in subterms(t) if x[0] == "call") and any(x == C(":") for x in subterms(t)), "hash", "form", "the hash recorded is %s" % show(t)[:60], fi.where)


def importing(ctx, p):
    fi = p.func(CORE + ".add_geometry_file")
    MAN, ROOT, SRC = ident("manifest"), ident("root"), ident("src")
    oth = dd((("path", C("$other.step")), ("hash", ident("oh"))), "oth")
    n = 0
    cases = [(cat, dest, meta) for cat in ("derived", "attachments", "$nonsense") for dest in (None, "sub/x.step") for meta in (False, True)]
    cases += [("derived", d, False) for d in ("../x.step", "geometry/../../x.step", "/abs/x.step")]
    for cat, dest, meta in cases:
        effects, hashes = [], []
        bad_dest = dest is not None and dest != "sub/x.step"

        def ev(e, st, eng):
            if e.kind != "call":
                return
            t = e.term
            if is_write(t):
                q = target(t)
                und = [a for a in st.facts if dest and mentions_term(a, C(dest)) and not (a[0] == "eq" and C(dest) in a[1:])]
                effects.append((t, q, dict(st.facts), bool(und), e.where))
                if not iscall(t, ".mkdir"):
                    st.user = (st.user or frozenset()) | {("w", strip_sites(q))}
            if iscall(t, CORE + "._compute_hash"):
                hashes.append((t, st.user or frozenset(), e.where))
        mine = None
        data = dd((("geometry", dd((("primary", ident("prim")), ("derived", ("list", (oth,), ("site", "$d", 0, 0)))), "geom")),
                   ("attachments", ("list", (oth,), ("site", "$a", 0, 0))), ("name", ident("pkgname"))), "data")
        md = dd((("path", ident("evilpath")), ("hash", ident("evilhash")), ("material", ident("mat"))), "md") if meta else NONE
        OV = ident("ov")
        heap = {(MAN, "data"): data, (MAN, "root"): ROOT}
        facts = {("truth", md): True} if meta else {}
        outs, eng = ctx.walk(fi, Pol(inline=lambda e, g, d: g.module.name == CORE and g.name != "_compute_hash", fold=True, on_event=ev, loop_iters=3),
                             bind={"manifest": MAN, "source": SRC, "dest_relative": C(dest) if dest else NONE, "category": C(cat), "metadata": md, "overwrite": OV, "purpose": NONE},
                             heap=heap, facts=facts, types={MAN: p.cls(CORE + ".PackageManifest")})
        c = "%s, %s%s" % (cat, dest or "default destination", ", metadata" if meta else "")
        if cat == "$nonsense" or bad_dest:
            ctx.check(not [x for x in effects if not x[3]], "refused-clean", c, "a refused request writes to disk first: %s" % (show(effects[0][0])[:60] if effects else ""), effects[0][4] if effects else "")
            if cat == "$nonsense":
                ctx.check(not any(o.kind == "return" for o in outs), "refused", c, "an unknown category is accepted", fi.where)
            continue
        copies = [x for x in effects if not iscall(x[0], ".mkdir")]
        ctx.check(bool(copies), "stored", c, "nothing is copied into the package", fi.where)
        for t, q, f, und, where in effects:
            ctx.check(q is not None and mentions_term(q, ROOT), "inside", c, "a file is written at %s, outside the package" % show(q)[:60], where)
        for t, q, f, und, where in copies:
            n += 1
            # never overwrite unless asked
            free = any(a[0] == "truth" and not v and a[1][0] == "call" and iscall(a[1], ".exists", ".is_file") and strip_sites(a[1][1][1]) == strip_sites(q) for a, v in f.items())
            asked = f.get(("truth", OV)) is True
            ctx.check(free or asked, "overwrite", c, "an existing file is overwritten although that was not asked for", where)
            ctx.check(iscall(t, "shutil.copy2", "shutil.copy", "shutil.copyfile") and mentions_term(t[2][0], SRC) or not iscall(t, "shutil.copy2", "shutil.copy", "shutil.copyfile"), "source", c, "what is copied is %s, not the source" % show(t[2][0])[:50], where)
            ctx.check(any(a[0] == "truth" and v and a[1][0] == "call" and iscall(a[1], ".exists", ".is_file") and mentions_term(a[1], SRC) for a, v in f.items()), "source-exists", c, "the source is copied without having been found to exist", where)
        for o in outs:
            if o.kind != "return":
                continue
            d = o.state.heap.get((MAN, "data"))
            lst = get(get(d, "geometry"), "derived") if cat == "derived" else get(d, "attachments")
            keep = get(d, "attachments") if cat == "derived" else get(get(d, "geometry"), "derived")
            ctx.check(keep is not None and keep[1] == (oth,), "other-section", c, "entries of the other section are changed", fi.where)
            ctx.check(get(d, "name") == ident("pkgname") and get(get(d, "geometry"), "primary") == ident("prim"), "rest", c, "other manifest content is changed", fi.where)
            if not ctx.check(lst is not None and lst[0] == "list", "recorded", c, "the section is not a list any more", fi.where):
                continue
            same = any(a[0] == "eq" and v and C("$other.step") in a[1:] for a, v in o.state.facts.items())
            ctx.check(same or oth in lst[1], "others", c, "an entry of another path is dropped", fi.where)
            new = [e for e in lst[1] if e != oth]
            if not ctx.check(len(new) == 1, "one-entry", c, "%d entries are recorded for the file" % len(new), fi.where):
                continue
            e = new[0]
            pth, hsh = get(e, "path"), get(e, "hash")
            ctx.check(e == o.value or (o.value[0] == "dict" and o.value[2] == e[2]), "returned", c, "the entry returned is not the one recorded", fi.where)
            stored = [q for t, q, f, und, w in copies]
            ctx.check(hsh is not None and hsh[0] == "call" and iscall(hsh, CORE + "._compute_hash") and any(strip_sites(hsh[2][0]) == strip_sites(q) for q in stored), "hash-of-stored", c,
                      "the hash recorded is %s, not that of the stored file" % (show(hsh)[:70] if hsh else "missing"), fi.where)
            rels = [q for q in stored if q[0] == "bin" and q[1] == "Div"]
            ctx.check(pth is not None and not mentions_term(pth, ident("evilpath")) and ((dest is not None and pth == C(dest)) or any(mentions_term(strip_sites(pth), strip_sites(q[3])) or mentions_term(strip_sites(pth), strip_sites(q)) for q in rels)), "path-of-stored", c,
                      "the path recorded is %s, the file is stored at %s" % (show(pth)[:50] if pth else "missing", show(stored[0])[:50]), fi.where)
            if meta:
                ctx.check(get(e, "material") == ident("mat"), "metadata-kept", c, "the caller's metadata is not recorded", fi.where)
        for t, u, where in hashes:
            ctx.check(("w", strip_sites(t[2][0])) in u, "hash-after-store", c, "the hash is taken before the file is stored, or of another file", where)
    ctx.floor("file imports", n, 8)
    # an entry for the same path is replaced
    for cat in ("derived", "attachments"):
        old = dd((("path", C("sub/x.step")), ("hash", ident("oldhash"))), "old")
        lst = ("list", (oth, old), ("site", "$l", 0, 0))
        data = dd((("geometry", dd((("derived", lst),), "geom")),), "data") if cat == "derived" else dd((("attachments", lst),), "data")
        PTH = C("sub/x.step")

        def hook(eng, t, st, node):
            if t[1] == ("ext", "str") or iscall(t, ".as_posix"):
                if any(mentions_term(x, PTH) for x in t[2] + (t[1],)):
                    return [(st, PTH)]
        outs, eng = ctx.walk(fi, Pol(inline=lambda e, g, d: g.module.name == CORE and g.name != "_compute_hash", fold=True, call_hook=hook, loop_iters=3),
                             bind={"manifest": MAN, "source": SRC, "dest_relative": PTH, "category": C(cat), "metadata": NONE, "overwrite": TRUE, "purpose": NONE},
                             heap={(MAN, "data"): data, (MAN, "root"): ROOT}, types={MAN: p.cls(CORE + ".PackageManifest")})
        for o in outs:
            if o.kind == "return":
                d = o.state.heap.get((MAN, "data"))
                l2 = get(get(d, "geometry"), "derived") if cat == "derived" else get(d, "attachments")
                ps = [get(e, "path") for e in l2[1]] if l2 is not None and l2[0] == "list" else []
                ctx.check(ps.count(PTH) == 1 and C("$other.step") in ps and not any(mentions_term(e, ident("oldhash")) for e in (l2[1] if l2 else ())), "replaced", cat, "importing a file again leaves entries %s" % [show(x) for x in ps], fi.where)


def creating(ctx, p):
    fi = p.func(CORE + ".create_package_from_entities")
    ENT, NAME, VER, UN, ALG, MATS, OV, GEN = (ident(x) for x in ("ents", "name", "version", "units", "alg", "mats", "ov", "gen"))
    for occupied in (True, False):
        for ov in (True, False):
            effects, hashes, saved = [], [], []

            def ev(e, st, eng):
                if e.kind != "call":
                    return
                t = e.term
                if is_write(t):
                    effects.append((t, e.where))
                    if iscall(t, "json.dump") or iscall(t, ".open", "open", ".write_text"):
                        st.user = (st.user or frozenset()) | {("w", strip_sites(target(t)) if not iscall(t, "json.dump") else strip_sites(t[2][0]))}
                if iscall(t, CORE + "._compute_hash"):
                    hashes.append((t, st.user or frozenset(), e.where))
                if iscall(t, CORE + ".PackageManifest.save", ".save"):
                    st.user = (st.user or frozenset()) | {("saved",)}

            def hook(eng, t, st, node):
                if iscall(t, ".exists", ".is_dir") and not any(x[0] == "bin" for x in subterms(t[1])):
                    return [(st, C(occupied))]
                if t[1] == ("ext", "any") or iscall(t, ".iterdir"):
                    if t[1] == ("ext", "any"):
                        return [(st, C(occupied))]
            outs, eng = ctx.walk(fi, Pol(inline=lambda e, g, d: g.module.name == CORE and g.name not in ("_compute_hash", "_collect_tags", "_collect_material_refs", "save"), fold=True, on_event=ev, call_hook=hook),
                                 bind={"entities": ENT, "name": NAME, "version": VER, "units": UN, "hash_algorithm": ALG, "materials": MATS, "overwrite": C(ov), "generator": GEN},
                                 facts={("truth", ENT): True, ("truth", UN): True, ("truth", MATS): True, ("truth", GEN): True})
            c = "%s directory, overwrite=%s" % ("occupied" if occupied else "new", ov)
            if occupied and not ov:
                ctx.check(not effects and not any(o.kind == "return" for o in outs), "occupied", c, "a non-empty directory is written to although overwriting was not asked for", effects[0][1] if effects else fi.where)
                continue
            rets = [o for o in outs if o.kind == "return"]
            ctx.check(bool(rets), "creates", c, "no package is created", fi.where)
            for t, where in effects:
                q = target(t)
                if q is not None and not iscall(t, "json.dump"):
                    ctx.check(mentions_term(q, ("param", "target_dir")), "inside", c, "a file is made at %s, outside the target directory" % show(q)[:60], where)
            for o in rets:
                m = o.value
                d = o.state.heap.get((m, "data"), arg(m, "data", 1)) if m[0] == "call" else None
                if not ctx.check(d is not None and d[0] == "dict", "manifest", c, "the manifest returned has no known data", fi.where):
                    continue
                prim = get(get(d, "geometry"), "primary")
                pth, hsh = get(prim, "path"), get(prim, "hash")
                okh = hsh is not None and hsh[0] == "call" and iscall(hsh, CORE + "._compute_hash")
                ctx.check(okh and ALG in hsh[2] + tuple(v for k, v in hsh[3]), "primary-hash", c, "the primary geometry's hash is %s" % (show(hsh)[:60] if hsh else "missing"), fi.where)
                if okh:
                    ctx.check(pth is not None and mentions_term(strip_sites(pth), strip_sites(hsh[2][0])), "primary-path", c, "the path recorded (%s) is not that of the hashed file" % (show(pth)[:50] if pth else "missing"), fi.where)
                ctx.check(pth is not None and (pth == C("geometry/primary.json") or any(iscall(x, ".relative_to", "os.path.relpath") for x in subterms(pth) if x[0] == "call")), "primary-relative", c, "the path recorded (%s) is not relative to the package" % (show(pth)[:50] if pth else "missing"), fi.where)
                ents = get(prim, "entities")
                ctx.check(ents is not None and mentions_term(ents, ENT), "entities", c, "the entity ids recorded are not those of the entities", fi.where)
                for k, w in (("name", NAME), ("version", VER), ("units", UN), ("materials", MATS), ("generator", GEN)):
                    ctx.check(get(d, k) == w, "field", k, "the manifest's %s is %s" % (k, show(get(d, k) or NONE)[:50]), fi.where)
                ctx.check(get(d, "tags") is not None and mentions_term(get(d, "tags"), ENT), "field", "tags", "the manifest's tags are not those of the entities", fi.where)
                ctx.check(("saved",) in (o.state.user or ()), "saved", c, "the manifest is returned without having been saved", fi.where)
            for t, u, where in hashes:
                ctx.check(any(x[0] == "w" and strip_sites(t[2][0]) == x[1] for x in u), "hash-after-store", c, "the primary geometry is hashed before it is written", where)
    outs, eng = ctx.walk(fi, Pol(inline={CORE}, fold=True), bind={"entities": ("list", (), ("site", "$e", 0, 0))})
    ctx.check(not any(o.kind == "return" for o in outs), "empty", "no entities", "a package without entities is created", fi.where)
    # the document stored is that of the entities
    ser = p.func(CORE + "._serialize_geometry")
    docs = []

    def ev2(e, st, eng):
        if e.kind == "call" and iscall(e.term, "json.dump", "json.dumps"):
            docs.append((e.term[2][0], e.where))
    ctx.walk(ser, Pol(inline={CORE}, on_event=ev2), bind={ser.params[0]: ENT})
    ctx.check(bool(docs), "document", "geometry", "no geometry document is written", ser.where)
    for d, where in docs:
        ctx.check(any(iscall(x, "yapcad.io.geometry_json.geometry_to_json") and x[2] and x[2][0] == ENT for x in alts(d)), "document", "geometry", "what is stored is %s, not the document of the entities" % show(d)[:60], where)


def saving(ctx, p):
    cls = p.cls(CORE + ".PackageManifest")
    fi = p.member(cls, "save")
    S, DATA = ident("man"), ident("data")
    seen = []

    def ev(e, st, eng):
        t = e.term
        if e.kind != "call":
            return
        if iscall(t, "yaml.safe_dump", "yaml.dump"):
            seen.append((t, "opened" in (st.user or ()), e.where))
            st.user = (st.user or frozenset()) | {"dumped"}
        elif iscall(t, ".open", "open", ".write_text") and is_write(t):
            q = target(t)
            ctx.check(mentions_term(q, ("attr", S, "root")) and mentions_term(q, ("attr", S, "manifest_name")), "manifest-path", "save", "the manifest is written to %s" % show(q)[:50], e.where)
            st.user = (st.user or frozenset()) | {"opened"}
    outs, eng = ctx.walk(fi, Pol(inline={CORE}, on_event=ev), bind={fi.params[0]: S}, heap={(S, "data"): DATA}, types={S: cls})
    ctx.floor("manifest dumps", len(seen), 1)
    for t, opened, where in seen:
        ctx.check(t[2] and t[2][0] == DATA, "dumped", "save", "what is written is %s, not the manifest's data" % show(t)[:50], where)
        ctx.check(not opened, "serialise-first", "save", "the manifest on disk is truncated before the data is known to be serialisable", where)
        ctx.check(iscall(t, "yaml.safe_dump"), "safe", "save", "the manifest is written with Python-specific tags that loading refuses", where)
    for o in outs:
        if o.kind in ("return", "next"):
            ctx.check({"dumped", "opened"} <= set(o.state.user or ()), "written", "save", "a path returns without writing the manifest", fi.where)
    ld = p.member(cls, "load")
    outs, eng = ctx.walk(ld, Pol(inline={CORE}), bind={ld.params[1]: ident("path")})
    n = 0
    for o in outs:
        if o.kind == "return":
            r = o.value
            d = o.state.heap.get((r, "data"), arg(r, "data", 1)) if r[0] == "call" else None
            rt = arg(r, "root", 0) if r[0] == "call" else None
            n += 1
            ctx.check(d is not None and bool(any(iscall(x, "yaml.safe_load", "json.load") for y in alts(d) for x in subterms(y) if x[0] == "call") | (d[0] == "dict" and not d[1])) and rt is not None and mentions_term(rt, ident("path")), "loaded", "load", "loading gives %s" % show(r)[:60], ld.where)
    ctx.floor("manifest loads", n, 1)


def source(ctx, p):
    fi = p.func(DPK + "._add_dsl_source_attachment")
    MAN, ROOT, SRC, CMD = ident("manifest"), ident("root"), ident("source"), ident("cmd")
    oth = dd((("path", C("$other")), ("hash", ident("oh"))), "oth")
    wrote = []

    def ev(e, st, eng):
        t = e.term
        if e.kind == "call" and iscall(t, ".write_text", ".write_bytes", ".write"):
            wrote.append((target(t), t[2][0], t, e.where))
        if e.kind == "call" and iscall(t, ".save"):
            st.user = frozenset({"saved"})
    outs, eng = ctx.walk(fi, Pol(inline={DPK}, fold=True, on_event=ev), bind=dict(zip(fi.params, (MAN, SRC, CMD))), heap={(MAN, "root"): ROOT, (MAN, "data"): dd((("attachments", ("list", (oth,), ("site", "$a", 0, 0))),), "data")})
    ctx.floor("DSL source writes", len(wrote), 1)
    for q, what, t, where in wrote:
        ctx.check(mentions_term(what, SRC) and not any(x[0] == "item" for x in subterms(what)), "source-stored", "dsl-source", "what is stored is %s, not the source" % show(what)[:50], where)
        ctx.check(mentions_term(q, ROOT), "inside", "dsl-source", "the source is stored at %s" % show(q)[:50], where)
    for o in outs:
        if o.kind not in ("return", "next"):
            continue
        ctx.check("saved" in (o.state.user or ()), "saved", "dsl-source", "the manifest is not saved after recording the source", fi.where)
        lst = get(o.state.heap.get((MAN, "data")), "attachments")
        new = [e for e in lst[1] if e != oth] if lst is not None and lst[0] == "list" else []
        ctx.check(lst is not None and oth in lst[1] and len(new) == 1, "others", "dsl-source", "recording the source changes other attachments", fi.where)
        for e in new:
            h, pt = get(e, "hash"), get(e, "path")
            okh = h is not None and ((any(iscall(x, "hashlib.sha256", "hashlib.new") and mentions_term(x, SRC) for x in subterms(h) if x[0] == "call")) or any(iscall(x, CORE + "._compute_hash") for x in subterms(h) if x[0] == "call"))
            ctx.check(okh and not any(x[0] == "item" for x in subterms(h)), "source-hash", "dsl-source", "the hash recorded is %s" % (show(h)[:60] if h else "missing"), fi.where)
            parts = [x[1] for q, w, t, wh in wrote for x in subterms(q) if x[0] == "const" and isinstance(x[1], str)]
            ok = pt is not None and (pt == C("/".join(parts)) or mentions_term(strip_sites(pt), strip_sites(wrote[0][0])))
            if pt is not None and pt[0] == "const":
                ok = sorted(pt[1].split("/")) == sorted("/".join(parts).split("/"))
            ctx.check(ok, "source-path", "dsl-source", "the path recorded is %s, the source is stored under %s" % (show(pt)[:40] if pt else "missing", parts), fi.where)


def adding_signature(ctx, p):
    fi = p.func(SIGN + ".sign_package")
    w = []

    def ev(e, st, eng):
        if e.kind == "call" and iscall(e.term, ".write_text", ".write_bytes") and any(x == C("signatures") for x in subterms(e.term[1])):
            q = strip_sites(target(e.term))
            free = any(a[0] == "truth" and not v and a[1][0] == "call" and iscall(a[1], ".exists", ".is_file") and strip_sites(a[1][1][1]) == q for a, v in st.facts.items())
            w.append((show(q)[-60:], free, e.where))
    ctx.walk(fi, Pol(inline=lambda e, g, d: g.module.name == SIGN and g.name not in ("_sign_with_gpg", "_sign_with_ssh", "_compute_canonical_manifest_hash", "_create_signable_content"), on_event=ev, fold=True,
                     fact_key=lambda a: a[0] == "truth" and a[1][0] == "call" and iscall(a[1], ".exists"), loop_iters=2), bind={"add": TRUE})
    ctx.floor("signature files written", len(w), 2)
    for s, free, where in w:
        ctx.check(free, "signature-kept", "sign_package", "adding a signature writes %s without it having been found free: the file of an earlier signature is overwritten" % s, where)


def run(ctx):
    p = ctx.p
    hashing(ctx, p)
    importing(ctx, p)
    creating(ctx, p)
    saving(ctx, p)
    source(ctx, p)
    adding_signature(ctx, p)
