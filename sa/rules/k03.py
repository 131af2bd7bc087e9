"""K03: package validation succeeds only if every referenced file was found and matched."""
from ..flow import C, NONE
from ..lib import *
import ast

PROP = dict(
    id="K03", title="Package validation passes only if every referenced file checks out",
    statement="Validating a package reports success only when every file referenced from the primary geometry, derived geometry, exports and attachments sections exists and, where a hash is recorded, its content hashes to that value, and the primary geometry can be read back. Whenever validation records an ERROR message, or a sub-check fails, the overall verdict is failure. Recomputing hashes refreshes every one of those sections from the file each entry names.",
    over=["inputs", "fault_sequences"], text="all packages: any manifest content, missing, truncated or altered files",
    why="Tests tamper with one or two files of one package; each manifest section and each error branch needs its own case, and combinations are unbounded.",
    files=["src/yapcad/package/validator.py", "src/yapcad/package/core.py"],
    mech=[("per-file check", "src/yapcad/package/validator.py"), ("verdict accumulation", "src/yapcad/package/validator.py: validate_package"), ("hash recording", "src/yapcad/package/core.py: recompute_hashes")],
    observe=["(ok, messages) returned by package validation"],
    technique="path-sensitive dataflow: error observations must reach a failing verdict; section coverage by provenance",
    note="Decides verdict/ERROR consistency on all paths and existence+hash coverage of each file-bearing section; hashing correctness itself is assumed.",
)
EXPLAIN = ("Path-sensitive walk of the package validator with helpers inlined. Per path the walk records whether an "
           "ERROR-severity message was produced, whether any referenced file was found missing or any content hash was "
           "found different; no path carrying such an observation may return success. Every file-bearing manifest "
           "section for which the packager records hashes must have, for each entry, an existence test on that entry's "
           "path and a comparison of that entry's recorded hash with a hash computed over that same path.")
ASSUME = []

V = "yapcad.package.validator"
CORE = "yapcad.package.core"
SECTIONS = ("primary", "derived", "exports", "attachments")


def hashing(p, fi):
    return fi is not None and any(isinstance(n, ast.Name) and n.id == "hashlib" for n in ast.walk(fi.node))


def run(ctx):
    p = ctx.p
    entry = p.func(V + ".validate_package")
    ctx.p.mod(CORE)
    hashers = {f.qual for m in (V, CORE) for f in p.all_funcs(p.mod(m)) if hashing(p, f)}
    if not hashers:
        raise AnchorError("no hashing helper found in the package modules")
    exists_seen, cmp_seen = {}, {}

    def is_hash(t):
        return any(x[0] == "call" and x[1][0] == "fn" and x[1][1] in hashers for x in subterms(t))

    def sections_of(t):
        cs = {x[1] for x in subterms(t) if x[0] == "const" and isinstance(x[1], str)}
        return [s for s in SECTIONS if s in cs]

    def on_fact(atom, val, st):
        tag = None
        if atom[0] == "truth" and atom[1][0] == "call" and iscall(atom[1], ".exists", ".is_file", "os.path.exists", "os.path.isfile"):
            pth = atom[1][1][1] if atom[1][1][0] == "attr" else (atom[1][2][0] if atom[1][2] else NONE)
            if sections_of(pth):
                exists_seen.setdefault(strip_sites(pth), sections_of(pth))
                if not val:
                    tag = "missing file"
        if atom[0] == "truth" and atom[1][0] == "item" and atom[1][2] == C(0) and atom[1][1][0] == "call" \
                and atom[1][1][1][0] == "fn" and atom[1][1][1][1] in modular and not val:
            tag = "failed sub-check " + atom[1][1][1][1].split(".")[-1]
        if atom[0] == "eq" and (is_hash(atom[1]) != is_hash(atom[2])):
            cmp_seen.setdefault((strip_sites(atom[1]), strip_sites(atom[2])), True)
            if not val:
                tag = "hash mismatch"
        if tag and (st.user is None or tag not in st.user):
            st.user = frozenset(st.user or ()) | {tag}

    def error_text(t):
        return strconst_prefix(t).startswith("ERROR")

    def touches_files(fi, seen=None):
        seen = seen or set()
        if fi.qual in seen:
            return False
        seen.add(fi.qual)
        for c in own_calls(fi.node):
            d = dotted(c.func) or ""
            if isinstance(c.func, ast.Attribute) and c.func.attr in ("exists", "is_file"):
                return True
            r = resolve_call(p, fi, c)
            if isinstance(r, FuncInfo) and (r.qual in hashers or (r.module.name in (V, CORE) and touches_files(r, seen))):
                return True
        return False
    modular = {}

    def inline(e, fi, d):
        if fi.module.name not in (V, CORE) or fi.qual in hashers:
            return False
        if fi.module.name == V and not touches_files(fi) and fi.node.returns is not None \
                and "uple" in ast.unparse(fi.node.returns):
            modular[fi.qual] = fi
            return False
        return True

    def track(ev, st):
        if st.events:
            return False
        if ev.kind == "call" and iscall(ev.term, ".append", ".insert", ".extend"):
            for a in ev.term[2]:
                if error_text(a) or (a[0] in ("list", "tuple") and any(error_text(x) for x in a[1])):
                    return True
        return False

    def hook(eng, term, st, node):
        # any(msg.startswith("ERROR") for msg in messages) over the collected messages
        if iscall(term, "any") and len(term[2]) == 1 and term[2][0][0] == "comp":
            c = term[2][0]
            if any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "startswith" and C("ERROR") in x[2]
                   for x in list(subterms(c[2])) + [y for a, b in c[4] for y in subterms(a)]):
                if st.events:
                    return [(st, TRUE)]
        return None

    pol = Pol(inline=inline, on_fact=on_fact, track=track, call_hook=hook, max_states=60, loop_iters=1, list_cap=0)
    outs, eng = ctx.walk(entry, pol)
    n_ok = [0]
    verdicts(ctx, entry, outs, error_text, n_ok, "validate_package")
    done = set()
    while set(modular) - done:
        q = sorted(set(modular) - done)[0]
        done.add(q)
        o2, _ = ctx.walk(modular[q], Pol(inline=inline, on_fact=on_fact, track=track, call_hook=hook, max_states=60, loop_iters=1, list_cap=0))
        verdicts(ctx, modular[q], o2, error_text, n_ok, "sub-check")
    n_ok = n_ok[0]
    ctx.floor("success exits", n_ok, 1)
    for s in SECTIONS:
        ex = [t for t, secs in exists_seen.items() if s in secs]
        perelem = [t for t in ex if s == "primary" or any(x[0] == "elem" for x in subterms(t))]
        ctx.check(bool(perelem), "existence-tested", s, "no existence test on the files of manifest section '%s'" % s, entry.where)
        good = False
        for a, b in cmp_seen:
            h, r = (a, b) if is_hash(a) else (b, a)
            if s not in sections_of(h) or s not in sections_of(r):
                continue
            if C("hash") not in list(subterms(r)):
                continue
            if s != "primary":
                e1 = {x for x in subterms(h) if x[0] == "elem"}
                e2 = {x for x in subterms(r) if x[0] == "elem"}
                if not (e1 & e2):
                    continue
            if any(strip_sites(t) in set(subterms(h)) for t in ex):
                good = True
        ctx.check(good, "hash-compared", s,
                  "no comparison of the recorded hash with the hash of the same file for manifest section '%s'" % s, entry.where)
    one_round(ctx, entry, inline, error_text, touches_files, is_hash)
    # the primary file: nothing may succeed without it
    def on_primary(atom, val, st):
        terms = [x for a in atom[1:] if isinstance(a, tuple) for x in alts(a)]
        if any("primary" in sections_of(x) for x in terms):
            note(atom, val, st, lambda t: "primary" in sections_of(t), is_hash)

    def reads_back(ev, st):
        return ev.kind == "call" and ev.term[1][0] in ("fn", "ext") and str(ev.term[1][1]).split(".")[-1] in (
            "geometry_from_json", "load_geometry")
    outs, eng = ctx.walk(entry, Pol(inline=inline, on_fact=on_primary, call_hook=hook, track=reads_back, max_states=60, loop_iters=0, list_cap=0))
    for o in outs:
        if o.kind != "raise" and o.value[0] == "tuple" and o.value[1] and any(a != FALSE for a in alts(o.value[1][0])):
            had = o.state.user or frozenset()
            ctx.check("found" in had, "entry-checked", "primary", "may return success without the primary geometry file having been tested for", entry.where)
            ctx.check(bool(o.state.events), "geometry-read", "primary",
                      "may return success although the primary geometry was not, or not successfully, read back", entry.where)
            ctx.check("hash" in had, "entry-hash-checked", "primary",
                      "may return success without the recorded hash of the primary geometry having been found right (or absent)", entry.where)
    # sections the packager hashes must be validated
    rec = p.member(p.cls(CORE + ".PackageManifest"), "recompute_hashes")
    hashed = set()

    def ev2(ev, st, eng):
        if ev.kind == "setitem" and ev.args[0] == C("hash"):
            hashed.update(sections_of(ev.term))
            extra = [x[1] for x in subterms(ev.term) if x[0] == "const" and isinstance(x[1], str)]
            if not sections_of(ev.term):
                ctx.bad("hashed-section-validated", ",".join(extra), "hash recorded for a section the validator does not know", ev.where)
            t = strip_sites(ev.args[1])
            ctx.check(is_hash(ev.args[1]) and mentions_term(t, strip_sites(ev.term)), "recorded-hash", "recompute_hashes",
                      "recorded hash is not computed from the entry's own path: %s" % show(ev.args[1]), ev.where)
    ctx.walk(rec, Pol(inline=lambda e, fi, d: fi.module.name == CORE and fi.qual not in hashers, on_event=ev2, loop_iters=1))
    for s in SECTIONS:
        ctx.check(s in hashed, "rehash-section", s, "recomputing hashes skips manifest section '%s'" % s, rec.where)
    ctx.counts["existence tests"] = len(exists_seen)
    ctx.counts["hash comparisons"] = len(cmp_seen)


def note(atom, val, st, about, is_hash):
    """What one decision says about the file of an entry: it was found, its hash is right or none is recorded."""
    out = set()
    if atom[0] == "truth" and val and atom[1][0] == "call" and iscall(
            atom[1], ".exists", ".is_file", "os.path.exists", "os.path.isfile") and about(atom[1]):
        out.add("found")

    def recorded(t):
        return not any(x[0] == "call" and x[1][0] == "fn" for x in subterms(t)) and about(t) and (
            t[0] == "param" or t[0] == "item" and (t[2] == C("hash") or t[1][0] == "param")
            or t[0] == "call" and C("hash") in t[2])
    if atom[0] == "eq" and val and is_hash(atom[1]) != is_hash(atom[2]) and about(atom[1]) and about(atom[2]):
        out.add("hash")
    if atom[0] == "truth" and not val and any(recorded(x) for x in alts(atom[1])):
        out.add("hash")
    if atom[0] in ("eq", "is", "isnone") and val and (NONE in atom[1:] or atom[0] == "isnone") and any(
            recorded(x) for a in atom[1:] if isinstance(a, tuple) for x in alts(a)):
        out.add("hash")
    if out - (st.user or frozenset()):
        st.user = frozenset(st.user or ()) | out


def one_round(ctx, entry, inline, error_text, touches_files, is_hash):
    """Each loop that looks at files: no round leaves the verdict standing (and records no ERROR)
    unless that entry's file was found and its recorded hash was right or absent."""
    p = ctx.p
    todo, seen = [entry], []
    while todo:
        f = todo.pop()
        if f.qual in {g.qual for g in seen}:
            continue
        seen.append(f)
        for c in own_calls(f.node):
            r = resolve_call(p, f, c)
            if isinstance(r, FuncInfo) and r.module.name == V:
                todo.append(r)
    n = 0
    for f in seen:
        for loop in ast.walk(f.node):
            if not isinstance(loop, ast.For):
                continue
            g = round_func(f, loop)
            if not touches_files(g) or any(isinstance(x, ast.For) and touches_files(round_func(f, x))
                                           for b in loop.body for x in ast.walk(b)):
                continue
            n += 1
            tn = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
            elems = {("param", x) for x in tn}

            def about(t):
                return any(x in elems for x in subterms(t))

            def track(ev, st):
                return ev.kind == "call" and iscall(ev.term, ".append", ".insert", ".extend") and any(
                    error_text(a) or (a[0] in ("list", "tuple") and any(error_text(x) for x in a[1])) for a in ev.term[2])
            verdict = set()
            for r in ast.walk(f.node):
                if isinstance(r, ast.Return) and r.value is not None:
                    v = r.value.elts[0] if isinstance(r.value, ast.Tuple) and r.value.elts else r.value
                    verdict |= {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
            outs, eng = ctx.walk(g, Pol(inline=inline, on_fact=lambda a, v, st: note(a, v, st, about, is_hash), track=track,
                                        max_states=60, loop_iters=1, list_cap=0), bind={x: TRUE for x in verdict if x in g.params})
            for o in outs:
                if o.kind == "raise" or o.state.events:
                    continue
                if o.kind == "return" and o.value is not None and isinstance(o.node, ast.Return):
                    v = o.value[1][0] if o.value[0] == "tuple" and o.value[1] else o.value
                    standing = any(a != FALSE for a in alts(v))
                else:
                    vs = [o.state.env.get(x) for x in verdict]
                    standing = all(v is None or any(a != FALSE for a in alts(v)) for v in vs)
                had = o.state.user or frozenset()
                where = "%s:%d" % (f.module.rel, loop.lineno)
                if not standing:
                    ctx.ok("entry-checked", f.qual)
                    continue
                ctx.check("found" in had, "entry-checked", f.name,
                          "an entry may be passed over without its file having been tested for", where)
                ctx.check("hash" in had, "entry-hash-checked", f.name,
                          "an entry may be passed without its recorded hash having been found right (or absent)", where)
    ctx.floor("entry loops", n, 1)


def verdicts(ctx, fi, outs, error_text, n_ok, label):
    """No exit of fi may report success after an error was recorded or observed."""
    for o in outs:
        if o.kind == "raise":
            continue
        for v in alts(o.value):
            if v[0] == "item" or v[0] == "call":
                continue
            if v[0] != "tuple" or len(v[1]) != 2:
                ctx.bad("result-shape", label, "unexpected result %s" % show(v), fi.where)
                continue
            okv, msgs = v[1]
            errs = [x[1] for x in o.state.events] or [x for x in (msgs[1] if msgs[0] in ("list", "tuple") else ()) if error_text(x)]
            for a in alts(okv):
                if a == FALSE:
                    ctx.ok("failure-exit", label)
                    continue
                n_ok[0] += 1
                if a[0] == "item" and a[1][0] == "call" and a[2] == C(0):
                    ctx.ok("delegated-exit", label)
                    continue
                ctx.check(not errs, "error-flips-result", label,
                          "may return success (%s) after recording an ERROR message: %s" % (show(a), show(errs[0]) if errs else ""), fi.where)
                ctx.check(not o.state.user, "observation-flips-result", ",".join(sorted(o.state.user or ())) or "none",
                          "may return success after observing: %s" % ", ".join(sorted(o.state.user or ())), fi.where)
