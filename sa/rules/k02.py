"""K02: signer and verifier derive the same bytes, covering all of the manifest but its signatures."""
from ..flow import C, NONE
from ..lib import *

PROP = dict(
    id="K02", title="Signing and verification cover the same, complete manifest content",
    statement="Signer and verifier derive the signed bytes from the manifest in the same way, and those bytes depend on every manifest key except the signature list itself, independent of key order. Signing changes no manifest content other than the signature list, so a freshly signed package verifies and any later change to other manifest content invalidates the signature.",
    over=["inputs", "histories"], text="all manifests, signing methods and sequences of signing and editing",
    why="No test covers signing; which manifest keys are covered cannot be shown by trying some of them.",
    files=["src/yapcad/package/signing.py"],
    mech=[("canonical manifest hash", "src/yapcad/package/signing.py: canonical hash helper"), ("signed content", "src/yapcad/package/signing.py: signable content helper")],
    observe=["bytes given to gpg / ssh-keygen", "manifest.yaml after sign_package"],
    technique="provenance (taint-style) dataflow comparing the two entry points' signed-content terms",
    note="Decides that both sides hash the same expression of the parsed manifest and that only the signature list is excluded or rewritten; determinism of YAML/JSON libraries is assumed.",
)
EXPLAIN = ("Provenance comparison. Both the signing and the verification entry point are walked with helpers inlined; "
           "the bytes handed to the external signing / verifying process (stdin or a temporary file written on the same "
           "path) are collected as provenance terms over the package path. The two sets must be structurally equal, and "
           "each must be a digest of a key-sorted serialisation of the parsed manifest from which nothing but the "
           "'signatures' key is removed. Signing may write back only that key, into the same manifest file.")
ASSUME = ["yaml.safe_load followed by json.dumps(sort_keys=True) is deterministic in the manifest's content"]

SIG = "yapcad.package.signing"
RUN = ("subprocess.run", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "subprocess.call")


def collect(ctx, name):
    p = ctx.p
    entry = p.func(SIG + "." + name)
    blobs, sets, dumps, pops = {}, [], [], []
    written = {}

    def on_event(ev, st, eng):
        if ev.kind == "call":
            t = ev.term
            if iscall(t, ".write", ".write_bytes") and t[2]:
                written.setdefault(strip_sites(t[1][1]), set()).add(t[2][0])
            if iscall(t, *RUN):
                cmd = arg(t, "args", 0)
                words = [x[1] for x in subterms(cmd) if x[0] == "const" and isinstance(x[1], str)]
                if not any(w in ("--verify", "verify", "check-novalidate", "sign", "--detach-sign") for w in words):
                    return
                b = []
                if arg(t, "input") is not None:
                    b.append(arg(t, "input"))
                for x in subterms(cmd):
                    if x[0] == "attr" and x[2] == "name":
                        b.extend(written.get(strip_sites(x[1]), ()))
                # the signature itself is read from the entry's file, not content
                b = [strip_sites(x) for x in b if not any(y == C("signature_file") for y in subterms(x))]
                for x in b:
                    blobs.setdefault(x, ev.where)
                if not b:
                    ctx.bad("content-origin", name, "process %s receives no content" % words[:4], ev.where)
            if iscall(t, "yaml.safe_dump", "yaml.dump", "json.dump") and t[2]:
                dumps.append((t, ev.where))
            if iscall(t, ".pop") and t[2]:
                pops.append((t[1][1], t[2][0], ev.where))
        if ev.kind in ("setitem", "del"):
            sets.append((ev.kind, ev.term, ev.args, ev.where))

    ctx.walk(entry, Pol(inline={SIG, "yapcad.package.core"}, on_event=on_event, max_states=300, loop_iters=1))
    return entry, blobs, sets, dumps, pops


def is_manifest(t):
    """parsed manifest of the package: load call whose source mentions package_path and manifest.yaml"""
    return t[0] == "call" and iscall(t, "yaml.safe_load", "json.load", "json.loads") \
        and mentions_term(t, ("param", "package_path")) \
        and any(x[0] == "const" and isinstance(x[1], str) and x[1].startswith("manifest") for x in subterms(t))


def covers(t, removed):
    """t denotes the manifest minus at most the removed keys; returns reason or None."""
    t0 = t
    if t[0] == "phi":
        for a in t[1]:
            r = covers(a, removed)
            if r:
                return r
        return None
    if t[0] == "call" and t[1] in (("ext", "dict"), ("ext", "copy.deepcopy"), ("ext", "copy.copy")) and len(t[2]) == 1:
        return covers(t[2][0], removed)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy":
        return covers(t[1][1], removed)
    if t[0] == "bin" and t[1] == "Or":
        return covers(t[2], removed)
    if is_manifest(t):
        return None
    if t[0] == "dict":
        if len(t[1]) == 1 and t[1][0][0] == ("dstar",):
            return covers(t[1][0][1], removed)
        if not t[1]:
            return None
    if t[0] == "comp" and t[1] == "dict" and len(t[3]) == 1:
        it = t[3][0]
        src = it[1][1] if it[0] == "call" and it[1][0] == "attr" and it[1][2] == "items" else it
        k, v = t[2]
        el = None
        if it is src or src == it:
            okk = k[0] == "elem" and k[1] == it
            okv = v == ("item", src, k)
        else:
            okk = k == ("item", ("elem", it, "c"), C(0))
            okv = v == ("item", ("elem", it, "c"), C(1))
        if not okk or not okv:
            return "the canonical form rewrites keys or values: %s" % show(t0, 8)
        for a, b in t[4]:
            if a[0] == "eq" and a[1] == k and not b and a[2] in removed:
                continue
            if a[0] == "in" and a[1] == k and not b:
                from ..flow import Engine
                ms = a[2][1] if a[2][0] in ("tuple", "list", "set") else None
                if ms is not None and set(ms) <= set(removed):
                    continue
            return "the canonical form drops manifest content under condition %s%s" % ("" if b else "not ", show(a, 6))
        return covers(src, removed)
    return "the signed digest is not taken over the parsed manifest: %s" % show(t0, 8)


LOSSY = {"lower", "upper", "casefold", "title", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "replace", "split", "rsplit",
         "splitlines", "partition", "rpartition", "translate", "removeprefix", "removesuffix", "sub", "expandtabs"}


def lossy(t, manifest_side=False):
    """A step between the manifest and the signed bytes that maps different contents to the same bytes."""
    for x in subterms(t):
        if x[0] in ("slice", "item") and (x[0] == "slice" or x[2][0] == "slice"):
            return "part of %s is cut off" % show(x[1], 5)
        if x[0] != "call":
            continue
        nm = fname(x[1]).split(".")[-1]
        if nm in LOSSY and x[1][0] == "attr" and any(y[0] == "call" and ("sha256" in fname(y[1]) or iscall(y, "json.dumps"))
                                                     for y in subterms(x[1][1])):
            # changing the case of a hexadecimal digest loses nothing
            if nm in ("lower", "upper", "strip") and any(iscall(y, ".hex", ".hexdigest") for y in subterms(x[1][1])) \
                    and x[1][1][0] == "call" and iscall(x[1][1], ".hex", ".hexdigest"):
                continue
            return "%s() maps different contents to the same bytes" % nm
        if nm in ("encode", "decode") and x[1][0] == "attr":
            e = arg(x, "errors", 1)
            if e is not None and e not in (C("strict"), C("surrogatepass"), C("surrogateescape"), C("backslashreplace"), C("xmlcharrefreplace")):
                return "characters the encoding does not have are dropped (errors=%s)" % show(e)
        if nm == "read" and x[1][0] == "attr" and x[2]:
            return "only part of the file is read"
        if nm == "open" or iscall(x, ".open", ".read_text"):
            e = arg(x, "errors", None)
            if e is not None and e not in (C("strict"), C("surrogateescape"), NONE):
                return "undecodable bytes of the file are dropped"
    return None


def default_loses(p, j):
    """json.dumps(default=f): what the function makes of a value that is not JSON."""
    d = arg(j, "default")
    if d is None or d == NONE:
        return False
    if d[0] == "ext":
        return d[1] not in ("str", "repr")
    return not (d[0] in ("fn", "lambda", "closure", "bound") and any(iscall(x, "str", "repr", ".isoformat") for x in subterms(d)) or d[0] == "fn")


def run(ctx):
    removed = [C("signatures")]
    e1, sb, ssets, sdumps, spops = collect(ctx, "sign_package")
    e2, vb, vsets, vdumps, vpops = collect(ctx, "verify_package")
    ctx.floor("signed blobs", len(sb), 1)
    ctx.floor("verified blobs", len(vb), 1)
    for b in sorted(set(sb) | set(vb), key=repr):
        ctx.check(b in sb and b in vb, "same-bytes", "sign/verify",
                  "%s uses content the other side does not: %s" % ("signing" if b in sb else "verification", show(b, 9)),
                  sb.get(b) or vb.get(b))
        digs = [x for x in subterms(b) if x[0] == "call" and "sha256" in fname(x[1]) and (x[2])]
        ctx.check(bool(digs), "digest", "sha256", "signed content is not a SHA-256 digest: %s" % show(b, 9), sb.get(b) or vb.get(b))
        why = lossy(b)
        ctx.check(why is None, "lossless", "signed-content", "the signed bytes do not depend on all of the manifest: %s" % why, sb.get(b) or vb.get(b))
        for d in digs:
            ds = [x for x in subterms(d[2][0]) if iscall(x, "json.dumps")]
            if not ctx.check(bool(ds), "canonical", "serialisation", "digest input is not a serialised manifest: %s" % show(d, 8), e1.where):
                continue
            for j in ds:
                ctx.check(arg(j, "sort_keys") == C(True), "canonical", "sort_keys",
                          "manifest is serialised without sorted keys", e1.where)
                ctx.check(arg(j, "skipkeys") in (None, C(False)), "canonical", "skipkeys", "serialisation skips keys", e1.where)
                ctx.check(not default_loses(ctx.p, j), "canonical", "default",
                          "values without a JSON form are not written out (default=%s)" % show(arg(j, "default") or NONE, 6), e1.where)
                r = covers(j[2][0], removed)
                ctx.check(r is None, "coverage", "signed-manifest", r or "", e1.where)
    ctx.count("digest inputs", len(sb) + len(vb))
    for nm, sets, pops in (("sign_package", ssets, spops), ("verify_package", vsets, vpops)):
        for kind, base, args, where in sets:
            if mentions_term(strip_sites(base), ("param", "package_path")) or is_manifest(base):
                ctx.check(args[0] in removed, "manifest-write", nm,
                          "changes manifest key %s, which the signature covers" % show(args[0]), where)
        for base, k, where in pops:
            if is_manifest(base) or mentions_term(base, ("param", "package_path")):
                ctx.check(k in removed, "manifest-drop", nm, "drops manifest key %s" % show(k), where)
    n = 0
    for t, where in sdumps:
        n += 1
        r = covers(t[2][0], removed)
        ctx.check(r is None, "manifest-writeback", "sign_package", r or "", where)
    ctx.count("manifest write-backs", n)
    ctx.check(n > 0, "manifest-writeback", "sign_package", "the signed manifest is not written back", e1.where)
