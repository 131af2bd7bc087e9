"""K01: a signature is reported cryptographically good only after the verifier accepted it."""
from ..flow import C, NONE
from ..lib import *

PROP = dict(
    id="K01", title="A signature is reported good only after the verifier accepted it",
    statement="Package verification gives a signature the status VALID only if the external signature checker was run on that signature file and this package's current manifest content and exited successfully against trusted keys, and VALID_UNTRUSTED only if a cryptographic check succeeded. Every other outcome - checker missing, failing, no key, no signature file, unknown method - yields INVALID, ERROR or a recorded error. A package counts as valid only through a signature whose own status is VALID, and its overall status is not VALID when verification errors were recorded.",
    over=["inputs", "fault_sequences"], text="all packages, signature files, key stores and outcomes of the external checker",
    why="No test exercises signing or verification at all; the failure outcomes of gpg and ssh-keygen cannot be enumerated by sampling.",
    files=["src/yapcad/package/signing.py"],
    mech=[("status returned only under a zero exit status", "src/yapcad/package/signing.py: gpg and ssh verification helpers"), ("aggregation over VALID only", "src/yapcad/package/signing.py: VerificationResult")],
    observe=["verify_package(...).signatures[i].status", "VerificationResult.is_valid / overall_status"],
    technique="path-sensitive typestate dataflow over the syntax tree (status assignment dominated by checked exit status)",
    note="Decides on every path of the current source that a good status is dominated by a successful verification process over this package's content and signature file; the behaviour of gpg/ssh-keygen themselves is assumed.",
)
EXPLAIN = ("Path-sensitive walk of the package verification entry point with helpers inlined. At every point where a "
           "signature record receives a status, each path carrying VALID / VALID_UNTRUSTED must hold a branch fact "
           "'returncode == 0' for a verifier subprocess started on that path whose argument list asks for verification "
           "(VALID: gpg --verify or ssh-keygen -Y verify; VALID_UNTRUSTED: additionally ssh-keygen -Y check-novalidate), "
           "fed with the signed content computed from this package's manifest and with the signature read from this "
           "entry's file. Aggregates (is_valid, overall_status) are checked to derive trust only from VALID.")
ASSUME = ["gpg and ssh-keygen report an unverifiable signature with a non-zero exit status"]

SIG = "yapcad.package.signing"
RUN = ("subprocess.run", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "subprocess.call")


def good_run(st, status, ctx_events):
    """A verifier call whose success is established on this path, or a reason."""
    why = "no verifier process with a checked zero exit status on the path"
    for atom, v in st.facts.items():
        rc = None
        if v and atom[0] == "eq" and atom[2] == C(0):
            rc = atom[1]
        if not v and atom[0] == "truth":
            rc = atom[1]
        if rc is None:
            continue
        run = None
        if rc[0] == "attr" and rc[2] == "returncode" and iscall(rc[1], *RUN):
            run = rc[1]
        elif iscall(rc, "subprocess.call"):
            run = rc
        if run is None:
            continue
        cmd = arg(run, "args", 0)
        words = [x[1] for x in subterms(cmd) if x[0] == "const" and isinstance(x[1], str)] if cmd else []
        trusted = "--verify" in words or "verify" in words
        known = trusted or "check-novalidate" in words
        if not known:
            why = "the successful process is not a verification command: %s" % words
            continue
        if status == "VALID" and not trusted:
            why = "VALID rests on a check that does not consult trusted keys: %s" % words
            continue
        return run, None
    return None, why


def run(ctx):
    p = ctx.p
    entry = p.func(SIG + ".verify_package")
    stat = p.cls(SIG + ".VerificationStatus")
    info = p.cls(SIG + ".SignatureInfo")
    p.func(SIG + ".sign_package")
    seen = {"VALID": 0, "VALID_UNTRUSTED": 0, "INVALID": 0, "ERROR": 0}
    written = {}

    def on_event(ev, st, eng):
        if ev.kind == "call" and iscall(ev.term, ".write", ".write_bytes", ".write_text") and ev.term[2]:
            written.setdefault(ev.term[1][1], set()).add(ev.term[2][0])
        vals = []
        if ev.kind == "call" and ev.term[1] == ("class", info.qual):
            v = arg(ev.term, "status", p.all_fields(info).index("status"))
            vals.append((v if v is not None else NONE, ev.term))
        if ev.kind == "store" and ev.args[0] == "status":
            vals.append((ev.args[1], ev.term))
        for v, rec in vals:
            for a in alts(v):
                if a == NONE:
                    continue
                if a[0] != "enum" or a[1] != stat.qual:
                    ctx.bad("status-origin", "SignatureInfo.status", "status of unknown origin %s" % show(a), ev.where)
                    continue
                seen[a[2]] = seen.get(a[2], 0) + 1
                if a[2] in ("INVALID", "ERROR"):
                    ctx.ok("status-path", a[2])
                    continue
                r, why = good_run(st, a[2], None)
                if r is None:
                    ctx.bad("status-path", a[2], "%s reachable without cryptographic success: %s; path facts: %s" % (
                        a[2], why, "; ".join(sorted(("" if b else "not ") + show(k, 4) for k, b in st.facts.items() if k[0] in ("eq", "truth", "in"))[:8])), ev.where)
                    continue
                ctx.ok("status-path", a[2], ev.where)
                # what was verified
                data = arg(r, "input")
                blob = [data] if data is not None else []
                cmd = arg(r, "args", 0)
                for x in subterms(r):
                    if x[0] == "attr" and x[2] == "name":
                        blob.extend(written.get(x[1], ()))
                for x in subterms(cmd):
                    if x in written:
                        blob.extend(written[x])
                src = [b for b in blob if mentions_term(b, ("param", "package_path"))]
                hashed = [b for b in src if any(x[0] == "call" and "sha256" in fname(x[1]) for x in subterms(b))]
                sigs = [b for b in src if any(x == C("signature_file") for x in subterms(b))]
                flat = flags(cmd)
                if a[2] == "VALID":
                    for f, v2 in flat:
                        ctx.check(not mentions_term(v2, ("param", "package_path")), "trust-source", f,
                                  "the keys trusted for %s come from the package under verification: %s" % (f, show(v2, 6)), ev.where)
                    for prm in ("gpg_keyring", "allowed_signers"):
                        if st.facts.get(("truth", ("param", prm))) is True and (prm == "gpg_keyring") == ("--verify" in [
                                x[1] for x in subterms(cmd) if x[0] == "const"]):
                            ctx.check(mentions_term(cmd, ("param", prm)), "trust-given", prm,
                                      "VALID although the caller's %s was not handed to the verifier" % prm, ev.where)
                ctx.check(bool(hashed), "verifies-content", a[2],
                          "the accepted process is not given the hash of this package's manifest", ev.where)
                ctx.check(bool(sigs), "verifies-signature", a[2],
                          "the accepted process is not given the signature file named by the entry", ev.where)

    pol = Pol(inline={SIG}, on_event=on_event, max_states=400, loop_iters=1, fact_key=lambda a: a[0] == "eq" and a[2] == C(0))
    outs, eng = ctx.walk(entry, pol)
    ctx.floor("status assignments VALID", seen["VALID"], 2)
    ctx.floor("status assignments non-valid", seen["INVALID"] + seen["ERROR"], 2)
    ctx.counts.update({"status " + k: v for k, v in seen.items()})

    every_entry(ctx, entry)

    # aggregates
    res = p.cls(SIG + ".VerificationResult")
    for name in ("is_valid", "trusted_signers"):
        f = p.member(res, name)
        if not isinstance(f, FuncInfo):
            raise AnchorError("VerificationResult.%s" % name)
        o2, e2 = ctx.walk(f, Pol(inline={SIG}))
        for o in o2:
            if o.kind != "return":
                continue
            v = o.value
            if v in (FALSE, C(0)):
                ctx.ok("aggregate", name)
                continue
            good = valid_only(o, v, stat.qual)
            ctx.check(good, "aggregate", name, "%s counts records whose status is not known to be VALID: %s" % (name, show(v)), f.where)
    f = p.member(res, "overall_status")
    errs = ("attr", ("param", "self"), "errors")

    def hook(eng, term, st, node):
        return None
    o2, e2 = ctx.walk(f, Pol(inline=lambda e, fi, d: fi.name not in ("trusted_signers", "is_valid", "untrusted_signers")))
    n = 0
    for o in o2:
        if o.kind != "return" or o.value is None:
            continue
        for a in alts(o.value):
            if a == ("enum", stat.qual, "VALID"):
                n += 1
                good = any(_valid_count_fact(k, v, stat.qual) for k, v in o.state.facts.items())
                ctx.check(good, "aggregate", "overall_status", "overall VALID without a VALID signature", f.where)
                ctx.check(o.state.facts.get(("truth", errs)) is False, "aggregate", "overall_status-errors",
                          "overall VALID although verification recorded errors", f.where)
            elif a[0] == "enum":
                ctx.ok("aggregate", "overall_status " + a[2])
    ctx.floor("overall VALID exits", n, 1)


def flags(cmd):
    """(flag, value) pairs of a command for the flags that name trusted keys."""
    out = []
    for t in subterms(cmd):
        if t[0] in ("list", "tuple") and isinstance(t[1], tuple):
            for a, b in zip(t[1], t[1][1:]):
                if a in (C("-f"), C("--keyring"), C("--homedir"), C("--trusted-key")):
                    out.append((a[1], b))
    return out


def every_entry(ctx, entry):
    """Each round of the loop over the manifest's signatures records a signature or an error."""
    p = ctx.p
    n = 0

    def verifies(f, seen):
        if f.qual in seen:
            return False
        seen.add(f.qual)
        for c in own_calls(f.node):
            if (dotted(c.func) or "").startswith("subprocess."):
                return True
            r = resolve_call(p, f, c)
            if isinstance(r, FuncInfo) and r.module.name == SIG and verifies(r, seen):
                return True
        return False
    for f in p.all_funcs(p.mod(SIG)):
        if f.name.startswith("sign") or f.name.startswith("_sign"):
            continue
        for loop in ast.walk(f.node):
            if not isinstance(loop, ast.For):
                continue
            g = round_func(f, loop)
            if not verifies(g, set()):
                continue
            n += 1

            def track(ev, st):
                return ev.kind == "call" and ev.term[1][0] == "attr" and ev.term[1][2] in ("append", "extend", "insert", "add_error", "add")
            outs, eng = ctx.walk(g, Pol(inline=lambda e, fi, d: fi.module.name == SIG and not verifies(fi, set()), track=track, max_states=120, loop_iters=1))
            for o in outs:
                if o.kind == "raise":
                    continue
                kept = False
                if o.kind == "break":
                    ctx.bad("entry-reported", f.name, "the signature entries after one that was reported may not be looked at", "%s:%d" % (f.module.rel, loop.lineno))
                    continue
                for e in o.state.events:
                    recv = e[1][1][1]
                    kept = kept or not (recv[0] == "attr" and recv[2] == "warnings")
                if o.kind == "return" and o.value not in (None, NONE):
                    kept = True
                ctx.check(kept, "entry-reported", f.name, "a signature entry may be passed over without a status or an error being recorded",
                          "%s:%d" % (f.module.rel, loop.lineno))
    if not n:
        ctx.count("entry loops", 0)


def _valid_count_fact(atom, v, q):
    """The fact implies that at least one signature is VALID."""
    def count(t):
        return any(x[0] == "attr" and x[2] in ("trusted_signers", "is_valid") or x == ("enum", q, "VALID") for x in subterms(t))

    def num(t):
        return t[1] if t[0] == "const" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool) else None
    if atom[0] == "truth":
        return v and count(atom[1])
    if atom[0] == "eq" and len(atom) == 3:
        n = num(atom[1]) if num(atom[1]) is not None else num(atom[2])
        if n is None:
            return v and any(count(x) for x in atom[1:])
        return any(count(x) for x in atom[1:]) and (n >= 1 if v else n == 0)
    if atom[0] in ("lt", "le") and len(atom) == 3:
        a, b = atom[1], atom[2]
        if num(a) is not None and count(b) and v:
            return num(a) >= (0 if atom[0] == "lt" else 1)
        if num(b) is not None and count(a) and not v:          # not (count < 1), not (count <= 0)
            return num(b) >= (1 if atom[0] == "lt" else 0)
        return False
    return v and any(count(x) for x in atom[1:] if isinstance(x, tuple))


def valid_only(o, v, q):
    """v counts/quantifies only records with status == VALID."""
    VALID = ("enum", q, "VALID")

    def iseq(a):
        return a[0] == "eq" and a[2] == VALID and a[1][0] == "attr" and a[1][2] == "status"
    comps = [x for x in subterms(v) if x[0] == "comp"]
    for c in comps:
        if any(a[0] != "eq" and False for a in ()):
            return False
        elts = c[2]
        conds = [k for k, b in c[4] if b and iseq(k)]
        if conds:
            return True
        if len(elts) == 1 and (elts[0][0] == "cmp" and iseq(elts[0][1])):
            return True
    if not comps:
        # explicit loop: the path that counts must know the record is VALID
        return any(b and iseq(k) for k, b in o.state.facts.items())
    return False
