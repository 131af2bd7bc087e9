"""Obligations, known findings, evidence and exit codes shared by every rule."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

from .flow import Budget, Engine, Policy
from .project import AnchorError, Project, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Ctx:
    def __init__(self, pid, tier, project=None):
        self.pid = pid
        self.tier = tier
        self.p = project or Project()
        self.obls = []          # (rule, construct, ok)
        self.viol = {}          # key -> message
        self.counts = {}
        self.samples = {}
        self.selftests = []
        self.notes = []
        self.steps = 0
        self.paths = 0
        self.inlined = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- verdicts --------------------------------------------------------
    def ok(self, rule, construct, where=""):
        self.obls.append((rule, construct, True))
        self.samples.setdefault(rule, [])
        if len(self.samples[rule]) < 3:
            self.samples[rule].append("%s%s" % (construct, " @ " + where if where else ""))

    def bad(self, rule, construct, msg, where=""):
        self.obls.append((rule, construct, False))
        key = "%s:%s" % (rule, construct)
        if key not in self.viol:
            self.viol[key] = "%s%s" % (msg, " [%s]" % where if where else "")

    def check(self, cond, rule, construct, msg, where=""):
        if cond:
            self.ok(rule, construct, where)
        else:
            self.bad(rule, construct, msg, where)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, minimum):
        """Fewer instances than confirmed by hand: the rule would pass vacuously."""
        self.counts[name] = n
        if n < minimum:
            raise AnchorError("%s: only %d instance(s) analysed, at least %d expected" % (name, n, minimum))

    def selftest(self, name, fired):
        self.selftests.append(name)
        if not fired:
            raise AnchorError("self-test %s: the rule did not fire on its positive example" % name)

    # -- flow ------------------------------------------------------------
    def walk(self, fi, policy, bind=None, facts=None, types=None, heap=None):
        """Run the path engine; on exhaustion retry coarser. Returns (outs, engine)."""
        tries = [(policy.max_states, policy.loop_iters, policy.max_depth)]
        tries += [(24, min(policy.loop_iters, 2), policy.max_depth), (8, 1, policy.max_depth), (3, 1, 4), (1, 1, 3)]
        last = None
        for ms, li, md in tries:
            policy.max_states, policy.loop_iters, policy.max_depth = ms, li, md
            if hasattr(policy, "reset"):
                policy.reset()
            e = Engine(self.p, policy)
            try:
                outs = e.run(fi, bind=bind, facts=facts, types=types, heap=heap)
                self.steps += e.steps
                self.paths += len(outs)
                self.inlined |= e.inlined
                return outs, e
            except Budget as b:
                last = b
        raise AnchorError(str(last))


def load_known(pid):
    found, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                body = line.split(" ", 2)[2]
                key, _, what = body.partition(" :: ")
                found[key[len("key="):]] = what
            elif line.startswith("fixed: property=%s " % pid):
                fixed.append(line)
    return found, fixed


def run_rule(pid, rule_mod, tier, seed):
    t0 = time.time()
    ctx = None
    try:
        ctx = Ctx(pid, tier)
        rule_mod.run(ctx)
        if not ctx.obls:
            raise AnchorError("no obligation was generated")
    except AnchorError as e:
        known, _ = load_known(pid)
        if ctx is None or not any(k not in known for k in ctx.viol):
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 3
        ctx.notes.append("analysis stopped early: %s" % e)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3
    known, fixed = load_known(pid)
    new = {k: v for k, v in ctx.viol.items() if k not in known}
    hit = {k: v for k, v in ctx.viol.items() if k in known}
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], k))
    per_rule = {}
    for r, c, ok in ctx.obls:
        d = per_rule.setdefault(r, [0, 0])
        d[0] += 1
        d[1] += 0 if ok else 1
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": rule_mod.EXPLAIN,
            "obligations": len(ctx.obls),
            "discharged": sum(1 for o in ctx.obls if o[2]),
            "obligations_by_rule": {r: {"checked": a, "failed": b} for r, (a, b) in sorted(per_rule.items())},
            "instances": ctx.counts,
            "modules_parsed": len(ctx.p.modules),
            "modules_consulted": sorted(ctx.p.consulted),
            "consulted_digest": ctx.p.digest(),
            "paths_explored": ctx.paths,
            "statements_interpreted": ctx.steps,
            "functions_followed": sorted(ctx.inlined),
            "samples": ctx.samples,
            "selftests": ctx.selftests,
            "known_findings": sorted(hit),
            "notes": ctx.notes,
        },
        "assumptions": getattr(rule_mod, "ASSUME", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    with open(os.path.join(ev, pid + ".json"), "w") as fh:
        json.dump(doc, fh, indent=1, sort_keys=True)
    print("property=%s obligations=%d failed=%d known=%d paths=%d statements=%d wall=%.1fs" % (
        pid, len(ctx.obls), len(ctx.viol), len(hit), ctx.paths, ctx.steps, time.time() - t0))
    for n, c in sorted(ctx.counts.items()):
        print("  instances %s: %d" % (n, c))
    if new:
        rp = os.path.join(ev, pid + ".violations.txt")
        with open(rp, "w") as fh:
            for k in sorted(new):
                fh.write("%s\n    %s\n" % (k, new[k]))
        for k in sorted(new):
            print("  violated %s\n      %s" % (k, new[k]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
