#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [--tier quick|thorough]   (exit 0 held, 1 violation, 2 no answer)"""
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from model import Program, AnchorMissing, REPO      # noqa: E402
from kit import Kit                                 # noqa: E402
import rules                                        # noqa: E402


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split(" -- ")[0].split() if "=" in x)
                d["text"] = line.split(" -- ", 1)[-1]
                out.append(d)
    return out


def analyse(pid, tier="quick", overlay=None):
    prog = Program(overlay=overlay)
    k = Kit(pid, prog, tier)
    rules.RULES[pid](k)
    k.finish()
    return k


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()

    def late(*_):
        raise TimeoutError("the analysis ran out of time")
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 600, 5)      # then every 5 s, so that each further rule ends undecided too
    try:
        k = analyse(pid, tier)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except AnchorMissing as ex:
        print("ERROR property=%s: a public construct the property is anchored on is gone: %s" % (pid, ex))
        return 2
    selftest = None
    if tier == "thorough":
        import selftest as st
        try:
            selftest = st.run(pid, k)
        except Exception as ex:
            selftest = {"error": "%s: %s" % (type(ex).__name__, ex)}
    known = [f for f in known_findings() if f.get("property") == pid]
    viol, seen = [], set()
    for o in k.obs:
        if o["status"] != "violation":
            continue
        key = (o["rule"], o["construct"])
        kn = [f for f in known if f.get("rule") == o["rule"] and f.get("construct") == o["construct"]]
        if kn:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (pid, kn[0]["text"]))
            seen.add(key)
            continue
        viol.append(o)
    decided = [o for o in k.obs if o["status"] != "undecided"]
    und = [o for o in k.obs if o["status"] == "undecided"]
    per_rule = {}
    for o in k.obs:
        r = per_rule.setdefault(o["rule"], {"rule": k.rules.get(o["rule"], ""), "held": 0, "violated": 0, "undecided": 0, "constructs": set()})
        r[{"ok": "held", "violation": "violated", "undecided": "undecided"}[o["status"]]] += 1
        r["constructs"].add(o["construct"])
    for rid, text in k.rules.items():
        per_rule.setdefault(rid, {"rule": text, "held": 0, "violated": 0, "undecided": 0, "constructs": set()})
    for r in per_rule.values():
        r["constructs"] = sorted(r["constructs"])[:40]
    scripts = {f for f in k.functions if f.endswith(".sh")}
    nsrc = scripts or {m.rel for m in k.p.modules.values()}
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": "Static analysis of %s's current source: %d files parsed, %d functions analysed in context, %d abstract "
                           "paths summarised in %d abstract steps; %d obligations of %d rules decided (%d undecided)."
                           % (REPO, len(nsrc), len(k.functions), k.paths, k.steps, len(decided), len(k.rules), len(und)),
            "files": sorted(nsrc), "functions_analysed": sorted(k.functions), "abstract_paths": k.paths,
            "obligations": len(k.obs), "discharged": sum(1 for o in k.obs if o["status"] == "ok"),
            "rules": per_rule,
            "undecided": [{"rule": o["rule"], "construct": o["construct"], "why": o["detail"]} for o in und][:50],
            "samples": [{"rule": o["rule"], "construct": o["construct"], "detail": o["detail"][:300]} for o in decided[:5]],
        },
        "assumptions": rules.ASSUMPTIONS + rules.EXTRA_ASSUMPTIONS.get(pid, []) + k.notes,
        "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    if selftest is not None:
        ev["coverage"]["rule_selftest"] = selftest
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as fp:
        json.dump(ev, fp, indent=1, sort_keys=True, default=str)
    print("%s: %d files, %d functions, %d abstract paths, %d obligations (%d held, %d undecided, %d violated), %.1fs" % (
        pid, len(nsrc), len(k.functions), k.paths, len(k.obs), ev["coverage"]["discharged"], len(und), len(viol), time.time() - t0))
    for rid, r in per_rule.items():
        print("  %-4s %-100s held=%d violated=%d undecided=%d" % (rid, r["rule"][:100], r["held"], r["violated"], r["undecided"]))
    for o in und[:10]:
        print("  undecided %s %s: %s" % (o["rule"], o["construct"], o["detail"][:200]))
    if selftest is not None:
        print("  self-test: %s" % {x: selftest[x] for x in selftest if x != "mutants"})
    if viol:
        rp = os.path.join(VERIF, "evidence", "replay_%s.json" % pid)
        with open(rp, "w", encoding="utf-8") as fp:
            json.dump({"property": pid, "how": "python3 checker/check.py %s  (re-analyses the source; each entry names the construct and the "
                       "abstract path that violates the rule)" % pid,
                       "violations": [dict(o, rule_text=k.rules.get(o["rule"])) for o in viol]}, fp, indent=1, default=str)
        seen = set()
        for o in viol:
            key = (o["rule"], o["construct"], o["detail"])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) <= 12:
                print("  violated %s at %s: %s%s" % (o["rule"], o["construct"], o["detail"][:400], " [%s]" % o["where"] if o["where"] else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not decided:
        print("ERROR property=%s: no obligation could be decided" % pid)
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:                                # never exit 1 without a violation
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
