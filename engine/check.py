"""check.py <ID> [quick|thorough]: decide one property from /repo's current source."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(HERE)

def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line: continue
            j = json.loads(line)
            if j.get("property") == pid and j.get("status") == "known": out[j["key"]] = j
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    import facts, model, ctx, registry
    fdir, info = facts.ensure()
    P = model.Program(fdir)
    c = ctx.Ctx(P, tier)
    prop = registry.get(pid)
    for fn in prop.fns:
        fn(c)
    known = load_known(pid)
    others, wanted = registry.also(pid)
    own = len(c.obs)
    for fn, owner in others:
        fn(c)
        known.update(load_known(owner))
    c.obs[own:] = [o for o in c.obs[own:] if wanted(o)]
    bad, seen = [], set()
    hit = {}
    for o in c.obs:
        if o.ok: continue
        if o.key in known:
            hit[o.key] = o
            continue
        if (o.key, o.detail) in seen: continue
        seen.add((o.key, o.detail)); bad.append(o)
    per = {}
    for o in c.obs:
        d = per.setdefault(o.rule, {"rule": c.rules.get(o.rule, ""), "obligations": 0, "discharged": 0, "sites": []})
        d["obligations"] += 1
        d["discharged"] += bool(o.ok)
        if len(d["sites"]) < 12: d["sites"].append(("ok: " if o.ok else "NOT DISCHARGED: ") + o.site + ((" -- " + o.detail) if o.detail and not (o.ok and o.detail.endswith(": ")) else ""))
    n = len(c.obs)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the type-checked MIR of every workspace crate, regenerated from /repo's current source on this run. "
                           "%d obligations over %d functions; %d supergraph states explored." % (n, len(c.fns), c.states),
            "obligations": n, "discharged": sum(1 for o in c.obs if o.ok),
            "functions_analysed": len(c.fns), "functions_in_program": len(P.fns), "supergraph_states": c.states,
            "functions": sorted({f.path for f in c.fns})[:200],
            "rules": per,
            "known_findings_present": sorted(hit),
            "facts": info,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, o in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k].get("what", k)))
    print("%s: %d obligations, %d functions analysed, %d states, %.1fs" % (pid, n, len(c.fns), c.states, time.time() - t0))
    if n == 0:
        bad = [ctx.Ob("none", "no obligations", False, "the analysis found nothing to check", "none")]
    if bad:
        rp = os.path.join(facts.WORK, "replay", pid + ".txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            for o in bad:
                f.write("[%s] %s\n  rule: %s\n  %s\n  key: %s\n" % (o.rule, o.site, c.rules.get(o.rule, ""), o.detail, o.key))
        for o in bad[:20]:
            print("  [%s] %s -- %s" % (o.rule, o.site, o.detail))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
