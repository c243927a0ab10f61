"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "engine")); sys.path.insert(0, os.path.join(H, "tools"))
import props, registry
have = set(registry.ids())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        j = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}
        if p["state"]: j["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: j["anchors"]["observe_at"] = list(p["observe"])
        f.write(json.dumps(j, ensure_ascii=False) + "\n")
checks, nas = [], []
for p in props.PROPS:
    if p["id"] in props.NA or p["id"] not in have:
        nas.append({"property": p["id"], "reason": props.NA.get(p["id"], "not built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nas,
     "notes": "Static analysis only: every check recompiles /repo's current tree with a rustc driver (driver/) that dumps MIR facts, then decides its rules on them (engine/). No hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(nas), "not applicable;", sorted(have - {p["id"] for p in props.PROPS}), "without property text")
out = [open(os.path.join(H, "tools/design_head.md")).read(), "\n## Properties\n"]
for p in props.PROPS:
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    if p["id"] in props.NA: out.append("\n*Not applicable:* %s\n" % props.NA[p["id"]]); continue
    if p["id"] not in have: out.append("\n*Not built yet.*\n"); continue
    out.append("\n*Method:* %s. *Over:* %s. *Why tests cannot settle it:* %s *Limits:* %s\n" % (p["technique"], p["text"], p["why"], p["note"]))
    rs = registry.rule_texts(p["id"]) if hasattr(registry, "rule_texts") else []
    for r, t in rs: out.append("- `%s` %s\n" % (r, t))
    sh = getattr(registry, "ALSO", {}).get(p["id"])
    if sh: out.append("- and, decided for other properties but asked for by this statement too: %s\n" % ", ".join("`%s`%s" % (r.replace("\\.", "."), " (%s)" % k if k else "") for r, k in sh))
out.append("\n## Seeded changes\n\nEach is caught by the check of its property (replayed with `tools/mkseed.py <id>`).\n\n| change | property | needs |\n|---|---|---|\n")
S = os.path.join(H, "seeded")
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    mj = json.load(open(os.path.join(S, i, "meta.json")))
    out.append("| %s | %s | %s |\n" % (i, mj["property"], mj["needs"]))
out.append(open(os.path.join(H, "tools/design_tail.md")).read())
open(os.path.join(H, "DESIGN.md"), "w").write("".join(out))
