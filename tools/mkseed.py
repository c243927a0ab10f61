"""mkseed.py SPEC.py: create seeded/<id>/ from a spec (ID, PROP, EDITS, DEMO, NEEDS, BREAKS, CRATES) and try it:
demo passes on the clean tree; with the patch it builds, the stable tests pass, the demo fails; prints which check fires."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Compiles demo.rs against the libraries build.sh left in /repo/target and runs it.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -r "$T"' EXIT
X=""
for l in @CRATES@; do X="$X --extern $l=/repo/target/debug/lib$l.rlib"; done
cd "$T" || exit 3
rustc --edition 2018 --test -A warnings -o "$T/demo" "$D/demo.rs" $X -L dependency=/repo/target/debug/deps || exit 3
export RUST_BACKTRACE=0
timeout 200 "$T/demo" --test-threads 1
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, "seeded", ns["ID"]); os.makedirs(d, exist_ok=True)
    open(d + "/demo.rs", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write(SH.replace("@CRATES@", " ".join(ns.get("CRATES", ["mentat"]))))
    os.chmod(d + "/demo.sh", 0o755)
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty"
    for f, a, b in ns["EDITS"]:
        p = "/repo/" + f; s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
    sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    return ns["ID"], ns["PROP"], d
def attempt(i, prop, d, clean=True):
    out = []
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: return "PATCH DOES NOT APPLY " + r.stdout
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: return "NO BUILD\n" + r.stdout[-1500:]
        sh("bash /opt/vp/test.sh /tmp/seed_res.json")
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t = json.load(open("/tmp/seed_res.json"))
        miss = sorted(b - set(t["passed"]))
        if miss: out.append("TESTS FAIL %s" % miss[:4])
        r = sh("cd /repo && bash %s/demo.sh" % d)
        out.append("demo rc=%d%s" % (r.returncode, "" if r.returncode not in (0, 3) else " BAD " + r.stdout[-1200:]))
        r = sh("cd %s && ./check.sh %s" % (V, prop))
        out.append("check %s rc=%d %s" % (prop, r.returncode, "CAUGHT" if "VIOLATION" in r.stdout else "MISSED " + r.stdout[-300:]))
        if "VIOLATION" in r.stdout: out.append(r.stdout.split("\n")[1][:230])
    finally:
        sh("git -C /repo checkout -- .")
    return "; ".join(out)
if __name__ == "__main__":
    todo = []
    for a in sys.argv[1:]:
        if os.path.isdir(os.path.join(V, "seeded", a)):
            d = os.path.join(V, "seeded", a); todo.append((a, json.load(open(d + "/meta.json"))["property"], d))
        else: todo.append(main(a))
    for t in todo: print(t[0], attempt(*t), flush=True)
    r = sh("bash /opt/vp/build.sh")
    for i, p, d in todo:
        r = sh("cd /repo && bash %s/demo.sh" % d)
        print(i, "clean demo rc=%d%s" % (r.returncode, "" if r.returncode == 0 else " BAD " + r.stdout[-800:]), flush=True)
