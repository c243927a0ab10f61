"""Build the facts: run the `mirfacts` rustc driver over /repo's current working tree.

The facts are MIR (after type checking, borrow checking and trait resolution) of every workspace
crate.  They are stamped with a hash of every source file and manifest of /repo, so a stale facts
directory is never reused.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MENTAT_REPO", "/repo")
WORK = os.environ.get("MENTAT_WORK", os.path.join(VERIF, ".work"))
SKIP_DIRS = {"target", ".git", "docs", "sdks", "node_modules", "fixtures", "automation", "scripts"}

class FactsError(Exception):
    pass

def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTC", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_HUSKY_DONT_INSTALL_HOOKS"] = "1"
    e["CARGO_INCREMENTAL"] = "0"
    return e

def run(cmd, cwd, e, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    if p.returncode != 0:
        raise FactsError("%s failed (exit %d):\n%s" % (what, p.returncode,
                         p.stdout.decode("utf8", "replace")[-6000:]))
    return p.stdout.decode("utf8", "replace")

def source_files(root=None):
    root = root or REPO
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock"):
                out.append(os.path.join(d, f))
    return out

def digest():
    h = hashlib.sha256()
    for f in source_files():
        h.update(os.path.relpath(f, REPO).encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in sorted(glob.glob(os.path.join(VERIF, "driver/src/*.rs"))):
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()

def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver")
    run(["cargo", "+nightly", "build", "--release", "--offline"], os.path.join(VERIF, "driver"), e,
        "building the mirfacts driver")
    return os.path.join(WORK, "driver", "release", "mirfacts")

CRATES = ["core_traits", "db_traits", "edn", "mentat", "mentat_core", "mentat_db",
          "mentat_query_algebrizer", "mentat_query_projector", "mentat_query_pull",
          "mentat_query_sql", "mentat_sql", "mentat_tolstoy", "mentat_transaction", "mentat_ffi",
          "mentat_cli", "public_traits", "query_algebrizer_traits", "query_projector_traits",
          "query_pull_traits", "sql_traits", "tolstoy_traits"]

def ensure():
    """Returns (facts_dir, info)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    facts = os.path.join(WORK, "facts")
    want = digest()
    stamp = os.path.join(facts, "STAMP")
    if os.path.exists(stamp) and open(stamp).read() == want:
        return facts, {"digest": want, "cached": True, "facts_s": round(time.time() - t0, 2)}
    drv = build_driver()
    e = env()
    sysroot = run(["rustc", "+nightly", "--print", "sysroot"], VERIF, e, "sysroot").strip()
    tgt = os.path.join(WORK, "target")
    # Workspace crates must be recompiled by the wrapper so that their facts are rewritten.
    for f in (glob.glob(os.path.join(tgt, "debug", ".fingerprint", "*")) +
              glob.glob(os.path.join(tgt, "debug", "build", "*"))):
        base = os.path.basename(f).replace("-", "_")
        if any(base == c or base.startswith(c + "_") for c in CRATES):
            shutil.rmtree(f, ignore_errors=True)
    shutil.rmtree(facts, ignore_errors=True)
    os.makedirs(facts)
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["MIRFACTS_OUT"] = facts
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    e["RUSTFLAGS"] = "--cap-lints warn"
    run(["cargo", "+nightly", "check", "--workspace", "--offline", "-q"], REPO, e,
        "compiling /repo with the mirfacts driver")
    have = {os.path.basename(f).split(".")[0] for f in glob.glob(os.path.join(facts, "*.json"))}
    missing = [c for c in CRATES if c not in have]
    if missing:
        raise FactsError("no facts were produced for crates: %s" % ", ".join(missing))
    with open(stamp, "w") as f:
        f.write(want)
    return facts, {"digest": want, "cached": False, "facts_s": round(time.time() - t0, 2)}

if __name__ == "__main__":
    d, i = ensure()
    print(d, json.dumps(i))
