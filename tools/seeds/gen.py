#!/usr/bin/env python3
"""gen.py [ID...]: writes /verif/seeded/<id> for every planted bug and says whether it builds, passes the tests and is demonstrated.
Works in /tmp/w (copy of /repo) only."""
import sys, os, subprocess, json, shutil, re
sys.path.insert(0, os.path.dirname(__file__))
import importlib
mods = [importlib.import_module(m) for m in ("a", "b", "c", "d", "e", "f", "g", "h") if os.path.exists(os.path.join(os.path.dirname(__file__), m + ".py"))]
seeds = [s for m in mods for s in m.SEEDS]
assert len({s[0] for s in seeds}) == len(seeds)
W = os.environ.get("CSIG_W", "/tmp/w")
KIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "kit")
def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=k.get("cwd", W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=k.get("timeout", 600))
if not os.path.exists(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"])
want = sys.argv[1:]
env = "export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never; " + f"rm -rf {W}/target/debug/.fingerprint/cloud-storage-signature-*; "
for id, prop, edits, needs, breaks, demo in seeds:
    if want and id not in want:
        continue
    d = f"/verif/seeded/{id}"
    sh("git checkout -q -- . && git clean -fdq -e target")
    err = None
    for f, old, new in edits:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != 1:
            # ambiguous: take the first occurrence outside tests only if it precedes the tests
            i = t.find(old); cut = t.find("#[cfg(test)]")
            n = t[: cut if cut > 0 else None].count(old)
            if n != 1:
                err = f"{f}: {n} matches of {old[:60]!r}"
                break
        open(p, "w").write(t.replace(old, new, 1))
    if err:
        print(id, "EDIT", err, flush=True); continue
    diff = sh("git diff").stdout
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.rs", "w").write("mod kit;\nuse kit::*;\n" + demo)
    shutil.copy(f"{KIT}/kit.rs", f"{d}/kit.rs")
    open(f"{d}/demo.sh", "w").write(open(f"{KIT}/demo.sh").read().replace("@ID@", id))
    os.chmod(f"{d}/demo.sh", 0o755)
    r = sh(env + "cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    passed = set()
    if r.returncode not in (0, 101) or "could not compile" in r.stdout:
        print(id, "BUILD", r.stdout[-1500:], flush=True); continue
    failed = re.findall(r"^test (.*?) \.\.\. FAILED", r.stdout, re.M)
    if failed:
        print(id, "TESTS FAIL", failed, flush=True); continue
    dp = sh(f"bash {d}/demo.sh", timeout=300)
    sh("git checkout -q -- .")
    dc = sh(f"bash {d}/demo.sh", timeout=300)
    ok = dp.returncode == 1 and dc.returncode == 0
    print(id, "ok" if ok else "DEMO", dp.returncode, dp.stdout.strip()[-300:], "| clean", dc.returncode, dc.stdout.strip()[-300:], flush=True)
