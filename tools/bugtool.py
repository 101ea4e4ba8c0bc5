#!/usr/bin/env python3
"""Development helper: turns an edit of /repo plus a demonstration into seeded/<id>/ and confirms it.
Usage: bugtool.py add SPEC.py [ids]   writes seeded/<id> for each spec in SPEC.py's BUGS, confirms each
       bugtool.py catch [ids]         runs the quick check of each bug's property (or others given by -p)
Nothing here is used by any check."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = """#!/bin/bash
# Builds main.rs beside this file against the xecs in the current directory; exit 0: behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
xecs = { path = "$repo" }
parking_lot = "0.12"
END
cd "$d" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/target"
cargo build -q --offline 2>"$d/log" || { cat "$d/log"; exit 2; }
timeout 60 "$d/target/debug/demo"
"""
DEMO_REJECT = DEMO.replace("exit 0: behaves.", "exit 0: it does not compile, as it should.").replace('cp "$here/main.rs" "$d/src/main.rs"', 'echo "fn main() {}" > "$d/src/main.rs"').split("timeout 60")[0] + """cp "$here/main.rs" "$d/src/main.rs"
if cargo build -q --offline 2>"$d/log"; then echo "unsafe use compiles"; exit 1; fi
grep -q "^error" "$d/log" && exit 0
exit 2
"""
PRE = "#![allow(unused)]\nuse xecs::*;\nuse xecs::group::*;\nuse xecs::query::*;\nfn n(i: usize) -> EntityId { EntityId::new(i).unwrap() }\n"
def sh(c, t=900, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
def clean():
    sh(f"git -C {R} checkout -- .")
def stable():
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if sh("bash /opt/vp/build.sh").returncode: return "does not build"
    sh("bash /opt/vp/test.sh /tmp/bugtool.json")
    m = b - set(json.load(open("/tmp/bugtool.json"))["passed"])
    return f"tests fail: {sorted(m)}" if m else ""
def demo(i):
    try:
        p = sh(["bash", f"{V}/seeded/{i}/demo.sh"], 300, cwd=R)
    except subprocess.TimeoutExpired:
        return 124, ""
    return p.returncode, p.stdout[-600:]
def original_lines(patch):
    """Lines the patch removes that were not in the original repository."""
    base = sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.strip()
    bad, f = [], None
    for l in patch.splitlines():
        if l.startswith("--- a/"): f = l[6:]; src = sh(f"git -C {R} show {base}:{f}").stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in src: bad.append(l)
    return bad
def add(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    assert not sh(f"git -C {R} status --porcelain").stdout, "repo not clean"
    for b in ns["BUGS"]:
        i = b["id"]
        if only and i not in only: continue
        try:
            d = f"{V}/seeded/{i}"
            os.makedirs(d, exist_ok=True)
            for f, old, new in b["edits"]:
                s = open(f"{R}/{f}").read()
                nth = 0
                tup = isinstance(old, tuple)
                if tup: old, nth = old
                parts = s.split(old)
                assert len(parts) > nth + 1, f"{i}: text not found in {f}: {old}"
                assert tup or len(parts) == 2, f"{i}: {len(parts)-1} occurrences in {f}: {old}"
                s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
                open(f"{R}/{f}", "w").write(s)
            patch = sh(f"git -C {R} diff").stdout
            open(f"{d}/patch.diff", "w").write(patch)
            open(f"{d}/demo.sh", "w").write(DEMO_REJECT if b.get("reject") else DEMO); os.chmod(f"{d}/demo.sh", 0o755)
            open(f"{d}/main.rs", "w").write(PRE + b["demo"].strip() + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            e = stable()
            rc1, o1 = demo(i)
            bad = original_lines(patch)
        finally:
            clean()
        rc0, o0 = demo(i)
        ok = not e and rc0 == 0 and rc1 != 0 and rc1 != 2
        print(f"{i}: {'ok' if ok else 'BAD'} stable[{e or 'pass'}] demo clean={rc0} patched={rc1} notorig={bad}", flush=True)
        if not ok: print(o0 if rc0 else o1)
def catch(args):
    props = None
    if "-p" in args:
        k = args.index("-p"); props = args[k + 1].split(","); args = args[:k] + args[k + 2:]
    ids = args or sorted(os.listdir(f"{V}/seeded"))
    for i in ids:
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        assert not sh(f"git -C {R} status --porcelain").stdout, "repo not clean"
        try:
            a = sh(f"git -C {R} apply {V}/seeded/{i}/patch.diff")
            if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
            for p in props or [m["property"]]:
                t = time.time()
                try:
                    r = sh(["bash", f"{V}/check.sh", p], 900)
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    s = "caught" if r.returncode == 1 and v else ("MISSED" if r.returncode == 0 else f"rc={r.returncode}")
                    msg = r.stdout.strip().splitlines()[-2:-1] if v else r.stdout.strip().splitlines()[-1:]
                    if v:
                        rp = v[0].split("replay=")[1]
                        msg.append(v[0].split("/")[-1])
                        if "/replays/" in rp and os.path.exists(rp): os.remove(rp)
                except subprocess.TimeoutExpired:
                    s, msg = "TIMEOUT", ""
                print(f"{i} {p}: {s} {time.time()-t:.0f}s {str(msg)[:230]}", flush=True)
        finally:
            clean()
if __name__ == "__main__":
    if sys.argv[1] == "add": add(sys.argv[2], sys.argv[3:])
    else: catch(sys.argv[2:])
