#!/usr/bin/env python3
"""seed.py < SPEC — confirm a planted bug in a scratch copy and store it under seeded/.

SPEC: `=== id X`, `=== property CNN`, `=== needs`, `=== breaks`, `=== features a,b`,
`=== edit PATH` (blocks <<<< old ==== new >>>>), `=== main` (Rust)."""
import json, os, re, shutil, subprocess, sys
S = "/tmp/seedrepo"
spec = sys.stdin.read()
for one in re.split(r"(?m)^(?==== id )", spec):
    if not one.strip():
        continue
    parts = re.split(r"(?m)^=== (.*)\n", one)
    d, edits = {}, []
    for h, b in zip(parts[1::2], parts[2::2]):
        k, _, a = h.partition(" ")
        if k == "edit":
            edits.append((a.strip(), re.findall(r"<<<<\n(.*?)====\n(.*?)>>>>", b, re.S)))
        else:
            d[k] = (a + "\n" + b).strip()
    sid = d["id"]
    if not os.path.exists(S):
        subprocess.run(["cp", "-a", "/repo", S], check=True)
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", S, "fetch", "-q", "/repo", "HEAD"], check=True)
    subprocess.run(["git", "-C", S, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
    bad = False
    for f, bs in edits:
        p = os.path.join(S, f)
        s = open(p).read()
        for o, n in bs:
            if s.count(o) != 1:
                print(sid, "EDIT", f, "matches", s.count(o), repr(o[:60])); bad = True
            s = s.replace(o, n, 1)
        open(p, "w").write(s)
    if bad:
        continue
    out = f"/verif/seeded/{sid}"
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/main.rs", "w").write(d["main"] + "\n")
    feats = d.get("features", "read,write,build,std")
    fl = ", ".join(f'"{x}"' for x in feats.split(","))
    open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# Builds main.rs against the object crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
export CARGO_NET_OFFLINE=true PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$w/target"
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
object = {{ path = "$repo", default-features = false, features = [{fl}] }}
[profile.dev]
debug = 0
[workspace]
EOF
cd "$w" && cargo run --offline -q
''')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
    ok = True
    r = subprocess.run([out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    if r.returncode:
        print(sid, "DEMO FAILS ON CLEAN TREE", r.stderr[-1500:]); ok = False
    r = subprocess.run([out + "/demo.sh"], cwd=S, capture_output=True, text=True)
    if not r.returncode or "could not compile" in r.stderr:
        print(sid, "DEMO ON PATCHED:", r.returncode, r.stderr[-1500:]); ok = False
    for n in ("build.sh", "test.sh"):
        t = open(f"/opt/vp/{n}").read().replace("cd /repo", f"cd {S}")
        open(f"/tmp/seed_{n}", "w").write(t)
    r = subprocess.run(["bash", "/tmp/seed_build.sh"], capture_output=True, text=True)
    if r.returncode:
        print(sid, "BUILD", r.stderr[-800:]); ok = False
    subprocess.run(["bash", "/tmp/seed_test.sh", "/tmp/seed_out.json"], capture_output=True, text=True)
    passed = set(json.load(open("/tmp/seed_out.json"))["passed"])
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
    if miss:
        print(sid, "TESTS FAIL", miss[:4]); ok = False
    print(sid, "CONFIRMED" if ok else "REJECTED")
    if not ok:
        shutil.rmtree(out)
