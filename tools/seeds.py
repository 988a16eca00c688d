#!/usr/bin/env python3
"""seeds.py [ID...]: write seeded/<ID>/ from the table in seedtable.py (a change, a demonstration)."""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedtable import SEEDS

DEMO = '''#!/bin/bash
# builds a small program against the repository in the current directory; its exit code is the result
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
m-bus-parser = { path = "$repo", features = [%s] }
m-bus-core = { path = "$repo/crates/m-bus-core" }
m-bus-application-layer = { path = "$repo/crates/m-bus-application-layer" }
wired-mbus-link-layer = { path = "$repo/crates/wired-mbus-link-layer" }
wireless-mbus-link-layer = { path = "$repo/crates/wireless-mbus-link-layer" }
%s[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTFLAGS= timeout 280 cargo run --offline -q
'''
HEX = '''
#[allow(dead_code)]
fn hex(s: &str) -> Vec<u8> {
    let s: String = s.split_whitespace().collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
'''
want = sys.argv[1:]
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    d = f"/verif/seeded/{s['id']}"
    shutil.rmtree("/tmp/seed", ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", "/tmp/seed"], check=True)
    for (f, old, new) in s["edits"]:
        p = "/tmp/seed/" + f
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            sys.exit(f"{s['id']}: {n} occurrences in {f}: {old!r}")
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/tmp/seed", "diff"], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if "sh" in s:
        open(d + "/demo.sh", "w").write(s["sh"])
        if os.path.exists(d + "/demo.rs"):
            os.remove(d + "/demo.rs")
    else:
        open(d + "/demo.rs", "w").write("use m_bus_parser::*;\n" + HEX + s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % (", ".join(f'"{x}"' for x in s.get("features", ["std", "decryption"])), s.get("deps", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", s["id"])
shutil.rmtree("/tmp/seed", ignore_errors=True)
