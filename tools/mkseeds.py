#!/usr/bin/env python3
"""Writes seeded/<id>/ from the list in tools/seeds.py; each change and its demonstration is confirmed by tools/tryseeds.sh."""
import os, sys, json, subprocess, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/tools")
from seeds import SEEDS
only = set(sys.argv[1:])
DEMO = '''#!/bin/bash
# Builds and runs the demonstration beside this file against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 3
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
raw-cpuid = {{ path = "$repo"{feat} }}
{deps}
[profile.dev]
debug = 0
T
cd "$d" && {extra}CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true cargo {toolargs} --offline -q
'''
PRE = '''use raw_cpuid::*;
#[allow(dead_code)]
type Row = (u32, u32, [u32; 4]);
/// A processor that answers with these rows, and with zeroes to anything else.
#[allow(dead_code)]
fn processor(rows: &[Row]) -> impl Fn(u32, u32) -> CpuIdResult + Clone {
    let rows = rows.to_vec();
    move |l, s| {
        let r = rows.iter().find(|r| r.0 == l && r.1 == s).map(|r| r.2).unwrap_or([0; 4]);
        CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] }
    }
}
#[allow(dead_code)]
fn intel(max: u32) -> Row { (0, 0, [max, 0x756e6547, 0x6c65746e, 0x49656e69]) }
#[allow(dead_code)]
fn amd(max: u32) -> Row { (0, 0, [max, 0x68747541, 0x444d4163, 0x69746e65]) }
#[allow(dead_code)]
fn ext(max: u32) -> Row { (0x8000_0000, 0, [max, 0, 0, 0]) }

'''
for s in SEEDS:
    if only and s["id"] not in only: continue
    d = f"{here}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(f"git -C /repo archive HEAD src | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
    for f, old, new in s["edits"]:
        t = open(f"{w}/{f}").read()
        n = t.count(old)
        if n != 1: print(f"{s['id']}: {n} matches for {old!r}"); sys.exit(1)
        open(f"{w}/{f}", "w").write(t.replace(old, new))
    p = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p)
    shutil.rmtree(w)
    feat = s.get("features", [])
    open(d + "/demo.sh", "w").write(DEMO.format(feat=", features = " + json.dumps(feat) if feat else "", deps=s.get("deps", ""), extra=s.get("extra", ""), toolargs=s.get("cargo", "run")))
    os.chmod(d + "/demo.sh", 0o755)
    body = s["demo"]
    open(d + "/main.rs", "w").write(PRE + (body if "fn main" in body else "fn main() {\n" + "".join("    " + l + "\n" for l in body.strip().split("\n")) + "}\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
