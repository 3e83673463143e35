#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specs in seeds.py, after confirming each one in a scratch copy of /repo.

    python3 tools/mkseed.py [--force] [ID ...]     confirm and write
    python3 tools/mkseed.py --check [ID ...]       run the property's check (--all: every check) against it in a scratch copy

A change is kept only if it builds, passes the stable tests, and its demonstration fails with it and passes without it.
"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS, PRELUDE

ROOT = "/verif/seeded"
SEED = os.environ.get("VERIF_SEED", "1")
SCR = "/tmp/seedscratch"
TGT = "/tmp/seedtarget"
DEMO = r'''#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" && cp "$repo/Cargo.lock" "$work/" || exit 2
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rusty-source-map = { path = "$repo" }
source-map-mappings = "0.5.0"
serde_json = "1"
rayon = "1"
EOF
cd "$work" && cargo build --offline --quiet --target-dir "${DEMO_TARGET:-$work/target}" 2> build.log || { cat build.log; exit 2; }
timeout 120 "${DEMO_TARGET:-$work/target}/debug/demo"
'''

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(cmd, 124, (x.stdout or b"").decode() + "TIMEOUT")

def originals():
    """Line numbers per file that come from the base commit."""
    keep = {}
    for f in subprocess.check_output("git ls-files src", cwd="/repo", shell=True, text=True).split():
        out = subprocess.check_output(["git", "blame", "-s", "--", f], cwd="/repo", text=True).splitlines()
        keep[f] = [l.startswith("^") for l in out]
    return keep

def make(s):
    d = f"{ROOT}/{s['id']}"
    src = {}
    touched_original = False
    keep = originals()
    for f, old, new in s["edits"]:
        text = src.get(f) or open(f"/repo/{f}").read()
        if text.count(old) != 1:
            return f"{f}: {text.count(old)} places match {old[:50]!r}"
        src[f] = text.replace(old, new)
    sh(f"rm -rf {SCR}/src && cp -a /repo/src {SCR}/src", "/")
    for f, text in src.items():
        open(f"{SCR}/{f}", "w").write(text)
    diff = sh("git -c core.fileMode=false diff --src-prefix=a/ --dst-prefix=b/ -- src", SCR).stdout
    # which base lines does it remove?
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0]) - 1
        elif l.startswith("-") and not l.startswith("---"):
            if keep[f][n]: touched_original = True
            n += 1
        elif l.startswith(" "): n += 1
    if not touched_original: return "removes no original line"
    r = sh("cargo test --offline --workspace --no-fail-fast 2>&1 | grep -E '^test |^error|panicked|^warning: unused'", SCR)
    ok = [l for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok")]
    if len(ok) != 27 or "FAILED" in r.stdout or "error" in r.stdout:
        return f"tests: {len(ok)} ok\n" + r.stdout[-1500:]
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(PRELUDE + s["demo"])
    open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    env = {"DEMO_TARGET": TGT}
    bad = sh(f"bash {d}/demo.sh", SCR, env)
    sh(f"rm -rf {SCR}/src && cp -a /repo/src {SCR}/src && touch {SCR}/src/*.rs", "/")
    good = sh(f"bash {d}/demo.sh", SCR, env)
    if good.returncode != 0 or bad.returncode in (0, 2):
        shutil.rmtree(d)
        return f"demo: unchanged rc={good.returncode}, changed rc={bad.returncode}\n{good.stdout[-800:]}\n--\n{bad.stdout[-800:]}"
    return None

W = os.environ.get("SEEDCHECK", "/tmp/seedcheck")
def scratch():
    """A copy of the committed repository and of the harness beside it."""
    sh(f"rm -rf {W}; mkdir -p {W}/verif/harness", "/")
    sh(f"git clone -q /repo {W}/repo && cp -a /repo/Cargo.lock {W}/repo/", "/")
    sh(f"cp -a harness/src harness/build.rs harness/Cargo.lock {W}/verif/harness/ && cp -a corpus known_findings.txt {W}/verif/", "/verif")
    t = open("/verif/harness/Cargo.toml").read().replace('"/repo"', f'"{W}/repo"')
    open(f"{W}/verif/harness/Cargo.toml", "w").write(t)

def check(s, props):
    p = f"{ROOT}/{s['id']}/patch.diff" if isinstance(s, dict) else s
    sh("git checkout -q -- .; touch src/*.rs", W + "/repo")
    r = sh(f"git apply {p} && touch src/*.rs", W + "/repo")
    if r.returncode: return {q: "no apply " + r.stdout for q in props}
    r = sh("cargo build --release --offline", W + "/verif/harness")
    if r.returncode: return {q: "no build " + r.stdout[-600:] for q in props}
    res = {}
    for prop in props:
        r = sh(f"VERIF_SEED={SEED} VERIF_TIER=quick ./target/release/harness run {prop} quick", W + "/verif/harness")
        hit = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={prop}")]
        res[prop] = "caught" if r.returncode == 1 and hit else f"rc={r.returncode}"
        if r.returncode not in (0, 1): print(r.stdout[-1500:])
    return res

def main():
    a = sys.argv[1:]
    flags = [x for x in a if x.startswith("--")]; ids = [x for x in a if not x.startswith("--")]
    sel = [s for s in SEEDS if not ids or s["id"] in ids]
    if "--check" in flags:
        scratch()
        allp = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
        for s in sel:
            if not os.path.exists(f"{ROOT}/{s['id']}/patch.diff"): continue
            r = check(s, allp if "--all" in flags else [s["property"]])
            print(s["id"], "own:", r[s["property"]], " ".join(k for k, v in r.items() if v == "caught"), {k: v for k, v in r.items() if v not in ("caught", "rc=0")} or "", flush=True)
        return
    sh(f"rm -rf {SCR}; cp -a /repo {SCR}", "/")
    for s in sel:
        if os.path.exists(f"{ROOT}/{s['id']}/patch.diff") and "--force" not in flags:
            continue
        e = make(s)
        print(s["id"], "OK" if e is None else "REJECTED " + e, flush=True)
    sh(f"rm -rf {SCR}", "/")

main()
