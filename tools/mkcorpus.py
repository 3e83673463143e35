#!/usr/bin/env python3
"""For every repaired defect: take the repair back in a scratch copy, run the
property's check there, and keep the shrunk case as a regression case under
/verif/corpus/<property>/. Also shows that each check reports the real defect
it led to. usage: mkcorpus.py [PROPERTY...]"""
import json, os, re, shutil, subprocess, sys
W = "/tmp/mkcorpus"
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
sh("git clone -q /repo %s/repo" % W)
sh("cp -a /repo/Cargo.lock /repo/target %s/repo/" % W)
os.makedirs(W + "/verif/harness")
sh("cp -a /verif/harness/src /verif/harness/build.rs /verif/harness/Cargo.lock %s/verif/harness/" % W)
toml = open("/verif/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % W)
open(W + "/verif/harness/Cargo.toml", "w").write(toml)
only = sys.argv[1:]
for l in open("/verif/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if not m or only and m[1] not in only:
        continue
    pid, commit, what = m.groups()
    sh("git reset -q --hard HEAD && git clean -fdq -e target", W + "/repo")
    if not sh("git status --short", W + "/repo").stdout.strip() == "":
        sh("git checkout -- .", W + "/repo")
    r = sh("git -c user.name=x -c user.email=x@x revert --no-commit " + commit, W + "/repo")
    if r.returncode:
        print(pid, commit, "CONFLICT", what); sh("git revert --abort; git reset -q --hard", W + "/repo"); continue
    b = sh("cargo build --release --offline", W + "/verif/harness")
    if b.returncode:
        print(pid, commit, "BUILD FAILS", what); sh("git reset -q --hard", W + "/repo"); continue
    r = sh("./target/release/harness run %s quick" % pid, W + "/verif/harness")
    v = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
    if not v:
        print(pid, commit, "NOT REPORTED rc", r.returncode, what, r.stderr[-300:]); sh("git reset -q --hard", W + "/repo"); continue
    d = json.load(open(v[1]))
    os.makedirs("/verif/corpus/" + pid, exist_ok=True)
    out = {"suite": d["suite"], "case": d["case"], "defect": "%s (repaired by %s)" % (what, commit)}
    json.dump(out, open("/verif/corpus/%s/%s.json" % (pid, commit), "w"), indent=1, ensure_ascii=False)
    print(pid, commit, "ok", d["suite"], json.dumps(d["case"])[:150], flush=True)
    sh("git reset -q --hard", W + "/repo")
shutil.rmtree(W, ignore_errors=True)
