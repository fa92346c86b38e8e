#!/usr/bin/env python3
"""plants.py gen [id..]: writes ../../seeded/<id>/ ; plants.py verify [id..]: confirms them in a scratch copy
(builds, stable tests pass, demo passes without and fails with); plants.py detect [id..]: runs the property's check on each."""
import os, sys, subprocess, json, shutil, re
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(os.path.dirname(HERE)); SEED=ROOT+"/seeded"
PLANTS={}
def plant(id, prop, needs, breaks, edits, main, alloc=False):
    assert id not in PLANTS
    PLANTS[id]=dict(prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,alloc=alloc)
exec(open(HERE+"/defs.py").read())

TOML='''[workspace]

[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
parcom-core = { path = "@REPO@/crates/parcom-core" }
parcom-internals = { path = "@REPO@/crates/parcom-internals" }
parcom-metrics = { path = "@REPO@/crates/parcom-metrics" }
parcom-parsers = { path = "@REPO@/crates/parcom-parsers" }
parcom-runners = { path = "@REPO@/crates/parcom-runners" }
parcom-sequence-core = { path = "@REPO@/crates/parcom-sequence-core" }
parcom-sequence-sources = { path = "@REPO@/crates/parcom-sequence-sources" }
parcom-sequences = { path = "@REPO@/crates/parcom-sequences" }
parcom-util = { path = "@REPO@/crates/parcom-util" }

[profile.dev]
debug = false
incremental = false
'''
SH='''#!/bin/bash
# run in the repository's root; everything is built in a scratch directory that is removed again
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:$PATH
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cp "$here"/*.rs "$dir"/
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$dir/Cargo.toml"
cd "$dir" || exit 3
export CARGO_TARGET_DIR=$dir/target RUSTFLAGS="--cfg parcom_sim -A warnings"
cargo build --offline --quiet || exit 3
timeout 20 "$dir/target/debug/demo"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def gen(ids):
    tmp="/tmp/plant-gen"; shutil.rmtree(tmp, ignore_errors=True)
    sh(f"git clone -q /repo {tmp}")
    for i in ids:
        p=PLANTS[i]; d=f"{SEED}/{i}"; os.makedirs(d, exist_ok=True)
        for f,old,new in p["edits"]:
            s=open(f"{tmp}/{f}").read()
            if s.count(old)!=1: raise SystemExit(f"{i}: {f}: {s.count(old)} matches of\n{old}")
            open(f"{tmp}/{f}","w").write(s.replace(old,new))
        diff=subprocess.run(["git","-C",tmp,"diff"],stdout=subprocess.PIPE,text=True).stdout
        sh(f"git -C {tmp} checkout -q -- .")
        # at least one original line is changed
        orig=False
        for f,_,_ in p["edits"]:
            blame=sh(f"git -C {tmp} blame -s {f}").stdout.split("\n")
            cur=None; n=0
            for l in diff.split("\n"):
                if l.startswith("--- a/"): cur=l[6:]
                m=re.match(r"@@ -(\d+)",l)
                if m: n=int(m[1]); continue
                if l.startswith("---") or l.startswith("+++"): continue
                if l.startswith("-"):
                    if cur==f and blame[n-1].startswith("^ed3bde"): orig=True
                    n+=1
                elif l.startswith(" "): n+=1
        if not orig: print(f"{i}: WARNING changes no original line")
        open(d+"/patch.diff","w").write(diff)
        open(d+"/meta.json","w").write(json.dumps({"property":p["prop"],"needs":p["needs"],"what_it_breaks":p["breaks"]},indent=1)+"\n")
        open(d+"/Cargo.toml.in","w").write(TOML)
        open(d+"/demo.sh","w").write(SH); os.chmod(d+"/demo.sh",0o755)
        pre="mod util;\n" + ("mod alloc;\n#[global_allocator]\nstatic ALLOC: alloc::Checked = alloc::Checked;\n" if p["alloc"] else "")
        open(d+"/main.rs","w").write(pre+p["main"].lstrip("\n"))
        shutil.copy(HERE+"/util.rs",d+"/util.rs")
        if p["alloc"]: shutil.copy(HERE+"/alloc.rs",d+"/alloc.rs")
    shutil.rmtree(tmp, ignore_errors=True)
SCRATCH="/tmp/plant-repo"
def scratch():
    shutil.rmtree(SCRATCH, ignore_errors=True); sh(f"cp -a /repo {SCRATCH}")
def verify(ids):
    scratch()
    env=open("/opt/vp/env.sh").read()
    for i in ids:
        d=f"{SEED}/{i}"; res=[]
        sh(f"git -C {SCRATCH} checkout -q -- .")
        r=sh(f"bash {d}/demo.sh",cwd=SCRATCH); res.append(("demo clean",r.returncode==0,r.stdout[-1500:]))
        r=sh(f"git -C {SCRATCH} apply {d}/patch.diff"); res.append(("apply",r.returncode==0,r.stdout))
        r=sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={SCRATCH}/target; cd {SCRATCH} && cargo build --workspace --offline && cargo nextest run --workspace --offline --no-fail-fast --test-threads 8")
        ok=r.returncode==0 and "17 passed" in r.stdout
        res.append(("build+tests",ok,r.stdout[-3000:]))
        r=sh(f"bash {d}/demo.sh",cwd=SCRATCH); res.append(("demo planted",r.returncode not in (0,3),f"rc {r.returncode}\n"+r.stdout[-800:]))
        bad=[x for x in res if not x[1]]
        print(i,"ok" if not bad else "BAD", "| planted demo:", res[-1][2].strip().split("\n")[0:3] if not bad else "")
        for x in bad: print("   ",x[0],":",x[2])
        sys.stdout.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)
def detect(ids, tier="quick", props=None):
    scratch()
    for i in ids:
        d=f"{SEED}/{i}"
        sh(f"git -C {SCRATCH} checkout -q -- . && git -C {SCRATCH} apply {d}/patch.diff")
        e=dict(os.environ,PSIM_REPO=SCRATCH,PSIM_BUILD="/tmp/plant-build",PSIM_ROOT="/tmp/plant-out")
        os.makedirs("/tmp/plant-out",exist_ok=True)
        b=sh(f"bash {ROOT}/tools/build.sh",env=e)
        if b.returncode: print(i,"BUILD FAILED",b.stdout[-2000:]); continue
        for pr in (props or [PLANTS[i]["prop"]]):
            r=sh(f"/tmp/plant-build/target/x86_64-unknown-linux-gnu/debug/psim check {pr} {tier}",env=e)
            print(i,pr,"rc",r.returncode,r.stdout.strip().split("\n")[-1][:200]); sys.stdout.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)
if __name__=="__main__":
    cmd=sys.argv[1]; a=sys.argv[2:]
    props=None
    if "--props" in a:
        k=a.index("--props"); props=a[k+1].split(","); a=a[:k]
    ids=a or list(PLANTS)
    if cmd=="gen": gen(ids)
    elif cmd=="verify": verify(ids)
    elif cmd=="detect": detect(ids,props=props)
