#!/usr/bin/env python3
"""probes.py [id..]: applies each change below to a scratch copy of /repo and runs the quick checks of the listed properties.
A probe marked `quiet` changes no promised behaviour: the checks must stay silent. No demonstrations here; see ../../seeded."""
import os, sys, subprocess, shutil
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(os.path.dirname(HERE))
PROBES={}
def probe(id, props, edits, quiet=False):
    assert id not in PROBES, id
    PROBES[id]=(props.split(), edits, quiet)
exec(open(HERE+"/defs.py").read())
T=os.environ.get("PROBE_DIR","/tmp/probe")
SCRATCH=T+"/repo"; BUILD=T+"/build"; OUT=T+"/out"; COPY=T+"/verif"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(ids):
    shutil.rmtree(SCRATCH, ignore_errors=True); os.makedirs(OUT, exist_ok=True)
    # the harness is copied, so that it can be edited while this runs
    shutil.rmtree(COPY, ignore_errors=True); os.makedirs(COPY)
    sh(f"git clone -q /repo {SCRATCH}; cp -a {ROOT}/sim {ROOT}/tools {COPY}/")
    for i in ids:
        props, edits, quiet = PROBES[i]
        sh(f"git -C {SCRATCH} checkout -q -- .")
        bad=None
        for f,old,new in edits:
            s=open(f"{SCRATCH}/{f}").read()
            if s.count(old)!=1: bad=f"{f}: {s.count(old)} matches"; break
            open(f"{SCRATCH}/{f}","w").write(s.replace(old,new))
        if bad: print(i,"EDIT",bad,flush=True); continue
        e=dict(os.environ,PSIM_REPO=SCRATCH,PSIM_BUILD=BUILD,PSIM_ROOT=OUT)
        b=sh(f"bash {COPY}/tools/build.sh",env=e)
        if b.returncode: print(i,"BUILD FAILED",b.stdout[-1500:],flush=True); continue
        for pr in props:
            r=sh(f"{BUILD}/target/x86_64-unknown-linux-gnu/debug/psim check {pr} quick",env=e)
            want=0 if quiet else 1
            print(f"{i:34} {pr} rc {r.returncode} {'as expected' if r.returncode==want else '*** UNEXPECTED ***'} {r.stdout.strip().split(chr(10))[-1][:150]}",flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)
main(sys.argv[1:] or list(PROBES))
