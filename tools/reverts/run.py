"""run.py: takes each "fix:" commit of /repo back in a scratch copy and runs the checks of the properties it concerned;
each must report a violation again. A fix that no longer reverts on its own is listed as such."""
import os, re, sys, subprocess, shutil
ROOT=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T=os.environ.get("PROBE_DIR","/tmp/reverts")
SCRATCH=T+"/repo"; BUILD=T+"/build"; OUT=T+"/out"; COPY=T+"/verif"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
# the properties each fix concerned, as in DESIGN.md
PROPS={}
for l in open(ROOT+"/DESIGN.md"):
    m=re.match(r"\| ([0-9a-f]{7}) \| ([C0-9, ]+) \|", l)
    if m: PROPS[m[1]]=m[2].replace(",","").split()
shutil.rmtree(T, ignore_errors=True); os.makedirs(OUT); os.makedirs(COPY)
sh(f"git clone -q /repo {SCRATCH}; cp -a {ROOT}/sim {ROOT}/tools {COPY}/")
for c in sys.argv[1:] or PROPS:
    sh(f"git -C {SCRATCH} reset -q --hard origin/HEAD")
    r=sh(f"git -C {SCRATCH} revert -n {c}")
    if r.returncode:
        # together with the later fixes of the same files
        sh(f"git -C {SCRATCH} reset -q --hard origin/HEAD")
        files=sh(f"git -C {SCRATCH} show --name-only --format= {c}").stdout.split()
        later=sh(f"git -C {SCRATCH} log --format=%h {c}..HEAD -- {' '.join(files)}").stdout.split()
        r=sh(f"git -C {SCRATCH} revert -n {' '.join(later)} {c}")
        if r.returncode: print(c,"does not revert",r.stdout,flush=True); continue
    e=dict(os.environ,PSIM_REPO=SCRATCH,PSIM_BUILD=BUILD,PSIM_ROOT=OUT)
    b=sh(f"bash {COPY}/tools/build.sh",env=e)
    if b.returncode: print(c,"does not build without it",b.stdout[-300:],flush=True); continue
    for p in PROPS[c]:
        r=sh(f"{BUILD}/target/x86_64-unknown-linux-gnu/debug/psim check {p} quick",env=e)
        print(c,p,"rc",r.returncode,"as expected" if r.returncode==1 else "*** UNEXPECTED ***",r.stdout.strip().split("\n")[-1],flush=True)
shutil.rmtree(T, ignore_errors=True)
