#!/usr/bin/env python3
"""mutate.py list | run <workers> [file-substring..]: systematic small changes of the library, each checked with the quick
checks of the properties anchored in the changed file. Everything happens in scratch copies under /tmp/mut. Results go to
/tmp/mut/results.jsonl (one line per mutant: file, line, change, status, by). Survivors must be looked at by hand: many change
nothing observable."""
import sys, os, re, json, subprocess, shutil, threading, queue, time
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(os.path.dirname(HERE))
C="crates/"
FILES={
 C+"parcom-core/src/primitive.rs":"C16 C02 C17",
 C+"parcom-core/src/primitive/str.rs":"C02 C16 C01 C07",
 C+"parcom-core/src/primitive/slice.rs":"C02 C16 C01 C07 C06",
 C+"parcom-core/src/sequence/measured.rs":"C16",
 C+"parcom-core/src/never.rs":"C02 C03",
 C+"parcom-core/src/unknown.rs":"C02 C03",
 C+"parcom-util/src/either.rs":"C02 C03",
 C+"parcom-util/src/either_both.rs":"C02 C03",
 C+"parcom-util/src/error.rs":"C02 C03",
 C+"parcom-util/src/lib.rs":"C02 C03",
 C+"parcom-parsers/src/primitive/the.rs":"C01 C02 C07",
 C+"parcom-parsers/src/primitive/any.rs":"C01 C02 C07",
 C+"parcom-parsers/src/primitive/atom.rs":"C01 C02 C07",
 C+"parcom-parsers/src/combinator/join.rs":"C02 C03 C01",
 C+"parcom-parsers/src/combinator/or.rs":"C02 C03 C01",
 C+"parcom-parsers/src/combinator/unify.rs":"C02 C03 C01",
 C+"parcom-parsers/src/combinator/map.rs":"C02 C03 C01",
 C+"parcom-parsers/src/combinator/and_then.rs":"C02 C03 C01",
 C+"parcom-parsers/src/combinator/optional.rs":"C02 C03 C04",
 C+"parcom-parsers/src/combinator/repeat.rs":"C02 C03 C04",
 C+"parcom-parsers/src/combinator/bin_expr.rs":"C05 C03 C06 C02",
 C+"parcom-parsers/src/iterative/fold.rs":"C04 C03",
 C+"parcom-parsers/src/iterative/map_while.rs":"C04 C03",
 C+"parcom-parsers/src/iterative/try_map_each.rs":"C04 C03",
 C+"parcom-parsers/src/iterative/scan.rs":"C04 C03",
 C+"parcom-parsers/src/iterative/map_each.rs":"C04 C03",
 C+"parcom-parsers/src/iterative/take.rs":"C04 C03",
 C+"parcom-parsers/src/iterative/collect.rs":"C04 C03",
 C+"parcom-parsers/src/extension/parser.rs":"C02 C03 C04",
 C+"parcom-parsers/src/extension/iterative.rs":"C04",
 C+"parcom-internals/src/shortvec.rs":"C06 C05",
 C+"parcom-internals/src/future/notify.rs":"C14 C15 C12",
 C+"parcom-internals/src/future/option_future.rs":"C12 C13 C17",
 C+"parcom-internals/src/reactive/extension/filter.rs":"C18",
 C+"parcom-internals/src/reactive/predicate.rs":"C18",
 C+"parcom-metrics/src/end_of_line.rs":"C16",
 C+"parcom-metrics/src/line_colmn.rs":"C16",
 C+"parcom-sequence-core/src/load_info.rs":"C11 C08",
 C+"parcom-sequence-core/src/buffer_writer.rs":"C08 C10 C09",
 C+"parcom-sequence-core/src/lib.rs":"C08 C10",
 C+"parcom-sequences/src/buffer_strategy.rs":"C08",
 C+"parcom-sequences/src/generic.rs":"C08",
 C+"parcom-sequences/src/generic/loader.rs":"C08 C09 C11",
 C+"parcom-sequences/src/generic/control.rs":"C08 C09 C11",
 C+"parcom-sequences/src/generic/buffer.rs":"C08 C12 C13",
 C+"parcom-sequence-sources/src/utf8_validator.rs":"C10 C09 C08 C17",
 C+"parcom-sequence-sources/src/iterator_source.rs":"C08 C11",
 C+"parcom-runners/src/default_runner/sequence.rs":"C12 C13 C17",
 C+"parcom-runners/src/default_runner/sequence/advance.rs":"C13 C17 C12",
 C+"parcom-runners/src/default_runner/sequence/segments.rs":"C12 C17 C13",
}
REPL=[
 (r"==", ["!="]), (r"!=", ["=="]), (r"(?<![-=<>])>=(?!=)", [">","<"]), (r"<=(?!=)", ["<"]),
 (r"(?<=\s)<(?=\s)", ["<=",">"]), (r"(?<=\s)>(?=\s)", [">=","<"]),
 (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"\+=", ["-=","="]), (r"-=", ["+=","="]),
 (r"(?<=\s)\*(?=\s)", ["+"]), (r"&&", ["||"]), (r"\|\|(?=\s\S)", ["&&"]),
 (r"(?<=[\s(])!(?=[a-z(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\b0\b(?!\.)", ["1"]), (r"(?<!\.)\b1\b", ["0","2"]), (r"(?<!\.)\b([2-9])\b", ["1"]),
 (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]),
 (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
 (r"\bFirst\(", ["Last("]), (r"\bLast\(", ["First("]),
 (r"\.take\(\)", [".as_ref()",".clone()"]), (r"\bis_some\(", ["is_none("]), (r"\bis_none\(", ["is_some("]),
 (r"\bis_empty\(\)", ["is_empty() == false"]), (r"\bsaturating_sub\b", ["wrapping_sub"]),
 (r"\.pop\(\)", [".last().cloned()"]), (r"\bLeft\b", ["Right"]), (r"\bRight\b", ["Left"]),
 (r"\bis_some_and\b", ["is_none_or"]), (r"\bis_none_or\b", ["is_some_and"]),
 (r"\bswap\(([^;]*)\)", [r"load(\1)"]),
 (r"\.rewind\(anchor\)\.await", [""]), (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]), (r"\bEqual\b", ["Less"]),
 (r"\.advance\(([^;]*)\)\.await\)", [")"]),
 (r"\bunwrap_or\(([^()]*)\)", ["unwrap()"]), (r"\.\.=", [".."]),
 (r"Poll::Pending", ["Poll::Ready(Default::default())"]),
]
def mutants():
    out=[]
    for f,props in FILES.items():
        src=open("/repo/"+f).read().split("\n")
        intest=False; multi=0
        for i,l in enumerate(src):
            s=l.strip()
            if s.startswith("#[cfg(test)]"): break
            if "parcom_sim" in l: continue
            if s.startswith(("//","use ","pub use","mod ","pub mod","#[","impl","where","type ","pub type","extern")): continue
            if re.match(r"^(pub )?(struct|enum|trait)\b",s): continue
            if re.match(r"^[A-Z][\w<>, ':]*: .*,$",s): continue
            for pat,reps in REPL:
                for m in re.finditer(pat,l):
                    # not in generics / attributes
                    for r in reps:
                        new=l[:m.start()]+m.expand(r)+l[m.end():]
                        if new!=l: out.append((f,i,l,new,"replace"))
            # delete a statement
            if s.endswith(";") and not s.startswith(("let ","return","type","use","pub ","const ","static ","}")) and s.count("(")==s.count(")"):
                out.append((f,i,l,re.match(r"\s*",l)[0]+";","delete"))
            if re.match(r"^(else )?if (?!let)",s) and s.endswith("{"):
                c=re.match(r"^(\s*(?:\} )?(?:else )?if )(.*)( \{)$",l)
                if c:
                    out.append((f,i,l,c[1]+"true || ("+c[2]+")"+c[3],"iftrue"))
                    out.append((f,i,l,c[1]+"false && ("+c[2]+")"+c[3],"iffalse"))
            c=re.match(r"^(\s*while )(?!let)(.*)( \{)$",l)
            if c: out.append((f,i,l,c[1]+"false && ("+c[2]+")"+c[3],"whilefalse"))
            # drop a match guard
            c=re.search(r" if [^=]*(?= =>)",l)
            if c: out.append((f,i,l,l[:c.start()]+l[c.end():],"noguard"))
    seen=set(); r=[]
    for m in out:
        k=(m[0],m[1],m[3])
        if k in seen: continue
        seen.add(k); r.append(m)
    return r
def sh(c,env=None,timeout=None,cwd=None):
    try:
        p=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,timeout=timeout,cwd=cwd)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e: return 124,""
def main():
    ms=mutants()
    pick=sys.argv[3:] if len(sys.argv)>3 else []
    if pick: ms=[m for m in ms if any(p in m[0] for p in pick)]
    if sys.argv[1]=="list":
        from collections import Counter
        for f,n in Counter(m[0] for m in ms).items(): print(n,f)
        print(len(ms)); return
    W=int(sys.argv[2])
    os.makedirs("/tmp/mut",exist_ok=True)
    resf="/tmp/mut/results.jsonl"
    done=set()
    if os.path.exists(resf):
        for l in open(resf):
            d=json.loads(l); done.add((d["file"],d["line"],d["new"]))
    q=queue.Queue()
    # round robin over the files, so that a partial run covers them all
    by={}
    for m in ms:
        if (m[0],m[1]+1,m[3].strip()) not in done: by.setdefault(m[0],[]).append(m)
    while any(by.values()):
        for f in list(by):
            if by[f]: q.put(by[f].pop(0))
    lock=threading.Lock()
    def work(k):
        d=f"/tmp/mut/w{k}"
        sh(f"rm -rf {d}/repo {d}/verif; mkdir -p {d}/out {d}/verif; cp -a /repo {d}/repo; cp -a {ROOT}/sim {ROOT}/tools {d}/verif/; rm -rf {d}/repo/target")
        e=dict(os.environ,PSIM_REPO=f"{d}/repo",PSIM_BUILD=f"{d}/build",PSIM_ROOT=f"{d}/out")
        while True:
            try: f,i,old,new,kind=q.get_nowait()
            except queue.Empty: return
            sh(f"git -C {d}/repo checkout -q -- .")
            p=f"{d}/repo/{f}"; s=open(p).read().split("\n")
            assert s[i]==old
            s[i]=new; open(p,"w").write("\n".join(s))
            rec=dict(file=f,line=i+1,old=old.strip(),new=new.strip(),kind=kind)
            # fast: does the crate itself compile
            crate=f.split("/")[1]
            rc,o=sh(f". /opt/vp/env.sh; cd {d}/repo && CARGO_TARGET_DIR={d}/chk RUSTFLAGS='-A warnings' cargo check --offline -q -p {crate}",env=dict(os.environ))
            if rc: rec["status"]="nobuild"
            else:
                rc,o=sh(f"bash {d}/verif/tools/build.sh",env=e)
                if rc: rec["status"]="nobuild2"; rec["out"]=o[-400:]
                else:
                    rec["status"]="SURVIVED"
                    for pr in FILES[f].split():
                        rc,o=sh(f"{d}/build/target/x86_64-unknown-linux-gnu/debug/psim check {pr} quick",env=e,timeout=600)
                        if rc==1: rec["status"]="caught"; rec["by"]=pr; rec["out"]=[x for x in o.split("\n") if "first seen" in x][:1]; break
                        if rc!=0: rec["status"]="caught"; rec["by"]=f"{pr} rc {rc}"; break
                    if rec["status"]=="SURVIVED":
                        rc,o=sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={d}/test; cd {d}/repo && cargo nextest run --workspace --offline --no-fail-fast --test-threads 4",timeout=300)
                        if rc or "17 passed" not in o: rec["status"]="tests-fail"
            with lock:
                open(resf,"a").write(json.dumps(rec)+"\n")
    ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
