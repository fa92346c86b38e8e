//! Deterministic simulation of parcom: `psim check <property> <quick|thorough>` explores seeded runs,
//! `psim replay <file>` re-executes a recorded one.

#[macro_use]
mod ctl;
mod alloc;
mod filter;
mod gram;
mod json;
mod k1;
mod k2;
mod load;
mod notify;
mod shortvec;
mod tok;
mod utf8;
mod defseq;
mod pipeline;
mod weak;

use ctl::NSTREAM;
use json::{n, obj, s, J};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Checking = alloc::Checking;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub threads: bool,
    pub real: &'static str,
    pub stub: &'static str,
    pub oracle: &'static str,
}

mod props;
use props::PROPS;

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

// ------------------------------------------------------------------------------------ one execution

fn execute(p: &Prop) {
    ctl::take_skipped();
    gram::env::reset();
    tok::reset();
    ctl::clear_context();
    ctl::set_in_run(true);
    alloc::on();
    (p.run)();
    tok::check_none("at the end of the run");
    alloc::off();
    ctl::set_in_run(false);
}

static mut LAST: (u64, u32) = (u64::MAX, 0);
static mut LIMIT_S: u32 = 20;
extern "C" fn on_tick(_: i32) {
    // once a second of CPU time; the same run must not take too many of them
    unsafe {
        let run = ctl::hdr(1);
        if LAST.0 == run {
            LAST.1 += 1;
            if LAST.1 > LIMIT_S {
                ctl::set_hdr(2, 1);
                libc::_exit(ctl::EXIT_HANG);
            }
        } else {
            LAST = (run, 0);
        }
    }
}

fn guard(limit: u32) {
    unsafe {
        LIMIT_S = limit;
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_tick as *const () as usize;
        sa.sa_flags = libc::SA_RESTART | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGPROF, &sa, std::ptr::null_mut());
        let t = libc::timeval { tv_sec: 1, tv_usec: 0 };
        let it = libc::itimerval {
            it_interval: t,
            it_value: t,
        };
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
}

fn on_big_stack(f: impl FnOnce() + Send + 'static) {
    let r = std::thread::Builder::new().stack_size(1 << 30).spawn(f).expect("thread").join();
    if r.is_err() {
        std::process::exit(2);
    }
}

fn setup(dir: &Path, tag: &str) {
    ctl::init(ctl::map_region(&dir.join(format!("{tag}.region")), true));
    ctl::set_report_path(&dir.join(format!("{tag}.report")));
    ctl::install_panic_hook();
    k2::install();
}

/// worker <prop> <seed> <w> <nw> <runs> <cap_s> <dir>
fn worker(a: &[String]) {
    let p = prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let (w, nw, runs, cap): (u64, u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let dir = PathBuf::from(&a[6]);
    on_big_stack(move || {
        setup(&dir, &format!("w{w}"));
        guard(20);
        let t0 = Instant::now();
        let mut hashes: Vec<u64> = Vec::new();
        let mut events = 0u64;
        let mut done = 0u64;
        let mut all = 0u64;
        let mut i = w;
        while i < runs {
            if done % 16 == 0 && t0.elapsed() > Duration::from_secs(cap) {
                break;
            }
            ctl::begin_run(seed, p.id, i, None, false);
            execute(p);
            done += 1;
            ctl::set_hdr(1, done);
            let (h, e) = ctl::run_hash();
            all = ctl::mix(all ^ h);
            events += e;
            if !ctl::take_skipped() && e >= 4 {
                hashes.push(h);
            }
            i += nw;
        }
        let mut out = format!("runs {done}\nevents {events}\nhash {all:x}\n");
        for (k, v) in ctl::counters() {
            out.push_str(&format!("c {k} {v}\n"));
        }
        std::fs::write(dir.join(format!("w{w}.stats")), out).unwrap();
        let b: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(dir.join(format!("w{w}.hashes")), b).unwrap();
        ctl::set_hdr(2, 2);
        unsafe { libc::_exit(0) }
    });
}

fn read_decisions(p: &Path) -> [Vec<u32>; NSTREAM] {
    let b = std::fs::read(p).expect("decisions");
    let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let mut r: [Vec<u32>; NSTREAM] = Default::default();
    let mut at = NSTREAM;
    for i in 0..NSTREAM {
        r[i] = w[at..at + w[i] as usize].to_vec();
        at += w[i] as usize;
    }
    r
}
fn write_decisions(p: &Path, d: &[Vec<u32>; NSTREAM]) {
    let mut w: Vec<u32> = d.iter().map(|v| v.len() as u32).collect();
    for v in d {
        w.extend(v);
    }
    let b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(p, b).unwrap();
}

/// one <prop> <seed> <idx> <dir> <tag> <decisions|-> <trace 0|1> <limit_s>
fn one(a: &[String]) {
    let p = prop(&a[0]);
    let (seed, idx): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let dir = PathBuf::from(&a[3]);
    let tag = a[4].clone();
    let dec = a[5].clone();
    let trace = a[6] == "1";
    let limit: u32 = a[7].parse().unwrap();
    on_big_stack(move || {
        setup(&dir, &tag);
        guard(limit);
        let replay = (dec != "-").then(|| read_decisions(Path::new(&dec)));
        ctl::set_hdr(2, 0);
        ctl::begin_run(seed, p.id, idx, replay, trace);
        execute(p);
        ctl::set_hdr(2, 2);
        let (h, e) = ctl::run_hash();
        let mut out = format!("ok\nhash {h:x} events {e}\n");
        for t in ctl::take_trace() {
            out.push_str(&t.replace('\n', "\\n"));
            out.push('\n');
        }
        std::fs::write(dir.join(format!("{tag}.report")), out).unwrap();
        unsafe { libc::_exit(0) }
    });
}

// ------------------------------------------------------------------------------------------- parent

struct Fail {
    class: String,
    msg: String,
    trace: Vec<String>,
    idx: u64,
    dec: [Vec<u32>; NSTREAM],
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn region_of(dir: &Path, tag: &str) -> (u64, [Vec<u32>; NSTREAM]) {
    let b = std::fs::read(dir.join(format!("{tag}.region"))).unwrap_or_default();
    let word = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    let mut d: [Vec<u32>; NSTREAM] = Default::default();
    if b.len() < ctl::REGION {
        return (0, d);
    }
    for (k, v) in d.iter_mut().enumerate() {
        let len = word(3 + k) as usize;
        let base = ctl::HDR * 8 + k * ctl::CAP * 4;
        *v = (0..len)
            .map(|i| u32::from_le_bytes(b[base + i * 4..base + i * 4 + 4].try_into().unwrap()))
            .collect();
    }
    (word(0), d)
}

fn outcome_of(dir: &Path, tag: &str, st: std::process::ExitStatus) -> Result<Vec<String>, Fail> {
    use std::os::unix::process::ExitStatusExt;
    let report = std::fs::read_to_string(dir.join(format!("{tag}.report"))).unwrap_or_default();
    let mut lines = report.lines();
    match st.code() {
        Some(0) => return Ok(lines.map(String::from).collect()),
        Some(ctl::EXIT_VIOLATION) | Some(ctl::EXIT_HANG) | None => {}
        Some(c) => {
            eprintln!("harness error: a worker ended with code {c}");
            std::process::exit(2);
        }
    }
    let (idx, dec) = region_of(dir, tag);
    let (class, msg, trace) = match st.code() {
        Some(ctl::EXIT_VIOLATION) => (
            lines.next().unwrap_or("?").to_string(),
            lines.next().unwrap_or("").to_string(),
            lines.map(String::from).collect(),
        ),
        Some(_) => ("hang".into(), "the code under test does not return".into(), vec![]),
        None => {
            let sig = st.signal().unwrap_or(0);
            (
                format!("crash:{sig}"),
                format!("the process was ended by signal {sig} (6: abort or stack overflow, 11: invalid memory access)"),
                vec![],
            )
        }
    };
    Err(Fail {
        class,
        msg,
        trace,
        idx,
        dec,
    })
}

fn spawn_one(p: &str, seed: u64, idx: u64, dir: &Path, tag: &str, dec: Option<&[Vec<u32>; NSTREAM]>, trace: bool, limit: u32) -> Child {
    let df = dir.join(format!("{tag}.dec"));
    if let Some(d) = dec {
        write_decisions(&df, d);
    }
    let _ = std::fs::remove_file(dir.join(format!("{tag}.report")));
    Command::new(me())
        .args(["one", p, &seed.to_string(), &idx.to_string()])
        .arg(dir)
        .arg(tag)
        .arg(if dec.is_some() { df.as_os_str().to_owned() } else { "-".into() })
        .arg(if trace { "1" } else { "0" })
        .arg(limit.to_string())
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn")
}

fn run_one(p: &str, seed: u64, idx: u64, dir: &Path, tag: &str, dec: Option<&[Vec<u32>; NSTREAM]>, trace: bool, limit: u32) -> Result<Vec<String>, Fail> {
    let st = spawn_one(p, seed, idx, dir, tag, dec, trace, limit).wait().unwrap();
    outcome_of(dir, tag, st)
}

fn minimise(p: &str, seed: u64, mut f: Fail, dir: &Path, budget: Duration) -> Fail {
    let t0 = Instant::now();
    let limit = if f.class == "hang" { 3 } else { 10 };
    let size = |d: &[Vec<u32>; NSTREAM]| -> (usize, u64) {
        (
            d.iter().map(|v| v.len()).sum(),
            d.iter().flatten().map(|x| *x as u64).sum(),
        )
    };
    // tries candidates in parallel, in order; returns the first that still fails the same way
    let attempt = |f: &Fail, cands: Vec<[Vec<u32>; NSTREAM]>| -> Option<Fail> {
        for chunk in cands.chunks(8) {
            if t0.elapsed() > budget {
                return None;
            }
            let kids: Vec<Child> = chunk
                .iter()
                .enumerate()
                .map(|(i, c)| spawn_one(p, seed, f.idx, dir, &format!("m{i}"), Some(c), false, limit))
                .collect();
            let mut best = None;
            for (i, mut k) in kids.into_iter().enumerate() {
                let st = k.wait().unwrap();
                if let Err(g) = outcome_of(dir, &format!("m{i}"), st) {
                    if g.class == f.class && size(&g.dec) < size(&f.dec) && best.is_none() {
                        best = Some(g);
                    }
                }
            }
            if best.is_some() {
                return best;
            }
        }
        None
    };
    loop {
        if t0.elapsed() > budget {
            break;
        }
        let before = size(&f.dec);
        for st in 0..NSTREAM {
            // cut off the tail (decisions past the end read as 0)
            loop {
                let l = f.dec[st].len();
                let mut c = Vec::new();
                for k in [0, l / 8, l / 4, l / 2, l * 3 / 4, l.saturating_sub(1)] {
                    if k < l {
                        let mut d = f.dec.clone();
                        d[st].truncate(k);
                        c.push(d);
                    }
                }
                match attempt(&f, c) {
                    Some(g) => f = g,
                    None => break,
                }
            }
            // delete or zero chunks
            let mut w = f.dec[st].len() / 2;
            while w >= 1 {
                let mut at = 0;
                while at < f.dec[st].len() {
                    let mut c = Vec::new();
                    let mut k = at;
                    while k < f.dec[st].len() && c.len() < 8 {
                        let e = (k + w).min(f.dec[st].len());
                        let mut d = f.dec.clone();
                        d[st].drain(k..e);
                        c.push(d);
                        if f.dec[st][k..e].iter().any(|x| *x != 0) {
                            let mut d = f.dec.clone();
                            d[st][k..e].fill(0);
                            c.push(d);
                        }
                        k += w;
                    }
                    match attempt(&f, c) {
                        Some(g) => f = g,
                        None => at = k,
                    }
                    if t0.elapsed() > budget {
                        break;
                    }
                }
                w /= 2;
            }
            // smaller values
            let mut at = 0;
            while at < f.dec[st].len() && t0.elapsed() <= budget {
                let x = f.dec[st][at];
                let mut c = Vec::new();
                for y in [x / 2, x.saturating_sub(1)] {
                    if y < x {
                        let mut d = f.dec.clone();
                        d[st][at] = y;
                        c.push(d);
                    }
                }
                match attempt(&f, c) {
                    Some(g) if !g.dec[st].is_empty() => f = g,
                    _ => at += 1,
                }
            }
        }
        if size(&f.dec) >= before {
            break;
        }
    }
    f
}

fn check(id: &str, tier: &str) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = PathBuf::from(std::env::var("PSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let dir = root.join(format!("build/tmp/{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let nw: u64 = std::env::var("PSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut runs = if tier == "thorough" { p.thorough } else { p.quick };
    if let Some(r) = std::env::var("PSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = r;
    }
    let cap: u64 = if tier == "thorough" { 7200 } else { 200 };
    let mut kids: Vec<Option<Child>> = (0..nw)
        .map(|w| {
            Some(
                Command::new(me())
                    .args(["worker", id, &seed.to_string(), &w.to_string(), &nw.to_string(), &runs.to_string(), &cap.to_string()])
                    .arg(&dir)
                    .stdin(Stdio::null())
                    .spawn()
                    .expect("spawn worker"),
            )
        })
        .collect();
    let mut fail: Option<Fail> = None;
    let mut failed_worker = 0;
    while fail.is_none() && kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(10));
        for w in 0..nw as usize {
            let Some(k) = kids[w].as_mut() else { continue };
            if let Some(st) = k.try_wait().unwrap() {
                kids[w] = None;
                if let Err(f) = outcome_of(&dir, &format!("w{w}"), st) {
                    fail = Some(f);
                    failed_worker = w as u64;
                    break;
                }
            }
        }
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let explore = t0.elapsed();
    let mut code = 0;
    let mut violation = J::Null;
    if let Some(f) = fail {
        code = 1;
        let first = (f.class.clone(), f.msg.clone());
        let idx = f.idx;
        // reproduce in a fresh process, minimise, and reproduce the minimised run twice
        let (path, text) = match run_one(id, seed, idx, &dir, "r", Some(&f.dec), false, 25) {
            Err(g) if g.class == f.class => {
                let m = minimise(id, seed, g, &dir, Duration::from_secs(if tier == "thorough" { 240 } else { 60 }));
                let a = run_one(id, seed, idx, &dir, "r", Some(&m.dec), true, 25);
                let b = run_one(id, seed, idx, &dir, "r", Some(&m.dec), true, 25);
                let exact = match (&a, &b) {
                    (Err(a), Err(b)) => a.class == b.class && a.msg == b.msg && a.trace == b.trace,
                    _ => false,
                };
                let last = a.err().unwrap_or(m);
                let j = replay_json(id, seed, idx, "decisions", &last, exact);
                (write_replay(&root, id, seed, idx, &j), format!("{}: {}", last.class, last.msg))
            }
            _ => {
                let mut j = replay_json(id, seed, idx, "range", &f, false);
                if let J::Obj(v) = &mut j {
                    v.push(("worker".into(), n(failed_worker as i64)));
                    v.push(("workers".into(), n(nw as i64)));
                }
                (write_replay(&root, id, seed, idx, &j), format!("{}: {}", f.class, f.msg))
            }
        };
        println!("{id}: {text}");
        println!("{id}: seed {seed}, run {idx}; first seen as {}: {}", first.0, first.1);
        println!("VIOLATION property={id} replay={}", path.display());
        violation = obj(vec![("class", s(first.0)), ("message", s(text)), ("replay", s(path.display().to_string()))]);
    }
    let ev = evidence(p, tier, seed, runs, nw, &dir, t0, explore, code, violation);
    let edir = root.join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{id}.json")), ev.render()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        println!(
            "{id}: held on {} runs in {:.1} s",
            ev.get("coverage").and_then(|c| c.get("evaluations")).map_or(0.0, |x| x.num()),
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn replay_json(id: &str, seed: u64, idx: u64, mode: &str, f: &Fail, exact: bool) -> J {
    let arr = |v: &Vec<u32>| J::Arr(v.iter().map(|x| n(*x)).collect());
    obj(vec![
        ("property", s(id)),
        ("class", s(&f.class)),
        ("message", s(&f.msg)),
        ("seed", n(seed as i64)),
        ("run", n(idx as i64)),
        ("mode", s(mode)),
        ("reproduced_exactly_twice", J::Bool(exact)),
        ("work", arr(&f.dec[0])),
        ("schedule", arr(&f.dec[1])),
        ("faults", arr(&f.dec[2])),
        ("trace", J::Arr(f.trace.iter().map(s).collect())),
    ])
}

fn write_replay(root: &Path, id: &str, seed: u64, idx: u64, j: &J) -> PathBuf {
    let d = root.join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join(format!("{id}-{seed}-{idx}.json"));
    std::fs::write(&p, j.render()).unwrap();
    p
}

fn evidence(p: &Prop, tier: &str, seed: u64, runs: u64, nw: u64, dir: &Path, t0: Instant, explore: Duration, code: i32, violation: J) -> J {
    let mut done = 0u64;
    let mut events = 0u64;
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u64> = Vec::new();
    for w in 0..nw {
        let st = std::fs::read_to_string(dir.join(format!("w{w}.stats"))).unwrap_or_default();
        if st.is_empty() {
            // ended early: its region still knows how many runs it finished
            if let Ok(b) = std::fs::read(dir.join(format!("w{w}.region"))) {
                if b.len() >= 16 {
                    done += u64::from_le_bytes(b[8..16].try_into().unwrap());
                }
            }
        }
        for l in st.lines() {
            let v: Vec<&str> = l.split(' ').collect();
            match v[0] {
                "runs" => done += v[1].parse::<u64>().unwrap(),
                "events" => events += v[1].parse::<u64>().unwrap(),
                "c" => *cnt.entry(v[1].to_string()).or_default() += v[2].parse::<u64>().unwrap(),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("w{w}.hashes"))) {
            hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    let group = |pre: &str| -> J {
        J::Obj(
            cnt.iter()
                .filter(|(k, _)| k.starts_with(pre))
                .map(|(k, v)| (k[pre.len()..].to_string(), n(*v as i64)))
                .collect(),
        )
    };
    let other: Vec<(String, J)> = cnt
        .iter()
        .filter(|(k, _)| !k.starts_with("fault.") && !k.starts_with("probe.") && !k.starts_with("sim."))
        .map(|(k, v)| (k.clone(), n(*v as i64)))
        .collect();
    let mut samples = Vec::new();
    if code == 0 {
        for i in [0, 1, 7] {
            if let Ok(lines) = run_one(p.id, seed, i, dir, "s", None, true, 25) {
                let keep: Vec<J> = lines.iter().skip(1).take(40).map(s).collect();
                samples.push(obj(vec![("run", n(i)), ("log", J::Arr(keep))]));
            }
        }
    } else {
        samples.push(violation.clone());
    }
    let hours = explore.as_secs_f64().max(1e-3) / 3600.0;
    obj(vec![
        ("property", s(p.id)),
        ("tier", s(tier)),
        ("seed", n(seed as i64)),
        ("level", s("exploration")),
        (
            "coverage",
            obj(vec![
                ("evaluations", n(done as i64)),
                ("planned_runs", n(runs as i64)),
                ("distinct_nontrivial", n(hashes.len() as i64)),
                (
                    "rule",
                    s("One evaluation is one simulated run and one seed: workload, schedule and faults are drawn from three streams of one generator seeded by (seed, property, run). A run is distinct by the hash of its event log (every segment delivered, wait, wake-up, switch, operation, callback, fault and result), and non-trivial if its workload was executed (not skipped as too big for the reference) and logged at least 4 events."),
                ),
                ("samples", J::Arr(samples)),
                ("runs_per_hour", n((done as f64 / hours) as i64)),
                ("events_logged", n(events as i64)),
                ("simulated_time_units", n(cnt.get("sim.time_units").copied().unwrap_or(0) as i64)),
                ("simulation", group("sim.")),
                ("faults_injected", group("fault.")),
                ("probes_reached", group("probe.")),
                ("counts", J::Obj(other)),
                ("components_real", s(p.real)),
                ("components_stubbed", s(p.stub)),
                ("oracle", s(p.oracle)),
                ("violation", violation),
            ]),
        ),
        (
            "assumptions",
            J::Arr(vec![
                s("simulated threads interleave at synchronisation operations; in half of those runs atomic loads may return older values where the orderings allow it (src/weak.rs); stores are not delayed"),
                s("std::sync::Arc and the compiler are trusted"),
            ]),
        ),
        ("wall_s", J::Num(t0.elapsed().as_secs_f64())),
        ("violations", n(code as i64)),
    ])
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let j = J::parse(&t).unwrap_or_else(|| {
        eprintln!("{path}: not a replay file");
        std::process::exit(2)
    });
    let get = |k: &str| j.get(k).cloned().unwrap_or(J::Null);
    let id = get("property").str().to_string();
    let (seed, idx) = (get("seed").num() as u64, get("run").num() as u64);
    let root = PathBuf::from(std::env::var("PSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let dir = root.join(format!("build/tmp/replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = if get("mode").str() == "range" {
        let (w, nw) = (get("worker").num() as u64, get("workers").num() as u64);
        let st = Command::new(me())
            .args(["worker", &id, &seed.to_string(), &w.to_string(), &nw.to_string(), &(idx + 1).to_string(), "3600"])
            .arg(&dir)
            .status()
            .unwrap();
        outcome_of(&dir, &format!("w{w}"), st)
    } else {
        let v = |k: &str| -> Vec<u32> { get(k).arr().iter().map(|x| x.num() as u32).collect() };
        let d = [v("work"), v("schedule"), v("faults")];
        run_one(&id, seed, idx, &dir, "r", Some(&d), true, 25)
    };
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Err(f) => {
            for t in &f.trace {
                println!("{t}");
            }
            println!("{id}: {}: {}", f.class, f.msg);
            let want = (get("class").str().to_string(), get("message").str().to_string());
            println!(
                "{}",
                if want == (f.class.clone(), f.msg.clone()) {
                    "reproduced exactly"
                } else {
                    "reproduced a different violation"
                }
            );
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Ok(_) => {
            println!("{id}: the recorded run does not fail on this tree");
            0
        }
    }
}

/// Every run is a function of its seed: executes the same runs in two processes and compares.
fn selftest(runs: &str) -> i32 {
    let root = PathBuf::from(std::env::var("PSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let dir = root.join(format!("build/tmp/self-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut bad = 0;
    for p in PROPS {
        let mut h = Vec::new();
        for _ in 0..2 {
            let st = Command::new(me())
                .args(["worker", p.id, "5", "0", "1", runs, "3600"])
                .arg(&dir)
                .status()
                .unwrap();
            let ok = st.success();
            let t = std::fs::read_to_string(dir.join("w0.stats")).unwrap_or_default();
            h.push((ok, t));
        }
        let same = h[0] == h[1];
        println!("{}: {}", p.id, if same { "deterministic" } else { "DIFFERS" });
        bad += !same as i32;
    }
    let _ = std::fs::remove_dir_all(&dir);
    bad
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => {
            worker(&a[1..]);
            0
        }
        Some("one") => {
            one(&a[1..]);
            0
        }
        Some("check") => check(&a[1], a.get(2).map_or("quick", |s| s.as_str())),
        Some("replay") => replay(&a[1]),
        Some("selftest") => selftest(a.get(1).map_or("200", |s| s.as_str())),
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("psim check <property> <quick|thorough> | replay <file> | selftest [runs] | list");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}
