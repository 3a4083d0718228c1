//! Batches of runs over worker processes, verdict, replay file, evidence.
use crate::child::Buf;
use crate::hooks::{self, SHARED, STAT_NAMES};
use crate::minimise::minimise;
use crate::plan::Plan;
use crate::props::{self, run_plan, Prop, Run};
use crate::rng::{hash_bytes, Rng};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Args {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub workers: u64,
    pub runs: u64,
    pub wall: u64,
    pub out: String,
    pub replays: String,
    pub known: String,
    pub scratch: String,
    pub first: u64,
    pub verbose: bool,
    pub min_secs: u64,
    pub setup_s: f64,
    pub all: bool,
}
impl Args {
    pub fn parse(a: &[String]) -> Args {
        let mut r = Args {
            prop: String::new(),
            tier: "quick".into(),
            seed: 1,
            workers: std::thread::available_parallelism().map_or(4, |n| n.get() as u64),
            runs: 0,
            wall: 300,
            out: String::new(),
            replays: "/verif/replays".into(),
            known: "/verif/known-findings.txt".into(),
            scratch: std::env::temp_dir().to_string_lossy().into_owned(),
            first: 0,
            verbose: false,
            min_secs: 60,
            setup_s: 0.0,
            all: false,
        };
        let mut i = 0;
        while i < a.len() {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            match a[i].as_str() {
                "--prop" => r.prop = v,
                "--tier" => r.tier = v,
                "--seed" => r.seed = v.parse().unwrap_or_else(|_| hash_bytes(0, v.as_bytes()) >> 1),
                "--workers" => r.workers = v.parse().unwrap(),
                "--runs" => r.runs = v.parse().unwrap(),
                "--first" => r.first = v.parse().unwrap(),
                "--wall" => r.wall = v.parse().unwrap(),
                "--min-secs" => r.min_secs = v.parse().unwrap(),
                "--setup-s" => r.setup_s = v.parse().unwrap_or(0.0),
                "--out" => r.out = v,
                "--replays" => r.replays = v,
                "--known" => r.known = v,
                "--scratch" => r.scratch = v,
                "--all" => {
                    r.all = true;
                    i -= 1;
                }
                "-v" => {
                    r.verbose = true;
                    i -= 1;
                }
                x => panic!("unknown option {x}"),
            }
            i += 2;
        }
        r
    }
}
pub fn gen_plan(p: &Prop, seed: u64, run: u64) -> Plan {
    let mut r = Rng::new(&[seed, hash_bytes(7, p.id.as_bytes()), run]);
    let mut plan = Plan::new(p.id, seed, run);
    plan.put("build", p.build);
    (p.gen)(&mut r, &mut plan);
    plan
}
/// keys of accepted findings of a property
fn known(a: &Args) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(&a.known).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let (p, rest) = l.split_once(' ')?;
            if p != format!("property={}", a.prop) {
                return None;
            }
            let (k, d) = rest.strip_prefix("key=\"")?.split_once("\" ")?;
            Some((k.to_string(), d.to_string()))
        })
        .collect()
}
struct WorkerOut {
    done: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    scheds: HashSet<u64>,
    viol: Vec<u64>,
    audits: u64,
    audit_bad: u64,
    timeout: bool,
}
fn pin(w: u64) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.len() < 2 {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w as usize % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
fn worker(p: &Prop, a: &Args, w: u64, t0: Instant, kn: &[(String, String)], min: &std::sync::atomic::AtomicU64) -> WorkerOut {
    let buf = Buf::new(64 << 20);
    let mut o = WorkerOut { done: 0, nontrivial: 0, hashes: HashSet::new(), scheds: HashSet::new(), viol: vec![], audits: 0, audit_bad: 0, timeout: false };
    if p.build != "rel" {
        pin(w);
    }
    let mut i = a.first + w;
    while i < a.first + a.runs {
        if min.load(Relaxed) < i && !a.all {
            break;
        }
        if t0.elapsed() > Duration::from_secs(a.wall) {
            o.timeout = true;
            break;
        }
        let plan = gen_plan(p, a.seed, i);
        let t1 = Instant::now();
        let r = run_plan(&buf, p, &plan);
        if t1.elapsed() > Duration::from_secs(5) {
            eprintln!("note: run {i} took {:.1} s", t1.elapsed().as_secs_f64());
        }
        crate::st!(runs);
        crate::st!(items, plan.items.len());
        o.done += 1;
        if r.nontrivial {
            o.nontrivial += 1;
            o.hashes.insert(r.hash);
        }
        if !r.sched.is_empty() {
            let mut h = 3;
            for s in &r.sched {
                h = crate::rng::mix(h ^ crate::rng::mix((s.tid as u64) << 48 ^ s.step << 8 ^ s.next as u64));
            }
            o.scheds.insert(h);
        }
        if i % 97 == 13 {
            // the same plan again: must be the same history
            let r2 = run_plan(&buf, p, &plan);
            o.audits += 1;
            if r2.hash != r.hash || r2.sched != r.sched || r2.viol.is_some() != r.viol.is_some() {
                o.audit_bad += 1;
                eprintln!("note: run {i} was not reproduced exactly");
            }
        }
        if let Some(v) = &r.viol {
            if !kn.iter().any(|k| v.key.contains(&k.0)) {
                if a.all {
                    println!("run {i}: [{}] {}", v.class, v.msg);
                }
                o.viol.push(i);
                min.fetch_min(i, Relaxed);
                if !a.all {
                    break;
                }
            }
        }
        i += a.workers;
    }
    o
}
pub fn check(a: &Args) -> i32 {
    let p = props::find(&a.prop).expect("property");
    let mut a = a.clone();
    if a.runs == 0 {
        a.runs = if a.tier == "quick" { p.quick } else { p.quick * 400 };
    }
    let a = &a;
    let t0 = Instant::now();
    let kn = known(a);
    crate::focus::init();
    let min_map = Buf::new(4096);
    let min: &std::sync::atomic::AtomicU64 = unsafe { &*(min_map.raw() as *const _) };
    min.store(u64::MAX, Relaxed);
    let mut pids = vec![];
    for w in 0..a.workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let o = worker(p, a, w, t0, &kn, min);
            let mut f = vec![];
            for n in [o.done, o.nontrivial, o.audits, o.audit_bad, o.timeout as u64, o.viol.len() as u64, o.hashes.len() as u64, o.scheds.len() as u64] {
                f.extend(n.to_le_bytes());
            }
            for x in o.viol.iter().chain(o.hashes.iter()).chain(o.scheds.iter()) {
                f.extend(x.to_le_bytes());
            }
            std::fs::write(format!("{}/w{w}", a.scratch), f).unwrap();
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut bad = false;
    for &pid in &pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        bad |= !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0;
    }
    if bad {
        eprintln!("a worker failed");
        return 3;
    }
    let mut sum = [0u64; 5];
    let (mut viols, mut hashes, mut scheds) = (vec![], HashSet::new(), HashSet::new());
    for w in 0..a.workers {
        let path = format!("{}/w{w}", a.scratch);
        let b = std::fs::read(&path).unwrap();
        let _ = std::fs::remove_file(&path);
        let n: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        for i in 0..5 {
            sum[i] += n[i];
        }
        let (v, h) = (n[5] as usize, n[6] as usize);
        viols.extend_from_slice(&n[8..8 + v]);
        hashes.extend(n[8 + v..8 + v + h].iter().copied());
        scheds.extend(n[8 + v + h..].iter().copied());
    }
    viols.sort();
    let wall_runs = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut vtext = String::new();
    for k in &kn {
        println!("KNOWN-FINDING: property={} {}", a.prop, k.1);
    }
    let buf = Buf::new(64 << 20);
    if let Some(&i) = viols.first() {
        let plan = gen_plan(p, a.seed, i);
        let r = run_plan(&buf, p, &plan);
        if r.viol.is_none() {
            // cannot happen unless the simulation is not deterministic
            eprintln!("harness error: run {i} failed once and not again");
            return 3;
        }
        let (mp, mr, tried) = minimise(p, &buf, &plan, &r, a.min_secs);
        let v = mr.viol.as_ref().unwrap();
        let file = format!("{}/{}-{}-{}.plan", a.replays, a.prop, a.seed, i);
        std::fs::create_dir_all(&a.replays).unwrap();
        std::fs::write(&file, mp.text()).unwrap();
        println!("seed {} run {i} [{}] {}", a.seed, v.class, v.msg);
        println!("minimised from {} to {} items in {tried} executions", plan.items.len(), mp.items.len());
        // the replay file, read back in a fresh process
        let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &file]).output();
        match st {
            Ok(o) if o.status.code() == Some(1) => println!("replayed from the file in a fresh process: same violation"),
            Ok(o) => eprintln!("replay of {file} gave {:?} {}", o.status.code(), String::from_utf8_lossy(&o.stdout)),
            Err(e) => eprintln!("replay: {e}"),
        }
        println!("VIOLATION property={} replay={}", a.prop, file);
        vtext = format!("[{}] {}", v.class, v.msg);
        code = 1;
    }
    if !a.out.is_empty() {
        evidence(p, a, &sum, hashes.len(), scheds.len(), viols.len(), &vtext, t0.elapsed().as_secs_f64(), wall_runs, &buf);
    }
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} violating, {:.1} s{}",
        a.prop,
        a.tier,
        sum[0],
        hashes.len(),
        viols.len(),
        wall_runs,
        if sum[4] > 0 { " (stopped by the time limit)" } else { "" }
    );
    code
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, a: &Args, sum: &[u64; 5], distinct: usize, scheds: usize, viols: usize, vtext: &str, wall: f64, wall_runs: f64, buf: &Buf) {
    let stats: Vec<(String, u64)> = unsafe { STAT_NAMES.iter().enumerate().map(|(i, n)| (n.to_string(), (*SHARED).stat[i].load(Relaxed))).collect() };
    let get = |n: &str| stats.iter().find(|s| s.0 == n).map_or(0, |s| s.1);
    let cov = unsafe { (*SHARED).cov.iter().filter(|&&x| x != 0).count() };
    let mut samples = vec![];
    for i in 0..3 {
        let plan = gen_plan(p, a.seed, a.first + i * 7);
        let mut t = plan.text();
        if t.len() > 1500 {
            let mut n = 1500;
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t.truncate(n);
            t += "...";
        }
        let r = run_plan(buf, p, &plan);
        samples.push(format!("{{\"plan\": {}, \"history_hash\": \"{:016x}\", \"switches\": {}}}", js(&t), r.hash, r.sched.len()));
    }
    let nz: Vec<String> = stats.iter().filter(|s| s.1 > 0).map(|s| format!("{}: {}", js(&s.0), s.1)).collect();
    let runs_h = if wall_runs > 0.0 { sum[0] as f64 / wall_runs * 3600.0 } else { 0.0 };
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour\": {:.0},\n  \"seeds\": \"one VERIF_SEED, one derived seed per run: {} run seeds\",\n  \"simulated_time\": {{\"library_steps\": {}, \"network_ticks\": {}, \"calls\": {}}},\n  \"counters\": {{{}}},\n  \"distinct_schedules\": {},\n  \"library_basic_blocks_reached\": {},\n  \"determinism\": {{\"plans_run_twice\": {}, \"different_history\": {}}},\n  \"real_code\": {},\n  \"simulated\": {},\n  \"stopped_by_time_limit\": {}\n }},\n \"assumptions\": [\"sequentially consistent interleavings\", \"sampling: absence of a violation is evidence, not proof\", \"digit tables regenerated from their definition replace the crates missing from the checkout\"],\n \"wall_s\": {:.1},\n \"violations\": {}{}\n}}\n",
        js(p.id),
        js(&a.tier),
        a.seed,
        sum[0],
        distinct,
        js(p.rule),
        samples.join(", "),
        runs_h,
        sum[0],
        get("lib_steps"),
        get("net_ticks"),
        get("ops"),
        nz.join(", "),
        scheds,
        cov,
        sum[2],
        sum[3],
        js(p.real),
        js(p.simulated),
        sum[4] > 0,
        wall + a.setup_s,
        viols,
        if vtext.is_empty() { String::new() } else { format!(",\n \"first_violation\": {}", js(vtext)) }
    );
    if let Some(d) = std::path::Path::new(&a.out).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&a.out, text).unwrap();
}
pub fn replay(file: &str, a: &Args) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let plan = Plan::parse(&t).expect("replay file format");
    let p = props::find(&plan.prop).expect("property");
    unsafe { hooks::VERBOSE = a.verbose };
    let buf = Buf::new(64 << 20);
    let r = run_plan(&buf, p, &plan);
    for l in &r.log {
        println!("{l}");
    }
    println!("history {:016x}, {} scheduling decisions", r.hash, r.sched.len());
    match r.viol {
        Some(v) => {
            println!("[{}] {}", v.class, v.msg);
            println!("VIOLATION property={} replay={file}", plan.prop);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
pub fn show_plan(a: &Args) -> i32 {
    let p = props::find(&a.prop).expect("property");
    crate::focus::init();
    let plan = gen_plan(p, a.seed, a.first);
    print!("{}", plan.text());
    unsafe { hooks::VERBOSE = a.verbose };
    let buf = Buf::new(64 << 20);
    let t = Instant::now();
    let r: Run = run_plan(&buf, p, &plan);
    for l in &r.log {
        println!("{l}");
    }
    println!("{:?} hash {:x} sched {:?} in {:?}", r.viol, r.hash, r.sched.len(), t.elapsed());
    0
}
/// Every plan of a range, many seeds: print history hashes so that two
/// invocations (other worker counts, other processes) can be compared.
pub fn audit(a: &Args) -> i32 {
    crate::focus::init();
    let buf = Buf::new(64 << 20);
    for p in props::all() {
        if !a.prop.is_empty() && p.id != a.prop {
            continue;
        }
        for s in 0..a.runs {
            let plan = gen_plan(p, a.seed + s, a.first + s);
            let r = run_plan(&buf, p, &plan);
            let h = r.sched.iter().fold(0u64, |h, w| crate::rng::mix(h ^ w.step ^ (w.tid as u64) << 40 ^ (w.next as u64) << 50));
            println!("{} {} {:016x} {:016x} {:?}", p.id, s, r.hash, h, r.viol.map(|v| v.class));
        }
    }
    0
}
/// A node running in this build on behalf of another build's simulation.
pub fn peer(what: &str) -> i32 {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    props::enter_sim(0);
    let out = match what {
        "ops" => props::c11::peer(&t),
        "stack" => props::c14::peer(&t),
        "segment" => props::c13::peer(&t),
        _ => return 2,
    };
    std::io::stdout().write_all(out.as_bytes()).unwrap();
    0
}
