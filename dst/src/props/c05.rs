//! Concurrent callers always get the results they would get alone.
use super::*;
use crate::{focus, gen, nodes};
use crate::sched::{Setup, Strat};
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C05",
    gen: plan,
    exec,
    quick: 40_000,
    build: "inst",
    rule: "a run is 2-4 (one in 40: 5-40) threads with 1-6 calls each over a small set of related operations, started on a pristine library and interleaved by one seeded strategy (random gaps, PCT change points, preemption at shared accesses, stalls, call boundaries); every result is compared with the same call alone in a fresh process; about one run in 400 has its callers on an interpreted machine (Miri) that switches threads anywhere, delivers stores late and reports data races, seeded; non-trivial: at least one switch inside or between calls; distinct by the hash of the schedule and results",
    real: "f256 (all operations), core::fmt, std; real threads, one running at a time",
    simulated: "scheduler (preemption at instrumented blocks, loads and stores; futex, yield and sleep), clock; interpreted machine with weak memory",
};
pub fn strategy(r: &mut Rng, p: &mut Plan) {
    if !focus::focus().is_empty() && r.chance(1, 2) {
        p.put("strat", "retained");
        p.put("prob", *r.pick(&[1u64, 2, 4, 8]));
        p.put("preempts", *r.pick(&[1u64, 2, 3, 5, 10, 40, 200]));
        return;
    }
    match r.below(8) {
        0 | 1 => {
            p.put("strat", "random");
            p.put("gap", r.log(20_000));
        }
        2 | 3 => {
            p.put("strat", "pct");
            p.put("depth", 1 + r.below(8));
        }
        4 | 5 => {
            p.put("strat", "shared");
            p.put("prob", *r.pick(&[1u64, 2, 4, 8, 16]));
        }
        6 => {
            p.put("strat", "stall");
            p.put("depth", 1 + r.below(4));
        }
        _ => p.put("strat", "boundary"),
    }
    p.put("preempts", *r.pick(&[1u64, 2, 3, 5, 10, 40, 200, 2000]));
}
fn plan(r: &mut Rng, p: &mut Plan) {
    if r.chance(1, if focus::focus().is_empty() { 400 } else { 150 }) {
        // a machine with a weak memory model that reports data races
        p.put("emu", "x86_64");
        p.put("rate", *r.pick(&[1u64, 3, 10, 30]));
        let n = 1 + r.usize(3);
        let menu = gen::menu(r, n, 40);
        for t in 0..2 + r.usize(2) {
            for _ in 0..1 + r.usize(2) {
                let o = &menu[r.usize(menu.len())];
                p.item(format!("call\t{t}\t{}", o.text()));
            }
        }
        return;
    }
    if r.chance(1, 40) {
        // a crowd, all of them inside a call at the same time
        let n = 1 + r.usize(3);
        let menu = gen::menu(r, n, *r.clone().pick(&[40i64, 100]));
        if !focus::focus().is_empty() && r.chance(1, 2) {
            p.put("strat", "retained");
            p.put("prob", *r.pick(&[4u64, 16]));
            p.put("preempts", *r.pick(&[20u64, 40, 200]));
        } else {
            p.put("strat", "crowd");
            p.put("at", r.below(1 << 16));
        }
        for t in 0..5 + r.usize(36) {
            for _ in 0..1 + r.usize(2) {
                let o = &menu[r.usize(menu.len())];
                p.item(format!("call\t{t}\t{}", o.text()));
            }
        }
        return;
    }
    let lim = *r.pick(&[40i64, 40, 100, 100, 100, 600]);
    let nt = 2 + r.usize(3);
    let n = 1 + r.usize(6);
    let menu = gen::menu(r, n, lim);
    strategy(r, p);
    for t in 0..nt {
        for _ in 0..1 + r.usize(6) {
            let o = &menu[r.usize(menu.len())];
            p.item(format!("call\t{t}\t{}", o.text()));
        }
    }
}
/// explicit switches of a plan
pub fn switches(p: &Plan) -> Vec<Sw> {
    p.items
        .iter()
        .filter_map(|i| {
            let f = fields(i);
            if f[0] != "sw" {
                return None;
            }
            Some(Sw { tid: num(&f, 1)?, step: num(&f, 2)?, next: num(&f, 3)? })
        })
        .collect()
}
/// change or stall points, spread over the steps the threads need alone:
/// anywhere, or close after the start of a call
pub fn points(r: &mut Rng, n: u64, starts: &[Vec<u64>], totals: &[u64], stall: bool) -> Vec<Sw> {
    (0..n)
        .map(|_| {
            let t = r.usize(totals.len());
            let step = if r.chance(1, 2) || starts[t].is_empty() {
                1 + r.below(totals[t].max(1))
            } else {
                let s = *r.pick(&starts[t]);
                s + r.log(totals[t].max(2))
            };
            Sw { tid: t as i32, step, next: if stall { 1 + r.below(20) as i32 } else { 0 } }
        })
        .collect()
}
/// Operations with their golden results; equal operations share one.
#[derive(Default)]
pub struct Goldens(std::collections::HashMap<String, Arc<Gold>>);
impl Goldens {
    pub fn get(&mut self, o: &Op) -> Result<Arc<Gold>, Viol> {
        let t = o.text();
        if let Some(g) = self.0.get(&t) {
            return Ok(g.clone());
        }
        let g = Arc::new(golden_ok(o)?);
        self.0.insert(t, g.clone());
        Ok(g)
    }
    /// find many at once; the ones that cannot be found so are left to `get`
    pub fn prepare(&mut self, ops: &[&Op]) {
        for (o, g) in ops.iter().zip(golden_many(ops).unwrap_or_default()) {
            self.0.insert(o.text(), Arc::new(g));
        }
    }
}
pub type Calls = Vec<(Op, Arc<Gold>)>;
pub fn setup(p: &Plan, th: &[Calls]) -> Setup {
    let mut r = Rng::new(&[p.seed, p.run, 0x5e7]);
    let mut starts = vec![];
    let mut totals = vec![];
    for c in th {
        let mut s = vec![];
        let mut n = 0;
        for (_, g) in c {
            s.push(n);
            n += g.steps;
        }
        starts.push(s);
        totals.push(n);
    }
    let depth = p.num("depth", 3);
    let (strat, pts) = match p.get("strat").unwrap_or("boundary") {
        "explicit" => (Strat::Explicit, switches(p)),
        "random" => (Strat::Random(p.num("gap", 100).max(1)), vec![]),
        "pct" => (Strat::Pct, points(&mut r, depth, &starts, &totals, false)),
        "retained" => (Strat::Retained(p.num("prob", 4)), vec![]),
        "shared" => (Strat::Shared(p.num("prob", 4)), vec![]),
        // everybody waits at about the same place of the first call until all are there
        "crowd" => {
            let at = p.num("at", 0).min(1 << 16);
            let pts = th.iter().enumerate().filter_map(|(t, c)| Some(Sw { tid: t as i32, step: 1 + c.first()?.1.steps * at / (1 << 16) + r.log(40), next: 1000 })).collect();
            (Strat::Stall, pts)
        }
        "stall" => (Strat::Stall, points(&mut r, depth, &starts, &totals, true)),
        _ => (Strat::Boundary, vec![]),
    };
    Setup { strat, seed: r.u64(), max_preempts: p.num("preempts", 100), points: pts, stall_for_ever: false, start: p.get("start").and_then(|s| s.parse().ok()).unwrap_or(-1) }
}
/// the calls of a plan by thread
pub fn threads(p: &Plan) -> Result<Vec<Calls>, Viol> {
    let mut gs = Goldens::default();
    let mut th: Vec<Calls> = vec![];
    if p.num("bulk", 0) == 1 {
        let all: Vec<Op> = p.items.iter().filter_map(|it| Op::parse(fields(it).get(2)?)).collect();
        gs.prepare(&all.iter().collect::<Vec<_>>());
    }
    for it in &p.items {
        let f = fields(it);
        if f[0] != "call" {
            continue;
        }
        let (Some(t), Some(o)) = (num::<usize>(&f, 1), f.get(2).and_then(|x| Op::parse(x))) else { continue };
        if t > 63 {
            continue;
        }
        while th.len() <= t {
            th.push(vec![]);
        }
        let g = gs.get(&o)?;
        th[t].push((o, g));
    }
    Ok(th)
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let th = threads(p)?;
    if th.is_empty() {
        return Ok(());
    }
    if let Some(t) = p.get("emu") {
        let t = nodes::TARGETS.iter().find(|x| **x == t).unwrap_or(&"x86_64");
        let mut lines: Vec<nodes::Line> = vec![];
        let mut gold = vec![];
        for (t, calls) in th.iter().enumerate() {
            for (o, g) in calls.iter().filter(|(o, _)| nodes::cheap(o)) {
                lines.push((t, o.clone()));
                gold.push(g.clone());
            }
        }
        let Some(out) = nodes::emulate(t, mix(p.seed ^ p.run), p.num("rate", 10).min(100), &lines)? else { return Ok(()) };
        run.nontrivial = true;
        for (j, ((c, o), g)) in lines.iter().zip(&gold).enumerate() {
            let got = out.get(j).cloned().unwrap_or_default();
            run.rec(&got);
            run.log(|| format!("interpreted caller {c}: {} -> {}", o.text(), res_show(&got)));
            if got != g.res {
                return viol("result", format!("{} gives {} on an interpreted machine among {} callers, {} alone", o.text(), res_show(&got), th.len(), res_show(&g.res)), o.text());
            }
        }
        return Ok(());
    }
    let st = setup(p, &th);
    let out: Arc<Mutex<Vec<Vec<(Vec<u8>, u64)>>>> = Arc::new(Mutex::new(vec![vec![]; th.len()]));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, calls) in th.iter().enumerate() {
        let calls = calls.clone();
        let out = out.clone();
        // sinks are made before anything runs
        let mut sinks: Vec<Fixed> = calls.iter().map(|(o, _)| Fixed::new(if let Op::Render { spec, .. } = o { op::render_cap(spec) } else { 0 })).collect();
        bodies.push(Box::new(move || {
            for ((o, g), sink) in calls.iter().zip(sinks.iter_mut()) {
                sched::boundary();
                let c = hooks::ctx();
                c.patience = 40;
                c.extend = g.steps * 2 + 200_000;
                let (r, n) = op::run_budget(o, sink, g.steps * 4 + 200_000);
                out.lock().unwrap()[t].push((r.bytes(), n));
            }
        }));
    }
    run.sched = sched::run_threads(st, bodies);
    let out = out.lock().unwrap();
    for w in &run.sched {
        run.hash = mix(run.hash ^ mix(w.step ^ (w.tid as u64) << 48 ^ (w.next as u64) << 56));
    }
    run.nontrivial = run.sched.iter().any(|w| w.tid >= 0 && w.step != sched::NEVER);
    for (t, calls) in th.iter().enumerate() {
        for (i, (o, g)) in calls.iter().enumerate() {
            let Some((got, _)) = out[t].get(i) else { return viol("missing", format!("caller {t} never finished {}", o.text()), o.text()) };
            run.rec(got);
            if VERBOSE_LOG() {
                run.log.push(format!("caller {t} call {i}: {} -> {}", o.text(), res_show(got)));
            }
            if *got != g.res {
                return viol("result", format!("caller {t}, call {i}: {} gives {} among {} callers, {} alone", o.text(), res_show(got), th.len(), res_show(&g.res)), o.text());
            }
        }
    }
    for w in &run.sched {
        if VERBOSE_LOG() {
            run.log.push(if w.step == sched::NEVER { format!("caller {} ends or waits, {} goes on", w.tid, w.next) } else { format!("at step {} of caller {}: {} goes on", w.step & !sched::BETWEEN, w.tid, w.next) });
        }
    }
    Ok(())
}
#[allow(non_snake_case)]
fn VERBOSE_LOG() -> bool {
    unsafe { hooks::VERBOSE }
}
