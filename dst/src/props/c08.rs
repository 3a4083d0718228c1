//! Every call finishes in bounded steps, even when all other callers are stalled.
use super::c05::threads;
use super::*;
use crate::{focus, gen};
use crate::sched::{Setup, Strat};
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C08",
    gen: plan,
    exec,
    quick: 60_000,
    build: "inst",
    rule: "a run is either 1-12 (one in three: 150 unrelated) calls alone, each within the step bound of its kind (constant for numeric operations, linear in the produced text for rendering, fixed polynomial in text length for parsing), on any values and with exponents of any claimed size, or 2-5 (one in 40: 6-40) threads of which all but the last are suspended for ever at explicit instrumented instructions inside their calls while the last must complete all of its calls, each within the steps it needs alone plus a fixed allowance; non-trivial: at least one thread was suspended inside a call, or a call was measured; distinct by the hash of stall points and steps",
    real: "f256 (all operations), core::fmt, std; real threads, one running at a time",
    simulated: "scheduler (suspension at instrumented blocks, loads and stores; futex, yield, sleep), step clock",
};
/// step bounds of a call alone
pub fn bound(o: &Op, res: &[u8]) -> u64 {
    match o {
        // today a remainder takes up to 180,000 steps, a logarithm 43,000, anything else 7,000
        Op::Num { idx, .. } => match f256ops::OPS[*idx].name {
            n if n.starts_with("rem") => 1_500_000,
            n if n.starts_with("l") => 500_000,
            _ => 200_000,
        },
        Op::Bytes { .. } => 200_000,
        // today 14,000, and 20 for each byte
        Op::Render { spec, .. } => 150_000 + 100 * (res.len() as u64 + spec.width.unwrap_or(0) as u64 + spec.prec.unwrap_or(0) as u64),
        Op::Parse { text, .. } => {
            // digits before the exponent, and how far the exponent reaches within the range of the type
            let reach = reach(text);
            400_000 + 2_000 * text.len() as u64 + (reach + text.len() as u64).pow(2) * 2
        }
    }
}
/// |exponent| as far as it can matter
fn reach(t: &[u8]) -> u64 {
    let Some(e) = t.iter().rposition(|c| *c == b'e' || *c == b'E') else { return 0 };
    let mut v = 0u64;
    for c in &t[e + 1..] {
        if c.is_ascii_digit() {
            v = (v * 10 + (c - b'0') as u64).min(160_000);
        }
    }
    v.min(80_000)
}
fn plan(r: &mut Rng, p: &mut Plan) {
    if r.chance(1, 2) {
        // alone
        p.put("strat", "solo");
        if r.chance(1, 3) {
            p.put("bulk", 1);
            for o in gen::bulk(r, 150, 60) {
                p.item(format!("call\t0\t{}", o.text()));
            }
            return;
        }
        let lim = match r.below(200) {
            0 => 78_000i64,
            1..=3 => 20_000,
            4..=20 => 3000,
            _ => *r.pick(&[60i64, 600, 600]),
        };
        let n = if lim > 1000 { 1 } else { 1 + r.usize(12) };
        let mut mix = gen::Mix::swarm(r, lim);
        if lim > 1000 {
            mix.parse = 20;
        }
        let np = 1 + r.usize(6);
        let pool = gen::Pool::new(r, np, None);
        for _ in 0..n {
            let mut o = gen::op(r, &mix, &pool);
            if let Op::Parse { text, .. } = &mut o {
                if r.chance(1, 3) {
                    // an exponent of any size
                    if let Some(e) = text.iter().position(|c| *c == b'e' || *c == b'E') {
                        text.truncate(e);
                    }
                    text.extend_from_slice(if r.chance(1, 2) { b"e" } else { b"E-" });
                    let n = 6 + r.usize(30);
                    for _ in 0..n {
                        text.push(b'1' + r.below(9) as u8);
                    }
                }
            }
            p.item(format!("call\t0\t{}", o.text()));
        }
        return;
    }
    p.put("strat", "stall");
    let lim = *r.pick(&[40i64, 40, 100, 100, 600]);
    let crowd = r.chance(1, 40);
    let nt = if crowd { 6 + r.usize(35) } else { 2 + r.usize(4) };
    let n = 1 + r.usize(if crowd { 2 } else { 5 });
    let same = r.u64() >> 24;
    let menu = gen::menu(r, n, lim);
    if !focus::focus().is_empty() && r.chance(1, 2) {
        p.put("strat", "retained");
        p.put("prob", *r.pick(&[1u64, 2, 4, 8]));
    }
    for t in 0..nt {
        let m = if t == nt - 1 { 1 + r.usize(6) } else if crowd { 1 } else { 1 + r.usize(2) };
        for _ in 0..m {
            p.item(format!("call\t{t}\t{}", menu[r.usize(menu.len())].text()));
        }
        if t < nt - 1 && p.get("strat") == Some("stall") {
            let at = match r.below(2) {
                _ if crowd => same + r.log(40),
                0 => r.log(4000),
                _ => r.u64() >> 24,
            };
            p.item(format!("stall\t{t}\t{}\t{at}", r.usize(m)));
        }
    }
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let solo = p.get("strat") == Some("solo");
    let th = threads(p)?;
    // alone: the bound of the kind
    for (o, g) in th.iter().flatten() {
        let b = bound(o, &g.res);
        run.log(|| format!("{}: {} steps alone, bound {b}", o.text(), g.steps));
        run.rec_n(g.steps);
        run.nontrivial |= solo;
        if std::env::var_os("DST_STEPS").is_some() {
            println!("STEPS {} {} {} {}", o.kind(), g.steps, match o { Op::Parse { text, .. } => text.len(), _ => g.res.len() }, match o { Op::Parse { text, .. } => reach(text), _ => 0 });
        }
        if g.steps > b {
            return viol("bound", format!("{} takes {} steps alone, bound {b}", o.text(), g.steps), o.text());
        }
    }
    if solo || th.len() < 2 {
        return Ok(());
    }
    // where the others stop for good
    let mut pts = vec![];
    if p.get("strat") == Some("explicit") {
        pts = super::c05::switches(p);
    } else {
        for it in &p.items {
            let f = fields(it);
            if f[0] != "stall" {
                continue;
            }
            let (Some(t), Some(c), Some(at)) = (num::<usize>(&f, 1), num::<usize>(&f, 2), num::<u64>(&f, 3)) else { continue };
            let Some(calls) = th.get(t) else { continue };
            let Some((_, g)) = calls.get(c) else { continue };
            let before: u64 = calls[..c].iter().map(|x| x.1.steps).sum();
            pts.push(Sw { tid: t as i32, step: before + 1 + at % g.steps.max(1), next: 0 });
        }
    }
    let strat = match p.get("strat") {
        Some("explicit") => Strat::Explicit,
        Some("retained") => Strat::StallRetained(p.num("prob", 4)),
        _ => Strat::Stall,
    };
    let start = p.get("start").and_then(|s| s.parse().ok()).unwrap_or(0);
    let st = Setup { strat, seed: p.seed ^ p.run, max_preempts: u64::MAX, points: pts, stall_for_ever: true, start };
    let out: Arc<Mutex<Vec<Vec<u64>>>> = Arc::new(Mutex::new(vec![Vec::with_capacity(64); th.len()]));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, calls) in th.iter().enumerate() {
        let calls = calls.clone();
        let out = out.clone();
        let mut sinks: Vec<Fixed> = calls.iter().map(|(o, _)| Fixed::new(if let Op::Render { spec, .. } = o { op::render_cap(spec) } else { 0 })).collect();
        bodies.push(Box::new(move || {
            for ((o, g), sink) in calls.iter().zip(sinks.iter_mut()) {
                sched::boundary();
                // patience for callers that wait for somebody who is not stalled yet
                let c = hooks::ctx();
                c.patience = 6;
                c.extend = g.steps + 50_000;
                let (_, n) = op::run_budget(o, sink, g.steps * 2 + 50_000);
                out.lock().unwrap()[t].push(n);
            }
        }));
    }
    run.sched = sched::run_threads(st, bodies);
    let out = out.lock().unwrap();
    for w in run.sched.clone() {
        run.rec_n(w.step ^ (w.tid as u64) << 48 ^ (w.next as u64) << 56);
        run.log(|| match (w.step, w.next) {
            (_, n) if n <= -2 => format!("caller {} stops for ever at step {}", w.tid, w.step),
            (sched::NEVER, n) => format!("caller {} ends, waits or has stopped, {n} goes on", w.tid),
            (s, n) => format!("caller {} at step {s}: {n} goes on", w.tid),
        });
    }
    let stopped: Vec<i32> = run.sched.iter().filter(|w| w.next <= -2).map(|w| w.tid).collect();
    run.nontrivial = !stopped.is_empty();
    for (t, calls) in th.iter().enumerate() {
        for (i, (o, g)) in calls.iter().enumerate() {
            match out[t].get(i) {
                Some(n) => {
                    run.rec_n(*n);
                    if *n > g.steps * 2 + 50_000 {
                        return viol("more", format!("caller {t}, call {i}: {} takes {n} steps while {} others are suspended, {} alone", o.text(), stopped.len(), g.steps), o.text());
                    }
                }
                None if stopped.contains(&(t as i32)) => {}
                None => return viol("stuck", format!("caller {t}: {} never finishes while callers {stopped:?} are suspended", o.text()), o.text()),
            }
        }
    }
    Ok(())
}
