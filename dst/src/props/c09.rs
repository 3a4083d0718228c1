//! Failures and history never influence later calls.
use super::c05::Goldens;
use super::*;
use crate::{focus, gen};
use std::fmt::Write;

pub static PROP: Prop = Prop {
    id: "C09",
    gen: plan,
    exec,
    quick: 60_000,
    build: "inst",
    rule: "a run is a history of 1-400 calls (some repeated up to 70,000 times) on the main thread or on threads that end, many of them failing on purpose (writer error at a byte, unwinding writer, parse error, documented panic, too high precision), with 1-12 probe calls in between and after; every probe is compared with the same call as the first one of a fresh process; non-trivial: at least one call failed or 5 calls preceded a probe; distinct by the hash of all outcomes",
    real: "f256 (all operations), core::fmt, std threads and unwinding",
    simulated: "writers that refuse or unwind, clock",
};
fn plan(r: &mut Rng, p: &mut Plan) {
    let lim = *r.pick(&[40i64, 40, 100, 100, 600]);
    let mut mix = gen::Mix::swarm(r, lim);
    mix.render_any = r.chance(1, 20);
    let bound = if r.chance(1, 2) { None } else { Some(lim) };
    let np = 1 + r.usize(12);
    let pool = gen::Pool::new(r, np, bound);
    let most = if r.chance(1, 8) { 400 } else { 40 };
    let n = 1 + r.log(most) as usize;
    let fail = r.below(5);
    let mut past: Vec<Op> = vec![];
    let mut probes = 0;
    for i in 0..n {
        let mut o = match past.len() {
            l if l > 0 && r.chance(1, 3) => {
                let b = past[r.usize(l)].clone();
                if r.chance(1, 2) {
                    b
                } else {
                    gen::vary(r, &b, &mix)
                }
            }
            _ if !focus::focus().is_empty() && r.chance(2, 3) => focus::op(r),
            _ => gen::op(r, &mix, &pool),
        };
        if r.below(8) < fail {
            // something that fails
            match (&mut o, r.below(4)) {
                (Op::Parse { text, .. }, _) => {
                    if r.chance(1, 5) {
                        text.push(b'e');
                    } else {
                        let at = r.usize(text.len() + 1);
                        text.insert(at, *r.pick(b" x.-+_\0"));
                    }
                }
                (Op::Render { spec, .. }, 0) => spec.prec = Some(76 + r.below(1000) as u16),
                (Op::Num { idx, .. }, _) => {
                    let bad: Vec<usize> = (0..f256ops::OPS.len()).filter(|&i| f256ops::OPS[i].may_panic && f256ops::OPS[i].args <= f256ops::OPS[*idx].args && !f256ops::OPS[i].int).collect();
                    if !bad.is_empty() {
                        *idx = *r.pick(&bad);
                    }
                }
                _ => {}
            }
        }
        past.push(o.clone());
        let th = r.chance(1, 12) as u64;
        // counters that wrap around between two calls
        if r.chance(1, if focus::focus().is_empty() { 6000 } else { 150 }) {
            let b = if r.chance(1, 2) { o.clone() } else { past[r.usize(past.len())].clone() };
            let c = gen::vary(r, &b, &mix);
            let k = (1u64 << *r.pick(&[7u32, 8, 8, 8, 9, 10, 12, 15, 16, 16])) + r.below(5) - 2;
            if cheap(&b) && cheap(&c) {
                p.item(format!("call\t0\t{}", o.text()));
                p.item(format!("alt\t0\t{k}\t{}\t{}", b.text(), if r.chance(1, 2) { &b } else { &c }.text()));
                let q = if r.chance(1, 2) { o.clone() } else { gen::vary(r, &o, &mix) };
                p.item(format!("probe\t0\t{}", q.text()));
                probes += 1;
                past.push(c);
            }
        }
        let storm = fail > 0 && r.chance(1, 60);
        if o.is_render() && storm {
            // the same failure again and again
            p.item(format!("storm\t{th}\t{}\t{}\t{}\t{}", 10 + r.log(2000), r.pick(&["error", "unwind", "partial"]), r.log(40), o.text()));
        } else if storm && !matches!(&o, Op::Num { idx, .. } if f256ops::OPS[*idx].may_panic) {
            p.item(format!("rep\t{th}\t{}\t{}", 10 + r.log(2000), o.text()));
        } else if o.is_render() && r.below(8) < fail + 1 {
            p.item(format!("fail\t{th}\t{}\t{}\t{}", r.pick(&["error", "unwind", "partial"]), r.log(90), o.text()));
        } else if r.chance(1, 800) && matches!(&o, Op::Num { idx, .. } if !f256ops::OPS[*idx].may_panic) {
            p.item(format!("rep\t{th}\t{}\t{}", *r.pick(&[300u64, 5000, 70_000]), o.text()));
        } else {
            p.item(format!("call\t{th}\t{}", o.text()));
        }
        // probes in between, and always at the end
        while probes < 12 && (r.chance(1, 10) || (i + 1 == n && probes == 0)) {
            let k = r.usize(past.len());
            let b = past[k].clone();
            let o = match r.below(5) {
                0 if !focus::focus().is_empty() => focus::op(r),
                0 => gen::op(r, &mix, &pool),
                1 | 2 => gen::vary(r, &b, &mix),
                3 => past[past.len() - 1].clone(),
                _ => b,
            };
            p.item(format!("probe\t0\t{}", o.text()));
            probes += 1;
        }
    }
}
/// does not panic, does not write much
fn cheap(o: &Op) -> bool {
    match o {
        Op::Num { idx, .. } => !f256ops::OPS[*idx].may_panic,
        Op::Render { spec, .. } => spec.width.unwrap_or(0) < 100 && spec.prec.unwrap_or(0) < 100,
        Op::Parse { text, .. } => text.len() < 200,
        Op::Bytes { .. } => true,
    }
}
struct Bad {
    room: usize,
    kind: u8,
}
impl Write for Bad {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _o = hooks::suspend();
        if s.len() > self.room {
            match self.kind {
                b'u' => {
                    crate::st!(w_unwind);
                    std::panic::panic_any(hooks::QUIET)
                }
                b'p' => {
                    // takes what fits and everything afterwards
                    crate::st!(w_fmt_partial_error);
                    self.room = usize::MAX;
                }
                _ => crate::st!(w_fmt_error),
            }
            return Err(std::fmt::Error);
        }
        self.room -= s.len();
        Ok(())
    }
}
/// one unjudged call of the history; did it fail?
fn history(o: &Op, how: &str, at: usize) -> bool {
    let c = hooks::ctx();
    c.op_start = c.steps;
    c.limit = c.steps + STEP_CAP;
    sched::refresh();
    let bad = if how == "call" {
        let r = op::run(o);
        matches!(r, Res::Panic | Res::Text(_, false) | Res::Out(f256ops::Out::Err(_)))
    } else {
        let mut w = Bad { room: at, kind: how.as_bytes()[0] };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _l = hooks::enter();
            op::call(o, &mut w)
        }));
        !matches!(r, Ok((_, Some(true))))
    };
    let c = hooks::ctx();
    c.in_lib = 0;
    c.limit = sched::NEVER;
    sched::refresh();
    crate::st!(hist_ops);
    if bad {
        crate::st!(hist_failures);
    }
    bad
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let mut gs = Goldens::default();
    // goldens first: the processes they run in must be pristine
    for it in &p.items {
        let f = fields(it);
        if f[0] == "probe" {
            if let Some(o) = f.get(2).and_then(|x| Op::parse(x)) {
                gs.get(&o)?;
            }
        }
    }
    let mut n = 0u64;
    for it in &p.items {
        let f = fields(it);
        let th = num::<u64>(&f, 1).unwrap_or(0) > 0;
        let Some(o) = f.last().and_then(|x| Op::parse(x)) else { continue };
        let other = if f[0] == "alt" { f.get(3).and_then(|x| Op::parse(x)) } else { None };
        let mut go = |how: String, at: usize, times: u64| {
            let (oo, ob) = (o.clone(), other.clone());
            let body = move || {
                let (mut bad, s0) = (false, hooks::ctx().steps);
                let most = if ob.is_some() { 800_000_000 } else { 8_000_000 };
                for i in 0..times {
                    bad |= history(ob.as_ref().filter(|_| i % 2 == 1).unwrap_or(&oo), &how, at);
                    // repetition is for cheap calls
                    if hooks::ctx().steps - s0 > most {
                        break;
                    }
                }
                bad
            };
            let bad = if th { std::thread::spawn(body).join().unwrap_or(true) } else { body() };
            run.nontrivial |= bad;
            run.rec_n(bad as u64);
            n += times;
            if n >= 5 {
                run.nontrivial = true;
            }
            run.log(|| format!("{} {}{}", it.replace('\t', " "), if bad { "fails" } else { "succeeds" }, if th { ", on a thread of its own" } else { "" }));
        };
        match f[0] {
            "call" => go("call".into(), 0, 1),
            "alt" if other.is_some() => {
                crate::st!(hist_alternations);
                go("call".into(), 0, num::<u64>(&f, 2).unwrap_or(1).min(100_000))
            }
            "rep" => go("call".into(), 0, num::<u64>(&f, 2).unwrap_or(1).min(100_000)),
            "storm" => {
                let (Some(times), Some(how), Some(at)) = (num::<u64>(&f, 2), f.get(3), num::<usize>(&f, 4)) else { continue };
                if !how.is_empty() {
                    crate::st!(hist_storms);
                    go(how.to_string(), at, times.min(10_000));
                }
            }
            "fail" => {
                let (Some(how), Some(at)) = (f.get(2), num::<usize>(&f, 3)) else { continue };
                if !how.is_empty() {
                    go(how.to_string(), at, 1);
                }
            }
            "probe" => {
                let g = gs.get(&o)?;
                let mut sink = Fixed::new(if let Op::Render { spec, .. } = &o { op::render_cap(spec) } else { 0 });
                let (r, _) = op::run_budget(&o, &mut sink, g.steps * 4 + 200_000);
                crate::st!(probes);
                let b = r.bytes();
                run.rec(&b);
                run.log(|| format!("probe {} -> {}", o.text(), res_show(&b)));
                if b == b"P" {
                    crate::st!(panics_documented);
                }
                if b != g.res {
                    return viol("result", format!("{} gives {} after {n} earlier calls, {} in a fresh process", o.text(), res_show(&b), res_show(&g.res)), o.text());
                }
            }
            _ => {}
        }
    }
    Ok(())
}
