//! Memory exhaustion never corrupts a result; numeric operations need no heap.
use super::c05::Goldens;
use super::*;
use crate::gen;
use std::fmt::Write;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C07",
    gen: plan,
    exec,
    quick: 60_000,
    build: "inst",
    rule: "a run is 1-8 calls (one run in four: 100 unrelated ones) on one thread against a simulated heap that refuses one request, all requests from one on, or all above a size (explicit or swept over every request the call makes); numeric calls and parsing run with no heap at all, one run in 80 with a text of up to 250000 digits; afterwards every call is repeated with memory available, and the ledger of live memory is compared over repetitions; non-trivial: at least one request was refused, or a call ran with no heap; distinct by the hash of outcomes",
    real: "f256 (all operations), core::fmt, alloc::string",
    simulated: "heap (global allocator seam): refusal, dirty contents, ledger; allocation failure unwinds instead of aborting",
};
const MODES: &[&str] = &["one", "from", "above", "sweep", "sweep"];
const SINKS: &[&str] = &["fixed", "string", "try"];
fn plan(r: &mut Rng, p: &mut Plan) {
    let lim = *r.pick(&[40i64, 100, 100, 600]);
    let n = 1 + r.usize(8);
    p.put("fill", r.u64() >> 40);
    if r.chance(1, 4) {
        p.put("bulk", 1);
        for o in gen::bulk(r, 100, 60) {
            p.item(format!("op\t{}\t{}\t{}\t{}", r.pick(&["one", "from"]), r.log(12), r.pick(SINKS), o.text()));
        }
        return;
    }
    for o in gen::menu(r, n, lim) {
        let mode = *r.pick(MODES);
        let k = if mode == "above" { r.log(4000) } else { r.log(12) };
        p.item(format!("op\t{mode}\t{k}\t{}\t{}", r.pick(SINKS), o.text()));
    }
    // a text longer than any buffer of a fixed size
    if r.chance(1, 80) {
        p.item(format!("op\tone\t0\tfixed\t{}", Op::Parse { how: r.below(4) as u8, text: gen::long_text(r) }.text()));
    }
}
/// grows on demand and reports failure to grow as an error
struct Try(Vec<u8>);
impl Write for Try {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.try_reserve(s.len()).map_err(|_| std::fmt::Error)?;
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
#[derive(PartialEq, Debug)]
enum Got {
    Done(Vec<u8>),
    Oom(Vec<u8>),
    Panic(Vec<u8>),
}
/// one call with the heap as configured
fn call(o: &Op, sink: &str, limit: u64) -> (Got, u64) {
    let c = hooks::ctx();
    c.op_start = c.steps;
    c.limit = c.steps + limit;
    sched::refresh();
    let mut fixed = Fixed::new(if let Op::Render { spec, .. } = o { op::render_cap(spec) } else { 0 });
    let mut string = String::new();
    let mut tr = Try(vec![]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _l = hooks::enter();
        let w: &mut dyn Write = match sink {
            "string" => &mut string,
            "try" => &mut tr,
            _ => &mut fixed,
        };
        op::call(o, w)
    }));
    let c = hooks::ctx();
    c.in_lib = 0;
    let steps = c.steps - c.op_start;
    c.limit = sched::NEVER;
    sched::refresh();
    crate::st!(ops);
    crate::st!(lib_steps, steps);
    let text = match sink {
        "string" => string.as_bytes(),
        "try" => &tr.0,
        _ => fixed.bytes(),
    };
    let g = match r {
        Ok((_, Some(ok))) => Got::Done(Res::Text(text.to_vec(), ok).bytes()),
        Ok((v, None)) => Got::Done(Res::Out(v).bytes()),
        Err(e) if e.is::<hooks::Oom>() => Got::Oom(text.to_vec()),
        Err(_) => Got::Panic(text.to_vec()),
    };
    (g, steps)
}
fn heap(mode: &str, k: u64) {
    let a = hooks::alloc();
    a.reset_counts();
    (a.fail_at, a.fail_from, a.fail_above) = (sched::NEVER, sched::NEVER, usize::MAX);
    match mode {
        "one" => a.fail_at = k,
        "from" => a.fail_from = k,
        "above" => a.fail_above = k as usize,
        _ => {}
    }
    a.on = true;
}
fn ledger(o: &Op) -> Result<(), Viol> {
    match hooks::alloc().error.take() {
        Some(e) => viol("heap", format!("{}: {e}", o.text()), o.text()),
        None => Ok(()),
    }
}
/// one call under a shortage
fn short(o: &Op, g: &Gold, sink: &str, mode: &str, k: u64, run: &mut Run) -> Result<(), Viol> {
    heap(mode, k);
    let (got, _) = call(o, sink, g.steps * 4 + 200_000);
    let a = hooks::alloc();
    a.on = false;
    let refused = a.refused;
    run.rec_n(refused);
    run.nontrivial |= refused > 0;
    if refused > 0 {
        match mode {
            "one" => crate::st!(alloc_refused_one, refused),
            "from" => crate::st!(alloc_refused_from, refused),
            _ => crate::st!(alloc_refused_large, refused),
        }
    }
    ledger(o)?;
    let t = o.text();
    let how = || format!("with requests {mode} {k} refused ({refused} refused, writer {sink})");
    let (bytes, oom) = match &got {
        Got::Done(b) => {
            run.rec(b);
            if *b == g.res {
                if refused > 0 {
                    crate::st!(alloc_oom_survived);
                }
                return Ok(());
            }
            if b.first() == Some(&b'T') || b.first() != Some(&b'E') {
                return viol("altered", format!("{t}: {} {}, {} otherwise", res_show(b), how(), res_show(&g.res)), t);
            }
            crate::st!(alloc_oom_reported);
            (&b[1..], false)
        }
        Got::Oom(b) => {
            crate::st!(alloc_oom_unwound);
            (&b[..], true)
        }
        Got::Panic(b) => {
            crate::st!(alloc_oom_unwound);
            (&b[..], false)
        }
    };
    run.rec(bytes);
    let _ = oom;
    if refused == 0 {
        return viol("failed", format!("{t}: {} although no request was refused, {} otherwise", desc(&got), res_show(&g.res)), t);
    }
    if !g.res[1..].starts_with(bytes) {
        return viol("prefix", format!("{t}: delivered {} {}, {} otherwise", op::show(bytes), how(), res_show(&g.res)), t);
    }
    Ok(())
}
fn desc(g: &Got) -> String {
    match g {
        Got::Done(b) => res_show(b),
        Got::Oom(_) => "allocation failure".into(),
        Got::Panic(_) => "panic".into(),
    }
}
/// one call with memory available; its requests
fn healthy(o: &Op, g: &Gold, sink: &str, run: &mut Run, when: &str) -> Result<u64, Viol> {
    heap("-", 0);
    let (got, _) = call(o, sink, g.steps * 4 + 200_000);
    hooks::alloc().on = false;
    ledger(o)?;
    let t = o.text();
    let b = match &got {
        Got::Done(b) | Got::Oom(b) => b.clone(),
        Got::Panic(_) => b"P".to_vec(),
    };
    run.rec(&b);
    if b != g.res {
        return viol("after", format!("{t}: {} {when}, {} otherwise", desc(&got), res_show(&g.res)), t);
    }
    crate::st!(alloc_requests, hooks::alloc().requests);
    Ok(hooks::alloc().requests)
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let mut gs = Goldens::default();
    let mut ops: Vec<(Op, Arc<Gold>, String, u64, String)> = vec![];
    if p.num("bulk", 0) == 1 {
        let all: Vec<Op> = p.items.iter().filter_map(|it| Op::parse(fields(it).get(4)?)).collect();
        gs.prepare(&all.iter().collect::<Vec<_>>());
    }
    for it in &p.items {
        let f = fields(it);
        let (Some(k), Some(o)) = (num::<u64>(&f, 2), f.get(4).and_then(|x| Op::parse(x))) else { continue };
        if let Op::Parse { text, .. } = &o {
            if std::str::from_utf8(text).is_err() {
                continue;
            }
        }
        let g = gs.get(&o)?;
        // documented panics need memory of their own
        if g.res == b"P" {
            continue;
        }
        ops.push((o, g, f[1].into(), k, f[3].into()));
    }
    hooks::alloc().fill = p.num("fill", 0);
    for (o, g, mode, k, sink) in &ops {
        if !o.is_render() {
            heap("from", 0);
            let (got, _) = call(o, sink, g.steps * 4 + 200_000);
            let a = hooks::alloc();
            a.on = false;
            ledger(o)?;
            run.rec(desc(&got).as_bytes());
            run.nontrivial = true;
            run.log(|| format!("{} without any heap: {}", o.text(), desc(&got)));
            let t = o.text();
            if a.requests > 0 {
                return viol("request", format!("{t} asks for heap memory ({} requests), then: {}", a.requests, desc(&got)), o.kind());
            }
            if got != Got::Done(g.res.clone()) {
                return viol("altered", format!("{t}: {} without heap, {} otherwise", desc(&got), res_show(&g.res)), t);
            }
            continue;
        }
        if mode == "sweep" {
            let n = healthy(o, g, sink, run, "on a dirty heap")?;
            let stride = n.div_ceil(40).max(1);
            let mut i = p.run % stride;
            while i < n {
                short(o, g, sink, "one", i, run)?;
                short(o, g, sink, "from", i, run)?;
                i += stride;
            }
        } else {
            short(o, g, sink, mode, *k, run)?;
        }
        run.log(|| format!("{} under shortage {mode} {k}, writer {sink}", o.text()));
        healthy(o, g, sink, run, "after the shortage")?;
    }
    // everything again, and again: memory in use must not keep growing
    let mut live = vec![];
    for round in 0..3 {
        for _ in 0..if round == 0 { 1 } else { 4 } {
            for (o, g, mode, k, sink) in &ops {
                if g.steps > 300_000 && round > 0 {
                    continue;
                }
                if o.is_render() && mode != "sweep" {
                    short(o, g, sink, mode, *k, run)?;
                }
                healthy(o, g, sink, run, "after the shortage")?;
            }
        }
        live.push((hooks::alloc().live, hooks::alloc().live_bytes));
    }
    if live[2].0 > live[1].0 && live[1].0 > live[0].0 {
        let t = ops.iter().map(|o| o.0.text()).collect::<Vec<_>>().join("; ");
        return viol("leak", format!("memory is lost: {} blocks ({} bytes), then {} ({}), then {} ({}) in use, repeating: {t}", live[0].0, live[0].1, live[1].0, live[1].1, live[2].0, live[2].1), t);
    }
    hooks::alloc().recycle();
    Ok(())
}
