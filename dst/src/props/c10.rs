//! Results never depend on leftover memory and calls stay inside their buffers.
use super::c03::Fence;
use super::c05::Goldens;
use super::*;
use crate::{gen, nodes};
use std::fmt::Write;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C10",
    gen: plan,
    exec,
    quick: 50_000,
    build: "inst",
    rule: "a run is 1-8 calls (one run in four: 150 unrelated ones), each made several times in different simulated memory environments (seeded stack and heap contents, heap blocks between guard pages or red zones, stack depth, texts against guard pages, at any alignment and between misleading neighbours); one rendering in four also into a writer that stops accepting text (error or unwinding); every result is compared with the call in a fresh process, every access of the library to the page of a text is checked against the bounds of the text, and the heap ledger is checked for writes outside blocks, double or mismatched release and growth; one run in five makes its calls on a machine that checks every address (AddressSanitizer build, library and node program), and about one in 700 on an abstract machine (Miri) on which any undefined operation, uninitialised or stray access is an error; non-trivial: every run (memory is dirtied before each call); distinct by the hash of environments and results",
    real: "f256 (all operations), core::fmt, alloc",
    simulated: "contents of stack and heap, heap placement (global allocator seam), placement of argument texts, abstract machine",
};
fn plan(r: &mut Rng, p: &mut Plan) {
    let emu = r.chance(1, 700);
    let lim = if emu { 40 } else { *r.pick(&[40i64, 100, 100, 600]) };
    let n = 1 + r.usize(8);
    if emu {
        p.put("emu", "x86_64");
    } else if r.chance(1, 5) {
        p.put("asan", 1);
    }
    p.put("guard", r.chance(1, 4) as u64);
    if !emu && r.chance(1, 4) {
        // many unrelated calls
        p.put("bulk", 1);
        p.put("rounds", 2);
        for o in gen::bulk(r, 150, 60) {
            p.item(format!("call\t{}\t{}\t{}\t{}", r.u64() >> 24, r.log(2000), r.below(1 << 12), o.text()));
        }
        return;
    }
    p.put("rounds", 2 + r.below(3));
    for o in gen::menu(r, n, lim) {
        p.item(format!("call\t{}\t{}\t{}\t{}", r.u64() >> 24, r.log(60_000), r.below(1 << 12), o.text()));
    }
}
static mut TEXT: (usize, usize, usize, usize) = (0, 0, 0, 0);
fn watch(kind: u8, addr: usize) {
    unsafe {
        let (plo, phi, lo, hi) = TEXT;
        let end = addr + hooks::ACCESS;
        if kind != hooks::BLOCK && end > plo && addr < phi {
            if addr < lo || end > hi {
                sched::fail("outside", format!("the library accesses bytes {}..{} of a text of {} bytes", addr as isize - lo as isize, end as isize - lo as isize, hi - lo));
            }
            if kind == hooks::STORE {
                sched::fail("outside", "the library writes into its argument".into());
            }
        }
    }
    let c = hooks::ctx();
    if c.steps >= c.limit {
        sched::on_slow(kind, addr);
    }
}
/// passes text on, and may stop accepting it
struct Check<'a> {
    out: &'a mut Fixed,
    bad: Option<String>,
    room: usize,
    unwind: bool,
}
impl Write for Check<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if std::str::from_utf8(s.as_bytes()).is_err() && self.bad.is_none() {
            self.bad = Some(op::show(s.as_bytes()));
        }
        if s.len() > self.room - self.out.len.min(self.room) {
            if self.unwind {
                let _s = hooks::suspend();
                std::panic::panic_any(hooks::QUIET);
            }
            return Err(std::fmt::Error);
        }
        self.out.write_str(s)
    }
}
#[inline(never)]
fn deeper<T>(bytes: usize, f: &mut dyn FnMut() -> T) -> T {
    if bytes < 64 {
        return f();
    }
    let mut a = [0u8; 1000];
    std::hint::black_box(&mut a);
    let r = if bytes > 1000 { deeper(bytes - 1000, f) } else { odd(bytes, f) };
    std::hint::black_box(&mut a);
    r
}
#[inline(never)]
fn odd<T>(bytes: usize, f: &mut dyn FnMut() -> T) -> T {
    let mut a = [0u8; 16];
    std::hint::black_box(&mut a);
    let r = deeper(bytes.saturating_sub(64).min(bytes / 2), f);
    std::hint::black_box(&mut a);
    r
}
fn one(o: &Op, g: &Gold, fence: &Fence, dirt: u64, depth: usize, place: u64, short: Option<(usize, bool)>) -> Result<(Vec<u8>, Option<String>), Viol> {
    let mut sink = Fixed::new(if let Op::Render { spec, .. } = o { op::render_cap(spec) } else { 0 });
    let text = match o {
        Op::Parse { text, .. } => fence.place(text, place),
        _ => "",
    };
    let (plo, phi) = fence.range();
    unsafe { TEXT = (plo, phi, text.as_ptr() as usize, text.as_ptr() as usize + text.len()) };
    let how = if let Op::Parse { how, .. } = o { Some(*how) } else { None };
    let mut bad = None;
    let a = hooks::alloc();
    a.fill = dirt;
    a.reset_counts();
    let mut body = || {
        hooks::fill_stack(dirt, 96 << 10);
        let c = hooks::ctx();
        c.op_start = c.steps;
        c.limit = c.steps + g.steps * 4 + 200_000;
        c.watch = how.is_some();
        sched::refresh();
        let mut w = Check { out: &mut sink, bad: None, room: short.map_or(usize::MAX, |s| s.0), unwind: short.is_some_and(|s| s.1) };
        hooks::alloc().on = g.res != b"P";
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _l = hooks::enter();
            match how {
                Some(h) => (f256ops::parse(h, text), None),
                None => op::call(o, &mut w),
            }
        }));
        hooks::alloc().on = false;
        let c = hooks::ctx();
        c.in_lib = 0;
        c.watch = false;
        c.limit = sched::NEVER;
        sched::refresh();
        bad = w.bad.take();
        crate::st!(ops);
        crate::st!(lib_steps, c.steps - c.op_start);
        r
    };
    let r = deeper(depth, &mut body);
    if g.res != b"P" {
        crate::st!(dirty_fills, hooks::alloc().requests);
    }
    if how.is_some() {
        crate::st!(guard_page_texts);
    }
    let res = match r {
        Err(_) if short.is_some() => Res::Text(sink.bytes().to_vec(), false),
        Err(_) => Res::Panic,
        Ok((_, Some(ok))) => Res::Text(sink.bytes().to_vec(), ok),
        Ok((v, None)) => Res::Out(v),
    };
    let t = o.text();
    if let Some(e) = hooks::alloc().error.take() {
        return viol("heap", format!("{t}: {e}"), t);
    }
    Ok((res.bytes(), bad))
}
fn compare(ops: &[(Op, Arc<Gold>, u64, usize, u64)], out: &[Vec<u8>], on: &str, run: &mut Run) -> Result<(), Viol> {
    run.nontrivial = true;
    for (j, x) in ops.iter().enumerate() {
        let got = out.get(j).cloned().unwrap_or_default();
        run.rec(&got);
        run.log(|| format!("{} on {on} -> {}", x.0.text(), res_show(&got)));
        if got != x.1.res {
            return viol("result", format!("{} gives {} on {on}, {} in a fresh process", x.0.text(), res_show(&got), res_show(&x.1.res)), x.0.text());
        }
    }
    Ok(())
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let mut gs = Goldens::default();
    let mut ops: Vec<(Op, Arc<Gold>, u64, usize, u64)> = vec![];
    let mut big = 0;
    if p.num("bulk", 0) == 1 {
        let all: Vec<Op> = p.items.iter().filter_map(|it| Op::parse(fields(it).get(4)?)).collect();
        gs.prepare(&all.iter().collect::<Vec<_>>());
    }
    for it in &p.items {
        let f = fields(it);
        let (Some(dirt), Some(depth), Some(place), Some(o)) = (num::<u64>(&f, 1), num::<usize>(&f, 2), num::<u64>(&f, 3), f.get(4).and_then(|x| Op::parse(x))) else { continue };
        if let Op::Parse { text, .. } = &o {
            if std::str::from_utf8(text).is_err() {
                continue;
            }
            big = big.max(text.len());
        }
        let g = gs.get(&o)?;
        ops.push((o, g, dirt, depth.min(1 << 20), place));
    }
    if p.num("asan", 0) == 1 {
        let lines: Vec<nodes::Line> = ops.iter().map(|x| (0, x.0.clone())).collect();
        return compare(&ops, &nodes::asan(&lines)?, "the address-checking machine", run);
    }
    if let Some(t) = p.get("emu") {
        let t = nodes::TARGETS.iter().find(|x| **x == t).unwrap_or(&"x86_64");
        let l = ops.len();
        ops.retain(|x| nodes::cheap(&x.0));
        run.log(|| format!("{} of {l} calls left out", l - ops.len()));
        let lines: Vec<nodes::Line> = ops.iter().map(|x| (0, x.0.clone())).collect();
        let Some(out) = nodes::emulate(t, mix(p.seed ^ p.run), 0, &lines)? else { return Ok(()) };
        return compare(&ops, &out, "the interpreted machine", run);
    }
    unsafe { hooks::SLOW = watch };
    let fence = Fence::new((big + 128) / 4096 + 1);
    hooks::alloc().guard = p.num("guard", 0) == 1;
    let mut live = vec![];
    for round in 0..p.num("rounds", 2).min(20) {
        for (o, g, dirt, depth, place) in &ops {
            if round > 0 && g.steps > 1_000_000 {
                continue;
            }
            let (d, pl) = (mix(*dirt ^ round), place + round);
            // first with a writer that stops accepting text
            if place % 4 == 0 && o.is_render() && g.res.first() == Some(&b'T') {
                let (room, unwind) = ((place / 8 % 64) as usize, place / 4 % 2 == 1);
                let (b, _) = one(o, g, &fence, d, 0, pl, Some((room, unwind)))?;
                run.rec(&b);
                match (g.res.len() - 1 <= room, unwind) {
                    (true, _) => {}
                    (_, true) => crate::st!(w_unwind),
                    _ => crate::st!(w_fmt_error),
                }
                let ok = b.len() <= g.res.len() && b.len() <= room + 1 && g.res[1..].starts_with(&b[1..]) && b[0] == b'E';
                if !(ok || g.res.len() - 1 <= room && b == g.res) {
                    return viol("result", format!("{} into a writer with room for {room} bytes gives {}, {} in a fresh process", o.text(), res_show(&b), res_show(&g.res)), o.text());
                }
            }
            let (b, bad) = one(o, g, &fence, d, if round == 0 { *depth } else { (mix(d) % (1 + *depth as u64)) as usize }, pl, None)?;
            run.rec_n(d ^ pl);
            run.rec(&b);
            run.nontrivial = true;
            run.log(|| format!("{} with memory {d:x}, placement {pl}: {}", o.text(), res_show(&b)));
            if let Some(x) = bad {
                return viol("utf8", format!("{} hands the writer bytes that are not UTF-8: {x}", o.text()), o.text());
            }
            if b != g.res {
                return viol("result", format!("{} gives {} with other leftover memory or placement, {} in a fresh process", o.text(), res_show(&b), res_show(&g.res)), o.text());
            }
            hooks::alloc().recycle();
        }
        live.push((hooks::alloc().live, hooks::alloc().live_bytes));
    }
    // repetitions do not accumulate memory
    if live.len() > 2 && live.windows(2).all(|w| w[1].0 > w[0].0) {
        let t = ops.iter().map(|o| o.0.text()).collect::<Vec<_>>().join("; ");
        return viol("leak", format!("memory in use grows with every repetition ({:?}) of {t}", live), t);
    }
    Ok(())
}
