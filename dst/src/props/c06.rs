//! Operations can be interrupted and re-entered at any point on one thread.
use super::c05::Goldens;
use super::*;
use crate::{focus, gen};
use std::fmt::Write;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C06",
    gen: plan,
    exec,
    quick: 80_000,
    build: "inst",
    rule: "a run is 1-4 calls over a small set of related operations; each is interrupted up to 6 times at explicit instrumented instructions by a simulated signal handler running another operation (itself interrupted, up to 3 deep), or re-entered from the writer it renders to; sweeps interrupt a call at every instruction in turn; every result is compared with the same call alone in a fresh process; non-trivial: at least one interrupt or re-entry happened; distinct by the hash of results, steps and nesting",
    real: "f256 (all operations), core::fmt",
    simulated: "signal delivery (before any instrumented block, load or store), re-entrant writers, scheduler (one thread: blocking for ever is reported)",
};
const DEEP: usize = 3;
/// calls that may be in progress at the same time on the main stack, with more
/// than what C14 allows each of them
fn levels() -> usize {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_STACK, &mut l);
        (l.rlim_cur / (1 << 20)).clamp(2, 400) as usize - 1
    }
}
fn plan(r: &mut Rng, p: &mut Plan) {
    let lim = *r.pick(&[40i64, 40, 100, 100, 600]);
    let n = 1 + r.usize(5);
    let menu = gen::menu(r, n, lim);
    p.put("sweep", r.chance(1, 6) as u64);
    let mut id = 0;
    // (id, depth, render)
    let mut nodes: Vec<(u64, usize, bool)> = vec![];
    for _ in 0..1 + r.usize(4) {
        id += 1;
        let o = &menu[r.usize(menu.len())];
        p.item(format!("call\t{id}\t0\t-\t0\t{}", o.text()));
        nodes.push((id, 0, o.is_render()));
    }
    // a chain of renderings, each from the writer of the one before
    if r.chance(1, 40) {
        let mut texts: Vec<&crate::op::Op> = menu.iter().filter(|o| o.is_render()).collect();
        let m = gen::Mix { num: 0, parse: 0, bytes: 0, render: 1, lim, nums: vec![], render_any: false };
        let pool = gen::Pool::new(r, 2, Some(40));
        let extra = [gen::op(r, &m, &pool), gen::op(r, &m, &pool)];
        texts.extend(extra.iter());
        let mut par = 0;
        for i in 0..4 + r.log(150) {
            id += 1;
            let o = *r.pick(&texts);
            p.item(format!("call\t{id}\t{par}\t{}\t{}\t{}", if i == 0 { '-' } else { 'w' }, 0, o.text()));
            par = id;
        }
        return;
    }
    // a handler interrupted by the same handler, and so on
    if r.chance(1, 40) {
        let calls: Vec<&crate::op::Op> = menu.iter().filter(|o| !o.is_render()).collect();
        if !calls.is_empty() {
            let mut par = nodes[0].0;
            for _ in 0..3 + r.log(40) {
                id += 1;
                let o = *r.pick(&calls);
                let (how, at) = if !focus::focus().is_empty() && r.chance(2, 3) { ('s', r.log(8) << 8) } else { ('i', r.u64() >> 24) };
                p.item(format!("call\t{id}\t{par}\t{how}\t{at}\t{}", o.text()));
                par = id;
            }
            return;
        }
    }
    for _ in 0..1 + r.usize(6) {
        let (par, d, rend) = nodes[r.usize(nodes.len())];
        let o = &menu[r.usize(menu.len())];
        let mut how = if rend && (o.is_render() || r.chance(1, 2)) { 'w' } else { 'i' };
        if how == 'i' && !focus::focus().is_empty() && r.chance(2, 3) {
            how = 's';
        }
        if d >= DEEP || (how != 'w' && o.is_render()) {
            continue;
        }
        id += 1;
        let at = match how {
            'w' => r.below(4),
            // the access to retained state, and steps after it
            's' => r.log(40) << 8 | if r.chance(1, 2) { 0 } else { r.log(200) },
            _ if r.chance(1, 3) => r.log(5000),
            _ => r.u64() >> 24,
        };
        p.item(format!("call\t{id}\t{par}\t{how}\t{at}\t{}", o.text()));
        nodes.push((id, d + 1, o.is_render()));
    }
}
struct Node {
    op: Op,
    g: Arc<Gold>,
    at: u64,
    intr: Vec<Node>,
    /// at accesses to retained state
    touch: Vec<Node>,
    write: Vec<Node>,
}
struct Frame {
    intr: *const Vec<Node>,
    touch: *const Vec<Node>,
    next: usize,
    tnext: usize,
    touches: u64,
    due: u64,
    base: u64,
    only: u64, // sweep: the step of the first interrupt, NEVER: all as planned
}
struct Done {
    text: String,
    got: Vec<u8>,
    want: Arc<Gold>,
    depth: usize,
}
static mut FRAMES: Vec<Frame> = vec![];
static mut DONE: Vec<Done> = vec![];
#[allow(static_mut_refs)]
fn frames() -> &'static mut Vec<Frame> {
    unsafe { &mut FRAMES }
}
#[allow(static_mut_refs)]
fn done() -> &'static mut Vec<Done> {
    unsafe { &mut DONE }
}
impl Frame {
    fn at(&self) -> u64 {
        if self.only != sched::NEVER {
            return if self.next == 0 { self.base + self.only } else { sched::NEVER };
        }
        match unsafe { (&*self.intr).get(self.next) } {
            Some(n) => (self.base + n.at).min(self.due),
            None => self.due,
        }
    }
}
/// an access to retained state is about to happen
fn touched() {
    let Some(f) = frames().last_mut() else { return };
    f.touches += 1;
    if let Some(n) = unsafe { (&*f.touch).get(f.tnext) } {
        if f.due == sched::NEVER && n.at >> 8 <= f.touches {
            let c = hooks::ctx();
            f.due = c.steps + (n.at & 255);
            c.intr_at = f.at();
        }
    }
}
fn handler() -> u64 {
    let d = frames().len();
    let f = frames().last_mut().unwrap();
    let n = if f.due <= hooks::ctx().steps {
        f.due = sched::NEVER;
        f.tnext += 1;
        unsafe { &(&*f.touch)[f.tnext - 1] }
    } else {
        f.next += 1;
        unsafe { &(&*f.intr)[f.next - 1] }
    };
    crate::st!(interrupts);
    if d > 1 {
        crate::st!(nested_interrupts);
    }
    if d < levels() {
        go(n, sched::NEVER);
    }
    frames().last().unwrap().at()
}
struct Reent<'a> {
    out: Fixed,
    calls: u64,
    kids: &'a Vec<Node>,
}
impl Write for Reent<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let i = self.calls;
        self.calls += 1;
        for k in self.kids.iter().filter(|k| k.at == i) {
            if frames().len() >= levels() {
                break;
            }
            let _o = hooks::suspend();
            crate::st!(reentries);
            let c = hooks::ctx();
            let save = *c;
            c.intr_at = sched::NEVER;
            go(k, sched::NEVER);
            let c = hooks::ctx();
            let lib = c.in_lib;
            *c = save;
            c.in_lib = lib;
            sched::refresh();
        }
        self.out.write_str(s)
    }
}
/// run one call with its interruptions
fn go(n: &Node, only: u64) {
    let mut sink = Reent { out: Fixed::new(if let Op::Render { spec, .. } = &n.op { op::render_cap(spec) } else { 0 }), calls: 0, kids: &n.write };
    let c = hooks::ctx();
    frames().push(Frame { intr: &n.intr, touch: &n.touch, next: 0, tnext: 0, touches: 0, due: sched::NEVER, base: c.steps, only });
    let (ol, os, oi, ot) = (c.limit, c.op_start, c.intr_at, (c.touch, c.watch));
    c.touch = !n.touch.is_empty() && only == sched::NEVER;
    c.watch = c.touch;
    c.op_start = c.steps;
    c.limit = c.steps + n.g.steps * 4 + 200_000;
    c.intr_at = if n.intr.is_empty() { sched::NEVER } else { frames().last().unwrap().at() };
    sched::refresh();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _l = hooks::enter();
        op::call(&n.op, &mut sink)
    }));
    let c = hooks::ctx();
    let steps = c.steps - c.op_start;
    c.limit = ol;
    c.op_start = os;
    c.intr_at = oi;
    (c.touch, c.watch) = ot;
    sched::refresh();
    frames().pop();
    crate::st!(ops);
    crate::st!(lib_steps, steps);
    let got = match r {
        Err(_) => Res::Panic,
        Ok((_, Some(ok))) => Res::Text(sink.out.bytes().to_vec(), ok),
        Ok((o, None)) => Res::Out(o),
    };
    done().push(Done { text: n.op.text(), got: got.bytes(), want: n.g.clone(), depth: frames().len() });
}
fn build(p: &Plan) -> Result<Vec<Node>, Viol> {
    let mut gs = Goldens::default();
    let mut flat: Vec<(u64, u64, char, Option<Node>)> = vec![];
    for it in &p.items {
        let f = fields(it);
        if f[0] != "call" {
            continue;
        }
        let (Some(id), Some(par), Some(at), Some(o)) = (num::<u64>(&f, 1), num::<u64>(&f, 2), num::<u64>(&f, 4), f.get(5).and_then(|x| Op::parse(x))) else { continue };
        // not text: nothing to call
        if let Op::Parse { text, .. } = &o {
            if std::str::from_utf8(text).is_err() {
                continue;
            }
        }
        let g = gs.get(&o)?;
        flat.push((id, par, f[3].chars().next().unwrap_or('-'), Some(Node { op: o, g, at, intr: vec![], touch: vec![], write: vec![] })));
    }
    // children come after their parents
    for i in (0..flat.len()).rev() {
        let (_, par, how, _) = flat[i];
        if par == 0 {
            continue;
        }
        let mut n = flat[i].3.take().unwrap();
        let Some(j) = (0..i).find(|&j| flat[j].0 == par) else { continue };
        let q = flat[j].3.as_mut().unwrap();
        match how {
            'w' => q.write.insert(0, n),
            'i' if !n.op.is_render() => {
                n.at = 1 + n.at % q.g.steps.max(1);
                q.intr.insert(0, n);
                q.intr.sort_by_key(|n| n.at);
            }
            's' if !n.op.is_render() => {
                q.touch.insert(0, n);
                q.touch.sort_by_key(|n| n.at);
            }
            _ => {}
        }
    }
    Ok(flat.into_iter().filter_map(|f| f.3).collect())
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let top = build(p)?;
    unsafe { sched::HANDLER = Some(handler) };
    unsafe { sched::TOUCH = Some(touched) };
    let sweep = p.num("sweep", 0) == 1;
    for n in &top {
        if sweep && !n.intr.is_empty() && n.g.steps < 2_000_000 {
            let stride = (n.g.steps / 250).max(1);
            let mut s = 1 + p.run % stride;
            while s <= n.g.steps {
                go(n, s);
                s += stride;
                judge(run)?;
            }
        } else {
            go(n, sched::NEVER);
        }
        judge(run)?;
    }
    Ok(())
}
fn judge(run: &mut Run) -> Result<(), Viol> {
    for d in done().drain(..) {
        run.rec(&d.got);
        run.rec_n(d.depth as u64);
        run.nontrivial |= d.depth > 0;
        run.log(|| format!("depth {}: {} -> {}", d.depth, d.text, res_show(&d.got)));
        if d.got != d.want.res {
            let what = if d.depth > 0 { "run inside an interrupted call" } else { "interrupted or re-entered" };
            return viol("result", format!("{} gives {} when {what}, {} alone", d.text, res_show(&d.got), res_show(&d.want.res)), d.text);
        }
    }
    Ok(())
}
