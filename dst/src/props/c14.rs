//! Calls run in a small, fixed amount of stack.
use super::c05::Goldens;
use super::*;
use crate::gen;
use std::fmt::Write;

pub static PROP: Prop = Prop {
    id: "C14",
    gen: plan,
    exec,
    quick: 20_000,
    build: "inst",
    rule: "a run is 100 unrelated calls (one in four) or 1-6 calls (a third of them with texts of up to 250,000 digits, long runs of one character, widths and precisions up to 65,535), each made on a thread of its own whose stack is cut off by an inaccessible page, some of them on the deepest level of renderings nested in writers, or with a writer that unwinds; in one run of eight all of them also on a node running the unoptimised build; the stack is zeroed before and searched for the deepest trace afterwards; the result must be that of a fresh process and the depth within the fixed bound; non-trivial: every run; distinct by the hash of calls and results",
    real: "f256 in two builds (all operations), core::fmt, std threads and unwinding",
    simulated: "size of the stack, writers that unwind or render",
};
/// Stack a call may need, in an optimised and in an unoptimised build.
/// The default of a thread is 2 MiB.
const BOUND: usize = 512 << 10;
const BOUND_DBG: usize = 3 << 19;
/// what the harness itself needs above and below a call
const OWN: usize = 64 << 10;

fn extreme(r: &mut Rng) -> Op {
    // the exact algorithm takes time, so only some of these may get there
    let huge = r.chance(1, 60);
    let slow = r.chance(1, 300);
    let n = r.log(if huge { 250_000 } else if slow { 300 } else { 5000 }) as usize;
    match r.below(8) {
        0..=3 => {
            let mut t = String::new();
            t += *r.pick(&["", "", "-", "+"]);
            let c = *r.pick(&["0", "0", "9", "1", "5", "0.", ".0", "e0", "-", " ", "1e", "12345678", "00000000", "é", "_"]);
            let head = *r.pick(&["", "", "1", "0.", "1.", ".", "9", "1e", "1e-", "0."]);
            let tail = if slow && !huge { *r.pick(&["e-20000", "e20000", "1e-6000", "1e9000"]) } else { *r.pick(&["", "", "1", "e5", "e-9", ".", ".5", "e-362000", "e562000", "5", "x", "inf"]) };
            t += head;
            while t.len() < n {
                t += c;
            }
            t += tail;
            let mut text = t.into_bytes();
            if r.chance(1, 8) {
                let i = r.usize(text.len().max(1)).min(text.len());
                text.splice(i..i, r.pick(&["1", ".", "e", "9", "-"]).bytes());
            }
            Op::Parse { how: r.below(4) as u8, text }
        }
        _ => {
            let bits = gen::value_within(r, *r.clone().pick(&[40, 100, 600, 80_000]));
            let kind = r.below(5) as u8;
            let w = if r.chance(1, 2) { Some(*r.clone().pick(&[65_535u16, 65_534, 4096, 20_000]) - r.below(100) as u16) } else { None };
            let p = if r.chance(1, 2) { Some(if r.chance(1, 2) { 65_535 - r.below(9) as u16 } else { r.log(65_535) as u16 }) } else { None };
            Op::Render { bits, spec: f256ops::Spec { kind, fill: *r.pick(&[' ', '*', '0', 'é', '🦀']), align: r.below(4) as u8, plus: r.chance(1, 3), zero: r.chance(1, 3), width: w, prec: p } }
        }
    }
}
/// a very long run of one character that is quickly read or refused
fn run_of(r: &mut Rng) -> Op {
    let n = 250_000 + r.below(1_750_000) as usize;
    let c = *r.pick(&["0", "0", "0", "9", "-", " ", ".", "x", "e", "é"]);
    let mut t = r.pick(&["", "", "-", "0.", ".", "1e", "1e-", "0e"]).to_string();
    t += &c.repeat(n / c.len());
    t += r.pick(&["", "1", "5.5", "e5", ".1", "e", "x"]);
    Op::Parse { how: r.below(4) as u8, text: t.into_bytes() }
}
fn plan(r: &mut Rng, p: &mut Plan) {
    let lim = if r.chance(1, 1500) { 80_000 } else { *r.pick(&[40i64, 100, 600]) };
    let n = 1 + r.usize(6);
    if lim < 1000 && r.chance(1, 8) {
        p.put("dbg", 1);
    }
    if r.chance(1, if p.num("dbg", 0) == 1 { 4 } else { 20 }) {
        p.item(format!("call\tplain\t0\t{}", run_of(r).text()));
    }
    if lim < 1000 && r.chance(1, 4) {
        p.put("bulk", 1);
        for o in gen::bulk(r, 100, lim.min(100)) {
            p.item(format!("call\t{}\t{}\t{}", if o.is_render() { "unwind" } else { "plain" }, r.log(60), o.text()));
        }
        return;
    }
    for o in gen::menu(r, n, lim) {
        let o = if r.chance(1, 3) { extreme(r) } else { o };
        let how = if o.is_render() { *r.pick(&["plain", "plain", "nested", "unwind"]) } else { "plain" };
        p.item(format!("call\t{how}\t{}\t{}", r.log(60), o.text()));
    }
}
struct Stack {
    base: usize,
    len: usize,
}
impl Stack {
    fn new(len: usize) -> Stack {
        unsafe {
            let guard = 1 << 20;
            let p = libc::mmap(std::ptr::null_mut(), len + guard, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            assert!(libc::mprotect(p, guard, libc::PROT_NONE) == 0);
            Stack { base: p as usize + guard, len }
        }
    }
    /// run on a thread with this stack; how much of it was needed?
    fn run<T>(&self, f: impl FnOnce() -> T) -> (T, usize) {
        struct Job<F, T> {
            f: Option<F>,
            out: Option<T>,
            top: usize,
        }
        extern "C" fn start<F: FnOnce() -> T, T>(j: *mut libc::c_void) -> *mut libc::c_void {
            let j = unsafe { &mut *(j as *mut Job<F, T>) };
            j.top = &j as *const _ as usize;
            j.out = Some((j.f.take().unwrap())());
            std::ptr::null_mut()
        }
        fn entry<F: FnOnce() -> T, T>(_: &F) -> extern "C" fn(*mut libc::c_void) -> *mut libc::c_void {
            start::<F, T>
        }
        let e = entry::<_, T>(&f);
        let mut j = Job { f: Some(f), out: None, top: 0 };
        unsafe {
            libc::madvise(self.base as *mut _, self.len, libc::MADV_DONTNEED);
            let mut a: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut a);
            assert!(libc::pthread_attr_setstack(&mut a, self.base as *mut _, self.len) == 0);
            let mut t: libc::pthread_t = std::mem::zeroed();
            assert!(libc::pthread_create(&mut t, &a, e, &mut j as *mut _ as *mut _) == 0);
            libc::pthread_join(t, std::ptr::null_mut());
            libc::pthread_attr_destroy(&mut a);
            let mut lo = self.base;
            // untouched pages are not resident
            let mut seen = vec![0u8; self.len / 4096];
            libc::mincore(self.base as *mut _, self.len, seen.as_mut_ptr());
            let first = seen.iter().position(|x| x & 1 == 1).unwrap_or(seen.len());
            lo += first * 4096;
            while lo < j.top && *(lo as *const u64) == 0 {
                lo += 8;
            }
            (j.out.take().unwrap(), j.top - lo)
        }
    }
}
/// renders a number on each level, the judged call on the deepest one
struct Nest<'a> {
    depth: u64,
    o: &'a Op,
    how: &'a str,
    room: usize,
    out: &'a mut Fixed,
    res: Option<Res>,
}
impl Write for Nest<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _o = hooks::suspend();
        match self.how {
            "nested" => {
                if self.res.is_none() {
                    self.depth = self.depth.saturating_sub(1);
                    if self.depth == 0 {
                        self.res = Some(op::run_into(self.o, self.out));
                    } else {
                        let x = outer(self.depth);
                        let _ = op::call(&x, self);
                    }
                }
                Ok(())
            }
            _ => {
                if s.len() > self.room {
                    crate::st!(w_unwind);
                    std::panic::panic_any(hooks::QUIET)
                }
                self.room -= s.len();
                Ok(())
            }
        }
    }
}
/// special values and numbers take different ways
fn outer(depth: u64) -> Op {
    let bits = match depth % 4 {
        0 => (0x3ffff_u128 << 108, 0),
        1 => (0x7ffff_u128 << 108, 0),
        2 => (0xbfffe_u128 << 108 | 5, 77),
        _ => (0x4000a_u128 << 108 | 123, 4),
    };
    Op::Render { bits, spec: f256ops::Spec { width: Some(if depth % 3 == 0 { 90 } else { 0 }), ..f256ops::Spec::plain(if depth % 5 == 4 { 1 } else { 0 }) } }
}
const LEVELS: u64 = 3;
/// the result and the stack needed per level
fn small(st: &Stack, o: &Op, how: &str, at: usize) -> (Vec<u8>, usize) {
    let levels = if how == "nested" { 1 + at as u64 % LEVELS } else { 0 };
    let mut sink = Fixed::new(if let Op::Render { spec, .. } = o { op::render_cap(spec) } else { 0 });
    let (b, used) = st.run(|| {
        let c = hooks::ctx();
        c.op_start = c.steps;
        c.limit = sched::NEVER;
        sched::refresh();
        let r = match how {
            "nested" => {
                let mut n = Nest { depth: levels, o, how, room: 0, out: &mut sink, res: None };
                let x = outer(levels);
                let _l = hooks::enter();
                let _ = op::call(&x, &mut n);
                n.res.unwrap_or(Res::Panic)
            }
            "unwind" => {
                let mut n = Nest { depth: 0, o, how, room: at, out: &mut sink, res: None };
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _l = hooks::enter();
                    op::call(o, &mut n)
                }));
                hooks::ctx().in_lib = 0;
                op::run_into(o, n.out)
            }
            _ => op::run_into(o, &mut sink),
        };
        hooks::ctx().in_lib = 0;
        r.bytes()
    });
    crate::st!(ops);
    crate::st!(small_stacks);
    (b, used / (levels as usize + 1))
}
fn judge(o: &Op, how: &str, b: &[u8], used: usize, bound: usize, want: &[u8], on: &str) -> Result<(), Viol> {
    hooks::stat_max(if bound == BOUND { hooks::St::stack_bytes_max } else { hooks::St::stack_bytes_max_dbg }, used as u64);
    if b != want {
        return viol("result", format!("{} ({how}) gives {} on a small stack{on}, {} in a fresh process", o.text(), res_show(b), res_show(want)), o.text());
    }
    if used > bound {
        return viol("stack", format!("{} ({how}) needs more than {bound} bytes of stack{on}", o.text()), o.text());
    }
    Ok(())
}
/// the same on a node of another build: one call per line
pub fn peer(t: &str) -> String {
    let st = Stack::new((LEVELS as usize + 1) * BOUND_DBG + OWN);
    let mut s = String::new();
    for l in t.lines() {
        let f = fields(l);
        if let (Some(how), Some(at), Some(o)) = (f.first(), num::<usize>(&f, 1), f.get(2).and_then(|x| Op::parse(x))) {
            let (b, used) = small(&st, &o, how, at);
            s += &format!("{used}\t{}", enc(&b));
        }
        s.push('\n');
    }
    s
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let mut gs = Goldens::default();
    let mut todo = vec![];
    if p.num("bulk", 0) == 1 {
        let all: Vec<Op> = p.items.iter().filter_map(|it| Op::parse(fields(it).get(3)?)).collect();
        gs.prepare(&all.iter().collect::<Vec<_>>());
    }
    for it in &p.items {
        let f = fields(it);
        let (Some(how), Some(at), Some(o)) = (f.get(1), num::<usize>(&f, 2), f.get(3).and_then(|x| Op::parse(x))) else { continue };
        if matches!(&o, Op::Parse { text, .. } if std::str::from_utf8(text).is_err()) {
            continue;
        }
        let g = gs.get(&o)?;
        todo.push((how.to_string(), at, o, g));
    }
    run.nontrivial = true;
    let flat = Stack::new(BOUND + OWN);
    let deep = Stack::new((LEVELS as usize + 1) * BOUND + OWN);
    for (how, at, o, g) in &todo {
        let (b, used) = small(if how == "nested" { &deep } else { &flat }, o, how, *at);
        run.rec(&b);
        run.log(|| format!("{} ({how}) -> {}, {used} bytes of stack", o.text(), res_show(&b)));
        judge(o, how, &b, used, BOUND, &g.res, "")?;
    }
    if p.num("dbg", 0) == 1 {
        // unoptimised code is slow
        todo.retain(|(_, _, _, g)| g.steps < 6_000_000);
        let inp: String = todo.iter().map(|(how, at, o, _)| format!("{how}\t{at}\t{}\n", o.text())).collect();
        let out = c11::ask("dbg", "stack", &inp)?;
        for ((how, _, o, g), l) in todo.iter().zip(out.lines()) {
            let f = fields(l);
            let (Some(used), Some(b)) = (num::<usize>(&f, 0), f.get(1).and_then(|x| dec(x))) else { continue };
            run.rec(&b);
            run.log(|| format!("{} ({how}) in build dbg -> {}, {used} bytes of stack", o.text(), res_show(&b)));
            judge(o, how, &b, used, BOUND_DBG, &g.res, " in an unoptimised build")?;
        }
    }
    Ok(())
}
