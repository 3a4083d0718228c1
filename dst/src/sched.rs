//! Scheduler: real threads, one of which runs at a time. Who runs next is
//! decided here only, at basic blocks, loads and stores of the library, at
//! call boundaries, and when a thread blocks.
use crate::hooks::{ctx, raw_syscall};
use crate::rng::Rng;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const NEVER: u64 = u64::MAX;
/// marks a switch between two calls
pub const BETWEEN: u64 = 1 << 62;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Ready,
    Blocked,
    Stalled,
    Done,
}
struct Th {
    gate: AtomicU32,
    state: State,
    addr: usize,
    timed: bool,
    woken: i64,
    prio: u64,
    stall_left: u64,
    points: VecDeque<(u64, i32)>, // explicit: (step, next)
    bpoints: VecDeque<(u64, i32)>, // same, between calls
}
#[derive(Clone, Debug, PartialEq)]
pub enum Strat {
    Explicit,
    /// mean gap between preemptions
    Random(u64),
    /// priorities with change points (thread, step)
    Pct,
    /// preempt at shared accesses with probability num/16
    Shared(u64),
    /// the same, at accesses to state the library retains between calls only
    Retained(u64),
    /// stall at such accesses
    StallRetained(u64),
    /// long stalls at the given points
    Stall,
    Boundary,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sw {
    pub tid: i32,
    pub step: u64, // NEVER: the thread ended or blocked
    pub next: i32,
}
pub struct Sched {
    on: bool,
    solo: bool,
    cur: i32,
    th: Vec<Th>,
    main: AtomicU32,
    strat: Strat,
    rng: Rng,
    voluntary: VecDeque<(i32, i32)>,
    pub trace: Vec<Sw>,
    pub preempts: u64,
    max_preempts: u64,
    run_forever_stall: bool,
    lib_only: bool,
}
static mut S: Option<Sched> = None;
fn s() -> &'static mut Sched {
    unsafe { (*std::ptr::addr_of_mut!(S)).as_mut().unwrap() }
}
pub type OnFail = fn(&'static str, String) -> !;
static mut FAIL: Option<OnFail> = None;
pub fn set_fail(f: OnFail) {
    unsafe { FAIL = Some(f) }
}
pub fn fail(class: &'static str, msg: String) -> ! {
    ctx().in_lib = 0;
    unsafe { FAIL.unwrap()(class, msg) }
}

fn wait(g: &AtomicU32) {
    unsafe {
        while g.load(SeqCst) == 0 {
            raw_syscall(libc::SYS_futex, g as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
    g.store(0, SeqCst);
}
fn wake(g: &AtomicU32) {
    g.store(1, SeqCst);
    unsafe { raw_syscall(libc::SYS_futex, g as *const _ as i64, 129, 1, 0, 0, 0) };
}

/// Is the calling thread under simulation?
pub fn managed() -> bool {
    unsafe {
        match &*std::ptr::addr_of!(S) {
            None => false,
            Some(x) => (x.on && ctx().tid >= 0) || (x.solo && ctx().in_lib > 0),
        }
    }
}
/// One caller, nobody else: blocking for ever is reported at once.
pub fn solo() {
    unsafe {
        S = Some(Sched {
            on: false,
            solo: true,
            cur: -1,
            th: vec![],
            main: AtomicU32::new(0),
            strat: Strat::Boundary,
            rng: Rng::new(&[0]),
            voluntary: VecDeque::new(),
            trace: vec![],
            preempts: 0,
            max_preempts: 0,
            run_forever_stall: false,
            lib_only: false,
        });
    }
}

impl Sched {
    fn demote(&mut self, tid: i32) {
        let low = self.th.iter().map(|t| t.prio).min().unwrap();
        self.th[tid as usize].prio = low.saturating_sub(1);
    }
    fn ready(&self) -> Vec<i32> {
        (0..self.th.len()).filter(|&i| self.th[i].state == State::Ready).map(|i| i as i32).collect()
    }
    /// choose somebody when the current thread cannot go on
    fn choose(&mut self, me: i32) -> Option<i32> {
        let r = self.ready();
        if r.is_empty() {
            return None;
        }
        Some(match self.strat {
            Strat::Explicit => {
                // the next recorded voluntary switch of this thread
                match self.voluntary.iter().position(|v| v.0 == me) {
                    Some(i) => {
                        let n = self.voluntary.remove(i).unwrap().1;
                        if r.contains(&n) {
                            n
                        } else {
                            r[0]
                        }
                    }
                    None => r[0],
                }
            }
            Strat::Pct => *r.iter().max_by_key(|&&i| self.th[i as usize].prio).unwrap(),
            // the ones to be stopped come first
            _ if self.run_forever_stall => r[0],
            _ => *self.rng.pick(&r),
        })
    }
    /// another ready thread to preempt `me` with
    fn other(&mut self, me: i32) -> Option<i32> {
        let r: Vec<i32> = self.ready().into_iter().filter(|&i| i != me).collect();
        if r.is_empty() {
            return None;
        }
        Some(match self.strat {
            Strat::Pct => *r.iter().max_by_key(|&&i| self.th[i as usize].prio).unwrap(),
            _ => *self.rng.pick(&r),
        })
    }
    fn next_point(&mut self, tid: i32, now: u64) -> u64 {
        if self.preempts >= self.max_preempts && self.strat != Strat::Explicit {
            return NEVER;
        }
        match self.strat {
            Strat::Explicit | Strat::Pct | Strat::Stall => {
                let q = &mut self.th[tid as usize].points;
                while let Some(&(p, _)) = q.front() {
                    if p > now {
                        return p;
                    }
                    q.pop_front();
                }
                NEVER
            }
            Strat::Random(g) => {
                // gaps spread over several orders of magnitude around g
                let b = self.rng.below(2 * g) + 1;
                now + if self.rng.chance(1, 4) { 1 + b / 16 } else { b }
            }
            _ => NEVER,
        }
    }
    fn switch(&mut self, me: i32, to: i32) {
        self.cur = to;
        let g = &self.th[to as usize].gate;
        wake(g);
        if me >= 0 {
            wait(&self.th[me as usize].gate);
        }
    }
    fn unstall(&mut self) {
        if self.run_forever_stall {
            return;
        }
        let any = self.th.iter().any(|t| t.state == State::Ready);
        for t in self.th.iter_mut() {
            if t.state == State::Stalled {
                t.stall_left = t.stall_left.saturating_sub(1);
                if t.stall_left == 0 || !any {
                    t.state = State::Ready;
                }
            }
        }
    }
    /// the current thread is done, blocked or stalled
    fn leave(&mut self, me: i32) {
        self.unstall();
        let n = match self.choose(me) {
            Some(n) => n,
            None => {
                // nobody can run: let a timed wait expire
                if let Some(i) = (0..self.th.len()).find(|&i| self.th[i].state == State::Blocked && self.th[i].timed) {
                    self.th[i].state = State::Ready;
                    self.th[i].woken = -(libc::ETIMEDOUT as i64);
                    unsafe { crate::hooks::HOST.clock_ns += 1_000_000_000 };
                    i as i32
                } else if self.th.iter().all(|t| matches!(t.state, State::Done | State::Stalled)) {
                    wake(&self.main);
                    if self.th[me as usize].state != State::Done {
                        wait(&self.th[me as usize].gate);
                    }
                    return;
                } else {
                    let w: Vec<String> = (0..self.th.len()).map(|i| format!("caller {i}: {:?}", self.th[i].state)).collect();
                    fail("deadlock", format!("no caller can make progress ({})", w.join(", ")));
                }
            }
        };
        self.trace.push(Sw { tid: me, step: NEVER, next: n });
        if n == me {
            return;
        }
        if self.th[me as usize].state == State::Done {
            self.cur = n;
            wake(&self.th[n as usize].gate);
        } else {
            self.switch(me, n);
        }
    }
    fn preempt(&mut self, me: i32, to: i32, step: u64) {
        self.trace.push(Sw { tid: me, step, next: to });
        self.preempts += 1;
        crate::st!(preemptions);
        self.switch(me, to);
    }
}

pub fn refresh() {
    let c = ctx();
    c.next = c.limit.min(c.intr_at).min(c.sw_at);
}
/// Called from the instrumentation when a thread reaches its next point of
/// interest.
pub fn on_slow(kind: u8, addr: usize) {
    let c = ctx();
    if c.steps >= c.limit && c.patience > 0 && c.tid >= 0 {
        // perhaps it waits for somebody: let the others go on
        c.patience -= 1;
        c.limit = c.steps.saturating_add(c.extend);
        unsafe { S.as_mut().unwrap().demote(c.tid) };
        yield_now();
    }
    let c = ctx();
    if c.steps >= c.limit {
        let n = c.steps - c.op_start;
        fail("steps", format!("call did not finish within its step bound ({n} steps so far)"));
    }
    if c.touch && kind != crate::hooks::BLOCK && crate::focus::ranges().hit(addr) {
        if let Some(t) = unsafe { TOUCH } {
            t();
        }
    }
    if c.steps >= c.intr_at {
        c.intr_at = NEVER;
        if let Some(h) = unsafe { HANDLER } {
            let save = *c;
            c.in_lib = 0;
            c.next = NEVER;
            let intr = h();
            let c = ctx();
            *c = save;
            c.intr_at = intr;
        }
    }
    if c.tid >= 0 {
        let save = c.in_lib;
        c.in_lib = 0;
        sched_point(kind, addr);
        let c = ctx();
        c.in_lib = save;
    }
    refresh();
}
/// runs as a simulated signal handler; returns the step of the next interrupt
pub static mut HANDLER: Option<fn() -> u64> = None;
/// told about accesses to state the library retains between calls
pub static mut TOUCH: Option<fn()> = None;

fn shared_addr(kind: u8, addr: usize) -> bool {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    let (lo, hi) = (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize);
    if addr >= lo && addr < hi {
        return true;
    }
    if kind != crate::hooks::STORE {
        return false;
    }
    // a store to anything that is not on this thread's stack
    let c = ctx();
    addr < c.stack_lo || addr > c.stack_hi
}
fn sched_point(kind: u8, addr: usize) {
    let x = s();
    let c = ctx();
    let me = c.tid;
    let step = c.steps;
    if step >= c.sw_at {
        match x.strat.clone() {
            Strat::Explicit => {
                let q = &mut x.th[me as usize].points;
                if let Some(&(p, n)) = q.front() {
                    if p <= step {
                        q.pop_front();
                        if n <= -2 {
                            stall_here(-n - 2);
                        } else if n != me && (n as usize) < x.th.len() && x.th[n as usize].state == State::Ready {
                            x.preempt(me, n, step);
                        }
                    }
                }
            }
            Strat::Stall => {
                let q = &mut x.th[me as usize].points;
                if let Some(&(p, n)) = q.front() {
                    if p <= step {
                        q.pop_front();
                        stall_here(n.max(0));
                    }
                }
            }
            Strat::Pct => {
                x.demote(me);
                if let Some(n) = x.other(me) {
                    if x.th[n as usize].prio > x.th[me as usize].prio {
                        x.preempt(me, n, step);
                    }
                }
            }
            _ => {
                if let Some(n) = x.other(me) {
                    x.preempt(me, n, step);
                }
            }
        }
        let c = ctx();
        c.sw_at = x.next_point(me, c.steps);
    } else if c.watch && kind != crate::hooks::BLOCK && (matches!(x.strat, Strat::Retained(_) | Strat::StallRetained(_)) || shared_addr(kind, addr)) {
        if let Strat::StallRetained(p) = x.strat {
            // all but the last caller
            if me + 1 < x.th.len() as i32 && crate::focus::ranges().hit(addr) && x.rng.chance(p, 16) {
                stall_here(0);
            }
            return;
        }
        if let Strat::Shared(p) | Strat::Retained(p) = x.strat {
            if matches!(x.strat, Strat::Retained(_)) && !crate::focus::ranges().hit(addr) {
                return;
            }
            if x.preempts < x.max_preempts && x.rng.chance(p, 16) {
                if let Some(n) = x.other(me) {
                    crate::st!(shared_preemptions);
                    x.preempt(me, n, step);
                }
            }
        }
    }
}
/// stall the current thread for `n` scheduling events (0: for ever)
fn stall_here(n: i32) {
    let x = s();
    let me = ctx().tid;
    x.th[me as usize].state = State::Stalled;
    x.th[me as usize].stall_left = n as u64;
    crate::st!(stalls);
    // recorded so that a replay stalls at the same step
    x.trace.push(Sw { tid: me, step: ctx().steps, next: -2 - n });
    x.leave(me);
}

/// between two calls of a thread
pub fn boundary() {
    let x = s();
    let c = ctx();
    let me = c.tid;
    if me < 0 || !x.on {
        return;
    }
    let step = c.steps;
    let go = match x.strat {
        Strat::Explicit => {
            let q = &mut x.th[me as usize].bpoints;
            match q.front() {
                Some(&(p, n)) if p <= step => {
                    q.pop_front();
                    Some(n)
                }
                _ => None,
            }
        }
        Strat::Boundary => {
            if x.rng.chance(1, 2) {
                x.other(me)
            } else {
                None
            }
        }
        Strat::Random(_) | Strat::Shared(_) | Strat::Retained(_) => {
            if x.rng.chance(1, 8) {
                x.other(me)
            } else {
                None
            }
        }
        _ => None,
    };
    if let Some(n) = go {
        if n >= 0 && n != me && (n as usize) < x.th.len() && x.th[n as usize].state == State::Ready {
            crate::st!(op_boundary_switches);
            x.preempt(me, n, step | BETWEEN);
        } else if n <= -2 {
            stall_here(-n - 2);
        }
        let c = ctx();
        c.sw_at = x.next_point(me, c.steps);
        refresh();
    }
}
/// sched_yield, sleeping
pub fn yield_now() {
    let x = s();
    let c = ctx();
    // waiting costs steps, so that waiting for ever is noticed
    c.steps += 50;
    if c.steps >= c.limit && c.patience == 0 {
        fail("steps", "call keeps waiting for another caller".into());
    }
    if !x.on || c.tid < 0 {
        return;
    }
    let me = c.tid;
    x.unstall();
    let to = if x.strat == Strat::Explicit { x.choose(me) } else { x.other(me) };
    if let Some(n) = to {
        if n == me {
            return;
        }
        let step = c.steps;
        let save = c.in_lib;
        c.in_lib = 0;
        x.trace.push(Sw { tid: me, step: NEVER, next: n });
        let _ = step;
        x.switch(me, n);
        ctx().in_lib = save;
    }
}
pub unsafe fn futex(addr: usize, op: i64, val: i64, timeout: i64, bitset: i64) -> i64 {
    let x = s();
    let _ = bitset;
    let word = &*(addr as *const AtomicU32);
    match op & 0x7f {
        0 | 9 => {
            if word.load(SeqCst) != val as u32 {
                return -(libc::EAGAIN as i64);
            }
            crate::st!(futex_waits);
            if x.on && ctx().tid >= 0 {
                let me = ctx().tid;
                let save = ctx().in_lib;
                ctx().in_lib = 0;
                let t = &mut x.th[me as usize];
                t.state = State::Blocked;
                t.addr = addr;
                t.timed = timeout != 0;
                t.woken = 0;
                x.leave(me);
                ctx().in_lib = save;
                return s().th[me as usize].woken;
            }
            if timeout != 0 {
                crate::hooks::HOST.clock_ns += 1_000_000_000;
                return -(libc::ETIMEDOUT as i64);
            }
            fail("deadlock", "call waits for something only its own caller could release".into());
        }
        1 | 10 => {
            let mut n = 0;
            for t in x.th.iter_mut() {
                if n < val && t.state == State::Blocked && t.addr == addr {
                    t.state = State::Ready;
                    t.woken = 0;
                    n += 1;
                }
            }
            n
        }
        _ => -(libc::ENOSYS as i64),
    }
}

pub struct Setup {
    pub strat: Strat,
    pub seed: u64,
    pub max_preempts: u64,
    pub points: Vec<Sw>, // explicit schedule, or change/stall points
    pub stall_for_ever: bool,
    pub start: i32,
}
/// Run the bodies as threads under the simulated scheduler.
pub fn run_threads(setup: Setup, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Vec<Sw> {
    let n = bodies.len();
    let mut rng = Rng::new(&[setup.seed, 0x5c4ed]);
    let mut prios: Vec<u64> = (0..n as u64).map(|i| 1_000_000 + i * 1000).collect();
    rng.shuffle(&mut prios);
    let mut th: Vec<Th> = (0..n)
        .map(|i| Th { gate: AtomicU32::new(0), state: State::Ready, addr: 0, timed: false, woken: 0, prio: prios[i], stall_left: 0, points: VecDeque::new(), bpoints: VecDeque::new() })
        .collect();
    let mut voluntary = VecDeque::new();
    for w in &setup.points {
        if w.tid < 0 || w.tid as usize >= n {
            continue;
        }
        if w.step == NEVER {
            voluntary.push_back((w.tid, w.next));
        } else if w.step & BETWEEN != 0 {
            th[w.tid as usize].bpoints.push_back((w.step & !BETWEEN, w.next));
        } else {
            th[w.tid as usize].points.push_back((w.step, w.next));
        }
    }
    if setup.strat != Strat::Explicit {
        for t in th.iter_mut() {
            t.points.make_contiguous().sort();
        }
    }
    let watch = matches!(setup.strat, Strat::Shared(_) | Strat::Retained(_) | Strat::StallRetained(_));
    let mut sch = Sched {
        on: true,
        solo: false,
        cur: 0,
        th,
        main: AtomicU32::new(0),
        strat: setup.strat,
        rng,
        voluntary,
        trace: vec![],
        preempts: 0,
        max_preempts: setup.max_preempts,
        run_forever_stall: setup.stall_for_ever,
        lib_only: false,
    };
    let _ = sch.lib_only;
    let first = if sch.strat == Strat::Explicit || setup.start >= 0 { setup.start.clamp(0, n as i32 - 1) } else { sch.rng.usize(n) as i32 };
    sch.trace.push(Sw { tid: -1, step: 0, next: first });
    unsafe {
        S = Some(sch);
        crate::hooks::SLOW = on_slow;
    }
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    wait(&s().th[i].gate);
                    crate::hooks::set_stack_bounds();
                    let c = ctx();
                    c.tid = i as i32;
                    c.watch = watch;
                    c.sw_at = s().next_point(i as i32, 0);
                    refresh();
                    b();
                    let c = ctx();
                    c.in_lib = 0;
                    c.sw_at = NEVER;
                    c.watch = false;
                    c.limit = NEVER;
                    refresh();
                    let x = s();
                    x.th[i].state = State::Done;
                    x.leave(i as i32);
                    ctx().tid = -1;
                })
                .unwrap(),
        );
    }
    let x = s();
    x.cur = first;
    wake(&x.th[first as usize].gate);
    wait(&x.main);
    let all_done = x.th.iter().all(|t| t.state == State::Done);
    if all_done {
        for h in hs {
            let _ = h.join();
        }
    }
    let t = std::mem::take(&mut s().trace);
    unsafe { S = None };
    solo();
    t
}
pub fn take_trace() -> Vec<Sw> {
    unsafe {
        match (*std::ptr::addr_of_mut!(S)).as_mut() {
            Some(s) => std::mem::take(&mut s.trace),
            None => vec![],
        }
    }
}
