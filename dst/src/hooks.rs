//! Everything the library can reach outside its arguments: instrumentation
//! call-outs, allocator, host math, FP control word, clock, random source,
//! environment, blocking system calls. All simulated here, all passive unless
//! a run switches them on.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- statistics
macro_rules! stats {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types)] #[derive(Clone, Copy)]
        pub enum St { $($n),*, _N }
        pub const STAT_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
stats! {
    runs, items, ops, lib_steps, preemptions, shared_preemptions, op_boundary_switches, futex_waits, stalls,
    interrupts, nested_interrupts, reentries,
    w_fmt_error, w_fmt_partial_error, w_transient_error, w_short_write, w_eintr, w_wouldblock, w_enospc, w_zero, w_unwind, w_flush_error, w_buffer_full,
    renders_failed, renders_ok,
    r_short_read, r_eintr, r_would_block,
    net_loss, net_dup, net_reorder, net_delay, net_partition, net_retransmit, net_corrupt_dropped, net_ticks,
    d_truncate, d_bitflip, d_zeroblock, d_dupblock, d_swapblock, d_splice, d_lostblock, d_torn, d_mixed, d_stale, d_none,
    parse_ok, parse_err_invalid, parse_err_empty, utf8_rejected, guard_page_texts,
    alloc_refused_one, alloc_refused_from, alloc_refused_large, alloc_requests, alloc_oom_unwound, alloc_oom_reported, alloc_oom_survived, guard_page_allocs, dirty_fills, stack_fills,
    panics_documented, hist_ops, hist_failures, hist_storms, hist_alternations, small_stacks, stack_bytes_max, stack_bytes_max_dbg, probes,
    host_libm, host_fpcw, host_clock, host_random, host_env, builds_compared, libm_calls,
    replicas, deliveries, dup_deliveries, merges, pairs,
    crashes, torn_checkpoints, lost_checkpoints, restarts, other_build_segments, checkpoints, prog_steps,
    values, nan_values, nan_operands, subnormal_values, golden_forks, slow_parse, long_texts,
    asan_nodes, asan_calls, emu_nodes, emu_calls, emu_skipped,
}
pub struct Shared {
    pub stat: [AtomicU64; 256],
    pub cov: [u8; 1 << 16],
}
pub static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn init_shared() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        SHARED = p as *mut Shared;
    }
}
pub fn stat(s: St, n: u64) {
    unsafe {
        if !SHARED.is_null() {
            (*SHARED).stat[s as usize].fetch_add(n, Relaxed);
        }
    }
}
pub fn stat_max(s: St, k: u64) {
    unsafe { (*SHARED).stat[s as usize].fetch_max(k, Relaxed) };
}
#[macro_export]
macro_rules! st {
    ($n:ident) => { $crate::hooks::stat($crate::hooks::St::$n, 1) };
    ($n:ident, $k:expr) => { $crate::hooks::stat($crate::hooks::St::$n, $k as u64) };
}

// ---------------------------------------------------------- instrumentation
#[derive(Clone, Copy)]
pub struct Ctx {
    pub steps: u64,
    pub next: u64,
    pub limit: u64,
    pub intr_at: u64,
    pub sw_at: u64,
    pub op_start: u64,
    pub watch: bool,
    pub in_lib: u32,
    pub tid: i32,
    pub stack_lo: usize,
    pub stack_hi: usize,
    pub guard: u32,
    pub patience: u32,
    pub extend: u64,
    /// retained-state accesses are of interest
    pub touch: bool,
}
pub const CTX0: Ctx = Ctx { steps: 0, next: u64::MAX, limit: u64::MAX, intr_at: u64::MAX, sw_at: u64::MAX, op_start: 0, watch: false, in_lib: 0, tid: -1, stack_lo: 0, stack_hi: usize::MAX, guard: 0, patience: 0, extend: 0, touch: false };
#[thread_local]
pub static mut CTX: Ctx = CTX0;
pub static mut GUARDS: u32 = 0;
/// called when a thread reaches its `next` step, or stores to non-stack memory while watching
pub static mut SLOW: fn(kind: u8, addr: usize) = slow_none;
fn slow_none(_: u8, _: usize) {
    unsafe { CTX.next = u64::MAX }
}
pub const BLOCK: u8 = 0;
pub const LOAD: u8 = 1;
pub const STORE: u8 = 2;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    CTX.guard = *g;
    if !SHARED.is_null() {
        (*SHARED).cov[*g as usize & 0xffff] = 1;
    }
    CTX.steps += 1;
    if CTX.steps >= CTX.next {
        SLOW(BLOCK, 0);
    }
}
pub static mut ACCESS: usize = 0;
macro_rules! mem_hook {
    ($kind:expr; $($n:ident $size:literal)*) => {$(
        #[no_mangle] #[inline(never)] pub unsafe extern "C" fn $n(a: *const u8) {
            CTX.steps += 1;
            if CTX.steps >= CTX.next || (CTX.watch && ((a as usize) < CTX.stack_lo || (a as usize) > CTX.stack_hi)) {
                ACCESS = $size;
                SLOW($kind, a as usize);
            }
        }
    )*};
}
mem_hook!(LOAD; __sanitizer_cov_load1 1 __sanitizer_cov_load2 2 __sanitizer_cov_load4 4 __sanitizer_cov_load8 8 __sanitizer_cov_load16 16);
mem_hook!(STORE; __sanitizer_cov_store1 1 __sanitizer_cov_store2 2 __sanitizer_cov_store4 4 __sanitizer_cov_store8 8 __sanitizer_cov_store16 16);

pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *std::ptr::addr_of_mut!(CTX) }
}
pub fn set_stack_bounds() {
    let here = 0u8;
    let a = &here as *const u8 as usize;
    let c = ctx();
    c.stack_hi = a + (256 << 10);
    c.stack_lo = a.saturating_sub(7 << 20);
}

/// Marks library code: the simulated allocator and host apply inside only.
pub struct InLib(u32);
pub fn enter() -> InLib {
    let c = ctx();
    let o = c.in_lib;
    c.in_lib = o + 1;
    InLib(o)
}
/// Leave library code temporarily (inside a writer called by it).
pub fn suspend() -> InLib {
    let c = ctx();
    let o = c.in_lib;
    c.in_lib = 0;
    InLib(o)
}
impl Drop for InLib {
    fn drop(&mut self) {
        ctx().in_lib = self.0;
    }
}

// ----------------------------------------------------------------- allocator
pub struct AllocCfg {
    pub on: bool,
    pub guard: bool,
    pub fail_at: u64,
    pub fail_from: u64,
    /// requests larger than this are refused
    pub fail_above: usize,
    pub fill: u64,
    // ledger
    pub requests: u64,
    pub refused: u64,
    pub live: i64,
    pub live_bytes: i64,
    pub error: Option<&'static str>,
    bump: usize,
    used: usize,
}
pub static mut ALLOC: AllocCfg = AllocCfg {
    on: false,
    guard: false,
    fail_at: u64::MAX,
    fail_from: u64::MAX,
    fail_above: usize::MAX,
    fill: 0,
    requests: 0,
    refused: 0,
    live: 0,
    live_bytes: 0,
    error: None,
    bump: 0,
    used: 0,
};
pub fn alloc() -> &'static mut AllocCfg {
    unsafe { &mut *std::ptr::addr_of_mut!(ALLOC) }
}
static ARENA: AtomicUsize = AtomicUsize::new(0);
const ARENA_SIZE: usize = 1 << 30;
const PAGE: usize = 4096;
pub struct Sim;
#[global_allocator]
static GLOBAL: Sim = Sim;

fn arena() -> usize {
    let a = ARENA.load(Relaxed);
    if a != 0 {
        return a;
    }
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), ARENA_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED {
            libc::abort();
        }
        ARENA.store(p as usize, Relaxed);
        alloc().bump = p as usize;
        p as usize
    }
}
const MAGIC_LIVE: u64 = 0x11fe11fe_a110ca7e;
const MAGIC_FREE: u64 = 0xdeadf4eedeadf4ee;
const RZ: usize = 64;
#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    base: usize,
    total: usize,
    pad: [u64; 3],
}
impl AllocCfg {
    pub fn reset_counts(&mut self) {
        self.requests = 0;
        self.refused = 0;
    }
    fn err(&mut self, e: &'static str) {
        if self.error.is_none() {
            self.error = Some(e);
        }
    }
    /// forget everything in the arena (nothing may be live)
    pub fn recycle(&mut self) {
        let a = arena();
        if self.live == 0 {
            if self.guard && self.bump > a {
                unsafe {
                    libc::mprotect(a as *mut _, (self.bump - a + PAGE) & !(PAGE - 1), libc::PROT_READ | libc::PROT_WRITE);
                }
            }
            self.bump = a;
        }
    }
    unsafe fn get(&mut self, l: Layout) -> *mut u8 {
        let i = self.requests;
        self.requests += 1;
        if i == self.fail_at || i >= self.fail_from || l.size() > self.fail_above {
            self.refused += 1;
            return std::ptr::null_mut();
        }
        let a = arena();
        let (size, align) = (l.size(), l.align().max(16));
        let payload;
        if self.guard {
            // [header page(s) .. payload][PROT_NONE]
            let base = (self.bump + PAGE - 1) & !(PAGE - 1);
            let body = (std::mem::size_of::<Hdr>() + RZ + size + align + PAGE - 1) & !(PAGE - 1);
            let end = base + body;
            if end + PAGE > a + ARENA_SIZE {
                return std::ptr::null_mut();
            }
            payload = (end - size) & !(l.align() - 1);
            self.bump = end + PAGE;
            libc::mprotect(end as *mut _, PAGE, libc::PROT_NONE);
            // header at the start of the block; find it through the page base
            let h = base as *mut Hdr;
            *h = Hdr { magic: MAGIC_LIVE, size, align: l.align(), base: payload, total: body, pad: [0; 3] };
            // red zone between header and payload
            let lo = base + std::mem::size_of::<Hdr>();
            for q in lo..payload {
                *(q as *mut u8) = 0xA5;
            }
            for q in payload + size..end {
                *(q as *mut u8) = 0xA5;
            }
            crate::st!(guard_page_allocs);
        } else {
            let base = (self.bump + 63) & !63;
            let p = (base + std::mem::size_of::<Hdr>() + RZ + align - 1) & !(align - 1);
            let end = p + size + RZ;
            if end > a + ARENA_SIZE {
                return std::ptr::null_mut();
            }
            payload = p;
            self.bump = end;
            let h = (p - RZ - std::mem::size_of::<Hdr>()) as *mut Hdr;
            (h as *mut u8).write_bytes(0, 0);
            h.write_unaligned(Hdr { magic: MAGIC_LIVE, size, align: l.align(), base: p, total: end - base, pad: [0; 3] });
            ((p - RZ) as *mut u8).write_bytes(0xA5, RZ);
            ((p + size) as *mut u8).write_bytes(0xA5, RZ);
        }
        // dirty contents
        let mut x = self.fill ^ (i << 32) ^ size as u64;
        let mut q = payload;
        while q < payload + size {
            x = crate::rng::mix(x);
            *(q as *mut u8) = (x >> 24) as u8;
            q += 1;
        }
        self.live += 1;
        self.live_bytes += size as i64;
        self.used += size;
        payload as *mut u8
    }
    unsafe fn put(&mut self, p: *mut u8, l: Layout) {
        let h = if self.guard {
            // header is on the first page of the block: walk back to a page that starts with a live header for p
            let mut b = (p as usize) & !(PAGE - 1);
            loop {
                let h = b as *mut Hdr;
                if ((*h).magic == MAGIC_LIVE || (*h).magic == MAGIC_FREE) && (*h).base == p as usize {
                    break h;
                }
                if b <= arena() {
                    self.err("release of a pointer that was never handed out");
                    return;
                }
                b -= PAGE;
            }
        } else {
            (p as usize - RZ - std::mem::size_of::<Hdr>()) as *mut Hdr
        };
        let hd = h.read_unaligned();
        if hd.magic == MAGIC_FREE {
            self.err("memory released twice");
            return;
        }
        if hd.magic != MAGIC_LIVE || hd.base != p as usize {
            self.err("block header overwritten or wild pointer released");
            return;
        }
        if hd.size != l.size() || hd.align != l.align() {
            self.err("memory released with a different size or alignment than requested");
        }
        let (lo, hi) = if self.guard {
            (h as usize + std::mem::size_of::<Hdr>(), h as usize + hd.total)
        } else {
            (p as usize - RZ, p as usize + hd.size + RZ)
        };
        for q in (lo..p as usize).chain(p as usize + hd.size..hi) {
            if *(q as *const u8) != 0xA5 {
                self.err("write outside a heap block");
                break;
            }
        }
        (*h).magic = MAGIC_FREE;
        p.write_bytes(0xDD, hd.size);
        if self.guard {
            let pg = (h as usize + PAGE, h as usize + hd.total);
            if pg.0 < pg.1 {
                // keep the header page, take the rest away
                libc::mprotect(pg.0 as *mut _, pg.1 - pg.0, libc::PROT_NONE);
            }
        }
        self.live -= 1;
        self.live_bytes -= hd.size as i64;
    }
}
unsafe impl GlobalAlloc for Sim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ALLOC.on && CTX.in_lib > 0 {
            return alloc().get(l);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = ARENA.load(Relaxed);
        if a != 0 && (p as usize) >= a && (p as usize) < a + ARENA_SIZE {
            alloc().put(p, l);
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ALLOC.on && CTX.in_lib > 0 {
            let p = alloc().get(l);
            if !p.is_null() {
                p.write_bytes(0, l.size());
            }
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = ARENA.load(Relaxed);
        let ours = a != 0 && (p as usize) >= a && (p as usize) < a + ARENA_SIZE;
        if !ours && !(ALLOC.on && CTX.in_lib > 0) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
pub struct Oom;
pub fn install_panic_hooks() {
    std::alloc::set_alloc_error_hook(|_| {
        ctx().in_lib = 0;
        std::panic::resume_unwind(Box::new(Oom));
    });
    std::panic::set_hook(Box::new(|i| {
        // the panic machinery's own memory is not the library's
        let c = ctx();
        let was = c.in_lib;
        c.in_lib = 0;
        if was == 0 || unsafe { VERBOSE } {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            if msg != QUIET {
                eprintln!("panic at {loc}: {msg}");
            }
        }
    }));
}
pub static mut VERBOSE: bool = false;
/// payload of panics thrown on purpose by simulated writers
pub const QUIET: &str = "simulated unwind";

// ------------------------------------------------------------ simulated host
#[derive(Clone, Copy)]
pub struct Host {
    pub on: bool,
    pub libm_ulp: i64,
    pub libm_seed: u64,
    pub clock_ns: u64,
    pub clock_step: u64,
    pub random: u64,
    pub env: u64,
}
pub static mut HOST: Host = Host { on: false, libm_ulp: 0, libm_seed: 0, clock_ns: 0, clock_step: 0, random: 0, env: 0 };
fn sim_host() -> bool {
    unsafe { HOST.on && CTX.in_lib > 0 }
}
fn perturb(v: f64, x: f64) -> f64 {
    unsafe {
        if !sim_host() {
            return v;
        }
        crate::st!(libm_calls);
        if HOST.libm_ulp == 0 || v == 0.0 || !v.is_finite() {
            return v;
        }
        let d = match HOST.libm_ulp {
            9 => (crate::rng::mix(HOST.libm_seed ^ x.to_bits()) % 3) as i64 - 1,
            u => u,
        };
        f64::from_bits((v.to_bits() as i64 + d) as u64)
    }
}
fn perturbf(v: f32) -> f32 {
    unsafe {
        if !sim_host() || HOST.libm_ulp == 0 || v == 0.0 || !v.is_finite() {
            return v;
        }
        f32::from_bits((v.to_bits() as i32 + HOST.libm_ulp.clamp(-1, 1) as i32) as u32)
    }
}
unsafe fn next_sym(name: &'static [u8], slot: &AtomicUsize) -> usize {
    let mut p = slot.load(Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
        if p == 0 {
            // nothing else needed libm, so it is not linked
            let h = libc::dlopen(c"libm.so.6".as_ptr(), libc::RTLD_NOW);
            assert!(!h.is_null(), "libm");
            p = libc::dlsym(h, name.as_ptr() as *const _) as usize;
        }
        slot.store(p, Relaxed);
    }
    p
}
macro_rules! libm1 {
    ($($n:ident)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $n(x: f64) -> f64 {
            static S: AtomicUsize = AtomicUsize::new(0);
            let f: extern "C" fn(f64) -> f64 = std::mem::transmute(next_sym(concat!(stringify!($n), "\0").as_bytes(), &S));
            perturb(f(x), x)
        }
    )*};
}
macro_rules! libm1f {
    ($($n:ident)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $n(x: f32) -> f32 {
            static S: AtomicUsize = AtomicUsize::new(0);
            let f: extern "C" fn(f32) -> f32 = std::mem::transmute(next_sym(concat!(stringify!($n), "\0").as_bytes(), &S));
            perturbf(f(x))
        }
    )*};
}
macro_rules! libm2 {
    ($($n:ident)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $n(x: f64, y: f64) -> f64 {
            static S: AtomicUsize = AtomicUsize::new(0);
            let f: extern "C" fn(f64, f64) -> f64 = std::mem::transmute(next_sym(concat!(stringify!($n), "\0").as_bytes(), &S));
            perturb(f(x, y), x + y)
        }
    )*};
}
libm1!(log log2 log10 log1p exp exp2 expm1 sin cos tan asin acos atan sinh cosh tanh cbrt tgamma);
libm1f!(logf log2f log10f expf exp2f sinf cosf tanf cbrtf);
libm2!(pow atan2 hypot);

#[inline(always)]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && crate::sched::managed() {
        return ret(crate::sched::futex(a as usize, b, c, d, f));
    }
    if n == libc::SYS_getrandom && sim_host() {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::sched::managed() {
        crate::sched::yield_now();
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if crate::sched::managed() || sim_host() {
        HOST.clock_ns += (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        crate::sched::yield_now();
        return 0;
    }
    ret(raw_syscall(libc::SYS_nanosleep, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if crate::sched::managed() || sim_host() {
        HOST.clock_ns += (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        crate::sched::yield_now();
        return 0;
    }
    -(raw_syscall(libc::SYS_clock_nanosleep, c as i64, fl as i64, a as i64, b as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    if sim_host() {
        HOST.clock_ns = HOST.clock_ns.wrapping_add(HOST.clock_step);
        (*t).tv_sec = (HOST.clock_ns / 1_000_000_000) as i64 & 0x3fff_ffff_ffff;
        (*t).tv_nsec = (HOST.clock_ns % 1_000_000_000) as i64;
        crate::st!(host_clock);
        return 0;
    }
    ret(raw_syscall(libc::SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, fl: u32) -> isize {
    if sim_host() {
        for i in 0..n {
            HOST.random = crate::rng::mix(HOST.random);
            *b.add(i) = HOST.random as u8;
        }
        crate::st!(host_random);
        return n as isize;
    }
    ret(raw_syscall(libc::SYS_getrandom, b as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    if sim_host() {
        crate::st!(host_env);
        const V: [&[u8]; 5] = [b"1\0", b"0\0", b"de_DE.UTF-8\0", b"true\0", b"100000\0"];
        return match HOST.env % 6 {
            0 => std::ptr::null(),
            k => V[k as usize - 1].as_ptr() as *const _,
        };
    }
    static S: AtomicUsize = AtomicUsize::new(0);
    let f: extern "C" fn(*const libc::c_char) -> *const libc::c_char = std::mem::transmute(next_sym(b"getenv\0", &S));
    f(name)
}
/// load the real functions before anything forks
pub fn resolve_libm() {
    unsafe {
        std::hint::black_box(log2(std::hint::black_box(3.0)));
    }
}
pub fn set_mxcsr(v: u32) -> u32 {
    let mut old = 0u32;
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut old, options(nostack));
        std::arch::asm!("ldmxcsr [{}]", in(reg) &v, options(nostack));
    }
    old
}
/// overwrite a good part of the stack below the caller with a pattern
#[inline(never)]
pub fn fill_stack(seed: u64, bytes: usize) {
    #[inline(never)]
    fn rec(seed: u64, left: usize) -> u64 {
        let mut a = [0u64; 2048];
        let mut x = seed;
        for v in a.iter_mut() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            unsafe { std::ptr::write_volatile(v, x) };
        }
        let r = if left > a.len() * 8 { rec(x, left - a.len() * 8) } else { 0 };
        unsafe { std::ptr::read_volatile(&a[(r % 2048) as usize]) }
    }
    rec(seed, bytes);
    crate::st!(stack_fills);
}
