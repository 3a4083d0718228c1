//! State the library keeps between calls. The library has none today; if a
//! change introduces some (caches, buffers, flags, locks), the calls that
//! touch it are found by trying out many calls once, each in a fresh process,
//! and the runs concentrate on them. Without such state nothing here has any
//! effect.
use crate::gen;
use crate::hooks;
use crate::op::{self, Fixed, Op};
use crate::props;
use crate::rng::Rng;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Ranges {
    /// writable statics of the library
    pub data: Vec<(usize, usize)>,
    /// its thread-local variables, relative to the thread pointer
    pub tls: Vec<(isize, usize)>,
}
fn tp() -> usize {
    let x: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) x, options(nostack, readonly)) };
    x
}
impl Ranges {
    pub fn is_empty(&self) -> bool {
        self.data.is_empty() && self.tls.is_empty()
    }
    pub fn hit(&self, a: usize) -> bool {
        self.data.iter().any(|d| a >= d.0 && a < d.0 + d.1) || {
            !self.tls.is_empty() && {
                let t = tp();
                self.tls.iter().any(|d| {
                    let s = t.wrapping_add_signed(d.0);
                    a >= s && a < s + d.1
                })
            }
        }
    }
    fn snapshot(&self) -> Vec<u8> {
        let t = tp();
        let mut v = vec![];
        let all = self.data.iter().copied().chain(self.tls.iter().map(|d| (t.wrapping_add_signed(d.0), d.1)));
        for (a, n) in all {
            for i in 0..n {
                v.push(unsafe { std::ptr::read_volatile((a + i) as *const u8) });
            }
        }
        v
    }
}
/// Does a symbol belong to the library (not to the simulator)?
fn of_library(name: &str) -> bool {
    let own = |k: &str, n: usize| name.match_indices(k).any(|(i, _)| i + n <= name.len() && !name[..i].ends_with(|c: char| c.is_ascii_digit()));
    own("4f256", 5) || name.contains("f256..") || name.contains("f256_pow")
}
fn scan(pick: &dyn Fn(&str) -> bool) -> Option<Ranges> {
    let b = std::fs::read("/proc/self/exe").ok()?;
    let u16_ = |o: usize| Some(u16::from_le_bytes(b.get(o..o + 2)?.try_into().ok()?) as usize);
    let u32_ = |o: usize| Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?) as usize);
    let u64_ = |o: usize| Some(u64::from_le_bytes(b.get(o..o + 8)?.try_into().ok()?) as usize);
    let (phoff, shoff) = (u64_(0x20)?, u64_(0x28)?);
    let (phes, phn, shes, shn, shstr) = (u16_(0x36)?, u16_(0x38)?, u16_(0x3a)?, u16_(0x3c)?, u16_(0x3e)?);
    let mut base = 0usize;
    let mut tls_len = 0usize;
    for i in 0..phn {
        let h = phoff + i * phes;
        match u32_(h)? {
            6 => base = unsafe { libc::getauxval(libc::AT_PHDR) as usize }.wrapping_sub(u64_(h + 16)?),
            7 => {
                let al = u64_(h + 48)?.max(1);
                tls_len = u64_(h + 40)?.div_ceil(al) * al;
            }
            _ => {}
        }
    }
    let cstr = |o: usize| -> Option<String> {
        let n = b.get(o..)?.iter().position(|c| *c == 0)?;
        Some(String::from_utf8_lossy(&b[o..o + n]).into_owned())
    };
    let names = u64_(shoff + shstr * shes + 24)?;
    let mut r = Ranges::default();
    for i in 0..shn {
        let s = shoff + i * shes;
        if u32_(s + 4)? != 2 {
            continue;
        }
        let (off, size, link) = (u64_(s + 24)?, u64_(s + 32)?, u32_(s + 40)?);
        let strs = u64_(shoff + link * shes + 24)?;
        for y in (off..off + size).step_by(24) {
            let (name, info, shndx, value, len) = (u32_(y)?, *b.get(y + 4)?, u16_(y + 6)?, u64_(y + 8)?, u64_(y + 16)?);
            if shndx == 0 || shndx >= 0xff00 || len == 0 || !matches!(info & 15, 1 | 6) {
                continue;
            }
            let sec = shoff + shndx * shes;
            if u64_(sec + 8)? & 1 == 0 || cstr(names + u32_(sec)?)?.contains("rel.ro") {
                continue;
            }
            let n = cstr(strs + name)?;
            if !pick(&n) {
                continue;
            }
            if info & 15 == 6 {
                r.tls.push((value as isize - tls_len as isize, len));
            } else {
                r.data.push((base.wrapping_add(value), len));
            }
        }
    }
    Some(r)
}
pub fn ranges() -> &'static Ranges {
    static R: OnceLock<Ranges> = OnceLock::new();
    R.get_or_init(|| scan(&of_library).unwrap_or_default())
}
/// the scan finds the simulator's own variables where they are
pub fn selftest() {
    let r = scan(&|n| n.contains("hooks") && (n.ends_with("CTX") || n.contains("3CTX"))).unwrap();
    assert!(r.hit(std::ptr::addr_of!(unsafe { &*std::ptr::addr_of!(hooks::CTX) }.steps) as usize), "thread-local variables: {r:?}");
    let r = scan(&|n| n.contains("hooks") && n.contains("HOST")).unwrap();
    assert!(r.hit(std::ptr::addr_of!(hooks::HOST) as usize), "statics: {r:?}");
}
static mut TOUCHED: u64 = 0;
fn count(kind: u8, addr: usize) {
    let c = hooks::ctx();
    if kind != hooks::BLOCK && ranges().hit(addr) {
        unsafe { TOUCHED += 1 };
    }
    if c.steps >= c.next {
        crate::sched::on_slow(hooks::BLOCK, 0);
    }
}
fn touches(o: &Op) -> bool {
    let e = props::fresh(|| {
        let before = ranges().snapshot();
        let c = hooks::ctx();
        c.watch = true;
        unsafe { hooks::SLOW = count };
        let mut sink = Fixed::new(match o {
            Op::Render { spec, .. } => op::render_cap(spec),
            _ => 0,
        });
        op::run_budget(o, &mut sink, 300_000_000);
        hooks::ctx().watch = false;
        vec![(unsafe { TOUCHED } > 0 || ranges().snapshot() != before) as u8]
    });
    matches!(e, crate::child::End::Ok(v) if v == [1])
}
static mut FOCUS: Vec<Vec<Op>> = vec![];
/// calls that touch retained state, by kind
#[allow(static_mut_refs)]
pub fn focus() -> &'static [Vec<Op>] {
    unsafe { &FOCUS }
}
/// Find them. In a process of its own, so that this one stays pristine.
pub fn init() {
    if ranges().is_empty() {
        return;
    }
    let buf = crate::child::Buf::new(16 << 20);
    let end = crate::child::fork_run(&buf, || {
        unsafe { libc::alarm(240) };
        props::enter_sim(1);
        let mut text = String::new();
        let mut r = Rng::new(&[0xf0c5]);
        for kind in 0..f256ops::OPS.len() + 2 {
            let mut found = 0;
            for k in 0..if kind < f256ops::OPS.len() { 24 } else { 400 } {
                if found >= 24 {
                    break;
                }
                let lim = *r.pick(&[40i64, 100, 600]);
                let mut m = gen::Mix { num: 0, parse: 0, bytes: 0, render: 0, lim, nums: vec![kind], render_any: false };
                match kind - kind.min(f256ops::OPS.len()) {
                    0 if kind < f256ops::OPS.len() => m.num = 1,
                    0 => m.parse = 1,
                    _ => m.render = 1,
                }
                let pool = gen::Pool::new(&mut r, 4, if k % 2 == 0 { Some(lim) } else { None });
                let o = gen::op(&mut r, &m, &pool);
                if touches(&o) {
                    found += 1;
                    text += &format!("{kind}\t{}\n", o.text());
                }
            }
        }
        text.into_bytes()
    });
    if let crate::child::End::Ok(t) = end {
        let mut last = usize::MAX;
        for l in String::from_utf8_lossy(&t).lines() {
            let Some((k, o)) = l.split_once('\t') else { continue };
            let (Ok(k), Some(o)) = (k.parse::<usize>(), Op::parse(o)) else { continue };
            #[allow(static_mut_refs)]
            unsafe {
                if k != last {
                    FOCUS.push(vec![]);
                    last = k;
                }
                FOCUS.last_mut().unwrap().push(o);
            }
        }
    }
    let n: usize = focus().iter().map(|f| f.len()).sum();
    eprintln!("note: the library keeps state between calls ({} statics, {} thread-locals); {n} of the calls tried touch it", ranges().data.len(), ranges().tls.len());
}
/// one of them, or something close to one of them
pub fn op(r: &mut Rng) -> Op {
    let f = r.pick(focus()).clone();
    r.pick(&f).clone()
}
/// A menu concentrating on calls that touch retained state.
pub fn menu(r: &mut Rng, n: usize, lim: i64) -> Option<Vec<Op>> {
    if focus().is_empty() || r.chance(1, 8) {
        return None;
    }
    let m = gen::Mix { num: 1, parse: 1, bytes: 0, render: 1, lim, nums: vec![], render_any: false };
    let mut v = vec![op(r)];
    while v.len() < n {
        let o = if r.chance(1, 3) {
            op(r)
        } else {
            let b = r.pick(&v).clone();
            gen::vary(r, &b, &m)
        };
        v.push(o);
    }
    Some(v)
}
