//! The properties: each turns a seed into an explicit plan (`gen`) and judges
//! one execution of a plan (`exec`).
use crate::child::{self, Buf, End};
use crate::hooks;
use crate::op::{self, Fixed, Op, Res};
use crate::plan::{dec, enc, Plan};
use crate::rng::{hash_bytes, mix, Rng};
use crate::sched::{self, Sw};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;

#[derive(Clone, Debug)]
pub struct Viol {
    /// what kind of failure; minimisation keeps it
    pub class: String,
    pub msg: String,
    /// identifies the failing input or call for the known-findings file
    pub key: String,
}
pub fn viol<T>(class: &str, msg: impl Into<String>, key: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into(), key: key.into() })
}
#[derive(Clone, Debug, Default)]
pub struct Run {
    pub viol: Option<Viol>,
    /// hash of the recorded history
    pub hash: u64,
    /// did anything beyond a plain call happen (fault, switch, damage ...)
    pub nontrivial: bool,
    pub sched: Vec<Sw>,
    pub log: Vec<String>,
}
pub type Exec = fn(&Plan, &mut Run) -> Result<(), Viol>;
pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, &mut Plan),
    pub exec: Exec,
    /// runs of the quick check
    pub quick: u64,
    /// build of the library under test
    pub build: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub simulated: &'static str,
}
pub fn all() -> Vec<&'static Prop> {
    vec![
        &c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::PROP, &c10::PROP, &c11::PROP, &c12::PROP,
        &c13::PROP, &c14::PROP,
    ]
}
pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

impl Run {
    pub fn rec(&mut self, b: &[u8]) {
        self.hash = hash_bytes(self.hash, b);
    }
    pub fn rec_n(&mut self, n: u64) {
        self.hash = mix(self.hash ^ mix(n));
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if unsafe { hooks::VERBOSE } {
            self.log.push(f());
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut s = String::new();
        match &self.viol {
            None => s += "ok\n",
            Some(v) => s += &format!("viol\t{}\t{}\t{}\n", enc(v.class.as_bytes()), enc(v.msg.as_bytes()), enc(v.key.as_bytes())),
        }
        s += &format!("{} {}\n", self.hash, self.nontrivial as u8);
        for w in &self.sched {
            s += &format!("{},{},{};", w.tid, w.step, w.next);
        }
        s.push('\n');
        for l in &self.log {
            s += l;
            s.push('\n');
        }
        s.into_bytes()
    }
    pub fn decode(b: &[u8]) -> Option<Run> {
        let t = String::from_utf8_lossy(b);
        let mut l = t.lines();
        let mut r = Run::default();
        let h: Vec<&str> = l.next()?.split('\t').collect();
        if h[0] == "viol" {
            let g = |i: usize| Some(String::from_utf8_lossy(&dec(h.get(i)?)?).into_owned());
            r.viol = Some(Viol { class: g(1)?, msg: g(2)?, key: g(3)? });
        }
        let (a, b) = l.next()?.split_once(' ')?;
        r.hash = a.parse().ok()?;
        r.nontrivial = b == "1";
        for x in l.next()?.split(';').filter(|x| !x.is_empty()) {
            let f: Vec<&str> = x.split(',').collect();
            r.sched.push(Sw { tid: f[0].parse().ok()?, step: f[1].parse().ok()?, next: f[2].parse().ok()? });
        }
        r.log = l.map(|x| x.to_string()).collect();
        Some(r)
    }
}

fn on_fail(class: &'static str, msg: String) -> ! {
    let mut r = Run { nontrivial: true, ..Default::default() };
    r.sched = sched::take_trace();
    r.viol = Some(Viol { class: class.into(), msg, key: String::new() });
    child::finish(&r.encode())
}
/// Everything a forked run does before the library is touched.
pub fn enter_sim(seed: u64) {
    sched::set_fail(on_fail);
    sched::solo();
    hooks::set_stack_bounds();
    unsafe {
        hooks::SLOW = sched::on_slow;
        hooks::HOST = hooks::Host { on: true, libm_ulp: 0, libm_seed: 0, clock_ns: 1_700_000_000_000_000_000, clock_step: 1000, random: mix(seed), env: 0 };
    }
}
/// Execute a plan in a forked process.
pub fn run_plan(buf: &Buf, p: &Prop, plan: &Plan) -> Run {
    let end = child::fork_run(buf, || {
        let mut r = Run::default();
        enter_sim(plan.seed ^ plan.run);
        if let Err(v) = (p.exec)(plan, &mut r) {
            r.viol = Some(v);
        }
        r.encode()
    });
    match end {
        End::Ok(b) => Run::decode(&b).expect("result of run"),
        // killed from outside (memory, session end): not a verdict
        End::Signal(libc::SIGKILL) | End::Signal(libc::SIGTERM) | End::Signal(libc::SIGINT) => {
            eprintln!("run {} killed from outside", plan.run);
            std::process::exit(3)
        }
        e => Run {
            nontrivial: true,
            hash: hash_bytes(1, e.describe().as_bytes()),
            viol: Some(Viol { class: e.class().into(), msg: format!("the simulated process died: {}", e.describe()), key: String::new() }),
            ..Default::default()
        },
    }
}

// ------------------------------------------------------------------ helpers
pub fn fields(item: &str) -> Vec<&str> {
    item.split('\t').collect()
}
pub fn num<T: std::str::FromStr>(f: &[&str], i: usize) -> Option<T> {
    f.get(i)?.parse().ok()
}
/// Result of a call made as the first one of a fresh process.
#[derive(Clone, Debug)]
pub struct Gold {
    pub res: Vec<u8>,
    pub steps: u64,
    pub died: Option<End>,
}
thread_local! {
    static GBUF: std::cell::OnceCell<&'static Buf> = const { std::cell::OnceCell::new() };
}
fn gbuf() -> &'static Buf {
    GBUF.with(|b| *b.get_or_init(|| Box::leak(Box::new(Buf::new(4 << 20)))))
}
pub const STEP_CAP: u64 = 3_000_000_000;
/// run something in a fresh process
pub fn fresh(f: impl FnOnce() -> Vec<u8>) -> End {
    crate::st!(golden_forks);
    child::fork_run(gbuf(), f)
}
pub fn golden(o: &Op) -> Gold {
    let e = fresh(|| {
        let mut sink = Fixed::new(match o {
            Op::Render { spec, .. } => op::render_cap(spec),
            _ => 0,
        });
        let (r, n) = op::run_budget(o, &mut sink, STEP_CAP);
        let mut v = n.to_le_bytes().to_vec();
        v.extend(r.bytes());
        v
    });
    match e {
        End::Ok(v) if v.len() >= 9 && !v.starts_with(b"viol") => Gold { res: v[8..].to_vec(), steps: u64::from_le_bytes(v[..8].try_into().unwrap()), died: None },
        End::Ok(v) => Gold { res: v, steps: 0, died: Some(End::Signal(libc::SIGALRM)) },
        e => Gold { res: vec![], steps: 0, died: Some(e) },
    }
}
/// The same for many calls made one after another in one fresh process.
pub fn golden_many(ops: &[&Op]) -> Option<Vec<Gold>> {
    let e = fresh(|| {
        let mut v = vec![];
        for o in ops {
            let mut sink = Fixed::new(match o {
                Op::Render { spec, .. } => op::render_cap(spec),
                _ => 0,
            });
            let (r, n) = op::run_budget(o, &mut sink, STEP_CAP);
            let r = r.bytes();
            v.extend(n.to_le_bytes());
            v.extend((r.len() as u64).to_le_bytes());
            v.extend(r);
        }
        v
    });
    let End::Ok(v) = e else { return None };
    let mut out = vec![];
    let mut v = &v[..];
    while v.len() >= 16 {
        let n = u64::from_le_bytes(v[8..16].try_into().unwrap()) as usize;
        out.push(Gold { res: v.get(16..16 + n)?.to_vec(), steps: u64::from_le_bytes(v[..8].try_into().unwrap()), died: None });
        v = &v[16 + n..];
    }
    (out.len() == ops.len()).then_some(out)
}
/// A call that does not even complete alone breaks every property here.
pub fn golden_ok(o: &Op) -> Result<Gold, Viol> {
    let g = golden(o);
    match &g.died {
        None => Ok(g),
        Some(e) => viol(e.class(), format!("{} alone in a fresh process: {}", o.text(), e.describe()), o.text()),
    }
}
pub fn text_of(b: &[u8]) -> String {
    op::show(b)
}
pub fn res_show(b: &[u8]) -> String {
    match b.first() {
        Some(b'T') => format!("text {}", op::show(&b[1..])),
        Some(b'E') => format!("error after {}", op::show(&b[1..])),
        Some(b'P') => "panic".into(),
        Some(b'O') => String::from_utf8_lossy(&b[1..]).into_owned(),
        Some(b'U') => "not UTF-8".into(),
        _ => "nothing".into(),
    }
}
pub fn run_op(o: &Op) -> Res {
    op::run(o)
}
/// Does this operation's contract allow a panic for these arguments?
pub fn may_panic(o: &Op) -> bool {
    use crate::model as m;
    use std::cmp::Ordering::*;
    match o {
        Op::Num { idx, a, .. } if f256ops::OPS[*idx].may_panic => {
            if f256ops::OPS[*idx].name != "clamp" {
                // the library declares these as not implemented
                return true;
            }
            // clamp: bounds out of order or NaN. The order of negative bounds is a recorded finding of C12.
            m::is_nan(a[1]) || m::is_nan(a[2]) || !matches!(m::num_cmp(a[1], a[2]), Some(Equal)) && (m::sign(a[1]) && m::sign(a[2]) || m::num_cmp(a[1], a[2]) == Some(Greater))
        }
        _ => false,
    }
}
