//! The host environment and build settings never change a result.
use super::c05::Goldens;
use super::*;
use crate::{gen, nodes};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C11",
    gen: plan,
    exec,
    quick: 12_000,
    build: "rel",
    rule: "a run is 3-24 calls (every second run: 300 unrelated ones, on two differently built nodes in different hosts), otherwise made in a fresh process on the plain host, then each in a simulated host of its own (math library off by units in the last place, rounding direction, flush-to-zero and denormals-are-zero inherited from the caller, clock jumps, other random numbers and environment variables), and all of them on peer nodes running the other builds (unoptimised with assertions and overflow checks, without default features, instrumented) with other hosts and another address-space layout; all results must be identical; about one run in 150 makes its calls on a simulated machine of another architecture (s390x: other byte order, i686: other word size; interpreted by Miri, whose math routines err on purpose); non-trivial: every run; distinct by the hash of hosts and results",
    real: "f256 in four builds (all operations), core::fmt, std",
    simulated: "math library, floating-point control register, clock, random source, environment, machines of other architectures",
};
pub const PEERS: &[&str] = &["dbg", "nostd", "inst"];
/// simulated host of one call, from one number
pub fn host(h: u64) -> (hooks::Host, u32) {
    let mut r = Rng::new(&[h, 0x4057]);
    let ulp = *r.pick(&[0i64, 1, -1, 2, -2, 9]);
    let rc = r.below(4) as u32;
    // round control, flush to zero, denormals are zero
    let csr = 0x1f80 | rc << 13 | (r.below(2) as u32) << 15 | (r.below(2) as u32) << 6;
    let host = hooks::Host { on: true, libm_ulp: ulp, libm_seed: r.u64(), clock_ns: r.u64() >> r.below(64), clock_step: *r.pick(&[0u64, 1, 1_000_000_000, 1 << 40]), random: r.u64(), env: r.u64() };
    (host, csr)
}
fn plan(r: &mut Rng, p: &mut Plan) {
    let lim = *r.pick(&[40i64, 100, 100, 600]);
    let n = 3 + r.usize(22);
    if r.chance(1, 150) {
        p.put("emu", *r.pick(&["s390x", "s390x", "i686"]));
        let n = 2 + r.usize(8);
        for o in gen::menu(r, n, 40) {
            p.item(format!("call\t{}\t{}", r.u64() >> 24, o.text()));
        }
        return;
    }
    if r.chance(1, 2) {
        // many unrelated calls, on two nodes only
        p.put("bulk", 1);
        p.put("peers", *r.pick(&[1u64, 1, 1, 2, 4]));
        for o in gen::bulk(r, 300, 60) {
            p.item(format!("call\t{}\t{}", r.u64() >> 24, o.text()));
        }
        return;
    }
    p.put("peers", *r.pick(&[7u64, 7, 1, 2, 4]));
    for o in gen::menu(r, n, lim) {
        p.item(format!("call\t{}\t{}", r.u64() >> 24, o.text()));
    }
}
/// one call in a simulated host
pub fn hosted(o: &Op, h: u64) -> Res {
    let (host, csr) = host(h);
    unsafe { hooks::HOST = host };
    if host.libm_ulp != 0 {
        crate::st!(host_libm);
    }
    if host.env % 6 != 0 {
        crate::st!(host_env);
    }
    let mut sink = Fixed::new(if let Op::Render { spec, .. } = o { op::render_cap(spec) } else { 0 });
    crate::st!(ops);
    let r = {
        let _c = Csr(hooks::set_mxcsr(csr));
        if csr != 0x1f80 {
            crate::st!(host_fpcw);
        }
        op::run_into(o, &mut sink)
    };
    unsafe { hooks::HOST.libm_ulp = 0 };
    r
}
struct Csr(u32);
impl Drop for Csr {
    fn drop(&mut self) {
        hooks::set_mxcsr(self.0 & !0x3f);
    }
}
/// a node of another build: one call per line, one result per line
pub fn peer(t: &str) -> String {
    let mut s = String::new();
    for l in t.lines() {
        let f = fields(l);
        let r = match (num::<u64>(&f, 0), f.get(1).and_then(|x| Op::parse(x))) {
            (Some(h), Some(o)) => hosted(&o, h).bytes(),
            _ => b"?".to_vec(),
        };
        s += &enc(&r);
        s.push('\n');
    }
    s
}
/// have a peer of another build do something
pub fn ask(build: &str, what: &str, input: &str) -> Result<String, Viol> {
    let dir = std::env::var("DST_BIN_DIR").unwrap_or_else(|_| "/verif/.build/bin".into());
    let exe = format!("{dir}/dst-{build}");
    let mut c = match Command::new(&exe).args(["peer", what]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => {
            // not a verdict
            eprintln!("peer {exe}: {e}");
            unsafe { libc::kill(libc::getpid(), libc::SIGTERM) };
            unreachable!()
        }
    };
    let mut si = c.stdin.take().unwrap();
    let inp = input.to_string();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(inp.as_bytes());
    });
    let mut out = String::new();
    let _ = c.stdout.take().unwrap().read_to_string(&mut out);
    let _ = h.join();
    let st = c.wait().unwrap();
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(libc::SIGKILL) | Some(libc::SIGTERM) | Some(libc::SIGINT) => {
            eprintln!("peer {build} killed from outside");
            unsafe { libc::kill(libc::getpid(), libc::SIGTERM) };
        }
        Some(s) => return viol("peer", format!("the node running build {build} died: {}", End::Signal(s).describe()), format!("peer {build}")),
        None => {}
    }
    if !st.success() {
        return viol("peer", format!("the node running build {build} ended with {st}"), format!("peer {build}"));
    }
    Ok(out)
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let mut gs = Goldens::default();
    let mut ops: Vec<(Op, Arc<Gold>, u64)> = vec![];
    for it in &p.items {
        let f = fields(it);
        let (Some(h), Some(o)) = (num::<u64>(&f, 1), f.get(2).and_then(|x| Op::parse(x))) else { continue };
        if let Op::Parse { text, .. } = &o {
            if std::str::from_utf8(text).is_err() {
                continue;
            }
        }
        let g = match p.num("bulk", 0) {
            0 => gs.get(&o)?,
            // what this node finds
            _ => Arc::new(Gold { res: hosted(&o, h).bytes(), steps: 0, died: None }),
        };
        ops.push((o, g, h));
    }
    run.nontrivial = true;
    for (o, g, h) in &ops {
        if p.num("bulk", 0) != 0 {
            run.rec(&g.res);
            continue;
        }
        let b = hosted(o, *h).bytes();
        run.rec_n(*h);
        run.rec(&b);
        run.log(|| format!("{} on host {h:x} ({}) -> {}", o.text(), host_text(*h), res_show(&b)));
        if b != g.res {
            return viol("host", format!("{} gives {} on a host with {}, {} otherwise", o.text(), res_show(&b), host_text(*h), res_show(&g.res)), o.text());
        }
    }
    if let Some(t) = p.get("emu") {
        let t = nodes::TARGETS.iter().find(|x| **x == t).unwrap_or(&"s390x");
        let todo: Vec<&(Op, Arc<Gold>, u64)> = ops.iter().filter(|(o, _, _)| nodes::cheap(o)).collect();
        let lines: Vec<nodes::Line> = todo.iter().map(|(o, _, _)| (0, o.clone())).collect();
        let Some(out) = nodes::emulate(t, mix(p.seed ^ p.run), 0, &lines)? else { return Ok(()) };
        for (j, (o, g, _)) in todo.iter().enumerate() {
            let got = out.get(j).cloned().unwrap_or_default();
            run.rec(&got);
            run.log(|| format!("{} on the {t} machine -> {}", o.text(), res_show(&got)));
            let other = if *t == "s390x" { nodes::big_endian(o) } else { None };
            let want = match other {
                Some(x) => gs.get(&x)?,
                None => g.clone(),
            };
            if got != want.res {
                return viol("machine", format!("{} gives {} on the simulated {t} machine, {} here", o.text(), res_show(&got), res_show(&want.res)), o.text());
            }
        }
        return Ok(());
    }
    let which = p.num("peers", 7);
    for (i, b) in PEERS.iter().enumerate() {
        if which >> i & 1 == 0 || ops.is_empty() {
            continue;
        }
        // instrumented code is slow, unoptimised code is slower
        let todo: Vec<&(Op, Arc<Gold>, u64)> = ops.iter().filter(|(o, _, _)| !matches!(o, Op::Parse { text, .. } if text.len() > 5000)).collect();
        let inp: String = todo.iter().map(|(o, _, h)| format!("{}\t{}\n", mix(h ^ 77 ^ i as u64) >> 20, o.text())).collect();
        let out = ask(b, "ops", &inp)?;
        let lines: Vec<&str> = out.lines().collect();
        crate::st!(builds_compared);
        for (j, (o, g, _)) in todo.iter().enumerate() {
            let got = lines.get(j).and_then(|l| dec(l)).unwrap_or_default();
            run.rec(&got);
            // not part of that build's interface
            if got == b"Ounsupported" || g.res == b"Ounsupported" {
                continue;
            }
            if got != g.res {
                return viol("build", format!("{} gives {} in build {b}, {} in build rel", o.text(), res_show(&got), res_show(&g.res)), o.text());
            }
        }
        run.log(|| format!("{} calls agree with build {b}", todo.len()));
    }
    Ok(())
}
fn host_text(h: u64) -> String {
    let (x, c) = host(h);
    format!("math library {:+} ulp, MXCSR {c:#x}, clock {} ns", x.libm_ulp, x.clock_ns)
}
