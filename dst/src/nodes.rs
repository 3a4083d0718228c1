//! Nodes that run on other machines: an interpreted abstract machine (Miri)
//! of a given architecture, on which every undefined operation and every data
//! race is an error, and a machine that checks addresses (AddressSanitizer).
use crate::op::Op;
use crate::plan::dec;
use crate::props::{viol, Viol};
use f256ops::Spec;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

/// one call of one thread
pub type Line = (usize, Op);

pub fn dir() -> String {
    std::env::var("DST_BIN_DIR").unwrap_or_else(|_| "/verif/.build/bin".into())
}
fn outside(what: &str) -> ! {
    // not a verdict
    eprintln!("{what}");
    unsafe { libc::kill(libc::getpid(), libc::SIGTERM) };
    unreachable!()
}
struct Done {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}
fn run(c: &mut Command, input: Option<String>, cpu: u64) -> Done {
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut c = match c.spawn() {
        Ok(c) => c,
        Err(e) => outside(&format!("node: {e}")),
    };
    let h = input.map(|i| {
        let mut si = c.stdin.take().unwrap();
        std::thread::spawn(move || {
            let _ = si.write_all(i.as_bytes());
        })
    });
    let mut se = c.stderr.take().unwrap();
    let e = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let mut v = vec![];
    let _ = c.stdout.take().unwrap().read_to_end(&mut v);
    if let Some(h) = h {
        let _ = h.join();
    }
    let err = e.join().unwrap_or_default();
    let st = c.wait().unwrap();
    let d = Done { code: st.code(), signal: st.signal(), out: String::from_utf8_lossy(&v).into_owned(), err };
    if let Some(libc::SIGKILL | libc::SIGTERM | libc::SIGINT) = d.signal {
        outside("node killed from outside");
    }
    d
}
fn results(out: &str) -> Vec<Vec<u8>> {
    out.lines().map(|l| dec(l).unwrap_or_default()).collect()
}
fn wire(l: &[Line]) -> Vec<String> {
    l.iter().map(|(t, o)| format!("{t}\t{}", o.text())).collect()
}
/// addresses, process and thread numbers differ between executions
fn plain(s: &str) -> String {
    s.split_whitespace().filter(|w| !w.contains("0x") && !w.starts_with("==") && !w.contains("==")).collect::<Vec<_>>().join(" ")
}

/// Run calls on the node that checks addresses.
pub fn asan(l: &[Line]) -> Result<Vec<Vec<u8>>, Viol> {
    crate::st!(asan_nodes);
    crate::st!(asan_calls, l.len() as u64);
    let mut c = Command::new(format!("{}/emu-asan", dir()));
    c.arg("-").env("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:color=never:symbolize=0");
    let d = run(&mut c, Some(wire(l).join("\n")), 100);
    if d.code == Some(0) {
        return Ok(results(&d.out));
    }
    if d.code == Some(99) {
        let m = d.err.lines().find(|x| x.contains("ERROR: AddressSanitizer")).unwrap_or("AddressSanitizer error");
        return viol("address", format!("on the address-checking node: {}", plain(m)), "address");
    }
    viol("node", format!("the address-checking node ended with status {:?}, signal {:?}", d.code, d.signal), "address")
}

pub const TARGETS: &[&str] = &["x86_64", "s390x", "i686"];
/// Run calls on an interpreted machine. `None`: the machine cannot do that
/// (not a verdict about the library).
pub fn emulate(target: &str, seed: u64, preempt: u64, l: &[Line]) -> Result<Option<Vec<Vec<u8>>>, Viol> {
    let d = dir();
    let Ok(args) = std::fs::read_to_string(format!("{d}/emu-{target}")) else {
        crate::st!(emu_skipped);
        return Ok(None);
    };
    let mut it = args.lines();
    let exe = it.next().unwrap_or("miri");
    let cwd = it.next().unwrap_or("/");
    let mut c = Command::new(exe);
    c.current_dir(cwd).args(it);
    c.args(["-Zmiri-disable-stacked-borrows", "-Zmiri-ignore-leaks", "-Zmiri-permissive-provenance"]);
    c.arg(format!("-Zmiri-seed={}", seed & 0xffff_ffff)).arg(format!("-Zmiri-preemption-rate={}", preempt as f64 / 100.0));
    c.arg("--").args(wire(l));
    let r = run(&mut c, None, 60);
    if r.code == Some(0) {
        crate::st!(emu_nodes);
        crate::st!(emu_calls, l.len() as u64);
        return Ok(Some(results(&r.out)));
    }
    let line = |s: &str| r.err.lines().find(|x| x.contains(s)).map(plain);
    if let Some(m) = line("error: Undefined Behavior") {
        return viol("undefined", format!("on the simulated {target} machine: {m}"), "undefined");
    }
    if let Some(m) = line("deadlock") {
        return viol("deadlock", format!("on the simulated {target} machine: {m}"), "deadlock");
    }
    if let Some(m) = line("abnormal termination") {
        return viol("abort", format!("on the simulated {target} machine: {m}"), "abort");
    }
    crate::st!(emu_skipped);
    if std::env::var_os("DST_EMU_DEBUG").is_some() {
        eprintln!("emu {target}: code {:?} signal {:?}: {}", r.code, r.signal, r.err.lines().filter(|l| l.contains("error")).take(3).collect::<Vec<_>>().join(" / "));
    }
    Ok(None)
}
/// Is the call quick enough to be interpreted?
pub fn cheap(o: &Op) -> bool {
    match o {
        Op::Parse { text, .. } => {
            if text.len() > 160 || std::str::from_utf8(text).is_err() {
                return false;
            }
            match text.iter().position(|c| *c == b'e' || *c == b'E') {
                Some(e) => {
                    let d: Vec<u8> = text[e + 1..].iter().copied().filter(|c| c.is_ascii_digit()).skip_while(|c| *c == b'0').collect();
                    d.len() <= 2 || d.len() == 3 && d[0] < b'3'
                }
                None => true,
            }
        }
        Op::Render { bits, spec: Spec { kind, width, prec, .. } } => width.unwrap_or(0) <= 200 && prec.unwrap_or(0) <= 200 && (*kind != 0 || !far(*bits)),
        _ => true,
    }
}
/// The call that the contract makes equal to `o` on a machine with the most
/// significant byte first.
pub fn big_endian(o: &Op) -> Option<Op> {
    match o {
        Op::Num { idx, a, k } if f256ops::OPS[*idx].name == "to_ne_bytes" => Some(Op::Num { idx: f256ops::OPS.iter().position(|x| x.name == "to_be_bytes")?, a: *a, k: *k }),
        Op::Bytes { order, b } if *order > 1 => Some(Op::Bytes { order: 0, b: *b }),
        _ => None,
    }
}
/// decimal exponent beyond about 300
fn far(b: f256ops::Bits) -> bool {
    let e = ((b.0 >> 108) & 0x7ffff) as i64;
    e != 0x7ffff && b != (0, 0) && (e - 0x3ffff).abs() > 1000
}
