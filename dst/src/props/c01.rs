//! Rendering into a failing writer delivers an exact prefix and reports failure.
use super::*;
use crate::gen;
use crate::hooks::QUIET;
use crate::model::{self, Bits};
use f256ops::Spec;
use std::fmt::{self, Write as _};
use std::io::{self, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "C01",
    gen: plan,
    exec,
    quick: 80_000,
    build: "rel",
    rule: "a run is 1-8 renderings (1-3 numbers each, any notation and layout), each into one simulated writer with an explicit fault (kind, byte position or call number, short-write pattern) or with a sweep over every byte position, followed by a retry on a healthy writer; non-trivial: at least one writer refused, shortened, interrupted or unwound a write; distinct by the hash of accepted bytes and outcomes",
    real: "f256 formatting, core::fmt, std::io adapters (write_fmt, BufWriter, LineWriter, slices, Cursor)",
    simulated: "writers: fmt::Write with byte budget or failing call, unwinding, re-entrant; io::Write with short writes, EINTR, EAGAIN, ENOSPC, zero-length writes, failing flush",
};
pub struct Multi<'a>(pub &'a [(Bits, Spec)]);
impl fmt::Display for Multi<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, (b, s)) in self.0.iter().enumerate() {
            if i > 0 {
                f.write_str(";")?;
            }
            f256ops::render(*b, s, f)?;
        }
        Ok(())
    }
}
pub const KINDS: &[&str] = &["budget", "partial", "call", "once", "unwind", "unwindcall", "reenter", "io", "buf", "line", "slice", "cursor", "sweep", "sweepio", "sweepcall", "vec"];

pub fn value(r: &mut Rng) -> (Bits, Spec) {
    let mut s = gen::spec(r);
    if s.prec.is_some_and(|p| p > 75) {
        s.prec = Some(75);
    }
    let mut b = match r.below(10) {
        0 => *r.pick(gen::SPECIALS),
        1 => gen::any(r),
        2..=4 => gen::value_within(r, 400),
        _ => gen::value_within(r, 60),
    };
    if gen::big(b) && s.kind == 0 && !r.chance(1, 12) {
        b = gen::value_within(r, 80);
    }
    (b, s)
}
fn plan(r: &mut Rng, p: &mut Plan) {
    for _ in 0..1 + r.usize(8) {
        let k = *r.pick(KINDS);
        let n = if r.chance(3, 4) { 1 } else { 2 + r.usize(2) };
        let mut ops = vec![];
        for _ in 0..n {
            let (b, s) = value(r);
            ops.push(format!("{}/{}", op::hex(b), op::spec_text(&s)));
        }
        let pos = match r.below(6) {
            0 => 0,
            1 => 1024,
            2 => 1023 - r.below(40),
            3 => r.below(40),
            _ => r.below(1025),
        };
        p.item(format!("rend\t{}\t{k}\t{pos}\t{}\t{}", ops.join("|"), r.below(5), r.u64() >> 20));
    }
}
struct Spy {
    /// accepted bytes
    got: Vec<u8>,
    calls: u64,
    /// a write or flush was refused
    refused: u64,
    /// writes after the first refusal
    after: u64,
    budget: usize,
    fail_call: u64,
    once: bool,
    partial: bool,
    unwind: bool,
    err: u64,
    /// seed of the short-write pattern, 0: none
    short: u64,
    last_intr: bool,
    reenter: Option<(Bits, Spec)>,
    nested: Vec<Vec<u8>>,
}
impl Spy {
    fn new() -> Spy {
        Spy { got: Vec::with_capacity(256), calls: 0, refused: 0, after: 0, budget: usize::MAX, fail_call: u64::MAX, once: false, partial: false, unwind: false, err: 0, short: 0, last_intr: false, reenter: None, nested: vec![] }
    }
    /// bytes accepted, Err: refused
    fn accept(&mut self, b: &[u8]) -> Result<(), ()> {
        let _o = hooks::suspend();
        if self.refused > 0 {
            self.after += 1;
        }
        let i = self.calls;
        self.calls += 1;
        if let Some((bits, s)) = self.reenter {
            if self.nested.len() < 3 {
                let mut t = Fixed::new(op::render_cap(&s));
                let r = op::run_into(&Op::Render { bits, spec: s }, &mut t);
                self.nested.push(r.bytes());
                crate::st!(reentries);
            }
        }
        let room = self.budget - self.got.len().min(self.budget);
        let full = b.len() > room || i == self.fail_call || (i > self.fail_call && !self.once);
        if full {
            if self.partial && i != self.fail_call {
                self.got.extend_from_slice(&b[..room.min(b.len())]);
            }
            self.refused += 1;
            if self.once {
                self.budget = usize::MAX;
                self.fail_call = u64::MAX;
            }
            if self.unwind {
                crate::st!(w_unwind);
                std::panic::panic_any(QUIET);
            }
            return Err(());
        }
        self.got.extend_from_slice(b);
        Ok(())
    }
}
impl fmt::Write for Spy {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let r = self.accept(s.as_bytes());
        if r.is_err() {
            if self.partial {
                crate::st!(w_fmt_partial_error);
            } else if self.once {
                crate::st!(w_transient_error);
            } else {
                crate::st!(w_fmt_error);
            }
        }
        r.map_err(|_| fmt::Error)
    }
}
/// the same as an operating system handle
struct Os<'a>(&'a mut Spy);
impl io::Write for Os<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let s = &mut *self.0;
        let mut n = b.len();
        if s.short != 0 && n > 0 {
            s.short = mix(s.short);
            match s.short % 5 {
                0 if !s.last_intr => {
                    s.last_intr = true;
                    crate::st!(w_eintr);
                    return Err(io::ErrorKind::Interrupted.into());
                }
                0 | 1 => {
                    n = 1;
                    crate::st!(w_short_write);
                }
                2 => {
                    n = 1 + (s.short >> 20) as usize % n;
                    crate::st!(w_short_write);
                }
                _ => {}
            }
        }
        s.last_intr = false;
        let room = s.budget - s.got.len().min(s.budget);
        if room > 0 && room < n && s.err != 4 {
            // a device that takes what still fits
            n = room;
            crate::st!(w_short_write);
        }
        match s.accept(&b[..n]) {
            Ok(()) => Ok(n),
            Err(()) => match s.err {
                0 => {
                    crate::st!(w_enospc);
                    Err(io::Error::from_raw_os_error(libc::ENOSPC))
                }
                1 => {
                    crate::st!(w_wouldblock);
                    Err(io::ErrorKind::WouldBlock.into())
                }
                2 => {
                    crate::st!(w_zero);
                    Ok(0)
                }
                _ => {
                    crate::st!(w_flush_error);
                    Err(io::ErrorKind::BrokenPipe.into())
                }
            },
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub fn parse_ops(t: &str) -> Option<Vec<(Bits, Spec)>> {
    let mut v = vec![];
    for x in t.split('|') {
        let (b, s) = x.split_once('/')?;
        v.push((op::unhex(b)?, op::spec_parse(s)?));
    }
    Some(v)
}
struct Case<'a> {
    ops: &'a [(Bits, Spec)],
    want: &'a [u8],
    text: &'a str,
}
impl Case<'_> {
    fn bad(&self, class: &str, how: &str, msg: String) -> Result<(), Viol> {
        viol(class, format!("rendering {} into {how}: {msg}", self.text), format!("render {} {class}", self.text))
    }
    /// judge one rendering: `ok` None when it unwound
    fn judge(&self, how: &str, got: &[u8], ok: Option<bool>, refused: bool, after: u64) -> Result<(), Viol> {
        if !self.want.starts_with(got) {
            return self.bad("prefix", how, format!("the writer accepted {} which is not a prefix of {}", op::show(got), op::show(self.want)));
        }
        if after > 0 {
            return self.bad("written-after-error", how, format!("{after} further writes after the writer reported an error"));
        }
        match ok {
            Some(true) if got.len() != self.want.len() || refused => self.bad("false-success", how, format!("success reported although only {} of {} bytes were accepted", got.len(), self.want.len())),
            Some(false) if !refused => self.bad("false-failure", how, format!("failure reported although the writer accepted everything offered ({} of {} bytes)", got.len(), self.want.len())),
            _ => Ok(()),
        }
    }
    fn fmt_into(&self, how: &str, s: &mut Spy, run: &mut Run) -> Result<(), Viol> {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _l = hooks::enter();
            if self.ops.len() == 1 {
                f256ops::render(self.ops[0].0, &self.ops[0].1, s)
            } else {
                write!(s, "{}", Multi(self.ops))
            }
        }));
        let ok = match r {
            Ok(r) => Some(r.is_ok()),
            Err(p) => {
                if p.downcast_ref::<&str>() != Some(&QUIET) {
                    return self.bad("panic", how, "panicked".into());
                }
                None
            }
        };
        self.done(how, s, ok, run)
    }
    fn done(&self, how: &str, s: &mut Spy, ok: Option<bool>, run: &mut Run) -> Result<(), Viol> {
        run.nontrivial |= s.refused > 0 || s.short != 0 || s.reenter.is_some();
        if ok == Some(true) {
            crate::st!(renders_ok);
        } else {
            crate::st!(renders_failed);
        }
        run.rec(&s.got);
        run.rec_n(ok.map_or(2, |x| x as u64));
        run.log(|| format!("{} into {how}: accepted {} bytes in {} writes, refused {}, result {ok:?}", self.text, s.got.len(), s.calls, s.refused));
        self.judge(how, &s.got, ok, s.refused > 0, if s.unwind { 0 } else { s.after })?;
        if s.unwind && s.refused > 0 && ok.is_some() {
            return self.bad("unwind-swallowed", how, "the writer's unwinding did not reach the caller".into());
        }
        Ok(())
    }
    fn io_into(&self, how: &str, s: &mut Spy, run: &mut Run) -> Result<(), Viol> {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _l = hooks::enter();
            write!(Os(s), "{}", Multi(self.ops))
        }));
        match r {
            Ok(r) => self.done(how, s, Some(r.is_ok()), run),
            Err(p) if s.unwind && p.downcast_ref::<&str>() == Some(&QUIET) => self.done(how, s, None, run),
            Err(_) => self.bad("panic", how, "panicked".into()),
        }
    }
    fn healthy(&self, how: &str) -> Result<(), Viol> {
        let mut s = Spy::new();
        self.fmt_into("a healthy writer", &mut s, &mut Run::default())?;
        if s.got != self.want {
            return self.bad("retry", how, format!("afterwards a healthy writer gets {} instead of {}", op::show(&s.got), op::show(self.want)));
        }
        Ok(())
    }
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    for it in &p.items {
        let f = fields(it);
        if f[0] != "rend" {
            continue;
        }
        let Some(ops) = f.get(1).and_then(|t| parse_ops(t)) else { continue };
        if ops.iter().any(|o| o.1.prec.is_some_and(|p| p > 75)) {
            continue;
        }
        let kind = f.get(2).copied().unwrap_or("budget");
        let pos = num::<u64>(&f, 3).unwrap_or(0).min(1024);
        let err = num::<u64>(&f, 4).unwrap_or(0);
        let seed = num::<u64>(&f, 5).unwrap_or(1);
        one(&ops, f[1], kind, pos, err, seed, run)?;
    }
    Ok(())
}
fn one(ops: &[(Bits, Spec)], text: &str, kind: &str, pos: u64, err: u64, seed: u64, run: &mut Run) -> Result<(), Viol> {
    // what an unlimited writer receives in a fresh process
    let e = fresh(|| {
        let mut s = Spy::new();
        let r = catch_unwind(AssertUnwindSafe(|| write!(s, "{}", Multi(ops))));
        let mut v = vec![match r {
            Ok(Ok(())) => 0,
            Ok(Err(_)) => 1,
            Err(_) => 2,
        }];
        v.extend(s.calls.to_le_bytes());
        v.extend(s.got);
        v
    });
    let (want, calls) = match &e {
        End::Ok(v) if v[0] == 0 => (v[9..].to_vec(), u64::from_le_bytes(v[1..9].try_into().unwrap())),
        End::Ok(v) => return viol(if v[0] == 1 { "false-failure" } else { "panic" }, format!("rendering {text} into an unlimited writer {}", if v[0] == 1 { "reports failure" } else { "panics" }), format!("render {text}")),
        e => return viol(e.class(), format!("rendering {text}: {}", e.describe()), format!("render {text}")),
    };
    crate::st!(ops);
    let c = Case { ops, want: &want, text };
    let at = (want.len() as u64 * pos / 1024) as usize;
    let at_call = calls * pos / 1024;
    let mut s = Spy::new();
    s.err = err;
    match kind {
        "budget" | "partial" => {
            s.budget = at;
            s.partial = kind == "partial";
            c.fmt_into(&format!("a writer that fails after {at} bytes"), &mut s, run)?;
        }
        "call" | "once" => {
            s.fail_call = at_call;
            s.once = kind == "once";
            c.fmt_into(&format!("a writer whose write number {at_call} fails"), &mut s, run)?;
        }
        "unwind" | "unwindcall" => {
            if kind == "unwind" {
                s.budget = at;
            } else {
                s.fail_call = at_call;
            }
            s.unwind = true;
            c.fmt_into(&format!("a writer that unwinds after {at} bytes or {at_call} writes"), &mut s, run)?;
        }
        "reenter" => {
            let mut r = Rng::new(&[seed]);
            let mut other = if r.chance(1, 3) { ops[0] } else { value(&mut r) };
            if gen::big(other.0) && other.1.kind == 0 {
                other.0 = model::round(false, &crate::big::Big::from_u128(seed as u128), -9, false);
            }
            let o = Op::Render { bits: other.0, spec: other.1 };
            let g = golden_ok(&o)?;
            s.reenter = Some(other);
            s.budget = if r.chance(1, 2) { at } else { usize::MAX };
            c.fmt_into("a writer that renders another number", &mut s, run)?;
            for n in &s.nested {
                if *n != g.res {
                    return viol("nested", format!("{} nested in the writer of {text}: {} instead of {}", o.text(), res_show(n), res_show(&g.res)), format!("render {text} nested"));
                }
            }
        }
        "io" => {
            s.budget = at;
            s.short = seed | 1;
            c.io_into(&format!("an output handle with short and interrupted writes, failing ({}) after {at} bytes", err % 4), &mut s, run)?;
            c.healthy("an output handle")?;
            let mut s = Spy::new();
            s.short = mix(seed) | 1;
            c.io_into("an output handle with short and interrupted writes", &mut s, run)?;
        }
        "buf" | "line" => {
            s.budget = at;
            s.short = if seed & 1 == 0 { seed | 2 } else { 0 };
            let cap = [0usize, 1, 7, 16, 64, 300][(seed >> 8) as usize % 6];
            let how = format!("a buffered ({cap} bytes) handle failing after {at} bytes");
            let r = {
                let os = Os(&mut s);
                catch_unwind(AssertUnwindSafe(|| {
                    let _l = hooks::enter();
                    if kind == "buf" {
                        let mut w = io::BufWriter::with_capacity(cap, os);
                        let a = write!(w, "{}", Multi(ops));
                        let b = a.is_ok() && w.flush().is_ok();
                        let _ = w.into_parts();
                        b
                    } else {
                        let mut w = io::LineWriter::with_capacity(cap, os);
                        let b = write!(w, "{}", Multi(ops)).is_ok() && w.flush().is_ok();
                        if b {
                            drop(w);
                        } else {
                            std::mem::forget(w);
                        }
                        b
                    }
                }))
            };
            let Ok(ok) = r else { return c.bad("panic", &how, "panicked".into()) };
            s.after = 0;
            crate::st!(w_buffer_full);
            c.done(&how, &mut s, Some(ok), run)?;
        }
        "slice" | "cursor" => {
            let mut mem = vec![0xAAu8; want.len() + 64];
            let how = format!("a fixed buffer of {at} bytes");
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _l = hooks::enter();
                if kind == "slice" {
                    let mut w = &mut mem[..at];
                    let r = write!(w, "{}", Multi(ops));
                    (r.is_ok(), at - w.len())
                } else {
                    let mut w = io::Cursor::new(&mut mem[..at]);
                    let r = write!(w, "{}", Multi(ops));
                    (r.is_ok(), w.position() as usize)
                }
            }));
            let Ok((ok, n)) = r else { return c.bad("panic", &how, "panicked".into()) };
            run.nontrivial |= !ok;
            run.rec(&mem[..n]);
            if mem[at..].iter().any(|&x| x != 0xAA) {
                return c.bad("out-of-bounds", &how, "bytes behind the buffer changed".into());
            }
            if ok != (at >= want.len()) || !want.starts_with(&mem[..n]) || ok && n != want.len() {
                return c.bad("slice", &how, format!("success {ok}, {n} bytes written: {}", op::show(&mem[..n])));
            }
            crate::st!(w_buffer_full);
        }
        "vec" => {
            let mut v = vec![];
            let mut t = String::new();
            let a = write!(v, "{}", Multi(ops)).is_ok();
            let b = write!(t, "{}", Multi(ops)).is_ok();
            if !a || !b || v != want || t.as_bytes() != want {
                return c.bad("healthy", "a growing buffer", format!("got {} / {}", op::show(&v), op::show(t.as_bytes())));
            }
            run.rec(&v);
        }
        "sweep" | "sweepio" => {
            // every byte position (of long texts: the ends and a seeded rest)
            let n = want.len();
            let mut x = seed;
            let mut i = 0;
            while i <= n {
                let mut s = Spy::new();
                s.budget = i;
                s.err = err;
                s.partial = x & 1 == 1;
                if kind == "sweep" {
                    c.fmt_into(&format!("a writer that fails after {i} bytes"), &mut s, run)?;
                } else {
                    c.io_into(&format!("an output handle that fails after {i} bytes"), &mut s, run)?;
                }
                x = mix(x);
                i += if n > 700 && i > 200 && i + 200 < n { 1 + (x >> 8) as usize % (n / 200) } else { 1 };
            }
        }
        _ => {
            for i in 0..=calls.min(400) {
                let mut s = Spy::new();
                s.fail_call = i;
                s.once = seed & 1 == 1;
                c.fmt_into(&format!("a writer whose write number {i} fails"), &mut s, run)?;
            }
        }
    }
    c.healthy(kind)
}
