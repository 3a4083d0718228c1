//! Numbers survive a text round trip over an unreliable stream.
use super::*;
use crate::gen;
use crate::model::{self, Bits, Parsed};
use crate::op::hex;
use f256ops::{Out, Spec};
use std::collections::BTreeMap;
use std::io::{self, BufRead, Read, Write};

pub static PROP: Prop = Prop {
    id: "C02",
    gen: plan,
    exec,
    quick: 30_000,
    build: "rel",
    rule: "a run is 1-24 numbers written as text lines into a byte stream, cut into segments and carried by a selective-repeat transport over a link with an explicit fate for each transmission (loss, duplication, delay/reordering, corruption, partition), read back through a buffered reader with short and interrupted reads, and parsed; each run writes 18 further numbers, together every exponent once in 29127 runs, that only an independent reader reads; non-trivial: at least one transmission was lost, duplicated, delayed or corrupted; distinct by the hash of texts, deliveries and results",
    real: "f256 formatting and parsing, core::fmt, std::io adapters and BufReader",
    simulated: "link, transport, clock ticks, output and input handles",
};
/// numbers per run that only the independent reader reads
const FAR: u64 = 18;
const FILLS: &[char] = &[' ', ' ', '*', '_', '~', '#', '\t', 'é', '中', '🦀', 'x', 'Z'];
/// Does this specification keep the number recoverable (is it covered by the property)?
fn lossless(b: Bits, s: &Spec) -> bool {
    if s.kind > 2 || !FILLS.contains(&s.fill) && s.fill != '0' {
        return false;
    }
    // leading zeros do not go with infinities
    if s.zero && s.width.is_some() && (model::is_inf(b) || model::is_nan(b)) {
        return false;
    }
    // a zero as fill is a leading zero only in front
    if s.fill == '0' && !(s.align == 3 && !model::sign(b) && !s.plus && !model::is_nan(b) && !model::is_inf(b)) && s.width.is_some() && !s.zero {
        return false;
    }
    match s.prec {
        None => true,
        Some(p) if p > 75 => false,
        Some(_) if model::is_zero(b) || model::is_inf(b) || model::is_nan(b) => true,
        Some(p) if s.kind > 0 => p >= 72,
        Some(p) => p >= 72 && ((b.0 & model::EXP_MASK) >> 108) as i64 >= 0x3ffff,
    }
}
fn form(r: &mut Rng, b: Bits) -> Spec {
    loop {
        let mut s = Spec::plain(*r.pick(&[0u8, 0, 1, 1, 2]));
        if r.chance(1, 3) {
            s.prec = Some(72 + r.below(4) as u16);
        }
        if r.chance(1, 3) {
            let w = if r.chance(1, 10) { 3000 } else { 130 };
            s.width = Some(r.log(w) as u16);
            s.align = r.below(4) as u8;
            s.fill = if r.chance(1, 8) { '0' } else { *r.pick(FILLS) };
            s.zero = r.chance(1, 3);
        }
        s.plus = r.chance(1, 5);
        if lossless(b, &s) {
            return s;
        }
    }
}
fn plan(r: &mut Rng, p: &mut Plan) {
    let lim = match r.below(200) {
        0..=99 => 100,
        100..=185 => 600,
        186..=198 => 3000,
        _ => 78000,
    };
    let n = if lim > 3000 { 1 } else { 1 + r.usize(24) };
    p.put("mss", *r.pick(&[1u64, 2, 3, 7, 16, 50, 200, 1400]));
    p.put("window", 1 + r.below(16));
    p.put("reads", if r.chance(1, 4) { 0 } else { r.u64() >> 20 });
    p.put("rto", 3 + r.below(30));
    for _ in 0..n {
        let b = match r.below(16) {
            0 | 1 => *r.pick(gen::SPECIALS),
            2 => gen::nan(r),
            3 if lim > 3000 || r.chance(1, 50) => gen::subnormal(r),
            4 if lim > 3000 => gen::any(r),
            _ => gen::value_within(r, lim),
        };
        // numbers at the ends of the range take the parser a second
        let b = if gen::big(b) && lim < 3000 && !r.chance(1, 20) { gen::value_within(r, lim) } else { b };
        let s = form(r, b);
        // plain notation of huge numbers is long
        let s = if gen::big(b) && s.kind == 0 && r.chance(9, 10) { Spec { kind: 1, ..s } } else { s };
        let s = if lossless(b, &s) { s } else { Spec::plain(1) };
        p.item(format!("num\t{}\t{}\t{}", hex(b), op::spec_text(&s), r.below(4)));
    }
    // every exponent once in a quick check; reading these takes the library
    // up to seconds, so only the independent reader does
    for j in 0..FAR {
        let e = (p.run.wrapping_mul(FAR).wrapping_add(j).wrapping_mul(12_345_677).wrapping_add(mix(p.seed))) % 0x7fffe + 1;
        let frac = if r.chance(1, 4) { (0, 0) } else { gen::frac(r) };
        let b = gen::with_exp(e as i64, frac, r.chance(1, 2));
        let s = Spec { kind: 1 + r.below(2) as u8, prec: if r.chance(1, 4) { Some(72 + r.below(4) as u16) } else { None }, ..Spec::plain(1) };
        p.item(format!("num\t{}\t{}\t4", hex(b), op::spec_text(&s)));
    }
    let faults = r.log(40);
    for _ in 0..faults {
        let at = r.log(400);
        match r.below(8) {
            0 | 1 => p.item(format!("fate\t{at}\tloss\t0")),
            2 => p.item(format!("fate\t{at}\tdup\t{}", 1 + r.below(60))),
            3 | 4 => p.item(format!("fate\t{at}\tdelay\t{}", 1 + r.log(80))),
            5 => p.item(format!("fate\t{at}\tcorrupt\t{}", r.below(1 << 16))),
            _ => p.item(format!("part\t{}\t{}", r.below(300), 1 + r.log(200))),
        }
    }
}
struct Seg {
    data: Vec<u8>,
    sum: u64,
    ack: bool,
    seq: usize,
}
/// Output handle of the sender: takes what fits into its small buffer.
struct Out1 {
    buf: Vec<u8>,
    x: u64,
    intr: bool,
}
impl Write for Out1 {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _o = hooks::suspend();
        self.x = mix(self.x);
        if self.x % 7 == 0 && !self.intr {
            self.intr = true;
            crate::st!(w_eintr);
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.intr = false;
        let n = if self.x % 3 == 0 && !b.is_empty() { 1 + (self.x >> 9) as usize % b.len() } else { b.len() };
        if n < b.len() {
            crate::st!(w_short_write);
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct In1 {
    data: Vec<u8>,
    at: usize,
    x: u64,
    intr: bool,
}
impl Read for In1 {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.at;
        let mut n = left.min(b.len());
        if self.x != 0 && n > 0 {
            self.x = mix(self.x) | 1;
            if (self.x >> 3) % 9 == 0 && !self.intr {
                self.intr = true;
                crate::st!(r_eintr);
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.intr = false;
            n = 1 + (self.x >> 13) as usize % n.min(40);
            crate::st!(r_short_read);
        }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
/// Carry the bytes over the link.
pub fn carry(bytes: &[u8], p: &Plan, run: &mut Run) -> Result<Vec<u8>, Viol> {
    let mss = (p.num("mss", 16) as usize).max(1).max(bytes.len() / 2000);
    let window = (p.num("window", 4) as usize).max(1);
    let rto = p.num("rto", 10).max(1);
    let mut fate: BTreeMap<u64, (String, u64)> = BTreeMap::new();
    let mut parts: Vec<(u64, u64)> = vec![];
    for it in &p.items {
        let f = fields(it);
        match f[0] {
            "fate" => {
                if let (Some(k), Some(a)) = (num(&f, 1), num(&f, 3)) {
                    fate.insert(k, (f[2].to_string(), a));
                }
            }
            "part" => {
                if let (Some(a), Some(b)) = (num::<u64>(&f, 1), num::<u64>(&f, 2)) {
                    parts.push((a, a.saturating_add(b)));
                }
            }
            _ => {}
        }
    }
    let segs: Vec<&[u8]> = bytes.chunks(mss).collect();
    let n = segs.len();
    let mut acked = vec![false; n];
    let mut timer = vec![0u64; n];
    let mut sent_before = vec![false; n];
    let mut got: Vec<Option<Vec<u8>>> = (0..n).map(|_| None).collect();
    let mut net: BTreeMap<(u64, u64), Seg> = BTreeMap::new();
    let (mut tick, mut count, mut order) = (0u64, 0u64, 0u64);
    let last_fault = parts.iter().map(|x| x.1).max().unwrap_or(0);
    let bound = 2000 + last_fault + 40 * n as u64 * (rto + 100);
    let mut base = 0;
    while base < n {
        let mut outbox: Vec<Seg> = vec![];
        // deliveries of this tick
        while let Some((&(t, o), _)) = net.iter().next() {
            if t > tick {
                break;
            }
            let s = net.remove(&(t, o)).unwrap();
            if hash_bytes(s.seq as u64 + s.ack as u64 * 77, &s.data) != s.sum {
                crate::st!(net_corrupt_dropped);
                continue;
            }
            if s.ack {
                acked[s.seq] = true;
            } else {
                if got[s.seq].is_none() {
                    got[s.seq] = Some(s.data);
                } else {
                    crate::st!(dup_deliveries);
                }
                crate::st!(deliveries);
                outbox.push(Seg { data: vec![], sum: hash_bytes(s.seq as u64 + 77, &[]), ack: true, seq: s.seq });
            }
        }
        while base < n && acked[base] {
            base += 1;
        }
        for i in base..(base + window).min(n) {
            if !acked[i] && (!sent_before[i] || tick >= timer[i]) {
                if sent_before[i] {
                    crate::st!(net_retransmit);
                }
                sent_before[i] = true;
                timer[i] = tick + rto;
                outbox.push(Seg { data: segs[i].to_vec(), sum: hash_bytes(i as u64, segs[i]), ack: false, seq: i });
            }
        }
        for mut s in outbox {
            let k = count;
            count += 1;
            order += 1;
            if parts.iter().any(|&(a, b)| tick >= a && tick < b) {
                crate::st!(net_partition);
                run.nontrivial = true;
                continue;
            }
            let mut at = tick + 1;
            match fate.get(&k) {
                Some((f, a)) => {
                    run.nontrivial = true;
                    match f.as_str() {
                        "loss" => {
                            crate::st!(net_loss);
                            continue;
                        }
                        "dup" => {
                            crate::st!(net_dup);
                            net.insert((tick + 1 + a, order + (1 << 40)), Seg { data: s.data.clone(), ..s });
                        }
                        "delay" => {
                            crate::st!(net_delay);
                            crate::st!(net_reorder);
                            at += a;
                        }
                        _ => {
                            let m = s.data.len();
                            if m > 0 {
                                s.data[*a as usize % m] ^= 1 << (a >> 8 & 7);
                            } else {
                                s.sum ^= 1;
                            }
                        }
                    }
                }
                None => {}
            }
            net.insert((at, order), s);
        }
        tick += 1;
        if tick > bound {
            // would be a defect of this transport, never of the library
            panic!("transport made no progress");
        }
    }
    crate::st!(net_ticks, tick);
    run.rec_n(tick);
    run.rec_n(count);
    Ok(got.into_iter().flat_map(|g| g.unwrap()).collect())
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    // sender
    let mut out = Out1 { buf: vec![], x: p.seed ^ p.run, intr: false };
    let mut sent = vec![];
    for it in &p.items {
        let f = fields(it);
        if f[0] != "num" {
            continue;
        }
        let (Some(b), Some(s)) = (f.get(1).and_then(|x| op::unhex(x)), f.get(2).and_then(|x| op::spec_parse(x))) else { continue };
        if !lossless(b, &s) {
            continue;
        }
        let start = out.buf.len();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _l = hooks::enter();
            write!(out, "{}", f256ops::Shown(b, s))
        }));
        crate::st!(ops);
        let key = format!("roundtrip {} {}", hex(b), op::spec_text(&s));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(_)) => return viol("write", format!("writing {} as {} failed", hex(b), op::spec_text(&s)), key),
            Err(_) => return viol("panic", format!("writing {} as {} panicked", hex(b), op::spec_text(&s)), key),
        }
        let text = out.buf[start..].to_vec();
        if f.get(3) == Some(&"4") {
            // read here and now by the independent reader
            out.buf.truncate(start);
            run.rec(&text);
            if model::parse(&text) != Parsed::Val(b) {
                return viol("text", format!("{} written as {} gives {} which does not denote it", hex(b), op::spec_text(&s), op::show(&text)), key);
            }
            continue;
        }
        out.buf.push(b'\n');
        sent.push((b, s, text, num::<u8>(&f, 3).unwrap_or(0) & 3));
    }
    // link
    let bytes = carry(&out.buf, p, run)?;
    if bytes != out.buf {
        panic!("transport delivered something else");
    }
    // receiver
    let mut rd = io::BufReader::with_capacity(16, In1 { data: bytes, at: 0, x: p.num("reads", 0), intr: false });
    for (b, s, text, how) in &sent {
        let mut line = vec![];
        rd.read_until(b'\n', &mut line).unwrap();
        assert_eq!(line.pop(), Some(b'\n'));
        let t = String::from_utf8_lossy(&line);
        let t = if s.width.is_some() && s.fill != '0' { t.trim_matches(s.fill) } else { &t[..] };
        let got = std::panic::catch_unwind(|| {
            let _l = hooks::enter();
            f256ops::parse(*how, t)
        });
        crate::st!(ops);
        let key = format!("roundtrip {} {}", hex(*b), op::spec_text(s));
        let Ok(got) = got else { return viol("panic", format!("reading {} panicked", op::show(text)), key) };
        run.rec(text);
        run.rec(op::out_text(&got).as_bytes());
        run.log(|| format!("{} as {} -> {} -> {}", hex(*b), op::spec_text(s), op::show(text), op::out_text(&got)));
        let nan = model::is_nan(*b);
        let ok = match got {
            Out::F(g) => g == *b || nan && model::is_nan(g),
            _ => false,
        };
        let reader = match model::parse(t.as_bytes()) {
            Parsed::Val(v) => v == *b,
            Parsed::Nan => nan,
            _ => false,
        };
        if !reader {
            return viol("text", format!("{} written as {} gives {} which does not denote it", hex(*b), op::spec_text(s), op::show(text)), key);
        }
        if !ok {
            return viol("read", format!("{} written as {} is read back as {}", hex(*b), op::show(text), op::out_text(&got)), key);
        }
    }
    Ok(())
}
