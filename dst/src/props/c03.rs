//! Parsing damaged text never panics and yields the value it denotes or an error.
use super::*;
use crate::gen;
use crate::model::{self, Parsed};
use crate::op::hex;
use f256ops::Out;

pub static PROP: Prop = Prop {
    id: "C03",
    gen: plan,
    exec,
    quick: 60_000,
    build: "rel",
    rule: "a run is a log of 1-24 decimal literals written to a simulated disk in blocks, damaged by an explicit list of storage faults, read back and parsed at seeded alignments next to inaccessible pages; one run in 150 has a single record of up to 260000 digits around a tie between two numbers, also at the ends of the range where a tie needs 183467 digits; non-trivial: at least one fault changed bytes of some record, or a long record; distinct by the hash of texts and results",
    real: "f256 parsing (all four entry points)",
    simulated: "disk (truncation, torn/zeroed/stale/swapped/duplicated blocks, bit flips, byte loss), memory placement",
};
pub fn text_lim(r: &mut Rng) -> i64 {
    match r.below(100) {
        0..=84 => *r.pick(&[30i64, 90, 300, 500]),
        85..=96 => 1500,
        97..=98 => 4000,
        _ => 79000,
    }
}
fn plan(r: &mut Rng, p: &mut Plan) {
    if r.chance(1, 150) {
        if r.chance(1, 3) {
            extreme(r, p);
        } else {
            long(r, p);
        }
        return;
    }
    let lim = text_lim(r);
    let n = match lim {
        79000 => 1,
        4000 => 1 + r.usize(3),
        _ => 1 + r.usize(24),
    };
    p.put("block", *r.pick(&[1u64, 4, 8, 8, 16, 64, 512]));
    let vals = gen::Pool::new(r, 6, Some(lim.min(78000)));
    let m = gen::Mix { num: 0, parse: 1, bytes: 0, render: 0, lim, nums: vec![], render_any: false };
    let mut total = 0;
    for _ in 0..n {
        let t = if r.chance(1, 12) {
            let (d, k) = gen::near_tie(r, 1100);
            gen::put_point(r, "", &d, k)
        } else {
            gen::text(r, &m, &vals)
        };
        total += t.len();
        p.item(format!("rec\t{}\t{}\t{}", enc(&t), r.below(4), r.below(64)));
    }
    if total == 0 {
        return;
    }
    let faults = if r.chance(1, 6) { 0 } else { 1 + r.log(12) };
    for _ in 0..faults {
        let at = r.usize(total);
        match r.below(12) {
            0 => p.item(format!("flt\ttruncate\t{at}")),
            1 | 2 => p.item(format!("flt\tbitflip\t{at}\t{}", r.below(8))),
            3 => p.item(format!("flt\tzeroblock\t{at}")),
            4 => p.item(format!("flt\tdupblock\t{at}\t{}", r.usize(total))),
            5 => p.item(format!("flt\tswapblock\t{at}\t{}", r.usize(total))),
            6 => p.item(format!("flt\tlostblock\t{at}")),
            7 => p.item(format!("flt\tsplice\t{at}\t{}", r.log(20))),
            8 | 9 => p.item(format!("flt\tsub\t{at}\t{}", *r.pick(b"0123456789019.e-+E. ,_in:/;"))),
            10 => p.item(format!("flt\tdrop\t{at}\t{}", r.log(20))),
            _ => p.item(format!("flt\tstale\t{at}\t{}", r.u64() >> 40)),
        }
    }
}
/// One record with more digits than the slow path stores: digits that decide
/// the value, filler, and perhaps something after it.
fn long(r: &mut Rng, p: &mut Plan) {
    if r.chance(1, 4) {
        // a long run of zeros before the digits, and an exponent that makes up for them
        let (d, k) = if r.chance(1, 2) { gen::tie(r) } else { (format!("{}", 1 + r.log(1 << 40)), r.range(-80, 80)) };
        let n = match r.below(4) {
            0 => *r.pick(&[128i64, 256, 32_768, 65_536, 131_072]) + r.range(-80, 80),
            1 => r.log(3000) as i64,
            _ => r.log(250_000) as i64,
        };
        let len = d.len() as i64;
        let sign = *r.pick(&["", "", "-", "+"]);
        let (head, tail) = match r.below(4) {
            0 => (String::new(), format!("{d}e{k}")),
            1 => (String::new(), format!("{}.{}e{}", &d[..1], &d[1..], k + len - 1)),
            2 => (".".into(), format!("{d}e{}", k + len + n)),
            _ => ("0.".into(), format!("{d}E{}", k + len + n)),
        };
        p.put("block", *r.pick(&[8u64, 512, 4096]));
        p.item(format!("lrec\t{}\t0\t{n}\t{}\t{}\t{}", enc(format!("{sign}{head}").as_bytes()), enc(tail.as_bytes()), r.below(4), r.below(64)));
        if r.chance(1, 3) {
            p.item(format!("flt\tsub\t{}\t{}", r.usize(n as usize + 1), *r.pick(b"0123456789.")));
        }
        return;
    }
    let (mut d, mut k) = gen::tie(r);
    // numbers that keep their number of digits when they are scaled down
    for _ in 0..if r.chance(1, 2) { 40 } else { 0 } {
        let n = d.len() as i64 + k;
        let pow2 = [1u64, 8, 64, 512, 8192, 65_536, 524_288, 8_388_608, 67_108_864, 536_870_912, 8_589_934_592];
        if (1..=10).contains(&n) && d.len() > 10 && d[..n as usize].parse::<u64>().is_ok_and(|x| x >= pow2[n as usize]) {
            break;
        }
        (d, k) = gen::tie(r);
    }
    let below = r.chance(1, 3);
    if below {
        // the last digit of a tie is a 5
        let l = d.pop().unwrap();
        d.push((l as u8 - 1) as char);
    }
    let fill = if below { '9' } else { '0' };
    let limit = 183_467i64;
    let tail = *r.pick(&["1", "1", "1", "10", "100000000000000000000000000001", "0000000000", "", "9", "01", "5"]);
    let tail = if below { "9" } else { tail };
    let used = (d.len() + tail.trim_end_matches('0').len()) as i64;
    let n = match r.below(6) {
        0 => limit - d.len() as i64 + r.below(9) as i64 - 4,
        1 => limit + r.log(60_000) as i64,
        2 => r.log(limit as u64) as i64,
        3 => limit,
        // exactly as many as are stored, or nearly
        _ => limit - used + *r.pick(&[0i64, 0, 0, 0, -1, -2, -3, 1]),
    };
    // where the point goes
    let (head, tail) = match r.below(4) {
        0 => (format!(".{d}"), format!("{tail}e{}", k + d.len() as i64)),
        1 => (format!("0.000{d}"), format!("{tail}E{}", k + 3 + d.len() as i64)),
        2 => (d.clone(), format!("{tail}e{}", k - n - tail.len() as i64)),
        _ => (format!("{}.{}", &d[..1], &d[1..]), format!("{tail}e{}", k + d.len() as i64 - 1)),
    };
    let head = format!("{}{head}", r.pick(&["", "-", "+"]));
    p.put("block", *r.pick(&[8u64, 512, 4096]));
    p.item(format!("lrec\t{}\t{fill}\t{n}\t{}\t{}\t{}", enc(head.as_bytes()), enc(tail.as_bytes()), r.below(4), r.below(64)));
    for _ in 0..r.below(3) {
        let at = r.usize(head.len() + n as usize + tail.len());
        match r.below(3) {
            0 => p.item(format!("flt\tsub\t{at}\t{}", *r.pick(b"0123456789."))),
            1 => p.item(format!("flt\tzeroblock\t{at}")),
            _ => p.item(format!("flt\tlostblock\t{at}")),
        }
    }
}
/// One record around a tie at the ends of the range, where the exact digits
/// are as many as a number of this type can need.
fn extreme(r: &mut Rng, p: &mut Plan) {
    let below_one = |r: &mut Rng| gen::with_exp(r.range(1, 40000), gen::frac(r), false);
    let b = match r.below(12) {
        0 => (0, 0),
        1 => (0, 1),
        2 => (0, r.below(1000) as u128),
        3 | 4 => {
            let x = gen::subnormal(r);
            (x.0 & !model::SIGN, x.1)
        }
        5 => (model::FRAC_HI, u128::MAX),
        6 => (model::FRAC_HI, u128::MAX - r.below(5) as u128),
        7 => gen::with_exp(1, gen::frac(r), false),
        8 => below_one(r),
        9 => gen::with_exp(0x7fffe, (model::FRAC_HI, u128::MAX), false),
        10 => gen::with_exp(0x7fffe - r.range(0, 3), gen::frac(r), false),
        _ => gen::with_exp(0x7fffe - r.log(30000) as i64, gen::frac(r), false),
    };
    let tail = match r.below(8) {
        0 | 1 => "",
        2 => "below",
        3 => "1",
        4 => "0",
        5 => "5",
        6 => "0000001",
        _ => "9",
    };
    p.put("block", *r.pick(&[8u64, 512, 4096]));
    p.item(format!("xrec\t{}\t{}\t{}\t{}\t{}\t{}", hex(b), tail, r.below(4), r.below(3), r.below(4), r.below(64)));
    for _ in 0..r.below(2) {
        let at = r.usize(80_000);
        match r.below(3) {
            0 => p.item(format!("flt\tsub\t{at}\t{}", *r.pick(b"0123456789."))),
            1 => p.item(format!("flt\tlostblock\t{at}")),
            _ => p.item(format!("flt\ttruncate\t{at}")),
        }
    }
}
/// the text of such a record
fn extreme_text(b: model::Bits, tail: &str, form: u8, sign: u8) -> Vec<u8> {
    let b = (b.0 & !model::SIGN, b.1);
    if model::is_nan(b) || model::is_inf(b) {
        return vec![];
    }
    let (c, q) = model::decode(b);
    let mut c2 = c.shl(1);
    c2.add_small(1);
    let (mut d, mut k) = model::exact_decimal(&c2, q - 1);
    let z = d.len() - d.trim_end_matches('0').len();
    if tail == "below" {
        d.truncate(d.len() - z);
        k += z as i64;
        let l = d.pop().unwrap_or('1');
        d.push((l as u8 - 1) as char);
        d += "99";
        k -= 2;
    } else if tail.bytes().all(|c| c.is_ascii_digit()) {
        // with trailing zeros of an integer kept, or moved to the exponent
        if form & 1 == 0 {
            d.truncate(d.len() - z);
            k += z as i64;
        }
        d += tail;
        k -= tail.len() as i64;
    }
    let mut s = String::from(["", "-", "+"][sign as usize % 3]);
    let point = d.len() as i64 + k;
    match form & 3 {
        0 => s += &format!("{}.{}e{}", &d[..1], &d[1..], point - 1),
        1 => s += &format!("{d}E{k}"),
        2 if k < 0 && point <= 0 => s += &format!("0.{}{d}", "0".repeat(-point as usize)),
        2 if k < 0 => s += &format!("{}.{}", &d[..point as usize], &d[point as usize..]),
        2 => s += &format!("{d}{}", "0".repeat(k as usize)),
        _ => s += &format!(".{d}e+{point}").replace("+-", "-"),
    }
    s.into_bytes()
}
/// The simulated disk: a flat image with record boundaries in a separate index.
pub struct Disk {
    pub data: Vec<u8>,
    pub ends: Vec<usize>,
    pub block: usize,
}
impl Disk {
    pub fn new(block: usize) -> Disk {
        Disk { data: vec![], ends: vec![], block: block.max(1) }
    }
    pub fn append(&mut self, b: &[u8]) {
        self.data.extend_from_slice(b);
        self.ends.push(self.data.len());
    }
    pub fn record(&self, i: usize) -> Vec<u8> {
        let s = if i == 0 { 0 } else { self.ends[i - 1] };
        let (s, e) = (s.min(self.data.len()), self.ends[i].min(self.data.len()));
        self.data[s..e.max(s)].to_vec()
    }
    /// apply one fault; true if any byte changed or moved
    pub fn fault(&mut self, f: &[&str]) -> bool {
        let n = self.data.len();
        if n == 0 || f.len() < 3 {
            return false;
        }
        let at = num::<usize>(f, 2).unwrap_or(0) % n;
        let arg = num::<u64>(f, 3).unwrap_or(0);
        let b = self.block;
        let blk = |x: usize| (x / b * b, (x / b * b + b).min(n));
        let old = self.data.clone();
        match f[1] {
            "truncate" => {
                self.data.truncate(at);
                crate::st!(d_truncate);
            }
            "bitflip" => {
                self.data[at] ^= 1 << (arg & 7);
                crate::st!(d_bitflip);
            }
            "zeroblock" => {
                let (s, e) = blk(at);
                self.data[s..e].fill(0);
                crate::st!(d_zeroblock);
            }
            "dupblock" | "swapblock" => {
                let (s, e) = blk(at);
                let (s2, e2) = blk(arg as usize % n);
                let l = (e - s).min(e2 - s2);
                for i in 0..l {
                    if f[1] == "swapblock" {
                        self.data.swap(s + i, s2 + i);
                    } else {
                        self.data[s + i] = old[s2 + i];
                    }
                }
                if f[1] == "swapblock" {
                    crate::st!(d_swapblock);
                } else {
                    crate::st!(d_dupblock);
                }
            }
            "lostblock" => {
                let (s, e) = blk(at);
                self.data.drain(s..e);
                for x in self.ends.iter_mut() {
                    if *x >= e {
                        *x -= e - s;
                    } else if *x > s {
                        *x = s;
                    }
                }
                crate::st!(d_lostblock);
            }
            "splice" => {
                // the index is damaged: one boundary moves
                let k = self.ends.len();
                if k > 0 {
                    let i = at % k;
                    self.ends[i] = (self.ends[i] + arg as usize).min(n);
                    for j in i + 1..k {
                        self.ends[j] = self.ends[j].max(self.ends[i]);
                    }
                    crate::st!(d_splice);
                    return true;
                }
            }
            "sub" => {
                self.data[at] = arg as u8;
                crate::st!(d_torn);
            }
            "drop" => {
                let e = (at + arg as usize).min(n);
                self.data.drain(at..e);
                for x in self.ends.iter_mut() {
                    if *x >= e {
                        *x -= e - at;
                    } else if *x > at {
                        *x = at;
                    }
                }
                crate::st!(d_torn);
            }
            "stale" => {
                // old contents of the block shine through
                let (s, e) = blk(at);
                let mut x = arg;
                for i in s..e {
                    x = mix(x);
                    self.data[i] = b"0123456789.e-+ 5"[(x & 15) as usize];
                }
                crate::st!(d_stale);
            }
            _ => {}
        }
        self.data != old
    }
}
/// Memory between inaccessible pages.
pub struct Fence {
    base: *mut u8,
    pages: usize,
}
impl Fence {
    pub fn new(pages: usize) -> Fence {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), (pages + 2) * 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(p as isize != -1);
            libc::mprotect(p.add(4096) as *mut _, pages * 4096, libc::PROT_READ | libc::PROT_WRITE);
            Fence { base: p, pages }
        }
    }
    /// the accessible part
    pub fn range(&self) -> (usize, usize) {
        let lo = self.base as usize + 4096;
        (lo, lo + self.pages * 4096)
    }
    /// place a text so that it ends at (or, for odd `how`, starts after) the
    /// inaccessible page, or somewhere inside at a chosen alignment
    pub fn place(&self, t: &[u8], how: u64) -> &str {
        let room = self.pages * 4096;
        assert!(t.len() + 64 <= room);
        let off = match how % 4 {
            0 | 1 => room - t.len(),
            2 => 0,
            _ => (how / 4 % 32) as usize,
        };
        unsafe {
            let d = self.base.add(4096);
            // surroundings that would be taken for digits if they were read
            std::ptr::write_bytes(d, b'7', room.min(off + t.len() + 64));
            let q = d.add(off);
            std::ptr::copy_nonoverlapping(t.as_ptr(), q, t.len());
            std::str::from_utf8(std::slice::from_raw_parts(q, t.len())).unwrap()
        }
    }
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let mut d = Disk::new(p.num("block", 8) as usize);
    let mut how = vec![];
    let mut orig = vec![];
    for it in &p.items {
        let f = fields(it);
        if f[0] == "rec" {
            if let Some(t) = f.get(1).and_then(|x| dec(x)) {
                d.append(&t);
                orig.push(t);
                how.push((num::<u8>(&f, 2).unwrap_or(0) & 3, num::<u64>(&f, 3).unwrap_or(0)));
            }
        }
    }
    for it in &p.items {
        let f = fields(it);
        if f[0] == "lrec" && f.len() > 6 {
            if let (Some(mut t), Some(n), Some(e)) = (dec(f[1]), num::<usize>(&f, 3), dec(f[4])) {
                t.extend(f[2].as_bytes().iter().take(1).cycle().take(n.min(1_000_000)));
                t.extend(e);
                d.append(&t);
                orig.push(t);
                how.push((num::<u8>(&f, 5).unwrap_or(0) & 3, num::<u64>(&f, 6).unwrap_or(0)));
                crate::st!(long_texts);
                run.nontrivial = true;
            }
        }
    }
    for it in &p.items {
        let f = fields(it);
        if f[0] == "xrec" && f.len() > 6 {
            if let (Some(b), Some(form), Some(sign)) = (op::unhex(f[1]), num::<u8>(&f, 3), num::<u8>(&f, 4)) {
                let t = extreme_text(b, f[2], form, sign);
                d.append(&t);
                orig.push(t);
                how.push((num::<u8>(&f, 5).unwrap_or(0) & 3, num::<u64>(&f, 6).unwrap_or(0)));
                crate::st!(long_texts);
                run.nontrivial = true;
            }
        }
    }
    for it in &p.items {
        let f = fields(it);
        if f[0] == "flt" {
            run.nontrivial |= d.fault(&f);
        }
    }
    let big = (0..how.len()).map(|i| d.record(i).len()).max().unwrap_or(0);
    let fence = Fence::new((big + 128) / 4096 + 1);
    for i in 0..how.len() {
        let t = d.record(i);
        if t == orig[i] {
            crate::st!(d_none);
        }
        let utf = std::str::from_utf8(&t).is_ok();
        if !utf {
            crate::st!(utf8_rejected);
            continue;
        }
        check_text(&fence, &t, how[i].0, how[i].1, run)?;
    }
    Ok(())
}
pub fn check_text(fence: &Fence, t: &[u8], how: u8, place: u64, run: &mut Run) -> Result<(), Viol> {
    let want = model::parse(t);
    let s = fence.place(t, place);
    crate::st!(guard_page_texts);
    crate::st!(ops);
    let got = std::panic::catch_unwind(|| {
        let _l = hooks::enter();
        f256ops::parse(how, s)
    });
    let key = format!("parse {}", op::show(t));
    let got = match got {
        Ok(g) => g,
        Err(_) => return viol("panic", format!("parsing {} panicked", op::show(t)), key),
    };
    run.rec(t);
    run.rec(op::out_text(&got).as_bytes());
    run.log(|| format!("parse {} -> {}", op::show(t), op::out_text(&got)));
    let ok = match (want, got) {
        (Parsed::Val(w), Out::F(g)) => w == g,
        (Parsed::Nan, Out::F(g)) => model::is_nan(g),
        (Parsed::Empty, Out::Err(e)) => e,
        (Parsed::Invalid, Out::Err(e)) => !e,
        _ => false,
    };
    match got {
        Out::Err(true) => crate::st!(parse_err_empty),
        Out::Err(false) => crate::st!(parse_err_invalid),
        _ => crate::st!(parse_ok),
    }
    if !ok {
        let (class, w) = match (want, got) {
            (Parsed::Val(w), Out::F(_)) => ("value", hex(w)),
            (Parsed::Val(w), _) => ("rejected", hex(w)),
            (Parsed::Nan, _) => ("nan", "NaN".into()),
            (Parsed::Empty, _) => ("error-kind", "an error of the empty kind".into()),
            (Parsed::Invalid, Out::F(_)) => ("accepted", "an error".into()),
            (Parsed::Invalid, _) => ("error-kind", "an error of the invalid kind".into()),
        };
        return viol(class, format!("parsing {} gives {} instead of {w}", op::show(t), op::out_text(&got)), key);
    }
    Ok(())
}
