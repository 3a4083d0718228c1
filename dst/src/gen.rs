//! Generators: values, texts, formatting specifications, operations.
use crate::big::Big;
use crate::model::{self, Bits, EXP_MASK, FRAC_HI, SIGN};
use crate::op::Op;
use crate::rng::Rng;
use f256ops::{Spec, OPS};

pub fn with_exp(e: i64, frac: Bits, s: bool) -> Bits {
    ((if s { SIGN } else { 0 }) | ((e as u128) << 108) | (frac.0 & FRAC_HI), frac.1)
}
pub fn bits_uniform(r: &mut Rng) -> Bits {
    (r.u128(), r.u128())
}
/// 236-bit fraction patterns
pub fn frac(r: &mut Rng) -> Bits {
    let all: Bits = (FRAC_HI, u128::MAX);
    match r.below(12) {
        0 => (0, 0),
        1 => all,
        2 => (r.u128(), 0),
        3 => (0, r.u128()),
        4 => {
            // few bits set
            let mut f = (0u128, 0u128);
            for _ in 0..1 + r.below(4) {
                let p = r.below(236);
                if p < 128 {
                    f.1 |= 1 << p
                } else {
                    f.0 |= 1 << (p - 128)
                }
            }
            f
        }
        5 => {
            // few bits clear
            let mut f = all;
            for _ in 0..1 + r.below(4) {
                let p = r.below(236);
                if p < 128 {
                    f.1 &= !(1 << p)
                } else {
                    f.0 &= !(1 << (p - 128))
                }
            }
            f
        }
        6 => {
            // runs
            let mut f = (0u128, 0u128);
            let mut p = 0;
            let mut v = r.chance(1, 2);
            while p < 236 {
                let n = r.log(120);
                for _ in 0..n {
                    if p < 236 && v {
                        if p < 128 {
                            f.1 |= 1 << p
                        } else {
                            f.0 |= 1 << (p - 128)
                        }
                    }
                    p += 1;
                }
                v = !v;
            }
            f
        }
        7 => {
            // low bits random only / high bits random only
            let n = r.below(128);
            if r.chance(1, 2) {
                (0, r.u128() >> n)
            } else {
                (r.u128() << n, 0)
            }
        }
        _ => (r.u128(), r.u128()),
    }
}
pub const SPECIALS: &[Bits] = &[
    (0, 0),
    (SIGN, 0),
    (0x3ffff << 108, 0),
    (SIGN | 0x3ffff << 108, 0),
    (0x3fffe << 108, 0),
    (0x40000 << 108, 0),
    (EXP_MASK, 0),
    (SIGN | EXP_MASK, 0),
    model::NAN,
    (SIGN | EXP_MASK | 1 << 107, 0),
    (EXP_MASK, 1),
    (EXP_MASK | 1, 0),
    (EXP_MASK | FRAC_HI, u128::MAX),
    (SIGN | EXP_MASK, 1 << 127),
    (EXP_MASK - 1, u128::MAX),          // MAX
    (SIGN | (EXP_MASK - 1), u128::MAX), // MIN
    (1 << 108, 0),                      // MIN_POSITIVE
    (FRAC_HI, u128::MAX),               // largest subnormal
    (0, 1),                             // smallest subnormal
    (SIGN, 1),
    (1, 0),
    (0, u128::MAX),
    (0x3ff13 << 108, 0), // EPSILON
    (0x3ffff << 108, 1),
    (0x3fffe << 108 | FRAC_HI, u128::MAX),
    (0x3fffe << 108, 1), // 0.5 + tiny
    (0x3fffd << 108 | FRAC_HI, u128::MAX),
];
pub fn exponent(r: &mut Rng) -> i64 {
    // biased, normal
    match r.below(10) {
        0 => r.range(1, 0x7fffe),
        1 => r.range(1, 300),
        2 => 0x7fffe - r.range(0, 300),
        3 => 0x3ffff + r.range(-240, 240),
        4 => 0x3ffff + r.range(-8, 8),
        5 => 0x3ffff + r.range(-1800, 1800),
        6 => 0x3ffff + 236 + r.range(-4, 4),
        7 => 0x3ffff + *r.pick(&[-4i64, -3, -2, -1, 0, 1, 2, 3]) * r.range(0, 1 << 15).min(65000),
        8 => 0x3ffff + r.range(-140, 140),
        _ => 0x3ffff + r.range(-20000, 20000),
    }
    .clamp(1, 0x7fffe)
}
pub fn ulp_step(b: Bits, d: i64) -> Bits {
    let m = Big::from_bits((b.0 & !SIGN, b.1));
    let _ = m;
    let v = (b.0 & !SIGN, b.1);
    let (lo, c) = if d >= 0 { v.1.overflowing_add(d as u128) } else { v.1.overflowing_sub((-d) as u128) };
    let hi = if d >= 0 { v.0.wrapping_add(c as u128) } else { v.0.wrapping_sub(c as u128) };
    (b.0 & SIGN | hi & !SIGN, lo)
}
pub fn small_int(r: &mut Rng) -> Bits {
    let k = if r.chance(1, 2) { r.below(1000) as u128 } else { r.u128() >> r.below(128) };
    model::round(r.chance(1, 3), &Big::from_u128(k), 0, false)
}
/// any finite non-NaN value with bounded decimal exponent magnitude `lim`
pub fn value_within(r: &mut Rng, lim: i64) -> Bits {
    let bl = lim * 332 / 100;
    match r.below(16) {
        0 => *r.pick(&SPECIALS[..6]),
        1 | 2 => small_int(r),
        3 => {
            // short decimal
            let w = 1 + r.below(18) as u32;
            let d = r.below(10u64.pow(w));
            model::from_decimal(r.chance(1, 2), &Big::from_u128(d as u128), r.range(-lim, lim - 20))
        }
        4 => {
            // power of ten and neighbours
            let b = model::from_decimal(false, &Big::from_u128(1), r.range(-lim, lim));
            ulp_step(b, r.range(-3, 3))
        }
        5 => {
            // power of two and neighbours
            ulp_step(with_exp((0x3ffff + r.range(-bl, bl)).clamp(1, 0x7fffe), (0, 0), r.chance(1, 2)), r.range(-2, 2))
        }
        6 => {
            // integers with many bits
            let n = r.below(237);
            let f = frac(r);
            let c = Big::from_bits((f.0 | 1 << 108, f.1)).shr_sticky(n).0;
            model::round(r.chance(1, 2), &c, 0, false)
        }
        7 => {
            // short decimal with fraction digits
            let d = r.u128() >> r.below(128);
            model::from_decimal(r.chance(1, 2), &Big::from_u128(d), -r.range(0, 80.min(lim)))
        }
        8 => with_exp(0x3ffff + r.range(-240, 240).clamp(-bl, bl), frac(r), r.chance(1, 2)),
        9 => {
            // (k/4) * something: halves and quarters
            model::round(r.chance(1, 2), &Big::from_u128(r.u128() >> r.below(128)), -r.range(0, 60), false)
        }
        _ => with_exp((0x3ffff + r.range(-bl, bl)).clamp(1, 0x7fffe), frac(r), r.chance(1, 2)),
    }
}
pub fn subnormal(r: &mut Rng) -> Bits {
    let f = frac(r);
    let n = if r.chance(1, 3) { 0 } else { r.below(236) };
    let c = Big::from_bits((f.0 & FRAC_HI, f.1)).shr_sticky(n).0;
    let g = |i: usize| c.0.get(i).copied().unwrap_or(0) as u128;
    let b = (g(2) | g(3) << 64, g(0) | g(1) << 64);
    (b.0 | if r.chance(1, 2) { SIGN } else { 0 }, b.1)
}
pub fn nan(r: &mut Rng) -> Bits {
    let mut b = (r.u128() | EXP_MASK, r.u128());
    match r.below(6) {
        0 => b = (b.0 & !FRAC_HI | 1 << 107, 0),
        1 => b.0 &= !FRAC_HI,
        2 => b.1 = 0,
        3 => b = (b.0 & !FRAC_HI, 1 << r.below(128)),
        4 => b = (b.0 & !FRAC_HI | 1 << r.below(108), 0),
        _ => {}
    }
    if !model::is_nan(b) {
        b.1 = 1;
    }
    b
}
/// any pattern
pub fn any(r: &mut Rng) -> Bits {
    match r.below(20) {
        0 | 1 => *r.pick(SPECIALS),
        2 => nan(r),
        3 => subnormal(r),
        4 | 5 => small_int(r),
        6..=9 => value_within(r, 100),
        10 | 11 => value_within(r, 600),
        12 => value_within(r, 78000),
        _ => with_exp(exponent(r), frac(r), r.chance(1, 2)),
    }
}
/// a value related to one already in use (cache and hash collisions, near-equal operands)
pub fn sibling(r: &mut Rng, b: Bits) -> Bits {
    match r.below(12) {
        0 => model::neg(b),
        1 => ulp_step(b, r.range(-2, 2)),
        2 => {
            let p = r.below(256);
            if p < 128 {
                (b.0, b.1 ^ 1 << p)
            } else {
                (b.0 ^ 1 << (p - 128), b.1)
            }
        }
        3 => (b.0, r.u128()),
        4 => (b.0 & !FRAC_HI | r.u128() & FRAC_HI, b.1),
        5 => {
            let e = (b.0 & EXP_MASK) >> 108;
            let e2 = (e as i64 + r.range(-3, 3)).clamp(0, 0x7ffff) as u128;
            (b.0 & !EXP_MASK | e2 << 108, b.1)
        }
        6 => {
            let e = (b.0 & EXP_MASK) >> 108;
            let e2 = (e as i64 + r.range(-300, 300)).clamp(1, 0x7fffe) as u128;
            (b.0 & !EXP_MASK | e2 << 108, b.1)
        }
        7 => (b.1, b.0),
        8 => (b.0, b.1 & !(u64::MAX as u128) | r.u64() as u128),
        9 => (b.0, b.1 & u64::MAX as u128),
        10 => (b.0 & !EXP_MASK | (r.below(0x7fffe) as u128) << 108, b.1),
        _ => b,
    }
}
pub struct Pool {
    pub v: Vec<Bits>,
    pub lim: Option<i64>,
}
impl Pool {
    pub fn new(r: &mut Rng, n: usize, lim: Option<i64>) -> Self {
        let mut p = Pool { v: vec![], lim };
        for _ in 0..n {
            let x = if !p.v.is_empty() && r.chance(1, 3) {
                let b = p.v[r.usize(p.v.len())];
                sibling(r, b)
            } else {
                match lim {
                    Some(l) => value_within(r, l),
                    None => any(r),
                }
            };
            p.v.push(x);
        }
        p
    }
    pub fn get(&self, r: &mut Rng) -> Bits {
        self.v[r.usize(self.v.len())]
    }
}

pub const FILLS: &[char] = &[' ', ' ', '0', '*', '_', '-', '+', '.', 'e', 'é', '中', '🦀', '~'];
pub fn spec(r: &mut Rng) -> Spec {
    let kind = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4]);
    let mut s = Spec::plain(kind);
    if r.chance(1, 3) {
        return s;
    }
    if r.chance(1, 2) {
        s.width = Some(match r.below(8) {
            0 => r.below(4) as u16,
            1..=4 => r.below(100) as u16,
            5 | 6 => r.below(400) as u16,
            _ => r.log(20000) as u16,
        });
        s.fill = *r.pick(FILLS);
        s.align = r.below(4) as u8;
        s.zero = r.chance(1, 4);
    }
    if r.chance(1, 2) {
        s.prec = Some(if r.chance(1, 60) { 76 + r.below(100) as u16 } else { r.below(76) as u16 });
    }
    s.plus = r.chance(1, 4);
    s
}

/// decimal literals of all shapes; `lim` bounds the decimal exponent of those
/// that are costly to parse
/// digits and decimal exponent of a number half-way between two neighbours
pub fn tie(r: &mut Rng) -> (String, i64) {
    loop {
        let b = value_within(r, 60);
        if !model::is_zero(b) && !model::is_inf(b) && !model::is_nan(b) {
            let (c, q) = model::decode(b);
            let mut c2 = c.shl(1);
            c2.add_small(1);
            let (d, k) = model::exact_decimal(&c2, q - 1);
            let t = d.trim_end_matches('0');
            return (t.into(), k + (d.len() - t.len()) as i64);
        }
    }
}
/// 74-77 digits at a decimal exponent of moderate size whose value is as near
/// to the midpoint of two numbers as that many digits allow, or a little off:
/// what an approximation by 256 bits can just not, or just, decide
pub fn near_tie(r: &mut Rng, lim: i64) -> (String, i64) {
    let m = lim.min(1100);
    let k = r.range(-m, m);
    let mut w = digits(r, 77);
    w.replace_range(..1, &(1 + r.below(9)).to_string());
    if let model::Parsed::Val(b) = model::parse(format!("{w}e{k}").as_bytes()) {
        if !model::is_zero(b) && !model::is_inf(b) && !model::is_nan(b) {
            let (c, q) = model::decode(b);
            let mut c2 = c.shl(1);
            c2.add_small(1);
            let (d, e) = model::exact_decimal(&c2, q - 1);
            // 77 digits fit if the first ones are below 1.157...
            let n = if d.as_bytes()[..3] < b"115"[..] || r.chance(1, 8) { 77 } else { 76 - r.log(3) as usize };
            if d.len() > n {
                let mut v = d.as_bytes()[..n].to_vec();
                let by = if r.chance(1, 4) { 0 } else { { let m = *r.pick(&[1 << 6, 1 << 10, 1 << 16]); r.log(m) } };
                let last: u64 = String::from_utf8_lossy(&v[n - 12..]).parse().unwrap();
                let last = if r.chance(1, 2) { last + by } else { last.saturating_sub(by) };
                if last < 1_000_000_000_000 {
                    v.splice(n - 12.., format!("{last:012}").into_bytes());
                }
                return (String::from_utf8(v).unwrap(), e + (d.len() - n) as i64);
            }
        }
    }
    (w, k)
}
/// a long text: the digits of a tie, filler, and perhaps something after it
pub fn long_text(r: &mut Rng) -> Vec<u8> {
    let (d, k) = tie(r);
    let n = 1000 + r.log(250_000) as usize;
    let (fill, tail) = *r.pick(&[("0", "1"), ("0", "1"), ("0", ""), ("9", "9")]);
    let sign = *r.pick(&["", "-", "+"]);
    format!("{sign}{}.{}{}{tail}e{}", &d[..1], &d[1..], fill.repeat(n), k + d.len() as i64 - 1).into_bytes()
}
pub fn literal(r: &mut Rng, lim: i64) -> Vec<u8> {
    let mut s = String::new();
    match r.below(8) {
        0 => s.push('-'),
        1 => s.push('+'),
        _ => {}
    }
    match r.below(22) {
        21 => {
            // as many digits as fit into 256 bits, next to a midpoint
            let (d, k) = near_tie(r, lim);
            return put_point(r, &s, &d, k);
        }
        20 => {
            let (d, k) = near_shift(r, lim);
            if r.chance(1, 2) {
                return put_point(r, &s, &d, k);
            }
            // the midpoint next to it
            if let model::Parsed::Val(b) = model::parse(format!("{d}e{k}").as_bytes()) {
                if !model::is_zero(b) && !model::is_inf(b) && !model::is_nan(b) {
                    let (c, q) = model::decode(b);
                    let mut c2 = c.shl(1);
                    c2.add_small(1);
                    let (d, k) = model::exact_decimal(&c2, q - 1);
                    if d.len() < 3000 {
                        return put_point(r, &s, &d, k);
                    }
                }
            }
            s += "2.5";
        }
        0 => {
            s += r.pick(&["inf", "infinity", "nan", "NaN", "Inf", "INFINITY", "-inf", "in", "infinit", "nano", "nan(1)", "∞", "0x1p3", "1_000", "0b1"][..]);
        }
        1 => s += r.pick(&["", ".", "e", "e5", ".e5", "+", "0e", "1e+", "1e-", "1e", "1.e", "1.e3", ".5", "5.", "..5", "5..", "1.2.3", "--1", "+-1", "1-2", "1e5e5", "1e5.5", " 1", "1 ", "1\n", "\u{0}", "1\u{0}", "٣", "１２"][..]),
        2 => {
            // exact or almost exact midpoint between neighbours
            let b = value_within(r, lim.min(300));
            if !model::is_zero(b) && !model::is_inf(b) && !model::is_nan(b) {
                let (c, q) = model::decode(b);
                let mut c2 = c.shl(1);
                c2.add_small(1);
                let (d, k) = model::exact_decimal(&c2, q - 1);
                let mut d = d;
                match r.below(6) {
                    0 => {}
                    1 => {
                        d.push_str(&"0".repeat(r.usize(60)));
                        d.push('1');
                        let ext = d.len();
                        let _ = ext;
                    }
                    2 => {
                        // truncate: slightly below the midpoint
                        let n = 60 + r.usize(40);
                        return put_point(r, &s, &d[..n.min(d.len())], k + (d.len() - n.min(d.len())) as i64);
                    }
                    3 => {
                        // decrement last digit
                        let mut v = d.into_bytes();
                        let i = v.iter().rposition(|&c| c != b'0').unwrap();
                        v[i] -= 1;
                        v.extend(std::iter::repeat(b'9').take(r.usize(50)));
                        let ext = v.len();
                        d = String::from_utf8(v).unwrap();
                        let base = model::exact_decimal(&c2, q - 1).0.len();
                        return put_point(r, &s, &d, k - (ext - base) as i64);
                    }
                    _ => {
                        // round up at 70..90 digits: slightly above
                        let n = (70 + r.usize(20)).min(d.len());
                        let mut v = Big::from_digits(&d.as_bytes()[..n].iter().map(|c| c - b'0').collect::<Vec<_>>());
                        v.add_small(1);
                        let t = v.to_decimal();
                        return put_point(r, &s, &t, k + (d.len() - n) as i64);
                    }
                }
                let base = model::exact_decimal(&c2, q - 1).0.len();
                let ext = d.len() - base;
                return put_point(r, &s, &d, k - ext as i64);
            }
            s += "1.5";
        }
        3 => {
            // range boundaries
            let w = 1 + r.usize(90);
            let d = digits(r, w);
            let e = *r.pick(&[78913i64, 78914, 78836, 78912, 78990, 79100, 100000, 2147483647, 2147483648, 4294967296, 9223372036854775807, i64::MAX - 1]) + r.range(-80, 3).min(0);
            let e = if r.chance(1, 2) && lim > 70000 { e } else if e.abs() < 79000 && lim <= 70000 { 79100 + r.range(0, 100) } else { e };
            s += &d;
            s += &format!("e{e}");
        }
        4 => {
            let w = 1 + r.usize(90);
            let d = digits(r, w);
            let e = *r.pick(&[-78984i64, -78985, -79056, -79061, -79140, -79200, -100000, -2147483648, -2147483647, -2147483649, i64::MIN + 1]) - r.range(0, 80);
            let e = if e > -79200 && lim <= 70000 { -79200 - r.range(0, 100) } else { e };
            s += &d;
            s += &format!("e{e}");
        }
        5 => {
            // leading zeros
            s += &"0".repeat(r.log(200) as usize);
            if r.chance(1, 2) {
                s.push('.');
                s += &"0".repeat(r.log(200.min(lim as u64)) as usize);
            }
            let n = 1 + r.usize(40);
            s += &digits(r, n);
            if r.chance(1, 3) {
                s += &format!("e{}", r.range(-lim / 2, lim / 2));
            }
        }
        6 => {
            // trailing zeros / long digit strings around the 77-digit limit
            let n = 70 + r.usize(20);
            s += &digits(r, n);
            s += &"0".repeat(r.log(100) as usize);
            if r.chance(1, 2) {
                let n = 1 + r.usize(9);
                s += &digits(r, n);
            }
            if r.chance(1, 2) {
                s = insert_point(r, s);
            }
            if r.chance(1, 2) {
                s += &format!("e{}", r.range(-lim, lim - 20));
            }
        }
        7 => {
            // very long
            let n = r.log(3000) as usize;
            s += &digits(r, n);
            s = insert_point(r, s);
            if r.chance(1, 2) {
                s += &format!("E{}", r.range(-lim, lim / 2));
            }
        }
        8 => {
            // zero in disguise
            s += &"0".repeat(r.log(100) as usize);
            if r.chance(1, 2) {
                s = insert_point(r, s);
            }
            if r.chance(1, 2) {
                s += &format!("e{}", r.pick(&[0i64, 5, -5, 99999999999, -99999999999, 2147483648, -2147483649]));
            }
        }
        9 => {
            // all nines
            let n = 1 + r.usize(90);
            s += &"9".repeat(n);
            s = insert_point(r, s);
            s += &format!("e{}", r.range(-lim, lim - 90));
        }
        10 => {
            // exponent with zeros, sign
            let n = 1 + r.usize(30);
            s += &digits(r, n);
            s += r.pick(&["e", "E"][..]);
            s += r.pick(&["", "+", "-"][..]);
            s += &"0".repeat(r.log(40) as usize);
            s += &r.below(lim as u64).to_string();
        }
        _ => {
            let n = 1 + if r.chance(1, 2) { r.usize(20) } else { r.usize(120) };
            s += &digits(r, n);
            if r.chance(2, 3) {
                s = insert_point(r, s);
            }
            if r.chance(2, 3) {
                s += r.pick(&["e", "E"][..]);
                s += &r.range(-lim, lim).to_string();
            }
        }
    }
    s.into_bytes()
}
fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}
/// insert a decimal point somewhere in the digits (not before the sign)
fn insert_point(r: &mut Rng, s: String) -> String {
    let st = s.starts_with(['-', '+']) as usize;
    let p = st + r.usize(s.len() - st + 1);
    format!("{}.{}", &s[..p], &s[p..])
}
/// digits * 10^k written in some way
pub fn put_point(r: &mut Rng, sign: &str, d: &str, k: i64) -> Vec<u8> {
    match r.below(3) {
        0 => format!("{sign}{d}e{k}"),
        1 => {
            let p = r.usize(d.len() + 1);
            format!("{sign}{}.{}e{}", &d[..p], &d[p..], k + (d.len() - p) as i64)
        }
        _ => {
            if k >= 0 && k < 400 {
                format!("{sign}{d}{}", "0".repeat(k as usize))
            } else if k < 0 && -k < 2000 {
                let n = (-k) as usize;
                if d.len() > n {
                    format!("{sign}{}.{}", &d[..d.len() - n], &d[d.len() - n..])
                } else {
                    format!("{sign}0.{}{d}", "0".repeat(n - d.len()))
                }
            } else {
                format!("{sign}{d}e{k}")
            }
        }
    }
    .into_bytes()
}

/// operation over a pool of operands. Weights select what kinds appear.
#[derive(Clone)]
pub struct Mix {
    pub num: u64,
    pub parse: u64,
    pub bytes: u64,
    pub render: u64,
    pub lim: i64,
    pub nums: Vec<usize>, // enabled numeric operations
    pub render_any: bool, // renderings of arbitrarily large/small numbers
}
impl Mix {
    /// swarm: a random subset of operations and weights
    pub fn swarm(r: &mut Rng, lim: i64) -> Mix {
        let mut nums: Vec<usize> = (0..OPS.len()).collect();
        if r.chance(2, 3) {
            r.shuffle(&mut nums);
            nums.truncate(1 + r.usize(12));
        }
        let w = |r: &mut Rng| *r.pick(&[0u64, 1, 1, 4, 10]);
        let mut m = Mix { num: w(r), parse: w(r), bytes: w(r) / 4, render: w(r), lim, nums, render_any: true };
        if m.num + m.parse + m.render == 0 {
            m.num = 1;
            m.render = 1;
            m.parse = 1;
        }
        m
    }
}
pub fn int_arg(r: &mut Rng) -> i128 {
    match r.below(6) {
        0 => *r.pick(&[0i128, 1, -1, 127, 128, 255, 256, 1 << 31, (1 << 32) - 1, 1 << 63, -(1 << 63), i128::MAX, i128::MIN]),
        1 => r.below(300) as i128,
        2 => r.below(600000) as i128,
        3 => (r.u128() >> r.below(128)) as i128,
        4 => -((r.u128() >> r.below(127).max(1)) as i128),
        _ => f64::from_bits(r.u64()).to_bits() as i128,
    }
}
/// Operands that only together are remarkable: results at the ends of the
/// range and below it, addends at every distance from a product, massive
/// cancellation, quotients near one.
pub fn conspire(r: &mut Rng, name: &str, a: &mut [Bits; 3], k: &mut i128) {
    const BIAS: i64 = 0x3ffff;
    let e = |b: Bits| ((b.0 & EXP_MASK) >> 108) as i64;
    let set = |b: Bits, x: i64| (b.0 & !EXP_MASK | (x.clamp(0, 0x7fffe) as u128) << 108, b.1);
    // biased exponent of the result
    let t = match r.below(8) {
        0 | 1 => r.range(-20, 20),
        2 => r.range(-245, 0),
        3 => r.range(-530, 40),
        4 => 0x7fffe + r.range(-6, 6),
        5 => 0x3ffff + r.range(-3, 3),
        _ => exponent(r),
    };
    // a factor that leaves the other one a normal number
    let e0 = r.range((t + BIAS - 0x7fffe).max(1), (t + BIAS - 1).min(0x7fffe));
    match name {
        "mul" | "mul_ref" | "mul_assign" | "mul_add" => {
            a[0] = set(a[0], e0);
            a[1] = set(a[1], t + BIAS - e0);
            if r.chance(1, 3) {
                a.swap(0, 1);
            }
            if name == "mul_add" {
                a[2] = match r.below(8) {
                    0 => set(a[2], t),
                    1 => subnormal(r),
                    2 | 3 if !model::is_nan(a[0]) && e(a[0]) > 0 && e(a[1]) > 0 => {
                        let (c, q) = model::decode(a[0]);
                        let (d, p) = model::decode(a[1]);
                        let x = model::round(model::sign(a[0]) == model::sign(a[1]), &c.mul(&d), q + p, false);
                        ulp_step(x, *r.pick(&[0i64, 0, 1, -1, 2]))
                    }
                    4 => set(a[2], t + r.range(-480, -460)),
                    5 => set(a[2], t + r.range(230, 245)),
                    _ => set(a[2], t + r.range(-500, 260)),
                };
            }
        }
        "div" | "div_ref" | "div_assign" | "atan2" => {
            a[0] = set(a[0], e0);
            a[1] = set(a[1], e0 - t + BIAS);
            if r.chance(1, 10) {
                a[1] = subnormal(r);
                a[0] = set(a[0], t + r.range(-240, 2));
            }
        }
        "rem" | "rem_ref" | "rem_assign" => {
            let d = match r.below(4) {
                0 => r.range(0, 3),
                1 => r.range(0, 300),
                2 => r.range(0, 5000),
                _ => r.range(-3, 600),
            };
            a[1] = if r.chance(1, 4) { subnormal(r) } else { set(a[1], exponent(r)) };
            a[0] = set(a[0], e(a[1]) + d);
        }
        "add" | "add_ref" | "add_assign" | "sub" | "sub_ref" | "sub_assign" | "max" | "min" => {
            a[0] = set(a[0], t.max(0));
            a[1] = set(a[1], t.max(0) + *r.pick(&[0i64, 1, -1, 235, 236, 237, 238, -236, -237, -238, 239]));
        }
        "sum_of_squares" => {
            a[0] = set(a[0], (t + BIAS) / 2 + r.range(0, 1));
            a[1] = set(a[1], e(a[0]) + *r.pick(&[0i64, 1, -1, 117, 118, 119, 236, 237, 238, -118, -119, -120, 400]) + r.range(-2, 2));
        }
        "square_add" => {
            a[0] = set(a[0], (t + BIAS) / 2 + r.range(0, 1));
            a[1] = if r.chance(1, 6) { subnormal(r) } else { set(a[1], t + r.range(-500, 260)) };
        }
        "square" => a[0] = set(a[0], (t + BIAS) / 2 + r.range(0, 1)),
        "recip" => a[0] = set(a[0], 2 * BIAS - t),
        "mul_pow2" => {
            a[0] = if r.chance(1, 3) { subnormal(r) } else { set(a[0], e0) };
            *k = (0x7fffe - e(a[0]) + r.range(-3, 3)).max(0) as i128;
            if r.chance(1, 3) {
                *k = r.range(0, 240) as i128;
            }
        }
        "div_pow2" => {
            a[0] = set(a[0], e0);
            *k = (e0 + r.range(-3, 240)).max(0) as i128;
        }
        "mul2" | "div2" | "ulp" | "to_degrees" | "to_radians" => a[0] = set(a[0], t),
        // logarithms and inverse functions next to one, roundings next to a half
        "ln" | "log2" | "log10" | "asin" | "acos" | "atan" | "sqrt" => {
            let mut x = (BIAS as u128) << 108;
            let d = 1i64 << r.below(62);
            let z = ulp_step((x, 0), if r.chance(1, 2) { d } else { -d });
            x = z.0;
            a[0] = (x | a[0].0 & SIGN, z.1);
        }
        "trunc" | "fract" | "split" | "ceil" | "floor" | "round" | "round_tie_even" => {
            // n + 1/2 and its neighbours
            let n = Big::from_u128(2 * (r.u128() >> (1 + r.below(127))) + 1);
            let x = model::round(r.chance(1, 2), &n, -1, false);
            a[0] = ulp_step(x, r.range(-1, 1));
        }
        "sin" | "cos" | "tan" | "sin_cos" => {
            // next to a multiple of a quarter circle
            let c = Big::from_bits((0x1921fb54442d18469898cc51701b, 0x839a252049c1114cf98e804177d4c762));
            let n = Big::from_u128(1 + (r.u128() >> (64 + r.below(64))));
            let x = model::round(r.chance(1, 2), &c.mul(&n), -236, false);
            a[0] = ulp_step(x, r.range(-2, 2));
        }
        _ => {}
    }
}
pub fn op(r: &mut Rng, m: &Mix, p: &Pool) -> Op {
    match r.weighted(&[m.num, m.parse, m.bytes, m.render]) {
        0 => {
            let idx = *r.pick(&m.nums);
            let mut a = [(0, 0); 3];
            let o = &OPS[idx];
            for x in a.iter_mut().take(o.args as usize) {
                *x = p.get(r);
            }
            if o.args >= 2 && r.chance(1, 6) {
                a[1] = sibling(r, a[0]);
            }
            // elementary functions are interesting near 1 as well
            if o.args == 1 && r.chance(1, 8) {
                a[0] = with_exp(0x3ffff + r.range(-3, 3), frac(r), r.chance(1, 2));
            }
            if o.name == "clamp" && r.chance(3, 4) && model::num_cmp(a[1], a[2]) == Some(std::cmp::Ordering::Greater) {
                a.swap(1, 2);
            }
            let mut k = if o.int { int_arg(r) } else { 0 };
            if r.chance(1, 4) {
                conspire(r, o.name, &mut a, &mut k);
            }
            Op::Num { idx, a, k }
        }
        1 => Op::Parse { how: r.below(4) as u8, text: text(r, m, p) },
        2 => {
            let b = p.get(r);
            let mut x = [0u8; 32];
            x[..16].copy_from_slice(&b.0.to_be_bytes());
            x[16..].copy_from_slice(&b.1.to_be_bytes());
            Op::Bytes { order: r.below(3) as u8, b: x }
        }
        _ => {
            let mut bits = p.get(r);
            let mut s = spec(r);
            if !m.render_any && big(bits) {
                bits = value_within(r, 100);
            }
            // plain notation of huge/tiny numbers is tens of kilobytes
            if big(bits) && s.kind == 0 && r.chance(3, 4) {
                s.kind = 1;
            }
            Op::Render { bits, spec: s }
        }
    }
}
/// |decimal exponent| beyond about 600
pub fn big(b: Bits) -> bool {
    let e = ((b.0 & EXP_MASK) >> 108) as i64;
    e != 0x7ffff && !model::is_zero(b) && (e - 0x3ffff).abs() > 2000
}
/// text operand: a literal, or some rendering of a pool value
pub fn text(r: &mut Rng, m: &Mix, p: &Pool) -> Vec<u8> {
    if r.chance(1, 3) {
        let b = p.get(r);
        if !model::is_nan(b) && !model::is_inf(b) && !model::is_zero(b) && !big(b) {
            let (c, q) = model::decode(b);
            let (d, k) = model::exact_decimal(&c, q);
            let n = (1 + r.usize(80)).min(d.len());
            let k2 = k + (d.len() - n) as i64;
            return put_point(r, if model::sign(b) { "-" } else { "" }, &d[..n], k2);
        }
    }
    let mut t = literal(r, m.lim);
    if r.chance(1, 30) {
        foreign(r, &mut t);
    }
    t
}
/// put a character that does not belong there into the text: next to the
/// digits in the code table, or of several bytes
fn foreign(r: &mut Rng, t: &mut Vec<u8>) {
    let Ok(s) = std::str::from_utf8(t) else { return };
    let mut c: Vec<char> = s.chars().collect();
    let at = match r.below(4) {
        0 => r.usize(c.len().min(40) + 1),
        1 => r.usize(c.len() + 1),
        // digits are taken eight at a time
        _ => (t.iter().take_while(|c| !c.is_ascii_digit()).count() + *r.pick(&[7usize, 8, 8, 8, 9, 15, 16, 16, 24])).min(c.len()),
    };
    let x = *r.pick(&['/', '/', '.', ',', '-', '+', ' ', 'e', ':', ';', '\u{0}', '\u{f}', 'F', 'p', 'v', '\u{7f}', '\u{80}', 'ß', 'ò', '²', '٣', '∞', '−', '１', '９', '𝟗', '\u{10ffff}']);
    if at < c.len() && r.chance(1, 2) {
        c[at] = x;
    } else {
        c.insert(at, x);
    }
    *t = c.into_iter().collect::<String>().into_bytes();
}

/// an operation related to `o`: caches, memo tables and scratch state that
/// tell the two apart insufficiently give one the result of the other
pub fn vary(r: &mut Rng, o: &Op, m: &Mix) -> Op {
    match o {
        Op::Num { idx, a, k } => {
            let mut a = *a;
            let n = OPS[*idx].args as usize;
            if n > 0 {
                let i = r.usize(n);
                a[i] = sibling(r, a[i]);
            }
            let k = if OPS[*idx].int && r.chance(1, 2) { int_arg(r) } else { *k };
            let idx = if r.chance(1, 6) {
                let same: Vec<usize> = (0..OPS.len()).filter(|&i| OPS[i].args as usize == n && OPS[i].int == OPS[*idx].int).collect();
                *r.pick(&same)
            } else {
                *idx
            };
            Op::Num { idx, a, k }
        }
        Op::Bytes { order, b } => {
            let mut b = *b;
            b[r.usize(32)] ^= 1 << r.below(8);
            Op::Bytes { order: *order, b }
        }
        Op::Render { bits, spec: s } => match r.below(4) {
            0 => Op::Render { bits: *bits, spec: spec(r) },
            1 => {
                let mut s = *s;
                if let Some(p) = s.prec {
                    s.prec = Some((p as i64 + r.range(-2, 2)).clamp(0, 75) as u16);
                } else {
                    s.prec = Some(r.below(76) as u16);
                }
                Op::Render { bits: *bits, spec: s }
            }
            _ => {
                let mut b = sibling(r, *bits);
                if big(b) && !(big(*bits) || m.render_any) {
                    b = ulp_step(*bits, 1);
                }
                Op::Render { bits: b, spec: *s }
            }
        },
        Op::Parse { how, text: t } => {
            let mut t = t.clone();
            let e = t.iter().position(|c| *c == b'e' || *c == b'E').unwrap_or(t.len());
            // a long exponent may just as well become one that is costly
            let digits: Vec<usize> = (0..t.len()).filter(|&i| t[i].is_ascii_digit() && (i < e || t.len() - e < 5)).collect();
            match r.below(6) {
                0 if !digits.is_empty() => {
                    // never lengthens the exponent
                    let i = *r.pick(&digits);
                    t[i] = b'0' + if i > e { r.below((t[i] - b'0') as u64 + 1) } else { r.below(10) } as u8;
                }
                1 => t.insert(e, b'0' + r.below(10) as u8),
                2 if t.first() == Some(&b'-') => {
                    t.remove(0);
                }
                2 => t.insert(0, b'-'),
                3 if e == t.len() => t.extend(format!("e{}", r.range(-40, 40)).bytes()),
                4 => {
                    let b = value_within(r, m.lim.min(100));
                    t = text(r, m, &Pool { v: vec![b], lim: Some(m.lim) });
                }
                _ => {
                    // far digits only
                    if let Some(&i) = digits.iter().filter(|&&i| i < e).last() {
                        t[i] = b'0' + r.below(10) as u8;
                    }
                }
            }
            Op::Parse { how: *how, text: t }
        }
    }
}
/// a few operations that have much in common
pub fn menu(r: &mut Rng, n: usize, lim: i64) -> Vec<Op> {
    if let Some(v) = crate::focus::menu(r, n, lim) {
        return v;
    }
    if r.chance(2, 5) {
        return family(r, n, lim);
    }
    let mut mix = Mix::swarm(r, lim);
    mix.render_any = r.chance(1, 10);
    let bound = if r.chance(1, 2) { None } else { Some(lim) };
    let np = 1 + r.usize(6);
    let pool = Pool::new(r, np, bound);
    let mut v: Vec<Op> = vec![];
    while v.len() < n {
        let o = if !v.is_empty() && r.chance(2, 5) {
            let b = v[r.usize(v.len())].clone();
            vary(r, &b, &mix)
        } else {
            op(r, &mix, &pool)
        };
        v.push(o);
    }
    v
}

/// unrelated calls of all kinds
pub fn bulk(r: &mut Rng, n: usize, lim: i64) -> Vec<Op> {
    let mix = Mix { num: 12, parse: 3, bytes: 1, render: 3, lim, nums: (0..OPS.len()).collect(), render_any: false };
    let mut v = vec![];
    while v.len() < n {
        let bound = if r.chance(1, 2) { None } else { Some(lim) };
        let pool = Pool::new(r, 8, bound);
        for _ in 0..15.min(n - v.len()) {
            v.push(op(r, &mix, &pool));
        }
    }
    v
}
const FAMILIES: &[&[&str]] = &[
    &["sin", "cos", "tan", "sin_cos"],
    &["sin", "cos", "tan", "sin_cos"],
    &["asin", "acos", "atan", "atan2"],
    &["ln", "log2", "log10"],
    &["sqrt", "square", "recip"],
    &["div", "rem", "div_ref", "rem_ref", "div_assign", "rem_assign", "recip"],
    &["add", "sub", "add_ref", "sub_ref", "add_assign", "sub_assign"],
    &["mul", "mul_ref", "square", "mul_add", "square_add", "sum_of_squares"],
    &["trunc", "fract", "split", "ceil", "floor", "round", "round_tie_even"],
    &["mul2", "div2", "mul_pow2", "div_pow2", "ulp", "to_degrees", "to_radians"],
    &["max", "min", "total_cmp", "partial_cmp", "cmp_ops", "clamp"],
    &["as_parts", "parts_again", "classify", "predicates", "to_be_bytes", "to_le_bytes", "to_ne_bytes"],
    &["parse"],
    &["parse"],
    &["render"],
    &["render"],
];
/// calls of one kind on a few values of one kind: whatever a part of the
/// library might keep between calls, these calls would share it
pub fn family(r: &mut Rng, n: usize, lim: i64) -> Vec<Op> {
    let f = *r.pick(FAMILIES);
    let f: Vec<&str> = if r.chance(1, 2) { vec![*r.pick(f)] } else { f.to_vec() };
    // the kind of values
    let c = exponent(r);
    let spread = *r.pick(&[0i64, 0, 1, 8, 60, 1000]);
    let short = r.chance(1, 4);
    let nv = 1 + r.usize(4);
    let mut vals: Vec<Bits> = vec![];
    for _ in 0..nv {
        let v = match r.below(8) {
            0 if !vals.is_empty() => sibling(r, vals[0]),
            1 => with_exp(0x3ffff + r.range(-2, 1), frac(r), r.chance(1, 2)),
            _ => {
                let mut fr = frac(r);
                if short {
                    fr = (fr.0 & FRAC_HI & !((1 << 90) - 1), 0);
                }
                with_exp((c + r.range(-spread, spread)).clamp(0, 0x7fffe), fr, r.chance(1, 3))
            }
        };
        vals.push(v);
    }
    let base = literal(r, lim);
    let mut s = spec(r);
    let mix = Mix { num: 1, parse: 1, bytes: 0, render: 1, lim, nums: vec![], render_any: false };
    (0..n)
        .map(|_| {
            let v = *r.pick(&vals);
            match *r.pick(&f) {
                "parse" => {
                    let mut t = base.clone();
                    match r.below(6) {
                        0 => {}
                        1 => return vary(r, &Op::Parse { how: 0, text: t }, &mix),
                        k => {
                            // same shape, other digits
                            let e = t.iter().position(|c| *c == b'e' || *c == b'E').unwrap_or(t.len());
                            let dense = k < 4;
                            for x in &mut t[..e] {
                                if x.is_ascii_digit() && (dense || r.chance(1, 5)) {
                                    *x = b'0' + r.below(10) as u8;
                                }
                            }
                        }
                    }
                    Op::Parse { how: r.below(4) as u8, text: t }
                }
                "render" => {
                    if r.chance(1, 5) {
                        s = spec(r);
                    }
                    let mut q = s;
                    let mut v = v;
                    if big(v) && q.kind == 0 {
                        if r.chance(7, 8) {
                            q.kind = 1;
                        }
                        if r.chance(1, 2) {
                            v = value_within(r, 100);
                        }
                    }
                    Op::Render { bits: v, spec: q }
                }
                name => {
                    let idx = crate::op::op_index(name);
                    let o = &OPS[idx];
                    let mut a = [(0, 0); 3];
                    for (i, x) in a.iter_mut().take(o.args as usize).enumerate() {
                        *x = if i == 0 { v } else { *r.pick(&vals) };
                    }
                    if name == "clamp" && model::num_cmp(a[1], a[2]) == Some(std::cmp::Ordering::Greater) {
                        a.swap(1, 2);
                    }
                    let mut k = if o.int { r.below(400) as i128 } else { 0 };
                    if r.chance(1, 5) {
                        conspire(r, name, &mut a, &mut k);
                    }
                    Op::Num { idx, a, k }
                }
            }
        })
        .collect()
}
/// A literal whose leading digits are those of a power of five up to some
/// digit: multiplying it by a power of two is about to gain a digit.
fn near_shift(r: &mut Rng, lim: i64) -> (String, i64) {
    // position of the decimal point, and by how many bits a number with that
    // position may be shifted first
    const SHIFT: [u32; 19] = [60, 3, 6, 9, 13, 16, 19, 23, 26, 29, 33, 36, 39, 43, 46, 49, 53, 56, 59];
    let (s, at) = match r.below(8) {
        0..=3 => {
            let i = r.usize(19);
            (SHIFT[i], Some(-(i as i64)))
        }
        4 => (*r.pick(&[57u32, 56, 58, 1, 2, 60]), Some(0)),
        5 => (60, Some(-r.range(19, 40))),
        _ => {
            let top = if r.chance(1, 2) { 60 } else { 240 };
            (1 + r.below(top) as u32, None)
        }
    };
    let mut v = Big::from_u128(1);
    // the last of four shifts from below one
    let after = s < 60 && at == Some(0) && r.chance(1, 2);
    for _ in 0..if after { s + 180 } else { s } {
        v = v.mul(&Big::from_u128(5));
    }
    let mut d = v.to_decimal().into_bytes();
    let j = r.usize(d.len().min(45));
    match r.below(4) {
        0 => {}
        1 => d.truncate(j + 1),
        2 => {
            d.truncate(j + 1);
            if d[j] < b'9' {
                d[j] += 1
            }
        }
        _ => {
            d.truncate(j + 1);
            if d[j] > b'0' && j > 0 || d[j] > b'1' {
                d[j] -= 1
            }
        }
    }
    let mut d = String::from_utf8(d).unwrap();
    match r.below(3) {
        0 => {}
        1 => d += &"9".repeat(r.usize(60)),
        _ => {
            let n = r.usize(60);
            d += &digits(r, n)
        }
    }
    let point = at.unwrap_or_else(|| if r.chance(1, 2) { -r.range(0, 20) } else { r.range(-lim, lim) });
    let k = point - d.len() as i64;
    (d, k)
}
