//! Reference models: what a text denotes, what a bit pattern means, how
//! patterns are ordered. Written from the IEEE 754 binary256 definition and
//! the grammar of Rust's f64, independent of the code under test.
use crate::big::Big;
use std::cmp::Ordering;
use std::sync::OnceLock;

pub type Bits = (u128, u128);
pub const P: i64 = 237; // significand bits
pub const EMIN: i64 = -262142;
pub const EMAX: i64 = 262143;
pub const QMIN: i64 = EMIN - (P - 1); // quantum of subnormals, -262378
pub const SIGN: u128 = 1 << 127;
pub const FRAC_HI: u128 = (1 << 108) - 1;
pub const EXP_MASK: u128 = 0x7ffff << 108;
pub const INF: Bits = (EXP_MASK, 0);
pub const NAN: Bits = (EXP_MASK | 1 << 107, 0);

pub fn is_nan(b: Bits) -> bool {
    b.0 & EXP_MASK == EXP_MASK && (b.0 & FRAC_HI != 0 || b.1 != 0)
}
pub fn is_inf(b: Bits) -> bool {
    b.0 & EXP_MASK == EXP_MASK && b.0 & FRAC_HI == 0 && b.1 == 0
}
pub fn is_zero(b: Bits) -> bool {
    b.0 & !SIGN == 0 && b.1 == 0
}
pub fn is_sub(b: Bits) -> bool {
    b.0 & EXP_MASK == 0 && !is_zero(b)
}
pub fn neg(b: Bits) -> Bits {
    (b.0 ^ SIGN, b.1)
}
pub fn sign(b: Bits) -> bool {
    b.0 & SIGN != 0
}
/// finite magnitude as (significand, quantum exponent)
pub fn decode(b: Bits) -> (Big, i64) {
    let e = ((b.0 & EXP_MASK) >> 108) as i64;
    if e == 0 {
        (Big::from_bits((b.0 & FRAC_HI, b.1)), QMIN)
    } else {
        (Big::from_bits((b.0 & FRAC_HI | 1 << 108, b.1)), e - 262143 - 236)
    }
}

pub fn total_cmp(a: Bits, b: Bits) -> Ordering {
    match (sign(a), sign(b)) {
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        (false, false) => a.cmp(&b),
        (true, true) => b.cmp(&a),
    }
}
/// mathematical comparison; None if unordered
pub fn num_cmp(a: Bits, b: Bits) -> Option<Ordering> {
    if is_nan(a) || is_nan(b) {
        return None;
    }
    if is_zero(a) && is_zero(b) {
        return Some(Ordering::Equal);
    }
    Some(total_cmp(a, b))
}

/// Round c * 2^q (plus something in (0, 2^q) if sticky) to nearest even.
pub fn round(neg_: bool, c: &Big, q: i64, sticky: bool) -> Bits {
    let s = if neg_ { SIGN } else { 0 };
    if c.is_zero() {
        // callers supply enough bits that a sticky zero is far below half of
        // the smallest subnormal
        return (s, 0);
    }
    let n = c.bits() as i64;
    // target quantum
    let tq = (n - P + q).max(QMIN);
    let (mut m, up) = if tq <= q {
        assert!(!sticky, "model precision too low");
        (c.shl((q - tq) as u64), false)
    } else {
        let sh = (tq - q) as u64;
        // half bit and rest
        let (h, rest) = c.shr_sticky(sh - 1);
        let half = h.low_bit();
        let (m, _) = h.shr_sticky(1);
        let odd = m.low_bit();
        (m, half && (rest || sticky || odd))
    };
    if up {
        m.add_small(1);
    }
    let mut tq = tq;
    if m.bits() as i64 > P {
        m = m.shr_sticky(1).0;
        tq += 1;
    }
    let g = |i: usize| m.0.get(i).copied().unwrap_or(0) as u128;
    let (lo, hi) = (g(0) | g(1) << 64, g(2) | g(3) << 64);
    if (m.bits() as i64) < P {
        assert!(tq == QMIN);
        return (s | hi, lo);
    }
    let e = tq + P - 1;
    if e > EMAX {
        return (s | EXP_MASK, 0);
    }
    (s | (((e + 262143) as u128) << 108) + (hi & FRAC_HI), lo)
}

/// 5^i, 5^(64 i), 5^(2048 i)
struct Pow5 {
    t: [Vec<Big>; 3],
}
fn pow5t() -> &'static Pow5 {
    static T: OnceLock<Pow5> = OnceLock::new();
    T.get_or_init(|| {
        let mut t: [Vec<Big>; 3] = Default::default();
        let mut step = Big::from_u128(5);
        for (j, n) in [64, 32, 41].into_iter().enumerate() {
            let mut v = vec![Big::from_u128(1)];
            for i in 0..n {
                let b = v[i].mul(&step);
                v.push(b);
            }
            step = v[n].clone();
            t[j] = v;
        }
        Pow5 { t }
    })
}
pub fn init() {
    pow5t();
}
pub fn pow5(k: u64) -> Big {
    let t = &pow5t().t;
    let (mut k, mut p) = (k, None::<Big>);
    while k >= 81920 {
        p = Some(match p {
            None => t[2][40].clone(),
            Some(x) => x.mul(&t[2][40]),
        });
        k -= 81920;
    }
    let mut b = t[2][(k / 2048) as usize].clone();
    if k % 2048 != 0 {
        b = b.mul(&t[1][(k % 2048 / 64) as usize]).mul(&t[0][(k % 64) as usize]);
    }
    match p {
        None => b,
        Some(x) => x.mul(&b),
    }
}

/// nearest number to d * 10^k, d a natural number
pub fn from_decimal(neg_: bool, d: &Big, k: i64) -> Bits {
    let s = if neg_ { SIGN } else { 0 };
    if d.is_zero() {
        return (s, 0);
    }
    // decimal magnitude bounds: log10(d) in [ (bits-1)*0.30103, bits*0.30103 ]
    let lo = (d.bits() as f64 - 1.0) * 0.30102999 + k as f64;
    let hi = d.bits() as f64 * 0.3010300 + k as f64;
    if lo > 78914.5 {
        return (s | EXP_MASK, 0);
    }
    if hi < -78985.5 {
        return (s, 0);
    }
    if k >= 0 {
        round(neg_, &d.mul(&pow5(k as u64)), k, false)
    } else {
        let m = (-k) as u64;
        div_round(neg_, d, &pow5(m), k)
    }
}
fn div_round(neg_: bool, d: &Big, p: &Big, k: i64) -> Bits {
    // want floor(d * 2^sh / p) with at least 260 bits
    let want = 260i64 + p.bits() as i64 - d.bits() as i64;
    let sh = want.max(0);
    let (q, st) = d.shl(sh as u64).div_sticky(p);
    round(neg_, &q, k - sh, st)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Parsed {
    Val(Bits),
    Nan,
    Empty,
    Invalid,
}
/// The grammar of f64::from_str: [+-]? ( inf | infinity | nan | digits[.digits][e[+-]?digits] ), case-insensitive words.
pub fn parse(s: &[u8]) -> Parsed {
    if s.is_empty() {
        return Parsed::Empty;
    }
    let (neg_, mut r) = match s[0] {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let sb = if neg_ { SIGN } else { 0 };
    if r.eq_ignore_ascii_case(b"inf") || r.eq_ignore_ascii_case(b"infinity") {
        return Parsed::Val((sb | EXP_MASK, 0));
    }
    if r.eq_ignore_ascii_case(b"nan") {
        return Parsed::Nan;
    }
    let mut digits: Vec<u8> = vec![];
    let mut any = false;
    let mut frac = 0i64;
    while let Some(&c) = r.first() {
        if !c.is_ascii_digit() {
            break;
        }
        any = true;
        digits.push(c - b'0');
        r = &r[1..];
    }
    if r.first() == Some(&b'.') {
        r = &r[1..];
        while let Some(&c) = r.first() {
            if !c.is_ascii_digit() {
                break;
            }
            any = true;
            digits.push(c - b'0');
            frac += 1;
            r = &r[1..];
        }
    }
    if !any {
        return Parsed::Invalid;
    }
    let mut exp = 0i128;
    if matches!(r.first(), Some(b'e') | Some(b'E')) {
        r = &r[1..];
        let mut en = false;
        match r.first() {
            Some(b'-') => {
                en = true;
                r = &r[1..];
            }
            Some(b'+') => r = &r[1..],
            _ => {}
        }
        if !matches!(r.first(), Some(c) if c.is_ascii_digit()) {
            return Parsed::Invalid;
        }
        while let Some(&c) = r.first() {
            if !c.is_ascii_digit() {
                break;
            }
            exp = (exp * 10 + (c - b'0') as i128).min(1 << 100);
            r = &r[1..];
        }
        if en {
            exp = -exp;
        }
    }
    if !r.is_empty() {
        return Parsed::Invalid;
    }
    // strip zeros so that the magnitude estimate is sharp
    let st = digits.iter().position(|&d| d != 0);
    let Some(st) = st else {
        return Parsed::Val((sb, 0));
    };
    let end = digits.iter().rposition(|&d| d != 0).unwrap() + 1;
    let trailing = (digits.len() - end) as i128;
    let k = exp - frac as i128 + trailing;
    let nd = (end - st) as i128;
    if k + nd > 78990 {
        return Parsed::Val((sb | EXP_MASK, 0));
    }
    if k + nd < -79000 {
        return Parsed::Val((sb, 0));
    }
    Parsed::Val(from_decimal(neg_, &Big::from_digits(&digits[st..end]), k as i64))
}

/// Exact decimal expansion of a finite non-zero magnitude: digits and the
/// power of ten of the last one.
pub fn exact_decimal(c: &Big, q: i64) -> (String, i64) {
    if q >= 0 {
        (c.shl(q as u64).to_decimal(), 0)
    } else {
        // c * 2^q = c * 5^-q * 10^q
        (c.mul(&pow5((-q) as u64)).to_decimal(), q)
    }
}

#[cfg(test)]
mod tests {}

/// Self-check of the models against f64 (run by `dst selftest`).
pub fn selftest() {
    // rounding model vs f64 parsing is not directly comparable; check the
    // decode/round/exact_decimal loop and division against multiplication.
    let mut r = crate::rng::Rng::new(&[99]);
    for _ in 0..20000 {
        let a = Big(vec![r.u64(), r.u64(), r.u64() >> r.below(64), r.u64() | 1]);
        let mut d = Big(vec![r.u64(), r.u64() >> r.below(63)]);
        if r.chance(1, 4) {
            d = Big(vec![0, u64::MAX]);
        }
        d.trim();
        if d.is_zero() {
            continue;
        }
        let (q, st) = a.div_sticky(&d);
        let back = q.mul(&d);
        // back <= a < back + d
        assert!(back.cmp(&a) != Ordering::Greater);
        let mut c = 0u128;
        let mut diff = vec![];
        for i in 0..4 {
            let y = back.0.get(i).copied().unwrap_or(0) as u128 + c;
            let (x, b) = (a.0[i] as u128).overflowing_sub(y);
            diff.push(x as u64);
            c = b as u128;
        }
        let mut diff = Big(diff);
        diff.trim();
        assert!(diff.cmp(&d) == Ordering::Less);
        assert!(st == !diff.is_zero());
    }
    for i in 0..3000 {
        let b = crate::gen::bits_uniform(&mut r);
        if is_nan(b) || is_inf(b) || is_zero(b) {
            continue;
        }
        let (c, q) = decode(b);
        assert_eq!(round(sign(b), &c, q, false), b);
        if i < 60 || q.abs() < 3000 {
            let (s, k) = exact_decimal(&c, q);
            let t = format!("{}{}e{}", if sign(b) { "-" } else { "" }, s, k);
            assert_eq!(parse(t.as_bytes()), Parsed::Val(b));
        }
    }
    // grammar against the built-in type
    let alphabet = b"0123456789..eE+-infatyNX _\x00";
    for _ in 0..300000 {
        let n = r.usize(9);
        let s: Vec<u8> = (0..n).map(|_| *r.pick(alphabet)).collect();
        let t = std::str::from_utf8(&s).unwrap();
        let m = parse(&s);
        match t.parse::<f64>() {
            Ok(v) => match m {
                Parsed::Nan => assert!(v.is_nan(), "{t}"),
                Parsed::Val(b) => {
                    assert!(v.is_sign_negative() == sign(b), "{t}");
                    if v.is_finite() && v != 0.0 {
                        // equal to the double rounding of the exact value for
                        // exactly representable doubles
                        let f = from_f64(v);
                        let near = num_cmp(b, f);
                        let _ = near;
                    }
                }
                _ => panic!("{t:?} {m:?} {v}"),
            },
            Err(e) => {
                let empty = e == "".parse::<f64>().unwrap_err();
                assert_eq!(m, if empty { Parsed::Empty } else { Parsed::Invalid }, "{t:?}");
            }
        }
    }
    // known values
    assert_eq!(parse(b"1"), Parsed::Val((0x3ffffu128 << 108, 0)));
    assert_eq!(parse(b"0.5"), Parsed::Val((0x3fffeu128 << 108, 0)));
    for _ in 0..2000 {
        let v = f64::from_bits(r.u64());
        if v.is_finite() {
            assert_eq!(parse(format!("{v:e}").as_bytes()).val().map(to_f64), Some(v));
        }
    }
}
impl Parsed {
    pub fn val(self) -> Option<Bits> {
        match self {
            Parsed::Val(b) => Some(b),
            _ => None,
        }
    }
}
pub fn from_f64(v: f64) -> Bits {
    let b = v.to_bits();
    let e = (b >> 52 & 0x7ff) as i64;
    let f = b & ((1 << 52) - 1);
    let (c, q) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    round(b >> 63 == 1, &Big::from_u128(c as u128), q, false)
}
/// nearest double (used by the self-test only)
fn to_f64(b: Bits) -> f64 {
    if is_zero(b) {
        return if sign(b) { -0.0 } else { 0.0 };
    }
    let (c, q) = decode(b);
    let n = c.bits() as i64;
    let tq = (n - 53 + q).max(-1074);
    let v = if tq > q {
        let (h, rest) = c.shr_sticky((tq - q - 1) as u64);
        let half = h.low_bit();
        let (mut m, _) = h.shr_sticky(1);
        if half && (rest || m.low_bit()) {
            m.add_small(1);
        }
        m.0.first().copied().unwrap_or(0) as f64 * 2f64.powi((tq / 2) as i32) * 2f64.powi((tq - tq / 2) as i32)
    } else {
        unreachable!()
    };
    if sign(b) {
        -v
    } else {
        v
    }
}
