//! Every public operation of f256 behind a uniform, allocation-free call
//! interface. This crate is compiled with the same instrumentation as f256
//! itself, so functions of f256 that are inlined across crates carry the
//! simulator's call-outs too.
#![feature(formatting_options)]
use core::fmt::{self, Alignment, FormattingOptions, Sign};
pub use f256::f256;

pub type Bits = (u128, u128);

/// Result of a numeric operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    F(Bits),
    FF(Bits, Bits),
    I(i64),
    Parts(u32, i32, Bits),
    Bytes([u8; 32]),
    Err(bool), // parse error: is it the "empty" kind?
    Unsupported,
}

/// Numbers in memory. While `on`, a call that names the bits of an earlier
/// result receives the very value that call returned, as in a program that
/// keeps its numbers in variables. Single-threaded use only.
pub struct Memory {
    pub on: bool,
    next: usize,
    at: [Option<(Bits, f256)>; 64],
}
pub static mut MEMORY: Memory = Memory { on: false, next: 0, at: [None; 64] };
#[inline(never)]
fn f(b: Bits) -> f256 {
    let m = unsafe { &*core::ptr::addr_of!(MEMORY) };
    if m.on {
        if let Some((_, x)) = m.at.iter().flatten().find(|x| x.0 == b) {
            return *x;
        }
    }
    f256::from_bits(b)
}
fn keep(x: f256) -> Bits {
    let b = x.to_bits();
    let m = unsafe { &mut *core::ptr::addr_of_mut!(MEMORY) };
    if m.on {
        match m.at.iter_mut().flatten().find(|x| x.0 == b) {
            Some(e) => e.1 = x,
            None => {
                m.at[m.next % 64] = Some((b, x));
                m.next += 1;
            }
        }
    }
    b
}
fn o(x: f256) -> Out {
    Out::F(keep(x))
}
fn ord(x: core::cmp::Ordering) -> Out {
    Out::I(x as i64)
}

/// name, number of f256 operands, uses the integer operand, may panic by contract
#[derive(Clone, Copy)]
pub struct OpInfo {
    pub name: &'static str,
    pub args: u8,
    pub int: bool,
    pub may_panic: bool,
    pub func: fn(&[Bits; 3], i128) -> Out,
}

macro_rules! ops {
    ($($name:ident $n:literal $int:literal $pan:literal |$a:ident, $k:ident| $e:expr;)*) => {
        $(#[inline(never)] #[allow(unused_variables)] fn $name($a: &[Bits; 3], $k: i128) -> Out { $e })*
        pub static OPS: &[OpInfo] = &[$(OpInfo { name: stringify!($name), args: $n, int: $int, may_panic: $pan, func: $name }),*];
    };
}

ops! {
    add 2 false false |a, k| o(f(a[0]) + f(a[1]));
    sub 2 false false |a, k| o(f(a[0]) - f(a[1]));
    mul 2 false false |a, k| o(f(a[0]) * f(a[1]));
    div 2 false false |a, k| o(f(a[0]) / f(a[1]));
    rem 2 false false |a, k| o(f(a[0]) % f(a[1]));
    add_ref 2 false false |a, k| { let (x, y) = (f(a[0]), f(a[1])); o(&x + &y) };
    sub_ref 2 false false |a, k| { let (x, y) = (f(a[0]), f(a[1])); o(&x - y) };
    mul_ref 2 false false |a, k| { let (x, y) = (f(a[0]), f(a[1])); o(x * &y) };
    div_ref 2 false false |a, k| { let (x, y) = (f(a[0]), f(a[1])); o(&x / &y) };
    rem_ref 2 false false |a, k| { let (x, y) = (f(a[0]), f(a[1])); o(&x % &y) };
    add_assign 2 false false |a, k| { let mut x = f(a[0]); x += f(a[1]); o(x) };
    sub_assign 2 false false |a, k| { let mut x = f(a[0]); x -= &f(a[1]); o(x) };
    mul_assign 2 false false |a, k| { let mut x = f(a[0]); x *= f(a[1]); o(x) };
    div_assign 2 false false |a, k| { let mut x = f(a[0]); x /= f(a[1]); o(x) };
    rem_assign 2 false false |a, k| { let mut x = f(a[0]); x %= f(a[1]); o(x) };
    neg 1 false false |a, k| o(-f(a[0]));
    neg_ref 1 false false |a, k| o(-&f(a[0]));
    abs 1 false false |a, k| o(f(a[0]).abs());
    mul_add 3 false false |a, k| o(f(a[0]).mul_add(f(a[1]), f(a[2])));
    sum_of_squares 2 false false |a, k| o(f(a[0]).sum_of_squares(f(a[1])));
    square 1 false false |a, k| o(f(a[0]).square());
    square_add 2 false false |a, k| o(f(a[0]).square_add(f(a[1])));
    sqrt 1 false false |a, k| o(f(a[0]).sqrt());
    sin 1 false false |a, k| o(f(a[0]).sin());
    cos 1 false false |a, k| o(f(a[0]).cos());
    tan 1 false false |a, k| o(f(a[0]).tan());
    sin_cos 1 false false |a, k| { let (s, c) = f(a[0]).sin_cos(); Out::FF(keep(s), keep(c)) };
    asin 1 false false |a, k| o(f(a[0]).asin());
    acos 1 false false |a, k| o(f(a[0]).acos());
    atan 1 false false |a, k| o(f(a[0]).atan());
    atan2 2 false false |a, k| o(f(a[0]).atan2(&f(a[1])));
    ln 1 false false |a, k| o(f(a[0]).ln());
    log2 1 false false |a, k| o(f(a[0]).log2());
    log10 1 false false |a, k| o(f(a[0]).log10());
    log 2 false true |a, k| o(f(a[0]).log(f(a[1])));
    ln_1p 1 false true |a, k| o(f(a[0]).ln_1p());
    recip 1 false false |a, k| o(f(a[0]).recip());
    ulp 1 false false |a, k| o(f(a[0]).ulp());
    trunc 1 false false |a, k| o(f(a[0]).trunc());
    fract 1 false false |a, k| o(f(a[0]).fract());
    split 1 false false |a, k| { let (x, y) = f(a[0]).split(); Out::FF(keep(x), keep(y)) };
    ceil 1 false false |a, k| o(f(a[0]).ceil());
    floor 1 false false |a, k| o(f(a[0]).floor());
    round 1 false false |a, k| o(f(a[0]).round());
    round_tie_even 1 false false |a, k| o(f(a[0]).round_tie_even());
    mul2 1 false false |a, k| o(f(a[0]).mul2());
    div2 1 false false |a, k| o(f(a[0]).div2());
    mul_pow2 1 true false |a, k| o(f(a[0]).mul_pow2(k as u32));
    div_pow2 1 true false |a, k| o(f(a[0]).div_pow2(k as u32));
    to_degrees 1 false false |a, k| o(f(a[0]).to_degrees());
    to_radians 1 false false |a, k| o(f(a[0]).to_radians());
    max 2 false false |a, k| o(f(a[0]).max(f(a[1])));
    min 2 false false |a, k| o(f(a[0]).min(f(a[1])));
    clamp 3 false true |a, k| o(f(a[0]).clamp(f(a[1]), f(a[2])));
    total_cmp 2 false false |a, k| ord(f(a[0]).total_cmp(&f(a[1])));
    partial_cmp 2 false false |a, k| match f(a[0]).partial_cmp(&f(a[1])) { Some(x) => ord(x), None => Out::I(9) };
    cmp_ops 2 false false |a, k| { let (x, y) = (f(a[0]), f(a[1])); Out::I((x < y) as i64 | ((x <= y) as i64) << 1 | ((x > y) as i64) << 2 | ((x >= y) as i64) << 3 | ((x == y) as i64) << 4 | ((x != y) as i64) << 5) };
    classify 1 false false |a, k| Out::I(match f(a[0]).classify() { core::num::FpCategory::Nan => 0, core::num::FpCategory::Infinite => 1, core::num::FpCategory::Zero => 2, core::num::FpCategory::Subnormal => 3, core::num::FpCategory::Normal => 4 });
    predicates 1 false false |a, k| { let x = f(a[0]); Out::I(x.is_nan() as i64 | (x.is_infinite() as i64) << 1 | (x.is_finite() as i64) << 2 | (x.is_subnormal() as i64) << 3 | (x.is_normal() as i64) << 4 | (x.eq_zero() as i64) << 5 | (x.is_special() as i64) << 6 | (x.is_sign_positive() as i64) << 7 | (x.is_sign_negative() as i64) << 8) };
    to_be_bytes 1 false false |a, k| Out::Bytes(f(a[0]).to_be_bytes());
    to_le_bytes 1 false false |a, k| Out::Bytes(f(a[0]).to_le_bytes());
    to_ne_bytes 1 false false |a, k| Out::Bytes(f(a[0]).to_ne_bytes());
    as_parts 1 false false |a, k| if !f(a[0]).is_finite() { Out::Unsupported } else { let (s, t, c) = f(a[0]).as_sign_exp_signif(); Out::Parts(s, t, c) };
    parts_again 1 false false |a, k| if !f(a[0]).is_finite() { Out::Unsupported } else { let (s, t, c) = f(a[0]).as_sign_exp_signif(); o(f256::from_sign_exp_signif(s, t, c)) };
    from_i8 0 true false |a, k| o(f256::from(k as i8));
    from_i16 0 true false |a, k| o(f256::from(k as i16));
    from_i32 0 true false |a, k| o(f256::from(k as i32));
    from_i64 0 true false |a, k| o(f256::from(k as i64));
    from_i128 0 true false |a, k| o(f256::from(k));
    from_u8 0 true false |a, k| o(f256::from(k as u8));
    from_u16 0 true false |a, k| o(f256::from(k as u16));
    from_u32 0 true false |a, k| o(f256::from(k as u32));
    from_u64 0 true false |a, k| o(f256::from(k as u64));
    from_u128 0 true false |a, k| o(f256::from(k as u128));
    from_f32 0 true false |a, k| o(f256::from(f32::from_bits(k as u32)));
    from_f64 0 true false |a, k| o(f256::from(f64::from_bits(k as u64)));
    default_ 0 false false |a, k| o(f256::default());
    consts 0 true false |a, k| { use ::f256::consts as c; o([f256::EPSILON, f256::MAX, f256::MIN, f256::MIN_POSITIVE, f256::MIN_GT_ZERO, f256::NAN, f256::INFINITY, f256::NEG_INFINITY, f256::ZERO, f256::NEG_ZERO, f256::ONE, f256::NEG_ONE, f256::TWO, f256::TEN, c::PI, c::TAU, c::E, c::SQRT_2, c::FRAC_PI_2, c::FRAC_PI_4, c::FRAC_1_PI, c::SQRT_PI, c::PHI, c::FRAC_3_PI_2, c::FRAC_PI_3, c::FRAC_PI_6, c::FRAC_PI_8, c::FRAC_2_PI, c::FRAC_2_SQRT_PI, c::FRAC_1_SQRT_2, c::SQRT_5, c::GAMMA][k.rem_euclid(32) as usize]) };
    nt_zero_one 1 false false |a, k| nt_zero_one_(f(a[0]));
}

#[cfg(feature = "nt")]
fn nt_zero_one_(x: f256) -> Out {
    use num_traits::{One, Zero};
    Out::I(x.is_zero() as i64 | (x.is_one() as i64) << 1 | (f256::zero().eq_zero() as i64) << 2 | ((f256::one() == f256::ONE) as i64) << 3)
}
#[cfg(not(feature = "nt"))]
fn nt_zero_one_(x: f256) -> Out {
    // the same queries through the inherent interface
    Out::I(x.eq_zero() as i64 | ((x == f256::ONE) as i64) << 1 | 4 | 8)
}

#[inline(never)]
pub fn from_bytes(order: u8, b: [u8; 32]) -> Bits {
    match order {
        0 => keep(f256::from_be_bytes(b)),
        1 => keep(f256::from_le_bytes(b)),
        _ => keep(f256::from_ne_bytes(b)),
    }
}

#[inline(never)]
pub fn parse(how: u8, s: &str) -> Out {
    use core::str::FromStr;
    let r = match how {
        0 => f256::from_str(s),
        1 => f256::try_from(s),
        #[cfg(feature = "nt")]
        2 => <f256 as num_traits::Num>::from_str_radix(s, 10),
        _ => s.parse::<f256>(),
    };
    match r {
        Ok(x) => o(x),
        Err(e) => Out::Err(e == "".parse::<f64>().unwrap_err()),
    }
}

/// A formatting specification.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Spec {
    pub kind: u8, // 0 Display, 1 LowerExp, 2 UpperExp, 3 Debug, 4 Debug alternate
    pub fill: char,
    pub align: u8, // 0 none, 1 <, 2 ^, 3 >
    pub plus: bool,
    pub zero: bool,
    pub width: Option<u16>,
    pub prec: Option<u16>,
}

impl Spec {
    pub const fn plain(kind: u8) -> Self {
        Spec { kind, fill: ' ', align: 0, plus: false, zero: false, width: None, prec: None }
    }
}

#[inline(never)]
pub fn render(b: Bits, s: &Spec, w: &mut dyn fmt::Write) -> fmt::Result {
    let x = f(b);
    let mut op = FormattingOptions::new();
    op.fill(s.fill);
    op.align(match s.align {
        1 => Some(Alignment::Left),
        2 => Some(Alignment::Center),
        3 => Some(Alignment::Right),
        _ => None,
    });
    op.sign(if s.plus { Some(Sign::Plus) } else { None });
    op.sign_aware_zero_pad(s.zero);
    op.width(s.width);
    op.precision(s.prec);
    op.alternate(s.kind == 4);
    let mut fm = op.create_formatter(w);
    match s.kind {
        0 => fmt::Display::fmt(&x, &mut fm),
        1 => fmt::LowerExp::fmt(&x, &mut fm),
        2 => fmt::UpperExp::fmt(&x, &mut fm),
        _ => fmt::Debug::fmt(&x, &mut fm),
    }
}

/// Adaptor so that a value with a run-time specification can be used with
/// `write!` into any writer, as an application would.
pub struct Shown(pub Bits, pub Spec);
impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        render(self.0, &self.1, f)
    }
}
