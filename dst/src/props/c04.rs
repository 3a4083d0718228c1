//! Binary encodings survive storage; damaged ones decode to their IEEE meaning.
use super::c03::Disk;
use super::*;
use crate::gen;
use crate::model::{self, Bits};
use crate::op::{hex, op_index};
use f256ops::{Out, Spec, OPS};
use std::cmp::Ordering;
use std::io::{self, Read, Write};

pub static PROP: Prop = Prop {
    id: "C04",
    gen: plan,
    exec,
    quick: 300_000,
    build: "rel",
    rule: "a run is 1-24 numbers encoded in a chosen byte order, written through a store that shortens, interrupts and retries writes, damaged by an explicit list of storage faults (or none), read back through short reads and decoded; every decoded number goes through all queries and a seeded set of operations; non-trivial: at least one storage fault changed a record or one transfer was cut; distinct by the hash of decoded bits and results",
    real: "f256 byte codecs, queries, comparisons, arithmetic, elementary functions, Debug/Display of special values; std::io read/write adapters",
    simulated: "store (torn, mixed, zeroed, flipped, lost, swapped, stale blocks; short and interrupted transfers), IEEE 754 meaning of patterns (model)",
};
/// operations that yield NaN as soon as one operand is NaN
const PROPAGATE: &[&str] = &[
    "add", "sub", "mul", "div", "rem", "add_ref", "sub_ref", "mul_ref", "div_ref", "rem_ref", "add_assign", "sub_assign", "mul_assign", "div_assign", "rem_assign", "mul_add",
    "sum_of_squares", "square", "square_add", "sqrt", "sin", "cos", "tan", "sin_cos", "asin", "acos", "atan", "atan2", "ln", "log2", "log10", "recip", "ulp",
    "trunc", "fract", "split", "ceil", "floor", "round", "round_tie_even", "mul2", "div2", "mul_pow2", "div_pow2", "to_degrees", "to_radians", "neg", "neg_ref", "abs",
];
fn plan(r: &mut Rng, p: &mut Plan) {
    let n = 1 + r.usize(24);
    p.put("block", *r.pick(&[1u64, 4, 8, 16, 16, 32, 64, 512]));
    p.put("io", if r.chance(1, 4) { 0 } else { r.u64() >> 20 });
    let damage = !r.chance(1, 4);
    let vals = gen::Pool::new(r, 8, None);
    for _ in 0..n {
        let b = if r.chance(1, 10) { gen::nan(r) } else { vals.get(r) };
        p.item(format!("rec\t{}\t{}", hex(b), r.below(4)));
    }
    let total = n * 32;
    if damage {
        for _ in 0..1 + r.log(16) {
            let rec = r.usize(n);
            // most damage goes where exponent and sign live
            let at = match r.below(4) {
                0 => r.usize(total),
                1 => rec * 32 + r.usize(4),
                2 => rec * 32 + 28 + r.usize(4),
                _ => rec * 32 + *r.pick(&[0usize, 15, 16, 31]),
            };
            match r.below(13) {
                0 => p.item(format!("flt\ttruncate\t{}", total - 1 - r.usize(total.min(40)))),
                1..=4 => p.item(format!("flt\tbitflip\t{at}\t{}", r.below(8))),
                5 => p.item(format!("flt\tzeroblock\t{at}")),
                6 => p.item(format!("flt\tdupblock\t{at}\t{}", r.usize(total))),
                7 => p.item(format!("flt\tswapblock\t{at}\t{}", r.usize(total))),
                8 => p.item(format!("flt\tlostblock\t{at}")),
                9 | 10 => p.item(format!("mix\t{rec}\t{}\t{}\t{}", hex(gen::any(r)), r.below(33), r.below(2))),
                11 => p.item(format!("flt\tsub\t{at}\t{}", *r.pick(&[0u8, 0xff, 0x7f, 0x80, 0xf0, 0x0f, 1]))),
                _ => p.item(format!("ones\t{rec}\t{}\t{}", r.below(2), r.u64() & 0xff)),
            }
        }
    }
    // operations over the decoded numbers
    for _ in 0..1 + r.usize(40) {
        let idx = r.usize(OPS.len());
        p.item(format!("op\t{}\t{}\t{}\t{}\t{}", OPS[idx].name, r.below(64), r.below(64), r.below(64), gen::int_arg(r)));
    }
}
/// A store that takes and gives its bytes in pieces.
struct Store {
    data: Vec<u8>,
    pos: usize,
    x: u64,
    cut: u64,
}
impl Store {
    fn piece(&mut self, n: usize) -> io::Result<usize> {
        if self.x == 0 {
            return Ok(n);
        }
        self.x = mix(self.x).max(1);
        if self.x % 9 == 0 {
            self.cut += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = if self.x % 3 == 0 && n > 0 { 1 + (self.x >> 8) as usize % n } else { n };
        if k < n {
            self.cut += 1;
        }
        Ok(k)
    }
}
impl Write for Store {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.piece(b.len())?;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Store {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.piece(b.len().min(self.data.len() - self.pos))?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// the bytes of a number, written down independently of the library
fn image(b: Bits, order: u8) -> [u8; 32] {
    let mut x = [0u8; 32];
    for i in 0..16 {
        x[i] = (b.0 >> (120 - 8 * i)) as u8;
        x[16 + i] = (b.1 >> (120 - 8 * i)) as u8;
    }
    if order != 0 && !(order == 2 && cfg!(target_endian = "big")) {
        x.reverse();
    }
    x
}
fn meaning(x: &[u8; 32], order: u8) -> Bits {
    let mut y = *x;
    if order != 0 && !(order == 2 && cfg!(target_endian = "big")) {
        y.reverse();
    }
    let w = |s: &[u8]| s.iter().fold(0u128, |a, &b| a << 8 | b as u128);
    (w(&y[..16]), w(&y[16..]))
}
fn call(name: &str, a: &[Bits; 3], k: i128) -> Result<Out, Viol> {
    let i = op_index(name);
    let o = Op::Num { idx: i, a: *a, k };
    crate::st!(ops);
    match run_op(&o) {
        Res::Out(x) => Ok(x),
        _ if may_panic(&o) => Ok(Out::Unsupported),
        _ => viol("panic", format!("{} panicked", o.text()), o.text()),
    }
}
fn encode(b: Bits, order: u8) -> Result<Vec<u8>, Viol> {
    let a = [b, b, b];
    let o = match order {
        0 => call("to_be_bytes", &a, 0)?,
        1 => call("to_le_bytes", &a, 0)?,
        2 => call("to_ne_bytes", &a, 0)?,
        // raw bits: an identity in the library (from_bits/to_bits), big-endian in the file
        _ => match call("add", &[b, b, b], 0) {
            Ok(_) => return Ok(image(f256ops::f256::from_bits(b).to_bits(), 0).to_vec()),
            Err(e) => return Err(e),
        },
    };
    match o {
        Out::Bytes(x) => Ok(x.to_vec()),
        _ => unreachable!(),
    }
}
fn decode(x: &[u8; 32], order: u8) -> Bits {
    crate::st!(ops);
    let _l = hooks::enter();
    if order == 3 {
        return f256ops::f256::from_bits(meaning(x, 0)).to_bits();
    }
    f256ops::from_bytes(order, *x)
}
fn differs<T>(what: &str, b: Bits, got: impl std::fmt::Debug, want: impl std::fmt::Debug) -> Result<T, Viol> {
    viol("meaning", format!("{what} of {} gives {got:?} instead of {want:?}", hex(b)), format!("{what} {}", hex(b)))
}
/// every query on one decoded number
fn queries(b: Bits) -> Result<u64, Viol> {
    let a = [b, b, b];
    let (nan, inf, zero, sub) = (model::is_nan(b), model::is_inf(b), model::is_zero(b), model::is_sub(b));
    let norm = !(nan || inf || zero || sub);
    let want = nan as i64
        | (inf as i64) << 1
        | ((!nan && !inf) as i64) << 2
        | (sub as i64) << 3
        | (norm as i64) << 4
        | (zero as i64) << 5
        | ((nan || inf || zero) as i64) << 6
        | (!model::sign(b) as i64) << 7
        | (model::sign(b) as i64) << 8;
    let got = call("predicates", &a, 0)?;
    if got != Out::I(want) {
        return differs("the predicates (nan, infinite, finite, subnormal, normal, zero, special, positive, negative as bits)", b, got, want);
    }
    let cat = if nan {
        0
    } else if inf {
        1
    } else if zero {
        2
    } else if sub {
        3
    } else {
        4
    };
    let got = call("classify", &a, 0)?;
    if got != Out::I(cat) {
        return differs("classify (0 NaN, 1 infinite, 2 zero, 3 subnormal, 4 normal)", b, got, cat);
    }
    for n in ["neg", "neg_ref"] {
        let got = call(n, &a, 0)?;
        if !(matches!(got, Out::F(g) if g == model::neg(b) || nan && model::is_nan(g))) {
            return differs(n, b, got, hex(model::neg(b)));
        }
    }
    let w = (b.0 & !model::SIGN, b.1);
    let got = call("abs", &a, 0)?;
    if !(matches!(got, Out::F(g) if g == w || nan && model::is_nan(g))) {
        return differs("abs", b, got, hex(w));
    }
    for n in ["mul2", "div2"] {
        if inf || zero {
            let got = call(n, &a, 0)?;
            if got != Out::F(b) {
                return differs(n, b, got, hex(b));
            }
        }
    }
    for (o, n) in ["to_be_bytes", "to_le_bytes", "to_ne_bytes"].into_iter().enumerate() {
        let got = call(n, &a, 0)?;
        if got != Out::Bytes(image(b, o as u8)) {
            return differs(n, b, got, image(b, o as u8));
        }
    }
    if !nan && !inf {
        // sign, exponent and significand denote the number
        let got = call("as_parts", &a, 0)?;
        let ok = match got {
            Out::Parts(s, t, c) => {
                let v = model::round(s == 1, &crate::big::Big::from_bits(c), t as i64, false);
                (s == 1) == model::sign(b) && v == b
            }
            _ => false,
        };
        if !ok {
            return differs("sign, exponent and significand", b, got, hex(b));
        }
        let got = call("parts_again", &a, 0)?;
        if got != Out::F(b) {
            return differs("number assembled from its sign, exponent and significand", b, got, hex(b));
        }
    }
    // text of what is no number
    if nan || inf || zero {
        let t = match (nan, inf, model::sign(b)) {
            (true, ..) => "NaN",
            (_, true, false) => "inf",
            (_, true, true) => "-inf",
            (_, _, false) => "0",
            _ => "-0",
        };
        for kind in 0..4u8 {
            let o = Op::Render { bits: b, spec: Spec::plain(kind) };
            let want = match (kind, zero) {
                (0, _) | (1 | 2, false) => t.to_string(),
                (1, true) => format!("{t}e0"),
                (2, true) => format!("{t}E0"),
                (_, true) => continue,
                _ => format!("\"{t}\""),
            };
            match run_op(&o) {
                Res::Text(x, true) if x == want.as_bytes() => {}
                g => return differs("text", b, res_show(&g.bytes()), want),
            }
        }
    }
    Ok(want as u64)
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let mut io = Store { data: vec![], pos: 0, x: p.num("io", 0), cut: 0 };
    let mut recs: Vec<(Bits, u8)> = vec![];
    for it in &p.items {
        let f = fields(it);
        if f[0] == "rec" {
            if let (Some(b), Some(o)) = (f.get(1).and_then(|x| op::unhex(x)), num::<u8>(&f, 2)) {
                let o = o & 3;
                let x = encode(b, o)?;
                if x != image(b, if o == 3 { 0 } else { o }) {
                    return viol("encode", format!("{} in byte order {o} (0 big, 1 little, 2 native, 3 raw) is written as {x:02x?}", hex(b)), format!("encode {o} {}", hex(b)));
                }
                io.write_all(&x).unwrap();
                recs.push((b, o));
            }
        }
    }
    if recs.is_empty() {
        return Ok(());
    }
    let mut d = Disk::new(p.num("block", 8) as usize);
    d.data = std::mem::take(&mut io.data);
    d.ends = (1..=recs.len()).map(|i| i * 32).collect();
    let mut hit = false;
    for it in &p.items {
        let f = fields(it);
        match f[0] {
            "flt" => hit |= d.fault(&f),
            "mix" => {
                // the record is being replaced by a newer one when the write tears
                if let (Some(i), Some(b), Some(at), Some(tail)) = (num::<usize>(&f, 1), f.get(2).and_then(|x| op::unhex(x)), num::<usize>(&f, 3), num::<u8>(&f, 4)) {
                    let i = i % recs.len();
                    let x = image(b, recs[i].1 % 3);
                    for j in 0..32 {
                        if ((j < at) ^ (tail == 1)) && i * 32 + j < d.data.len() {
                            hit |= d.data[i * 32 + j] != x[j];
                            d.data[i * 32 + j] = x[j];
                        }
                    }
                    crate::st!(d_torn);
                }
            }
            "ones" => {
                // the exponent field comes back as all ones
                if let (Some(i), Some(sign), Some(low)) = (num::<usize>(&f, 1), num::<u8>(&f, 2), num::<u8>(&f, 3)) {
                    let i = i % recs.len();
                    if (i + 1) * 32 <= d.data.len() {
                        let mut x = [0u8; 32];
                        x.copy_from_slice(&d.data[i * 32..i * 32 + 32]);
                        let o = recs[i].1;
                        let mut b = meaning(&x, if o == 3 { 0 } else { o });
                        b.0 |= model::EXP_MASK;
                        if low % 4 == 0 {
                            b.0 &= !model::FRAC_HI;
                        }
                        if low % 8 < 2 {
                            b.1 = (low >> 3 & 1) as u128;
                        }
                        if sign == 1 {
                            b.0 ^= model::SIGN;
                        }
                        d.data[i * 32..i * 32 + 32].copy_from_slice(&image(b, if o == 3 { 0 } else { o }));
                        hit = true;
                        crate::st!(d_bitflip);
                    }
                }
            }
            _ => {}
        }
    }
    io.data = d.data;
    let mut vals: Vec<Bits> = vec![];
    for (i, &(b, o)) in recs.iter().enumerate() {
        let mut x = [0u8; 32];
        // a short file ends in zeros
        let mut n = 0;
        while n < 32 {
            match io.read(&mut x[n..]) {
                Ok(0) => break,
                Ok(k) => n += k,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        let want = meaning(&x, if o == 3 { 0 } else { o });
        let got = decode(&x, o);
        if got != want {
            return viol("decode", format!("bytes {x:02x?} in byte order {o} (0 big, 1 little, 2 native, 3 raw) are read as {} instead of {}", hex(got), hex(want)), format!("decode {o} {}", hex(want)));
        }
        if want != b {
            hit = true;
        } else {
            crate::st!(d_none);
        }
        run.rec(&x);
        let q = queries(got)?;
        run.rec_n(q);
        run.log(|| format!("record {i}: stored {} order {o}, read {}, queries {q:x}", hex(b), hex(got)));
        vals.push(got);
    }
    run.nontrivial = hit || io.cut > 0;
    // pairs
    for w in 0..vals.len() {
        let (a, b) = (vals[w], vals[(w * 7 + 1) % vals.len()]);
        if model::sign(a) && model::sign(b) && a != b {
            continue; // the order of negative numbers is C12's business
        }
        let args = [a, b, b];
        let c = model::num_cmp(a, b);
        let got = call("partial_cmp", &args, 0)?;
        if got != Out::I(c.map_or(9, |x| x as i64)) {
            return viol("compare", format!("partial_cmp of {} and {} gives {got:?} instead of {c:?}", hex(a), hex(b)), format!("partial_cmp {} {}", hex(a), hex(b)));
        }
        use Ordering::*;
        let want = (c == Some(Less)) as i64
            | (matches!(c, Some(Less | Equal)) as i64) << 1
            | ((c == Some(Greater)) as i64) << 2
            | (matches!(c, Some(Greater | Equal)) as i64) << 3
            | ((c == Some(Equal)) as i64) << 4
            | ((c != Some(Equal)) as i64) << 5;
        let got = call("cmp_ops", &args, 0)?;
        if got != Out::I(want) {
            return viol("compare", format!("the comparison operators (<, <=, >, >=, ==, != as bits) on {} and {} give {got:?} instead of {want}", hex(a), hex(b)), format!("cmp_ops {} {}", hex(a), hex(b)));
        }
        let t = model::total_cmp(a, b);
        let got = call("total_cmp", &args, 0)?;
        if got != Out::I(t as i64) {
            return viol("compare", format!("total_cmp of {} and {} gives {got:?} instead of {t:?}", hex(a), hex(b)), format!("total_cmp {} {}", hex(a), hex(b)));
        }
    }
    for it in &p.items {
        let f = fields(it);
        if f[0] != "op" || f.len() < 6 {
            continue;
        }
        let Some(i) = OPS.iter().position(|o| o.name == f[1]) else { continue };
        let pick = |j: usize| vals[num::<usize>(&f, j).unwrap_or(0) % vals.len()];
        let args = [pick(2), pick(3), pick(4)];
        let k = num::<i128>(&f, 5).unwrap_or(0);
        let got = call(OPS[i].name, &args, k)?;
        run.rec(op::out_text(&got).as_bytes());
        run.log(|| format!("{} -> {}", Op::Num { idx: i, a: args, k }.text(), op::out_text(&got)));
        let some_nan = args[..OPS[i].args as usize].iter().any(|&b| model::is_nan(b));
        if some_nan && PROPAGATE.contains(&OPS[i].name) {
            crate::st!(nan_operands);
            let ok = match got {
                Out::F(g) => model::is_nan(g),
                Out::FF(g, h) => model::is_nan(g) && model::is_nan(h),
                _ => false,
            };
            if !ok {
                let t = Op::Num { idx: i, a: args, k }.text();
                return viol("nan", format!("{t} gives {} instead of NaN", op::out_text(&got)), t);
            }
        }
    }
    Ok(())
}
