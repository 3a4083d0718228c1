//! Replicas ordering the same values in any delivery order converge.
use super::*;
use crate::gen;
use crate::model::{self, Bits};
use crate::op::{hex, op_index, unhex};
use f256ops::{Out, OPS};
use std::cmp::Ordering;

pub static PROP: Prop = Prop {
    id: "C12",
    gen: plan,
    exec,
    quick: 150_000,
    build: "rel",
    rule: "a run is a set of values (clusters of near neighbours, signed zeros, subnormals, infinities, NaN payloads), 2-5 replicas, an explicit delivery history with duplicates and state merges; non-trivial: at least two replicas received at least two values in different orders; distinct by the hash of the history of all comparison results and replica states",
    real: "f256 comparison operators, total_cmp, min, max, std sort/binary search/BTreeSet driven by them",
    simulated: "delivery network between replicas (order, duplication, merges)",
};

fn plan(r: &mut Rng, p: &mut Plan) {
    let n = 2 + r.usize(30);
    let reps = 2 + r.usize(4);
    p.put("replicas", reps);
    let mut v: Vec<Bits> = vec![];
    // swarm: which kinds of values
    let w: Vec<u64> = (0..7).map(|_| *r.pick(&[0u64, 1, 1, 3])).collect();
    for _ in 0..n {
        let x = if !v.is_empty() && r.chance(2, 5) {
            let b = *r.pick(&v);
            gen::sibling(r, b)
        } else {
            let tot: u64 = w.iter().sum();
            match if tot == 0 { 6 } else { r.weighted(&w) } {
                0 => *r.pick(gen::SPECIALS),
                1 => gen::nan(r),
                2 => gen::subnormal(r),
                3 => gen::small_int(r),
                4 => gen::value_within(r, 100),
                5 => gen::bits_uniform(r),
                _ => gen::any(r),
            }
        };
        v.push(x);
    }
    for x in &v {
        p.item(format!("val\t{}", hex(*x)));
    }
    // deliveries
    for _ in 0..r.usize(2 * n + 1) {
        if r.chance(1, 12) {
            p.item(format!("merge\t{}\t{}", r.usize(reps), r.usize(reps)));
        } else {
            p.item(format!("dlv\t{}\t{}", r.usize(reps), r.usize(n)));
        }
    }
    p.put("rest", r.u64() >> 12);
}
/// The reference order: IEEE 754, or IEEE 754 with two negative operands
/// swapped, the one recorded deviation of the library (see known-findings.txt).
/// Everything else is judged against whichever of the two the library uses for
/// -2 and -1, so that no other deviation can hide behind the recorded one.
#[derive(Clone, Copy)]
struct Spec {
    rev_total: bool,
    rev_partial: bool,
}
impl Spec {
    fn total(&self, a: Bits, b: Bits) -> Ordering {
        if self.rev_total && neg(a) && neg(b) {
            model::total_cmp(b, a)
        } else {
            model::total_cmp(a, b)
        }
    }
    fn num(&self, a: Bits, b: Bits) -> Option<Ordering> {
        if self.rev_partial && neg(a) && neg(b) {
            model::num_cmp(b, a)
        } else {
            model::num_cmp(a, b)
        }
    }
}
impl Spec {
    /// With the deviation, -0 is both equal to +0 (which follows every negative
    /// number) and before every negative number: there is no order to check
    /// whole sequences against, only pairs.
    fn sortable(&self, b: Bits) -> bool {
        !model::is_nan(b) && !(self.rev_partial && b == (1 << 127, 0))
    }
}
fn neg(b: Bits) -> bool {
    b.0 >> 127 == 1
}
const M1: Bits = (0xbfff_f << 108, 0);
const M2: Bits = (0xc000_0 << 108, 0);
struct Fns {
    total: usize,
    partial: usize,
    ops: usize,
    min: usize,
    max: usize,
}
fn ord(o: Out) -> Option<Ordering> {
    match o {
        Out::I(-1) => Some(Ordering::Less),
        Out::I(0) => Some(Ordering::Equal),
        Out::I(1) => Some(Ordering::Greater),
        _ => None,
    }
}
impl Fns {
    fn call(&self, i: usize, a: Bits, b: Bits) -> Out {
        (OPS[i].func)(&[a, b, (0, 0)], 0)
    }
    fn total(&self, a: Bits, b: Bits) -> Ordering {
        ord(self.call(self.total, a, b)).unwrap()
    }
    fn partial(&self, a: Bits, b: Bits) -> Option<Ordering> {
        ord(self.call(self.partial, a, b))
    }
    fn bits(&self, i: usize, a: Bits, b: Bits) -> Bits {
        match self.call(i, a, b) {
            Out::F(x) => x,
            _ => unreachable!(),
        }
    }
}
#[derive(Clone)]
struct Rep {
    got: Vec<Bits>, // arrival order, with duplicates
    sorted: Vec<Bits>,
    min: Bits,
    max: Bits,
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let f = Fns { total: op_index("total_cmp"), partial: op_index("partial_cmp"), ops: op_index("cmp_ops"), min: op_index("min"), max: op_index("max") };
    let spec = Spec { rev_total: f.total(M2, M1) == Ordering::Greater, rev_partial: f.partial(M2, M1) == Some(Ordering::Greater) };
    let spec = &spec;
    let vals: Vec<Bits> = p.items.iter().filter_map(|i| i.strip_prefix("val\t").and_then(unhex)).collect();
    if vals.is_empty() {
        return Ok(());
    }
    crate::st!(values, vals.len());
    let n = (p.num("replicas", 2) as usize).clamp(1, 8);
    crate::st!(replicas, n);
    let mut reps = vec![Rep { got: vec![], sorted: vec![], min: model::NAN, max: model::NAN }; n];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let deliver = |run: &mut Run, reps: &mut Vec<Rep>, i: usize, v: Bits| -> Result<(), Viol> {
            crate::st!(deliveries);
            let r = &mut reps[i];
            r.got.push(v);
            // sorted insertion by binary search under the library's total order
            match r.sorted.binary_search_by(|x| f.total(*x, v)) {
                Ok(_) => crate::st!(dup_deliveries),
                Err(k) => r.sorted.insert(k, v),
            }
            if model::is_nan(v) || spec.sortable(v) {
                r.min = f.bits(f.min, r.min, v);
                r.max = f.bits(f.max, r.max, v);
            }
            run.rec_n(i as u64);
            run.rec(hex(r.min).as_bytes());
            run.log(|| format!("replica {i} receives {} -> {} values, min {} max {}", hex(v), reps[i].sorted.len(), hex(reps[i].min), hex(reps[i].max)));
            check_rep(spec, &reps[i], i)
        };
        let mut orders = 0;
        for it in &p.items {
            let fs = fields(it);
            match fs[0] {
                "dlv" => {
                    let (Some(i), Some(k)) = (num::<usize>(&fs, 1), num::<usize>(&fs, 2)) else { continue };
                    deliver(run, &mut reps, i % n, vals[k % vals.len()])?;
                    orders += 1;
                }
                "merge" => {
                    let (Some(a), Some(b)) = (num::<usize>(&fs, 1), num::<usize>(&fs, 2)) else { continue };
                    crate::st!(merges);
                    let (a, b) = (a % n, b % n);
                    if a == b {
                        continue;
                    }
                    // merge two sorted sequences with the library's order
                    let other = reps[b].clone();
                    let mine = std::mem::take(&mut reps[a].sorted);
                    let (mut x, mut y, mut out) = (0, 0, vec![]);
                    while x < mine.len() || y < other.sorted.len() {
                        if y == other.sorted.len() {
                            out.push(mine[x]);
                            x += 1;
                        } else if x == mine.len() {
                            out.push(other.sorted[y]);
                            y += 1;
                        } else {
                            match f.total(mine[x], other.sorted[y]) {
                                Ordering::Less => {
                                    out.push(mine[x]);
                                    x += 1;
                                }
                                Ordering::Greater => {
                                    out.push(other.sorted[y]);
                                    y += 1;
                                }
                                Ordering::Equal => {
                                    out.push(mine[x]);
                                    x += 1;
                                    y += 1;
                                }
                            }
                        }
                    }
                    reps[a].sorted = out;
                    reps[a].got.extend(other.got);
                    reps[a].min = f.bits(f.min, other.min, reps[a].min);
                    reps[a].max = f.bits(f.max, other.max, reps[a].max);
                    check_rep(spec, &reps[a], a)?;
                }
                _ => {}
            }
        }
        // anti-entropy: everything reaches everyone, each in its own order
        let mut rng = Rng::new(&[p.num("rest", 0), 12]);
        for i in 0..n {
            let mut idx: Vec<usize> = (0..vals.len()).filter(|&k| !reps[i].got.contains(&vals[k])).collect();
            rng.shuffle(&mut idx);
            for k in idx {
                deliver(run, &mut reps, i, vals[k])?;
            }
            for k in 0..rng.usize(3) {
                let k = (rng.usize(vals.len()) + k) % vals.len();
                deliver(run, &mut reps, i, vals[k])?;
            }
        }
        run.nontrivial = n > 1 && vals.len() > 1 && (orders > 0 || vals.len() > 2);
        for i in 1..n {
            if reps[i].sorted != reps[0].sorted {
                return viol("diverged", format!("replicas 0 and {i} hold different sequences: {:?} / {:?}", show(&reps[0].sorted), show(&reps[i].sorted)), "");
            }
        }
        // whole-sequence sorts from each arrival order
        let mut want = vals.clone();
        want.sort_by(|a, b| spec.total(*a, *b));
        for (i, r) in reps.iter().enumerate() {
            let mut s = r.got.clone();
            s.sort_by(|a, b| f.total(*a, *b));
            s.dedup();
            let mut u = r.got.clone();
            u.sort_unstable_by(|a, b| f.total(*a, *b));
            u.dedup();
            let mut w = want.clone();
            w.dedup();
            if s != w || u != w {
                return viol("sort", format!("replica {i} sorts {} into {} instead of {}", show(&r.got), show(&s), show(&w)), "");
            }
            run.rec(show(&s).as_bytes());
            // ordinary order over the numbers
            let mut q: Vec<Bits> = r.got.iter().copied().filter(|b| spec.sortable(*b)).collect();
            q.sort_by(|a, b| f.partial(*a, *b).unwrap_or(Ordering::Equal));
            if let Some(k) = (1..q.len()).find(|&k| spec.num(q[k - 1], q[k]) == Some(Ordering::Greater)) {
                return viol("partial-sort", format!("replica {i}: {} sorted before {} by ordinary comparison", hex(q[k - 1]), hex(q[k])), "");
            }
            // binary search finds what is there
            for x in q.iter().take(4) {
                if q.binary_search_by(|y| f.partial(*y, *x).unwrap_or(Ordering::Less)).is_err() {
                    return viol("search", format!("{} not found in the sorted sequence that contains it", hex(*x)), "");
                }
            }
        }
        // every pair
        for (i, &a) in vals.iter().enumerate() {
            for &b in &vals[i..] {
                crate::st!(pairs);
                pair(spec, &f, a, b)?;
                pair(spec, &f, b, a)?;
            }
        }
        let negs: Vec<Bits> = vals.iter().copied().filter(|b| neg(*b)).collect();
        for (i, &a) in negs.iter().enumerate() {
            for &b in &negs[i..] {
                let t = spec.rev_total && a != b;
                let n = spec.rev_partial && !matches!(model::num_cmp(a, b), None | Some(Ordering::Equal));
                if t || n {
                    let op = if t { "total_cmp" } else { "partial_cmp" };
                    return viol("negative-pairs", format!("{op} orders the two negative values {} and {} the wrong way round", hex(a), hex(b)), format!("{op} of two negative values is reversed"));
                }
            }
        }
        Ok(())
    }));
    match r {
        Ok(x) => x,
        Err(_) => viol("panic", "a comparison, or a sort driven by it, panicked", ""),
    }
}
fn show(v: &[Bits]) -> String {
    let mut s = String::from("[");
    for b in v.iter().take(12) {
        s += &hex(*b);
        s.push(' ');
    }
    if v.len() > 12 {
        s += "...";
    }
    s + "]"
}
fn check_rep(spec: &Spec, r: &Rep, i: usize) -> Result<(), Viol> {
    for w in r.sorted.windows(2) {
        if spec.total(w[0], w[1]) != Ordering::Less {
            return viol("order", format!("replica {i} keeps {} before {}", hex(w[0]), hex(w[1])), "");
        }
    }
    let nums = || r.got.iter().copied().filter(|b| spec.sortable(*b));
    let want_min = nums().min_by(|a, b| spec.num(*a, *b).unwrap());
    let want_max = nums().max_by(|a, b| spec.num(*a, *b).unwrap());
    for (what, got, want) in [("minimum", r.min, want_min), ("maximum", r.max, want_max)] {
        let ok = match want {
            None => model::is_nan(got),
            Some(w) => model::num_cmp(got, w) == Some(Ordering::Equal),
        };
        if !ok {
            return viol("minmax", format!("replica {i}: running {what} of {} is {} instead of {}", show(&r.got), hex(got), want.map_or("NaN".into(), hex)), "");
        }
    }
    Ok(())
}
fn pair(spec: &Spec, f: &Fns, a: Bits, b: Bits) -> Result<(), Viol> {
    let t = f.total(a, b);
    if t != spec.total(a, b) {
        return viol("total", format!("total_cmp({}, {}) = {t:?}", hex(a), hex(b)), "");
    }
    let want = spec.num(a, b);
    let got = f.partial(a, b);
    if got != want {
        return viol("partial", format!("partial_cmp({}, {}) = {got:?} instead of {want:?}", hex(a), hex(b)), "");
    }
    use Ordering::*;
    let (lt, gt, eq) = (want == Some(Less), want == Some(Greater), want == Some(Equal));
    let w = lt as i64 | ((lt || eq) as i64) << 1 | (gt as i64) << 2 | ((gt || eq) as i64) << 3 | (eq as i64) << 4 | (!eq as i64) << 5;
    let g = f.call(f.ops, a, b);
    if g != Out::I(w) {
        return viol("operators", format!("<,<=,>,>=,==,!= of {} and {} give {g:?} instead of {w:?} (bit mask)", hex(a), hex(b)), "");
    }
    for (k, mx) in [(f.min, false), (f.max, true)] {
        let g = f.bits(k, a, b);
        let ok = match want {
            None => {
                if model::is_nan(a) && model::is_nan(b) {
                    model::is_nan(g)
                } else {
                    g == if model::is_nan(a) { b } else { a }
                }
            }
            Some(Equal) => g == a || g == b,
            Some(o) => g == if (o == Less) != mx { a } else { b },
        };
        if !ok {
            return viol("pair-minmax", format!("{}({}, {}) = {}", if mx { "max" } else { "min" }, hex(a), hex(b), hex(g)), "");
        }
    }
    Ok(())
}
