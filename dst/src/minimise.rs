//! Shrinks a failing plan while the same class of violation persists.
use crate::child::Buf;
use crate::model::{Bits, EXP_MASK, FRAC_HI, SIGN};
use crate::op::Op;
use crate::plan::Plan;
use crate::props::{run_plan, Prop, Run};
use f256ops::{Spec, OPS};
use std::time::{Duration, Instant};

pub struct Min<'a> {
    prop: &'a Prop,
    buf: &'a Buf,
    class: String,
    pub tried: u64,
    until: Instant,
}
impl<'a> Min<'a> {
    fn fails(&mut self, p: &Plan) -> Option<Run> {
        if Instant::now() > self.until {
            return None;
        }
        self.tried += 1;
        let r = run_plan(self.buf, self.prop, p);
        match &r.viol {
            Some(v) if v.class == self.class => Some(r),
            _ => None,
        }
    }
}
/// (plan, run) with the same class as `first`
pub fn minimise(prop: &Prop, buf: &Buf, plan: &Plan, first: &Run, secs: u64) -> (Plan, Run, u64) {
    let class = first.viol.as_ref().unwrap().class.clone();
    let mut m = Min { prop, buf, class, tried: 0, until: Instant::now() + Duration::from_secs(secs) };
    let mut best = plan.clone();
    let mut run = first.clone();
    // make the schedule explicit
    if !first.sched.is_empty() && best.get("strat").is_some_and(|s| s != "explicit") {
        let mut p = best.clone();
        p.put("strat", "explicit");
        p.items.retain(|i| !i.starts_with("sw\t"));
        for w in &first.sched {
            if w.tid == -1 {
                p.put("start", w.next);
            } else {
                p.item(format!("sw\t{}\t{}\t{}", w.tid, w.step, w.next));
            }
        }
        if let Some(r) = m.fails(&p) {
            best = p;
            run = r;
        }
    }
    for _round in 0..4 {
        let before = best.text();
        // ddmin over items
        let mut n = 2usize;
        while best.items.len() >= 2 {
            let len = best.items.len();
            let chunk = len.div_ceil(n);
            let mut hit = false;
            let mut i = 0;
            while i < len {
                let mut p = best.clone();
                p.items.drain(i..(i + chunk).min(len));
                if let Some(r) = m.fails(&p) {
                    best = p;
                    run = r;
                    hit = true;
                    break;
                }
                i += chunk;
            }
            if hit {
                n = n.saturating_sub(1).max(2);
            } else if chunk == 1 {
                break;
            } else {
                n = (n * 2).min(best.items.len());
            }
            if Instant::now() > m.until {
                break;
            }
        }
        // settings: numbers towards zero
        for k in best.set.keys().cloned().collect::<Vec<_>>() {
            if k == "strat" || k == "start" {
                continue;
            }
            for _ in 0..8 {
                let Some(v) = best.get(&k).and_then(|s| s.parse::<u64>().ok()) else { break };
                let mut hit = false;
                for c in [0, v / 2, v.saturating_sub(1)] {
                    if c < v {
                        let mut p = best.clone();
                        p.put(&k, c);
                        if let Some(r) = m.fails(&p) {
                            best = p;
                            run = r;
                            hit = true;
                            break;
                        }
                    }
                }
                if !hit {
                    break;
                }
            }
        }
        // fields of items
        let mut i = 0;
        while i < best.items.len() {
            let nf = best.items[i].split('\t').count();
            for f in 0..nf {
                let mut steps = 0;
                'again: loop {
                    steps += 1;
                    if steps > 60 || Instant::now() > m.until {
                        break;
                    }
                    let fs: Vec<String> = best.items[i].split('\t').map(|s| s.to_string()).collect();
                    for c in simpler(&fs[f]) {
                        let mut g = fs.clone();
                        g[f] = c;
                        let mut p = best.clone();
                        p.items[i] = g.join("\t");
                        if let Some(r) = m.fails(&p) {
                            best = p;
                            run = r;
                            continue 'again;
                        }
                    }
                    break;
                }
            }
            i += 1;
        }
        if best.text() == before || Instant::now() > m.until {
            break;
        }
    }
    (best, run, m.tried)
}
fn simpler_bits(b: Bits) -> Vec<Bits> {
    let mut v = vec![];
    let one: Bits = (0x3ffff << 108, 0);
    let mut push = |x: Bits| {
        if x != b && !v.contains(&x) {
            v.push(x)
        }
    };
    if b == one || b == (0, 0) {
        return vec![];
    }
    push(one);
    push((0, 0));
    push((b.0 & !SIGN, b.1));
    push((b.0 & !FRAC_HI, 0));
    push((b.0, 0));
    push((b.0 & !FRAC_HI, b.1));
    for k in [64u32, 32, 16] {
        push((b.0, b.1 >> k << k));
        if b.1 == 0 {
            push((b.0 & EXP_MASK | b.0 & SIGN | (b.0 & FRAC_HI) >> k << k, 0));
        }
    }
    v
}
fn simpler_text(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let n = t.len();
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i + k <= n {
            let mut x = t.to_vec();
            x.drain(i..i + k);
            v.push(x);
            i += k;
            if v.len() > 400 {
                break;
            }
        }
        k /= 2;
    }
    if n < 200 {
        for i in 0..n {
            if t[i] > b'1' && t[i] <= b'9' {
                let mut x = t.to_vec();
                x[i] = b'1';
                v.push(x);
            }
        }
    }
    v
}
fn simpler_spec(s: &Spec) -> Vec<Spec> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Spec)| {
        let mut x = *s;
        f(&mut x);
        if x != *s {
            v.push(x)
        }
    };
    push(&|x| *x = Spec::plain(x.kind));
    push(&|x| x.fill = ' ');
    push(&|x| x.align = 0);
    push(&|x| x.plus = false);
    push(&|x| x.zero = false);
    push(&|x| x.width = None);
    push(&|x| x.prec = None);
    push(&|x| x.width = x.width.map(|w| w / 2));
    push(&|x| x.width = x.width.map(|w| w.saturating_sub(1)));
    push(&|x| x.prec = x.prec.map(|w| w / 2));
    push(&|x| x.prec = x.prec.map(|w| w.saturating_sub(1)));
    v
}
fn simpler(f: &str) -> Vec<String> {
    if let Some(o) = Op::parse(f) {
        let mut v = vec![];
        match &o {
            Op::Num { idx, a, k } => {
                let info = &OPS[*idx];
                for i in 0..info.args as usize {
                    for b in simpler_bits(a[i]) {
                        let mut x = *a;
                        x[i] = b;
                        v.push(Op::Num { idx: *idx, a: x, k: *k });
                    }
                }
                if info.int && *k != 0 {
                    for c in [0, 1, *k / 2] {
                        if c != *k {
                            v.push(Op::Num { idx: *idx, a: *a, k: c });
                        }
                    }
                }
            }
            Op::Parse { how, text } => {
                if *how != 0 {
                    v.push(Op::Parse { how: 0, text: text.clone() });
                }
                for t in simpler_text(text) {
                    v.push(Op::Parse { how: *how, text: t });
                }
            }
            Op::Bytes { .. } => {}
            Op::Render { bits, spec } => {
                for s in simpler_spec(spec) {
                    v.push(Op::Render { bits: *bits, spec: s });
                }
                for b in simpler_bits(*bits) {
                    v.push(Op::Render { bits: b, spec: *spec });
                }
            }
        }
        return v.iter().map(|o| o.text()).collect();
    }
    if let Some(t) = crate::plan::dec(f) {
        return simpler_text(&t).iter().map(|t| crate::plan::enc(t)).collect();
    }
    if let Some(b) = crate::op::unhex(f) {
        return simpler_bits(b).into_iter().map(crate::op::hex).collect();
    }
    if let Some(s) = crate::op::spec_parse(f) {
        return simpler_spec(&s).iter().map(crate::op::spec_text).collect();
    }
    if let Ok(n) = f.parse::<u64>() {
        let mut v: Vec<u64> = vec![];
        for c in [0, 1, n / 2, n.saturating_sub(n / 8), n.saturating_sub(1)] {
            if c < n && !v.contains(&c) {
                v.push(c)
            }
        }
        return v.iter().map(|x| x.to_string()).collect();
    }
    vec![]
}
