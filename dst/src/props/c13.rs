//! A computation resumed from a checkpoint ends bit-identical to an unbroken one.
use super::*;
use crate::{focus, gen};
use crate::model::{self, Bits};
use crate::op::{hex, unhex};
use f256ops::{Out, Spec, OPS};

pub static PROP: Prop = Prop {
    id: "C13",
    gen: plan,
    exec,
    quick: 8_000,
    build: "rel",
    rule: "a run is a program of 2-24 instructions over 2-8 registers, executed 1-60 times round, once unbroken and once killed 1-8 times at explicit points; checkpoints go to two slots in big-, little- or native-endian bytes, raw bits or lossless text, the one being written at a kill is torn, mixed with the old one, zeroed, lost or complete; each life is a fresh process of the same or another build; final registers must be identical; non-trivial: at least one kill; distinct by the hash of kills, resumed positions and registers",
    real: "f256 in four builds (all operations except the declared unimplemented ones), core::fmt",
    simulated: "process life, two-slot checkpoint storage with checksum",
};
const BUILDS: &[&str] = &["rel", "rel", "rel", "rel", "rel", "rel", "dbg", "nostd", "inst"];
/// operations that keep values within reach
const CALM: &[&str] = &["add", "sub", "mul", "div", "rem", "sin", "cos", "tan", "atan", "fract", "sqrt", "ln", "log2", "log10", "mul_add", "square_add", "sum_of_squares", "recip", "max", "min", "div2", "floor", "round", "to_radians", "atan2", "asin", "acos"];
fn plan(r: &mut Rng, p: &mut Plan) {
    let lim = *r.pick(&[30i64, 100, 100, 400]);
    let nr = 2 + r.usize(7);
    let within = if r.chance(2, 3) { Some(lim) } else { None };
    let pool = gen::Pool::new(r, nr, within);
    // without text nothing of the state may be lost, not even of a NaN
    let exact = r.chance(1, 2);
    let nans = exact && r.chance(1, 2);
    let retained = !focus::focus().is_empty() && r.chance(3, 4) && retained(r, p, lim);
    for _ in 0..if retained { 0 } else { nr } {
        let b = if nans && r.chance(1, 3) { gen::nan(r) } else if r.chance(1, 2) { gen::value_within(r, 20) } else { pool.get(r) };
        p.item(format!("init\t{}", hex(b)));
    }
    let mut names: Vec<&str> = OPS.iter().filter(|o| !o.may_panic || o.name == "clamp").map(|o| o.name).collect();
    r.shuffle(&mut names);
    names.truncate(1 + r.usize(12));
    if nans {
        names.extend(["neg", "copysign", "predicates", "total_cmp", "to_be_bytes", "abs"]);
    }
    let n = if retained { p.items.iter().filter(|i| i.starts_with("ins")).count() } else { 2 + r.usize(23) };
    let mut extra = 0;
    for _ in 0..if retained { 0 } else { n } {
        let d = r.usize(nr);
        match r.below(14) {
            12 => p.item(format!("ins\t{d}\tmix\t{}", r.usize(nr))),
            0 => p.item(format!("ins\t{d}\ttext\t{}\t{}\t{}", r.below(6), r.below(4), r.usize(nr))),
            1 => p.item(format!("ins\t{d}\tcodec\t{}\t{}", r.below(3), r.usize(nr))),
            2 if r.chance(1, 3) => p.item(format!("ins\t{d}\tlit\t{}\t{}", r.below(4), enc(&gen::literal(r, lim)))),
            _ => {
                let name = if r.chance(1, 2) { *r.pick(CALM) } else { *r.pick(&names) };
                let mut k = gen::int_arg(r);
                let mut at = [r.usize(nr), r.usize(nr), r.usize(nr)];
                if r.chance(1, 16) {
                    // operands made for each other, in registers of their own
                    let mut a = [gen::any(r), gen::any(r), gen::any(r)];
                    gen::conspire(r, name, &mut a, &mut k);
                    for (i, x) in a.iter().enumerate() {
                        p.item(format!("init\t{}", hex(*x)));
                        at[i] = nr + extra;
                        extra += 1;
                    }
                }
                p.item(format!("ins\t{d}\tnum\t{name}\t{}\t{}\t{}\t{k}", at[0], at[1], at[2]));
            }
        }
    }
    let rounds = 1 + r.log(60);
    p.put("rounds", rounds);
    p.put("every", 1 + r.log(40));
    let total = rounds * n as u64;
    let kills = 1 + r.below(8);
    for _ in 0..kills {
        let at = 1 + if r.chance(1, 2) { r.log(20) } else { r.below((total / kills).max(1) + 2) };
        p.item(format!("kill\t{at}\t{}\t{}\t{}\t{}", r.usize(BUILDS.len()), r.below(if exact { 4 } else { 7 }), r.below(6), r.log(600)));
    }
    p.put("last", r.usize(BUILDS.len()));
}
/// A program of calls that touch state the library keeps, all of whose results
/// end up in the first register.
fn retained(r: &mut Rng, p: &mut Plan, lim: i64) -> bool {
    let Some(ops) = focus::menu(r, 6, lim) else { return false };
    p.item(format!("init\t{}", hex(gen::value_within(r, 20))));
    p.item(format!("init\t{}", hex(gen::value_within(r, 20))));
    let mut nr = 2;
    for _ in 0..2 + r.usize(20) {
        match r.pick(&ops) {
            Op::Num { idx, a, k } if !OPS[*idx].may_panic => {
                let mut at = [0; 3];
                for i in 0..OPS[*idx].args.min(3) as usize {
                    at[i] = nr;
                    p.item(format!("init\t{}", hex(a[i])));
                    nr += 1;
                }
                p.item(format!("ins\t1\tnum\t{}\t{}\t{}\t{}\t{k}", OPS[*idx].name, at[0], at[1], at[2]));
            }
            Op::Parse { how, text } if text.len() < 2000 => p.item(format!("ins\t1\tlit\t{how}\t{}", enc(text))),
            Op::Render { bits, .. } => {
                p.item(format!("init\t{}", hex(*bits)));
                p.item(format!("ins\t1\tshow\t{}\t{nr}", r.below(6)));
                nr += 1;
            }
            _ => continue,
        }
        p.item(format!("ins\t0\tmix\t1"));
    }
    p.items.iter().any(|i| i.starts_with("ins"))
}
#[derive(Default, Clone)]
struct Disk([Vec<u8>; 2]);
struct Machine {
    reg: Vec<Bits>,
    ins: Vec<Vec<String>>,
    pc: u64,
    /// text does not hold the sign and payload of a NaN
    exact: bool,
}
const NAN: Bits = (0x7ffff8 << 104, 0);
fn canon(b: Bits, exact: bool) -> Bits {
    if model::is_nan(b) && !exact {
        NAN
    } else {
        b
    }
}
fn folded(n: u64) -> Bits {
    gen::with_exp(0x3ffff, (mix(n) as u128 >> 20, (mix(n) as u128) << 64 | n as u128), false)
}
/// decimal exponent beyond about 6000
fn far(b: Bits) -> bool {
    let e = ((b.0 & model::EXP_MASK) >> 108) as i64;
    gen::big(b) && (e - 0x3ffff).abs() > 20_000 && e != 0x7ffff
}
/// text that identifies the number, in one of several forms
fn lossless(b: Bits, how: u64) -> Option<Vec<u8>> {
    let mut s = Spec::plain(0);
    match how {
        0 if !gen::big(b) => {}
        0 | 1 => s.kind = 1,
        2 => s.kind = 2,
        3 => {
            s.kind = 1;
            s.prec = Some(75);
        }
        4 => {
            s.kind = 1;
            s.plus = true;
            s.prec = Some(72);
        }
        _ => {
            s.kind = 2;
            s.prec = Some(73);
        }
    }
    let mut sink = Fixed::new(op::render_cap(&s));
    match op::run_into(&Op::Render { bits: b, spec: s }, &mut sink) {
        Res::Text(t, true) => Some(t),
        _ => None,
    }
}
impl Machine {
    fn new(items: &[&str]) -> Machine {
        let mut m = Machine { reg: vec![], ins: vec![], pc: 0, exact: items.contains(&"exact") };
        for it in items {
            let f = fields(it);
            match f[0] {
                "init" => {
                    if let Some(b) = f.get(1).and_then(|x| unhex(x)) {
                        m.reg.push(canon(b, m.exact));
                    }
                }
                "ins" if f.len() > 3 => m.ins.push(f[1..].iter().map(|s| s.to_string()).collect()),
                _ => {}
            }
        }
        m
    }
    fn r(&self, f: &[String], i: usize) -> Bits {
        let n: usize = f.get(i).and_then(|s| s.parse().ok()).unwrap_or(0);
        self.reg[n % self.reg.len()]
    }
    fn step(&mut self) {
        let f = self.ins[(self.pc % self.ins.len() as u64) as usize].clone();
        self.pc += 1;
        let d = f[0].parse::<usize>().unwrap_or(0) % self.reg.len();
        let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        let mut second = None;
        let v = match f[1].as_str() {
            "num" => {
                let Some(idx) = OPS.iter().position(|o| o.name == f[2]) else { return };
                let a = [self.r(&f, 3), self.r(&f, 4), self.r(&f, 5)];
                let k = f.get(6).and_then(|s| s.parse().ok()).unwrap_or(0);
                match op::run(&Op::Num { idx, a, k }) {
                    Res::Out(Out::F(b)) => b,
                    Res::Out(Out::FF(x, y)) => {
                        second = Some(y);
                        x
                    }
                    o => folded(hash_bytes(5, &o.bytes())),
                }
            }
            // reading such text back takes long
            "text" if far(self.r(&f, 4)) => self.r(&f, 4),
            "text" => match lossless(self.r(&f, 4), n(2)) {
                Some(t) => match op::run(&Op::Parse { how: n(3) as u8, text: t }) {
                    Res::Out(Out::F(b)) => b,
                    o => folded(hash_bytes(6, &o.bytes())),
                },
                None => folded(1),
            },
            "codec" => {
                let names = ["to_be_bytes", "to_le_bytes", "to_ne_bytes"];
                let o = n(2) as usize % 3;
                match op::run(&Op::Num { idx: op::op_index(names[o]), a: [self.r(&f, 3); 3], k: 0 }) {
                    Res::Out(Out::Bytes(b)) => match op::run(&Op::Bytes { order: o as u8, b }) {
                        Res::Out(Out::F(b)) => b,
                        _ => folded(2),
                    },
                    _ => folded(3),
                }
            }
            // all bits of both count
            "mix" => folded(hash_bytes(8, format!("{} {}", hex(self.reg[d]), hex(self.r(&f, 2))).as_bytes())),
            "show" => folded(hash_bytes(9, &lossless(self.r(&f, 3), n(2)).unwrap_or_default())),
            "lit" => match op::run(&Op::Parse { how: n(2) as u8, text: f.get(3).and_then(|t| dec(t)).unwrap_or_default() }) {
                Res::Out(Out::F(b)) => b,
                o => folded(hash_bytes(7, &o.bytes())),
            },
            _ => return,
        };
        self.reg[d] = canon(v, self.exact);
        if let Some(y) = second {
            let k = self.reg.len();
            self.reg[(d + 1) % k] = canon(y, self.exact);
        }
        crate::st!(prog_steps);
    }
    fn save(&self, seq: u64, how: u64) -> Option<Vec<u8>> {
        let mut pay = vec![];
        let how = if how > 3 && self.reg.iter().any(|b| far(*b)) { seq % 4 } else { how };
        for &b in &self.reg {
            match how {
                0..=2 => {
                    let names = ["to_be_bytes", "to_le_bytes", "to_ne_bytes"];
                    match op::run(&Op::Num { idx: op::op_index(names[how as usize]), a: [b; 3], k: 0 }) {
                        Res::Out(Out::Bytes(x)) => pay.extend(x),
                        _ => return None,
                    }
                }
                // every call takes and returns raw bits
                3 => {
                    pay.extend(b.0.to_le_bytes());
                    pay.extend(b.1.to_le_bytes());
                }
                _ => {
                    pay.extend(lossless(b, how - 4)?);
                    pay.push(b'\n');
                }
            }
        }
        let mut v = vec![];
        for n in [seq, self.pc, how, pay.len() as u64] {
            v.extend(n.to_le_bytes());
        }
        v.extend(&pay);
        v.extend(hash_bytes(11, &v).to_le_bytes());
        Some(v)
    }
    /// registers, position and number of a valid checkpoint
    fn load(&self, b: &[u8]) -> Option<Result<(u64, u64, Vec<Bits>), String>> {
        if b.len() < 40 {
            return None;
        }
        let n = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        let (seq, pc, how, len) = (n(0), n(1), n(2), n(3) as usize);
        if len > b.len() - 40 || hash_bytes(11, &b[..32 + len]) != u64::from_le_bytes(b[32 + len..40 + len].try_into().unwrap()) {
            return None;
        }
        let pay = &b[32..32 + len];
        let mut reg = vec![];
        if how < 4 {
            for c in pay.chunks(32) {
                let Ok(c) = <[u8; 32]>::try_from(c) else { return Some(Err("stored bytes are short".into())) };
                if how == 3 {
                    reg.push((u128::from_le_bytes(c[..16].try_into().unwrap()), u128::from_le_bytes(c[16..].try_into().unwrap())));
                    continue;
                }
                match op::run(&Op::Bytes { order: how as u8, b: c }) {
                    Res::Out(Out::F(x)) => reg.push(canon(x, self.exact)),
                    o => return Some(Err(format!("stored bytes give {}", res_show(&o.bytes())))),
                }
            }
        } else {
            for t in pay.split(|c| *c == b'\n').filter(|t| !t.is_empty()) {
                match op::run(&Op::Parse { how: 0, text: t.to_vec() }) {
                    Res::Out(Out::F(x)) => reg.push(canon(x, self.exact)),
                    o => return Some(Err(format!("stored text {} gives {}", op::show(t), res_show(&o.bytes())))),
                }
            }
        }
        if reg.len() != self.reg.len() {
            return Some(Err(format!("checkpoint holds {} registers of {}", reg.len(), self.reg.len())));
        }
        Some(Ok((seq, pc, reg)))
    }
}
fn unhexb(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).ok()).collect()
}
fn hexb(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// One life: load the newest valid checkpoint, run, die.
fn life(t: &str) -> String {
    // numbers live in variables
    unsafe { f256ops::MEMORY.on = true };
    let lines: Vec<&str> = t.lines().collect();
    let mut m = Machine::new(&lines);
    if m.reg.is_empty() || m.ins.is_empty() {
        return "err\tempty".into();
    }
    let mut disk = Disk::default();
    let (mut n, mut total, mut every, mut how, mut torn, mut off) = (0u64, 0u64, 0u64, 0u64, 9u64, 0usize);
    for l in &lines {
        let f = fields(l);
        match f[0] {
            "disk" => disk = Disk([unhexb(f.get(1).unwrap_or(&"")), unhexb(f.get(2).unwrap_or(&""))]),
            "run" => {
                let g = |i| num::<u64>(&f, i).unwrap_or(0);
                (n, total, every, how, torn, off) = (g(1), g(2), g(3), g(4), g(5), g(6) as usize);
            }
            _ => {}
        }
    }
    let (mut seq, mut slot) = (0, 0);
    for i in 0..2 {
        match m.load(&disk.0[i]) {
            Some(Ok((s, pc, reg))) if s >= seq => {
                (seq, m.pc, m.reg, slot) = (s, pc, reg, 1 - i);
            }
            Some(Err(e)) => return format!("err\t{e}"),
            _ => {}
        }
    }
    let from = m.pc;
    for _ in 0..n {
        if m.pc >= total {
            break;
        }
        m.step();
        if every > 0 && m.pc % every == 0 {
            seq += 1;
            match m.save(seq, how) {
                Some(v) => disk.0[slot] = v,
                None => return format!("err\ta register could not be stored in form {how}"),
            }
            slot = 1 - slot;
            crate::st!(checkpoints);
        }
    }
    // the checkpoint under way when the process is killed
    if torn < 6 && torn > 0 {
        match m.save(seq + 1, how) {
            Some(v) => {
                let old = disk.0[slot].clone();
                let k = off.min(v.len());
                disk.0[slot] = match torn {
                    1 => v[..k].to_vec(),
                    2 => [&v[..k], &old[k.min(old.len())..]].concat(),
                    3 => [&v[..k], &vec![0; v.len() - k][..]].concat(),
                    4 => {
                        let mut x = v.clone();
                        x[k.min(v.len() - 1)] ^= 0x10;
                        x
                    }
                    _ => v,
                };
            }
            None => return format!("err\ta register could not be stored in form {how}"),
        }
    }
    format!("ok\t{from}\t{}\t{}\t{}\t{}", m.pc, hexb(&disk.0[0]), hexb(&disk.0[1]), m.reg.iter().map(|b| hex(*b)).collect::<Vec<_>>().join(","))
}
pub fn peer(t: &str) -> String {
    life(t)
}
fn exec(p: &Plan, run: &mut Run) -> Result<(), Viol> {
    let prog: String = p.items.iter().filter(|i| i.starts_with("init\t") || i.starts_with("ins\t")).map(|i| format!("{i}\n")).collect();
    let n_ins = p.items.iter().filter(|i| i.starts_with("ins\t") && fields(i).len() > 3).count() as u64;
    if n_ins == 0 || !prog.contains("init\t") {
        return Ok(());
    }
    let texts = p.items.iter().filter(|i| i.starts_with("kill\t")).any(|i| num::<u64>(&fields(i), 3).unwrap_or(9) % 10 > 3);
    let prog = if texts { prog } else { prog + "exact\n" };
    let total = n_ins * p.num("rounds", 1).clamp(1, 1000);
    let every = p.num("every", 0);
    let local = |inp: &str| match fresh(|| life(inp).into_bytes()) {
        End::Ok(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
        e => viol("died", format!("a life of the program died: {}", e.describe()), "life"),
    };
    let unbroken = local(&format!("{prog}run\t{total}\t{total}\t0\t0\t0\t0\n"))?;
    let want = fields(&unbroken).last().unwrap_or(&"").to_string();
    if unbroken.starts_with("err") {
        return viol("state", unbroken, "life");
    }
    let kills: Vec<Vec<u64>> = p
        .items
        .iter()
        .filter_map(|i| {
            let f = fields(i);
            if f[0] != "kill" {
                return None;
            }
            (1..6).map(|k| num::<u64>(&f, k)).collect::<Option<Vec<u64>>>()
        })
        .collect();
    let mut disk = (String::new(), String::new());
    let mut last = String::new();
    for i in 0..=kills.len() {
        let (n, b, how, torn, off) = match kills.get(i) {
            Some(k) => (k[0], k[1], k[2] % 10, k[3] % 6, k[4]),
            None => (total, p.num("last", 0), 0, 0, 0),
        };
        let build = BUILDS[b as usize % BUILDS.len()];
        let inp = format!("{prog}disk\t{}\t{}\nrun\t{n}\t{total}\t{every}\t{how}\t{torn}\t{off}\n", disk.0, disk.1);
        let out = if build == "rel" { local(&inp)? } else { super::c11::ask(build, "segment", &inp)? };
        let f = fields(&out);
        if f[0] != "ok" || f.len() < 6 {
            return viol("state", format!("life {i} in build {build}: {}", f.get(1).unwrap_or(&"no answer")), "life");
        }
        disk = (f[3].into(), f[4].into());
        last = f[5].into();
        run.rec_n(num::<u64>(&f, 1).unwrap_or(0));
        run.rec(last.as_bytes());
        if build != "rel" {
            crate::st!(other_build_segments);
        }
        if i < kills.len() {
            crate::st!(crashes);
            crate::st!(restarts);
            match torn {
                1..=4 => crate::st!(torn_checkpoints),
                0 => crate::st!(lost_checkpoints),
                _ => crate::st!(checkpoints),
            }
            run.nontrivial = true;
        }
        run.log(|| format!("life {i} in build {build}: from {} to {} of {total}, checkpoint form {how}, kill kind {torn} at {off}", f[1], f[2]));
    }
    if last != want {
        let (a, b): (Vec<&str>, Vec<&str>) = (last.split(',').collect(), want.split(',').collect());
        let i = (0..b.len()).find(|&i| a.get(i) != b.get(i)).unwrap_or(0);
        return viol("final", format!("register {i} ends as {} after {} kills, {} unbroken", a.get(i).unwrap_or(&"-"), kills.len(), b[i]), "final");
    }
    Ok(())
}
