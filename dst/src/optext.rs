//! Operations of a plan: text form, plain execution, encoded result. Shared
//! with the program that runs on the simulated machine (`emu`).
pub use f256ops::Bits;
use crate::plan::{dec, enc};
use f256ops::{Out, Spec, OPS};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Num { idx: usize, a: [Bits; 3], k: i128 },
    Parse { how: u8, text: Vec<u8> },
    Bytes { order: u8, b: [u8; 32] },
    Render { bits: Bits, spec: Spec },
}

pub fn hex(b: Bits) -> String {
    format!("{:032x}{:032x}", b.0, b.1)
}
pub fn unhex(s: &str) -> Option<Bits> {
    if s.len() != 64 || !s.is_ascii() {
        return None;
    }
    Some((u128::from_str_radix(&s[..32], 16).ok()?, u128::from_str_radix(&s[32..], 16).ok()?))
}
pub fn spec_text(s: &Spec) -> String {
    format!(
        "{},{:x},{},{},{},{},{}",
        s.kind,
        s.fill as u32,
        s.align,
        s.plus as u8,
        s.zero as u8,
        s.width.map_or("-".into(), |x| x.to_string()),
        s.prec.map_or("-".into(), |x| x.to_string())
    )
}
pub fn spec_parse(t: &str) -> Option<Spec> {
    let f: Vec<&str> = t.split(',').collect();
    if f.len() != 7 {
        return None;
    }
    let opt = |s: &str| if s == "-" { Some(None) } else { s.parse::<u16>().ok().map(Some) };
    Some(Spec {
        kind: f[0].parse().ok()?,
        fill: char::from_u32(u32::from_str_radix(f[1], 16).ok()?)?,
        align: f[2].parse().ok()?,
        plus: f[3] == "1",
        zero: f[4] == "1",
        width: opt(f[5])?,
        prec: opt(f[6])?,
    })
}
pub fn op_index(name: &str) -> usize {
    OPS.iter().position(|o| o.name == name).unwrap_or_else(|| panic!("op {name}"))
}

impl Op {
    pub fn text(&self) -> String {
        match self {
            Op::Num { idx, a, k } => {
                let o = &OPS[*idx];
                let mut s = format!("num {}", o.name);
                for x in &a[..o.args as usize] {
                    s += " ";
                    s += &hex(*x);
                }
                if o.int {
                    s += &format!(" {k}");
                }
                s
            }
            Op::Parse { how, text } => format!("parse {how} {}", enc(text)),
            Op::Bytes { order, b } => {
                let mut s = format!("bytes {order} ");
                for x in b {
                    write!(s, "{x:02x}").unwrap();
                }
                s
            }
            Op::Render { bits, spec } => format!("render {} {}", hex(*bits), spec_text(spec)),
        }
    }
    pub fn parse(t: &str) -> Option<Op> {
        let f: Vec<&str> = t.split(' ').collect();
        match f[0] {
            "num" => {
                let idx = OPS.iter().position(|o| o.name == *f.get(1).unwrap_or(&""))?;
                let o = &OPS[idx];
                let mut a = [(0, 0); 3];
                for i in 0..o.args as usize {
                    a[i] = unhex(f.get(2 + i)?)?;
                }
                let k = if o.int { f.get(2 + o.args as usize)?.parse().ok()? } else { 0 };
                Some(Op::Num { idx, a, k })
            }
            "parse" => Some(Op::Parse { how: f.get(1)?.parse().ok()?, text: dec(f.get(2)?)? }),
            "bytes" => {
                let b = unhex(f.get(2)?)?;
                let mut x = [0u8; 32];
                x[..16].copy_from_slice(&b.0.to_be_bytes());
                x[16..].copy_from_slice(&b.1.to_be_bytes());
                Some(Op::Bytes { order: f.get(1)?.parse().ok()?, b: x })
            }
            "render" => Some(Op::Render { bits: unhex(f.get(1)?)?, spec: spec_parse(f.get(2)?)? }),
            _ => None,
        }
    }
    pub fn is_render(&self) -> bool {
        matches!(self, Op::Render { .. })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Num { idx, .. } => OPS[*idx].name,
            Op::Parse { .. } => "parse",
            Op::Bytes { .. } => "bytes",
            Op::Render { .. } => "render",
        }
    }
}

/// Sink with storage allocated beforehand, so recording a rendering performs
/// no allocation inside the library call.
pub struct Fixed {
    pub buf: Vec<u8>,
    pub len: usize,
    pub overflow: bool,
}
impl Fixed {
    pub fn new(cap: usize) -> Self {
        Fixed { buf: vec![0; cap], len: 0, overflow: false }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.buf[..self.len]
    }
}
impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        if self.len + b.len() > self.buf.len() {
            self.overflow = true;
            return Err(std::fmt::Error);
        }
        self.buf[self.len..self.len + b.len()].copy_from_slice(b);
        self.len += b.len();
        Ok(())
    }
}

/// Result of one executed operation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Out(Out),
    Text(Vec<u8>, bool), // accepted bytes, reported success
    BadUtf8,
    Panic,
}
impl Res {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Res::Out(o) => format!("O{}", out_text(o)).into_bytes(),
            Res::Text(b, ok) => {
                let mut v = vec![if *ok { b'T' } else { b'E' }];
                v.extend_from_slice(b);
                v
            }
            Res::BadUtf8 => b"U".to_vec(),
            Res::Panic => b"P".to_vec(),
        }
    }
}
pub fn out_text(o: &Out) -> String {
    match o {
        Out::F(b) => hex(*b),
        Out::FF(a, b) => format!("{}:{}", hex(*a), hex(*b)),
        Out::I(i) => format!("i{i}"),
        Out::Parts(s, t, c) => format!("p{s}:{t}:{}", hex(*c)),
        Out::Bytes(b) => b.iter().map(|x| format!("{x:02x}")).collect(),
        Out::Err(e) => format!("err{}", *e as u8),
        Out::Unsupported => "unsupported".into(),
    }
}
pub fn show(b: &[u8]) -> String {
    let e = enc(b);
    if e.len() > 400 {
        format!("{}...{} ({} bytes)", &e[..200], &e[e.len() - 150..], b.len())
    } else {
        e
    }
}

/// capacity sufficient for any rendering of the given spec
pub fn render_cap(s: &Spec) -> usize {
    // Debug notation pads several fields
    let w = s.width.unwrap_or(0) as usize * 4 * 6;
    80_000 + w + s.prec.unwrap_or(0) as usize
}

/// Execute without catching panics; rendering goes to `sink`.
pub fn call(op: &Op, sink: &mut dyn Write) -> (Out, Option<bool>) {
    match op {
        Op::Num { idx, a, k } => ((OPS[*idx].func)(a, *k), None),
        Op::Parse { how, text } => match std::str::from_utf8(text) {
            Ok(s) => (f256ops::parse(*how, s), None),
            Err(_) => (Out::Unsupported, None),
        },
        Op::Bytes { order, b } => (Out::F(f256ops::from_bytes(*order, *b)), None),
        Op::Render { bits, spec } => {
            let r = f256ops::render(*bits, spec, sink);
            (Out::Unsupported, Some(r.is_ok()))
        }
    }
}

