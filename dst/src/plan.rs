//! A plan is one fully explicit execution: configuration, operations, faults
//! and schedule, as text. Replay files are plans.
use std::collections::BTreeMap;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub set: BTreeMap<String, String>,
    pub items: Vec<String>,
}
impl Plan {
    pub fn new(prop: &str, seed: u64, run: u64) -> Self {
        Plan { prop: prop.into(), seed, run, ..Default::default() }
    }
    pub fn put(&mut self, k: &str, v: impl ToString) {
        self.set.insert(k.into(), v.to_string());
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.set.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
    pub fn item(&mut self, s: impl Into<String>) {
        self.items.push(s.into());
    }
    pub fn text(&self) -> String {
        let mut s = format!("dst-plan 1\nproperty {}\nseed {}\nrun {}\n", self.prop, self.seed, self.run);
        for (k, v) in &self.set {
            s += &format!("set {k} {v}\n");
        }
        for i in &self.items {
            s += "item ";
            s += i;
            s.push('\n');
        }
        s
    }
    pub fn parse(t: &str) -> Option<Plan> {
        let mut p = Plan::default();
        let mut l = t.lines();
        if l.next()? != "dst-plan 1" {
            return None;
        }
        for x in l {
            let (k, v) = x.split_once(' ').unwrap_or((x, ""));
            match k {
                "property" => p.prop = v.into(),
                "seed" => p.seed = v.parse().ok()?,
                "run" => p.run = v.parse().ok()?,
                "set" => {
                    let (a, b) = v.split_once(' ').unwrap_or((v, ""));
                    p.set.insert(a.into(), b.into());
                }
                "item" => p.items.push(v.into()),
                _ => {}
            }
        }
        Some(p)
    }
}

/// Compact printable form of arbitrary bytes: `%XX` escapes, `<c*n>` runs.
pub fn enc(b: &[u8]) -> String {
    let mut s = String::from("'");
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let mut n = 1;
        while i + n < b.len() && b[i + n] == c {
            n += 1;
        }
        let one = if c.is_ascii_alphanumeric() || b"+-._:;,!?|/()[]{}=#@^&~".contains(&c) {
            (c as char).to_string()
        } else {
            format!("%{c:02x}")
        };
        if n >= 8 {
            s += &format!("<{one}*{n}>");
        } else {
            for _ in 0..n {
                s += &one;
            }
        }
        i += n;
    }
    s.push('\'');
    s
}
pub fn dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() < 2 || b[0] != b'\'' || b[b.len() - 1] != b'\'' {
        return None;
    }
    let b = &b[1..b.len() - 1];
    let mut v = Vec::new();
    let mut i = 0;
    fn one(b: &[u8], i: &mut usize) -> Option<u8> {
        let c = *b.get(*i)?;
        if c == b'%' {
            let h = std::str::from_utf8(b.get(*i + 1..*i + 3)?).ok()?;
            *i += 3;
            u8::from_str_radix(h, 16).ok()
        } else {
            *i += 1;
            Some(c)
        }
    }
    while i < b.len() {
        if b[i] == b'<' {
            i += 1;
            let c = one(b, &mut i)?;
            if b.get(i) != Some(&b'*') {
                return None;
            }
            i += 1;
            let st = i;
            while b.get(i)?.is_ascii_digit() {
                i += 1;
            }
            let n: usize = std::str::from_utf8(&b[st..i]).ok()?.parse().ok()?;
            if b[i] != b'>' {
                return None;
            }
            i += 1;
            v.resize(v.len() + n, c);
        } else {
            v.push(one(b, &mut i)?);
        }
    }
    Some(v)
}
