//! A node on a simulated machine: executes the calls given as arguments (or,
//! if the only argument is -, on standard input) and writes their results. Per call: THREAD TAB CALL. With
//! one thread number only, everything runs on the main thread; with several, on
//! that many threads at once.
#![allow(dead_code)]
#[path = "../../src/optext.rs"]
mod optext;
#[path = "../../src/plan.rs"]
mod plan;
use optext::{Fixed, Op, Res};
use std::io::{Read, Write};

fn one(o: &Op) -> Vec<u8> {
    if let Op::Parse { how, text } = o {
        // a block of exactly the size of the text
        let exact: Box<[u8]> = text.as_slice().into();
        let Ok(s) = std::str::from_utf8(&exact) else { return Res::BadUtf8.bytes() };
        return match std::panic::catch_unwind(|| f256ops::parse(*how, s)) {
            Err(_) => Res::Panic,
            Ok(x) => Res::Out(x),
        }
        .bytes();
    }
    let mut sink = if let Op::Render { spec, .. } = o { Fixed::new(if cfg!(miri) { 4000 } else { optext::render_cap(spec) }) } else { Fixed::new(0) };
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| optext::call(o, &mut sink))) {
        Err(_) => Res::Panic,
        Ok((_, Some(ok))) => Res::Text(sink.bytes().to_vec(), ok),
        Ok((x, None)) => Res::Out(x),
    };
    r.bytes()
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut lines: Vec<String> = std::env::args().skip(1).collect();
    if lines.len() == 1 && lines[0] == "-" {
        let mut t = String::new();
        std::io::stdin().read_to_string(&mut t).unwrap();
        lines = t.lines().map(|l| l.to_string()).collect();
    }
    let mut th: Vec<Vec<(usize, Op)>> = vec![];
    let mut n = 0;
    for l in &lines {
        let (a, b) = l.split_once('\t').expect("line");
        let (a, o) = (a.parse::<usize>().expect("thread"), Op::parse(b).expect("call"));
        while th.len() <= a {
            th.push(vec![]);
        }
        th[a].push((n, o));
        n += 1;
    }
    let mut res: Vec<Vec<u8>> = vec![vec![]; n];
    if th.len() == 1 {
        for (i, o) in &th[0] {
            res[*i] = one(o);
        }
    } else {
        let hs: Vec<_> = th.into_iter().map(|c| std::thread::spawn(move || c.iter().map(|(i, o)| (*i, one(o))).collect::<Vec<_>>())).collect();
        for h in hs {
            for (i, r) in h.join().expect("caller") {
                res[i] = r;
            }
        }
    }
    let mut s = String::new();
    for r in &res {
        s += &plan::enc(r);
        s.push('\n');
    }
    std::io::stdout().write_all(s.as_bytes()).unwrap();
}
