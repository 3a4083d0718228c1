//! Counted execution of the operations of a plan.
pub use crate::optext::*;
/// Execute one operation with a private sink and record its result.
pub fn run(op: &Op) -> Res {
    let mut sink = Fixed::new(match op {
        Op::Render { spec, .. } => render_cap(spec),
        _ => 0,
    });
    run_into(op, &mut sink)
}
/// As `run`, counting library steps and stopping the run beyond `budget`.
pub fn run_budget(op: &Op, sink: &mut Fixed, budget: u64) -> (Res, u64) {
    use crate::hooks::ctx;
    let c = ctx();
    let (ol, os) = (c.limit, c.op_start);
    c.op_start = c.steps;
    c.limit = c.steps.saturating_add(budget);
    crate::sched::refresh();
    let r = run_into(op, sink);
    let c = ctx();
    let n = c.steps - c.op_start;
    c.limit = ol;
    c.op_start = os;
    crate::sched::refresh();
    crate::st!(ops);
    crate::st!(lib_steps, n);
    (r, n)
}
pub fn run_into(op: &Op, sink: &mut Fixed) -> Res {
    if let Op::Parse { text, .. } = op {
        if std::str::from_utf8(text).is_err() {
            return Res::BadUtf8;
        }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _l = crate::hooks::enter();
        call(op, sink)
    }));
    match r {
        Err(_) => Res::Panic,
        Ok((_, Some(ok))) => Res::Text(sink.bytes().to_vec(), ok),
        Ok((o, None)) => Res::Out(o),
    }
}
