#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs)]
#[macro_use]
mod hooks;
mod big;
mod child;
mod focus;
mod gen;
mod minimise;
mod model;
mod nodes;
mod op;
mod optext;
mod plan;
mod props;
mod rng;
mod runner;
mod sched;

/// Calls nest deeply in some runs, so the main thread gets a large stack. The
/// limit holds for the next program only: start again.
fn large_stack() {
    use std::os::unix::process::CommandExt;
    const WANTED: u64 = 512 << 20;
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        if libc::getrlimit(libc::RLIMIT_STACK, &mut l) != 0 || l.rlim_cur >= WANTED || std::env::var_os("DST_STACK").is_some() {
            return;
        }
        l.rlim_cur = WANTED.min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_STACK, &l);
    }
    // on failure things go on as they are, with less nesting
    let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("DST_STACK", "1").exec();
}
fn main() {
    large_stack();
    let a: Vec<String> = std::env::args().collect();
    hooks::install_panic_hooks();
    hooks::init_shared();
    hooks::resolve_libm();
    model::init();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&runner::Args::parse(&a[2..])),
        Some("replay") => runner::replay(&a[2], &runner::Args::parse(&a[3..])),
        Some("audit") => runner::audit(&runner::Args::parse(&a[2..])),
        Some("plan") => runner::show_plan(&runner::Args::parse(&a[2..])),
        Some("peer") => runner::peer(&a[2]),
        Some("selftest") => {
            model::selftest();
            focus::selftest();
            println!("selftest ok");
            0
        }
        _ => {
            eprintln!("usage: dst check|replay|audit|plan|peer|selftest");
            2
        }
    };
    std::process::exit(code);
}
