//! Forked processes: every run, every restarted node and every golden result
//! is a process of its own that starts from the same pristine image.
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub struct Buf {
    p: *mut u8,
    cap: usize,
}
unsafe impl Send for Buf {}
unsafe impl Sync for Buf {}
impl Buf {
    pub fn new(cap: usize) -> Buf {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), cap, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            Buf { p: p as *mut u8, cap }
        }
    }
    pub fn raw(&self) -> *mut u8 {
        self.p
    }
    fn state(&self) -> &AtomicU32 {
        unsafe { &*(self.p as *const AtomicU32) }
    }
    fn len(&self) -> &AtomicU32 {
        unsafe { &*(self.p.add(4) as *const AtomicU32) }
    }
    fn put(&self, b: &[u8]) {
        assert!(b.len() + 8 <= self.cap, "result buffer too small: {}", b.len());
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(8), b.len()) };
        self.len().store(b.len() as u32, SeqCst);
        self.state().store(1, SeqCst);
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    Ok(Vec<u8>),
    Signal(i32),
    Exit(i32),
}
impl End {
    pub fn describe(&self) -> String {
        match self {
            End::Ok(_) => "ok".into(),
            End::Signal(s) => match *s {
                libc::SIGSEGV | libc::SIGBUS => format!("invalid memory access (signal {s})"),
                libc::SIGABRT => "process aborted".into(),
                libc::SIGXCPU | libc::SIGALRM => "call did not finish (processor time limit)".into(),
                libc::SIGILL | libc::SIGTRAP => format!("illegal instruction (signal {s})"),
                s => format!("killed by signal {s}"),
            },
            End::Exit(c) => format!("process exited with status {c}"),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            End::Ok(_) => "ok",
            End::Signal(libc::SIGXCPU) | End::Signal(libc::SIGALRM) => "hang",
            End::Signal(libc::SIGABRT) => "abort",
            End::Signal(_) => "crash",
            End::Exit(_) => "exit",
        }
    }
}
static mut CUR: *const Buf = std::ptr::null();
/// Finish the current forked process with this result, from any thread.
pub fn finish(b: &[u8]) -> ! {
    unsafe {
        crate::hooks::ctx().in_lib = 0;
        (*CUR).put(b);
        libc::_exit(0)
    }
}
pub static mut CPU_LIMIT: u64 = 40;
pub fn fork_run(buf: &Buf, f: impl FnOnce() -> Vec<u8>) -> End {
    unsafe {
        buf.state().store(0, SeqCst);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            CUR = buf;
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            libc::alarm(CPU_LIMIT as u32 * 6);
            let r = f();
            finish(&r);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                panic!("waitpid");
            }
        }
        if libc::WIFSIGNALED(st) {
            return End::Signal(libc::WTERMSIG(st));
        }
        if buf.state().load(SeqCst) != 1 {
            return End::Exit(libc::WEXITSTATUS(st));
        }
        let n = buf.len().load(SeqCst) as usize;
        End::Ok(std::slice::from_raw_parts(buf.p.add(8), n).to_vec())
    }
}
