//! Shared-memory statistics and fork()-based work sharing.
use crate::exec::Exec;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::time::Instant;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
}

pub const NCOVER: usize = 512;
pub const NAMELEN: usize = 112;

#[repr(C)]
pub struct CoverSlot {
    state: AtomicU64, // 0 free, 1 being written, 2 ready
    pub count: AtomicU64,
    len: AtomicU64,
    name: [u8; NAMELEN],
}

#[repr(C)]
pub struct Counters {
    pub active: AtomicI64,
    pub stop: AtomicI64,
    pub paths: AtomicU64,
    pub infeasible: AtomicU64,
    pub violations: AtomicU64,
    pub errors: AtomicU64,
    pub queries: AtomicU64,
    pub z3_calls: AtomicU64,
    pub cache_hits: AtomicU64,
    pub solver_ns: AtomicU64,
    pub solver_max_ns: AtomicU64,
    pub instrs: AtomicU64,
    pub forks: AtomicU64,
    pub checks: AtomicU64,
    pub checks_sym: AtomicU64,
    pub procs: AtomicU64,
    pub max_pc: AtomicU64,
    pub max_inputs: AtomicU64,
    pub pending: AtomicI64,
    err_state: AtomicU64,
    err: [u8; 2000],
}

pub struct Shared {
    pub c: &'static Counters,
    pub slots: &'static [CoverSlot],
    pub fnmap: *mut u8,
    pub dbgmap: *mut u8,
    pub nfn: usize,
    pub ndbg: usize,
    pub workers: i64,
    pub deadline: Instant,
    pub max_violations: u64,
    pub max_rss_mb: u64,
}

fn shmem(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        p
    }
}

impl Shared {
    pub fn new(nfn: usize, ndbg: usize, workers: i64, deadline: Instant, max_violations: u64) -> Shared {
        unsafe {
            let c = &*(shmem(std::mem::size_of::<Counters>()) as *const Counters);
            let s = shmem(std::mem::size_of::<CoverSlot>() * NCOVER) as *const CoverSlot;
            Shared {
                c,
                slots: std::slice::from_raw_parts(s, NCOVER),
                fnmap: shmem(nfn + 1),
                dbgmap: shmem(ndbg + 2),
                nfn,
                ndbg,
                workers,
                deadline,
                max_violations,
                max_rss_mb: 24_000,
            }
        }
    }
    pub fn cover(&self, name: &str, n: u64) {
        let nb = &name.as_bytes()[..name.len().min(NAMELEN)];
        for s in self.slots {
            loop {
                match s.state.load(Acquire) {
                    2 => {
                        let l = s.len.load(Relaxed) as usize;
                        if &s.name[..l] == nb {
                            s.count.fetch_add(n, Relaxed);
                            return;
                        }
                        break;
                    }
                    0 => {
                        if s.state.compare_exchange(0, 1, AcqRel, Relaxed).is_ok() {
                            unsafe {
                                let p = s.name.as_ptr() as *mut u8;
                                std::ptr::copy_nonoverlapping(nb.as_ptr(), p, nb.len());
                            }
                            s.len.store(nb.len() as u64, Relaxed);
                            s.count.store(n, Relaxed);
                            s.state.store(2, Release);
                            return;
                        }
                    }
                    _ => std::hint::spin_loop(),
                }
            }
        }
    }
    pub fn covers(&self) -> Vec<(String, u64)> {
        self.slots
            .iter()
            .filter(|s| s.state.load(Acquire) == 2)
            .map(|s| (String::from_utf8_lossy(&s.name[..s.len.load(Relaxed) as usize]).into_owned(), s.count.load(Relaxed)))
            .collect()
    }
    pub fn error(&self, msg: &str) {
        self.c.errors.fetch_add(1, Relaxed);
        if self.c.err_state.compare_exchange(0, 1, AcqRel, Relaxed).is_ok() {
            let b = msg.as_bytes();
            let n = b.len().min(1999);
            unsafe {
                let p = self.c.err.as_ptr() as *mut u8;
                std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
            }
        }
        self.c.stop.store(1, Relaxed);
    }
    pub fn error_text(&self) -> String {
        let b = &self.c.err;
        let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
        String::from_utf8_lossy(&b[..n]).into_owned()
    }
}

thread_local! {
    static LAST: std::cell::Cell<Option<Instant>> = const { std::cell::Cell::new(None) };
}

/// called regularly by the interpreter; returns false when exploration must stop
pub fn poll(ex: &mut Exec) -> bool {
    let sh = ex.shared;
    if sh.c.stop.load(Relaxed) != 0 {
        ex.stack.clear();
        return false;
    }
    let now = Instant::now();
    if now > sh.deadline {
        sh.error("time limit reached before the exploration was complete");
        ex.stack.clear();
        return false;
    }
    if ex.stack.len() >= 1 && sh.c.active.load(Relaxed) < sh.workers {
        let ok = LAST.with(|l| match l.get() {
            Some(t) if now.duration_since(t).as_micros() < 2000 => false,
            _ => {
                l.set(Some(now));
                true
            }
        });
        if ok {
            split(ex);
        }
    }
    true
}

fn split(ex: &mut Exec) {
    let sh = ex.shared;
    let a = sh.c.active.fetch_add(1, AcqRel);
    if a >= sh.workers {
        sh.c.active.fetch_sub(1, AcqRel);
        return;
    }
    // the child takes the older half of the pending states (closest to the root)
    let n = (ex.stack.len() + 1) / 2;
    flush(ex);
    let pid = unsafe { fork() };
    if pid < 0 {
        sh.c.active.fetch_sub(1, AcqRel);
        return;
    }
    if pid == 0 {
        ex.stack.truncate(n);
        sh.c.procs.fetch_add(1, Relaxed);
        work(ex);
        finish(ex);
    } else {
        ex.stack.drain(..n);
    }
}

fn flush(ex: &mut Exec) {
    let c = ex.shared.c;
    let s = &mut ex.solver;
    c.queries.fetch_add(s.queries, Relaxed);
    c.z3_calls.fetch_add(s.z3_calls, Relaxed);
    c.cache_hits.fetch_add(s.cache_hits, Relaxed);
    c.solver_ns.fetch_add(s.time_ns, Relaxed);
    c.solver_max_ns.fetch_max(s.max_ns, Relaxed);
    c.instrs.fetch_add(ex.instrs, Relaxed);
    c.forks.fetch_add(ex.forks, Relaxed);
    c.checks.fetch_add(ex.checks, Relaxed);
    c.checks_sym.fetch_add(ex.checks_sym, Relaxed);
    for (t, n) in ex.tag_counts.iter_mut() {
        if *n > 0 {
            ex.shared.cover(&format!("check {}", t), *n);
            *n = 0;
        }
    }
    s.queries = 0;
    s.z3_calls = 0;
    s.cache_hits = 0;
    s.time_ns = 0;
    ex.instrs = 0;
    ex.forks = 0;
    ex.checks = 0;
    ex.checks_sym = 0;
}

pub fn finish(ex: &mut Exec) -> ! {
    flush(ex);
    ex.shared.c.active.fetch_sub(1, AcqRel);
    unsafe { _exit(0) }
}

pub fn work(ex: &mut Exec) {
    while let Some(mut st) = ex.stack.pop() {
        if ex.shared.c.stop.load(Relaxed) != 0 {
            ex.stack.clear();
            return;
        }
        let end = ex.run(&mut st);
        crate::report(ex, &st, end);
    }
}

/// Run the worker pool; returns true when every process ended normally.
pub fn supervise(mut ex: Exec) -> bool {
    let sh = ex.shared;
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
        sh.c.active.store(1, Release);
        let pid = fork();
        if pid == 0 {
            setpgid(0, 0);
            prctl(1, 9, 0, 0, 0); // die with the supervisor
            sh.c.procs.fetch_add(1, Relaxed);
            work(&mut ex);
            finish(&mut ex);
        }
        let pgid = pid;
        setpgid(pid, pid);
        let mut ok = true;
        loop {
            let mut st = 0;
            let r = waitpid(-1, &mut st, 1);
            if r < 0 {
                break;
            }
            if r == 0 {
                std::thread::sleep(std::time::Duration::from_millis(2));
                if Instant::now() > sh.deadline + std::time::Duration::from_secs(20) {
                    sh.error("workers did not stop in time");
                    kill(-pgid, 9);
                }
                continue;
            }
            if st != 0 {
                ok = false;
                sh.error(&format!("worker process {} ended abnormally (status {:#x})", r, st));
                kill(-pgid, 9);
            }
        }
        let _ = getpid();
        ok
    }
}
