//! Throw-away processes: every execution and every reference run gets one.
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq)]
pub enum Ended {
    Ok(Vec<u8>),
    Signal(i32),
    Exit(i32),
    Hang,
}

/// A page the child shares with its parent, so that a crash can be attributed.
pub struct Page(*mut u64);
unsafe impl Sync for Page {}
unsafe impl Send for Page {}
impl Page {
    pub fn new() -> Page {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Page(p as *mut u64)
        }
    }
    pub fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(i)) }
    }
    pub fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.0.add(i), v) }
    }
    pub fn atomic(&self, i: usize) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*(self.0.add(i) as *const std::sync::atomic::AtomicU64) }
    }
}
impl Drop for Page {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.0 as *mut _, 4096);
        }
    }
}

/// Runs `f` in a forked child and returns what it returned. The caller must be
/// single-threaded.
pub fn forked(cpu_s: u64, wall_s: u64, f: impl FnOnce() -> Vec<u8>) -> Ended {
    unsafe {
        let mut fd = [0i32; 2];
        assert_eq!(libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let seed = crate::random::next();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            crate::random::begin(seed);
            libc::close(fd[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let code = match r {
                Ok(out) => {
                    let mut o = &out[..];
                    while !o.is_empty() {
                        let n = libc::write(fd[1], o.as_ptr() as *const _, o.len());
                        if n < 0 {
                            libc::_exit(97);
                        }
                        o = &o[n as usize..];
                    }
                    0
                }
                Err(p) => {
                    let t = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    eprintln!("panic in the simulator: {t}");
                    98
                }
            };
            libc::_exit(code);
        }
        libc::close(fd[1]);
        let mut out = Vec::new();
        let end = Instant::now() + Duration::from_secs(wall_s);
        let mut hang = false;
        let mut buf = vec![0u8; 65536];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                hang = true;
                break;
            }
            let mut p = libc::pollfd { fd: fd[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.as_millis().min(60_000) as i32 + 1);
            if r <= 0 {
                continue;
            }
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        if hang {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if hang {
            return Ended::Hang;
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            return if s == libc::SIGXCPU || s == libc::SIGKILL { Ended::Hang } else { Ended::Signal(s) };
        }
        match libc::WEXITSTATUS(st) {
            0 => Ended::Ok(out),
            c => Ended::Exit(c),
        }
    }
}
