//! Deterministic random numbers and the dump-on-crash trace buffer.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// The trace of the execution in progress, kept where a signal handler can
/// write it out.  Only one thread at a time appends.
pub mod cur {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static mut BUF: Vec<u8> = Vec::new();
    static mut PATH: [u8; 512] = [0; 512];
    pub static PROGRESS: AtomicUsize = AtomicUsize::new(0);

    #[allow(static_mut_refs)]
    pub fn clear() {
        unsafe { BUF.clear() };
        PROGRESS.fetch_add(1, Ordering::Relaxed);
    }
    #[allow(static_mut_refs)]
    pub fn push(line: &str) {
        unsafe {
            BUF.extend_from_slice(line.as_bytes());
            BUF.push(b'\n');
        }
        PROGRESS.fetch_add(1, Ordering::Relaxed);
    }
    #[allow(static_mut_refs)]
    pub fn len() -> usize {
        unsafe { BUF.len() }
    }
    #[allow(static_mut_refs)]
    pub fn truncate(n: usize) {
        unsafe { BUF.truncate(n) }
    }

    #[allow(static_mut_refs)]
    pub unsafe fn dump(tail: &[u8]) {
        let fd = libc::open(
            PATH.as_ptr() as *const libc::c_char,
            libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC,
            0o644,
        );
        if fd >= 0 {
            libc::write(fd, BUF.as_ptr() as *const libc::c_void, BUF.len());
            libc::write(fd, tail.as_ptr() as *const libc::c_void, tail.len());
            libc::close(fd);
        }
    }

    extern "C" fn on_signal(sig: libc::c_int) {
        unsafe {
            let mut tail = *b"{\"o\":\"crash\",\"sig\":00}\n";
            let n = tail.len();
            tail[n - 4] = b'0' + (sig / 10) as u8;
            tail[n - 3] = b'0' + (sig % 10) as u8;
            // a number may not start with 0 in JSON
            if sig < 10 {
                tail[n - 4] = b' ';
            }
            dump(&tail);
            libc::_exit(70);
        }
    }

    /// Install crash and hang reporting; `path` receives the trace in progress.
    pub fn install(path: &str, hang_secs: u64) {
        unsafe {
            let b = path.as_bytes();
            PATH[..b.len()].copy_from_slice(b);
            let sz = 1 << 16;
            let mem = libc::mmap(
                std::ptr::null_mut(),
                sz,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            let ss = libc::stack_t { ss_sp: mem, ss_flags: 0, ss_size: sz };
            libc::sigaltstack(&ss, std::ptr::null_mut());
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
        std::thread::spawn(move || {
            let mut last = PROGRESS.load(Ordering::Relaxed);
            let mut same = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let p = PROGRESS.load(Ordering::Relaxed);
                if p == last {
                    same += 1;
                    if same >= hang_secs * 2 {
                        unsafe {
                            dump(b"{\"o\":\"hang\"}\n");
                            libc::_exit(71);
                        }
                    }
                } else {
                    same = 0;
                    last = p;
                }
            }
        });
    }
}
