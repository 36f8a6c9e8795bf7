//! The real daemon as a child process with the shim preloaded.
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[repr(C)]
pub struct Rule {
    pub on: u32,
    pub ops: u32,
    pub err: i32,
    pub partial: u32,
    pub from: u64,
    pub to: u64,
    pub path: [u8; 240],
}
#[repr(C)]
pub struct Ctl {
    pub port: AtomicU32,
    pub listening: AtomicU32,
    pub time_off_ns: AtomicU64,
    pub ops: AtomicU64,
    pub crash_at: AtomicU64,
    pub crash_mode: AtomicU32,
    pub inflight: AtomicU32,
    pub delay_prob: AtomicU32,
    pub delay_us: AtomicU32,
    pub delay_seed: AtomicU64,
    pub delays: AtomicU64,
    pub escapes: AtomicU64,
    pub faults: AtomicU64,
    pub op_delay_us: AtomicU32,
    pub meta_done: AtomicU32,
    pub rules: [Rule; 4],
}
pub const OPEN: u32 = 1;
pub const WRITE: u32 = 2;
pub const RENAME: u32 = 4;
pub const UNLINK: u32 = 8;
pub const READ: u32 = 256;

/// What a crash does to the operation it hits
pub const BEFORE: u32 = 0;
pub const AFTER: u32 = 1;
pub const HALF: u32 = 2;

/// A directory of one case, removed with it
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let root = std::env::var("NETMON_DIR").unwrap_or_else(|_| "/tmp".into());
        let p = PathBuf::from(root).join(format!("netmon-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(p.join("base")).expect("scratch dir");
        Dir(p)
    }
    pub fn base(&self) -> PathBuf {
        self.0.join("base")
    }
    pub fn file(&self, db: &str) -> PathBuf {
        self.base().join(format!("{db}.sdb"))
    }
    pub fn log(&self) -> String {
        std::fs::read_to_string(self.0.join("log")).unwrap_or_default()
    }
    pub fn out_tail(&self) -> String {
        let t = std::fs::read(self.0.join("out")).unwrap_or_default();
        let t = String::from_utf8_lossy(&t[t.len().saturating_sub(1200)..]).into_owned();
        t
    }
    /// what a panic in the daemon leaves in its output
    pub fn panics(&self) -> Option<String> {
        let t = std::fs::read(self.0.join("out")).unwrap_or_default();
        let t = String::from_utf8_lossy(&t);
        let i = t.find("The application panicked").or_else(|| t.find("panicked at"))?;
        Some(t[i..].chars().take(400).collect())
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        if std::env::var("NETMON_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

pub struct Daemon {
    pub child: Child,
    born: Instant,
    ctl: *mut Ctl,
    pub port: u16,
}
unsafe impl Send for Daemon {}
unsafe impl Sync for Daemon {}

#[derive(Default, Clone)]
pub struct Opts {
    pub delay_prob: u32,
    pub delay_us: u32,
    pub seed: u64,
    /// opening this for reading fails
    pub unreadable: Option<(String, i32)>,
    /// file descriptors it may have at once
    pub nofile: Option<u64>,
}

impl Daemon {
    pub fn start(dir: &Dir, o: &Opts) -> Result<Daemon, String> {
        let ctl_path = dir.0.join("ctl");
        std::fs::write(&ctl_path, vec![0_u8; 4096]).expect("ctl");
        let ctl = unsafe {
            let f = std::fs::OpenOptions::new().read(true).write(true).open(&ctl_path).expect("ctl");
            use std::os::fd::AsRawFd;
            let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
            assert!(m != libc::MAP_FAILED, "mmap");
            m.cast::<Ctl>()
        };
        let c = unsafe { &*ctl };
        c.delay_seed.store(o.seed | 1, SeqCst);
        if let Some((p, e)) = &o.unreadable {
            unsafe {
                let r = &mut (*ctl).rules[3];
                r.ops = READ;
                r.err = *e;
                r.path[..p.len()].copy_from_slice(p.as_bytes());
                r.on = 1;
            }
        }
        let out = std::fs::OpenOptions::new().append(true).create(true).open(dir.0.join("out")).expect("out");
        let mut cmd = Command::new(std::env::var("SOURISD").expect("SOURISD"));
        cmd.env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &dir.0)
            .env("BASE_LOCATION", dir.base())
            .env("LD_PRELOAD", std::env::var("SHIM").expect("SHIM"))
            .env("SHIM_CTL", &ctl_path)
            .env("SHIM_BASE", dir.base())
            .env("SHIM_LOG", dir.0.join("log"))
            .env("RUST_LOG", "off")
            // it asks for these otherwise, and takes seconds to make each
            .env("RUST_BACKTRACE", "0")
            .env("RUST_LIB_BACKTRACE", "0")
            .env("RUST_SPANTRACE", "0")
            .current_dir(&dir.0)
            .stdin(Stdio::null())
            .stdout(out.try_clone().expect("out"))
            .stderr(out);
        let nofile = o.nofile;
        unsafe {
            cmd.pre_exec(move || {
                if let Some(n) = nofile {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                Ok(())
            });
        }
        let child = cmd.spawn().expect("daemon");
        let mut d = Daemon { child, born: Instant::now(), ctl, port: 0 };
        let t = Instant::now();
        while c.listening.load(SeqCst) == 0 {
            if let Ok(Some(s)) = d.child.try_wait() {
                return Err(format!("the daemon did not start ({s}): {}", dir.out_tail()));
            }
            if t.elapsed() > Duration::from_secs(40) {
                return Err(format!("the daemon did not listen within 40 s: {}", dir.out_tail()));
            }
            std::thread::sleep(Duration::from_micros(300));
        }
        d.port = c.port.load(SeqCst) as u16;
        // started means that it can be stopped again
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(3) && !d.catches_signals() {
            std::thread::sleep(Duration::from_micros(200));
        }
        d.born = Instant::now();
        std::thread::sleep(Duration::from_micros(500));
        c.delay_us.store(o.delay_us, SeqCst);
        c.delay_prob.store(o.delay_prob, SeqCst);
        Ok(d)
    }
    /// kilobytes of memory in use
    pub fn rss(&self) -> u64 {
        let t = std::fs::read_to_string(format!("/proc/{}/status", self.child.id())).unwrap_or_default();
        t.lines().find_map(|l| l.strip_prefix("VmRSS:")).and_then(|l| l.trim().split(' ').next()?.parse().ok()).unwrap_or(0)
    }
    pub fn fds(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).map(|d| d.count()).unwrap_or(0)
    }
    pub fn threads(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/task", self.child.id())).map(|d| d.count()).unwrap_or(0)
    }
    fn catches_signals(&self) -> bool {
        let t = std::fs::read_to_string(format!("/proc/{}/status", self.child.id())).unwrap_or_default();
        let mask = t.lines().find_map(|l| l.strip_prefix("SigCgt:")).and_then(|l| u64::from_str_radix(l.trim(), 16).ok()).unwrap_or(0);
        let want = 1 << (libc::SIGTERM - 1) | 1 << (libc::SIGINT - 1);
        mask & want == want
    }
    pub fn ctl(&self) -> &Ctl {
        unsafe { &*self.ctl }
    }
    pub fn rule(&self, i: usize, ops: u32, path: &str, err: i32, partial: bool, range: (u64, u64)) {
        unsafe {
            let r = &mut (*self.ctl).rules[i];
            std::ptr::write_volatile(&mut r.on, 0);
            r.ops = ops;
            r.err = err;
            r.partial = u32::from(partial);
            r.from = range.0;
            r.to = range.1;
            r.path = [0; 240];
            r.path[..path.len()].copy_from_slice(path.as_bytes());
            std::sync::atomic::fence(SeqCst);
            std::ptr::write_volatile(&mut r.on, 1);
        }
    }
    pub fn no_rules(&self) {
        for i in 0..4 {
            unsafe { std::ptr::write_volatile(&mut (*self.ctl).rules[i].on, 0) }
        }
    }
    pub fn ops(&self) -> u64 {
        self.ctl().ops.load(SeqCst)
    }
    pub fn jump(&self, secs: u64) {
        self.ctl().time_off_ns.fetch_add(secs * 1_000_000_000, SeqCst);
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    /// Let the save timer run out and wait until the catalogue was written, while others are busy.
    pub fn save_busy(&mut self) -> bool {
        let meta = self.ctl().meta_done.load(SeqCst);
        let mut t = Instant::now();
        for _ in 0..10 {
            self.jump(11);
            while t.elapsed() < Duration::from_secs(3) {
                if self.ctl().meta_done.load(SeqCst) != meta {
                    return true;
                }
                if !self.alive() {
                    return false;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
            t = Instant::now();
        }
        false
    }
    /// Let the save timer run out and wait until what it started is over. True if the catalogue was written.
    pub fn save(&mut self) -> bool {
        let (meta, ops) = (self.ctl().meta_done.load(SeqCst), self.ops());
        self.jump(11);
        let mut jumps = 1;
        let t = Instant::now();
        let (mut last, mut since) = (ops, Instant::now());
        loop {
            std::thread::sleep(Duration::from_micros(400));
            if !self.alive() {
                return false;
            }
            let n = self.ops();
            if n != last || self.ctl().inflight.load(SeqCst) != 0 {
                last = n;
                since = Instant::now();
            }
            let wrote = self.ctl().meta_done.load(SeqCst) != meta;
            let quiet = since.elapsed();
            if wrote && quiet > Duration::from_millis(40) {
                return true;
            }
            // nothing to do, or it failed
            if n != ops && quiet > Duration::from_millis(1200) {
                return wrote;
            }
            // perhaps it was not waiting for the timer yet (writing a report of an error takes seconds)
            if n == ops && quiet > Duration::from_millis(2000) {
                if jumps == 10 {
                    return false;
                }
                jumps += 1;
                since = Instant::now();
                self.jump(11);
            }
            if t.elapsed() > Duration::from_secs(60) {
                return wrote;
            }
        }
    }
    pub fn signal(&self, s: i32) {
        unsafe {
            libc::kill(self.child.id() as i32, s);
        }
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    /// wait for the daemon to end by itself
    pub fn wait(&mut self, limit: Duration) -> Option<std::process::ExitStatus> {
        let t = Instant::now();
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return Some(s);
            }
            if t.elapsed() > limit {
                return None;
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    /// ask it to stop, and check that it does so properly
    pub fn stop(&mut self, sig: i32) -> Result<(), String> {
        let young = self.born.elapsed() < Duration::from_millis(500);
        self.signal(sig);
        // a signal that arrives while the handlers are being installed may go unnoticed
        let mut end = self.wait(Duration::from_secs(if young { 5 } else { 30 }));
        if young && end.is_none() {
            self.signal(sig);
            end = self.wait(Duration::from_secs(30));
        }
        match end {
            None => Err("the daemon still runs 30 s after it was asked to stop".into()),
            Some(s) if s.success() => Ok(()),
            Some(s) => Err(format!("asked to stop, the daemon ended with {:?} (signal {:?})", s.code(), s.signal())),
        }
    }
}
impl Drop for Daemon {
    fn drop(&mut self) {
        self.kill();
        unsafe {
            libc::munmap(self.ctl.cast(), 4096);
        }
    }
}

pub fn copy_dir(from: &Path, to: &Path) {
    let _ = std::fs::remove_dir_all(to);
    std::fs::create_dir_all(to).expect("copy");
    for e in std::fs::read_dir(from).expect("copy") {
        let e = e.expect("copy");
        if e.file_type().expect("copy").is_file() {
            std::fs::copy(e.path(), to.join(e.file_name())).expect("copy");
        }
    }
}

pub fn read_all(mut r: impl Read) -> Vec<u8> {
    let mut v = vec![];
    let _ = r.read_to_end(&mut v);
    v
}
