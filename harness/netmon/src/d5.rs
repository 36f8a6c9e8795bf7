//! M01: the command-line client on a pseudo-terminal.
use crate::ck;
use crate::core::*;
use crate::d1::dead;
use crate::daemon::*;
use crate::http::*;
use crate::model::{self, Cfg, MV};
use crate::spec::*;
use sourisdb::store::Store;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const M01: &[Kind] = &[kind("session", 160, 4000, session), kind("entry", 120, 4000, entry), kind("exports", 120, 4000, exports), kind("absent", 12, 200, absent)];

// ---------------------------------------------------------------- the terminal

struct Tty {
    child: Child,
    master: Option<OwnedFd>,
    /// what was on the screen, without control sequences
    screen: String,
    esc: Vec<u8>,
    raw: Vec<u8>,
    pos: usize,
    ended: bool,
}
#[derive(Debug)]
enum End {
    Exit(i32),
    Signal(i32),
}
impl Tty {
    fn run(dir: &Dir, port: u16, args: &[&str]) -> Result<Tty, String> {
        let (mut m, mut s) = (0, 0);
        let ws = libc::winsize { ws_row: 40, ws_col: 200, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe {
            if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) != 0 {
                panic!("openpty: {}", std::io::Error::last_os_error());
            }
            // keys wait until they are read, whenever that is
            let mut t: libc::termios = std::mem::zeroed();
            libc::tcgetattr(s, &mut t);
            t.c_lflag &= !(libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN);
            t.c_iflag &= !(libc::ICRNL | libc::IXON | libc::ISTRIP);
            t.c_cc[libc::VMIN] = 1;
            t.c_cc[libc::VTIME] = 0;
            libc::tcsetattr(s, libc::TCSANOW, &t);
            libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
        }
        let master = unsafe { OwnedFd::from_raw_fd(m) };
        let slave = unsafe { OwnedFd::from_raw_fd(s) };
        let out = std::fs::File::create(dir.0.join("stdout")).expect("stdout");
        let mouse = Path::new(&std::env::var("SOURISD").expect("SOURISD")).with_file_name("mouse");
        let mut c = Command::new(mouse);
        c.arg("127.0.0.1")
            .args(args)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &dir.0)
            .env("TERM", "xterm-256color")
            .env("LANG", "C.UTF-8")
            .env("TZ", "UTC")
            .env("RUST_BACKTRACE", "0")
            .env("LD_PRELOAD", std::env::var("SHIM").expect("SHIM"))
            .env("SHIM_CONNECT", port.to_string())
            .current_dir(dir.0.join("mouse"))
            .stdin(Stdio::from(slave.try_clone().expect("slave")))
            .stderr(Stdio::from(slave))
            .stdout(out);
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for s in [libc::SIGINT, libc::SIGHUP, libc::SIGQUIT, libc::SIGTERM, libc::SIGPIPE] {
                    libc::signal(s, libc::SIG_DFL);
                }
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let child = c.spawn().expect("mouse");
        Ok(Tty { child, master: Some(master), screen: String::new(), esc: vec![], raw: vec![], pos: 0, ended: false })
    }
    fn read(&mut self, ms: i32) {
        let Some(m) = &self.master else { return };
        let mut p = libc::pollfd { fd: m.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut p, 1, ms) };
        let mut b = [0_u8; 65536];
        let n = unsafe { libc::read(m.as_raw_fd(), b.as_mut_ptr().cast(), b.len()) };
        if n > 0 {
            self.take(&b[..n as usize]);
        } else if n == 0 || std::io::Error::last_os_error().raw_os_error() == Some(libc::EIO) {
            self.ended = true;
        }
    }
    fn take(&mut self, b: &[u8]) {
        for &c in b {
            if !self.esc.is_empty() {
                self.esc.push(c);
                let csi = self.esc.len() > 1 && self.esc[1] == b'[';
                if csi && self.esc.len() > 2 && (0x40..0x7f).contains(&c) || !csi && self.esc.len() == 2 {
                    self.esc.clear();
                }
            } else if c == 0x1b {
                self.esc.push(c);
            } else if c != b'\r' {
                self.raw.push(c);
            }
        }
        let good = match std::str::from_utf8(&self.raw) {
            Ok(_) => self.raw.len(),
            Err(e) => e.valid_up_to(),
        };
        let t: Vec<u8> = self.raw.drain(..good).collect();
        self.screen.push_str(std::str::from_utf8(&t).unwrap_or(""));
    }
    /// wait until this is on the screen, after what was waited for before
    fn expect(&mut self, what: &str) -> Result<(), String> {
        let t = Instant::now();
        loop {
            if let Some(i) = self.screen[self.pos..].find(what) {
                self.pos += i + what.len();
                return Ok(());
            }
            if self.ended || t.elapsed() > Duration::from_secs(20) {
                return Err(format!("waited for {what:?}; the terminal showed {:?}", tail(&self.screen)));
            }
            self.read(20);
            if !matches!(self.child.try_wait(), Ok(None)) {
                self.read(0);
                self.read(0);
                self.ended = true;
            }
        }
    }
    fn keys(&mut self, s: &str) {
        let Some(fd) = self.master.as_ref().map(|m| m.as_raw_fd()) else { return };
        let b = s.as_bytes();
        let mut at = 0;
        let t = Instant::now();
        while at < b.len() && t.elapsed() < Duration::from_secs(20) {
            let n = unsafe { libc::write(fd, b[at..].as_ptr().cast(), (b.len() - at).min(512)) };
            if n > 0 {
                at += n as usize;
            }
            self.read(0);
        }
    }
    fn finish(&mut self) -> Result<End, String> {
        let t = Instant::now();
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                self.read(0);
                self.read(0);
                return Ok(s.code().map_or_else(|| End::Signal(s.signal().unwrap_or(0)), End::Exit));
            }
            if t.elapsed() > Duration::from_secs(25) {
                return Err(format!("it did not end; the terminal showed {:?}", tail(&self.screen)));
            }
            if self.master.is_some() && !self.ended {
                self.read(5);
            } else {
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
}
impl Drop for Tty {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(500)).collect()
}

// ---------------------------------------------------------------- answers to prompts

#[derive(Clone, Debug)]
enum Act {
    Confirm(&'static str, bool),
    Text(&'static str, String),
    /// by typing, or by walking down
    Select(&'static str, String, bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Leave {
    CtrlC(usize),
    Hangup(usize),
}
struct Ran {
    end: End,
    out: String,
    screen: String,
}
fn play(t: &mut Tty, a: &Act) -> Result<(), String> {
    match a {
        Act::Confirm(p, b) => {
            t.expect(p)?;
            t.keys(if *b { "y" } else { "n" });
        }
        Act::Text(p, s) => {
            t.expect(p)?;
            t.keys(s);
            t.keys("\r");
        }
        Act::Select(p, item, walk) => {
            t.expect(p)?;
            if *walk {
                for _ in 0..200 {
                    t.keys("\x1b[B");
                    t.expect("❯ ")?;
                    let from = t.pos;
                    t.expect("\n")?;
                    if t.screen[from..t.pos - 1] == **item {
                        t.keys("\r");
                        t.expect(&format!("· {item}"))?;
                        return t.expect("\n");
                    }
                }
                return Err(format!("walked down 200 times and did not meet {item:?}; the terminal showed {:?}", tail(&t.screen)));
            }
            t.keys(item);
            t.keys("\r");
            // its report names the prompt again
            t.expect(&format!("· {item}"))?;
            t.expect("\n")?;
        }
    }
    Ok(())
}
fn run(dir: &Dir, port: u16, args: &[&str], acts: &[Act], leave: Option<Leave>) -> Result<Ran, String> {
    let what = || format!("mouse {args:?} {acts:?} {leave:?}").chars().take(900).collect::<String>();
    let mut t = Tty::run(dir, port, args)?;
    for (i, a) in acts.iter().enumerate() {
        match leave {
            Some(Leave::CtrlC(n)) if n == i => {
                let (Act::Confirm(p, _) | Act::Text(p, _) | Act::Select(p, ..)) = a;
                t.expect(p).map_err(|e| format!("{}: {e}", what()))?;
                t.keys("\x03");
                break;
            }
            Some(Leave::Hangup(n)) if n == i => {
                let (Act::Confirm(p, _) | Act::Text(p, _) | Act::Select(p, ..)) = a;
                t.expect(p).map_err(|e| format!("{}: {e}", what()))?;
                t.master = None;
                break;
            }
            _ => play(&mut t, a).map_err(|e| format!("{}: {e}", what()))?,
        }
    }
    let end = t.finish().map_err(|e| format!("{}: {e}", what()))?;
    let out = std::fs::read(dir.0.join("stdout")).unwrap_or_default();
    Ok(Ran { end, out: String::from_utf8_lossy(&out).into_owned(), screen: std::mem::take(&mut t.screen) })
}

// ---------------------------------------------------------------- what can be entered

fn text(r: &mut Rng) -> String {
    let n = r.range(1, 12);
    let s: String = (0..n)
        .map(|_| match r.below(8) {
            0 => *r.pick(&['é', 'ß', '日', '🖖', '\u{a0}', 'İ', '\u{301}', '€']),
            1 => *r.pick(&['"', '\'', '\\', '/', '%', '&', '+', '=', '?', '#', '{', '}', '[', ']', ' ', '~', '|', ';', '<']),
            _ => char::from(b'!' + r.below(94) as u8),
        })
        .collect();
    s
}
fn subseq(a: &str, b: &str) -> bool {
    let b = b.to_lowercase();
    let mut i = b.chars();
    a.to_lowercase().chars().all(|c| i.any(|d| d == c))
}
/// names that typing tells apart
fn distinct(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> String) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut tries = 0;
    while v.len() < n {
        tries += 1;
        let mut s = f(r);
        if tries > 200 {
            s = format!("{}-{tries}", char::from(b'A' + r.below(26) as u8).to_string().repeat(3));
        }
        if s.trim() == s && !s.is_empty() && !v.iter().any(|x| subseq(x, &s) || subseq(&s, x)) {
            v.push(s);
        }
    }
    v
}
fn bool_text(b: bool) -> String {
    if b { "True" } else { "False" }.into()
}
/// a file, or something that is read like one but in pieces
fn place(r: &mut Rng, at: &Path, b: &[u8]) {
    if !r.one_in(4) {
        return std::fs::write(at, b).expect("file");
    }
    let c = std::ffi::CString::new(at.as_os_str().as_encoded_bytes()).expect("path");
    let _ = std::fs::remove_file(at);
    assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0, "mkfifo");
    let (b, piece) = (b.to_vec(), *r.pick(&[1_usize, 7, 100, 128, 129, 500]));
    std::thread::spawn(move || {
        use std::io::Write;
        use std::os::unix::fs::OpenOptionsExt;
        for _ in 0..20000 {
            match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(std::ffi::OsStr::new(c.to_str().expect("path"))) {
                Ok(mut f) => {
                    for (i, p) in b.chunks(piece).enumerate() {
                        let mut p = p;
                        while !p.is_empty() {
                            match f.write(p) {
                                Ok(n) => p = &p[n..],
                                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_millis(1)),
                                Err(_) => return,
                            }
                        }
                        if i < 40 {
                            std::thread::sleep(Duration::from_micros(300));
                        }
                    }
                    return;
                }
                Err(e) if e.raw_os_error() == Some(libc::ENXIO) => std::thread::sleep(Duration::from_millis(1)),
                Err(_) => return,
            }
        }
    });
}
/// a value and how to enter it; files are made below the directory
fn gen_entry(r: &mut Rng, dir: &Dir, depth: usize, acts: &mut Vec<Act>) -> MV {
    let k = if depth == 0 { r.below(14) } else { r.below(17) };
    let mut ty = |r: &mut Rng, s: &str| acts.push(Act::Select("Type: ", s.into(), r.one_in(4)));
    // a wrong answer first
    macro_rules! wrong {
        ($r:expr, $a:expr, $p:expr, $($w:expr),*) => {
            if $r.one_in(5) {
                $a.push(Act::Text($p, (*$r.pick(&[$($w),*])).to_string()));
            }
        };
    }
    match k {
        0 => {
            ty(r, "Character");
            wrong!(r, acts, "Character: ", "ab", "xyz");
            let c = loop {
                let t = text(r);
                if let Some(c) = t.chars().next() {
                    break c;
                }
            };
            acts.push(Act::Text("Character: ", c.to_string()));
            MV::Char(c)
        }
        1 => {
            ty(r, "String");
            let t = if r.one_in(8) { (0..40).map(|_| text(r)).collect() } else { text(r) };
            wrong!(r, acts, "Text: ", "");
            acts.push(Act::Text("Text: ", t.clone()));
            MV::Str(t)
        }
        2 => {
            ty(r, "Binary");
            let n = *r.pick(&[0_usize, 1, 5, 127, 128, 129, 255, 256, 3000]);
            let b = if r.bool() { r.bytes(n) } else { vec![r.byte(); n] };
            let f = format!("bin {}", r.below(1 << 40));
            place(r, &dir.0.join("mouse").join(&f), &b);
            wrong!(r, acts, "path to the file with the binary", "no/such file", "/", ".");
            acts.push(Act::Text("path to the file with the binary", if r.bool() { f } else { dir.0.join("mouse").join(&f).display().to_string() }));
            MV::Bin(b)
        }
        3 => {
            ty(r, "Boolean");
            let b = r.bool();
            acts.push(Act::Select("True", bool_text(b), r.bool()));
            MV::Bool(b)
        }
        4 => {
            ty(r, "Integer");
            let n = if r.bool() { model::gen_num(r) } else { model::gen_num64(r) };
            wrong!(r, acts, "Which number: ", "twelve", "1.5", "--3", "0x");
            acts.push(Act::Text("Which number: ", n.dec()));
            MV::Int(n)
        }
        5 => {
            ty(r, "Imaginary");
            if r.bool() {
                acts.push(Act::Select("Form?", "Polar (re^(θi)) Form".into(), r.bool()));
                let (a, b) = (model::gen_json_float(r), model::gen_json_float(r));
                acts.push(Act::Text("Modulus: ", format!("{a:?}")));
                wrong!(r, acts, "Argument: ", "pi", "1,5");
                acts.push(Act::Text("Argument: ", format!("{b:?}")));
                MV::Polar(a, b)
            } else {
                acts.push(Act::Select("Form?", "Cartesian (a+bi) Form".into(), r.bool()));
                let (a, b) = (model::gen_num64(r), model::gen_num64(r));
                acts.push(Act::Text("Real Part: ", a.dec()));
                acts.push(Act::Text("Imaginary Part: ", b.dec()));
                MV::Cart(a, b)
            }
        }
        6 => {
            ty(r, "Timestamp");
            acts.push(Act::Confirm("Now?", false));
            let MV::Ts { y, mo, d, h, mi, mut s, mut ns } = model::gen_ts(r, false) else { unreachable!() };
            let y = 1 + y.rem_euclid(9998);
            let d = d.min(28);
            let format = r.bool();
            acts.push(Act::Confirm("Would you use the format?", format));
            if format {
                wrong!(r, acts, "%.f", "yesterday", "2024-02-30T10:00:00", "2024-01-01");
                let (sec, frac) = if ns >= 1_000_000_000 { (60, ns - 1_000_000_000) } else { (s, ns) };
                acts.push(Act::Text("%.f", if frac == 0 { format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{sec:02}") } else { format!("{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{sec:02}.{frac:09}") }));
            } else {
                let n = |acts: &mut Vec<Act>, p, x: u32| acts.push(Act::Text(p, x.to_string()));
                if r.one_in(4) {
                    let (y, m, d) = *r.pick(&[(2023, 2, 29), (1900, 2, 29), (2024, 2, 30), (2024, 13, 1), (2024, 0, 1), (2024, 4, 31), (2024, 4, 0)]);
                    n(acts, "Year: ", y);
                    n(acts, "Month: ", m);
                    n(acts, "Date: ", d);
                }
                wrong!(r, acts, "Year: ", "MM", "2.5");
                n(acts, "Year: ", y as u32);
                n(acts, "Month: ", mo);
                n(acts, "Date: ", d);
                if r.one_in(4) {
                    let (h, m, s, ms) = *r.pick(&[(24, 0, 0, 0), (23, 60, 0, 0), (23, 59, 60, 0), (12, 0, 61, 5), (12, 0, 0, 2000), (0, 0, 58, 1000)]);
                    n(acts, "Hour: ", h);
                    n(acts, "Minute: ", m);
                    n(acts, "Seconds: ", s);
                    n(acts, "Milliseconds: ", ms);
                }
                ns = ns / 1_000_000 * 1_000_000;
                if ns >= 1_000_000_000 {
                    s = 59;
                }
                n(acts, "Hour: ", h);
                n(acts, "Minute: ", mi);
                n(acts, "Seconds: ", s);
                n(acts, "Milliseconds: ", ns / 1_000_000);
            }
            MV::Ts { y, mo, d, h, mi, s, ns }
        }
        7 => {
            ty(r, "JSON");
            let mut m = MV::Json(model::gen_json(r, 2, 3, 6));
            crate::props_b::reread_json(&mut m);
            let MV::Json(j) = &m else { unreachable!() };
            let t = j.to_string();
            if t.chars().any(|c| c.is_control()) || t.len() > 3000 {
                acts.push(Act::Text("JSON: ", "[1,{\"a\":null}]".into()));
                return MV::Json(serde_json::json!([1, {"a": null}]));
            }
            wrong!(r, acts, "JSON: ", "{", "nul", "[1,]");
            acts.push(Act::Text("JSON: ", t));
            m
        }
        8 => {
            ty(r, "Null");
            MV::Null
        }
        9 => {
            ty(r, "DoubleFloat");
            let f = match r.below(8) {
                0 => f64::INFINITY,
                1 => -0.0,
                2 => f64::NAN,
                _ => model::gen_f64(r, true, false),
            };
            wrong!(r, acts, "Value:", "one", "1e");
            acts.push(Act::Text("Value:", format!("{f:?}")));
            MV::F64(f)
        }
        10 => {
            ty(r, "SingleFloat");
            wrong!(r, acts, "Value:", "one", "1e");
            if r.one_in(3) {
                // just above the middle between two of them: not to be rounded twice
                let lo = f32::from_bits(0x3f00_0000 + r.below(0x0400_0000) as u32);
                let mid = (f64::from(lo) + f64::from(lo.next_up())) / 2.0;
                let neg = r.bool();
                let t = format!("{}{mid:.40}{}1", if neg { "-" } else { "" }, "0".repeat(r.us(9)));
                acts.push(Act::Text("Value:", t));
                return MV::F32(if neg { -lo.next_up() } else { lo.next_up() });
            }
            let f = if r.one_in(6) { f32::NEG_INFINITY } else { model::gen_f32(r, true, false) };
            acts.push(Act::Text("Value:", format!("{f:?}")));
            MV::F32(f)
        }
        11 => {
            ty(r, "Timezone");
            let z = *r.pick(&["Europe/London", "Antarctica/Troll", "America/Argentina/Buenos_Aires", "Asia/Katmandu", "Pacific/Pago_Pago", "Australia/Lord_Howe", "Africa/Ouagadougou", "America/North_Dakota/New_Salem"]);
            acts.push(Act::Select("Timezone: ", z.into(), false));
            MV::Tz(z.into())
        }
        12 => {
            ty(r, "Ipv4Addr");
            let a = [r.byte(), r.byte(), r.byte(), r.byte()];
            wrong!(r, acts, "Ipv4 Address: ", "1.2.3", "::1", "256.1.1.1");
            acts.push(Act::Text("Ipv4 Address: ", format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3])));
            MV::V4(a)
        }
        13 => {
            ty(r, "Ipv6Addr");
            let mut a = [0_u16; 8];
            for x in &mut a {
                *x = if r.bool() { 0 } else { r.u64() as u16 };
            }
            wrong!(r, acts, "Ipv6 Address: ", "1.2.3.4", ":::1", "g::");
            acts.push(Act::Text("Ipv6 Address: ", std::net::Ipv6Addr::from(a).to_string()));
            MV::V6(a)
        }
        14 | 15 => {
            ty(r, "Array");
            let known = r.bool();
            acts.push(Act::Confirm("Do you know how long the array is?", known));
            let n = if known { r.range(0, 3) } else { r.range(1, 3) };
            if known {
                wrong!(r, acts, "How long?", "-1", "a few");
                acts.push(Act::Text("How long?", n.to_string()));
            }
            let mut v = vec![];
            for i in 0..n {
                v.push(gen_entry(r, dir, depth - 1, acts));
                if !known {
                    acts.push(Act::Confirm("Is that everything?", i + 1 == n));
                }
            }
            MV::Arr(v)
        }
        _ => {
            ty(r, "Map");
            let known = r.bool();
            acts.push(Act::Confirm("Do you know how long the store is?", known));
            let n = r.range(0, 3);
            if known {
                wrong!(r, acts, "Length: ", "-1", "long");
                acts.push(Act::Text("Length: ", n.to_string()));
            }
            let mut v: Vec<(String, MV)> = vec![];
            for _ in 0..n {
                if !known {
                    acts.push(Act::Confirm("Is that all the keys & values?", false));
                }
                // the last one with a key counts
                let k = if !v.is_empty() && r.one_in(6) { v[0].0.clone() } else { text(r) };
                acts.push(Act::Text("Key: ", k.clone()));
                let x = gen_entry(r, dir, depth - 1, acts);
                v.retain(|e| e.0 != k);
                v.push((k, x));
            }
            if !known {
                acts.push(Act::Confirm("Is that all the keys & values?", true));
            }
            MV::Map(v)
        }
    }
}

// ---------------------------------------------------------------- cases

struct World {
    d: Daemon,
    dir: Dir,
    s: State,
    vals: Table,
}
impl World {
    fn new(r: &mut Rng) -> Result<World, String> {
        let dir = Dir::new();
        std::fs::create_dir_all(dir.0.join("mouse")).expect("mouse");
        let d = Daemon::start(&dir, &Opts { seed: r.u64(), ..Opts::default() })?;
        Ok(World { d, dir, s: State::new(), vals: Table::default() })
    }
    fn put(&mut self, r: &mut Rng, db: &str, with: Vec<(String, V)>) -> R {
        let op = Op::PutDb { db: db.into(), overwrite: true, with };
        let want = apply(&mut self.s, &op);
        let mut c = Conn::new(self.d.port)?;
        match perform(&mut c, r, &op, &self.vals, true) {
            Done::Answer(a) if a == want => Ok(()),
            Done::Answer(a) => Err(format!("{op:?} answered {a:?}")),
            Done::Unknown(e) | Done::Wrong(e) => Err(dead(&mut self.d, &self.dir, &e)),
        }
    }
    /// the daemon has what it should, or one of the alternatives
    fn judge(&mut self, ctx: &mut Ctx, what: &str, alt: Option<State>) -> R {
        let mut first = None;
        for s in [Some(self.s.clone()), alt].into_iter().flatten() {
            let got = read_state(self.d.port, &self.vals, Some(&s));
            match got.map(|g| state_diff(&s, &g)) {
                Ok(None) => {
                    self.s = s;
                    ctx.count("states compared");
                    return Ok(());
                }
                Ok(Some(x)) | Err(x) => first = first.or(Some(x)),
            }
        }
        let e = format!("after {what}: {}", first.unwrap_or_default());
        Err(dead(&mut self.d, &self.dir, &e))
    }
}
fn ok(what: &str, ran: &Ran, says: &[&str]) -> R {
    ck!(matches!(ran.end, End::Exit(0)), "{what}: ended with {:?}; it said {:?}; the terminal showed {:?}", ran.end, tail(&ran.out), tail(&ran.screen));
    ck!(says.is_empty() || says.iter().any(|s| ran.out.contains(s)), "{what}: said {:?}, and not any of {says:?}", tail(&ran.out));
    Ok(())
}
fn failed(what: &str, ran: &Ran) -> R {
    ck!(matches!(ran.end, End::Exit(n) if n != 0), "{what}: ended with {:?} where it had to fail; it said {:?}; the terminal showed {:?}", ran.end, tail(&ran.out), tail(&ran.screen));
    ck!(!ran.screen.contains("panicked"), "{what}: panicked: {:?}", tail(&ran.screen));
    Ok(())
}

/// Which database: the answers, and the name. Err: there is none.
fn pick(r: &mut Rng, s: &State, acts: &mut Vec<Act>) -> Option<String> {
    let names: Vec<&String> = s.keys().collect();
    let n = (*r.pick(&names[..].iter().map(|x| Some(*x)).chain([None]).collect::<Vec<_>>())).or(names.first().copied())?.clone();
    if names.len() > 1 {
        acts.push(Act::Select("Which database?", n.clone(), r.one_in(3)));
    }
    Some(n)
}
/// the same where a new one can be named. (name, whether it was confirmed to exist)
fn pick_or_new(r: &mut Rng, s: &State, spare: &[String], acts: &mut Vec<Act>) -> Option<(String, bool)> {
    let new = r.bool();
    acts.push(Act::Confirm("New Database?", new));
    if !new {
        return pick(r, s, acts).map(|n| (n, false));
    }
    let p = "Database Name: ";
    if r.one_in(5) {
        acts.push(Act::Text(p, "meta".into()));
    }
    let existing: Vec<&String> = s.keys().collect();
    if !existing.is_empty() && r.one_in(3) {
        let n = (*r.pick(&existing)).clone();
        acts.push(Act::Text(p, n.clone()));
        let b = r.bool();
        acts.push(Act::Confirm("Overwrite?", b));
        if b {
            return Some((n, true));
        }
    }
    let n = r.pick(spare).clone();
    acts.push(Act::Text(p, n.clone()));
    if s.contains_key(&n) {
        acts.push(Act::Confirm("Overwrite?", true));
        return Some((n, true));
    }
    Some((n, false))
}
fn plain_name(r: &mut Rng) -> String {
    let n = r.range(3, 9);
    match r.below(4) {
        0 => (*r.pick(&["a b", "x&y=1", "100%", "a+b", "why?", "name.sdb", "Meta", "meta.sdb", "c#d", "$HOME", "it's", "\"q\"", "existing_dbs"])).to_string(),
        _ => (0..n).map(|_| char::from(b'a' + r.below(26) as u8)).collect(),
    }
}

fn entry(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mut w = World::new(r)?;
    for _ in 0..4 {
        let mut acts = vec![Act::Confirm("New Database?", true), Act::Text("Database Name: ", "d".into())];
        if w.s.contains_key("d") {
            acts.push(Act::Confirm("Overwrite?", true));
        }
        let key = text(r);
        acts.push(Act::Text("Key: ", key.clone()));
        let m = gen_entry(r, &w.dir, 2, &mut acts);
        acts.push(Act::Confirm("Confirm Addition?", true));
        m.kinds(&mut |k| ctx.count(&format!("entered {k}")));
        let what = format!("add-entry of {}", model::show(&m));
        let ran = run(&w.dir, w.d.port, &["add-entry"], &acts, None)?;
        ctx.add("prompts answered", acts.len() as u64);
        ctx.seen(&format!("{acts:?}"));
        ctx.sample(|| format!("{acts:?}").chars().take(300).collect());
        ok(&what, &ran, &["Added new", "Overwrote existing"])?;
        let v = w.vals.add(m);
        let mut alone = w.s.clone();
        alone.insert("d".into(), Db::from([(key.clone(), v)]));
        w.s.entry("d".into()).or_default().insert(key, v);
        w.judge(ctx, &what, Some(alone))?;
    }
    // the time of entering
    let key = "at".to_string();
    let acts = [
        Act::Confirm("New Database?", false),
        Act::Text("Key: ", key.clone()),
        Act::Select("Type: ", "Timestamp".into(), false),
        Act::Confirm("Now?", true),
        Act::Confirm("Confirm Addition?", true),
    ];
    let t0 = chrono::Utc::now().naive_utc();
    let ran = run(&w.dir, w.d.port, &["add-entry"], &acts, None)?;
    let t1 = chrono::Utc::now().naive_utc();
    ok("add-entry of the time", &ran, &["Added new", "Overwrote existing"])?;
    let mut c = Conn::new(w.d.port)?;
    let rep = c.call("GET", &Op::Get { db: "d".into(), key: key.clone() }.target(r, true), b"")?;
    let m = de_value(&rep.body).map_err(|e| format!("the time entered: status {}, {e}", rep.status))?;
    let MV::Ts { y, mo, d, h, mi, s, ns } = m else { return Err(format!("the time entered is {}", model::show(&m))) };
    let at = model::ts(y, mo, d, h, mi, s, ns);
    ck!(t0 <= at && at <= t1, "the time entered is {at} and not between {t0} and {t1}");
    let v = w.vals.add(m);
    w.s.entry("d".into()).or_default().insert(key, v);
    w.judge(ctx, "entering the time", None)
}

fn session(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mut w = World::new(r)?;
    // names typing can tell apart, some in use and some to come
    let nn = r.range(4, 8);
    let names = distinct(r, nn, plain_name);
    let names: Vec<String> = names.into_iter().filter(|n| !n.starts_with('-')).collect();
    let start = r.below(4) as usize;
    let cfg = Cfg { depth: 2, width: 3, text: 20, bin: 20, jsonable: false, leap_anywhere: true, nan: true };
    for n in names.iter().take(start) {
        let k = r.range(0, 4);
        let keys = distinct(r, k, text);
        let with = keys.into_iter().map(|k| (k, w.vals.add(model::gen_value(r, &cfg)))).collect();
        w.put(r, n, with)?;
    }
    for _ in 0..7 {
        command(ctx, r, &mut w, &names)?;
    }
    Ok(())
}
fn command(ctx: &mut Ctx, r: &mut Rng, w: &mut World, names: &[String]) -> R {
    let port = w.d.port;
    let mut acts = vec![];
    let mut alt = None;
    let mut next = w.s.clone();
    // what it has to say; None: it has to fail
    let mut says: Option<Vec<&str>> = None;
    let mut shows: Vec<String> = vec![];
    let mut args: Vec<String> = vec![];
    match r.below(16) {
        0..=2 => {
            let n = if r.one_in(6) { (*r.pick(&["meta", "a/b", "é", "../up", "日本"])).to_string() } else { r.pick(names).clone() };
            args = vec!["create-new".into(), n.clone()];
            if w.s.contains_key(&n) {
                let b = r.bool();
                acts.push(Act::Confirm("Clear that database?", b));
                if b {
                    next.insert(n, Db::new());
                    says = Some(vec!["Successfully cleared database"]);
                } else {
                    says = Some(vec!["Cancelled"]);
                }
            } else if name_ok(&n) == Some(true) {
                next.insert(n, Db::new());
                says = Some(vec!["Database successfully created"]);
            }
        }
        3..=6 => {
            args = vec!["add-entry".into()];
            if let Some((db, overwrite)) = pick_or_new(r, &w.s, names, &mut acts) {
                let old: Vec<String> = w.s.get(&db).map(|d| d.keys().filter(|k| !k.is_empty() && !k.chars().any(char::is_control)).cloned().collect()).unwrap_or_default();
                let key = if !old.is_empty() && r.one_in(3) { r.pick(&old).clone() } else {
                    // nothing that typing takes for another
                    loop {
                        let k = distinct(r, 1, text).remove(0);
                        if !old.iter().any(|o| subseq(o, &k) || subseq(&k, o)) {
                            break k;
                        }
                    }
                };
                acts.push(Act::Text("Key: ", key.clone()));
                let m = gen_entry(r, &w.dir, 1, &mut acts);
                let b = !r.one_in(4);
                acts.push(Act::Confirm("Confirm Addition?", b));
                if b {
                    let v = w.vals.add(m);
                    says = Some(vec![match w.s.get(&db) {
                        None => "Added new key to new database",
                        Some(d) if d.contains_key(&key) => "Overwrote existing key in existing database",
                        Some(_) => "Added new key to existing database",
                    }]);
                    if overwrite {
                        // overwriting the database could mean that nothing else stays in it
                        let mut a = w.s.clone();
                        a.insert(db.clone(), Db::from([(key.clone(), v)]));
                        alt = Some(a);
                        says = Some(vec!["Added new key", "Overwrote existing key"]);
                    }
                    next.entry(db).or_default().insert(key, v);
                } else {
                    says = Some(vec!["Cancelled"]);
                }
            }
        }
        7 | 8 => {
            args = vec!["remove-entry".into()];
            if let Some(db) = pick(r, &w.s, &mut acts) {
                match choose_key(r, &w.s[&db], &mut acts, "Select key to be removed:") {
                    None => says = Some(vec!["already empty"]),
                    Some(key) => {
                        let b = !r.one_in(3);
                        acts.push(Act::Confirm("Confirm Removal?", b));
                        if b {
                            next.get_mut(&db).expect("db").remove(&key);
                            says = Some(vec!["Successfully removed"]);
                        } else {
                            says = Some(vec!["Cancelled"]);
                        }
                    }
                }
            }
        }
        9 | 10 => {
            args = vec!["update-entry".into()];
            if let Some(db) = pick(r, &w.s, &mut acts) {
                match choose_key(r, &w.s[&db], &mut acts, "Select key to be updated:") {
                    None => says = Some(vec!["empty"]),
                    Some(key) => {
                        let m = gen_entry(r, &w.dir, 1, &mut acts);
                        let b = !r.one_in(3);
                        acts.push(Act::Confirm("Confirm Update?", b));
                        if b {
                            let v = w.vals.add(m);
                            next.get_mut(&db).expect("db").insert(key, v);
                            says = Some(vec!["Overwrote existing key in existing database"]);
                        } else {
                            says = Some(vec!["Cancelled"]);
                        }
                    }
                }
            }
        }
        11 => {
            args = vec!["remove-database".into()];
            if let Some(db) = pick(r, &w.s, &mut acts) {
                next.remove(&db);
                says = Some(vec!["Successfully removed database"]);
            }
        }
        12 => {
            args = vec![if r.bool() { "view-all" } else { "debug-view-all" }.into()];
            if let Some(db) = pick(r, &w.s, &mut acts) {
                says = Some(vec![]);
                for (k, v) in &w.s[&db] {
                    let plain = |s: &str| !s.is_empty() && s.len() < 30 && s.chars().all(|c| c.is_ascii_alphanumeric());
                    if plain(k) {
                        shows.push(k.clone());
                    }
                    match w.vals.get(*v) {
                        MV::Str(s) if plain(&s) => shows.push(s),
                        MV::Int(n) if args[0] == "view-all" => shows.push(n.dec()),
                        MV::Tz(s) if args[0] == "view-all" => shows.push(s),
                        MV::V4(a) => shows.push(std::net::Ipv4Addr::from(a).to_string()),
                        _ => {}
                    }
                }
                ctx.add("texts looked for", shows.len() as u64);
            }
        }
        13 | 14 => {
            let f = w.dir.0.join("mouse").join(format!("in put {}.json", r.below(1 << 40)));
            args = vec!["import-from-json".into(), f.display().to_string()];
            match r.below(6) {
                0 => {} // no such file
                1 => std::fs::write(&f, *r.pick(&[&b""[..], b"{", b"{\"a\":1", b"nonsense", b"{\"a\":1}}", b"\xff\xfe"])).expect("file"),
                _ => {
                    let doc = import_doc(r);
                    let text = if r.bool() { doc.to_string() } else { serde_json::to_string_pretty(&doc).expect("json") };
                    let mut text = text;
                    if r.bool() {
                        // up to and around the sizes of buffers
                        let want = (*r.pick(&[128_usize, 256, 1024, 1152, 4096, 8192, 65536]) as u64 + r.below(5)) as usize - 2;
                        if text.len() < want {
                            let pad = " \n".repeat(want);
                            text.insert_str(1, &pad[..want - text.len()]);
                        }
                    }
                    place(r, &f, text.as_bytes());
                    let st = Store::from_json_bytes(text.as_bytes()).map_err(|e| format!("{text} can't be imported: {e}"))?;
                    if let Some((db, _)) = pick_or_new(r, &w.s, names, &mut acts) {
                        let mut d = Db::new();
                        for (k, v) in st.iter() {
                            d.insert(k.clone(), w.vals.add(model::from_value(v)?));
                        }
                        says = Some(vec![if w.s.contains_key(&db) { "Overwrote existing database" } else { "Created new database" }]);
                        next.insert(db, d);
                    }
                }
            }
        }
        _ => {
            // exporting changes nothing here; what is exported is judged below
            let f = w.dir.0.join("mouse").join("out.json");
            args = vec!["export-to-json".into(), f.display().to_string()];
            if pick(r, &w.s, &mut acts).is_some() {
                says = Some(vec![]);
            }
        }
    }
    let leave = if !acts.is_empty() && r.one_in(5) {
        let n = r.us(acts.len());
        Some(if r.bool() { Leave::CtrlC(n) } else { Leave::Hangup(n) })
    } else {
        None
    };
    let what = format!("mouse {args:?} with {acts:?} {leave:?}").chars().take(1200).collect::<String>();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let ran = run(&w.dir, port, &a, &acts, leave)?;
    ctx.add("prompts answered", acts.len() as u64);
    ctx.seen(&(h64(&w.s), &what));
    ctx.sample(|| what.chars().take(300).collect());
    if let Some(l) = leave {
        ctx.count(&format!("{} left in the middle", a[0]));
        ck!(!matches!(ran.end, End::Exit(0)), "{what}: was left in the middle and ended with {:?}", ran.end);
        return w.judge(ctx, &what, None);
    }
    match &says {
        None => {
            ctx.count(&format!("{} fails", a[0]));
            failed(&what, &ran)?;
            w.judge(ctx, &what, None)
        }
        Some(v) => {
            ctx.count(&format!("{} {}", a[0], v.first().unwrap_or(&"")));
            ok(&what, &ran, v)?;
            for s in &shows {
                ck!(ran.out.contains(s.as_str()), "{what}: {s:?} is not in what it printed: {:?}", tail(&ran.out));
            }
            w.s = next;
            w.judge(ctx, &what, alt)
        }
    }
}
/// None: there is nothing to choose from
fn choose_key(r: &mut Rng, d: &Db, acts: &mut Vec<Act>, prompt: &'static str) -> Option<String> {
    let all: Vec<&String> = d.keys().collect();
    if all.is_empty() {
        return None;
    }
    let k = (*r.pick(&all)).clone();
    acts.push(Act::Select(prompt, k.clone(), r.one_in(3) || k.chars().any(char::is_control)));
    Some(k)
}
fn import_doc(r: &mut Rng) -> serde_json::Value {
    let n = r.range(0, 5);
    let keys = distinct(r, n, text);
    let mut o = serde_json::Map::new();
    for k in keys {
        if k != "souris_type" && k != "JSON" {
            o.insert(k, model::gen_json(r, 2, 3, 10));
        }
    }
    serde_json::Value::Object(o)
}

fn floats(m: &MV, f: &mut impl FnMut(f64)) {
    match m {
        MV::F64(x) => f(*x),
        MV::F32(x) => f(f64::from(*x)),
        MV::Polar(a, b) => {
            f(*a);
            f(*b);
        }
        MV::Arr(a) => a.iter().for_each(|x| floats(x, f)),
        MV::Map(a) => a.iter().for_each(|x| floats(&x.1, f)),
        _ => {}
    }
}
fn exports(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mut w = World::new(r)?;
    let cfg = Cfg { depth: 3, width: 4, text: 20, bin: 30, jsonable: true, leap_anywhere: false, nan: false };
    let n = r.range(0, 8);
    let keys = distinct(r, n, text);
    let mut content = vec![];
    for k in keys {
        if k == "JSON" || k == "souris_type" {
            continue;
        }
        let mut m = loop {
            let m = model::gen_value(r, &cfg);
            let mut fine = true;
            floats(&m, &mut |x| fine &= model::json_float_ok(x));
            if fine {
                break m;
            }
        };
        crate::props_b::reread_json(&mut m);
        content.push((k, w.vals.add(m)));
    }
    // something that JSON can't have
    let bad = r.one_in(6);
    if bad {
        let m = if r.bool() { MV::F64(f64::NAN) } else { MV::F32(f32::INFINITY) };
        content.push(("zzzz".into(), w.vals.add(m)));
    }
    w.put(r, "from", content.clone())?;
    let more = r.bool();
    if more {
        let v = w.vals.add(MV::Bool(true));
        w.put(r, "other", vec![("x".into(), v)])?;
    }
    let f = w.dir.0.join("mouse").join("file out.json");
    let there = r.bool();
    if there {
        std::fs::write(&f, b"what was there before, and longer than what comes: ----------------------------------------------------").expect("file");
    }
    let fs = f.display().to_string();
    let sel = |n: &str| if more { vec![Act::Select("Which database?", n.into(), false)] } else { vec![] };
    let plain = !bad && r.one_in(3);
    let flag = *r.pick(&["-a", "--add-souris-types"]);
    let args: Vec<&str> = if plain { vec!["export-to-json", &fs] } else if r.bool() { vec!["export-to-json", &fs, flag] } else { vec!["export-to-json", flag, &fs] };
    let ran = run(&w.dir, w.d.port, &args, &sel("from"), None)?;
    let what = format!("export of {:?}", content.iter().map(|(k, v)| (k, w.vals.get(*v))).collect::<Vec<_>>()).chars().take(600).collect::<String>();
    ctx.seen(&what);
    let file = std::fs::read(&f).ok();
    if bad {
        ctx.count("refused exports");
        ck!(ran.screen.contains("Unable to convert to JSON"), "{what}: it said {:?} and {:?}", tail(&ran.screen), tail(&ran.out));
        ck!(there == file.is_some(), "{what}: a file was made although nothing could be exported");
        return w.judge(ctx, "an export that is refused", None);
    }
    ok(&what, &ran, &[])?;
    let file = file.ok_or_else(|| format!("{what}: no file"))?;
    let j: serde_json::Value = serde_json::from_slice(&file).map_err(|e| format!("{what}: the file is not JSON: {e}; {:?}", String::from_utf8_lossy(&file)))?;
    w.judge(ctx, "an export", None)?;
    let st = Store::new(content.iter().map(|(k, v)| (k.clone(), model::to_value(&w.vals.get(*v)))));
    let want = st.to_json(!plain).ok_or("the library doesn't export this")?;
    // (text to number and back is the JSON library's business)
    let want: serde_json::Value = serde_json::from_str(&want.to_string()).expect("json");
    ck!(model::json_same(&want, &j), "{what}: the file has {j} and not {want}");
    if plain {
        ctx.count("plain exports");
        return Ok(());
    }
    // and into another one
    let mut acts = vec![Act::Confirm("New Database?", true), Act::Text("Database Name: ", "to".into())];
    let into_old = more && r.bool();
    let db = if into_old {
        acts = vec![Act::Confirm("New Database?", false), Act::Select("Which database?", "other".into(), r.bool())];
        "other"
    } else {
        "to"
    };
    let ran = run(&w.dir, w.d.port, &["import-from-json", &fs], &acts, None)?;
    ok("import of an export", &ran, &[if into_old { "Overwrote" } else { "Created" }])?;
    w.s.insert(db.into(), content.into_iter().collect());
    ctx.count("exports imported");
    w.judge(ctx, &format!("importing into {db:?} the {what}"), None)
}

/// without a daemon nothing works, and that is said
fn absent(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut w = World::new(r)?;
    w.d.kill();
    let f = w.dir.0.join("mouse").join("x.json");
    std::fs::write(&f, b"{}").expect("file");
    let fs = f.display().to_string();
    let all: [&[&str]; 8] = [&["create-new", "a"], &["add-entry"], &["view-all"], &["remove-entry"], &["update-entry"], &["export-to-json", &fs], &["import-from-json", &fs], &["remove-database"]];
    for args in all {
        let ran = run(&w.dir, w.d.port, args, &[], None)?;
        failed(&format!("mouse {args:?} without a daemon"), &ran)?;
        ctx.count("commands without a daemon fail");
        ctx.seen(&(args, idx));
    }
    ck!(std::fs::read(&f).ok().as_deref() == Some(b"{}"), "without a daemon a file was changed");
    Ok(())
}
