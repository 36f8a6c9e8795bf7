//! D06: names and files. D07: requests that are refused, malformed or never completed.
use crate::ck;
use crate::core::*;
use crate::d1::{dead, step};
use crate::daemon::*;
use crate::gen::*;
use crate::http::*;
use crate::model::{self, MV};
use crate::refcodec;
use crate::spec::*;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const D06: &[Kind] = &[kind("names", 700, 16000, names), kind("pairs", 300, 6000, pairs), kind("busy", 80, 1500, busy)];
pub const D07: &[Kind] = &[kind("refused", 800, 24000, refused), kind("bodies", 640, 24000, bodies), kind("raw", 400, 12000, raw), kind("aborted", 300, 9000, aborted)];

fn opts(r: &mut Rng) -> Opts {
    Opts { seed: r.u64(), ..Opts::default() }
}

// ------------------------------------------------------------------------------------- D06

/// Files that are none of the daemon's business, in and around its directory.
struct Canaries(Vec<(std::path::PathBuf, Vec<u8>)>);
impl Canaries {
    fn new(dir: &Dir, r: &mut Rng) -> Canaries {
        let mut v = vec![];
        for (i, p) in ["canary.sdb", "canary", "canary.sdb.tmp", "other/canary.sdb", "base/keep.txt", "base/keep", "base/sub/canary.sdb", "base/sub/keep.sdb", "base/lonely.sdb", "base-x.sdb", "meta.sdb"].iter().enumerate() {
            let p = dir.0.join(p);
            std::fs::create_dir_all(p.parent().expect("parent")).expect("canary");
            let mut b = format!("canary {i} ").into_bytes();
            b.extend(r.bytes(20));
            std::fs::write(&p, &b).expect("canary");
            v.push((p, b));
        }
        Canaries(v)
    }
    fn check(&self) -> R {
        for (p, b) in &self.0 {
            match std::fs::read(p) {
                Ok(x) if x == *b => {}
                Ok(_) => return Err(format!("{} was changed", p.display())),
                Err(e) => return Err(format!("{} is gone ({e})", p.display())),
            }
        }
        Ok(())
    }
}
fn unesc(s: &str) -> String {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}
/// Nothing but direct children of the directory was written, and nothing outside was tried.
fn check_files(ctx: &mut Ctx, d: &Daemon, dir: &Dir) -> R {
    let log = dir.log();
    let base = dir.base();
    let mut n = 0;
    for l in log.lines() {
        let mut w = l.split(' ');
        let what = w.next().unwrap_or("");
        ck!(what != "ESCAPE", "the daemon tried to touch a file outside its directory: {}", unesc(l));
        let _ = w.next();
        for p in w.take_while(|p| *p != "=") {
            n += 1;
            let p = unesc(p);
            let p = Path::new(&p);
            if what == "mkdir" {
                ck!(base.starts_with(p) || p.starts_with(&base), "the daemon made a folder: {}", unesc(l));
            } else {
                ck!(p.parent() == Some(&base), "the daemon touched {} which is not directly in its directory: {}", p.display(), unesc(l));
            }
        }
    }
    ck!(d.ctl().escapes.load(SeqCst) == 0, "the daemon tried to touch a file outside its directory");
    ctx.add("file operations observed", n);
    Ok(())
}
fn nasty(r: &mut Rng, dir: &Dir) -> String {
    let base = dir.base();
    let abs = dir.0.to_string_lossy().into_owned();
    match r.below(16) {
        0 => "meta".into(),
        1 => (*r.pick(&["../canary", "..", ".", "../../canary", "sub/canary", "./lonely", "/canary", "../base/lonely", "sub/../../canary", "../other/canary", "sub/keep", "x/../../canary", "//", "/", "a/", "../meta", "./meta", "sub/../meta", "../base/meta"])).to_string(),
        2 => format!("{abs}/{}", r.pick(&["canary", "other/canary", "base/lonely", "base/meta", "fresh"])),
        3 => (*r.pick(&["..\\canary", "%2e%2e%2fcanary", "..%2fcanary", "..%5Ccanary", "C:canary", "%00", "canary%00", "\\", "~", "~/canary", "$(id)", "-rf", "*", "con", "NUL", "lonely.sdb.tmp"])).to_string(),
        4 => (*r.pick(&["a\0b", "\0", "meta\0", "../canary\0", "meta\0x", "lonely\0.sdb"])).to_string(),
        5 => {
            let n = *r.pick(&[241_usize, 247, 248, 250, 251, 252, 255, 256, 300, 1000, 4096, 5000]);
            "n".repeat(n)
        }
        6 => (*r.pick(&["é", "日本語", "metа", "ｍｅｔａ", "a\u{202e}b", "\u{feff}meta", "meta\u{200b}", "．．／canary", "🖖", "é".repeat(130).as_str()])).to_string(),
        7 => (*r.pick(&["Meta", "META", "meta ", " meta", "meta.", "meta.sdb", "meta.sdb.tmp", "meta.tmp", "metadata", "me ta", "existing_dbs"])).to_string(),
        8 => (*r.pick(&["\n", "a\nb", "\t", "a\rb", "\u{1b}[31m", "\u{7f}", "\u{1}"])).to_string(),
        9 => String::new(),
        10 => (*r.pick(SPECIAL_NAMES)).to_string(),
        11 => {
            let depth = r.range(1, 12);
            format!("{}{}", "../".repeat(depth), base.join("lonely").to_string_lossy().trim_start_matches('/'))
        }
        12 => (0..r.range(1, 12)).map(|_| *r.pick(&['.', '/', 'a', '\\', '\0', 'é', 'm', 'e', 't', ' '])).collect(),
        13 => model::gen_text(r, 20),
        _ => (0..r.range(1, 40)).map(|_| char::from(33 + r.below(94) as u8)).collect::<String>().replace('/', "_"),
    }
}
/// nothing is promised about these, except that what is accepted is kept
fn class(n: &str) -> Option<bool> {
    match name_ok(n) {
        Some(true) if n == "." || n == ".." || n.chars().any(|c| c.is_ascii_control()) => None,
        x => x,
    }
}

fn names(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    std::fs::create_dir_all(dir.base()).expect("base");
    let canaries = Canaries::new(&dir, r);
    let vals = Tagged(8);
    let mut d = Daemon::start(&dir, &opts(r))?;
    let mut c = Conn::new(d.port)?;
    let mut s = State::new();
    let mut next = 0;
    // something ordinary that must stay as it is
    for n in ["ordinary", "second"] {
        next += 1;
        step(ctx, &mut c, r, &mut s, &Op::PutDb { db: n.into(), overwrite: true, with: vec![("k".into(), next)] }, &vals, true)?;
    }
    let mut list: Vec<String> = vec![];
    for _ in 0..r.range(3, 10) {
        let n = nasty(r, &dir);
        // a name whose file is one of the canaries in the directory would be allowed to replace it
        if !list.contains(&n) && n != "lonely" && n != "keep.txt" {
            list.push(n);
        }
    }
    for round in 0..r.range(1, 3) {
        for n in &list {
            for _ in 0..r.range(1, 5) {
                next += 1;
                let key = (*r.pick(&["k", "", "../canary", "/etc/passwd", "existing_dbs", "é\0\n"])).to_string();
                let op = match r.below(10) {
                    0 | 1 => Op::AddDb { db: n.clone(), overwrite: r.bool() },
                    2 | 3 => Op::PutDb { db: n.clone(), overwrite: r.bool(), with: vec![(key, next)] },
                    4 | 5 | 6 => Op::Add { db: n.clone(), key, v: next, create: !r.one_in(4), overwrite: r.bool() },
                    7 => Op::RmDb { db: n.clone() },
                    8 => Op::ClearDb { db: n.clone() },
                    _ => match r.below(3) {
                        0 => Op::Rm { db: n.clone(), key },
                        1 => Op::Get { db: n.clone(), key },
                        _ => Op::GetDb { db: n.clone() },
                    },
                };
                let b = body(r, &op, &vals, false);
                let t = op.target(r, false);
                let rep = c.call(op.method(), &t, &b).map_err(|e| dead(&mut d, &dir, &format!("{op:?}: {e}")))?;
                let creates = !s.contains_key(n) && matches!(op, Op::AddDb { .. } | Op::PutDb { .. } | Op::Add { create: true, .. });
                ctx.count(&format!(
                    "{} a {} name -> {}",
                    op.name(),
                    match class(n) {
                        Some(true) => "usable",
                        Some(false) => "reserved",
                        None => "doubtful",
                    },
                    rep.status
                ));
                match class(n) {
                    Some(false) => {
                        if creates {
                            ck!((400..500).contains(&rep.status), "{op:?} was answered {} {:?} although the name can't be used", rep.status, String::from_utf8_lossy(&rep.body));
                        } else {
                            let a = understand(&op, &rep, &vals, Some(&s)).map_err(|e| format!("{op:?}: {e}"))?;
                            ck!(matches!(a, Ans::Status(x) if (400..500).contains(&x)) || a == Ans::Added(4), "{op:?} was answered {a:?} although there can be no such database");
                        }
                    }
                    Some(true) => {
                        let before = s.clone();
                        let want = apply(&mut s, &op);
                        let got = understand(&op, &rep, &vals, Some(&before)).map_err(|e| format!("{op:?}: {e}"))?;
                        ck!(got == want, "{op:?} answered {got:?} instead of {want:?}");
                    }
                    None => {
                        if creates && (400..500).contains(&rep.status) {
                            continue;
                        }
                        let before = s.clone();
                        let want = apply(&mut s, &op);
                        let got = understand(&op, &rep, &vals, Some(&before)).map_err(|e| format!("{op:?}: {e}"))?;
                        ck!(got == want, "{op:?} answered {got:?} instead of {want:?}");
                    }
                }
                if c.dead {
                    c = Conn::new(d.port)?;
                }
            }
        }
        let got = read_state(d.port, &vals, Some(&s))?;
        if let Some(x) = state_diff(&s, &got) {
            return Err(format!("after requests with the names {list:?}: {x}"));
        }
        for n in &list {
            ctx.seen(&(n.replace(&dir.0.to_string_lossy().into_owned(), "DIR"), s.contains_key(n)));
        }
        canaries.check()?;
        // stored and loaded again
        drop(c);
        if r.bool() {
            ck!(d.save(), "10 s passed and nothing was saved, with the databases {:?}", s.keys().collect::<Vec<_>>());
            canaries.check()?;
            check_files(ctx, &d, &dir)?;
            d.kill();
        } else {
            d.stop(if r.bool() { libc::SIGTERM } else { libc::SIGINT })?;
            canaries.check()?;
            check_files(ctx, &d, &dir)?;
        }
        d = Daemon::start(&dir, &opts(r)).map_err(|e| format!("with the databases {:?}: {e}", s.keys().collect::<Vec<_>>()))?;
        let got = read_state(d.port, &vals, Some(&s))?;
        if let Some(x) = state_diff(&s, &got) {
            return Err(format!("after a restart (round {round}), of the databases {:?}: {x}", s.keys().collect::<Vec<_>>()));
        }
        ctx.count("restarts compared");
        ctx.add("accepted names kept", s.len() as u64 - 2);
        c = Conn::new(d.port)?;
    }
    // removing everything leaves no file of a database behind, and the strangers alone
    if r.bool() {
        let all: Vec<String> = s.keys().cloned().collect();
        for n in all {
            step(ctx, &mut c, r, &mut s, &Op::RmDb { db: n }, &vals, true)?;
        }
        d.stop(libc::SIGTERM)?;
        d = Daemon::start(&dir, &opts(r))?;
        let got = read_state(d.port, &vals, None)?;
        ck!(got.is_empty(), "all databases were removed, but after a restart there are {:?}", got.keys().collect::<Vec<_>>());
        ctx.count("complete removals compared");
    }
    canaries.check()?;
    check_files(ctx, &d, &dir)?;
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    ctx.sample(|| format!("{list:?}"));
    Ok(())
}

const CLASHES: &[&[&str]] = &[
    &["a", "a.sdb", "a.sdb.tmp", "a.tmp", "a.sdb.sdb", "A", "a ", " a", "a.", ".a", "a%20", "a+"],
    &["Meta", "META", "meta.sdb", "meta.tmp", "meta.sdb.tmp", "metA", "meta.", "meta ", ".meta", "existing_dbs", "tmp", ".tmp", ".sdb", "sdb"],
    &["x", "x1", "x-1", "x_1", "x.1", "x:1", "x=1", "x&1", "x?1", "x#1", "x%1", "x;1", "x,1", "x@1", "x!1", "x~1", "x'1", "x\"1", "x*1"],
    &["con", "CON", "nul", "aux", "0", "00", "1", "01", "-1", "1e3", "true", "false", "null", "None", "~", "%", "%25", "%2525", "%2F", "%00"],
];
/// Names that are easily taken for one another, or for another's file
fn pairs(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut all: Vec<&str> = CLASHES[idx as usize % CLASHES.len()].to_vec();
    r.shuffle(&mut all);
    all.truncate(r.range(2, 8));
    let mut list: Vec<String> = all.into_iter().map(String::from).collect();
    for n in [240, 200] {
        if r.one_in(4) {
            let a = "l".repeat(n);
            list.push(format!("{}x", &a[1..]));
            list.push(format!("{}y", &a[1..]));
        }
    }
    let vals = Tagged(8);
    let mut d = Daemon::start(&dir, &opts(r))?;
    let mut s = State::new();
    let mut next = 0;
    for round in 0..r.range(2, 4) {
        let mut c = Conn::new(d.port)?;
        for _ in 0..r.range(2, 20) {
            let db = r.pick(&list).clone();
            next += 1;
            let key = format!("k{}", r.below(3));
            let op = match r.below(9) {
                0 => Op::AddDb { db, overwrite: r.bool() },
                1 | 2 => Op::PutDb { db, overwrite: r.bool(), with: vec![(key, next)] },
                3..=5 => Op::Add { db, key, v: next, create: true, overwrite: true },
                6 => Op::RmDb { db },
                7 => Op::ClearDb { db },
                _ => Op::GetDb { db },
            };
            step(ctx, &mut c, r, &mut s, &op, &vals, false).map_err(|e| dead(&mut d, &dir, &e))?;
            if r.one_in(12) {
                d.save();
            }
        }
        drop(c);
        if r.bool() {
            ck!(d.save(), "10 s passed and nothing was saved, with the databases {:?}", s.keys().collect::<Vec<_>>());
            d.kill();
        } else {
            d.stop(libc::SIGTERM)?;
        }
        check_files(ctx, &d, &dir)?;
        d = Daemon::start(&dir, &opts(r)).map_err(|e| format!("with the databases {:?}: {e}", s.keys().collect::<Vec<_>>()))?;
        let got = read_state(d.port, &vals, Some(&s))?;
        if let Some(x) = state_diff(&s, &got) {
            return Err(format!("after a restart (round {round}), of the databases {:?}: {x}", s.keys().collect::<Vec<_>>()));
        }
        ctx.count("restarts compared");
        ctx.add("similar names kept apart", s.len() as u64);
        ctx.seen(&s.keys().cloned().collect::<Vec<_>>());
    }
    ctx.sample(|| format!("{list:?}"));
    Ok(())
}

/// Refused names under concurrency: a name that is refused is at no time there.
fn busy(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let dir = Dir::new();
    std::fs::create_dir_all(dir.base()).expect("base");
    let canaries = Canaries::new(&dir, r);
    let d = Daemon::start(&dir, &opts(r))?;
    d.ctl().delay_us.store(300, SeqCst);
    d.ctl().delay_prob.store(400, SeqCst);
    let port = d.port;
    let bad = ["meta", "../canary", "é", "sub/keep", "a\0"];
    let stop = AtomicBool::new(false);
    let wrong = std::sync::Mutex::new(None::<String>);
    let seen = AtomicU64::new(0);
    let refused = AtomicU64::new(0);
    let seeds: Vec<Rng> = (0..4).map(|_| Rng(r.u64())).collect();
    std::thread::scope(|sc| {
        for (t, mut r) in seeds.into_iter().enumerate() {
            let (stop, wrong, seen, refused) = (&stop, &wrong, &seen, &refused);
            sc.spawn(move || {
                let mut go = || -> R {
                    let mut c = Conn::new(port)?;
                    let vals = Tagged(8);
                    for i in 0..40 {
                        if t == 0 {
                            let rep = c.call("GET", "/v1/get_all_db_names", b"")?;
                            let Ans::Names(n) = understand(&Op::List, &rep, &vals, None)? else { return Err("no list".into()) };
                            seen.fetch_add(1, SeqCst);
                            ck!(n.iter().all(|n| n == "fine"), "listed: {n:?}");
                        } else {
                            let db = if r.one_in(4) { "fine".to_string() } else { (*r.pick(&bad)).to_string() };
                            let ok = db == "fine";
                            let op = match r.below(4) {
                                0 => Op::AddDb { db, overwrite: r.bool() },
                                1 => Op::PutDb { db, overwrite: r.bool(), with: vec![("k".into(), i)] },
                                2 => Op::Add { db, key: "k".into(), v: i, create: true, overwrite: r.bool() },
                                _ => Op::RmDb { db },
                            };
                            let b = body(&mut r, &op, &vals, false);
                            let tg = op.target(&mut r, true);
                            let rep = c.call(op.method(), &tg, &b)?;
                            if !ok {
                                refused.fetch_add(1, SeqCst);
                                ck!((400..500).contains(&rep.status), "{op:?} answered {}", rep.status);
                            }
                        }
                    }
                    Ok(())
                };
                if let Err(e) = go() {
                    *wrong.lock().expect("lock") = Some(e);
                }
                stop.store(true, SeqCst);
            });
        }
        for _ in 0..2 {
            std::thread::sleep(Duration::from_millis(3));
            d.jump(11);
        }
    });
    let mut d = d;
    if let Some(w) = wrong.into_inner().expect("lock") {
        return Err(dead(&mut d, &dir, &w));
    }
    ctx.add("refusals under load", refused.load(SeqCst));
    ctx.add("lists under load", seen.load(SeqCst));
    ctx.seen(&r.u64());
    d.ctl().delay_prob.store(0, SeqCst);
    d.stop(libc::SIGTERM)?;
    canaries.check()?;
    check_files(ctx, &d, &dir)
}

// ------------------------------------------------------------------------------------- D07

struct Bed {
    dir: Dir,
    d: Daemon,
    s: State,
    vals: Tagged,
}
impl Bed {
    fn new(ctx: &mut Ctx, r: &mut Rng) -> Result<Bed, String> {
        let dir = Dir::new();
        let d = Daemon::start(&dir, &opts(r))?;
        let mut s = State::new();
        let vals = Tagged(8);
        let mut c = Conn::new(d.port)?;
        for i in 0..r.range(1, 3) {
            let with = (0..r.range(1, 3)).map(|k| (format!("k{k}"), (i * 10 + k) as u32)).collect();
            step(ctx, &mut c, r, &mut s, &Op::PutDb { db: format!("d{i}"), overwrite: true, with }, &vals, true)?;
        }
        if r.bool() {
            // so that whole databases are answered from the cache, too
            let got = read_state(d.port, &vals, Some(&s))?;
            ck!(got == s, "could not set up");
        }
        Ok(Bed { dir, d, s, vals })
    }
    fn unchanged(&mut self, what: &str) -> R {
        ck!(self.d.alive(), "{}", dead(&mut self.d, &self.dir, what));
        let got = read_state(self.d.port, &self.vals, Some(&self.s)).map_err(|e| dead(&mut self.d, &self.dir, &format!("after {what}: {e}")))?;
        match state_diff(&self.s, &got) {
            None => Ok(()),
            Some(x) => Err(format!("after {what}: {x}")),
        }
    }
    /// and after a restart, too
    fn end(mut self, ctx: &mut Ctx, r: &mut Rng, what: &str) -> R {
        if let Some(p) = self.dir.panics() {
            return Err(format!("the daemon panicked: {p}; {what}"));
        }
        let mb = peak_mb(self.d.child.id());
        ctx.max("peak memory of the daemon, MB", mb);
        ck!(mb < 3000, "the daemon used {mb} MB; {what}");
        if r.one_in(3) {
            self.d.stop(libc::SIGTERM)?;
            self.d = Daemon::start(&self.dir, &opts(r))?;
            self.unchanged(&format!("a restart; {what}"))?;
            ctx.count("restarts compared");
        }
        Ok(())
    }
}
fn peak_mb(pid: u32) -> u64 {
    let t = std::fs::read_to_string(format!("/proc/{pid}/status")).unwrap_or_default();
    t.lines().find_map(|l| l.strip_prefix("VmHWM:")).and_then(|l| l.trim().trim_end_matches("kB").trim().parse::<u64>().ok()).unwrap_or(0) / 1024
}

const ROUTES: &[(&str, &str)] = &[
    ("get_db", "GET"),
    ("get_all_db_names", "GET"),
    ("add_db", "POST"),
    ("add_db_with_content", "PUT"),
    ("rm_db", "POST"),
    ("clear_db", "POST"),
    ("add_kv", "PUT"),
    ("rm_kv", "POST"),
    ("get_value", "GET"),
];
fn params_of(route: &str) -> &'static [&'static str] {
    match route {
        "get_all_db_names" => &[],
        "add_db" | "add_db_with_content" => &["db_name", "overwrite_existing"],
        "add_kv" => &["db_name", "key", "create_new_database", "overwrite_key"],
        "rm_kv" | "get_value" => &["db_name", "key"],
        _ => &["db_name"],
    }
}
fn good_body(r: &mut Rng, route: &str) -> Vec<u8> {
    let v = Tagged(8).get(4_000_000);
    match route {
        "add_kv" => ser_value(r, &v, false),
        "add_db_with_content" => ser_store(r, &[("intruder".into(), v)], false),
        _ => vec![],
    }
}

/// Well-formed HTTP that is not acceptable
fn refused(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut z = Bed::new(ctx, r)?;
    let mut c = Conn::new(z.d.port)?;
    let mut last = String::new();
    for _ in 0..r.range(5, 25) {
        let (route, method) = *r.pick(ROUTES);
        let db = if r.bool() { "d0" } else { "fresh" };
        let value = |r: &mut Rng, p: &str| -> String {
            match p {
                "db_name" => db.into(),
                "key" => (*r.pick(&["k0", "new"])).to_string(),
                _ => (*r.pick(&["true", "false"])).to_string(),
            }
        };
        let mut q: Vec<(String, String)> = params_of(route).iter().map(|p| ((*p).to_string(), value(r, p))).collect();
        let mut m = method.to_string();
        let mut path = format!("/v1/{route}");
        let mut b = good_body(r, route);
        let want: &[u16];
        let what;
        match r.below(5) {
            0 => {
                // another method
                m = (*r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "BREW"])).to_string();
                if m == method {
                    continue;
                }
                want = &[405];
                what = "wrong method";
            }
            1 => {
                path = match r.below(8) {
                    0 => format!("/{route}"),
                    1 => format!("/v2/{route}"),
                    2 => format!("/v1/{route}/"),
                    3 => format!("/v1/{}", route.to_uppercase()),
                    4 => format!("/v1//{route}"),
                    5 => format!("/v1/x/../{route}"),
                    6 => (*r.pick(&["/", "/v1", "/v1/", "/healthcheck/", "/etc/passwd", "/v1/save", "/..", "/%2e%2e/x"])).to_string(),
                    _ => format!("/v1/{route}x"),
                };
                want = &[404];
                what = "unknown route";
            }
            2 if !q.is_empty() => {
                let i = r.us(q.len());
                if r.bool() {
                    q.remove(i);
                } else {
                    let n = q[i].0.clone();
                    q[i].0 = match r.below(4) {
                        0 => n.to_uppercase(),
                        1 => format!("{n}x"),
                        2 => n.replace('_', "-") + "_",
                        _ => "x".into(),
                    };
                }
                want = &[400, 422];
                what = "missing parameter";
            }
            3 if q.iter().any(|p| p.0 != "db_name" && p.0 != "key") => {
                let i = (0..q.len()).rev().find(|i| q[*i].0 != "db_name" && q[*i].0 != "key").expect("one");
                q[i].1 = (*r.pick(&["yes", "TRUE", "tru", "", " true", "true ", "2", "nul", "truefalse", "é", "[]"])).to_string();
                want = &[400, 422];
                what = "malformed flag";
            }
            _ if route == "add_kv" || route == "add_db_with_content" => {
                b = bad_body(r, route == "add_db_with_content");
                want = &[400, 422];
                what = "malformed body";
            }
            _ => continue,
        }
        let t = if q.is_empty() { path } else { format!("{path}?{}", q.iter().map(|(k, v)| format!("{k}={}", enc(v, 0))).collect::<Vec<_>>().join("&")) };
        last = format!("{m} {t} with {} bytes ({})", b.len(), model::hex(&b[..b.len().min(40)]));
        // a server may close the connection instead of reading a body it has no use for, and the answer get lost
        let chunked = r.one_in(4) && !b.is_empty();
        let mut rep = Err(String::new());
        for _ in 0..4 {
            rep = c.send(&m, &t, &b, chunked).and_then(|()| c.reply(false));
            c = Conn::new(z.d.port)?;
            if rep.is_ok() {
                break;
            }
            ctx.count("answers lost");
        }
        let rep = rep.map_err(|e| dead(&mut z.d, &z.dir, &format!("{last}: {e}")))?;
        ck!(want.contains(&rep.status), "{last} ({what}) was answered {} {:?}", rep.status, String::from_utf8_lossy(&rep.body));
        ctx.count(&format!("{what} -> {}", rep.status));
        ctx.seen(&(&m, &t, h64(&b)));
        if r.one_in(4) {
            z.unchanged(&last)?;
        }
    }
    z.unchanged(&last)?;
    ctx.sample(|| last.clone());
    z.end(ctx, r, &last)
}

/// a body that is neither a value nor a store (or not what is wanted), for certain
fn bad_body(r: &mut Rng, store: bool) -> Vec<u8> {
    let m = any_value(r, false);
    let good = if store { ser_store(r, &[("intruder".into(), Tagged(8).get(4_000_001)), ("more".into(), m)], false) } else { ser_value(r, &MV::Str("intruder: some text that is cut off".into()), false) };
    let mut b = match r.below(4) {
        0 => vec![],
        1 | 2 => good[..r.us(good.len())].to_vec(),
        _ if store => {
            // something else than a store
            let mut b = good.clone();
            let i = r.us(7.min(b.len()));
            b[i] ^= 1 << r.below(8);
            b
        }
        _ => good[..1].to_vec(),
    };
    let bad = if store { refcodec::store(&b).is_err() } else { refcodec::Dec::new(&b).value(None).is_err() };
    if !bad {
        b = vec![];
    }
    b
}

/// Bodies of any kind: whatever the answer, an error changes nothing, and success only the database it is about.
fn bodies(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut z = Bed::new(ctx, r)?;
    let mut c = Conn::new(z.d.port)?;
    let mut last = String::new();
    for i in 0..r.range(4, 16) {
        let store = r.bool();
        let b = match r.below(4) {
            0 => crate::props_b::gen_hostile(r).1,
            1 => bomb(r),
            _ => {
                let big = r.one_in(10);
                let m = any_value(r, big);
                let mut b = if store { ser_store(r, &[("a".into(), m.clone()), ("b".into(), m)], true) } else { ser_value(r, &m, true) };
                for _ in 0..r.range(1, 4) {
                    if b.is_empty() {
                        break;
                    }
                    let i = r.us(b.len());
                    match r.below(4) {
                        0 => b[i] ^= 1 << r.below(8),
                        1 => b[i] = *r.pick(&[0, 0xff, 0x7f, 0x80, 1]),
                        2 => b.truncate(i),
                        _ => b.insert(i, r.byte()),
                    }
                }
                b
            }
        };
        // what may legitimately be decoded into gigabytes is left out
        if crate::props_b::may_hold_run(if store { 0 } else { 1 }, &b) {
            ctx.count("bodies left out");
            continue;
        }
        let scratch = format!("scratch{i}");
        // into a database of its own, or over one that is there, where only an error is of interest
        let over = r.one_in(3);
        let db = if over { "d0".to_string() } else { scratch.clone() };
        let t = if store { format!("/v1/add_db_with_content?db_name={db}&overwrite_existing=true") } else { format!("/v1/add_kv?db_name={db}&key=k0&create_new_database=true&overwrite_key=true") };
        last = format!("PUT {t} with {} bytes ({})", b.len(), model::hex(&b[..b.len().min(60)]));
        let t0 = Instant::now();
        c.send("PUT", &t, &b, r.one_in(4) && !b.is_empty()).map_err(|e| dead(&mut z.d, &z.dir, &format!("{last}: {e}")))?;
        let rep = c.reply(false).map_err(|e| dead(&mut z.d, &z.dir, &format!("{last}: {e}")))?;
        ctx.max("ms for a hostile body", t0.elapsed().as_millis() as u64);
        ck!(rep.status < 500, "{last} was answered {} {:?}", rep.status, String::from_utf8_lossy(&rep.body));
        ctx.count(&format!("body for {} -> {}", if store { "a database" } else { "a value" }, rep.status));
        ctx.seen(&(h64(&b), store));
        if c.dead {
            c = Conn::new(z.d.port)?;
        }
        if rep.status < 300 {
            // taken: it must be readable, and can then be thrown away
            let rep = c.call("GET", &format!("/v1/get_db?db_name={db}"), b"")?;
            ck!(rep.status == 200, "{last} was accepted, but reading the database gives {}", rep.status);
            refcodec::store(&rep.body).map_err(|e| format!("{last} was accepted, but the database can't be read: {e}"))?;
            ctx.count("accepted bodies read back");
            if over {
                let d = z.s["d0"].clone();
                let op = Op::PutDb { db: "d0".into(), overwrite: true, with: d.into_iter().collect() };
                step(ctx, &mut c, r, &mut z.s, &op, &z.vals, true)?;
            } else {
                let rep = c.call("POST", &format!("/v1/rm_db?db_name={db}"), b"")?;
                ck!(rep.status == 200, "{last} was accepted, but removing the database gives {}", rep.status);
            }
        } else if r.bool() {
            z.unchanged(&last)?;
        }
    }
    z.unchanged(&last)?;
    ctx.sample(|| last.clone());
    z.end(ctx, r, &last)
}
/// small and means to be big, or deep
fn bomb(r: &mut Rng) -> Vec<u8> {
    let mut m = MV::Bool(true);
    let depth = *r.pick(&[100_usize, 1000, 20_000]);
    let wrap = r.below(2);
    let mut b = vec![];
    if r.bool() {
        // arrays in arrays, by the bytes: one element each
        let one = {
            let mut o = vec![];
            refcodec::Enc { tree: None, alt: false }.value(r, &MV::Arr(vec![MV::Bool(true)]), &mut o);
            let mut t = vec![];
            refcodec::Enc { tree: None, alt: false }.value(r, &MV::Bool(true), &mut t);
            o.truncate(o.len() - t.len());
            o
        };
        for _ in 0..depth {
            b.extend(&one);
        }
        refcodec::Enc { tree: None, alt: false }.value(r, &m, &mut b);
    } else {
        m = match wrap {
            0 => MV::Bin(vec![7; r.range(1000, 3_000_000)]),
            _ => MV::Arr((0..r.range(10, 2000)).map(|_| MV::Bin(vec![1; 500])).collect()),
        };
        refcodec::Enc { tree: None, alt: false }.value(r, &m, &mut b);
    }
    b
}

/// Bytes that are hardly HTTP
fn raw(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut z = Bed::new(ctx, r)?;
    let mut last = String::new();
    for _ in 0..r.range(4, 14) {
        let mut c = Conn::new(z.d.port)?;
        c.timeout(Duration::from_millis(30));
        let n = r.range(1, 400);
        let msg: Vec<u8> = match r.below(12) {
            0 => r.bytes(n),
            1 => b"GET\r\n\r\n".to_vec(),
            2 => b"\r\n\r\n\r\n".to_vec(),
            3 => format!("GET /v1/{} HTTP/1.1\r\nHost: x\r\nX: {}\r\n\r\n", "a".repeat(*r.pick(&[10_usize, 10_000, 100_000])), "b".repeat(*r.pick(&[10_usize, 100_000, 1_000_000]))).into_bytes(),
            4 => format!("POST /v1/rm_db?db_name=d0 HTTP/9.9\r\nHost: x\r\nContent-Length: 0\r\n\r\n").into_bytes(),
            5 => format!("POST /v1/rm_db?db_name=d0 HTTP/1.1\r\nContent-Length: {}\r\n\r\n", r.pick(&["-1", "x", "99999999999999999999999", "1, 2", "0x0"])).into_bytes(),
            6 => b"PUT /v1/add_kv?db_name=d0&key=k0&create_new_database=true&overwrite_key=true HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n".to_vec(),
            7 => b"PUT /v1/add_kv?db_name=d0&key=k0&create_new_database=true&overwrite_key=true HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nfffffffffffffffff\r\nab".to_vec(),
            8 => {
                let mut m = format!("{} ", r.pick(&["POST", "PUT", "GET"])).into_bytes();
                m.extend(b"/v1/rm_db?db_name=");
                let k = r.range(1, 10);
                m.extend(r.bytes(k).into_iter().map(|b| b | 0x80));
                m.extend(b" HTTP/1.1\r\nHost: x\r\n\r\n");
                m
            }
            9 => (0..r.range(1, 300)).map(|i| format!("H{i}: v\r\n")).fold(b"POST /v1/clear_db?db_name=d0 HTTP/1.1\r\n".to_vec(), |mut a, b| {
                a.extend(b.bytes());
                a
            }),
            10 => {
                // a valid request, cut before its head is over
                let m = b"POST /v1/rm_db?db_name=d0 HTTP/1.1\r\nHost: souris\r\nContent-Length: 0\r\n\r\n";
                m[..r.us(m.len() - 2)].to_vec()
            }
            _ => {
                let mut m = b"POST /v1/clear_db?db_name=d0 HTTP/1.1\r\nHost: souris\r\nContent-Length: 0\r\n\r\n".to_vec();
                // anything in the method or version breaks it
                let i = *r.pick(&[0_usize, 1, 2, 3]);
                m[i] = *r.pick(b"\0\r\x7f\x80(){}");
                m
            }
        };
        last = format!("{} bytes of garbage: {:?}", msg.len(), String::from_utf8_lossy(&msg[..msg.len().min(120)]));
        let _ = c.raw(&msg);
        if r.bool() {
            c.half_close();
        }
        match c.reply(false) {
            Ok(rep) => {
                ctx.count(&format!("garbage -> {}", rep.status));
                ck!((400..=501).contains(&rep.status) || rep.status == 505, "{last} was answered {}", rep.status);
            }
            Err(_) => ctx.count("garbage -> no answer"),
        }
        ctx.seen(&h64(&msg));
        drop(c);
        if r.one_in(3) {
            z.unchanged(&last)?;
        }
    }
    // and a long list of valid ones in one go is answered in order
    let mut c = Conn::new(z.d.port)?;
    let k = r.range(2, 40);
    let mut all = vec![];
    let mut want = vec![];
    let mut ops = vec![];
    for i in 0..k {
        let op = if r.bool() { Op::Get { db: "d0".into(), key: "k0".into() } } else { Op::Add { db: "d0".into(), key: "p".into(), v: 1000 + i as u32, create: false, overwrite: true } };
        let b = body(r, &op, &z.vals, false);
        let t = op.target(r, true);
        all.extend(format!("{} {t} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", op.method(), b.len()).bytes());
        all.extend(b);
        want.push(apply(&mut z.s, &op));
        ops.push(op);
    }
    c.raw(&all)?;
    for (op, want) in ops.iter().zip(want) {
        let rep = c.reply(false).map_err(|e| format!("pipelined {op:?}: {e}"))?;
        let got = understand(op, &rep, &z.vals, None)?;
        ck!(got == want, "pipelined {op:?} answered {got:?} instead of {want:?}");
    }
    ctx.add("pipelined requests", k as u64);
    z.unchanged(&last)?;
    ctx.sample(|| last.clone());
    z.end(ctx, r, &last)
}

/// Changes whose body never arrives completely, while others go on
fn aborted(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut z = Bed::new(ctx, r)?;
    let mut open = vec![];
    let mut last = String::new();
    let mut other = Conn::new(z.d.port)?;
    for i in 0..r.range(6, 24) {
        let db = (*r.pick(&["d0", "fresh"])).to_string();
        let op = if r.bool() {
            Op::Add { db, key: (*r.pick(&["k0", "new"])).to_string(), v: 5_000_000 + i as u32, create: true, overwrite: true }
        } else {
            Op::PutDb { db, overwrite: r.bool(), with: vec![("k0".into(), 5_000_000 + i as u32)] }
        };
        let mut b = body(r, &op, &z.vals, false);
        let t = op.target(r, false);
        let chunked = r.bool();
        let mut c = Conn::new(z.d.port)?;
        // the complete thing is there, only more was announced; or it is cut
        let whole = r.one_in(3);
        let cut = if whole { b.len() } else { r.us(b.len()) };
        let mut msg = format!("{} {t} HTTP/1.1\r\nHost: x\r\n", op.method()).into_bytes();
        if r.one_in(5) {
            msg.extend(b"Expect: 100-continue\r\n");
        }
        if chunked {
            msg.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            if cut > 0 {
                msg.extend(format!("{:x}\r\n", cut).bytes());
                msg.extend(&b[..cut]);
                // perhaps without the end of the chunk, never with the last one
                if r.bool() {
                    msg.extend(b"\r\n");
                    if r.bool() {
                        msg.extend(b"0\r\n");
                    }
                }
            }
        } else {
            let more = if whole { r.range(1, 1000) } else { 0 };
            msg.extend(format!("Content-Length: {}\r\n\r\n", b.len() + more).bytes());
            b.truncate(cut);
            msg.extend(&b);
        }
        last = format!("{op:?} with {cut} bytes of the body (chunked {chunked}, announced more: {whole})");
        let _ = c.raw(&msg);
        ctx.seen(&(&op, cut, chunked));
        match r.below(4) {
            0 => {
                c.half_close();
                c.timeout(Duration::from_millis(200));
                match c.reply(false) {
                    Ok(rep) => {
                        ck!(rep.status >= 400, "{last} was answered {}", rep.status);
                        ctx.count("incomplete request refused");
                    }
                    Err(_) => ctx.count("incomplete request not answered"),
                }
            }
            1 => {
                // reset
                let l = libc::linger { l_onoff: 1, l_linger: 0 };
                use std::os::fd::AsRawFd;
                unsafe {
                    libc::setsockopt(c.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, std::ptr::addr_of!(l).cast(), std::mem::size_of::<libc::linger>() as u32);
                }
                drop(c);
                ctx.count("connection reset");
            }
            2 => {
                drop(c);
                ctx.count("connection closed");
            }
            _ => {
                open.push(c);
                ctx.count("connection left open");
            }
        }
        if r.bool() {
            // others are served
            let op = Op::Add { db: "d0".into(), key: format!("o{}", r.below(3)), v: 600 + i as u32, create: false, overwrite: true };
            step(ctx, &mut other, r, &mut z.s, &op, &z.vals, true).map_err(|e| dead(&mut z.d, &z.dir, &format!("while requests were incomplete: {e}")))?;
        }
        if r.one_in(4) {
            z.unchanged(&last)?;
        }
    }
    z.unchanged(&last)?;
    let n = open.len();
    drop(open);
    std::thread::sleep(Duration::from_millis(5));
    z.unchanged(&format!("{n} connections with incomplete requests were closed; {last}"))?;
    ctx.sample(|| last.clone());
    drop(other);
    z.end(ctx, r, &last)
}
