//! D09: no client keeps the daemon from serving the others, and serving doesn't use it up.
use crate::ck;
use crate::core::*;
use crate::d1::{dead, step};
use crate::daemon::*;
use crate::gen::{self, *};
use crate::http::*;
use crate::spec::*;
use std::os::fd::AsRawFd;
use std::time::{Duration, Instant};

pub const D09: &[Kind] = &[kind("stalled", 240, 6000, stalled), kind("unread", 72, 2000, unread), kind("growth", 24, 640, growth), kind("descriptors", 64, 800, descriptors)];

/// far beyond what any request takes, far below waiting for somebody who never comes
const PROMPT: Duration = Duration::from_secs(60);

fn opts(r: &mut Rng) -> Opts {
    Opts { seed: r.u64(), ..Opts::default() }
}

/// A request that is left half done.
struct Pending {
    c: Conn,
    op: Op,
    rest: Vec<u8>,
}

fn stalled(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &opts(r))?;
    let res = stalled_in(ctx, r, &mut d, &dir, idx);
    res.map_err(|e| dead(&mut d, &dir, &e))?;
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    Ok(())
}
fn stalled_in(ctx: &mut Ctx, r: &mut Rng, d: &mut Daemon, dir: &Dir, idx: u64) -> R {
    let vals = Tagged(40);
    let mut s = State::new();
    let dbs: Vec<String> = (0..3).map(|i| format!("d{i}")).collect();
    let ks: Vec<String> = (0..3).map(|i| format!("k{i}")).collect();
    let mut next = 0;
    let mut c = Conn::new(d.port)?;
    c.timeout(PROMPT);
    for db in &dbs {
        next += 1;
        step(ctx, &mut c, r, &mut s, &Op::PutDb { db: db.clone(), overwrite: true, with: vec![("k0".into(), next)] }, &vals, true)?;
    }
    let rss = d.rss();
    // clients that begin something and never go on
    let mut pend: Vec<Pending> = vec![];
    let mut idle: Vec<Conn> = vec![];
    let n = *r.pick(&[1_usize, 3, 8, 20, 60, 150]);
    let one_kind = r.one_in(3).then(|| r.below(6));
    for i in 0..n {
        let mut k = Conn::new(d.port)?;
        k.timeout(PROMPT);
        let db = (*r.pick(&["d0", "d1", "d2", "fresh"])).to_string();
        let key = r.pick(&ks).clone();
        let v = 100_000 + i as u32;
        match one_kind.unwrap_or_else(|| r.below(6)) {
            // nothing at all, or part of the head
            0 => {
                let op = Op::Add { db, key, v, create: true, overwrite: true };
                let head = format!("PUT {} HTTP/1.1\r\nHost: x\r\nContent-Length: 12\r\n", op.target(r, true));
                let cut = r.us(head.len());
                k.raw(&head.as_bytes()[..cut])?;
                idle.push(k);
                ctx.count("clients with part of a head");
            }
            // a request that was served, and then silence
            1 => {
                let rep = k.call("GET", "/healthcheck", b"")?;
                ck!(rep.status == 200, "healthcheck answered {}", rep.status);
                idle.push(k);
                ctx.count("clients that went silent");
            }
            // an immense body was announced
            2 => {
                let op = Op::PutDb { db, overwrite: true, with: vec![(key, v)] };
                let b = body(r, &op, &vals, false);
                let len = *r.pick(&[1_u64 << 20, 1 << 31, 1 << 40, 1 << 62]);
                k.raw(format!("PUT {} HTTP/1.1\r\nHost: x\r\nContent-Length: {len}\r\n\r\n", op.target(r, true)).as_bytes())?;
                k.raw(&b)?;
                idle.push(k);
                ctx.count("clients with an immense body announced");
            }
            // the body lacks its end
            _ => {
                let op = if r.bool() { Op::Add { db, key, v, create: true, overwrite: true } } else { Op::PutDb { db, overwrite: r.bool(), with: vec![(key, v)] } };
                let b = body(r, &op, &vals, false);
                let cut = r.us(b.len());
                if r.bool() {
                    k.raw(format!("PUT {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", op.target(r, true), b.len()).as_bytes())?;
                    k.raw(&b[..cut])?;
                    pend.push(Pending { c: k, op, rest: b[cut..].to_vec() });
                } else {
                    let mut m = format!("PUT {} HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n", op.target(r, true)).into_bytes();
                    if cut > 0 {
                        m.extend(format!("{cut:x}\r\n").bytes());
                        m.extend(&b[..cut]);
                        m.extend(b"\r\n");
                    }
                    k.raw(&m)?;
                    let mut rest = format!("{:x}\r\n", b.len() - cut).into_bytes();
                    rest.extend(&b[cut..]);
                    rest.extend(b"\r\n0\r\n\r\n");
                    pend.push(Pending { c: k, op, rest });
                }
                ctx.count("clients with half a body");
            }
        }
    }
    std::thread::sleep(Duration::from_millis(r.below(8)));
    // meanwhile, everybody else
    let mut fresh = c;
    let mut worst = Duration::ZERO;
    for i in 0..r.range(10, 40) {
        let op = gen::op(r, &EVEN, &dbs, &ks, |_| {
            next += 1;
            next
        });
        if r.one_in(4) {
            fresh = Conn::new(d.port)?;
            fresh.timeout(PROMPT);
        }
        let t = Instant::now();
        step(ctx, &mut fresh, r, &mut s, &op, &vals, false).map_err(|e| format!("while {n} clients did nothing: {e}"))?;
        worst = worst.max(t.elapsed());
        ctx.count("requests served next to stalled ones");
    }
    ctx.max("slowest request next to stalled ones (us)", worst.as_micros() as u64);
    let grown = d.rss().saturating_sub(rss);
    ck!(grown < 40_000 + 100 * n as u64, "{n} clients that did nothing cost {grown} kB of memory");
    ctx.max("memory for stalled clients (kB)", grown);
    // saving goes on
    if r.bool() && !s.is_empty() {
        ck!(d.save(), "10 s passed and nothing was saved, while {n} clients did nothing");
        ctx.count("saves next to stalled clients");
    }
    // some go on after all, and then their request counts
    r.shuffle(&mut pend);
    let go_on = r.range(0, pend.len().min(8));
    for mut p in pend.drain(..go_on) {
        let before = s.clone();
        let want = apply(&mut s, &p.op);
        p.c.raw(&p.rest)?;
        let rep = p.c.reply(false).map_err(|e| format!("{:?} was finished late: {e}", p.op))?;
        let got = understand(&p.op, &rep, &vals, Some(&before))?;
        ck!(got == want, "{:?}, finished late, answered {got:?} instead of {want:?}", p.op);
        ctx.count("stalled requests finished");
    }
    let check = |d: &Daemon, s: &State, when: &str| -> R {
        let got = read_state(d.port, &vals, Some(s))?;
        match state_diff(s, &got) {
            Some(x) => Err(format!("{when}: {x}")),
            None => Ok(()),
        }
    };
    check(d, &s, "with clients that did nothing")?;
    ctx.seen(&(&s, n));
    drop(fresh);
    let when = if r.one_in(3) {
        // asked to stop, it saves before it waits for anybody
        let stuck = pend.len() + idle.len();
        let meta = d.ctl().meta_done.load(std::sync::atomic::Ordering::SeqCst);
        let sig = if r.bool() { libc::SIGTERM } else { libc::SIGINT };
        std::thread::sleep(Duration::from_millis(5));
        d.signal(sig);
        let t = Instant::now();
        while d.ctl().meta_done.load(std::sync::atomic::Ordering::SeqCst) == meta && d.alive() {
            ck!(t.elapsed() < PROMPT, "asked to stop, the daemon had saved nothing after {PROMPT:?} because of {stuck} clients that did nothing");
            std::thread::sleep(Duration::from_micros(300));
        }
        if r.bool() {
            // nobody waits for those any longer
            d.kill();
            ctx.count("stops next to stalled clients, then killed");
        } else {
            drop(std::mem::take(&mut pend));
            drop(std::mem::take(&mut idle));
            match d.wait(Duration::from_secs(30)) {
                Some(x) if x.success() => {}
                x => return Err(format!("asked to stop, and all clients gone, the daemon ended with {x:?} within 30 s")),
            }
            ctx.count("stops next to stalled clients");
        }
        "after a stop next to clients that did nothing"
    } else {
        drop(pend);
        drop(idle);
        let t = Instant::now();
        let mut fds = d.fds();
        while fds > 40 && t.elapsed() < PROMPT {
            std::thread::sleep(Duration::from_millis(2));
            fds = d.fds();
        }
        ck!(fds <= 40, "all clients left and the daemon still has {fds} files open");
        check(d, &s, "after clients that did nothing had left")?;
        d.stop(libc::SIGTERM)?;
        ctx.count("stops after stalled clients left");
        "after a restart"
    };
    *d = Daemon::start(dir, &opts(r))?;
    check(d, &s, when)?;
    ctx.count("restarts compared");
    ctx.sample(|| format!("{n} clients, {} databases", s.len()));
    Ok(())
}

fn fixed_window(c: &Conn) {
    let n: i32 = 300_000;
    unsafe {
        libc::setsockopt(c.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, std::ptr::addr_of!(n).cast(), 4);
    }
}

/// Clients that ask for much and read nothing.
fn unread(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &opts(r))?;
    let res = unread_in(ctx, r, &mut d, &dir);
    res.map_err(|e| dead(&mut d, &dir, &e))?;
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    Ok(())
}
fn unread_in(ctx: &mut Ctx, r: &mut Rng, d: &mut Daemon, dir: &Dir) -> R {
    let mut vals = Table::default();
    let mut s = State::new();
    let mut c = Conn::new(d.port)?;
    c.timeout(PROMPT);
    let size = *r.pick(&[60_000_usize, 120_000, 240_000]);
    let big = vals.add(crate::model::MV::Str((0..size).map(|_| char::from(b'a' + r.below(26) as u8)).collect()));
    let small: Vec<V> = (0..20).map(|_| vals.add(any_value(r, false))).collect();
    step(ctx, &mut c, r, &mut s, &Op::PutDb { db: "big".into(), overwrite: true, with: vec![("blob".into(), big)] }, &vals, true)?;
    step(ctx, &mut c, r, &mut s, &Op::AddDb { db: "other".into(), overwrite: true }, &vals, true)?;
    let n = r.range(1, 8);
    let mut slow: Vec<(Conn, usize, bool)> = vec![];
    for _ in 0..n {
        let mut k = Conn::new(d.port)?;
        fixed_window(&k);
        k.timeout(PROMPT);
        // several in a row, without reading an answer
        let whole = !r.one_in(3);
        let m = if whole { *r.pick(&[1_usize, 4, 20, 60]) } else { r.range(1, 2) };
        for _ in 0..m {
            let op = if whole { Op::GetDb { db: "big".into() } } else { Op::Get { db: "big".into(), key: "blob".into() } };
            k.send("GET", &op.target(r, true), b"", false)?;
        }
        slow.push((k, m, whole));
    }
    std::thread::sleep(Duration::from_millis(r.below(30)));
    let was = s.get("big").cloned();
    let ks: Vec<String> = vec!["k0".into(), "blob".into(), "k2".into()];
    let dbs: Vec<String> = vec!["big".into(), "other".into(), "more".into()];
    let quiet = r.bool();
    let mut worst = Duration::ZERO;
    for _ in 0..r.range(5, 25) {
        let op = gen::op(r, &EVEN, &dbs, &ks, |r| *r.pick(&small));
        // with what they asked for left alone, their answers are known
        if quiet && op.is_write() && op.db() == Some("big") {
            continue;
        }
        let t = Instant::now();
        step(ctx, &mut c, r, &mut s, &op, &vals, true).map_err(|e| format!("while {n} clients did not read their answers: {e}"))?;
        worst = worst.max(t.elapsed());
        ctx.count("requests served next to clients that don't read");
    }
    ctx.max("slowest request next to clients that don't read (us)", worst.as_micros() as u64);
    if r.bool() {
        ck!(d.save(), "10 s passed and nothing was saved, while {n} clients did not read their answers");
        ctx.count("saves next to clients that don't read");
    }
    ctx.seen(&(size, n, s.len(), worst.as_nanos() as u64 % 64));
    // in the end they get what they asked for, or leave
    for (mut k, m, whole) in slow {
        if r.one_in(3) {
            ctx.count("clients that left without reading");
            continue;
        }
        for i in 0..m {
            let rep = k.reply(false).map_err(|e| format!("a client that read late, answer {i} of {m}: {e}"))?;
            if !quiet {
                // what it found depends on when each was looked at
                ck!(rep.status < 500, "a client that read late was answered {}", rep.status);
                continue;
            }
            ck!(rep.status == 200, "a client that read late was answered {}", rep.status);
            if whole {
                let g = de_db(&rep.body, &vals, was.as_ref())?;
                ck!(Some(&g) == was.as_ref(), "a client that read late got another database");
            } else {
                vals.find(&de_value(&rep.body)?, Some(big)).map_err(|e| format!("a client that read late: {e}"))?;
            }
            ctx.count("answers read late");
        }
    }
    let got = read_state(d.port, &vals, Some(&s))?;
    if let Some(x) = state_diff(&s, &got) {
        return Err(format!("after clients that did not read: {x}"));
    }
    drop(c);
    d.stop(libc::SIGTERM)?;
    *d = Daemon::start(dir, &opts(r))?;
    let got = read_state(d.port, &vals, Some(&s))?;
    if let Some(x) = state_diff(&s, &got) {
        return Err(format!("after clients that did not read, and a restart: {x}"));
    }
    ctx.count("restarts compared");
    Ok(())
}

/// The same work again and again must not need more and more.
fn growth(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &opts(r))?;
    let res = growth_in(ctx, r, &mut d, idx);
    res.map_err(|e| dead(&mut d, &dir, &e))?;
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    Ok(())
}
const WORK: [&str; 8] = ["overwriting a value", "making and removing databases", "adding and removing keys", "changing and reading a database", "refused requests", "connections", "saves", "clearing and filling"];
fn growth_in(ctx: &mut Ctx, r: &mut Rng, d: &mut Daemon, idx: u64) -> R {
    let what = (idx + idx / 8) as usize % WORK.len();
    let mut vals = Table::default();
    let mut s = State::new();
    let mut c = Conn::new(d.port)?;
    c.timeout(PROMPT);
    let v: Vec<V> = (0..8).map(|_| vals.add(crate::model::MV::Str((0..8000).map(|_| char::from(b'a' + r.below(26) as u8)).collect()))).collect();
    step(ctx, &mut c, r, &mut s, &Op::PutDb { db: "d".into(), overwrite: true, with: vec![("keep".into(), v[0])] }, &vals, true)?;
    let mut n = 0_u64;
    let mut bytes = 0_u64;
    let mut cycle = |ctx: &mut Ctx, r: &mut Rng, d: &mut Daemon, s: &mut State| -> R {
        for i in 0..*[300_usize, 80, 150, 100, 200, 150, 12, 100].get(what).expect("work") {
            n += 1;
            let fresh = format!("n{n}");
            let x = *r.pick(&v);
            let ops = match what {
                0 => vec![Op::Add { db: "d".into(), key: "keep".into(), v: x, create: false, overwrite: true }],
                1 => vec![
                    Op::PutDb { db: fresh.clone(), overwrite: true, with: vec![("a".into(), x), ("b".into(), v[1])] },
                    Op::GetDb { db: fresh.clone() },
                    Op::Get { db: fresh.clone(), key: "a".into() },
                    Op::RmDb { db: fresh },
                ],
                2 => vec![Op::Add { db: "d".into(), key: fresh.clone(), v: x, create: false, overwrite: true }, Op::Rm { db: "d".into(), key: fresh }],
                3 => vec![Op::Add { db: "d".into(), key: "k".into(), v: x, create: false, overwrite: true }, Op::GetDb { db: "d".into() }],
                7 => vec![
                    Op::PutDb { db: "d".into(), overwrite: false, with: vec![(fresh.clone(), x), ("b".into(), v[1])] },
                    if n % 3 == 0 { Op::ClearDb { db: "d".into() } } else if n % 3 == 1 { Op::AddDb { db: "d".into(), overwrite: true } } else { Op::PutDb { db: "d".into(), overwrite: true, with: vec![] } },
                ],
                _ => vec![],
            };
            for op in &ops {
                // seldom looked at closely, as that costs more than the request
                if i % 16 == 0 {
                    step(ctx, &mut c, r, s, op, &vals, true)?;
                } else {
                    let want = apply(s, op);
                    let b = body(r, op, &vals, false);
                    c.send(op.method(), &op.target(r, true), &b, false)?;
                    let rep = c.reply(false)?;
                    ck!(rep.status < 300, "{op:?} answered {}", rep.status);
                    bytes += rep.body.len() as u64 + b.len() as u64;
                }
                ctx.count("requests repeated");
            }
            match what {
                4 => {
                    let b = r.bytes(8000);
                    let t = *r.pick(&["/v1/add_kv?db_name=d&key=k&create_new_database=true&overwrite_key=true", "/v1/add_db_with_content?db_name=d&overwrite_existing=true", "/v1/nothing", "/v1/get_value?db_name=d&key=none", "/v1/get_db?db_name=none"]);
                    // may happen to be a value: then say what it was before again
                    let rep = c.call(if t.contains("add") { "PUT" } else { "GET" }, t, &b)?;
                    if t.contains("add") && rep.status == 200 {
                        step(ctx, &mut c, r, s, &Op::PutDb { db: "d".into(), overwrite: true, with: vec![("keep".into(), v[0])] }, &vals, true)?;
                    } else {
                        ck!((400..500).contains(&rep.status), "GET {t} answered {}", rep.status);
                    }
                    bytes += b.len() as u64;
                    ctx.count("requests repeated");
                    if c.dead {
                        c = Conn::new(d.port)?;
                    }
                }
                5 => {
                    let mut k = Conn::new(d.port)?;
                    match r.below(4) {
                        0 => {}
                        1 => k.raw(b"GET /v1/get_db?db_na")?,
                        2 => {
                            k.raw(b"PUT /v1/add_kv?db_name=d&key=k&create_new_database=true&overwrite_key=true HTTP/1.1\r\nHost: x\r\nContent-Length: 100000\r\n\r\n")?;
                            k.raw(&r.bytes(20_000))?;
                        }
                        _ => {
                            k.call("GET", "/v1/get_db?db_name=d", b"")?;
                        }
                    }
                    bytes += 10_000;
                    ctx.count("connections made");
                }
                6 => {
                    let x = *r.pick(&v);
                    step(ctx, &mut c, r, s, &Op::PutDb { db: "d".into(), overwrite: true, with: (0..16).map(|i| (format!("k{i}"), v[i % 8])).collect() }, &vals, true)?;
                    bytes += 256_000;
                    ck!(d.save(), "10 s passed and nothing was saved");
                    ctx.count("saves repeated");
                }
                _ => {}
            }
        }
        Ok(())
    };
    for _ in 0..4 {
        cycle(ctx, r, d, &mut s)?;
    }
    let settle = |d: &Daemon| {
        let t = Instant::now();
        let mut f = d.fds();
        while f > 40 && t.elapsed() < PROMPT {
            std::thread::sleep(Duration::from_millis(2));
            f = d.fds();
        }
        f
    };
    let (f0, t0) = (settle(d), d.threads());
    let mut rows = vec![d.rss()];
    let grown = |rows: &[u64], from: usize| {
        let last = *rows[from + 1..].iter().rev().take(2).min().expect("rows");
        last.saturating_sub(rows[from])
    };
    for _ in 0..8 {
        cycle(ctx, r, d, &mut s)?;
        rows.push(d.rss());
    }
    let g = grown(&rows, 0);
    ctx.max(&format!("growth by {} (kB)", WORK[what]), g);
    // an allocator that spreads out comes to an end, and what is never given back doesn't
    if g > 6_000 {
        ctx.count("growth looked at for longer");
        for _ in 0..16 {
            cycle(ctx, r, d, &mut s)?;
            rows.push(d.rss());
        }
        let h = grown(&rows, 8);
        ck!(h < 10_000, "{}: memory went through {rows:?} kB while {bytes} bytes were moved and the databases stayed as big as they were", WORK[what]);
    }
    ctx.max("bytes moved in a case", bytes);
    let f1 = settle(d);
    ck!(f1 <= 40 && f1 <= f0 + 10, "{}: the daemon had {f0} files open and now has {f1}", WORK[what]);
    ck!(d.threads() <= t0 + 64, "{}: the daemon had {t0} threads and now has {}", WORK[what], d.threads());
    let got = read_state(d.port, &vals, Some(&s))?;
    if let Some(x) = state_diff(&s, &got) {
        return Err(format!("after {}: {x}", WORK[what]));
    }
    ctx.count("repetitions measured");
    ctx.seen(&(what, rows));
    d.stop(libc::SIGTERM)
}

/// Clients take all descriptors there are, and go away again.
fn descriptors(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let limit = *r.pick(&[40_u64, 64, 100]);
    let mut d = Daemon::start(&dir, &Opts { nofile: Some(limit), ..opts(r) })?;
    let res = descriptors_in(ctx, r, &mut d, &dir, limit);
    res.map_err(|e| dead(&mut d, &dir, &e))?;
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    Ok(())
}
fn descriptors_in(ctx: &mut Ctx, r: &mut Rng, d: &mut Daemon, dir: &Dir, limit: u64) -> R {
    let vals = Tagged(20);
    let mut s = State::new();
    let mut c = Conn::new(d.port)?;
    c.timeout(PROMPT);
    let dbs: Vec<String> = (0..3).map(|i| format!("d{i}")).collect();
    let ks: Vec<String> = (0..3).map(|i| format!("k{i}")).collect();
    let mut next = 0;
    let mut some = |ctx: &mut Ctx, r: &mut Rng, s: &mut State, c: &mut Conn, n: usize| -> R {
        for _ in 0..n {
            let op = gen::op(r, &WRITES, &dbs, &ks, |_| {
                next += 1;
                next
            });
            // a removal needs no descriptor, but what it needs in the kernel is its own business
            step(ctx, c, r, s, &op, &vals, false)?;
            ctx.count("requests served");
        }
        Ok(())
    };
    some(ctx, r, &mut s, &mut c, 10)?;
    let mut crowd = vec![];
    for _ in 0..limit + r.below(60) {
        crowd.push(Conn::new(d.port)?);
    }
    let t = Instant::now();
    while (d.fds() as u64) < limit && t.elapsed() < Duration::from_secs(2) {
        std::thread::sleep(Duration::from_millis(1));
    }
    if d.fds() as u64 >= limit {
        ctx.count("times no descriptor was left");
    }
    some(ctx, r, &mut s, &mut c, 10).map_err(|e| format!("while clients held all descriptors: {e}"))?;
    if r.bool() {
        // can't be saved now, has to be saved later
        d.jump(11);
        std::thread::sleep(Duration::from_millis(30));
        ctx.count("saves without descriptors");
        some(ctx, r, &mut s, &mut c, 4).map_err(|e| format!("after a save without descriptors: {e}"))?;
    }
    drop(crowd);
    let mut k = Conn::new(d.port)?;
    k.timeout(PROMPT);
    let rep = k.call("GET", "/healthcheck", b"").map_err(|e| format!("a new client, after those that held all descriptors had left: {e}"))?;
    ck!(rep.status == 200, "healthcheck answered {}", rep.status);
    ctx.count("recoveries");
    some(ctx, r, &mut s, &mut k, 5)?;
    let check = |d: &Daemon, s: &State, when: &str| -> R {
        let got = read_state(d.port, &vals, Some(s))?;
        match state_diff(s, &got) {
            Some(x) => Err(format!("{when}: {x}")),
            None => Ok(()),
        }
    };
    check(d, &s, "after a shortage of descriptors")?;
    drop(k);
    drop(c);
    if r.bool() {
        step(ctx, &mut Conn::new(d.port)?, r, &mut s, &Op::Add { db: "last".into(), key: "k".into(), v: 99_999, create: true, overwrite: true }, &vals, true)?;
        ck!(d.save(), "10 s passed and nothing was saved after a shortage of descriptors");
        d.kill();
    } else {
        d.stop(libc::SIGTERM)?;
    }
    *d = Daemon::start(dir, &opts(r))?;
    check(d, &s, "after a shortage of descriptors and a restart")?;
    ctx.count("restarts compared");
    ctx.seen(&s);
    Ok(())
}
