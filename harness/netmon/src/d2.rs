//! D03: graceful stops. D04: crashes. D05: faults and damage.
use crate::ck;
use crate::core::*;
use crate::d1::{dead, step};
use crate::daemon::*;
use crate::gen::{self, *};
use crate::http::*;
use crate::lin::{self, Ev, Verdict};
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

pub const D03: &[Kind] = &[kind("clean", 160, 4000, clean), kind("load", 320, 12000, load), kind("late", 64, 1500, late), kind("idle", 16, 200, idle)];
pub const D04: &[Kind] = &[kind("points", 56, 1500, points), kind("anytime", 48, 1500, anytime)];
pub const D05: &[Kind] = &[kind("fault", 160, 4000, fault), kind("catalogue", 40, 1000, catalogue), kind("removal", 32, 600, removal), kind("damage", 160, 5000, damage)];

const TERM: i32 = libc::SIGTERM;
const INT: i32 = libc::SIGINT;

fn quick_opts(r: &mut Rng) -> Opts {
    Opts { seed: r.u64(), ..Opts::default() }
}
fn same(want: &State, port: u16, vals: &dyn Values, when: &str) -> R {
    let got = read_state(port, vals, Some(want)).map_err(|e| format!("{when}: {e}"))?;
    match state_diff(want, &got) {
        None => Ok(()),
        Some(x) => Err(format!("{when}: {x}")),
    }
}

// ------------------------------------------------------------------------------------- D03

/// one client, then stop and start again, several times
fn clean(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut vals = Table::default();
    let mut s = State::new();
    let ndb = if idx % 20 == 3 { r.range(205, 260) } else { r.range(1, 6) };
    let dbs: Vec<String> = if ndb > 200 { (0..ndb).map(|i| format!("m{i}")).collect() } else { db_names(r, ndb) };
    let nk = r.range(1, 6);
    let keys = keys(r, nk);
    let mut d = Daemon::start(&dir, &quick_opts(r))?;
    let mut saved = false;
    for round in 0..r.range(1, 4) {
        let n = match r.below(4) {
            _ if ndb > 200 && round == 0 => ndb * 2,
            0 => 0,
            1 => r.range(1, 4),
            _ => r.range(5, 40),
        };
        let mix = *r.pick(&[WRITES, CHURN, EVEN]);
        let mut c = Conn::new(d.port)?;
        for _ in 0..n {
            let op = gen::op(r, &mix, &dbs, &keys, |r| {
                let m = any_value(r, idx % 17 == 5);
                vals.add(m)
            });
            step(ctx, &mut c, r, &mut s, &op, &vals, false).map_err(|e| dead(&mut d, &dir, &e))?;
            if r.one_in(15) {
                saved = d.save();
            }
        }
        if r.bool() {
            drop(c);
        }
        let sig = if r.bool() { TERM } else { INT };
        if r.bool() {
            d.ctl().op_delay_us.store(r.below(2000) as u32, SeqCst);
        }
        d.stop(sig).map_err(|e| dead(&mut d, &dir, &e))?;
        ctx.count(if sig == TERM { "stopped by SIGTERM" } else { "stopped by SIGINT" });
        d = Daemon::start(&dir, &quick_opts(r)).map_err(|e| format!("restart after {round} rounds: {e}"))?;
        same(&s, d.port, &vals, &format!("after a stop and a restart (round {round}, {n} operations, saved before: {saved})"))?;
        ctx.count("restarts compared");
        ctx.add("databases compared", s.len() as u64);
        ctx.seen(&(idx, round, h64(&s)));
        ctx.max("databases", s.len() as u64);
    }
    for i in 0..r.below(3) {
        d.stop(if r.bool() { TERM } else { INT }).map_err(|e| dead(&mut d, &dir, &e))?;
        d = Daemon::start(&dir, &quick_opts(r)).map_err(|e| format!("restart without a change: {e}"))?;
        same(&s, d.port, &vals, &format!("after {} restarts without a change", i + 1))?;
        ctx.count("restarts without a change compared");
    }
    ctx.sample(|| format!("{} databases, {} values written", s.len(), vals.0.len()));
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    Ok(())
}

/// The signal arrives while several clients are busy.
fn load(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut init = State::new();
    let vals = Tagged(*r.pick(&[0_usize, 8, 40]));
    let next = AtomicU32::new(1);
    let fresh = || next.fetch_add(1, SeqCst);
    let ndb = r.range(1, 4);
    let dbs: Vec<String> = (0..ndb).map(|i| format!("d{i}")).collect();
    let nk = r.range(1, 3);
    let keys: Vec<String> = (0..nk).map(|i| format!("k{i}")).collect();
    let mut d = Daemon::start(&dir, &quick_opts(r))?;
    let mut c = Conn::new(d.port)?;
    for db in &dbs {
        if !r.one_in(4) {
            let op = Op::PutDb { db: db.clone(), overwrite: true, with: keys.iter().map(|k| (k.clone(), fresh())).collect() };
            step(ctx, &mut c, r, &mut init, &op, &vals, true).map_err(|e| dead(&mut d, &dir, &e))?;
        }
    }
    // other databases only make saving take longer
    let fill = *r.pick(&[0_usize, 2, 10]);
    for i in 0..fill {
        let op = Op::PutDb { db: format!("fill{i}"), overwrite: true, with: vec![("x".into(), fresh())] };
        step(ctx, &mut c, r, &mut init, &op, &vals, true).map_err(|e| dead(&mut d, &dir, &e))?;
    }
    if r.bool() {
        d.save();
    }
    drop(c);
    d.ctl().op_delay_us.store(*r.pick(&[0, 200, 2000, 8000]), SeqCst);
    d.ctl().delay_us.store(*r.pick(&[100, 800]), SeqCst);
    d.ctl().delay_prob.store(*r.pick(&[0, 100, 600]), SeqCst);
    let nt = r.range(2, 5);
    let per = 84 / nt;
    let evs: Mutex<Vec<Ev>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let sig_at = AtomicU64::new(u64::MAX);
    let over = AtomicBool::new(false);
    let bar = Barrier::new(nt + 1);
    let t0 = Instant::now();
    let port = d.port;
    let seeds: Vec<Rng> = (0..nt).map(|_| Rng(r.u64())).collect();
    let wait = r.below(12_000);
    let sig = if r.bool() { TERM } else { INT };
    let jump = r.one_in(3);
    let pace = r.below(3);
    let ended = std::thread::scope(|sc| {
        for (t, mut r) in seeds.into_iter().enumerate() {
            let (evs, bad, bar, dbs, keys, vals, fresh, over) = (&evs, &bad, &bar, &dbs, &keys, &vals, &fresh, &over);
            sc.spawn(move || {
                let mut c = Conn::new(port).ok();
                bar.wait();
                let mut mine = vec![];
                let mut fails = 0;
                for _ in 0..per {
                    if over.load(SeqCst) || fails > 1 {
                        break;
                    }
                    if pace > 0 {
                        std::thread::sleep(Duration::from_micros(r.below(1500) * pace));
                    }
                    if c.is_none() {
                        match Conn::new(port) {
                            Ok(x) => c = Some(x),
                            Err(_) => break,
                        }
                    }
                    let Some(k) = &mut c else { break };
                    let op = gen::op(&mut r, &WRITES, dbs, keys, |_| fresh());
                    let call = t0.elapsed().as_nanos() as u64;
                    let got = perform(k, &mut r, &op, vals, true);
                    let ret = t0.elapsed().as_nanos() as u64;
                    if k.dead {
                        c = None;
                    }
                    match got {
                        Done::Answer(mut a) => {
                            if let Ans::Names(n) = &mut a {
                                n.retain(|n| dbs.contains(n));
                            }
                            mine.push(Ev { thread: t, call, ret: Some(ret), op, ans: Some(a) });
                        }
                        Done::Unknown(_) => {
                            fails += 1;
                            if op.is_write() {
                                mine.push(Ev { thread: t, call, ret: None, op, ans: None });
                            }
                        }
                        Done::Wrong(e) => {
                            *bad.lock().expect("lock") = Some(format!("{op:?}: {e}"));
                            break;
                        }
                    }
                }
                evs.lock().expect("lock").extend(mine);
            });
        }
        bar.wait();
        if jump {
            d.jump(11);
        }
        std::thread::sleep(Duration::from_micros(wait));
        sig_at.store(t0.elapsed().as_nanos() as u64, SeqCst);
        d.signal(sig);
        // clients that keep their connections busy can delay the end only so long
        std::thread::sleep(Duration::from_millis(20));
        let e = d.wait(Duration::from_secs(30));
        over.store(true, SeqCst);
        e
    });
    let mut evs = evs.into_inner().expect("lock");
    if let Some(b) = bad.into_inner().expect("lock") {
        return Err(dead(&mut d, &dir, &b));
    }
    match ended {
        None => return Err("the daemon still ran 30 s after the signal".into()),
        Some(s) if !s.success() => return Err(format!("the daemon ended with {s} after signal {sig}: {}", dir.out_tail())),
        _ => {}
    }
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    let sig_at = sig_at.load(SeqCst);
    let late = evs.iter().filter(|e| e.ans.is_some() && e.ret.unwrap_or(0) > sig_at && e.op.is_write()).count();
    let wholly_late = evs.iter().filter(|e| e.ans.is_some() && e.call > sig_at && e.op.is_write()).count();
    ctx.add("requests answered", evs.iter().filter(|e| e.ans.is_some()).count() as u64);
    ctx.add("requests never answered", evs.iter().filter(|e| e.ans.is_none()).count() as u64);
    ctx.add("changes answered after the signal", late as u64);
    ctx.add("changes sent and answered after the signal", wholly_late as u64);
    let d2 = Daemon::start(&dir, &quick_opts(r)).map_err(|e| format!("restart after signal {sig} under load: {e}\n{}", lin::show(&evs)))?;
    let end = t0.elapsed().as_nanos() as u64 + 1;
    let got = read_state(d2.port, &vals, None).map_err(|e| format!("after the restart: {e}\n{}", lin::show(&evs)))?;
    init.retain(|n, _| dbs.contains(n));
    for (i, db) in dbs.iter().enumerate() {
        let ans = got.get(db).map_or(Ans::Status(410), |d| Ans::Db(d.clone()));
        evs.push(Ev { thread: 99, call: end + i as u64 * 2, ret: Some(end + i as u64 * 2 + 1), op: Op::GetDb { db: db.clone() }, ans: Some(ans) });
    }
    for i in 0..fill {
        ck!(got.contains_key(&format!("fill{i}")), "database fill{i}, untouched since long before the signal, is missing after the restart");
    }
    ctx.count("stops under load compared");
    let mut shape: Vec<(u64, usize, &'static str, bool)> = evs.iter().map(|e| (e.call, e.thread, e.op.name(), e.call > sig_at)).collect();
    shape.sort_unstable();
    ctx.seen(&shape.into_iter().map(|x| (x.1, x.2, x.3)).collect::<Vec<_>>());
    ctx.sample(|| lin::show(&evs[..evs.len().min(3)]));
    match lin::check(&init, &evs) {
        (Verdict::Ok, n) => ctx.max("steps to explain a history", n as u64),
        (Verdict::TooHard, _) => ctx.count("histories too hard to decide"),
        (Verdict::No, _) => return Err(format!("signal {sig} at {} us: what is there after the restart (thread 99) does not follow from the answered requests; before: {init:?}\n{}", sig_at / 1000, lin::show(&evs))),
    }
    Ok(())
}

/// A request is in progress when the signal arrives and is completed later.
fn late(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut s = State::new();
    let vals = Tagged(8);
    let mut d = Daemon::start(&dir, &quick_opts(r))?;
    let mut c = Conn::new(d.port)?;
    let mut next = 0;
    let dbs: Vec<String> = (0..r.range(1, 5)).map(|i| format!("d{i}")).collect();
    for db in &dbs {
        if r.bool() {
            next += 1;
            step(ctx, &mut c, r, &mut s, &Op::PutDb { db: db.clone(), overwrite: true, with: vec![("k".into(), next)] }, &vals, true)?;
        }
    }
    if r.bool() {
        d.save();
    }
    d.ctl().op_delay_us.store(*r.pick(&[0, 1000, 5000]), SeqCst);
    // half-sent requests
    let mut open = vec![];
    for _ in 0..r.range(1, 4) {
        next += 1;
        let db = r.pick(&dbs).clone();
        let op = if r.bool() {
            Op::Add { db, key: format!("late{next}"), v: next, create: true, overwrite: true }
        } else {
            Op::PutDb { db, overwrite: r.bool(), with: vec![(format!("late{next}"), next)] }
        };
        let b = body(r, &op, &vals, false);
        let mut k = Conn::new(d.port)?;
        let msg = format!("{} {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", op.method(), op.target(r, true), b.len());
        k.raw(msg.as_bytes())?;
        let cut = r.us(b.len());
        k.raw(&b[..cut])?;
        open.push((op, b, cut, k));
    }
    std::thread::sleep(Duration::from_millis(r.below(10)));
    let sig = if r.bool() { TERM } else { INT };
    d.signal(sig);
    // sometimes long enough for the saver to be done
    std::thread::sleep(Duration::from_millis(*r.pick(&[0, 5, 30, 120])));
    let mut answered = 0;
    for (op, b, cut, k) in &mut open {
        if k.raw(&b[*cut..]).is_err() {
            continue;
        }
        if let Ok(rep) = k.reply(false) {
            let want = apply(&mut s, op);
            let got = understand(op, &rep, &vals, None)?;
            ck!(got == want, "{op:?}, completed after the signal, answered {got:?} instead of {want:?}");
            answered += 1;
        } else {
            // not answered: either is fine, so it has to be left out of the comparison
            ctx.count("half-sent requests dropped");
            let db = op.db().unwrap_or("").to_string();
            return finish_unknown(ctx, r, d, &dir, &db);
        }
    }
    drop(open);
    drop(c);
    match d.wait(Duration::from_secs(30)) {
        None => return Err("the daemon still ran 30 s after the last request was answered".into()),
        Some(x) if !x.success() => return Err(format!("the daemon ended with {x}: {}", dir.out_tail())),
        _ => {}
    }
    ctx.add("requests finished after the signal", answered);
    ctx.seen(&(idx, h64(&s), answered));
    let d = Daemon::start(&dir, &quick_opts(r))?;
    same(&s, d.port, &vals, &format!("after a restart; {answered} requests were completed after signal {sig}"))
}
fn finish_unknown(_: &mut Ctx, _: &mut Rng, mut d: Daemon, dir: &Dir, _: &str) -> R {
    match d.wait(Duration::from_secs(30)) {
        None => Err("the daemon still ran 30 s after the connections were gone".into()),
        Some(x) if !x.success() => Err(format!("the daemon ended with {x}: {}", dir.out_tail())),
        _ => Ok(()),
    }
}

/// Connections that say nothing don't keep it from stopping.
fn idle(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut s = State::new();
    let vals = Tagged(8);
    let mut d = Daemon::start(&dir, &quick_opts(r))?;
    let mut c = Conn::new(d.port)?;
    step(ctx, &mut c, r, &mut s, &Op::PutDb { db: "a".into(), overwrite: true, with: vec![("k".into(), 1)] }, &vals, true)?;
    let mut v = vec![];
    for _ in 0..r.range(1, 20) {
        let mut k = Conn::new(d.port)?;
        match r.below(3) {
            0 => {
                k.call("GET", "/healthcheck", b"")?;
            }
            1 => k.raw(b"GET /healthc")?,
            _ => {}
        }
        v.push(k);
    }
    std::thread::sleep(Duration::from_millis(5));
    d.signal(TERM);
    std::thread::sleep(Duration::from_millis(r.below(40)));
    // those with half a request go away
    drop(v);
    match d.wait(Duration::from_secs(30)) {
        None => return Err("the daemon still ran 30 s after all clients had gone".into()),
        Some(x) if !x.success() => return Err(format!("the daemon ended with {x}: {}", dir.out_tail())),
        _ => {}
    }
    ctx.count("stops with idle connections");
    ctx.seen(&(idx, "idle"));
    let d = Daemon::start(&dir, &quick_opts(r))?;
    same(&s, d.port, &vals, "after a stop with idle connections and a restart")
}

// ------------------------------------------------------------------------------------- D04

type Allowed = BTreeMap<String, BTreeSet<Option<Db>>>;

/// Per database, everything it was from now on.
fn allow(a: &mut Allowed, s: &State, names: &[String]) {
    for n in names {
        a.entry(n.clone()).or_default().insert(s.get(n).cloned());
    }
}
fn check_allowed(a: &Allowed, got: &State) -> R {
    for (n, ok) in a {
        let g = got.get(n).cloned();
        if !ok.contains(&g) {
            return Err(format!("database {n:?} is {} but since the last completed save it only was one of {}", brief(&g), ok.iter().map(brief).collect::<Vec<_>>().join(" | ")));
        }
    }
    match got.keys().find(|n| !a.contains_key(*n)) {
        Some(n) => Err(format!("there is a database {n:?} which nobody created")),
        None => Ok(()),
    }
}
fn brief(d: &Option<Db>) -> String {
    match d {
        None => "absent".into(),
        Some(d) => format!("{d:?}").chars().take(300).collect(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Site {
    Save,
    Remove,
    Stop,
}

/// A scenario, run again and again with the daemon dying at each file operation of a save, a removal or a stop.
fn points(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let ndb = r.range(1, 3);
    let names: Vec<String> = (0..ndb).map(|i| format!("d{i}")).collect();
    let nk = r.range(1, 3);
    let keys: Vec<String> = (0..nk).map(|i| format!("k{i}")).collect();
    let vals = Tagged(*r.pick(&[0_usize, 10, 200]));
    let mut next = 0;
    let mut mk = |r: &mut Rng, n: usize, mix: &Mix| -> Vec<Op> {
        (0..n)
            .map(|_| {
                gen::op(r, mix, &names, &keys, |_| {
                    next += 1;
                    next
                })
            })
            .filter(Op::is_write)
            .collect()
    };
    let n0 = r.range(0, 8);
    let mut first = mk(r, n0, &WRITES);
    let n1 = r.range(0, 7);
    let second = mk(r, n1, if idx % 3 == 0 { &CHURN } else { &WRITES });
    let saves = if r.one_in(4) { 0 } else { r.range(1, 2) };
    let site = [Site::Save, Site::Save, Site::Remove, Site::Stop][idx as usize % 4];
    let victim = r.pick(&names).clone();
    if site == Site::Remove && !r.one_in(4) {
        first.push(Op::PutDb { db: victim.clone(), overwrite: true, with: vec![("k0".into(), 99_999)] });
    }
    let mut limit = None;
    let mut j = 1_u64;
    let mut tail = false;
    loop {
        let modes: &[u32] = if limit.is_none() {
            &[9]
        } else if tail {
            &[AFTER]
        } else {
            &[BEFORE, HALF]
        };
        for &mode in modes {
            let dir = Dir::new();
            let mut d = Daemon::start(&dir, &quick_opts(r))?;
            let mut s = State::new();
            let mut c = Conn::new(d.port)?;
            let run = |ctx: &mut Ctx, c: &mut Conn, s: &mut State, ops: &[Op], a: Option<&mut Allowed>| -> R {
                let mut a = a;
                for op in ops {
                    step(ctx, c, &mut Rng(1), s, op, &vals, true)?;
                    if let Some(a) = &mut a {
                        allow(a, s, &names);
                    }
                }
                Ok(())
            };
            run(ctx, &mut c, &mut s, &first, None)?;
            let mut allowed = Allowed::new();
            if saves == 0 {
                // nothing saved yet: anything since the empty beginning
                allow(&mut allowed, &State::new(), &names);
                let mut t = State::new();
                for op in &first {
                    apply(&mut t, op);
                    allow(&mut allowed, &t, &names);
                }
            }
            for _ in 0..saves {
                ck!(d.save(), "{}", dead(&mut d, &dir, "10 s passed and nothing was saved"));
            }
            allow(&mut allowed, &s, &names);
            run(ctx, &mut c, &mut s, &second, Some(&mut allowed))?;
            let at = d.ops();
            if let Some(n) = limit {
                d.ctl().crash_mode.store(mode, SeqCst);
                d.ctl().crash_at.store(at + if tail { n } else { j }, SeqCst);
            }
            match site {
                Site::Save => {
                    if limit.is_none() {
                        d.save();
                    } else {
                        d.jump(11);
                        d.wait(Duration::from_secs(20));
                    }
                }
                Site::Remove => {
                    let op = Op::RmDb { db: victim.clone() };
                    match perform(&mut c, r, &op, &vals, true) {
                        Done::Answer(a) => {
                            let want = apply(&mut s, &op);
                            ck!(a == want, "{op:?} answered {a:?} instead of {want:?}");
                        }
                        Done::Unknown(_) if limit.is_some() => {
                            apply(&mut s, &op);
                        }
                        Done::Unknown(e) | Done::Wrong(e) => return Err(dead(&mut d, &dir, &e)),
                    }
                    allow(&mut allowed, &s, &names);
                    if limit.is_none() {
                        // the crash may also come in the save after a removal
                        d.save();
                    } else if d.alive() {
                        d.jump(11);
                        d.wait(Duration::from_secs(20));
                    }
                }
                Site::Stop => {
                    d.signal(TERM);
                    d.wait(Duration::from_secs(20));
                }
            }
            if limit.is_none() {
                let n = d.ops() - at;
                limit = Some(n);
                ctx.max("operations in one save, removal or stop", n);
                d.kill();
            } else {
                let died = !d.alive();
                if site == Site::Stop || died {
                    ctx.count("crash points");
                    ctx.count(&format!("{site:?}, mode {mode}"));
                } else {
                    ctx.count("crash points not reached");
                }
                d.kill();
            }
            let log = dir.log();
            let last = log.lines().last().unwrap_or("").to_string();
            ctx.seen(&(idx, site, mode, j, tail));
            let d2 = Daemon::start(&dir, &quick_opts(r));
            let mut d2 = d2.map_err(|e| format!("after a crash at {last:?} (operation {j} of a {site:?}, mode {mode}): {e}"))?;
            let what = || format!("scenario {first:?}, {saves} saves, {second:?}; crash at {last:?} (operation {j} of a {site:?}, mode {mode})");
            let got = read_state(d2.port, &vals, None).map_err(|e| format!("{e}; {}", what()))?;
            check_allowed(&allowed, &got).map_err(|e| format!("{e}; {}", what()))?;
            // and it goes on working from there
            if j % 3 == 0 || mode == HALF {
                let mut s2 = got.clone();
                let mut c = Conn::new(d2.port)?;
                for n in &names {
                    let op = if r.bool() { Op::RmDb { db: n.clone() } } else { Op::Add { db: n.clone(), key: "after".into(), v: 77_777, create: true, overwrite: true } };
                    step(ctx, &mut c, r, &mut s2, &op, &vals, true).map_err(|e| format!("{e}; {}", what()))?;
                }
                ck!(d2.save(), "nothing is saved after a crash; {}", what());
                d2.kill();
                let d3 = Daemon::start(&dir, &quick_opts(r)).map_err(|e| format!("{e}; {}", what()))?;
                same(&s2, d3.port, &vals, "a save after a crash").map_err(|e| format!("{e}; {}", what()))?;
                ctx.count("saves after a crash compared");
            }
        }
        let n = limit.unwrap_or(0);
        if tail || n == 0 {
            break;
        }
        if modes[0] != 9 {
            j += 1;
        }
        if j > n {
            tail = true;
        }
    }
    ctx.sample(|| format!("{first:?} {second:?} {site:?}"));
    Ok(())
}

/// Killed at any time, again and again on one directory, while several clients change a database each.
fn anytime(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let nt = r.range(1, 4);
    let vals = Tagged(*r.pick(&[0_usize, 20, 150]));
    let next = AtomicU32::new(1);
    let names: Vec<String> = (0..nt).map(|i| format!("d{i}")).collect();
    let keys: Vec<String> = (0..3).map(|i| format!("k{i}")).collect();
    let mut now = State::new();
    let mut story = String::new();
    for cycle in 0..5 {
        let mut d = Daemon::start(&dir, &quick_opts(r)).map_err(|e| format!("cycle {cycle}: {e}{story}"))?;
        let got = read_state(d.port, &vals, None).map_err(|e| format!("cycle {cycle}: {e}{story}"))?;
        if cycle > 0 {
            now = got;
        } else {
            ck!(got.is_empty(), "a new directory holds databases");
        }
        d.ctl().op_delay_us.store(*r.pick(&[0, 100, 1000]), SeqCst);
        // per client: every state its database went through, and how many of these are certain to be saved
        let hist: Vec<Mutex<Vec<Option<Db>>>> = names.iter().map(|n| Mutex::new(vec![now.get(n).cloned()])).collect();
        let floor: Vec<AtomicU64> = names.iter().map(|_| AtomicU64::new(0)).collect();
        let acked: Vec<AtomicU64> = names.iter().map(|_| AtomicU64::new(0)).collect();
        let stop = AtomicBool::new(false);
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let port = d.port;
        let seeds: Vec<Rng> = (0..nt).map(|_| Rng(r.u64())).collect();
        let pace = *r.pick(&[0, 200, 1500]);
        let saves = r.below(3);
        let final_wait = r.below(6000);
        let last_jump = r.bool();
        std::thread::scope(|sc| {
            for (t, mut r) in seeds.into_iter().enumerate() {
                let (names, keys, vals, next, hist, acked, stop, bad) = (&names, &keys, &vals, &next, &hist, &acked, &stop, &bad);
                let mut s = State::new();
                if let Some(d) = now.get(&names[t]) {
                    s.insert(names[t].clone(), d.clone());
                }
                sc.spawn(move || {
                    let Ok(mut c) = Conn::new(port) else { return };
                    while !stop.load(SeqCst) {
                        let op = gen::op(&mut r, &WRITES, &names[t..=t], keys, |_| next.fetch_add(1, SeqCst));
                        if !op.is_write() {
                            continue;
                        }
                        if pace > 0 {
                            std::thread::sleep(Duration::from_micros(r.below(pace)));
                        }
                        let want = apply(&mut s, &op);
                        hist[t].lock().expect("lock").push(s.get(&names[t]).cloned());
                        match perform(&mut c, &mut r, &op, vals, true) {
                            Done::Answer(a) => {
                                if a != want {
                                    *bad.lock().expect("lock") = Some(format!("{op:?} answered {a:?} instead of {want:?}"));
                                    break;
                                }
                                acked[t].fetch_add(1, SeqCst);
                            }
                            Done::Unknown(_) => break,
                            Done::Wrong(e) => {
                                *bad.lock().expect("lock") = Some(e);
                                break;
                            }
                        }
                    }
                });
            }
            let mut last = Instant::now();
            for _ in 0..saves {
                std::thread::sleep(Duration::from_micros(r.below(4000)));
                let a: Vec<u64> = acked.iter().map(|a| a.load(SeqCst)).collect();
                // the timer itself may have run out shortly before, if this took very long
                let sure = last.elapsed() < Duration::from_secs(5);
                // twice, as the catalogue need not be what is written last
                let saved = d.save_busy() && d.save_busy();
                last = Instant::now();
                if saved && sure {
                    for (f, a) in floor.iter().zip(a) {
                        f.store(a, SeqCst);
                    }
                }
            }
            if last_jump {
                d.jump(11);
            }
            std::thread::sleep(Duration::from_micros(final_wait));
            d.kill();
            stop.store(true, SeqCst);
        });
        if let Some(b) = bad.into_inner().expect("lock") {
            return Err(format!("{b}{story}"));
        }
        let mut allowed = Allowed::new();
        for (t, n) in names.iter().enumerate() {
            let h = hist[t].lock().expect("lock");
            // without a completed save in this cycle the state it began with counts, too
            let f = floor[t].load(SeqCst) as usize;
            ctx.add("changes before a kill", h.len() as u64 - 1);
            ctx.add("changes known to be saved", f as u64);
            allowed.insert(n.clone(), h[f..].iter().cloned().collect());
        }
        ctx.count("kills");
        let d2 = Daemon::start(&dir, &quick_opts(r)).map_err(|e| format!("after kill {cycle}: {e}{story}"))?;
        let got = read_state(d2.port, &vals, None).map_err(|e| format!("after kill {cycle}: {e}{story}"))?;
        check_allowed(&allowed, &got).map_err(|e| format!("after kill {cycle} ({saves} saves completed before, timer fired just before: {last_jump}, {final_wait} us): {e}{story}"))?;
        ctx.seen(&(idx, cycle, h64(&got)));
        story.push_str(&format!("; kill {cycle} left {:?}", got.keys().collect::<Vec<_>>()));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- D05

const ERRS: [i32; 5] = [libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EACCES, libc::EROFS];

struct Scene {
    dir: Dir,
    d: Daemon,
    vals: Tagged,
    names: Vec<String>,
    keys: Vec<String>,
    s: State,
    old: State,
    /// every state since the save, per database
    since: Allowed,
    next: V,
}
impl Scene {
    /// some databases, saved, and changed afterwards
    fn new(ctx: &mut Ctx, r: &mut Rng, min: usize) -> Result<Scene, String> {
        let dir = Dir::new();
        let d = Daemon::start(&dir, &quick_opts(r))?;
        let n = r.range(min, 6);
        let names: Vec<String> = (0..n).map(|i| format!("d{i}")).collect();
        let keys: Vec<String> = (0..3).map(|i| format!("k{i}")).collect();
        let mut z = Scene { dir, d, vals: Tagged(*r.pick(&[0_usize, 10, 100])), names, keys, s: State::new(), old: State::new(), since: Allowed::new(), next: 0 };
        for n in z.names.clone() {
            if !r.one_in(4) {
                z.next += 1;
                let op = Op::PutDb { db: n, overwrite: true, with: vec![("k0".into(), z.next)] };
                z.one(ctx, r, &op)?;
            }
        }
        if !r.one_in(5) {
            let ok = z.d.save();
            ck!(ok, "{}", dead(&mut z.d, &z.dir, "10 s passed and nothing was saved"));
            z.old = z.s.clone();
        }
        let names = z.names.clone();
        allow(&mut z.since, &z.old, &names);
        allow(&mut z.since, &z.s, &names);
        let k = r.range(1, 8);
        z.some(ctx, r, k)?;
        Ok(z)
    }
    fn one(&mut self, ctx: &mut Ctx, r: &mut Rng, op: &Op) -> R {
        let mut c = Conn::new(self.d.port)?;
        step(ctx, &mut c, r, &mut self.s, op, &self.vals, true).map_err(|e| dead(&mut self.d, &self.dir, &e))?;
        let names = self.names.clone();
        allow(&mut self.since, &self.s, &names);
        Ok(())
    }
    fn some(&mut self, ctx: &mut Ctx, r: &mut Rng, k: usize) -> R {
        for _ in 0..k {
            let (names, keys) = (self.names.clone(), self.keys.clone());
            let mut next = self.next;
            let op = gen::op(r, &WRITES, &names, &keys, |_| {
                next += 1;
                next
            });
            self.next = next;
            self.one(ctx, r, &op)?;
        }
        Ok(())
    }
    fn serves(&mut self, when: &str) -> R {
        ck!(self.d.alive(), "{}", dead(&mut self.d, &self.dir, when));
        same(&self.s, self.d.port, &self.vals, when)
    }
    fn restart(&mut self, r: &mut Rng, when: &str) -> R {
        self.d.kill();
        self.d = Daemon::start(&self.dir, &quick_opts(r)).map_err(|e| format!("{when}: {e}"))?;
        Ok(())
    }
    fn everything_saved(&mut self, ctx: &mut Ctx, r: &mut Rng, when: &str) -> R {
        // twice: the first may only see the end of a save that began before
        for _ in 0..2 {
            ck!(self.d.save(), "{when}: 10 s passed and nothing was saved");
        }
        self.restart(r, when)?;
        ctx.count("complete saves after a fault compared");
        same(&self.s, self.d.port, &self.vals, when)
    }
}

/// Operations on one database's file fail during a save.
fn fault(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut z = Scene::new(ctx, r, 1)?;
    let victim = r.pick(&z.names).clone();
    if !z.s.contains_key(&victim) {
        z.one(ctx, r, &Op::AddDb { db: victim.clone(), overwrite: false })?;
    }
    let ops = [OPEN, WRITE, RENAME, OPEN | WRITE | RENAME][idx as usize % 4];
    let err = *r.pick(&ERRS);
    let partial = r.bool();
    z.d.rule(0, ops, &format!("/{victim}.sdb"), err, partial, (0, 0));
    let before = z.d.ctl().faults.load(SeqCst);
    let many = r.range(1, 3);
    let stop = r.one_in(4);
    for i in 0..many {
        if stop && i + 1 == many {
            z.serves("while writing a database fails")?;
            z.d.signal(TERM);
            match z.d.wait(Duration::from_secs(30)) {
                None => return Err("the daemon doesn't stop while writing a database fails".into()),
                Some(_) => {}
            }
        } else {
            z.d.save();
            z.serves("after writing a database failed")?;
        }
    }
    let hits = z.d.ctl().faults.load(SeqCst) - before;
    ctx.add("failed operations", hits);
    if hits > 0 {
        ctx.count(&format!("saves with a failing {}", ["open", "write", "rename", "anything"][idx as usize % 4]));
    }
    let what = format!("operations {ops:#x} on {victim:?} failing with {err} (partial {partial}, {hits} times, stopped: {stop})");
    ctx.seen(&(idx, ops, err, partial, hits, h64(&z.s)));
    ctx.sample(|| what.clone());
    if stop || r.bool() {
        // as if the machine went down now: all others are stored, this one is old or new
        z.restart(r, &what)?;
        let got = read_state(z.d.port, &z.vals, None).map_err(|e| format!("{what}: {e}"))?;
        let mut a = Allowed::new();
        for n in &z.names {
            if *n == victim && hits > 0 {
                let mut ok = z.since[n].clone();
                // what was saved once can't have gone, unless it was removed
                if z.old.contains_key(n) && !z.since[n].contains(&None) {
                    ok.remove(&None);
                }
                a.insert(n.clone(), ok);
            } else {
                a.insert(n.clone(), BTreeSet::from([z.s.get(n).cloned()]));
            }
        }
        check_allowed(&a, &got).map_err(|e| format!("{what}: {e}"))?;
        ctx.count("restarts after a fault compared");
        z.s = got;
    } else {
        z.d.no_rules();
        let k = r.range(0, 4);
        z.some(ctx, r, k)?;
        z.serves("after a fault was over")?;
    }
    z.everything_saved(ctx, r, &format!("the save after: {what}"))
}

/// Operations on the catalogue, or on anything at all, fail.
fn catalogue(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut z = Scene::new(ctx, r, 1)?;
    let ops = [OPEN, WRITE, RENAME, OPEN | WRITE | RENAME][idx as usize % 4];
    let err = *r.pick(&ERRS);
    let all = r.one_in(3);
    // or just one operation, whichever comes at that point
    let at = z.d.ops() + 1 + r.below(9);
    let one = r.one_in(3);
    let path = if all || one { "" } else { "/meta.sdb" };
    z.d.rule(0, if one { OPEN | WRITE | RENAME } else { ops }, path, err, r.bool(), if one { (at, at) } else { (0, 0) });
    let before = z.d.ctl().faults.load(SeqCst);
    for _ in 0..r.range(1, 2) {
        z.d.save();
        z.serves("after writing the catalogue failed")?;
    }
    let hits = z.d.ctl().faults.load(SeqCst) - before;
    ctx.add("failed operations", hits);
    let what = format!("operations {ops:#x} on {path:?} failing with {err} ({hits} times, one only: {one})");
    ctx.seen(&(idx, ops, err, hits, h64(&z.s)));
    if r.bool() {
        z.restart(r, &what)?;
        let got = read_state(z.d.port, &z.vals, None).map_err(|e| format!("{what}: {e}"))?;
        check_allowed(&z.since, &got).map_err(|e| format!("{what}: {e}"))?;
        ctx.count("restarts after a fault compared");
        z.s = got;
    } else {
        z.d.no_rules();
        let k = r.range(0, 4);
        z.some(ctx, r, k)?;
    }
    z.everything_saved(ctx, r, &format!("the save after: {what}"))
}

/// The file of a database that is to be removed can't be.
fn removal(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut z = Scene::new(ctx, r, 1)?;
    let victim = r.pick(&z.names).clone();
    if !z.s.contains_key(&victim) {
        z.one(ctx, r, &Op::Add { db: victim.clone(), key: "k0".into(), v: 55_555, create: true, overwrite: true })?;
    }
    if r.bool() {
        z.d.save();
    }
    let err = *r.pick(&[libc::EIO, libc::EACCES, libc::EROFS, libc::EBUSY]);
    z.d.rule(0, UNLINK | RENAME, &format!("/{victim}.sdb"), err, false, (0, 0));
    let mut c = Conn::new(z.d.port)?;
    let op = Op::RmDb { db: victim.clone() };
    let t = op.target(r, true);
    let rep = c.call("POST", &t, b"").map_err(|e| dead(&mut z.d, &z.dir, &format!("removing while the file can't be removed: {e}")))?;
    let hit = z.d.ctl().faults.load(SeqCst);
    ctx.count(&format!("removal answered {}", rep.status));
    ctx.seen(&(idx, err, rep.status, h64(&z.s)));
    let what = format!("removing {victim:?} while its file can't be removed ({err}, {hit} times) was answered {}", rep.status);
    if rep.status < 300 {
        apply(&mut z.s, &op);
    }
    z.serves(&what)?;
    z.d.no_rules();
    if rep.status >= 300 {
        let k = r.range(0, 3);
        z.some(ctx, r, k)?;
        if z.s.contains_key(&victim) && r.bool() {
            z.one(ctx, r, &op)?;
        }
    }
    z.everything_saved(ctx, r, &what)
}

/// One database's file is damaged while the daemon is down.
fn damage(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut z = Scene::new(ctx, r, 2)?;
    let victim = r.pick(&z.names).clone();
    if !z.s.contains_key(&victim) {
        z.one(ctx, r, &Op::Add { db: victim.clone(), key: "k0".into(), v: 55_555, create: true, overwrite: true })?;
    }
    z.d.stop(TERM)?;
    let f = z.dir.file(&victim);
    let good = std::fs::read(&f).map_err(|e| format!("after a stop there is no file for database {victim:?}: {e}"))?;
    let mut o = quick_opts(r);
    let (what, heals) = match r.below(9) {
        0 => {
            let n = r.us(good.len());
            std::fs::write(&f, &good[..n]).expect("damage");
            (format!("cut to {n} of {} bytes", good.len()), true)
        }
        1 => {
            let mut b = good.clone();
            let i = r.us(b.len() * 8);
            b[i / 8] ^= 1 << (i % 8);
            std::fs::write(&f, &b).expect("damage");
            (format!("bit {i} flipped"), true)
        }
        2 => {
            let n = r.range(0, 300);
            let b = r.bytes(n);
            std::fs::write(&f, b).expect("damage");
            (format!("{n} random bytes"), true)
        }
        3 => {
            std::fs::write(&f, b"").expect("damage");
            ("empty".into(), true)
        }
        4 => {
            std::fs::remove_file(&f).expect("damage");
            std::fs::create_dir(&f).expect("damage");
            ("a directory".into(), false)
        }
        5 => {
            let mut b = good.clone();
            let n = r.range(1, 40);
            b.extend(r.bytes(n));
            std::fs::write(&f, &b).expect("damage");
            (format!("{n} bytes more"), true)
        }
        6 => {
            // the header, and then nonsense that claims to be long
            let mut b = good[..9.min(good.len())].to_vec();
            for _ in 0..r.range(1, 60) {
                b.push(*r.pick(&[0xff, 0x7f, 0x81, 0xfe, 0x11, 0xa3]));
            }
            std::fs::write(&f, &b).expect("damage");
            ("header and nonsense".into(), true)
        }
        7 => {
            std::fs::remove_file(&f).expect("damage");
            std::os::unix::fs::symlink(&f, &f).expect("damage");
            ("a link to itself".into(), true)
        }
        _ => {
            let e = *r.pick(&[libc::EACCES, libc::EIO, libc::EPERM, libc::ENOMEM]);
            o.unreadable = Some((format!("/{victim}.sdb"), e));
            (format!("unreadable ({e})"), true)
        }
    };
    if r.one_in(3) {
        // leftovers of something else
        std::fs::write(z.dir.base().join("stray.txt"), b"x").expect("damage");
        std::fs::write(z.dir.base().join(format!("{victim}.sdb.tmp")), &good[..good.len() / 2]).expect("damage");
    }
    ctx.count(&format!("damage: {}", what.split(|c: char| c.is_ascii_digit() || c == '(').next().unwrap_or("").trim()));
    let what = format!("file of {victim:?} damaged: {what}");
    ctx.seen(&(idx, &what));
    ctx.sample(|| what.clone());
    z.d = Daemon::start(&z.dir, &o).map_err(|e| format!("{what}: {e}"))?;
    let check = |z: &Scene, when: &str| -> Result<State, String> {
        // what a damaged file is taken for is open, as long as it is something
        let mut c = Conn::new(z.d.port)?;
        let rep = c.call("GET", "/v1/get_all_db_names", b"")?;
        let Ans::Names(names) = understand(&Op::List, &rep, &z.vals, None)? else { return Err("no list".into()) };
        let mut got = State::new();
        for n in names {
            if n == victim {
                continue;
            }
            let rep = c.call("GET", &Op::GetDb { db: n.clone() }.target(&mut Rng(0), true), b"")?;
            got.insert(n.clone(), de_db(&rep.body, &z.vals, z.s.get(&n)).map_err(|e| format!("{when}: {n:?}: {e}"))?);
        }
        let mut want = z.s.clone();
        want.remove(&victim);
        match state_diff(&want, &got) {
            None => Ok(got),
            Some(x) => Err(format!("{when}: {x}")),
        }
    };
    check(&z, &what)?;
    ctx.count("starts with damage compared");
    if r.bool() {
        z.d.save();
        z.d.kill();
    } else {
        z.d.stop(TERM).map_err(|e| format!("{what}: {e}"))?;
    }
    z.d = Daemon::start(&z.dir, &quick_opts(r)).map_err(|e| format!("{what}, second start: {e}"))?;
    check(&z, &format!("{what}, second start"))?;
    if heals {
        // the name can be used again
        let mut c = Conn::new(z.d.port)?;
        z.s.remove(&victim);
        let op = Op::PutDb { db: victim.clone(), overwrite: true, with: vec![("again".into(), 66_666)] };
        let rep = {
            let b = body(r, &op, &z.vals, false);
            let t = op.target(r, true);
            c.call("PUT", &t, &b)?
        };
        ck!(rep.status == 200 || rep.status == 201, "{what}: storing it again was answered {}", rep.status);
        apply(&mut z.s, &op);
        z.everything_saved(ctx, r, &format!("{what}, stored again"))?;
    }
    Ok(())
}
