//! D01: concurrent histories are linearisable. D02: every sequence of requests does what it should.
use crate::ck;
use crate::core::*;
use crate::daemon::*;
use crate::gen::{self, *};
use crate::http::*;
use crate::lin::{self, Ev, Verdict};
use crate::spec::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};
use std::time::Instant;

pub const D01: &[Kind] = &[kind("history", 250, 6000, history), kind("cache", 250, 6000, cache), kind("churn", 120, 3000, churn), kind("onedb", 120, 3000, onedb)];
pub const D02: &[Kind] = &[kind("walk", 240, 6000, walk), kind("big", 24, 600, big), kind("many", 16, 200, many)];

pub fn dead(d: &mut Daemon, dir: &Dir, what: &str) -> String {
    let p = dir.panics().map(|p| format!("; its output: {p}")).unwrap_or_default();
    format!("{what} (the daemon is {}{p})", if d.alive() { "still running" } else { "dead" })
}

fn history(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    concurrent(ctx, r, EVEN, 4)
}
fn cache(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    concurrent(ctx, r, CACHE, 2)
}
fn churn(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    concurrent(ctx, r, CHURN, 2)
}
fn onedb(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    concurrent(ctx, r, ONEDB, 1)
}

fn concurrent(ctx: &mut Ctx, r: &mut Rng, mix: Mix, maxdbs: usize) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &Opts { seed: r.u64(), ..Opts::default() }).map_err(|e| panic_start(&e))?;
    for round in 0..6 {
        let prob = *r.pick(&[0_u32, 30, 150, 600, 600, 2000]);
        let us = *r.pick(&[100_u32, 500, 1500]);
        d.ctl().delay_us.store(us, SeqCst);
        d.ctl().delay_prob.store(prob, SeqCst);
        let ndb = r.range(1, maxdbs);
        let dbs: Vec<String> = (0..ndb).map(|i| format!("h{round}_{i}")).collect();
        let nk = r.range(1, 3);
        let keys: Vec<String> = (0..nk).map(|i| format!("k{i}")).collect();
        let vals = Tagged(*r.pick(&[0_usize, 5, 60]));
        let next = AtomicU32::new(round * 1000 + 1);
        let fresh = || next.fetch_add(1, SeqCst);
        // something to start with: sometimes heavy, so that reading a database takes long
        let mut init = State::new();
        let mut c = Conn::new(d.port).map_err(|e| dead(&mut d, &dir, &e))?;
        for db in &dbs {
            if r.one_in(4) && mix.add_db > 0 {
                continue;
            }
            let mut with: Vec<(String, V)> = keys.iter().take(r.range(0, nk)).map(|k| (k.clone(), fresh())).collect();
            for i in 0..*r.pick(&[0_usize, 0, 3, 12]) {
                with.push((format!("ballast{i}"), fresh()));
            }
            let op = Op::PutDb { db: db.clone(), overwrite: true, with };
            let want = apply(&mut init, &op);
            match perform(&mut c, r, &op, &vals, true) {
                Done::Answer(a) if a == want => {}
                Done::Answer(a) => return Err(format!("{op:?} answered {a:?} instead of {want:?}")),
                Done::Unknown(e) | Done::Wrong(e) => return Err(dead(&mut d, &dir, &e)),
            }
        }
        let nt = r.range(2, 6);
        let per = r.range(4, 72 / nt).min(16);
        let evs: Mutex<Vec<Ev>> = Mutex::new(vec![]);
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let bar = Barrier::new(nt + 1);
        let t0 = Instant::now();
        let port = d.port;
        // threads like to do one thing: reading only, writing only, or anything
        let seeds: Vec<(Rng, u64)> = (0..nt).map(|_| (Rng(r.u64()), r.below(4))).collect();
        let jumps = r.below(3);
        std::thread::scope(|s| {
            for (t, (mut r, role)) in seeds.into_iter().enumerate() {
                let (evs, bad, bar, dbs, keys, vals, fresh) = (&evs, &bad, &bar, &dbs, &keys, &vals, &fresh);
                s.spawn(move || {
                    let c = Conn::new(port);
                    bar.wait();
                    let mut c = match c {
                        Ok(c) => c,
                        Err(e) => {
                            *bad.lock().expect("lock") = Some(e);
                            return;
                        }
                    };
                    let mut mine = vec![];
                    for _ in 0..per {
                        let op = loop {
                            let o = gen::op(&mut r, &mix, dbs, keys, |_| fresh());
                            if role == 0 && o.is_write() && !r.one_in(8) || role == 1 && !o.is_write() && !r.one_in(4) {
                                continue;
                            }
                            break o;
                        };
                        let call = t0.elapsed().as_nanos() as u64;
                        let got = perform(&mut c, &mut r, &op, vals, true);
                        let ret = Some(t0.elapsed().as_nanos() as u64);
                        match got {
                            Done::Answer(mut a) => {
                                if let Ans::Names(n) = &mut a {
                                    n.retain(|n| dbs.contains(n));
                                }
                                mine.push(Ev { thread: t, call, ret, op, ans: Some(a) });
                            }
                            Done::Unknown(e) => {
                                *bad.lock().expect("lock") = Some(format!("{op:?} got no answer: {e}"));
                                break;
                            }
                            Done::Wrong(e) => {
                                *bad.lock().expect("lock") = Some(format!("{op:?}: {e}"));
                                break;
                            }
                        }
                    }
                    evs.lock().expect("lock").extend(mine);
                });
            }
            bar.wait();
            for _ in 0..jumps {
                std::thread::sleep(std::time::Duration::from_micros(r.below(4000)));
                d.jump(11);
            }
        });
        let mut evs = evs.into_inner().expect("lock");
        if let Some(b) = bad.into_inner().expect("lock") {
            return Err(dead(&mut d, &dir, &b));
        }
        // what is left afterwards belongs to the history
        d.ctl().delay_prob.store(0, SeqCst);
        for db in &dbs {
            for _ in 0..2 {
                let op = Op::GetDb { db: db.clone() };
                let call = t0.elapsed().as_nanos() as u64;
                match perform(&mut c, r, &op, &vals, true) {
                    Done::Answer(a) => evs.push(Ev { thread: nt, call, ret: Some(t0.elapsed().as_nanos() as u64), op, ans: Some(a) }),
                    Done::Unknown(e) | Done::Wrong(e) => return Err(dead(&mut d, &dir, &format!("{op:?}: {e}"))),
                }
            }
        }
        let mut overlaps = 0;
        let mut racing = 0;
        for (i, a) in evs.iter().enumerate() {
            for b in &evs[..i] {
                if a.call < b.ret.unwrap_or(0) && b.call < a.ret.unwrap_or(0) {
                    overlaps += 1;
                    if a.op.db() == b.op.db() && (a.op.is_write() || b.op.is_write()) {
                        racing += 1;
                    }
                }
            }
        }
        ctx.count("histories");
        ctx.add("requests", evs.len() as u64);
        ctx.add("overlapping pairs", overlaps);
        ctx.add("overlapping pairs with a change on one database", racing);
        for e in &evs {
            ctx.count(&format!("{} answered", e.op.name()));
        }
        let mut order: Vec<(u64, usize, bool)> = evs.iter().flat_map(|e| [(e.call, e.thread, true), (e.ret.unwrap_or(0), e.thread, false)]).collect();
        order.sort_unstable();
        let shape: Vec<(usize, bool)> = order.iter().map(|x| (x.1, x.2)).collect();
        let mut what: Vec<(u64, &'static str, &Option<Ans>)> = evs.iter().map(|e| (e.call, e.op.name(), &e.ans)).collect();
        what.sort_by_key(|x| x.0);
        let what: Vec<_> = what.into_iter().map(|x| (x.1, x.2)).collect();
        if overlaps > 0 {
            ctx.seen(&(shape, what));
        }
        ctx.sample(|| lin::show(&evs[..evs.len().min(4)]));
        ctx.max("threads", nt as u64);
        match lin::check(&init, &evs) {
            (Verdict::Ok, n) => ctx.max("steps to explain a history", n as u64),
            (Verdict::TooHard, _) => ctx.count("histories too hard to decide"),
            (Verdict::No, _) => return Err(format!("no order of these operations explains the answers; it began as {init:?}\n{}", lin::show(&evs))),
        }
    }
    ctx.add("injected delays", d.ctl().delays.load(SeqCst));
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    Ok(())
}

/// a fresh directory's daemon not starting is the code's fault, too
pub fn panic_start(e: &str) -> String {
    e.to_string()
}

/// One operation against the model
pub fn step(ctx: &mut Ctx, c: &mut Conn, r: &mut Rng, s: &mut State, op: &Op, vals: &dyn Values, plain: bool) -> R {
    let before = s.clone();
    let want = apply(s, op);
    let alt = !plain && r.bool();
    let b = body(r, op, vals, alt);
    let t = op.target(r, plain);
    let chunked = !plain && !b.is_empty() && r.one_in(4);
    c.send(op.method(), &t, &b, chunked)?;
    let rep = c.reply(false)?;
    let got = understand(op, &rep, vals, Some(&before)).map_err(|e| format!("{op:?}: {e}; database {:?}", op.db().map(|d| before.get(d))))?;
    ctx.count(&format!("{} -> {}", op.name(), label(&want)));
    ck!(got == want, "{} {t}: answered {}, expected {}; database was {:?}", op.method(), show_ans(&got), show_ans(&want), op.db().map(|d| before.get(d)));
    Ok(())
}
fn label(a: &Ans) -> String {
    match a {
        Ans::Status(s) => s.to_string(),
        Ans::Added(i) => RESULTS[*i as usize].into(),
        Ans::Val(_) => "value".into(),
        Ans::Db(d) => if d.is_empty() { "empty database" } else { "database" }.into(),
        Ans::Names(_) => "names".into(),
    }
}
fn show_ans(a: &Ans) -> String {
    let s = format!("{a:?}");
    s.chars().take(300).collect()
}

fn walk(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    walking(ctx, r, 150, false)
}
fn big(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    walking(ctx, r, 25, true)
}
fn walking(ctx: &mut Ctx, r: &mut Rng, n: usize, big: bool) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &Opts { seed: r.u64(), ..Opts::default() })?;
    let res = walk_in(ctx, r, n, big, &mut d);
    res.map_err(|e| dead(&mut d, &dir, &e))?;
    ck!(d.alive(), "{}", dead(&mut d, &dir, "the daemon ended by itself"));
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    Ok(())
}
fn walk_in(ctx: &mut Ctx, r: &mut Rng, n: usize, big: bool, d: &mut Daemon) -> R {
    let ndb = r.range(1, 6);
    let mut dbs = db_names(r, ndb);
    if r.one_in(3) {
        dbs.push((*r.pick(&["meta", "é", "a/b", "../x", "日本"])).to_string());
    }
    let nk = r.range(1, 8);
    let keys = keys(r, nk);
    let mut vals = Table::default();
    let mut s = State::new();
    let mut c = Conn::new(d.port)?;
    let mix = *r.pick(&[EVEN, CACHE, CHURN, WRITES]);
    for i in 0..n {
        let op = gen::op(r, &mix, &dbs, &keys, |r| {
            let m = any_value(r, big);
            vals.add(m)
        });
        step(ctx, &mut c, r, &mut s, &op, &vals, false)?;
        ctx.seen(&(op.name(), format!("{:?}", op.params()), h64(&s)));
        if i == 0 {
            ctx.sample(|| format!("{op:?}"));
        }
        if op.is_write() && r.one_in(4) {
            // no other database changed
            let got = read_state(d.port, &vals, Some(&s))?;
            if let Some(x) = state_diff(&s, &got) {
                return Err(format!("after {op:?}: {x}"));
            }
            ctx.count("full comparisons");
        }
        if c.dead {
            c = Conn::new(d.port)?;
        }
        if r.one_in(40) {
            d.jump(11);
        }
        if r.one_in(30) {
            c = Conn::new(d.port)?;
        }
    }
    let got = read_state(d.port, &vals, Some(&s))?;
    if let Some(x) = state_diff(&s, &got) {
        return Err(format!("at the end: {x}"));
    }
    for m in &vals.0 {
        m.kinds(&mut |k| ctx.count(&format!("wrote {k}")));
    }
    Ok(())
}

/// more databases than the cache holds
fn many(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &Opts { seed: r.u64(), ..Opts::default() })?;
    let n = r.range(205, 330);
    let vals = Tagged(10);
    let mut s = State::new();
    let mut next = 0;
    let dbs: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
    let keys: Vec<String> = (0..3).map(|i| format!("k{i}")).collect();
    let mut c = Conn::new(d.port)?;
    let mut run = |ctx: &mut Ctx, r: &mut Rng, c: &mut Conn| -> R {
        for db in &dbs {
            next += 1;
            step(ctx, c, r, &mut s, &Op::PutDb { db: db.clone(), overwrite: true, with: vec![("k0".into(), next)] }, &vals, true)?;
        }
        for round in 0..3 {
            for db in &dbs {
                step(ctx, c, r, &mut s, &Op::GetDb { db: db.clone() }, &vals, true)?;
            }
            for _ in 0..150 {
                let op = gen::op(r, &CACHE, &dbs, &keys, |_| {
                    next += 1;
                    next
                });
                step(ctx, c, r, &mut s, &op, &vals, true)?;
                ctx.seen(&(round, op.name(), h64(&s)));
                if op.is_write() {
                    if let Some(db) = op.db() {
                        step(ctx, c, r, &mut s, &Op::GetDb { db: db.into() }, &vals, true)?;
                    }
                }
            }
        }
        let got = read_state(d.port, &vals, Some(&s))?;
        if let Some(x) = state_diff(&s, &got) {
            return Err(format!("at the end: {x}"));
        }
        Ok(())
    };
    let res = run(ctx, r, &mut c);
    ctx.max("databases at once", n as u64);
    res.map_err(|e| dead(&mut d, &dir, &e))
}
