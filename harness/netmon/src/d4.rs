//! D08: what the client libraries send, and what they make of the answers.
use crate::ck;
use crate::core::*;
use crate::d1::dead;
use crate::daemon::*;
use crate::gen::{self, *};
use crate::http::Conn;
use crate::model::{self, MV};
use crate::spec::*;
use sourisdb::client::{AsyncClient, ClientError, CreationResult, SyncClient};
use sourisdb::store::Store;
use std::collections::BTreeSet;
use std::future::Future;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::runtime::Runtime;

pub const D08: &[Kind] = &[kind("calls", 200, 6000, calls), kind("big", 16, 400, big), kind("shared", 40, 1000, shared), kind("answers", 700, 20000, answers), kind("gone", 24, 600, gone)];

/// What a client method said
#[derive(Debug, Clone)]
enum Out {
    Flag(bool),
    Unit,
    Creation(u8),
    Store(MV),
    NoStore,
    Names(Vec<String>),
    Http(u16),
    Other(String),
    Never,
}
fn err(e: ClientError) -> Out {
    match e {
        ClientError::HttpErrorCode(c) => Out::Http(c.as_u16()),
        ClientError::ServerNotHealthy(c) => Out::Other(format!("not healthy: {c}")),
        e => Out::Other(format!("{e}").chars().take(200).collect()),
    }
}
fn creation(c: CreationResult) -> Out {
    Out::Creation(match c {
        CreationResult::InsertedKeyIntoExistingDB => 0,
        CreationResult::OverwroteKeyInExistingDB => 1,
        CreationResult::FoundExistingKey => 2,
        CreationResult::InsertedKeyIntoNewDB => 3,
        CreationResult::UnableToFindDB => 4,
    })
}
fn store(s: Store) -> Out {
    let mut v = vec![];
    for (k, x) in s.iter() {
        match model::from_value(x) {
            Ok(m) => v.push((k.clone(), m)),
            Err(e) => return Out::Other(e),
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Out::Store(MV::Map(v))
}
fn make_store(with: &[(String, V)], vals: &dyn Values) -> Store {
    Store::new(with.iter().map(|(k, v)| (k.clone(), model::to_value(&vals.get(*v)))))
}

#[derive(Clone)]
enum Cl {
    Sync(SyncClient),
    Async(AsyncClient),
}
struct Rt(Runtime);
impl Rt {
    fn new() -> Rt {
        Rt(tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"))
    }
    fn wait<T>(&self, limit: u64, f: impl Future<Output = T>) -> Option<T> {
        self.0.block_on(async { tokio::time::timeout(Duration::from_secs(limit), f).await.ok() })
    }
}
impl Cl {
    fn new(rt: &Rt, port: u16, is_async: bool) -> Result<Cl, Out> {
        if is_async {
            match rt.wait(40, AsyncClient::new("127.0.0.1", Some(port.into()))) {
                None => Err(Out::Never),
                Some(Ok(c)) => Ok(Cl::Async(c)),
                Some(Err(e)) => Err(err(e)),
            }
        } else {
            SyncClient::new("127.0.0.1", port.into()).map(Cl::Sync).map_err(err)
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Cl::Sync(_) => "sync",
            Cl::Async(_) => "async",
        }
    }
    /// None: there is no such method
    fn call(&self, rt: &Rt, op: &Op, vals: &dyn Values) -> Option<Out> {
        Some(match self {
            Cl::Sync(c) => match op {
                Op::AddDb { db, overwrite } => c.create_new_db(*overwrite, db).map_or_else(err, Out::Flag),
                Op::PutDb { db, overwrite, with } => c.add_db_with_contents(*overwrite, db, &make_store(with, vals)).map_or_else(err, Out::Flag),
                Op::RmDb { db } => c.remove_db(db).map_or_else(err, |()| Out::Unit),
                Op::Add { db, key, v, create, overwrite } => c.add_entry_to_db(db, *create, *overwrite, key, &model::to_value(&vals.get(*v))).map_or_else(err, creation),
                Op::Rm { db, key } => c.remove_entry_from_db(db, key).map_or_else(err, |()| Out::Unit),
                Op::GetDb { db } => c.get_store(db).map_or_else(err, store),
                Op::List => c.get_all_dbs().map_or_else(err, Out::Names),
                Op::Get { .. } | Op::ClearDb { .. } => return None,
            },
            Cl::Async(c) => {
                let f = async {
                    Some(match op {
                        Op::AddDb { db, overwrite } => c.create_new_db(*overwrite, db).await.map_or_else(err, Out::Flag),
                        Op::PutDb { db, overwrite, with } => c.add_db_with_contents(*overwrite, db, &make_store(with, vals)).await.map_or_else(err, Out::Flag),
                        Op::RmDb { db } => c.remove_db(db).await.map_or_else(err, Out::Flag),
                        Op::Add { db, key, v, create, overwrite } => c.add_entry_to_db(db, *create, *overwrite, key, &model::to_value(&vals.get(*v))).await.map_or_else(err, creation),
                        Op::Rm { db, key } => c.remove_entry_from_db(db, key).await.map_or_else(err, |()| Out::Unit),
                        Op::GetDb { db } => c.get_store(db).await.map_or_else(err, |s| s.map_or(Out::NoStore, store)),
                        Op::List => c.get_all_dbs().await.map_or_else(err, Out::Names),
                        Op::Get { .. } | Op::ClearDb { .. } => return None,
                    })
                };
                rt.wait(60, f).unwrap_or(Some(Out::Never))?
            }
        })
    }
    /// what it should say when the daemon does what it should
    fn expect(&self, op: &Op, a: &Ans, vals: &dyn Values) -> Out {
        let sync = matches!(self, Cl::Sync(_));
        match (op, a) {
            (Op::AddDb { .. } | Op::PutDb { .. }, Ans::Status(201)) => Out::Flag(true),
            (Op::AddDb { .. } | Op::PutDb { .. }, Ans::Status(200)) => Out::Flag(false),
            (Op::RmDb { .. }, Ans::Status(200)) => if sync { Out::Unit } else { Out::Flag(true) },
            (Op::RmDb { .. }, Ans::Status(410)) if !sync => Out::Flag(false),
            (Op::Rm { .. }, Ans::Status(200)) => Out::Unit,
            (Op::Rm { .. }, Ans::Status(400 | 410)) if !sync => Out::Unit,
            (Op::GetDb { .. }, Ans::Status(410)) if !sync => Out::NoStore,
            (_, Ans::Status(n)) => Out::Http(*n),
            (_, Ans::Added(n)) => Out::Creation(*n),
            (_, Ans::Db(d)) => Out::Store(MV::Map(d.iter().map(|(k, v)| (k.clone(), vals.get(*v))).collect())),
            (_, Ans::Names(n)) => Out::Names(n.iter().cloned().collect()),
            (_, Ans::Val(_)) => Out::Never,
        }
    }
}
fn out_diff(want: &Out, got: &Out) -> Option<String> {
    match (want, got) {
        (Out::Store(w), Out::Store(g)) => model::diff(w, g).map(|d| format!("store{d}")),
        (Out::Names(w), Out::Names(g)) => {
            let mut g = g.clone();
            g.sort();
            (*w != g).then(|| format!("names {g:?} and not {w:?}"))
        }
        _ => (format!("{want:?}") != format!("{got:?}")).then(|| format!("{} and not {}", cut(got), cut(want))),
    }
}
fn cut(o: &Out) -> String {
    format!("{o:?}").chars().take(400).collect()
}

fn calls(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    calling(ctx, r, 60, false)
}
fn big(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    calling(ctx, r, 16, true)
}
fn calling(ctx: &mut Ctx, r: &mut Rng, n: usize, big: bool) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &Opts { seed: r.u64(), ..Opts::default() })?;
    let res = calling_in(ctx, r, n, big, &mut d);
    res.map_err(|e| dead(&mut d, &dir, &e))?;
    if let Some(p) = dir.panics() {
        return Err(format!("the daemon panicked: {p}"));
    }
    Ok(())
}
fn calling_in(ctx: &mut Ctx, r: &mut Rng, n: usize, big: bool, d: &mut Daemon) -> R {
    let rt = Rt::new();
    let mut cl = vec![];
    for a in [false, true, r.bool()] {
        cl.push(Cl::new(&rt, d.port, a).map_err(|e| format!("the {} client could not be made: {}", if a { "async" } else { "sync" }, cut(&e)))?);
    }
    let k = r.range(1, 5);
    let mut dbs = db_names(r, k);
    if r.one_in(2) {
        dbs.push((*r.pick(&["meta", "é", "a/b", "../x", "日本", "n\0l"])).to_string());
    }
    let nk = r.range(1, 8);
    let keys = keys(r, nk);
    let mut vals = Table::default();
    let mut s = State::new();
    let mix = *r.pick(&[EVEN, CHURN, WRITES]);
    for i in 0..n {
        let op = gen::op(r, &mix, &dbs, &keys, |r| {
            let m = any_value(r, big);
            vals.add(m)
        });
        let c = r.pick(&cl).clone();
        let before = s.clone();
        let want = apply(&mut s, &op);
        let Some(got) = c.call(&rt, &op, &vals) else {
            // these have no method: the daemon is told directly, so that clients find what others did
            let mut raw = Conn::new(d.port)?;
            s = before.clone();
            crate::d1::step(ctx, &mut raw, r, &mut s, &op, &vals, true)?;
            continue;
        };
        let want = c.expect(&op, &want, &vals);
        ctx.seen(&(c.name(), op.name(), format!("{:?}", op.params()), h64(&before)));
        ctx.count(&format!("{} {} {}", c.name(), op.name(), label(&want)));
        if i == 0 {
            ctx.sample(|| format!("{} {op:?} -> {}", c.name(), cut(&want)));
        }
        if let Some(x) = out_diff(&want, &got) {
            return Err(format!("{} client, {op:?}: {x}; database before {:?}", c.name(), op.db().map(|d| before.get(d))));
        }
        if op.is_write() {
            let got = read_state(d.port, &vals, Some(&s))?;
            if let Some(x) = state_diff(&s, &got) {
                return Err(format!("after the {} client's {op:?}: {x}", c.name()));
            }
            ctx.count("full comparisons");
        }
        if r.one_in(30) {
            d.jump(11);
        }
    }
    Ok(())
}
fn label(o: &Out) -> String {
    match o {
        Out::Flag(b) => b.to_string(),
        Out::Unit => "()".into(),
        Out::Creation(i) => RESULTS[*i as usize].into(),
        Out::Store(_) => "store".into(),
        Out::NoStore => "none".into(),
        Out::Names(_) => "names".into(),
        Out::Http(c) => format!("error {c}"),
        Out::Other(_) => "error".into(),
        Out::Never => "no answer".into(),
    }
}

/// clones of one client in several threads: answers don't get mixed up
fn shared(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &Opts { seed: r.u64(), ..Opts::default() })?;
    d.ctl().delay_us.store(500, SeqCst);
    d.ctl().delay_prob.store(*r.pick(&[0, 50, 300]), SeqCst);
    let rt = Rt::new();
    let is_async = r.bool();
    let cl = Cl::new(&rt, d.port, is_async).map_err(|e| format!("the client could not be made: {}", cut(&e)))?;
    let nt = r.range(2, 6);
    let per = 25;
    let vals = Tagged(40);
    let seeds: Vec<Rng> = (0..nt).map(|_| Rng(r.u64())).collect();
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let one = |t: usize, mut r: Rng| {
        // everyone has databases of their own, so that the answers are known
        let dbs: Vec<String> = (0..2).map(|i| format!("own{t} &{i}")).collect();
        let keys: Vec<String> = (0..3).map(|i| format!("k{i}")).collect();
        let mut s = State::new();
        let mut next = t as u32 * 1000;
        let mut steps = vec![];
        while steps.len() < per {
            let op = gen::op(&mut r, &EVEN, &dbs, &keys, |_| {
                next += 1;
                next
            });
            if matches!(op, Op::Get { .. } | Op::ClearDb { .. } | Op::List) {
                continue;
            }
            let a = apply(&mut s, &op);
            steps.push((op, a));
        }
        steps
    };
    let scripts: Vec<_> = seeds.into_iter().enumerate().map(|(t, r)| one(t, r)).collect();
    if let (true, Cl::Async(c)) = (is_async, &cl) {
        // all on one connection pool and one thread, in flight together
        let f = async {
            let mut js = vec![];
            let local = tokio::task::LocalSet::new();
            for sc in scripts.clone() {
                let c = c.clone();
                js.push(local.spawn_local(async move {
                    let vals = Tagged(40);
                    for (op, a) in sc {
                        let o = match &op {
                            Op::AddDb { db, overwrite } => c.create_new_db(*overwrite, db).await.map_or_else(err, Out::Flag),
                            Op::PutDb { db, overwrite, with } => c.add_db_with_contents(*overwrite, db, &make_store(with, &vals)).await.map_or_else(err, Out::Flag),
                            Op::RmDb { db } => c.remove_db(db).await.map_or_else(err, Out::Flag),
                            Op::Add { db, key, v, create, overwrite } => c.add_entry_to_db(db, *create, *overwrite, key, &model::to_value(&vals.get(*v))).await.map_or_else(err, creation),
                            Op::Rm { db, key } => c.remove_entry_from_db(db, key).await.map_or_else(err, |()| Out::Unit),
                            Op::GetDb { db } => c.get_store(db).await.map_or_else(err, |s| s.map_or(Out::NoStore, store)),
                            _ => continue,
                        };
                        let want = Cl::Async(c.clone()).expect(&op, &a, &vals);
                        if let Some(x) = out_diff(&want, &o) {
                            return Some(format!("clones of an async client at work together, {op:?}: {x}"));
                        }
                    }
                    None
                }));
            }
            local.await;
            for j in js {
                match j.await {
                    Ok(None) => {}
                    Ok(Some(b)) => bad.lock().expect("lock").push(b),
                    Err(e) => bad.lock().expect("lock").push(format!("a task of the async client ended with {e}")),
                }
            }
        };
        if rt.wait(100, f).is_none() {
            bad.lock().expect("lock").push("async calls never ended".into());
        }
    } else {
        std::thread::scope(|sc| {
            for steps in &scripts {
                let (cl, bad, vals) = (cl.clone(), &bad, &vals);
                sc.spawn(move || {
                    let rt = Rt::new();
                    for (op, a) in steps {
                        let want = cl.expect(op, a, vals);
                        let got = cl.call(&rt, op, vals).unwrap_or(Out::Never);
                        if let Some(x) = out_diff(&want, &got) {
                            bad.lock().expect("lock").push(format!("clones of a {} client in several threads, {op:?}: {x}", cl.name()));
                            return;
                        }
                    }
                });
            }
        });
    }
    ctx.add("calls through clones at once", (nt * per) as u64);
    ctx.count(if is_async { "async clones" } else { "sync clones" });
    ctx.seen(&(is_async, h64(&scripts.iter().map(|s| s.iter().map(|x| x.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>())));
    let bad = bad.into_inner().expect("lock");
    if let Some(b) = bad.first() {
        return Err(dead(&mut d, &dir, b));
    }
    Ok(())
}

/// clients of a daemon that is not there any more
fn gone(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let dir = Dir::new();
    let mut d = Daemon::start(&dir, &Opts { seed: r.u64(), ..Opts::default() })?;
    let rt = Rt::new();
    let vals = Tagged(5);
    let cl = Cl::new(&rt, d.port, idx % 2 == 0).map_err(|e| format!("the client could not be made: {}", cut(&e)))?;
    let mk = |i: u32| Op::Add { db: "a".into(), key: "k".into(), v: i, create: true, overwrite: true };
    match cl.call(&rt, &mk(1), &vals) {
        Some(Out::Creation(3)) => {}
        o => return Err(format!("{} client, adding to a new database: {o:?}", cl.name())),
    }
    let port = d.port;
    if r.bool() {
        d.kill();
    } else {
        d.stop(libc::SIGTERM)?;
    }
    for i in 0..6 {
        let op = all_ops(i, r);
        match cl.call(&rt, &op, &vals) {
            Some(Out::Other(_)) => ctx.count("calls without a daemon refused"),
            o => return Err(format!("{} client, {op:?} without a daemon: {o:?}", cl.name())),
        }
        ctx.seen(&(cl.name(), op.name()));
    }
    match Cl::new(&rt, port, idx % 2 == 0) {
        Err(Out::Other(_)) => Ok(()),
        Err(e) => Err(format!("a client without a daemon: {}", cut(&e))),
        Ok(_) => Err("a client was made without a daemon".into()),
    }
}
fn all_ops(i: u64, r: &mut Rng) -> Op {
    let db = db_names(r, 1).remove(0);
    let key = keys(r, 1).remove(0);
    match i % 7 {
        0 => Op::AddDb { db, overwrite: r.bool() },
        1 => Op::PutDb { db, overwrite: r.bool(), with: (0..r.below(4) as u32).map(|v| (format!("k{v}"), v)).collect() },
        2 => Op::RmDb { db },
        3 => Op::Add { db, key, v: r.below(1000) as u32, create: r.bool(), overwrite: r.bool() },
        4 => Op::Rm { db, key },
        5 => Op::GetDb { db },
        _ => Op::List,
    }
}

// ---------------------------------------------------------------- a server that answers what it is told

#[derive(Clone, Debug)]
struct Script {
    status: u16,
    body: Vec<u8>,
    how: How,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// complete, with its length
    Length,
    Chunked,
    /// until the end of the connection
    Close,
    /// complete, in small pieces
    Dribble,
    /// the connection ends after so many bytes of the body
    Cut(usize),
    CutChunked(usize),
    /// the connection ends without an answer
    Nothing,
    HalfHead,
    Reset,
}
struct Seen {
    method: String,
    target: String,
    body: Vec<u8>,
}
struct Fake {
    port: u16,
    script: Arc<Mutex<Script>>,
    seen: Arc<Mutex<Vec<Seen>>>,
    stop: Arc<AtomicBool>,
    t: Option<std::thread::JoinHandle<()>>,
}
impl Fake {
    fn new(script: Script) -> Fake {
        let l = TcpListener::bind("127.0.0.1:0").expect("listen");
        let port = l.local_addr().expect("port").port();
        let (script, seen, stop) = (Arc::new(Mutex::new(script)), Arc::new(Mutex::new(vec![])), Arc::new(AtomicBool::new(false)));
        let (a, b, c) = (script.clone(), seen.clone(), stop.clone());
        let t = std::thread::spawn(move || {
            for s in l.incoming() {
                if c.load(SeqCst) {
                    break;
                }
                let Ok(s) = s else { continue };
                let (a, b) = (a.clone(), b.clone());
                std::thread::spawn(move || serve(s, &a, &b));
            }
        });
        Fake { port, script, seen, stop, t: Some(t) }
    }
}
impl Drop for Fake {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(t) = self.t.take() {
            let _ = t.join();
        }
    }
}
fn serve(mut s: TcpStream, script: &Mutex<Script>, seen: &Mutex<Vec<Seen>>) {
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_secs(60)));
    let mut buf = vec![];
    loop {
        let Some(q) = request(&mut s, &mut buf) else { return };
        let health = q.target == "/healthcheck" ;
        seen.lock().expect("lock").push(q);
        let sc = script.lock().expect("lock").clone();
        let sc = if health && sc.status != 0 && !matches!(sc.how, How::Length if sc.body == b"HEALTH") { Script { status: 200, body: vec![], how: How::Length } } else { sc };
        let reason = "Because";
        let head = |extra: &str| format!("HTTP/1.1 {} {reason}\r\nContent-Type: application/octet-stream\r\n{extra}\r\n", sc.status);
        let n = sc.body.len();
        let ok = match sc.how {
            How::Length => s.write_all(&[head(&format!("Content-Length: {n}\r\n")).as_bytes(), &sc.body].concat()).is_ok(),
            How::Chunked => {
                let mut m = head("Transfer-Encoding: chunked\r\n").into_bytes();
                for c in sc.body.chunks(7.max(n / 5)) {
                    m.extend(format!("{:x}\r\n", c.len()).bytes());
                    m.extend(c);
                    m.extend(b"\r\n");
                }
                m.extend(b"0\r\n\r\n");
                s.write_all(&m).is_ok()
            }
            How::Dribble => {
                let mut ok = s.write_all(head(&format!("Content-Length: {n}\r\n")).as_bytes()).is_ok();
                let at = [1, 2, n / 3, n / 2, n.saturating_sub(1), n];
                let mut p = 0;
                for a in at {
                    if a > p {
                        std::thread::sleep(Duration::from_millis(2));
                        ok &= s.write_all(&sc.body[p..a.min(n)]).is_ok();
                        p = a.min(n);
                    }
                }
                ok
            }
            How::Close => {
                let _ = s.write_all(&[head("Connection: close\r\n").as_bytes(), &sc.body].concat());
                false
            }
            How::Cut(k) => {
                let _ = s.write_all(&[head(&format!("Content-Length: {n}\r\n")).as_bytes(), &sc.body[..k]].concat());
                false
            }
            How::CutChunked(k) => {
                let mut m = head("Transfer-Encoding: chunked\r\n").into_bytes();
                if k > 0 {
                    m.extend(format!("{k:x}\r\n").bytes());
                    m.extend(&sc.body[..k]);
                    m.extend(b"\r\n");
                }
                let _ = s.write_all(&m);
                false
            }
            How::HalfHead => {
                let _ = s.write_all(format!("HTTP/1.1 {} Bec", sc.status).as_bytes());
                false
            }
            How::Nothing => false,
            How::Reset => {
                unsafe {
                    use std::os::fd::AsRawFd;
                    let l = libc::linger { l_onoff: 1, l_linger: 0 };
                    libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, (&raw const l).cast(), 8);
                }
                false
            }
        };
        if !ok {
            return;
        }
    }
}
fn request(s: &mut TcpStream, buf: &mut Vec<u8>) -> Option<Seen> {
    let mut t = [0; 65536];
    let mut more = |buf: &mut Vec<u8>| -> Option<()> {
        match s.read(&mut t) {
            Ok(n) if n > 0 => {
                buf.extend_from_slice(&t[..n]);
                Some(())
            }
            _ => None,
        }
    };
    let end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i + 4;
        }
        more(buf)?;
    };
    let head = String::from_utf8_lossy(&buf[..end]).into_owned();
    buf.drain(..end);
    let mut first = head.lines().next()?.split(' ');
    let (method, target) = (first.next()?.to_string(), first.next()?.to_string());
    let low = head.to_ascii_lowercase();
    let mut body = vec![];
    if low.contains("transfer-encoding: chunked") {
        loop {
            let i = loop {
                if let Some(i) = buf.windows(2).position(|w| w == b"\r\n") {
                    break i;
                }
                more(buf)?;
            };
            let n = usize::from_str_radix(std::str::from_utf8(&buf[..i]).ok()?.trim(), 16).ok()?;
            buf.drain(..i + 2);
            while buf.len() < n + 2 {
                more(buf)?;
            }
            body.extend(buf.drain(..n));
            buf.drain(..2);
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = low.lines().find_map(|l| l.strip_prefix("content-length:")).and_then(|v| v.trim().parse::<usize>().ok()) {
        while buf.len() < n {
            more(buf)?;
        }
        body.extend(buf.drain(..n));
    }
    Some(Seen { method, target, body })
}
fn unquery(t: &str) -> (String, Vec<(String, String)>) {
    let (p, q) = t.split_once('?').unwrap_or((t, ""));
    let un = |s: &str| {
        let b = s.as_bytes();
        let (mut o, mut i) = (vec![], 0);
        while i < b.len() {
            match b[i] {
                b'%' if i + 2 < b.len() + 0 && std::str::from_utf8(&b[i + 1..i + 3]).is_ok_and(|h| u8::from_str_radix(h, 16).is_ok()) => {
                    o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("0"), 16).unwrap_or(0));
                    i += 3;
                }
                b'+' => {
                    o.push(b' ');
                    i += 1;
                }
                x => {
                    o.push(x);
                    i += 1;
                }
            }
        }
        String::from_utf8_lossy(&o).into_owned()
    };
    let mut v: Vec<(String, String)> = q.split('&').filter(|s| !s.is_empty()).map(|s| s.split_once('=').map_or((un(s), String::new()), |(k, v)| (un(k), un(v)))).collect();
    v.sort();
    (p.to_string(), v)
}

fn answers(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let rt = Rt::new();
    let mut vals = Table::default();
    for _ in 0..1000 {
        let m = if vals.0.len() < 8 { any_value(r, false) } else { num(vals.0.len() as i128) };
        vals.add(m);
    }
    let is_async = idx % 2 == 0;
    // ---- being made
    if r.one_in(8) {
        let status = *r.pick(&[201_u16, 204, 400, 404, 410, 500, 502, 503]);
        let f = Fake::new(Script { status, body: b"HEALTH".to_vec(), how: How::Length });
        let how = *r.pick(&[How::Length, How::Length, How::Nothing, How::HalfHead, How::Reset]);
        *f.script.lock().expect("lock") = Script { status: if how == How::Length { status } else { 0 }, body: if status == 204 { vec![] } else { b"HEALTH".to_vec() }, how };
        if how == How::Length && status == 204 {
            return Ok(());
        }
        let c = Cl::new(&rt, f.port, is_async);
        ctx.count("clients refused");
        ctx.seen(&(is_async, status, format!("{how:?}")));
        return match c {
            Ok(_) => Err(format!("a client was made although the health check answered {status} {how:?}")),
            Err(Out::Never) => Err("making a client never ended".into()),
            Err(_) => Ok(()),
        };
    }
    let f = Fake::new(Script { status: 200, body: vec![], how: How::Length });
    let c = Cl::new(&rt, f.port, is_async).map_err(|e| format!("a client of a healthy server: {}", cut(&e)))?;
    f.seen.lock().expect("lock").clear();
    for _ in 0..4 {
        let i = r.u64();
        let op = all_ops(i, r);
        // a good answer, from which the bad ones are made
        let (status, body, good) = match &op {
            Op::AddDb { .. } | Op::PutDb { .. } => {
                let b = r.bool();
                (if b { 201 } else { 200 }, vec![], Out::Flag(b))
            }
            Op::RmDb { .. } => (200, vec![], if is_async { Out::Flag(true) } else { Out::Unit }),
            Op::Rm { .. } => (200, vec![], Out::Unit),
            Op::Add { .. } => {
                let i = r.below(5) as u8;
                (200, format!("{:?}", RESULTS[i as usize]).into_bytes(), Out::Creation(i))
            }
            Op::GetDb { .. } => {
                let n = r.range(0, 6);
                let w: Vec<(String, MV)> = (0..n).map(|i| (format!("k{i}"), vals.get(r.below(8) as u32))).collect();
                (200, ser_store(r, &w, r.clone().bool()), Out::Store(MV::Map(w)))
            }
            _ => {
                let n = r.range(0, 5);
                let v: BTreeSet<String> = db_names(r, n).into_iter().collect();
                let v: Vec<String> = v.into_iter().collect();
                (200, serde_json::to_vec(&v).expect("json"), Out::Names(v))
            }
        };
        let reads = matches!(op, Op::Add { .. } | Op::GetDb { .. } | Op::List);
        let n = body.len();
        // (status, body, how, what it should be: None is any error)
        let (sc, want) = match r.below(6) {
            0 | 1 => {
                let mut hows = vec![How::Length, How::Chunked, How::Dribble];
                if reads {
                    hows.push(How::Close);
                }
                let how = *r.pick(&hows);
                (Script { status, body: body.clone(), how }, Some(good))
            }
            2 => {
                // a failure is one whatever comes with it
                let code = *r.pick(&[400_u16, 401, 403, 404, 405, 409, 410, 413, 418, 429, 500, 501, 502, 503, 504]);
                let b = match r.below(4) {
                    0 => vec![],
                    1 => body.clone(),
                    2 => b"\"InsertedKeyIntoExistingDB\"".to_vec(),
                    _ => b"broken".to_vec(),
                };
                let want = match (&op, code, is_async) {
                    (Op::GetDb { .. }, 410, true) => Some(Out::NoStore),
                    (Op::RmDb { .. }, 410, true) => Some(Out::Flag(false)),
                    (Op::Rm { .. }, 410, true) => Some(Out::Unit),
                    _ => Some(Out::Http(code)),
                };
                (Script { status: code, body: b, how: *r.pick(&[How::Length, How::Chunked]) }, want)
            }
            3 if is_async && matches!(op, Op::Rm { .. }) => (Script { status: 400, body: b"KeyNotFound".to_vec(), how: How::Length }, Some(Out::Unit)),
            3 | 4 if reads && n > 0 => {
                let k = r.us(n);
                (Script { status, body: body.clone(), how: if r.bool() { How::Cut(k) } else { How::CutChunked(k) } }, None)
            }
            3 | 4 if reads => continue,
            5 if reads && r.bool() => {
                let b = r.pick(&[&b""[..], b"hello", b"{", b"[1,2", b"\"Nothing\"", b"<html>", b"null", b"\0\0\0\0\0\0\0\0", b"[[\"x\"]]", b"{\"a\":1}"]).to_vec();
                (Script { status, body: b, how: How::Length }, None)
            }
            _ => (Script { status, body: body.clone(), how: *r.pick(&[How::Nothing, How::HalfHead, How::Reset]) }, None),
        };
        ctx.count(&format!("answer {}", match &sc.how { How::Cut(_) => "cut".into(), How::CutChunked(_) => "cut in chunks".into(), h => format!("{h:?}") }));
        ctx.seen(&(is_async, op.name(), sc.status, format!("{:?}", sc.how), h64(&sc.body)));
        let what = format!("{} client, {op:?}, answered {} {:?} {:?}", c.name(), sc.status, sc.how, String::from_utf8_lossy(&sc.body).chars().take(60).collect::<String>());
        let sent_whole = matches!(sc.how, How::Length | How::Chunked | How::Dribble | How::Close);
        *f.script.lock().expect("lock") = sc;
        let got = c.call(&rt, &op, &vals).unwrap_or(Out::Never);
        match (&want, &got) {
            (_, Out::Never) => return Err(format!("{what}: never ended")),
            (None, Out::Other(_)) => ctx.count("bad answers refused"),
            // one that failed is not one that was missing
            (None, g) => return Err(format!("{what}: {} and no error", cut(g))),
            (Some(w), g) => {
                if let Some(x) = out_diff(w, g) {
                    return Err(format!("{what}: {x}"));
                }
                ctx.count(&format!("{} {} {}", c.name(), op.name(), label(w)));
            }
        }
        // ---- what was sent
        let seen = std::mem::take(&mut *f.seen.lock().expect("lock"));
        ck!(!seen.is_empty(), "{what}: no request was sent");
        ck!(!sent_whole || seen.len() == 1, "{what}: {} requests were sent", seen.len());
        for q in &seen {
            let (path, params) = unquery(&q.target);
            let mut want: Vec<(String, String)> = op.params().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
            want.sort();
            ck!(path == format!("/v1/{}", op.name()) && q.method == op.method(), "{what}: sent {} {}", q.method, q.target);
            ck!(params == want, "{what}: sent {params:?}");
            match &op {
                Op::Add { v, .. } => {
                    let m = de_value(&q.body).map_err(|e| format!("{what}: the body sent doesn't decode: {e}"))?;
                    if let Some(x) = model::diff(&vals.get(*v), &m) {
                        return Err(format!("{what}: sent another value{x}"));
                    }
                }
                Op::PutDb { with, .. } => {
                    let want: Db = with.iter().cloned().collect();
                    let d = de_db(&q.body, &vals, Some(&want)).map_err(|e| format!("{what}: the body sent: {e}"))?;
                    if let Some(x) = db_diff(&want, &d) {
                        return Err(format!("{what}: sent another store: {x}"));
                    }
                }
                _ => ck!(q.body.is_empty(), "{what}: sent a body"),
            }
            ctx.count("requests inspected");
        }
    }
    Ok(())
}
