//! C17: the library in an axum server: what extractors hand to a handler and what its answers become.
use crate::ck;
use crate::core::*;
use crate::http::*;
use crate::model::{self, Cfg, MV};
use crate::refcodec;
use crate::spec::{de_value, ser_store, ser_value};
use axum::body::Body;
use axum::extract::{DefaultBodyLimit, FromRequest, Request, State};
use axum::http::StatusCode;
use axum::response::{IntoResponse, Response};
use axum::routing::put;
use axum::Router;
use sourisdb::axum::SourisRejection;
use sourisdb::store::Store;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

pub const C17: &[Kind] = &[kind("direct", 24_000, 700_000, direct), kind("served", 16_000, 400_000, served), kind("limits", 3_000, 60_000, limits), kind("broken", 3_000, 60_000, broken)];

const LIMIT: usize = 5000;

#[derive(Default)]
struct Seen {
    calls: AtomicU64,
    value: Mutex<Option<Result<MV, String>>>,
    store: Mutex<Option<Result<MV, String>>>,
}
fn as_model(s: &Store) -> Result<MV, String> {
    let mut v = vec![];
    for (k, x) in s.iter() {
        v.push((k.clone(), model::from_value(x)?));
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(MV::Map(v))
}
async fn echo_value(State(s): State<Arc<Seen>>, v: Value) -> Value {
    s.calls.fetch_add(1, SeqCst);
    *s.value.lock().expect("lock") = Some(model::from_value(&v));
    v
}
async fn echo_store(State(s): State<Arc<Seen>>, v: Store) -> Store {
    s.calls.fetch_add(1, SeqCst);
    *s.store.lock().expect("lock") = Some(as_model(&v));
    v
}
/// a handler that looks at the refusal itself
async fn report_value(State(s): State<Arc<Seen>>, v: Result<Value, SourisRejection>) -> Response {
    match v {
        Ok(v) => {
            s.calls.fetch_add(1, SeqCst);
            *s.value.lock().expect("lock") = Some(model::from_value(&v));
            (StatusCode::ACCEPTED, v).into_response()
        }
        Err(e) => (StatusCode::IM_A_TEAPOT, format!("{}|{e}|{}", e.status().as_u16(), e.body_text())).into_response(),
    }
}
struct Server {
    rt: tokio::runtime::Runtime,
    port: u16,
    seen: Arc<Seen>,
}
fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().expect("runtime");
        let l = rt.block_on(tokio::net::TcpListener::bind("127.0.0.1:0")).expect("listener");
        let port = l.local_addr().expect("address").port();
        let seen = Arc::new(Seen::default());
        let app = Router::new()
            .route("/value", put(echo_value))
            .route("/store", put(echo_store))
            .route("/report", put(report_value))
            .layer(DefaultBodyLimit::disable())
            .merge(Router::new().route("/small/value", put(echo_value)).route("/small/store", put(echo_store)).layer(DefaultBodyLimit::max(LIMIT)))
            .with_state(seen.clone());
        rt.spawn(async move {
            let _ = axum::serve(l, app).await;
        });
        Server { rt, port, seen }
    })
}
fn gen_any(r: &mut Rng) -> MV {
    let c = Cfg { depth: 3, width: 4, text: 40, bin: 60, jsonable: false, leap_anywhere: true, nan: true };
    model::gen_value(r, &c)
}
/// a value or a store, and its bytes
fn thing(r: &mut Rng, store: bool) -> (MV, Vec<u8>) {
    if store {
        let n = r.range(0, 6);
        let c = Cfg { depth: 2, width: 4, text: 40, bin: 60, jsonable: false, leap_anywhere: true, nan: true };
        let mut e = model::gen_entries(r, &c, n);
        e.sort_by(|a, b| a.0.cmp(&b.0));
        let alt = r.bool();
        let b = ser_store(r, &e, alt);
        (MV::Map(e), b)
    } else {
        let m = gen_any(r);
        let alt = r.bool();
        let b = ser_value(r, &m, alt);
        (m, b)
    }
}
fn sorted(m: MV) -> MV {
    match m {
        MV::Map(mut e) => {
            e.sort_by(|a, b| a.0.cmp(&b.0));
            MV::Map(e)
        }
        m => m,
    }
}
fn hurt(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        match r.below(6) {
            0 => b.truncate(r.us(b.len().max(1))),
            1 if !b.is_empty() => {
                let i = r.us(b.len());
                b[i] ^= 1 << r.below(8);
            }
            2 if !b.is_empty() => {
                let i = r.us(b.len());
                b[i] = r.byte();
            }
            3 if !b.is_empty() => {
                b.remove(r.us(b.len()));
            }
            4 => {
                let i = r.us(b.len() + 1);
                b.insert(i, r.byte());
            }
            _ => {
                let n = r.range(0, 30);
                *b = r.bytes(n);
            }
        }
    }
}
/// What the library itself makes of the bytes. None: undecided, as bytes are left over
fn reading(b: &[u8], store: bool) -> Option<Result<MV, String>> {
    if store {
        return Some(match Store::deser(b) {
            Ok(s) => as_model(&s),
            Err(e) => Err(e.to_string()),
        });
    }
    let v = b.to_vec();
    let mut c = Cursor::new(&v);
    match Value::deser(&mut c, None) {
        Ok(v) => {
            if c.pos() == b.len() {
                Some(model::from_value(&v))
            } else {
                None
            }
        }
        Err(e) => Some(Err(e.to_string())),
    }
}
fn body_model(b: &[u8], store: bool) -> Result<MV, String> {
    if store {
        refcodec::store(b).map(|x| sorted(x.0))
    } else {
        de_value(b)
    }
}
fn eq(want: &MV, got: &MV, what: &str) -> R {
    match model::diff(&sorted(want.clone()), &sorted(got.clone())) {
        None => Ok(()),
        Some(d) => Err(format!("{what}{d}")),
    }
}

/// Extractors and responses by themselves, with bodies that arrive in pieces or fail.
fn direct(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let store = r.bool();
    let (m, mut b) = thing(r, store);
    let hurt_it = r.one_in(3);
    if hurt_it {
        hurt(r, &mut b);
    }
    let fails = r.one_in(8);
    let mut parts: Vec<Result<Vec<u8>, std::io::Error>> = vec![];
    let mut rest = &b[..];
    while !rest.is_empty() {
        if r.one_in(5) {
            parts.push(Ok(vec![]));
        }
        let n = r.range(1, rest.len());
        parts.push(Ok(rest[..n].to_vec()));
        rest = &rest[n..];
    }
    if fails {
        let at = r.us(parts.len() + 1);
        parts.insert(at, Err(std::io::Error::other("the other side is gone")));
    }
    let n = parts.len();
    let body = if n == 1 && !fails && r.bool() { Body::from(b.clone()) } else { Body::from_stream(futures_util::stream::iter(parts)) };
    let mut req = Request::builder().method("PUT").uri("/x");
    if r.bool() {
        req = req.header("content-type", *r.pick(&["application/json", "text/plain", "application/octet-stream", "nonsense"]));
    }
    let req = req.body(body).expect("request");
    let rt = &server().rt;
    let got: Result<(MV, Response), SourisRejection> = if store {
        rt.block_on(Store::from_request(req, &())).map(|s| (as_model(&s).unwrap_or(MV::Null), s.into_response()))
    } else {
        rt.block_on(Value::from_request(req, &())).map(|v| (model::from_value(&v).unwrap_or(MV::Null), v.into_response()))
    };
    ctx.seen(&(&b, store, n));
    let what = format!("a {} of {} bytes {} in {n} pieces", if store { "store" } else { "value" }, b.len(), model::hex(&b[..b.len().min(60)]));
    if fails {
        let Err(e) = got else { return Err(format!("{what}, whose body failed, was extracted")) };
        ck!(matches!(e, SourisRejection::CouldNotGetBytes(_)), "{what}, whose body failed, was refused with {e}");
        ctx.count("failing bodies refused");
        return refusal(rt, e, 400, &what);
    }
    match (reading(&b, store), got) {
        (None, _) => {
            ctx.count("bytes left over, not judged");
            Ok(())
        }
        (Some(Ok(w)), Ok((g, resp))) => {
            if !hurt_it {
                eq(&m, &w, "the library reads something else: ")?;
            }
            eq(&w, &g, &format!("{what} was extracted as something else: "))?;
            ck!(resp.status() == StatusCode::OK, "{what} became a response with {}", resp.status());
            let out = rt.block_on(axum::body::to_bytes(resp.into_body(), usize::MAX)).map_err(|e| format!("{what}: {e}"))?;
            let back = body_model(&out, store).map_err(|e| format!("{what} became a response that does not decode: {e}"))?;
            eq(&w, &back, &format!("{what} became a response with something else: "))?;
            ctx.count(if store { "stores carried" } else { "values carried" });
            Ok(())
        }
        (Some(Err(_)), Err(e)) => {
            ck!(if store { matches!(e, SourisRejection::Store(_)) } else { matches!(e, SourisRejection::Value(_)) }, "{what} was refused with {e}");
            ctx.count("bad bodies refused");
            refusal(rt, e, 400, &what)
        }
        (Some(Ok(_)), Err(e)) => Err(format!("{what} was refused although it decodes: {e}")),
        (Some(Err(e)), Ok((g, _))) => Err(format!("{what} was extracted as {} although it does not decode: {e}", model::show(&g))),
    }
}
fn refusal(rt: &tokio::runtime::Runtime, e: SourisRejection, status: u16, what: &str) -> R {
    let (st, text, shown) = (e.status().as_u16(), e.body_text(), e.to_string());
    ck!(st == status, "{what}: refused with status {st}, not {status}");
    ck!(!text.is_empty() && text == shown, "{what}: refused with {text:?}, shown as {shown:?}");
    let resp = e.into_response();
    ck!(resp.status().as_u16() == status, "{what}: the refusal became a response with {}", resp.status());
    let out = rt.block_on(axum::body::to_bytes(resp.into_body(), usize::MAX)).map_err(|e| format!("{what}: {e}"))?;
    ck!(out == text.as_bytes(), "{what}: the refusal {text:?} became {:?}", String::from_utf8_lossy(&out));
    Ok(())
}

thread_local! {
    static CONN: std::cell::RefCell<Option<Conn>> = const { std::cell::RefCell::new(None) };
}
fn call(r: &mut Rng, path: &str, b: &[u8], chunked: bool) -> Result<Reply, String> {
    CONN.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().is_none_or(|c| c.dead) || r.one_in(50) {
            *c = Some(Conn::new(server().port)?);
        }
        let k = c.as_mut().expect("connection");
        let res = k.send("PUT", path, b, chunked).and_then(|()| k.reply(false));
        // what comes after a body that was not read is lost
        if res.is_err() || res.as_ref().is_ok_and(|r| r.status == 413) {
            *c = None;
        }
        res
    })
}
/// Through a server, as a user would have it.
fn served(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let (path, store) = *r.pick(&[("/value", false), ("/store", true), ("/report", false)]);
    let (m, mut b) = thing(r, store);
    if r.one_in(3) {
        hurt(r, &mut b);
    }
    let chunked = r.bool() && !b.is_empty();
    let s = &server().seen;
    let before = s.calls.load(SeqCst);
    *s.value.lock().expect("lock") = None;
    *s.store.lock().expect("lock") = None;
    let what = format!("PUT {path} with {} bytes {} (chunked {chunked})", b.len(), model::hex(&b[..b.len().min(60)]));
    let rep = call(r, path, &b, chunked).map_err(|e| format!("{what}: {e}"))?;
    let calls = s.calls.load(SeqCst) - before;
    ctx.seen(&(&b, path));
    let seen = if store { s.store.lock().expect("lock").take() } else { s.value.lock().expect("lock").take() };
    match reading(&b, store) {
        None => {
            ctx.count("bytes left over, not judged");
            Ok(())
        }
        Some(Ok(w)) => {
            let ok = if path == "/report" { 202 } else { 200 };
            ck!(rep.status == ok, "{what} was answered {} {:?}", rep.status, String::from_utf8_lossy(&rep.body));
            ck!(calls == 1, "{what}: the handler ran {calls} times");
            let h = seen.ok_or_else(|| format!("{what}: the handler saw nothing"))??;
            eq(&w, &h, &format!("{what}: the handler saw something else: "))?;
            let back = body_model(&rep.body, store).map_err(|e| format!("{what}: the answer does not decode: {e}"))?;
            eq(&w, &back, &format!("{what}: the answer is something else: "))?;
            ctx.count("requests answered");
            ctx.sample(|| what.clone());
            Ok(())
        }
        Some(Err(why)) => {
            ck!(calls == 0 && seen.is_none(), "{what}: the handler ran although the body does not decode: {why}");
            let text = String::from_utf8_lossy(&rep.body).into_owned();
            if path == "/report" {
                ck!(rep.status == 418 && text.starts_with("400|") && text.len() > 6, "{what} was reported as {} {text:?}", rep.status);
            } else {
                ck!(rep.status == 400 && !text.is_empty(), "{what} was answered {} {text:?}", rep.status);
            }
            ctx.count("bad requests refused");
            Ok(())
        }
    }
}
/// The limit on bodies that axum has is respected, to the byte.
fn limits(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let store = r.bool();
    let path = if store { "/small/store" } else { "/small/value" };
    let want = match r.below(4) {
        0 => LIMIT,
        1 => LIMIT + 1,
        2 => LIMIT - 1,
        _ => r.range(LIMIT - 100, LIMIT + 100),
    };
    // raw bytes need the place they have
    let mut n = want - 12;
    let (m, b) = loop {
        let raw = MV::Bin(r.bytes(n));
        let (m, b) = if store {
            let e = vec![("k".to_string(), raw)];
            let b = ser_store(r, &e, false);
            (MV::Map(e), b)
        } else {
            let b = ser_value(r, &raw, false);
            (raw, b)
        };
        if b.len() == want || n + 200 < want {
            break (m, b);
        }
        if b.len() > want { n -= 1 } else { n += 1 }
        if r.one_in(60) {
            break (m, b);
        }
    };
    let chunked = r.bool();
    let s = &server().seen;
    let before = s.calls.load(SeqCst);
    let what = format!("PUT {path} with {} bytes (chunked {chunked})", b.len());
    let rep = call(r, path, &b, chunked);
    ctx.seen(&(b.len(), store, chunked));
    if b.len() > LIMIT {
        // it may hang up on what it won't read
        match rep {
            Ok(rep) => {
                ck!(rep.status == 413, "{what} was answered {}", rep.status);
                ctx.count("too big, refused");
            }
            Err(_) => ctx.count("too big, hung up"),
        }
        ck!(s.calls.load(SeqCst) == before, "{what}: the handler ran");
        return Ok(());
    }
    let rep = rep.map_err(|e| format!("{what}: {e}"))?;
    ck!(rep.status == 200, "{what} was answered {} {:?}", rep.status, String::from_utf8_lossy(&rep.body));
    let back = body_model(&rep.body, store).map_err(|e| format!("{what}: the answer does not decode: {e}"))?;
    eq(&m, &back, &format!("{what}: the answer is something else: "))?;
    ctx.count(if b.len() == LIMIT { "exactly at the limit" } else { "below the limit" });
    Ok(())
}
/// Bodies that never arrive whole reach no handler.
fn broken(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let (path, store) = *r.pick(&[("/value", false), ("/store", true)]);
    let (m, b) = thing(r, store);
    let s = &server().seen;
    let before = s.calls.load(SeqCst);
    let mut k = Conn::new(server().port)?;
    k.timeout(std::time::Duration::from_secs(20));
    let chunked = r.bool();
    let cut = r.us(b.len() + 1);
    let mut msg = format!("PUT {path} HTTP/1.1\r\nHost: x\r\n").into_bytes();
    if chunked {
        msg.extend(b"Transfer-Encoding: chunked\r\n\r\n");
        if cut > 0 {
            msg.extend(format!("{cut:x}\r\n").bytes());
            msg.extend(&b[..cut]);
            msg.extend(b"\r\n");
        }
    } else {
        msg.extend(format!("Content-Length: {}\r\n\r\n", b.len() + 1).bytes());
        msg.extend(&b[..cut]);
    }
    let _ = k.raw(&msg);
    k.half_close();
    let what = format!("PUT {path} with {cut} of {} bytes and no end (chunked {chunked})", b.len());
    match k.reply(false) {
        Ok(rep) => {
            ck!((400..500).contains(&rep.status), "{what} was answered {}", rep.status);
            ctx.count("incomplete bodies refused");
        }
        Err(_) => ctx.count("incomplete bodies not answered"),
    }
    ck!(s.calls.load(SeqCst) == before, "{what}: the handler ran");
    ctx.seen(&(&b, cut, chunked));
    Ok(())
}
