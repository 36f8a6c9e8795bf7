//! C13–C16: JSON, serde, complex numbers, typed access.
use crate::ck;
use crate::core::*;
use crate::model::*;
use crate::refcodec as rc;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Map as SJMap, Number, Value as SJ};
use sourisdb::store::Store;
use sourisdb::types::{
    binary::BinaryData,
    imaginary::Imaginary,
    integer::{FloatToIntegerConversionError as FE, Integer},
};
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::{Value, ValueSerError, ValueTy};
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn short(s: String) -> String {
    if s.chars().count() > 200 {
        format!("{}… ({} bytes)", s.chars().take(200).collect::<String>(), s.len())
    } else {
        s
    }
}
fn sj(j: &SJ) -> String {
    short(j.to_string())
}

// ---------------------------------------------------------------- C13

fn has_marker(j: &SJ) -> bool {
    match j {
        SJ::Array(a) => a.iter().any(has_marker),
        SJ::Object(o) => o.contains_key("souris_type") || o.values().any(has_marker),
        _ => false,
    }
}
/// a document of any shape, {"JSON": …} look-alikes included
fn gen_doc(r: &mut Rng) -> SJ {
    let depth = match r.below(12) {
        0 => 0,
        1 => r.range(5, 8),
        _ => r.range(1, 4),
    };
    let mut d = gen_json(r, depth, 5, 30);
    if r.one_in(3) {
        let n = r.range(1, 4);
        for _ in 0..n {
            let mut m = SJMap::new();
            m.insert("JSON".into(), d);
            if r.one_in(8) {
                m.insert("other".into(), SJ::Null);
            }
            d = SJ::Object(m);
        }
    }
    if r.one_in(16) {
        for _ in 0..r.range(20, 90) {
            d = if r.bool() { SJ::Array(vec![d]) } else { json!({ "k": d }) };
        }
    }
    d
}
fn jdepth(j: &SJ) -> u64 {
    match j {
        SJ::Array(a) => 1 + a.iter().map(jdepth).max().unwrap_or(0),
        SJ::Object(o) => 1 + o.values().map(jdepth).max().unwrap_or(0),
        _ => 0,
    }
}
fn c13_docs(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let d = gen_doc(r);
    if has_marker(&d) {
        return Ok(());
    }
    let text = d.to_string();
    ctx.seen(&text);
    ctx.sample(|| format!("document {text}"));
    ctx.max("doc_depth", jdepth(&d));
    ctx.max("doc_bytes", text.len() as u64);
    ctx.count(match &d {
        SJ::Object(_) => "doc.object",
        SJ::Array(_) => "doc.array",
        SJ::Null => "doc.null",
        _ => "doc.scalar",
    });
    let v = Value::convert_from_json(d.clone()).map_err(|e| format!("import of {} refused: {e}", sj(&d)))?;
    let s = Store::from_json(d.clone()).map_err(|e| format!("store import of {} refused: {e}", sj(&d)))?;
    let sb = Store::from_json_bytes(text.as_bytes()).map_err(|e| format!("import of text {} refused: {e}", sj(&d)))?;
    ck!(s == sb, "importing {} as text and as JSON gives different stores", sj(&d));
    for mark in [false, true] {
        let Some(j) = v.clone().convert_to_json(mark) else {
            return Err(format!("export (markers {mark}) of imported {} refused", sj(&d)));
        };
        ck!(json_same(&d, &j), "value import+export (markers {mark}) turned {} into {}", sj(&d), sj(&j));
        for (w, s) in [("from_json", &s), ("from_json_bytes", &sb)] {
            let Some(j) = s.clone().to_json(mark) else {
                return Err(format!("store export (markers {mark}) of imported {} refused", sj(&d)));
            };
            ck!(json_same(&d, &j), "store {w}+to_json (markers {mark}) turned {} into {}", sj(&d), sj(&j));
        }
    }
    // and the same after a trip through bytes
    if jdepth(&d) < 100 {
        let back = Store::deser(&s.ser()).map_err(|e| format!("imported {} does not read back: {e}", sj(&d)))?;
        let j = back.to_json(r.bool());
        ck!(j.as_ref().is_some_and(|j| json_same(&d, j)), "after a trip through bytes {} became {j:?}", sj(&d));
    }
    Ok(())
}

const JSONABLE: Cfg = Cfg { depth: 4, width: 5, text: 30, bin: 40, jsonable: true, leap_anywhere: false, nan: false };

/// what export without markers has to look like, from the one with markers
fn strip(j: &SJ) -> SJ {
    match j {
        SJ::Array(a) => SJ::Array(a.iter().map(strip).collect()),
        SJ::Object(o) => {
            let t = o.get("souris_type").and_then(SJ::as_u64);
            if matches!(t, Some(13 | 14)) {
                return o.get("octets").cloned().unwrap_or(SJ::Null);
            }
            SJ::Object(o.iter().filter(|(k, _)| *k != "souris_type").map(|(k, v)| (k.clone(), strip(v))).collect())
        }
        j => j.clone(),
    }
}
/// what the export with markers has to look like; None: no export
fn export(m: &MV) -> Option<SJ> {
    let num = |n: &Num| -> Option<SJ> {
        if !n.fits_json() {
            return None;
        }
        Some(if n.neg && n.mag != 0 { SJ::from(n.as_i128()? as i64) } else { SJ::from(n.mag as u64) })
    };
    let fl = |f: f64| Number::from_f64(f).map(SJ::Number);
    Some(match m {
        MV::Char(c) => SJ::String(c.to_string()),
        MV::Str(s) => SJ::String(s.clone()),
        MV::Bin(b) => json!({"souris_type": 2, "bytes": b}),
        MV::Bool(b) => SJ::Bool(*b),
        MV::Int(n) => num(n)?,
        MV::Cart(a, b) => json!({"souris_type": 5, "real": num(a)?, "imaginary": num(b)?}),
        MV::Polar(a, b) => json!({"souris_type": 5, "modulus": fl(*a)?, "argument": fl(*b)?}),
        MV::Ts { .. } => json!({"souris_type": 6}), // its text is judged by reading it back
        MV::Json(j) => j.clone(),
        MV::Map(e) => {
            let mut o = SJMap::new();
            for (k, v) in e {
                o.insert(k.clone(), export(v)?);
            }
            SJ::Object(o)
        }
        MV::Null => SJ::Null,
        MV::F64(f) => fl(*f)?,
        MV::Arr(a) => SJ::Array(a.iter().map(export).collect::<Option<_>>()?),
        MV::Tz(t) => json!({"souris_type": 12, "timezone": t}),
        MV::V4(a) => json!({"souris_type": 13, "octets": a}),
        MV::V6(a) => json!({"souris_type": 14, "octets": a}),
        MV::F32(f) => fl(f64::from(*f))?,
    })
}
/// the export without its timestamp texts
fn no_ts(j: &SJ) -> SJ {
    match j {
        SJ::Array(a) => SJ::Array(a.iter().map(no_ts).collect()),
        SJ::Object(o) => {
            let ts = o.get("souris_type").and_then(SJ::as_u64) == Some(6);
            SJ::Object(o.iter().filter(|(k, _)| !(ts && *k == "timestamp")).map(|(k, v)| (k.clone(), no_ts(v))).collect())
        }
        j => j.clone(),
    }
}

fn c13_check_values(ctx: &mut Ctx, m: &MV) -> R {
    ctx.seen(&format!("{m:?}"));
    ctx.sample(|| format!("value {}", show(m)));
    m.kinds(&mut |k| ctx.count(&format!("kind.{k}")));
    let v = to_value(m);
    let (Some(t), Some(f)) = (v.clone().convert_to_json(true), v.clone().convert_to_json(false)) else {
        return Err(format!("export of {} refused", show(m)));
    };
    if let Some(want) = export(m) {
        ck!(json_same(&want, &no_ts(&t)), "{} exports as {}, expected {}", show(m), sj(&t), sj(&want));
    }
    ck!(json_same(&strip(&t), &f), "without markers {} exports as {}, with them as {}", show(m), sj(&f), sj(&t));
    // the plain export reads as plain data
    ck!(!has_marker(&f), "markers in the export without markers of {}: {}", show(m), sj(&f));
    let back = Value::convert_from_json(t.clone()).map_err(|e| format!("import of {} (from {}) refused: {e}", sj(&t), show(m)))?;
    same(m, &back).map_err(|e| format!("export and import: {e}"))?;
    ck!(back == v, "export and import of {} is not ==", show(m));
    // through text as a file would
    let text = serde_json::to_vec(&t).unwrap_or_default();
    let mut floats_ok = true;
    floats(m, &mut |x| floats_ok &= json_float_ok(x));
    if floats_ok {
        let e = [("v".to_string(), m.clone())];
        let st = crate::props_a::store_of(&e);
        let mut doc = b"{\"v\":".to_vec();
        doc.extend_from_slice(&text);
        doc.push(b'}');
        let back = Store::from_json_bytes(&doc).map_err(|e| format!("text import of {} refused: {e}", sj(&t)))?;
        ck!(back.len() == 1 && back.get("v").is_some(), "text import of {} lost the key", sj(&t));
        same(m, &back["v"]).map_err(|e| format!("export and import as text: {e}"))?;
        ck!(back == st, "export and import as text of {} is not ==", show(m));
        ctx.count("through_text");
    }
    Ok(())
}
fn floats(m: &MV, f: &mut impl FnMut(f64)) {
    match m {
        MV::F64(x) => f(*x),
        MV::Polar(a, b) => {
            f(*a);
            f(*b);
        }
        MV::Arr(a) => a.iter().for_each(|v| floats(v, f)),
        MV::Map(e) => e.iter().for_each(|(_, v)| floats(v, f)),
        _ => {}
    }
}
fn c13_values(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let m = match idx % 3 {
        0 => gen_leaf(r, &JSONABLE, [1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 14][(idx / 3) as usize % 11]),
        _ => gen_value(r, &JSONABLE),
    };
    let n = if r.one_in(20) { r.range(1, 60) } else { 0 };
    let m = nest(r, m, n);
    c13_check_values(ctx, &m)
}
fn c13_ts(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let m = gen_ts(r, false);
    c13_check_values(ctx, &m)
}
fn c13_tz(ctx: &mut Ctx, _: &mut Rng, idx: u64) -> R {
    let t = chrono_tz::TZ_VARIANTS[idx as usize % chrono_tz::TZ_VARIANTS.len()];
    c13_check_values(ctx, &MV::Tz(t.name().into()))
}
/// whole stores, including those that look like a wrapped document
fn c13_stores(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let e = match idx % 4 {
        0 => vec![("JSON".to_string(), gen_value(r, &JSONABLE))],
        1 => {
            let mut v = gen_value(r, &JSONABLE);
            for _ in 0..r.range(1, 3) {
                v = MV::Map(vec![("JSON".to_string(), v)]);
            }
            vec![("JSON".to_string(), v)]
        }
        _ => {
            let n = r.range(0, 6);
            let mut e = gen_entries(r, &JSONABLE, n);
            if r.one_in(4) && !e.iter().any(|(k, _)| k == "JSON") {
                e.push(("JSON".into(), gen_value(r, &JSONABLE)));
            }
            e
        }
    };
    let st = crate::props_a::store_of(&e);
    let m = MV::Map(e);
    ctx.seen(&format!("store {m:?}"));
    let (Some(t), Some(f)) = (st.clone().to_json(true), st.clone().to_json(false)) else {
        return Err(format!("export of store {} refused", show(&m)));
    };
    ck!(json_same(&strip(&t), &f), "without markers store {} exports as {}, with them as {}", show(&m), sj(&f), sj(&t));
    let back = Store::from_json(t.clone()).map_err(|e| format!("import of {} (from store {}) refused: {e}", sj(&t), show(&m)))?;
    same(&m, &Value::Map((*back).clone())).map_err(|e| format!("store export and import via {}: {e}", sj(&t)))
}
/// refused exactly when it must be
fn c13_refuse(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let c = Cfg { depth: 2, width: 4, text: 12, bin: 8, jsonable: false, leap_anywhere: true, nan: true };
    let m = match idx % 4 {
        0 => MV::Int(gen_num(r)),
        1 => {
            let k = *r.pick(&[4, 5, 5, 10, 15]);
            gen_leaf(r, &c, k)
        }
        _ => gen_value(r, &c),
    };
    // the borders of the range
    let m = if r.one_in(8) {
        let n = match r.below(6) {
            0 => Num::u(u128::from(u64::MAX)),
            1 => Num::u(u128::from(u64::MAX) + 1),
            2 => Num::i(i128::from(i64::MIN)),
            3 => Num::i(i128::from(i64::MIN) - 1),
            4 => Num::i(i128::from(u64::MAX) + r.below(2) as i128),
            _ => Num::i(i128::from(i64::MAX) + r.below(2) as i128),
        };
        match r.below(3) {
            0 => MV::Int(n),
            1 => MV::Cart(n, Num::u(1)),
            _ => MV::Cart(Num::i(-1), n),
        }
    } else {
        m
    };
    let n = if r.one_in(3) { r.range(1, 3) } else { 0 };
    let m = nest(r, m, n);
    let want = export(&m).is_some();
    ctx.count(if want { "export.allowed" } else { "export.refused" });
    ctx.seen(&format!("{m:?}"));
    let v = to_value(&m);
    for mark in [false, true] {
        let got = v.clone().convert_to_json(mark);
        ck!(
            got.is_some() == want,
            "export (markers {mark}) of {} was {}",
            show(&m),
            got.map_or("refused".to_string(), |j| format!("allowed: {}", sj(&j)))
        );
        let s = Store::new([("k".to_string(), v.clone()), ("l".to_string(), Value::Null(()))]);
        ck!(s.to_json(mark).is_some() == want, "store export (markers {mark}) of {} should be {want}", show(&m));
    }
    Ok(())
}
/// marked objects with bad data
fn c13_markers(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let junk = |r: &mut Rng| match r.below(6) {
        0 => SJ::Null,
        1 => SJ::Bool(r.bool()),
        2 => SJ::String(gen_text(r, 8)),
        3 => json!([]),
        4 => json!({}),
        _ => json!(1.5),
    };
    let mut o = SJMap::new();
    let ty;
    let what;
    match r.below(8) {
        0 => {
            ty = *r.pick(&[0, 1, 3, 4, 7, 8, 9, 10, 11, 15]);
            what = "type that takes no marker";
            let d = gen_json(r, 1, 3, 6);
            o.insert(r.pick(&["bytes", "octets", "timestamp", "real", "value", "x"]).to_string(), d);
        }
        1 => {
            ty = *r.pick(&[2, 5, 6, 12, 13, 14]);
            what = "nothing else";
            if r.bool() {
                // something belonging to another type
                let (k, v) = match ty {
                    2 => ("octets", json!([1, 2, 3, 4])),
                    5 => (*r.pick(&["real", "imaginary", "modulus", "argument"]), json!(1)),
                    6 => ("timezone", json!("UTC")),
                    12 => ("timestamp", json!("2024-01-01 00:00:00")),
                    _ => ("bytes", json!([1, 2, 3, 4])),
                };
                o.insert(k.into(), v);
            }
        }
        2 => {
            ty = 2;
            what = "bytes that aren't";
            let b = if r.one_in(4) {
                let j = junk(r);
                if j.is_array() { json!("AQID") } else { j }
            } else {
                let mut a: Vec<SJ> = (0..r.range(0, 5)).map(|_| SJ::from(r.byte())).collect();
                let bad = match r.below(5) {
                    0 => json!(256),
                    1 => json!(-1),
                    2 => json!(1.0),
                    3 => json!(256 * (1 + r.below(1000)) + r.below(256)),
                    _ => { let j = junk(r); if j.is_number() { json!("1") } else { j } }
                };
                let i = r.range(0, a.len());
                a.insert(i, bad);
                SJ::Array(a)
            };
            o.insert("bytes".into(), b);
        }
        3 => {
            ty = *r.pick(&[13, 14]);
            let n = if ty == 13 { 4 } else { 8 };
            what = "octets that aren't";
            let lim = if ty == 13 { 256 } else { 65_536 };
            let mut a: Vec<SJ> = (0..n).map(|_| SJ::from(r.below(lim))).collect();
            match r.below(5) {
                0 => { a.pop(); }
                1 => a.push(json!(0)),
                2 => { let i = r.us(n); a[i] = json!(lim + r.below(300)); }
                3 => { let i = r.us(n); a[i] = json!(-1 - r.below(9) as i64); }
                _ => { let i = r.us(n); a[i] = junk(r); }
            }
            let a = if r.one_in(5) { let j = junk(r); if j.is_array() { json!("1.2.3.4") } else { j } } else { SJ::Array(a) };
            o.insert("octets".into(), a);
        }
        4 => {
            ty = 6;
            what = "no timestamp";
            let s = match r.below(8) {
                0 => json!("2023-02-29 00:00:00"),
                1 => json!("2024-13-01 00:00:00"),
                2 => json!("2024-12-01 25:00:00"),
                3 => json!("2024-12-01 00:61:00"),
                4 => json!("yesterday"),
                5 => json!(""),
                6 => json!("2024-12-01 00:00:00 and more"),
                _ => { let j = junk(r); if j.is_string() { json!(20_240_101) } else { j } }
            };
            o.insert("timestamp".into(), s);
        }
        5 => {
            ty = 12;
            what = "no time zone";
            let s = match r.below(4) {
                0 => json!("Europe/Lundon"),
                1 => json!(""),
                2 => json!("!"),
                _ => { let j = junk(r); if j.is_string() { json!(0) } else { j } }
            };
            o.insert("timezone".into(), s);
        }
        6 => {
            ty = 5;
            what = "no cartesian number";
            let good = json!(r.below(100));
            let bad = match r.below(4) {
                0 => json!(1.5),
                1 => json!(1e30),
                2 => json!("1"),
                _ => SJ::Null,
            };
            let (a, b) = if r.bool() { (good, bad) } else { (bad, good) };
            o.insert("real".into(), a);
            o.insert("imaginary".into(), b);
        }
        _ => {
            ty = 5;
            what = "no polar number";
            let bad = match r.below(3) {
                0 => json!("1"),
                1 => json!([1.0]),
                _ => SJ::Null,
            };
            let (a, b) = if r.bool() { (json!(1.0), bad) } else { (bad, json!(0.5)) };
            o.insert("modulus".into(), a);
            o.insert("argument".into(), b);
        }
    }
    ctx.count(&format!("marker.{what}"));
    o.insert("souris_type".into(), json!(ty));
    let mut d = SJ::Object(o);
    for _ in 0..r.below(4) {
        d = if r.bool() { json!([1, d]) } else { json!({ "a": null, "k": d }) };
    }
    ctx.seen(&d.to_string());
    ctx.sample(|| format!("bad marker {d}"));
    if let Ok(v) = Value::convert_from_json(d.clone()) {
        return Err(format!("{} ({what}) was imported as {}", sj(&d), short(format!("{v:?}"))));
    }
    ck!(Store::from_json(d.clone()).is_err(), "{} ({what}) was imported as a store", sj(&d));
    ck!(Store::from_json_bytes(d.to_string().as_bytes()).is_err(), "text {} ({what}) was imported", sj(&d));
    Ok(())
}
pub const C13: &[Kind] = &[
    kind("docs", 30_000, 700_000, c13_docs),
    kind("values", 40_000, 900_000, c13_values),
    kind("timestamps", 12_000, 300_000, c13_ts),
    kind("zones", 597, 597, c13_tz),
    kind("stores", 20_000, 400_000, c13_stores),
    kind("refuse", 40_000, 900_000, c13_refuse),
    kind("markers", 20_000, 400_000, c13_markers),
];

// ---------------------------------------------------------------- C14

trait Gen: Sized {
    fn gen(r: &mut Rng, d: usize) -> Self;
}
macro_rules! gen_prim {
    ($($t:ty => $e:expr),+ $(,)?) => { $(impl Gen for $t { fn gen(r: &mut Rng, _: usize) -> Self { let f: fn(&mut Rng) -> $t = $e; f(r) } })+ };
}
fn edge(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(3),
        1 => u64::MAX - r.below(3),
        2 => (1 << r.below(64)) + r.below(3) - 1,
        3 => (1_u64 << 63).wrapping_add(r.below(3)).wrapping_sub(1),
        _ => r.u64() >> r.below(64),
    }
}
gen_prim!(
    bool => |r| r.bool(),
    u8 => |r| edge(r) as u8, u16 => |r| edge(r) as u16, u32 => |r| edge(r) as u32, u64 => |r| edge(r), usize => |r| edge(r) as usize,
    i8 => |r| edge(r) as i8, i16 => |r| edge(r) as i16, i32 => |r| edge(r) as i32, i64 => |r| edge(r) as i64, isize => |r| edge(r) as isize,
    f64 => |r| gen_f64(r, true, false), f32 => |r| gen_f32(r, true, false),
    char => |r| gen_char(r), () => |_| (),
);
impl Gen for String {
    fn gen(r: &mut Rng, _: usize) -> Self {
        loop {
            let s = if r.bool() { gen_key(r) } else { gen_text(r, 20) };
            if s != "souris_type" {
                return s;
            }
        }
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.one_in(3) { None } else { Some(T::gen(r, d)) }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Box::new(T::gen(r, d))
    }
}
fn len(r: &mut Rng) -> usize {
    match r.below(5) {
        0 => 0,
        1 => 1,
        2 => r.range(6, 10),
        _ => r.range(2, 4),
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..len(r)).map(|_| T::gen(r, d)).collect()
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..len(r)).map(|_| T::gen(r, d)).collect()
    }
}
impl<K: Gen + Ord, T: Gen> Gen for BTreeMap<K, T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..len(r)).map(|_| (K::gen(r, d), T::gen(r, d))).collect()
    }
}
impl<K: Gen + Eq + std::hash::Hash, T: Gen> Gen for HashMap<K, T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..len(r)).map(|_| (K::gen(r, d), T::gen(r, d))).collect()
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (A::gen(r, d), B::gen(r, d))
    }
}
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (A::gen(r, d), B::gen(r, d), C::gen(r, d))
    }
}
impl<T: Gen> Gen for [T; 3] {
    fn gen(r: &mut Rng, d: usize) -> Self {
        [T::gen(r, d), T::gen(r, d), T::gen(r, d)]
    }
}
macro_rules! gen_struct {
    ($($n:ident { $($f:ident),* $(,)? })+) => { $(impl Gen for $n { fn gen(r: &mut Rng, d: usize) -> Self { $n { $($f: Gen::gen(r, d)),* } } })+ };
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Unit;
impl Gen for Unit {
    fn gen(_: &mut Rng, _: usize) -> Self {
        Unit
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Plain {
    a: u64,
    b: i64,
    c: String,
    d: f64,
    e: bool,
    f: char,
    g: f32,
    h: (),
    i: Unit,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct New(i64);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct NewS(String);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Tup(u8, String, Option<f64>);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Empty {}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct JsonShaped {
    #[serde(rename = "JSON")]
    json: Option<Box<JsonShaped2>>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum JsonShaped2 {
    N(i64),
    S(JsonShaped),
    V(Vec<i8>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Ext {
    A,
    B(i32),
    C(String, u64),
    D { x: f64, y: Option<String> },
    E(Box<Ext>),
    F(Vec<Ext>),
    JSON(u8),
    Empty {},
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "type")]
enum Inter {
    A,
    B { x: i64, s: String },
    C(Empty),
    D(BTreeMap<String, u32>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adj {
    A,
    B(i64),
    C(u8, u8),
    D { z: Vec<String> },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Unt {
    I(i64),
    U(u64),
    F(f64),
    B(bool),
    S(String),
    V(Vec<Unt>),
    M(BTreeMap<String, Unt>),
    N(()),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Chain {
    v: u32,
    next: Option<Box<Chain>>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Deep {
    End(String),
    In(Box<Deep>),
    Seq(Vec<Deep>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Wide {
    m: BTreeMap<String, Ext>,
    ints: BTreeMap<i64, Option<String>>,
    u: HashMap<u16, Vec<f32>>,
    chars: BTreeMap<char, bool>,
    set: BTreeSet<u64>,
    t: (i8, String, [u16; 3]),
    inter: Vec<Inter>,
    adj: Vec<Adj>,
    unt: Vec<Unt>,
    o: Option<Vec<Option<Tup>>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    skipped: Vec<u8>,
    #[serde(rename = "ünïcode key \u{1F42D}")]
    odd: NewS,
    n: New,
    #[serde(flatten)]
    flat: Flat,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Flat {
    flat_a: i32,
    flat_b: Vec<Empty>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Num64 {
    i: Integer,
    l: Vec<Integer>,
    im: Imaginary,
}
gen_struct! { Plain { a, b, c, d, e, f, g, h, i } Empty {} JsonShaped { json } Wide { m, ints, u, chars, set, t, inter, adj, unt, o, skipped, odd, n, flat } Flat { flat_a, flat_b } Num64 { i, l, im } }
impl Gen for New {
    fn gen(r: &mut Rng, d: usize) -> Self {
        New(i64::gen(r, d))
    }
}
impl Gen for NewS {
    fn gen(r: &mut Rng, d: usize) -> Self {
        NewS(String::gen(r, d))
    }
}
impl Gen for Tup {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Tup(Gen::gen(r, d), Gen::gen(r, d), Gen::gen(r, d))
    }
}
impl Gen for JsonShaped2 {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => JsonShaped2::N(Gen::gen(r, d)),
            1 => JsonShaped2::V(Gen::gen(r, d)),
            _ if d > 0 => JsonShaped2::S(JsonShaped { json: Some(Box::new(Gen::gen(r, d - 1))) }),
            _ => JsonShaped2::S(JsonShaped { json: None }),
        }
    }
}
impl Gen for Ext {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(if d == 0 { 6 } else { 8 }) {
            0 => Ext::A,
            1 => Ext::B(Gen::gen(r, d)),
            2 => Ext::C(Gen::gen(r, d), Gen::gen(r, d)),
            3 => Ext::D { x: Gen::gen(r, d), y: Gen::gen(r, d) },
            4 => Ext::JSON(Gen::gen(r, d)),
            5 => Ext::Empty {},
            6 => Ext::E(Gen::gen(r, d - 1)),
            _ => Ext::F((0..r.below(3)).map(|_| Gen::gen(r, d - 1)).collect()),
        }
    }
}
impl Gen for Inter {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Inter::A,
            1 => Inter::B { x: Gen::gen(r, d), s: Gen::gen(r, d) },
            2 => Inter::C(Empty {}),
            _ => Inter::D(Gen::gen(r, d)),
        }
    }
}
impl Gen for Adj {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Adj::A,
            1 => Adj::B(Gen::gen(r, d)),
            2 => Adj::C(Gen::gen(r, d), Gen::gen(r, d)),
            _ => Adj::D { z: Gen::gen(r, d) },
        }
    }
}
impl Gen for Unt {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(if d == 0 { 6 } else { 9 }) {
            0 => Unt::I(Gen::gen(r, d)),
            1 => Unt::U((1 << 63) + r.below(1 << 20)),
            2 => Unt::F(Gen::gen(r, d)),
            3 => Unt::B(Gen::gen(r, d)),
            4 => Unt::S(Gen::gen(r, d)),
            5 => Unt::N(()),
            6 | 7 => Unt::V((0..r.below(4)).map(|_| Gen::gen(r, d - 1)).collect()),
            _ => Unt::M((0..r.below(4)).map(|_| (Gen::gen(r, d), Gen::gen(r, d - 1))).collect()),
        }
    }
}
impl Gen for Chain {
    fn gen(r: &mut Rng, _: usize) -> Self {
        let n = if r.bool() { r.range(0, 98) } else { r.range(0, 6) };
        let mut c = Chain { v: edge(r) as u32, next: None };
        for _ in 0..n {
            c = Chain { v: r.below(9) as u32, next: Some(Box::new(c)) };
        }
        c
    }
}
impl Gen for Deep {
    fn gen(r: &mut Rng, _: usize) -> Self {
        let mut c = Deep::End(Gen::gen(r, 0));
        let mut left = if r.bool() { r.range(0, 97) } else { r.range(0, 8) };
        while left > 1 {
            if r.bool() {
                c = Deep::In(Box::new(c));
                left -= 1;
            } else {
                c = Deep::Seq(vec![c]);
                left -= 2;
            }
        }
        c
    }
}
impl Gen for Integer {
    fn gen(r: &mut Rng, _: usize) -> Self {
        gen_num64(r).to_integer()
    }
}
impl Gen for Imaginary {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() {
            Imaginary::CartesianForm { real: Gen::gen(r, d), imaginary: Gen::gen(r, d) }
        } else {
            Imaginary::PolarForm { modulus: Gen::gen(r, d), argument: Gen::gen(r, d) }
        }
    }
}

/// stored and read back is the same, if serde_json itself can carry it
fn serde_trip<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, name: &str, t: &T) -> R {
    let j = match serde_json::to_value(t) {
        Ok(j) => j,
        Err(_) => {
            ctx.count("unrepresentable");
            if let Ok(b) = Store::to_bytes(t) {
                return Err(format!("{name}: {} cannot be JSON but became {}", short(format!("{t:?}")), hex(&b)));
            }
            return Ok(());
        }
    };
    if has_marker(&j) || jdepth(&j) >= 100 {
        return Ok(());
    }
    match serde_json::from_value::<T>(j.clone()) {
        Ok(u) if u == *t => {}
        _ => {
            ctx.count("lossy_in_json_itself");
            return Ok(());
        }
    }
    ctx.count(&format!("type.{name}"));
    ctx.max("depth", jdepth(&j));
    ctx.seen(&(name, j.to_string()));
    ctx.sample(|| format!("{name}: {t:?}"));
    let b = Store::to_bytes(t).map_err(|e| format!("{name}: {} cannot be stored: {e}", short(format!("{t:?}"))))?;
    let u: T = Store::from_bytes(&b).map_err(|e| format!("{name}: {} does not read back: {e}", short(format!("{t:?}"))))?;
    ck!(u == *t, "{name}: {} came back as {}", short(format!("{t:?}")), short(format!("{u:?}")));
    // == cannot tell the zeroes apart
    let k = serde_json::to_value(&u).map_err(|e| format!("{name}: {e}"))?;
    ck!(json_same(&j, &k), "{name}: {} came back as {}", sj(&j), sj(&k));
    Ok(())
}
macro_rules! shapes {
    ($ctx:expr, $r:expr, $i:expr; $($t:ty),+ $(,)?) => {{
        let fs: &[fn(&mut Ctx, &mut Rng) -> R] = &[$(|c, r| { let t = <$t as Gen>::gen(r, 3); serde_trip(c, stringify!($t), &t) }),+];
        fs[$i as usize % fs.len()]($ctx, $r)
    }};
}
fn c14_shapes(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    shapes!(ctx, r, idx;
        Plain, Wide, Wide, Ext, Inter, Adj, Unt, Chain, Deep, Empty, Unit, New, NewS, Tup, JsonShaped, JsonShaped, JsonShaped2, Num64,
        (), bool, u8, u16, u32, u64, i8, i16, i32, i64, usize, isize, f32, f64, char, String,
        Option<String>, Option<i64>, Vec<u8>, Vec<Option<bool>>, Vec<Vec<String>>, (i64, String, f64), (u64, u64), [f64; 3], Vec<()>,
        BTreeMap<String, i64>, BTreeMap<i64, String>, BTreeMap<u64, BTreeMap<String, f64>>, HashMap<String, Vec<Ext>>, BTreeMap<char, char>,
        BTreeMap<bool, u8>, HashMap<i8, ()>, BTreeMap<String, Unt>, Vec<Wide>, Option<Plain>, Vec<(String, Unt)>, Option<Option<u8>>, BTreeSet<String>,
    )
}
/// maps that look like the wrapping of a document
fn c14_wrapped(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    fn one<T: Gen>(r: &mut Rng) -> BTreeMap<String, T> {
        BTreeMap::from([("JSON".to_string(), T::gen(r, 2))])
    }
    match idx % 6 {
        0 => { let t = one::<i64>(r); serde_trip(ctx, "{JSON: i64}", &t) }
        1 => { let t = one::<Vec<String>>(r); serde_trip(ctx, "{JSON: [..]}", &t) }
        2 => { let t = one::<BTreeMap<String, u8>>(r); serde_trip(ctx, "{JSON: {..}}", &t) }
        3 => { let t = BTreeMap::from([("JSON".to_string(), one::<f64>(r))]); serde_trip(ctx, "{JSON: {JSON: f64}}", &t) }
        4 => { let t = BTreeMap::from([("JSON".to_string(), one::<BTreeMap<String, bool>>(r))]); serde_trip(ctx, "{JSON: {JSON: {..}}}", &t) }
        _ => { let mut t = one::<Option<u8>>(r); t.insert(String::gen(r, 0), None); serde_trip(ctx, "{JSON: .., ..}", &t) }
    }
}
/// what cannot be represented is an error
fn c14_refuse(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    fn refuse<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, what: &str, t: &T) -> R {
        ctx.count(&format!("refuse.{what}"));
        ctx.seen(&format!("{t:?}"));
        match Store::to_bytes(t) {
            Err(_) => Ok(()),
            Ok(b) => match Store::from_bytes::<T>(&b) {
                Err(_) => Ok(()),
                Ok(u) if u == *t => Ok(()),
                Ok(u) => Err(format!("{what}: {t:?} came back as {u:?}")),
            },
        }
    }
    match idx % 7 {
        0 => { let n = u128::from(u64::MAX) + 1 + (r.u128() >> r.range(1, 120)); refuse(ctx, "big u128", &n) }
        1 => { let n = i128::from(i64::MIN) - 1 - (r.u128() >> r.range(2, 120)) as i128; refuse(ctx, "small i128", &n) }
        2 => { let n = gen_num(r).to_integer(); refuse(ctx, "any Integer", &vec![n]) }
        3 => { let f = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]); refuse(ctx, "non-finite f64", &(f, 1)) }
        4 => { let f = *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]); refuse(ctx, "non-finite f32", &vec![f]) }
        5 => { let m = BTreeMap::from([((u8::gen(r, 0), true), String::gen(r, 0))]); refuse(ctx, "tuple key", &m) }
        _ => { let m = BTreeMap::from([(vec![u8::gen(r, 0)], ())]); refuse(ctx, "list key", &m) }
    }
}
/// Integer as serde sees it
fn c14_integer(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let n = gen_num(r);
    let i = n.to_integer();
    ctx.count(if n.fits_json() { "integer.64bit" } else { "integer.wider" });
    ctx.seen(&(n.neg, n.mag));
    let t = serde_json::to_string(&i).map_err(|e| format!("Integer {} does not serialise: {e}", n.dec()))?;
    ck!(t == n.dec(), "Integer {} serialises as {t}", n.dec());
    match serde_json::from_str::<Integer>(&t) {
        Ok(b) => {
            ck!(num_of(&b)? == n && b == i, "Integer {} reads back from JSON text as {b}", n.dec());
        }
        Err(e) => ck!(!n.fits_json(), "Integer {} does not read back from JSON text: {e}", n.dec()),
    }
    if n.fits_json() {
        let v = serde_json::to_value(i).map_err(|e| format!("Integer {} does not become JSON: {e}", n.dec()))?;
        let want = if n.neg && n.mag != 0 { SJ::from(n.as_i128().unwrap_or(0) as i64) } else { SJ::from(n.mag as u64) };
        ck!(json_same(&v, &want), "Integer {} becomes JSON {v}", n.dec());
        let b: Integer = serde_json::from_value(v).map_err(|e| format!("Integer {} does not come back from JSON: {e}", n.dec()))?;
        ck!(num_of(&b)? == n && b == i, "Integer {} comes back from JSON as {b}", n.dec());
        serde_trip(ctx, "Integer", &i)?;
        serde_trip(ctx, "[Integer]", &vec![i])?;
    }
    // formats that carry 128 bits
    use serde::de::{value::Error as DE, IntoDeserializer};
    macro_rules! carry { ($($t:ty => $o:ident),+) => { $(
        if n.fits(Origin::$o) {
            let x: $t = if n.neg { n.as_i128().unwrap_or(0) as $t } else { n.mag as $t };
            let b = Integer::deserialize(IntoDeserializer::<DE>::into_deserializer(x)).map_err(|e| format!("{} {x} not read: {e}", stringify!($t)))?;
            ck!(num_of(&b)? == n && b == i, "{} {x} is read as {b}", stringify!($t));
        }
    )+ } }
    carry!(u8 => U8, u16 => U16, u32 => U32, u64 => U64, u128 => U128, i8 => I8, i16 => I16, i32 => I32, i64 => I64, i128 => I128);
    for bad in [gen_f64(r, false, true), 1.0, -0.0] {
        if let Ok(b) = Integer::deserialize(IntoDeserializer::<DE>::into_deserializer(bad)) {
            ck!(b.to_string() == format!("{bad:.0}"), "float {bad} is read as Integer {b}");
        }
    }
    Ok(())
}
pub const C14: &[Kind] = &[
    kind("shapes", 56_000, 1_200_000, c14_shapes),
    kind("wrapped", 12_000, 240_000, c14_wrapped),
    kind("refuse", 14_000, 200_000, c14_refuse),
    kind("integer", 40_000, 900_000, c14_integer),
];

// ---------------------------------------------------------------- C15

fn to_f64(n: &Num) -> f64 {
    if n.neg { -(n.mag as f64) } else { n.mag as f64 }
}
fn c15_to_polar(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let zero = |r: &mut Rng| Num { neg: false, mag: 0, origin: *r.pick(&ORIGINS) };
    let (a, b) = match idx % 6 {
        0 => (zero(r), gen_num(r)),
        1 => (gen_num(r), zero(r)),
        2 => (zero(r), zero(r)),
        _ => (gen_num(r), gen_num(r)),
    };
    let im = Imaginary::CartesianForm { real: a.to_integer(), imaginary: b.to_integer() };
    ctx.seen(&(a.neg, a.mag, b.neg, b.mag));
    let (x, y) = (to_f64(&a), to_f64(&b));
    ctx.count(match (x == 0.0, y == 0.0) {
        (true, true) => "at.zero",
        (true, false) => "on.imaginary_axis",
        (false, true) => "on.real_axis",
        _ => match (x > 0.0, y > 0.0) {
            (true, true) => "quadrant.1",
            (false, true) => "quadrant.2",
            (false, false) => "quadrant.3",
            _ => "quadrant.4",
        },
    });
    let what = format!("{}, {}i", a.dec(), b.dec());
    for p in [im.to_polar_form(), Imaginary::polar_from_cartesian(x, y)] {
        let Imaginary::PolarForm { modulus, argument } = p else {
            return Err(format!("{what} in polar form is {p:?}"));
        };
        ck!(modulus.is_finite() && modulus >= 0.0, "{what} has modulus {modulus}");
        ck!(argument.is_finite() && argument.abs() <= std::f64::consts::PI, "{what} has argument {argument}");
        let s = x.abs().max(y.abs());
        if s == 0.0 {
            ck!(modulus == 0.0, "{what} has modulus {modulus}");
            continue;
        }
        let (u, v) = (x / s, y / s);
        let m = (u * u + v * v).sqrt() * s;
        ck!((modulus - m).abs() <= 4e-16 * m * 4.0, "{what} has modulus {modulus}, not {m}");
        let (c, d) = (x / m, y / m);
        ck!((argument.cos() - c).abs() < 1e-14 && (argument.sin() - d).abs() < 1e-14, "{what} has argument {argument}");
        let q = y.atan2(x);
        ck!((argument - q).abs() <= 1e-14 || (x < 0.0 && y == 0.0 && argument.abs() == q.abs()), "{what} has argument {argument}, not {q}");
        if y != 0.0 {
            ck!(argument != 0.0 && (argument > 0.0) == (y > 0.0) || (y / s).abs() < 1e-300, "{what} has argument {argument}: wrong half");
        }
        // already in polar form
        let Imaginary::PolarForm { modulus: m2, argument: a2 } = p.to_polar_form() else {
            return Err(format!("{p:?} in polar form is {:?}", p.to_polar_form()));
        };
        ck!(m2.to_bits() == modulus.to_bits() && a2.to_bits() == argument.to_bits(), "{p:?} to polar form changed to {m2}, {a2}");
        // small whole numbers on the positive axis come back
        if y == 0.0 && x > 0.0 && x < 1e15 {
            match p.to_cartesian_form() {
                Ok(Imaginary::CartesianForm { real, imaginary }) if num_of(&real)? == a && num_of(&imaginary)?.mag == 0 => ctx.count("there_and_back"),
                o => return Err(format!("{what} through polar form is {o:?}")),
            }
        }
    }
    // already in cartesian form
    match im.to_cartesian_form() {
        Ok(Imaginary::CartesianForm { real, imaginary }) => {
            ck!(num_of(&real)? == a && num_of(&imaginary)? == b, "{what} to cartesian form changed to {real}, {imaginary}");
        }
        o => return Err(format!("{what} to cartesian form: {o:?}")),
    }
    Ok(())
}
/// parts that no integer has
fn c15_floats(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let one = |r: &mut Rng| match r.below(5) {
        0 => 0.0,
        1 => 2_f64.powi(r.range(0, 2046) as i32 - 1022) * (1.0 + r.below(1000) as f64 / 1000.0),
        2 => r.below(1000) as f64 / 8.0,
        _ => gen_f64(r, true, false),
    };
    let (mut x, mut y) = (one(r), one(r));
    if r.bool() {
        // of the same size
        y = x * (r.below(2000) as f64 / 500.0 - 2.0);
    }
    if r.bool() {
        x = -x;
    }
    if !y.is_finite() {
        y = 1.0;
    }
    ctx.seen(&(x.to_bits(), y.to_bits()));
    let Imaginary::PolarForm { modulus, argument } = Imaginary::polar_from_cartesian(x, y) else {
        return Err(format!("{x}, {y}i in polar form is something else"));
    };
    let (a, b) = (x.abs().max(y.abs()), x.abs().min(y.abs()));
    // squares of what is between 0 and 1 neither overflow nor matter when they vanish
    let f = if a == 0.0 { 0.0 } else { (1.0 + (b / a) * (b / a)).sqrt() };
    let m = f * a;
    if m.is_infinite() || a > f64::MAX / 1.5 {
        ck!(modulus >= f64::MAX / 1.5, "{x:e}, {y:e}i has modulus {modulus:e}");
        ctx.count("moduli beyond a float");
    } else {
        ck!((modulus - m).abs() <= 2e-15 * m + 1e-323, "{x:e}, {y:e}i has modulus {modulus:e}, not {m:e}");
        ctx.count(if a > 1e150 || (a < 1e-150 && a > 0.0) { "moduli whose squares are no floats" } else { "ordinary moduli" });
    }
    let q = y.atan2(x);
    ck!((argument - q).abs() <= 1e-14 || (x <= 0.0 && y == 0.0 && argument.abs() == q.abs()) || (x == 0.0 && y == 0.0), "{x:e}, {y:e}i has argument {argument}, not {q}");
    Ok(())
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Coord {
    Whole(f64),
    Near(f64),
    Fraction,
    Large,
    NotFinite,
}
fn coord(v: f64, m: f64) -> Coord {
    if !v.is_finite() {
        return Coord::NotFinite;
    }
    let n = v.round();
    let d = (v - n).abs();
    let tol = (m.abs() * 4e-16).max(1e-9);
    if d > tol {
        return Coord::Fraction;
    }
    let top = 2_f64.powi(128);
    let bottom = -(2_f64.powi(127));
    let slack = m.abs() * 4e-16;
    if n - slack >= top || n + slack < bottom {
        Coord::Large
    } else if n + slack >= top || n - slack < bottom {
        if slack < 1.0 { Coord::Whole(n) } else { Coord::Near(n) }
    } else if d == 0.0 {
        Coord::Whole(n)
    } else {
        Coord::Near(n)
    }
}
fn c15_to_cartesian(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let (m, a) = match idx % 10 {
        // axes
        0 => ((r.u64() >> r.range(11, 63)) as f64, 0.0),
        1 => (-((r.u64() >> r.range(11, 63)) as f64), if r.bool() { 0.0 } else { -0.0 }),
        // huge
        2 => (2_f64.powi(r.range(50, 130) as i32) * (1.0 + r.below(1000) as f64 / 1000.0), gen_f64(r, true, false) % 4.0),
        3 => (2_f64.powi(r.range(120, 129) as i32), 0.0),
        4 => (-(2_f64.powi(r.range(120, 129) as i32)), 0.0),
        // triangles
        5 | 6 => {
            let (x, y) = (r.below(400) as f64 - 200.0, r.below(400) as f64 - 200.0);
            (x.hypot(y), y.atan2(x))
        }
        7 => (r.below(20) as f64, std::f64::consts::FRAC_PI_2 * r.below(9) as f64 - 6.0),
        8 => (gen_f64(r, false, true), gen_f64(r, false, true)),
        _ => (r.below(1_000_000) as f64 / 997.0, r.below(7000) as f64 / 1000.0 - 3.5),
    };
    ctx.seen(&(m.to_bits(), a.to_bits()));
    ctx.sample(|| format!("polar {m:?}, {a:?}"));
    let p = Imaginary::PolarForm { modulus: m, argument: a };
    let (x, y) = (m * a.cos(), m * a.sin());
    let (cx, cy) = (coord(x, m), coord(y, m));
    let got = p.to_cartesian_form();
    let bad = |c: Coord| matches!(c, Coord::Fraction | Coord::Large | Coord::NotFinite);
    match got {
        Ok(Imaginary::CartesianForm { real, imaginary }) => {
            ck!(!bad(cx) && !bad(cy), "polar {m:?}, {a:?} = ({x:?}, {y:?}) converted to {real}, {imaginary}");
            for (c, got) in [(cx, &real), (cy, &imaginary)] {
                if let Coord::Whole(n) | Coord::Near(n) = c {
                    let g = to_f64(&num_of(got)?);
                    let slack = if m.abs() < 1e15 { 0.0 } else { m.abs() * 1e-15 };
                    ck!((g - n).abs() <= slack, "polar {m:?}, {a:?} = ({x:?}, {y:?}) converted to {real}, {imaginary}");
                }
            }
            ctx.count("converted");
            if matches!((cx, cy), (Coord::Whole(_), Coord::Whole(_))) {
                ctx.count("converted.exactly_whole");
            }
        }
        Ok(o) => return Err(format!("polar {m:?}, {a:?} converted to {o:?}")),
        Err((back, why)) => {
            ck!(
                !matches!((cx, cy), (Coord::Whole(_), Coord::Whole(_))),
                "polar {m:?}, {a:?} = ({x:?}, {y:?}) was refused: {why}"
            );
            ck!(
                matches!(back, Imaginary::PolarForm { modulus, argument } if modulus.to_bits() == m.to_bits() && argument.to_bits() == a.to_bits()),
                "polar {m:?}, {a:?} was refused and came back as {back:?}"
            );
            let fits = |c: Coord| match why {
                FE::DecimalsNotSupported(_) => matches!(c, Coord::Fraction | Coord::Near(_)),
                FE::TooLarge => matches!(c, Coord::Large | Coord::Near(_)),
                FE::NotFinite => c == Coord::NotFinite,
            };
            ck!(fits(cx) || fits(cy), "polar {m:?}, {a:?} = ({x:?}, {y:?}) was refused because: {why}");
            ctx.count(match why {
                FE::DecimalsNotSupported(_) => "refused.fraction",
                FE::TooLarge => "refused.large",
                FE::NotFinite => "refused.not_finite",
            });
        }
    }
    Ok(())
}
/// every pair of origins and signs through bytes
fn c15_ser(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let want = idx as usize % 170;
    let (a, b) = if want == 169 {
        (None, None)
    } else {
        let (oa, ob) = (ORIGINS[want / 13], ORIGINS[want % 13]);
        let pick = |r: &mut Rng, o: Origin| loop {
            let n = Num { origin: o, ..gen_num(r) };
            if n.fits(o) {
                return n;
            }
        };
        (Some(pick(r, oa)), Some(pick(r, ob)))
    };
    let m = match (a, b) {
        (Some(a), Some(b)) => MV::Cart(a, b),
        _ => MV::Polar(gen_f64(r, false, true), gen_f64(r, false, true)),
    };
    ctx.seen(&format!("{m:?}"));
    let Value::Imaginary(im) = to_value(&m) else { return Ok(()) };
    let (bits, bytes) = im.ser();
    ctx.count(&format!("magic.{bits}"));
    ck!(bits < 16, "{} has magic bits {bits}", show(&m));
    let extra = r.range(0, 5);
    let mut all = bytes.clone();
    all.extend(r.bytes(extra));
    let mut c = Cursor::new(&all);
    let back = Imaginary::deser(bits, &mut c).map_err(|e| format!("{} does not read back: {e}", show(&m)))?;
    ck!(c.pos() == bytes.len(), "{}: read {} of {} bytes", show(&m), c.pos(), bytes.len());
    same(&m, &Value::Imaginary(back)).map_err(|e| format!("through bytes: {e}"))?;
    if !m.has_nan() {
        ck!(back == im, "{} is not == after a trip through bytes", show(&m));
    }
    // by the independent decoder
    let mut v = vec![0x50 | bits];
    v.extend_from_slice(&bytes);
    let ind = rc::Dec::new(&v).value(None).map_err(|e| format!("{} as {} does not follow the layout: {e}", show(&m), hex(&v)))?;
    if let Some(d) = diff(&m, &ind) {
        return Err(format!("by the layout {} reads as something else{d}", hex(&v)));
    }
    // shortened
    if !bytes.is_empty() {
        let cut = r.us(bytes.len());
        ck!(Imaginary::deser(bits, &mut Cursor::new(&&bytes[..cut])).is_err(), "{} reads back from {cut} of {} bytes", show(&m), bytes.len());
    }
    Ok(())
}
pub const C15: &[Kind] = &[
    kind("to_polar", 60_000, 1_500_000, c15_to_polar),
    kind("floats", 60_000, 1_500_000, c15_floats),
    kind("to_cartesian", 100_000, 2_500_000, c15_to_cartesian),
    kind("bytes", 68_000, 1_000_000, c15_ser),
];

// ---------------------------------------------------------------- C16

const TYS: [ValueTy; 16] = [
    ValueTy::Character, ValueTy::String, ValueTy::Binary, ValueTy::Boolean, ValueTy::Integer, ValueTy::Imaginary, ValueTy::Timestamp,
    ValueTy::JSON, ValueTy::Map, ValueTy::Null, ValueTy::DoubleFloat, ValueTy::Array, ValueTy::Timezone, ValueTy::Ipv4Addr,
    ValueTy::Ipv6Addr, ValueTy::SingleFloat,
];
fn wrong(e: &ValueSerError, found: ValueTy, expected: ValueTy) -> bool {
    matches!(e, ValueSerError::UnexpectedValueType { found: f, expected: x } if *f == found && *x == expected)
}
macro_rules! accessors {
    ($ctx:expr, $r:expr, $m:expr; $($k:literal $variant:ident $name:ident $is:ident $as:ident $as_mut:ident $to:ident $t:ty),+ $(,)?) => { $(
        {
            let m: &MV = $m;
            let v = to_value(m);
            let own = m.kind() == $k;
            let found = TYS[m.kind() as usize];
            ck!(v.$is() == own, "{}() is {} for {}", stringify!($is), v.$is(), show(m));
            match v.$as() {
                Some(x) => {
                    ck!(own, "{}() gives something for {}", stringify!($as), show(m));
                    same(m, &Value::$variant(x.clone())).map_err(|e| format!("{}(): {e}", stringify!($as)))?;
                }
                None => ck!(!own, "{}() gives nothing for {}", stringify!($as), show(m)),
            }
            let mut w = to_value(m);
            match w.$as_mut() {
                Some(x) => {
                    ck!(own, "{}() gives something for {}", stringify!($as_mut), show(m));
                    // take the content out through the borrow, put other content in
                    let other: MV = gen_leaf_or($r, $k);
                    let Value::$variant(mut y) = to_value(&other) else { return Err("harness".into()) };
                    std::mem::swap(x, &mut y);
                    same(m, &Value::$variant(y)).map_err(|e| format!("{}(): {e}", stringify!($as_mut)))?;
                    same(&other, &w).map_err(|e| format!("after writing through {}(): {e}", stringify!($as_mut)))?;
                }
                None => {
                    ck!(!own, "{}() gives nothing for {}", stringify!($as_mut), show(m));
                    same(m, &w).map_err(|e| format!("after a failed {}(): {e}", stringify!($as_mut)))?;
                }
            }
            match v.clone().$to() {
                Some(x) => {
                    ck!(own, "{}() gives something for {}", stringify!($to), show(m));
                    // building from content and extracting again is the identity
                    let again = Value::$name(x.clone());
                    same(m, &again).map_err(|e| format!("{}() then {}(): {e}", stringify!($to), stringify!($name)))?;
                    let Some(y) = again.$to() else { return Err(format!("Value::{}(..).{}() gives nothing for {}", stringify!($name), stringify!($to), show(m))) };
                    same(m, &Value::$variant(y)).map_err(|e| format!("{}(): {e}", stringify!($to)))?;
                }
                None => ck!(!own, "{}() gives nothing for {}", stringify!($to), show(m)),
            }
            match <$t>::try_from(v) {
                Ok(x) => {
                    ck!(own, "{}::try_from succeeds for {}", stringify!($t), show(m));
                    same(m, &Value::$variant(x)).map_err(|e| format!("{}::try_from: {e}", stringify!($t)))?;
                }
                Err(e) => {
                    ck!(!own, "{}::try_from fails for {}: {e}", stringify!($t), show(m));
                    ck!(wrong(&e, found, ValueTy::$variant), "{}::try_from for {} says {e:?}", stringify!($t), show(m));
                    let t = e.to_string();
                    ck!(t.contains(&format!("{found:?}")) && t.contains(&format!("{:?}", ValueTy::$variant)), "{}::try_from for {} says {t:?}", stringify!($t), show(m));
                }
            }
            $ctx.add("accessor_calls", 5);
        }
    )+ };
}
fn gen_leaf_or(r: &mut Rng, k: u64) -> MV {
    match k {
        8 => MV::Map(vec![("other".into(), MV::Null)]),
        11 => MV::Arr(vec![MV::Bool(true)]),
        k => gen_leaf(r, &SMALL, k),
    }
}
fn c16_access(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let k = idx % 16;
    let m = match k {
        8 => {
            let n = r.range(0, 4);
            let c = Cfg { depth: 1, ..SMALL };
            MV::Map(gen_entries(r, &c, n))
        }
        11 => {
            let c = Cfg { depth: 1, ..SMALL };
            MV::Arr((0..r.range(0, 4)).map(|_| gen_value(r, &c)).collect())
        }
        k => gen_leaf(r, &SMALL, k),
    };
    ctx.count(&format!("kind.{}", m.kind_name()));
    ctx.seen(&format!("{m:?}"));
    let v = to_value(&m);
    let tests = [
        v.is_char(), v.is_str(), v.is_binary(), v.is_bool(), v.is_int(), v.is_imaginary(), v.is_timestamp(), v.is_json(), v.is_map(),
        v.is_null(), v.is_double_float(), v.is_array(), v.is_tz(), v.is_ipv4(), v.is_ipv6(), v.is_single_float(),
    ];
    ck!(tests.iter().filter(|x| **x).count() == 1, "kind tests say {tests:?} for {}", show(&m));
    accessors!(ctx, r, &m;
        0 Character char is_char as_char as_mut_char to_char char,
        1 String str is_str as_str as_mut_str to_str String,
        2 Binary binary is_binary as_binary as_mut_binary to_binary BinaryData,
        3 Boolean bool is_bool as_bool as_mut_bool to_bool bool,
        4 Integer int is_int as_int as_mut_int to_int Integer,
        5 Imaginary imaginary is_imaginary as_imaginary as_mut_imaginary to_imaginary Imaginary,
        6 Timestamp timestamp is_timestamp as_timestamp as_mut_timestamp to_timestamp chrono::NaiveDateTime,
        7 JSON json is_json as_json as_mut_json to_json SJ,
        8 Map map is_map as_map as_mut_map to_map hashbrown::HashMap<String, Value>,
        9 Null null is_null as_null as_mut_null to_null (),
        10 DoubleFloat double_float is_double_float as_double_float as_mut_double_float to_double_float f64,
        11 Array array is_array as_array as_mut_array to_array Vec<Value>,
        12 Timezone tz is_tz as_tz as_mut_tz to_tz chrono_tz::Tz,
        13 Ipv4Addr ipv4 is_ipv4 as_ipv4 as_mut_ipv4 to_ipv4 std::net::Ipv4Addr,
        14 Ipv6Addr ipv6 is_ipv6 as_ipv6 as_mut_ipv6 to_ipv6 std::net::Ipv6Addr,
        15 SingleFloat single_float is_single_float as_single_float as_mut_single_float to_single_float f32,
    );
    // a map is a store, and nothing else is
    match Store::try_from(to_value(&m)) {
        Ok(s) => {
            ck!(m.kind() == 8, "{} becomes a store", show(&m));
            same(&m, &Value::Map((*s).clone())).map_err(|e| format!("as a store: {e}"))?;
        }
        Err(e) => {
            ck!(m.kind() != 8, "{} does not become a store: {e}", show(&m));
            ck!(e.to_string().contains(m.kind_name()) || format!("{e:?}").contains(&format!("{:?}", TYS[m.kind() as usize])), "refusing {} as a store says {e}", show(&m));
        }
    }
    Ok(())
}
fn c16_ints(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let m = if idx % 4 == 0 {
        let c = Cfg { depth: 1, ..SMALL };
        gen_value(r, &c)
    } else {
        MV::Int(gen_num(r))
    };
    ctx.seen(&format!("{m:?}"));
    ctx.sample(|| show(&m));
    let found = TYS[m.kind() as usize];
    macro_rules! ints { ($($t:ty => $o:ident),+) => { $(
        match (<$t>::try_from(to_value(&m)), &m) {
            (Ok(x), MV::Int(n)) => {
                ck!(n.fits(Origin::$o) && x.to_string() == n.dec(), "{} as {} is {x}", n.dec(), stringify!($t));
                let v = Value::from(x);
                same(&m, &v).map_err(|e| format!("Value::from({x}_{}): {e}", stringify!($t)))?;
                ctx.count("int.fits");
            }
            (Err(e), MV::Int(n)) => {
                ck!(!n.fits(Origin::$o), "{} as {} is refused: {e}", n.dec(), stringify!($t));
                ctx.count("int.refused");
            }
            (Ok(x), m) => return Err(format!("{} as {} is {x}", show(m), stringify!($t))),
            (Err(e), m) => {
                ck!(wrong(&e, found, ValueTy::Integer), "{} as {} is refused with {e:?}", show(m), stringify!($t));
                ctx.count("other_kind.refused");
            }
        }
    )+ } }
    ints!(u8 => U8, u16 => U16, u32 => U32, u64 => U64, u128 => U128, usize => Us, i8 => I8, i16 => I16, i32 => I32, i64 => I64, i128 => I128, isize => Is);
    Ok(())
}
pub const C16: &[Kind] = &[kind("access", 32_000, 700_000, c16_access), kind("integers", 40_000, 900_000, c16_ints)];
