//! C01, C02, C05: what is written can be read, by the library and by others.
use crate::ck;
use crate::core::*;
use crate::model::*;
use crate::refcodec as rc;
use serde_json::Value as SJ;
use sourisdb::store::Store;
use sourisdb::utilities::{cursor::Cursor, huffman::Huffman};
use sourisdb::values::Value;

pub fn store_of(e: &[(String, MV)]) -> Store {
    Store::new(e.iter().map(|(k, v)| (k.clone(), to_value(v))))
}

fn note(ctx: &mut Ctx, m: &MV) {
    let mut ks = vec![];
    m.kinds(&mut |k| ks.push(k));
    for k in ks {
        ctx.count(&format!("kind.{k}"));
    }
    ctx.max("depth", m.depth() as u64);
    ctx.max("nodes", m.nodes() as u64);
}

/// write, read, compare
pub fn roundtrip_store(ctx: &mut Ctx, e: Vec<(String, MV)>) -> R {
    let st = store_of(&e);
    let bytes = st.ser();
    ctx.max("store_bytes", bytes.len() as u64);
    ctx.add("bytes_written", bytes.len() as u64);
    if let Some(h) = bytes.get(8) {
        ctx.count(&format!("header.{h:#04x}"));
    }
    let m = MV::Map(e);
    note(ctx, &m);
    ctx.seen(&bytes);
    ctx.sample(|| format!("{} -> {}", show(&m), hex(&bytes)));
    let MV::Map(e) = &m else { return Ok(()) };
    let back = Store::deser(&bytes).map_err(|x| format!("{} does not read back: {x}", show(&m)))?;
    ck!(back.len() == e.len(), "{} keys became {}: {}", e.len(), back.len(), show(&m));
    for (k, v) in e {
        let Some(got) = back.get(k) else {
            return Err(format!("key {k:?} is gone from {}", show(&m)));
        };
        same(v, got).map_err(|x| format!("under key {k:?}: {x}"))?;
    }
    same(&m, &Value::Map((*back).clone()))?;
    if !m.has_nan() {
        ck!(back == st, "store read back is not == to the one written: {}", show(&m));
    }
    // and once more, now that every integer has gone through bytes
    let again = Store::deser(&back.ser()).map_err(|x| format!("second reading: {x}"))?;
    same(&m, &Value::Map((*again).clone())).map_err(|x| format!("after a second round: {x}"))?;
    Ok(())
}

fn c01_mixed(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let n = match idx % 8 {
        0 => r.range(0, 1),
        1 => r.range(6, 9),
        2 => r.range(10, 60),
        _ => r.range(0, 8),
    };
    let e = gen_entries(r, &SMALL, n);
    roundtrip_store(ctx, e)
}
fn c01_one_kind(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let k = idx % 16;
    let v = match k {
        8 => MV::Map(vec![]),
        11 => MV::Arr(vec![]),
        k => gen_leaf(r, &SMALL, k),
    };
    let key = match r.below(5) {
        0 => String::new(),
        1 => "a".into(),
        _ => gen_key(r),
    };
    let v = if r.one_in(3) { MV::Arr(vec![v]) } else { v };
    roundtrip_store(ctx, vec![(key, v)])
}
fn c01_single_char(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    // all text in the store is made of one character, or of two
    let a = gen_char(r);
    let b = if r.one_in(3) { gen_char(r) } else { a };
    let mut mk = |n: usize| -> String { (0..n).map(|_| if r.one_in(4) { b } else { a }).collect() };
    let mut seen = std::collections::HashSet::new();
    let mut e = vec![];
    for i in 0..4_usize {
        let k = mk(i * 3 % 7);
        let v = match i {
            0 => MV::Str(mk(9)),
            1 => MV::Arr(vec![MV::Str(String::new()), MV::Str(mk(1)), MV::Str(mk(17))]),
            2 => MV::Map(vec![(mk(2), MV::Str(mk(300)))]),
            _ => MV::Str(mk(1)),
        };
        if seen.insert(k.clone()) {
            e.push((k, v));
        }
    }
    roundtrip_store(ctx, e)
}
fn c01_deep(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let n = [64, 63, 33, 20, 50, 7][idx as usize % 6];
    let k = r.below(16);
    let leaf = match k {
        8 => MV::Map(vec![]),
        11 => MV::Arr(vec![]),
        k => gen_leaf(r, &SMALL, k),
    };
    let v = nest(r, leaf, n - 1);
    let j = {
        let mut j = SJ::String(gen_text(r, 10));
        for i in 0..r.range(1, 100) {
            j = if i % 2 == 0 { SJ::Array(vec![j]) } else { serde_json::json!({ "k": j }) };
        }
        j
    };
    roundtrip_store(ctx, vec![("deep".into(), v), ("json".into(), MV::Json(j))])
}
fn c01_wide(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    // lengths around where encodings change
    let n = [0, 1, 5, 6, 7, 8, 9, 127, 128, 238, 239, 240, 241, 255, 256, 257, 1023, 1024, 1025, 1500, 5000][idx as usize % 21];
    let leaf = Cfg { depth: 0, ..SMALL };
    let small = n > 300;
    let gen = |r: &mut Rng| if small { let k = *r.pick(&[0, 3, 4, 9, 13]); gen_leaf(r, &leaf, k) } else { gen_value(r, &leaf) };
    let arr = MV::Arr((0..n).map(|_| gen(r)).collect());
    let map = MV::Map((0..n).map(|i| (format!("k{i}"), gen(r))).collect());
    let text: String = (0..n).map(|_| gen_char(r)).collect();
    let bin = r.bytes(n);
    let mut e = vec![("a".to_string(), arr), ("m".into(), map), ("t".into(), MV::Str(text)), ("b".into(), MV::Bin(bin))];
    for i in 0..n {
        e.push((format!("top{i}"), MV::Null));
    }
    roundtrip_store(ctx, e)
}
fn c01_huge(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let n = r.range(1 << 20, 5 << 20);
    let v = match idx % 6 {
        0 => MV::Str("x".repeat(n)),
        1 => {
            let mut s = String::with_capacity(n + 16);
            while s.len() < n {
                s.push(if r.one_in(50) { gen_char(r) } else { char::from(b'a' + r.below(26).min(r.below(26)) as u8) });
            }
            MV::Str(s)
        }
        2 => MV::Bin(vec![r.byte(); n]),
        3 => {
            let n = n / 2;
            MV::Bin(r.bytes(n))
        }
        4 => {
            let mut b = vec![];
            while b.len() < n {
                let m = r.range(1, 600);
                let x = r.byte();
                b.extend(std::iter::repeat(x).take(m));
            }
            MV::Bin(b)
        }
        _ => MV::Arr((0..n / 64).map(|i| MV::Int(Num::u(i as u128))).collect()),
    };
    ctx.count("several_megabytes");
    roundtrip_store(ctx, vec![("huge".into(), v), ("other".into(), MV::Bool(true))])
}
fn c01_big_text_code(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    // many distinct characters, skewed frequencies: long codes
    let n = r.range(2, 700);
    let mut s = String::new();
    let base = 0x4E00 + r.below(5000) as u32;
    let mut reps = 1_usize;
    for i in 0..n {
        if let Some(c) = char::from_u32(base + i as u32) {
            for _ in 0..reps {
                s.push(c);
            }
        }
        if i < 22 && r.bool() {
            reps = reps * 8 / 5 + 1;
        } else {
            reps = 1;
        }
    }
    roundtrip_store(ctx, vec![("t".into(), MV::Str(s))])
}
/// A float inside JSON that needs more precision than serde_json's default parser has.
fn c01_known(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mut bad = 0;
    let mut tried = 0;
    let mut example = None;
    let probe: f64 = 1.0715660391465826e26;
    let mut try_one = |f: f64| -> R {
        let Some(n) = serde_json::Number::from_f64(f) else { return Ok(()) };
        tried += 1;
        let st = Store::new([("j".to_string(), Value::JSON(SJ::Number(n)))]);
        let back = Store::deser(&st.ser()).map_err(|e| e.to_string())?;
        let got = back.get("j").and_then(|v| v.as_json()).and_then(SJ::as_f64);
        let Some(got) = got else { return Err(format!("JSON number {f:?} became {:?}", back.get("j"))) };
        if got.to_bits() != f.to_bits() {
            // known: the text is right; reading it back is off just as serde_json on its own is
            let alone = serde_json::from_str::<SJ>(&SJ::from(f).to_string()).ok().and_then(|v| v.as_f64());
            if alone.map(f64::to_bits) != Some(got.to_bits()) || (got - f).abs() > f.abs() * 2e-15 {
                return Err(format!("JSON number {f:?} became {got:?}, with serde_json alone {alone:?}"));
            }
            bad += 1;
            example.get_or_insert((f, got));
        }
        Ok(())
    };
    try_one(probe)?;
    for _ in 0..400 {
        let f = gen_f64(r, true, false);
        try_one(f)?;
    }
    ctx.add("json_float_probes", tried);
    if let Some((f, got)) = example {
        ctx.add("json_floats_off", bad);
        ctx.sample(|| format!("known: JSON number {f:?} reads back as {got:?}"));
        ctx.known.push("json-float-ulp".into());
    }
    Ok(())
}

pub const C01: &[Kind] = &[
    kind("mixed", 24_000, 600_000, c01_mixed),
    kind("one_kind", 24_000, 500_000, c01_one_kind),
    kind("single_char", 3_000, 60_000, c01_single_char),
    kind("deep", 1_200, 30_000, c01_deep),
    kind("wide", 126, 2_100, c01_wide),
    kind("huge", 18, 240, c01_huge),
    kind("big_text_code", 200, 6_000, c01_big_text_code),
    kind("known_json_float", 8, 200, c01_known),
];

// ---------------------------------------------------------------- C02

fn codes(r: &mut Rng, own: &str) -> (Option<Huffman<char>>, &'static str) {
    match r.below(7) {
        0 => (None, "none"),
        1 | 2 => (Huffman::new_str(own).ok(), "own"),
        3 => (Huffman::new_str(gen_text(r, 60)).ok(), "other"),
        4 => (Some(Huffman::new_with_english_frequencies()), "english"),
        5 => {
            // knows all but one of the characters
            let gone = own.chars().nth(r.us(own.chars().count().max(1)));
            let s: String = own.chars().filter(|c| Some(*c) != gone).collect();
            (Huffman::new_str(s).ok(), "lacking")
        }
        _ => {
            let c = own.chars().next().unwrap_or('q');
            (Huffman::new_str(c.to_string().repeat(r.range(1, 4))).ok(), "single")
        }
    }
}
fn c02_check(ctx: &mut Ctx, r: &mut Rng, m: &MV, h: Option<&Huffman<char>>, what: &str) -> R {
    let v = to_value(m);
    let enc = v.ser(h);
    let extra = r.range(0, 12);
    let mut bytes = enc.clone();
    match r.below(3) {
        0 => bytes.extend(std::iter::repeat(0).take(extra)),
        1 => bytes.extend(std::iter::repeat(0xFF).take(extra)),
        _ => bytes.extend(r.bytes(extra)),
    }
    let mut c = Cursor::new(&bytes);
    let back = Value::deser(&mut c, h)
        .map_err(|e| format!("code {what}: {} does not read back: {e} (bytes {})", show(m), hex(&enc)))?;
    same(m, &back).map_err(|e| format!("code {what}: {e} (bytes {})", hex(&enc)))?;
    ck!(
        c.pos() == enc.len(),
        "code {what}: reading {} used {} of {} bytes ({})", show(m), c.pos(), enc.len(), hex(&enc)
    );
    ctx.seen(&(&enc, what));
    ctx.count(&format!("code.{what}"));
    Ok(())
}
fn c02_value(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let m = if idx % 3 == 0 { let k = (idx / 3) % 16; if k == 8 || k == 11 { gen_value(r, &SMALL) } else { gen_leaf(r, &SMALL, k) } } else { gen_value(r, &SMALL) };
    let mut own = String::new();
    m.text(&mut own);
    ctx.sample(|| show(&m));
    let (h, what) = codes(r, &own);
    c02_check(ctx, r, &m, h.as_ref(), what)?;
    c02_check(ctx, r, &m, None, "none")
}
fn c02_stream(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let ms: Vec<MV> = (0..r.range(2, 9)).map(|_| gen_value(r, &SMALL)).collect();
    let mut own = String::new();
    ms.iter().for_each(|m| m.text(&mut own));
    let (h, what) = codes(r, &own);
    let mut bytes = vec![];
    let mut ends = vec![];
    for m in &ms {
        bytes.extend(to_value(m).ser(h.as_ref()));
        ends.push(bytes.len());
    }
    let mut c = Cursor::new(&bytes);
    for (i, m) in ms.iter().enumerate() {
        let v = Value::deser(&mut c, h.as_ref()).map_err(|e| format!("code {what}: value {i} of the stream ({}): {e}", show(m)))?;
        same(m, &v).map_err(|e| format!("code {what}: value {i} of the stream: {e}"))?;
        ck!(c.pos() == ends[i], "code {what}: value {i} ({}) ends at {} but reading stopped at {}", show(m), ends[i], c.pos());
    }
    ck!(c.is_finished(), "bytes left over after the last value");
    ctx.seen(&bytes);
    ctx.count("streams");
    ctx.add("streamed_values", ms.len() as u64);
    Ok(())
}
/// anything written with a code that used it can't be read without
fn c02_refused(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let m = loop {
        let m = gen_value(r, &SMALL);
        let mut t = String::new();
        m.text(&mut t);
        if !t.is_empty() {
            break m;
        }
    };
    let mut own = String::new();
    m.text(&mut own);
    let (h, what) = codes(r, &own);
    let Some(h) = h else { return Ok(()) };
    let bytes = to_value(&m).ser(Some(&h));
    // ask the independent decoder whether any text was coded
    let hb = h.ser();
    let mut d = rc::Dec::new(&hb);
    let tree = d.tree_char().map_err(|e| format!("code {what}: written code unreadable: {e}"))?;
    let mut d = rc::Dec::new(&bytes);
    let got = d.value(Some(&tree)).map_err(|e| format!("code {what}: independent decoder: {e}"))?;
    if let Some(x) = diff(&m, &got) {
        return Err(format!("code {what}: independent decoder: value{x}"));
    }
    if d.coded_strings > 0 {
        ctx.count("coded");
        ctx.seen(&bytes);
        let res = Value::deser(&mut Cursor::new(&bytes), None);
        ck!(res.is_err(), "code {what}: {} was written with a text code but read without one as {res:?}", show(&m));
    } else {
        ctx.count("not_coded");
        let v = Value::deser(&mut Cursor::new(&bytes), None).map_err(|e| format!("no text was coded, but: {e}"))?;
        same(&m, &v)?;
    }
    Ok(())
}
fn c02_big(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let n = r.range(100_000, 900_000);
    let s: String = (0..n).map(|_| char::from(b'a' + r.below(26).min(r.below(26)) as u8)).collect();
    let m = MV::Arr(vec![MV::Str(s.clone()), MV::Bin(r.bytes(5000)), MV::Str(String::new())]);
    let h = Huffman::new_str(&s).ok();
    c02_check(ctx, r, &m, h.as_ref(), "own")
}

pub const C02: &[Kind] = &[
    kind("value", 50_000, 1_200_000, c02_value),
    kind("stream", 12_000, 250_000, c02_stream),
    kind("refused_without_code", 16_000, 300_000, c02_refused),
    kind("big", 16, 200, c02_big),
];

// ---------------------------------------------------------------- C05

fn c05_reads_what_is_written(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let e = if idx % 4 == 0 {
        let k = (idx / 4) % 16;
        let v = if k == 8 || k == 11 { gen_value(r, &SMALL) } else { gen_leaf(r, &SMALL, k) };
        vec![(gen_key(r), v)]
    } else {
        let n = r.range(0, 9);
        gen_entries(r, &SMALL, n)
    };
    let bytes = store_of(&e).ser();
    let m = MV::Map(e);
    ctx.seen(&bytes);
    ctx.count("library_to_independent");
    ctx.sample(|| hex(&bytes));
    let (got, h) = rc::store(&bytes).map_err(|x| format!("independent decoder on {}: {x} (value {})", hex(&bytes), show(&m)))?;
    ctx.count(&format!("header.{h:#04x}"));
    if let Some(d) = diff(&m, &got) {
        return Err(format!("independent decoder: value{d} (bytes {})", hex(&bytes)));
    }
    let mut text = String::new();
    m.text(&mut text);
    ck!(text.is_empty() == (h & 0x80 == 0), "header byte {h:#x} for a store with {} bytes of text", text.len());
    // single values, without and with a code
    let MV::Map(e) = &m else { return Ok(()) };
    if let Some((_, v)) = e.first() {
        let b = to_value(v).ser(None);
        let mut d = rc::Dec::new(&b);
        let got = d.value(None).map_err(|x| format!("independent decoder: {x} (value {}, bytes {})", show(v), hex(&b)))?;
        ck!(d.p == b.len(), "independent decoder used {} of {} bytes of {}", d.p, b.len(), show(v));
        if let Some(x) = diff(v, &got) {
            return Err(format!("independent decoder: value{x} (bytes {})", hex(&b)));
        }
        ck!(b[0] >> 4 == v.kind(), "type nibble {} for {}", b[0] >> 4, show(v));
    }
    Ok(())
}
fn c05_reads_alternatives(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg { bin: 40, ..SMALL };
    let n = r.range(0, 8);
    let m = MV::Map(gen_entries(r, &cfg, n));
    let bytes = rc::enc_store(r, &m, true);
    ctx.seen(&bytes);
    ctx.count("independent_to_library");
    ctx.sample(|| hex(&bytes));
    let st = Store::deser(&bytes).map_err(|x| format!("{} in a legal encoding is refused: {x} (bytes {})", show(&m), hex(&bytes)))?;
    same(&m, &Value::Map((*st).clone())).map_err(|x| format!("{x} (bytes {})", hex(&bytes)))
}
fn c05_value_alternatives(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let k = idx % 16;
    let m = if k == 8 || k == 11 { gen_value(r, &SMALL) } else { gen_leaf(r, &SMALL, k) };
    let mut text = String::new();
    m.text(&mut text);
    let tree = if r.bool() { rc::tree_for(r, &text, true) } else { None };
    let e = rc::Enc { tree: tree.as_ref().map(|t| (t, t.codes())), alt: true };
    let mut b = vec![];
    e.value(r, &m, &mut b);
    ctx.seen(&b);
    ctx.count("independent_value_to_library");
    let n = b.len();
    b.extend([0x93, 0x21]);
    let h = match &tree {
        None => None,
        Some(t) => {
            let mut tb = vec![];
            rc::enc_tree_char(r, t, true, &mut tb);
            let mut c = Cursor::new(&tb);
            let h = Huffman::<char>::deser(&mut c).map_err(|x| format!("a legal text code is refused: {x} ({})", hex(&tb)))?;
            ck!(c.is_finished(), "reading a text code used {} of {} bytes", c.pos(), tb.len());
            Some(h)
        }
    };
    let mut c = Cursor::new(&b);
    let v = Value::deser(&mut c, h.as_ref()).map_err(|x| format!("{} in a legal encoding is refused: {x} (bytes {})", show(&m), hex(&b)))?;
    ck!(c.pos() == n, "{} in a legal encoding: used {} of {n} bytes ({})", show(&m), c.pos(), hex(&b));
    same(&m, &v).map_err(|x| format!("{x} (bytes {})", hex(&b)))
}

static GOLDEN: &str = include_str!("../golden.jsonl");
fn c05_golden(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let lines: Vec<&str> = GOLDEN.lines().collect();
    let _ = r;
    let i = idx as usize % lines.len().max(1);
    let Some(line) = lines.get(i) else { return Ok(()) };
    let j: SJ = serde_json::from_str(line).expect("harness: golden line");
    let m = crate::golden::from_json(&j["store"]);
    let bytes = crate::golden::unhex(j["hex"].as_str().expect("harness: golden hex"));
    ctx.count("recorded_stores");
    ctx.seen(&bytes);
    let st = Store::deser(&bytes).map_err(|x| format!("recorded store {i} is refused: {x} (bytes {})", hex(&bytes)))?;
    same(&m, &Value::Map((*st).clone())).map_err(|x| format!("recorded store {i}: {x} (bytes {})", hex(&bytes)))?;
    for v in j["values"].as_array().into_iter().flatten() {
        let m = crate::golden::from_json(&v["v"]);
        let b = crate::golden::unhex(v["hex"].as_str().expect("harness: golden hex"));
        ctx.count("recorded_values");
        let mut c = Cursor::new(&b);
        let got = Value::deser(&mut c, None).map_err(|x| format!("recorded value {}: {x} (bytes {})", show(&m), hex(&b)))?;
        ck!(c.is_finished(), "recorded value {}: used {} of {} bytes", show(&m), c.pos(), b.len());
        same(&m, &got).map_err(|x| format!("recorded value: {x} (bytes {})", hex(&b)))?;
    }
    Ok(())
}

pub const C05: &[Kind] = &[
    kind("library_to_independent", 40_000, 900_000, c05_reads_what_is_written),
    kind("independent_store", 30_000, 700_000, c05_reads_alternatives),
    kind("independent_value", 50_000, 1_200_000, c05_value_alternatives),
    kind("golden", 400, 400, c05_golden),
];
