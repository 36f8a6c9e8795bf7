//! C03, C04, C06: hostile bytes, and binary compression.
use crate::alloc;
use crate::ck;
use crate::core::*;
use crate::model::*;
use crate::refcodec as rc;
use serde_json::Value as SJ;
use sourisdb::store::Store;
use sourisdb::types::binary::{huffman::huffman, lz::lz, rle::rle, BinaryCompression, BinaryData};
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::{Integer, SignedState};
use sourisdb::utilities::{bits::Bits, cursor::Cursor, huffman::Huffman};
use sourisdb::values::Value;
use std::hash::{Hash, Hasher};

pub const METHODS: [BinaryCompression; 4] = [
    BinaryCompression::Nothing,
    BinaryCompression::RunLengthEncoding,
    BinaryCompression::LempelZiv,
    BinaryCompression::Huffman,
];
const SIGNS: [SignedState; 3] = [SignedState::Unsigned, SignedState::SignedPositive, SignedState::SignedNegative];

pub const DECODERS: [&str; 22] = [
    "store", "value", "value+code", "value+tiny_code", "binary.none", "binary.rle", "binary.lz", "binary.huffman",
    "integer.u", "integer.sp", "integer.sn", "complex.polar", "complex.cartesian", "complex.any", "code.char", "code.u8", "bits",
    "json", "store.json", "serde", "code.char+bits", "code.u8+bits",
];

/// Feed bytes to a decoder: Ok(accepted), Err(broken)
fn decode(d: usize, b: &[u8], en: &Huffman<char>, tiny: &Huffman<char>) -> Result<bool, String> {
    let mut c = Cursor::new(&b);
    let ok = match d {
        0 => return Ok(Store::deser(b).is_ok()),
        1 => Value::deser(&mut c, None).is_ok(),
        2 => Value::deser(&mut c, Some(en)).is_ok(),
        3 => Value::deser(&mut c, Some(tiny)).is_ok(),
        4..=7 => BinaryData::deser(METHODS[d - 4], &mut c).is_ok(),
        8..=10 => Integer::deser(SIGNS[d - 8], &mut c).is_ok(),
        11 => Imaginary::deser(0, &mut c).is_ok(),
        12 => Imaginary::deser(1 + (b.len() % 9) as u8, &mut c).is_ok(),
        13 => Imaginary::deser(b.first().copied().unwrap_or(3), &mut c).is_ok(),
        14 => Huffman::<char>::deser(&mut c).is_ok(),
        15 => Huffman::<u8>::deser(&mut c).is_ok(),
        16 => Bits::deser(&mut c).is_ok(),
        17 => return Ok(Store::from_json_bytes(b).is_ok()),
        18 => return Ok(serde_json::from_slice::<SJ>(b).is_ok_and(|j| Value::convert_from_json(j).is_ok())),
        19 => return Ok(Store::from_bytes::<SJ>(b).is_ok()),
        20 => match Huffman::<char>::deser(&mut c) {
            Ok(h) => Bits::deser(&mut c).is_ok_and(|bits| h.decode_string(bits).is_ok()),
            Err(_) => false,
        },
        _ => match Huffman::<u8>::deser(&mut c) {
            Ok(h) => Bits::deser(&mut c).is_ok_and(|bits| h.decode(bits).is_ok()),
            Err(_) => false,
        },
    };
    if c.pos() > b.len() {
        return Err(format!("cursor at {} of {} bytes", c.pos(), b.len()));
    }
    Ok(ok)
}

/// could a huffman run (whose count is not backed by input) be in there?
pub fn may_hold_run(d: usize, b: &[u8]) -> bool {
    let pat = |b: &[u8]| b.windows(2).any(|w| w[0] == 0x23 && w[1] == 1) || b.windows(1).any(|w| w[0] >> 4 == 2 && false);
    match d {
        0 | 19 => {
            let Some(rest) = b.get(9..) else { return false };
            if b[8] & 0x7F == 3 && rest.first() == Some(&1) {
                return true;
            }
            let mut dec = rc::Dec { b: rest, p: 0, strict: false, coded_strings: 0 };
            match dec.binary(b[8] & 0x7F) {
                Ok(body) => pat(&body),
                Err(_) => false,
            }
        }
        1..=3 => pat(b),
        7 => b.first() == Some(&1),
        _ => false,
    }
}

fn english() -> (Huffman<char>, Huffman<char>) {
    (
        Huffman::new_with_english_frequencies(),
        Huffman::new_str("aab").unwrap_or_else(|_| Huffman::new_with_english_frequencies()),
    )
}

fn feed(ctx: &mut Ctx, d: usize, b: &[u8], en: &Huffman<char>, tiny: &Huffman<char>) -> R {
    let m = alloc::mark();
    let r = guarded(|| decode(d, b, en, tiny));
    let (peak, biggest) = alloc::since(m);
    ctx.add("decodes", 1);
    let r = match r {
        None => return Err(format!("decoder {} {} on {}", DECODERS[d], last_panic(), hex(b))),
        Some(r) => r.map_err(|e| format!("decoder {}: {e} on {}", DECODERS[d], hex(b)))?,
    };
    ctx.count(if r { DECODERS_OK[d] } else { DECODERS_ERR[d] });
    ctx.max(&format!("peak.{}", DECODERS[d]), peak as u64);
    if b.len() <= 512 && peak > 96 << 20 && !cfg!(feature = "plain_alloc") && !may_hold_run(d, b) {
        return Err(format!(
            "decoder {} reserved {peak} bytes (biggest request {biggest}) for {} bytes of input: {}",
            DECODERS[d], b.len(), hex(b)
        ));
    }
    Ok(())
}
macro_rules! names { ($suf:literal) => { [
    concat!("store", $suf), concat!("value", $suf), concat!("value+code", $suf), concat!("value+tiny_code", $suf),
    concat!("binary.none", $suf), concat!("binary.rle", $suf), concat!("binary.lz", $suf), concat!("binary.huffman", $suf),
    concat!("integer.u", $suf), concat!("integer.sp", $suf), concat!("integer.sn", $suf), concat!("complex.polar", $suf),
    concat!("complex.cartesian", $suf), concat!("complex.any", $suf), concat!("code.char", $suf), concat!("code.u8", $suf), concat!("bits", $suf),
    concat!("json", $suf), concat!("store.json", $suf), concat!("serde", $suf), concat!("code.char+bits", $suf), concat!("code.u8+bits", $suf),
] } }
const DECODERS_OK: [&str; 22] = names!(".accepted");
const DECODERS_ERR: [&str; 22] = names!(".refused");

/// every string of up to two bytes (then three, in slices)
fn c03_exhaustive(ctx: &mut Ctx, _: &mut Rng, idx: u64) -> R {
    let (en, tiny) = english();
    // idx = first byte (0..256); the empty string with idx 0
    let a = (idx % 256) as u8;
    let mut b = vec![];
    if a == 0 {
        for d in 0..22 {
            feed(ctx, d, &b, &en, &tiny)?;
        }
    }
    b.push(a);
    for d in 0..22 {
        feed(ctx, d, &b, &en, &tiny)?;
    }
    for x in 0..=255 {
        b.truncate(1);
        b.push(x);
        for d in 0..22 {
            feed(ctx, d, &b, &en, &tiny)?;
            let mut s = b"SOURISDB".to_vec();
            s.extend(&b);
            if d == 0 {
                feed(ctx, 0, &s, &en, &tiny)?;
            }
        }
    }
    if idx >= 256 {
        // thorough: one slice of the three byte strings for the most important decoders
        let second = ((idx / 256 - 1) % 256) as u8;
        for x in 0..=255_u8 {
            let b = [a, second, x];
            for d in [1, 2, 4, 5, 6, 7, 14, 15, 16, 20, 21] {
                feed(ctx, d, &b, &en, &tiny)?;
            }
        }
    }
    ctx.seen(&("exhaustive", idx));
    Ok(())
}
fn c03_random(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let (en, tiny) = english();
    let n = if r.one_in(5) { r.range(0, 400) } else { r.range(3, 40) };
    let mut b = r.bytes(n);
    if r.bool() {
        for x in &mut b {
            if r.bool() {
                *x = *r.pick(&[0, 1, 2, 3, 0x10, 0x11, 0x20, 0x21, 0x22, 0x23, 0x70, 0x80, 0x81, 0x82, 0xB0, 0xB1, 0xB2, 0xC0, 0xEF, 0xF0, 0xF1, 0xFF]);
            }
        }
    }
    ctx.seen(&b);
    for d in 0..22 {
        if d == 0 || d == 19 {
            let mut s = b"SOURISDB".to_vec();
            s.push(if r.bool() { 0x80 } else { 0 } | r.below(4) as u8);
            s.extend(&b);
            feed(ctx, d, &s, &en, &tiny)?;
        } else {
            feed(ctx, d, &b, &en, &tiny)?;
        }
    }
    Ok(())
}
fn any_int(r: &mut Rng, out: &mut Vec<u8>) {
    match r.below(4) {
        0 => out.push(r.byte()),
        1 => {
            // a length spread over all magnitudes
            let n = 1_u128 << r.below(128);
            rc::enc_int(r, &Num::u(n.wrapping_sub(u128::from(r.0 & 3))), true, out);
        }
        2 => {
            let k = r.range(1, 16);
            out.push(239 + k as u8);
            out.extend(std::iter::repeat(*r.pick(&[0xFF, 0, 0x7F, 0x80])).take(k));
        }
        _ => {
            let n = r.us(300);
            rc::enc_us(r, n, true, out);
        }
    }
}
/// structured nonsense
fn hostile_body(r: &mut Rng, out: &mut Vec<u8>, depth: usize) {
    for _ in 0..r.range(1, 4) {
        match r.below(14) {
            0 => {
                out.push(*r.pick(&[0xB1, 0x81]));
                any_int(r, out);
            }
            1 => {
                // nested containers
                let n = *r.pick(&[1, 5, 100, 127, 128, 129, 130, 300, 5_000]);
                for _ in 0..n {
                    if r.bool() {
                        out.push(0xB2);
                    } else {
                        out.extend([0x82, 0x10, 0]);
                    }
                }
            }
            2 => {
                out.push(0x10 | r.below(2) as u8);
                any_int(r, out);
                let n = r.us(20);
                out.extend(r.bytes(n));
            }
            3 => {
                out.push(0x20 | r.below(5) as u8);
                any_int(r, out);
                if r.bool() {
                    any_int(r, out);
                }
                let n = r.us(30);
                out.extend(r.bytes(n));
            }
            4 => {
                out.push(0x40 | r.below(4) as u8);
                any_int(r, out);
            }
            5 => {
                out.push(0x50 | r.below(16) as u8);
                any_int(r, out);
                any_int(r, out);
            }
            6 => {
                out.push(0x60 | r.below(4) as u8);
                for _ in 0..7 {
                    any_int(r, out);
                }
            }
            7 => {
                // JSON text
                out.extend([0x70, 0x10]);
                let s = match r.below(5) {
                    0 => "[".repeat(*r.pick(&[10, 126, 127, 128, 129, 3000])),
                    1 => format!("{}{}", "[".repeat(100), "]".repeat(100)),
                    2 => "1e999".into(),
                    3 => format!("{{\"a\":{}}}", "9".repeat(r.range(1, 400))),
                    _ => gen_text(r, 30),
                };
                rc::enc_us(r, s.len(), false, out);
                out.extend(s.as_bytes());
            }
            8 => {
                out.push(0);
                any_int(r, out);
            }
            9 => {
                out.extend([0xC0, 0x10]);
                let s = if r.bool() { "Europe/London".to_string() } else { gen_text(r, 20) };
                rc::enc_us(r, s.len(), false, out);
                out.extend(s.as_bytes());
            }
            10 => {
                out.push(*r.pick(&[0xD0, 0xE0, 0xA0, 0xF0, 0x30, 0x90]));
                let n = r.us(17);
                out.extend(r.bytes(n));
            }
            11 if depth > 0 => {
                // compressed data in which more nonsense hides
                let mut b = vec![];
                hostile_body(r, &mut b, depth - 1);
                let m = r.below(4) as u8;
                out.push(0x20 | m);
                rc::enc_binary(r, &b, m, true, out);
            }
            12 => {
                let e = rc::Enc { tree: None, alt: true };
                let v = gen_value(r, &SMALL);
                e.value(r, &v, out);
            }
            _ => {
                let n = r.us(12);
                out.extend(r.bytes(n));
            }
        }
    }
}
fn hostile_tree(r: &mut Rng, char_tree: bool, out: &mut Vec<u8>) {
    match r.below(5) {
        0 => {
            let n = *r.pick(&[1, 10, 200, 255, 256, 257, 300, 4000, 60_000]);
            for _ in 0..n {
                if char_tree && r.one_in(50) {
                    out.extend([0xF0, 0]);
                } else {
                    out.push(0);
                }
                if r.one_in(2) {
                    if char_tree { any_int(r, out) } else { out.extend([1, r.byte()]) }
                }
            }
        }
        1 if char_tree => {
            // left leaning: leaf, branch, leaf, branch...
            for i in 0..*r.pick(&[3_usize, 100, 254, 255, 256, 257, 600, 30_000]) {
                out.push(0);
                rc::enc_us(r, 66 + i % 1000, false, out);
            }
            rc::enc_us(r, 70, false, out);
        }
        2 if char_tree => {
            // not characters
            out.push(0);
            let a = *r.pick(&[0xD801_u128, 0xE000, 0xDFFF + 1, 0x11_0000, 0x11_0001, 0x11_0002, 1 << 32, (1 << 32) + 1, u128::MAX, 1 << 64]);
            rc::enc_int(r, &Num::u(a), true, out);
            any_int(r, out);
        }
        _ => {
            let syms: Vec<u32> = (0..r.range(1, 30)).map(|i| if char_tree { gen_char(r) as u32 } else { i as u32 }).collect();
            let t = rc::random_tree(r, &syms);
            if char_tree { rc::enc_tree_char(r, &t, true, out) } else { rc::enc_tree_u8(&t, out) }
        }
    }
}
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            b.push(r.byte());
            continue;
        }
        let i = r.us(b.len());
        match r.below(9) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.byte(),
            2 => b[i] = *r.pick(&[0, 1, 2, 0x7F, 0x80, 0xEF, 0xF0, 0xF1, 0xF7, 0xFE, 0xFF]),
            3 => {
                b.insert(i, r.byte());
            }
            4 => {
                b.remove(i);
            }
            5 => b.truncate(i),
            6 => {
                let n = r.range(1, 12).min(b.len() - i);
                let s = b[i..i + n].to_vec();
                let j = r.us(b.len());
                for (k, x) in s.into_iter().enumerate() {
                    b.insert((j + k).min(b.len()), x);
                }
            }
            7 => {
                let mut n = vec![];
                any_int(r, &mut n);
                b.splice(i..=i, n);
            }
            _ => b[i] = b[i].wrapping_add(if r.bool() { 1 } else { 0xFF }),
        }
    }
}
/// (which decoder, bytes)
pub fn gen_hostile(r: &mut Rng) -> (usize, Vec<u8>) {
    let mut b = vec![];
    match r.below(12) {
        0..=2 => {
            // store, mutated after compression or before it
            let n = r.range(0, 5);
            let m = MV::Map(gen_entries(r, &SMALL, n));
            b = rc::enc_store(r, &m, true);
            if r.one_in(10) {
                mutate(r, &mut b);
            } else if b.len() > 8 {
                let mut tail = b.split_off(8);
                mutate(r, &mut tail);
                b.extend(tail);
            }
            (if r.one_in(4) { 19 } else { 0 }, b)
        }
        3..=5 => {
            // store around a hostile or mutated body
            let coded = r.bool();
            let mut body = vec![];
            if coded {
                hostile_tree(r, true, &mut body);
            }
            if r.bool() {
                let e = rc::Enc { tree: None, alt: true };
                let n = r.range(0, 4);
                let m = MV::Map(gen_entries(r, &SMALL, n));
                let mut v = vec![];
                e.value(r, &m, &mut v);
                mutate(r, &mut v);
                body.extend(v);
            } else {
                if r.bool() {
                    body.extend([0x82, 0x10, 0]);
                }
                hostile_body(r, &mut body, 2);
            }
            b.extend(b"SOURISDB");
            let m = r.below(4) as u8;
            b.push(u8::from(coded) << 7 | m);
            rc::enc_binary(r, &body, m, false, &mut b);
            (0, b)
        }
        6 | 7 => {
            hostile_body(r, &mut b, 2);
            (1 + r.us(3), b)
        }
        8 => {
            let v = gen_value(r, &SMALL);
            let mut t = String::new();
            v.text(&mut t);
            let e = rc::Enc { tree: None, alt: true };
            e.value(r, &v, &mut b);
            mutate(r, &mut b);
            (1 + r.us(3), b)
        }
        9 => {
            let m = r.below(4) as u8;
            let data = gen_bin(r, 60);
            rc::enc_binary(r, &data, m, true, &mut b);
            mutate(r, &mut b);
            if r.one_in(3) {
                any_int(r, &mut b);
                b.rotate_right(1);
            }
            (4 + usize::from(m), b)
        }
        10 => {
            let ch = r.bool();
            hostile_tree(r, ch, &mut b);
            if r.bool() {
                any_int(r, &mut b);
                let n = r.us(40);
                b.extend(r.bytes(n));
            }
            (*r.pick(if ch { &[14, 20] } else { &[15, 21] }), b)
        }
        _ => {
            let d = *r.pick(&[8, 9, 10, 11, 12, 13, 16, 17, 18]);
            if d >= 17 {
                b = match r.below(4) {
                    0 => (*r.pick(&["[", "{\"a\":", "[[{\"x\":["])).repeat(r.range(1, 200_000)).into_bytes(),
                    1 => {
                        let mut s = gen_json(r, 4, 4, 20).to_string().into_bytes();
                        mutate(r, &mut s);
                        s
                    }
                    2 => format!("{}{}{}", "[".repeat(r.range(1, 127)), r.below(9), "]".repeat(r.range(1, 127))).into_bytes(),
                    _ => hostile_marker(r).to_string().into_bytes(),
                };
            } else {
                any_int(r, &mut b);
                any_int(r, &mut b);
                if r.bool() {
                    let n = r.us(20);
                    b.extend(r.bytes(n));
                }
            }
            (d, b)
        }
    }
}
pub fn hostile_marker(r: &mut Rng) -> SJ {
    let t = match r.below(4) {
        0 => SJ::from(r.u64()),
        1 => SJ::from(r.u64() as i64),
        2 => gen_json(r, 1, 2, 8),
        _ => SJ::from(r.below(20)),
    };
    let mut o = serde_json::Map::new();
    o.insert("souris_type".into(), t);
    for k in ["real", "imaginary", "modulus", "argument", "timestamp", "timezone", "bytes", "octets"] {
        if r.one_in(3) {
            let v = match r.below(5) {
                0 => SJ::Array((0..r.range(0, 18)).map(|_| SJ::from(r.below(300))).collect()),
                1 => SJ::String(gen_text(r, 12)),
                2 => SJ::String((*r.pick(&["2020-01-01T00:00:00", "2020-01-01 00:00:00", "9999999-01-01 0:0:0", "2016-12-31 23:59:60.5", "UTC", "Europe/London"])).into()),
                3 => serde_json::Number::from_f64(gen_json_float(r)).map_or(SJ::Null, SJ::Number),
                _ => gen_json(r, 2, 3, 8),
            };
            o.insert(k.into(), v);
        }
    }
    let o = SJ::Object(o);
    if r.bool() { o } else { SJ::Array(vec![o]) }
}
fn c03_hostile(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let (en, tiny) = english();
    let (d, b) = gen_hostile(r);
    ctx.seen(&b);
    ctx.sample(|| format!("{}: {}", DECODERS[d], hex(&b)));
    feed(ctx, d, &b, &en, &tiny)?;
    // any other decoder has to survive it as well
    let d = r.us(22);
    feed(ctx, d, &b, &en, &tiny)
}
/// lengths the input can't back, at every magnitude
fn c03_lengths(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let (en, tiny) = english();
    let bit = (idx % 128) as u32;
    let n = (1_u128 << bit).wrapping_add(u128::from(r.below(7))).wrapping_sub(u128::from(r.below(7)));
    let mut int = vec![];
    rc::enc_int(r, &Num::u(n), false, &mut int);
    let tail_n = r.us(40);
    let tail = r.bytes(tail_n);
    let cat = |p: &[u8]| {
        let mut v = p.to_vec();
        v.extend(&int);
        v.extend(&tail);
        v
    };
    let mut twice = int.clone();
    twice.extend(&int);
    twice.extend(&tail);
    let run_ok = n > alloc::MAX_ONE as u128 || n < 1 << 22;
    let mut cases: Vec<(usize, Vec<u8>)> = vec![
        (1, cat(&[0xB1])), (1, cat(&[0x81])), (1, cat(&[0x10])), (2, cat(&[0x11])), (1, cat(&[0x20])), (1, cat(&[0x21])), (1, cat(&[0x22])),
        (4, cat(&[])), (5, cat(&[])), (6, cat(&[])), (6, twice.clone()), (16, cat(&[])), (14, cat(&[0])), (20, cat(&[0, 66, 67])), (21, cat(&[0, 1, 66, 1, 67])),
        (7, cat(&[2, 0, 1, 5, 1, 6])), (1, cat(&[0x71, 0x10])), (1, cat(&[0xC0, 0x10])), (1, cat(&[0xB1, 3, 0xB1])), (1, cat(&[0x82, 0x10, 0, 0x81])),
    ];
    // LZ: a short valid block that claims to be long
    let mut lz = int.clone();
    let blk = rc::lz4_encode(r, &tail);
    rc::enc_us(r, blk.len(), false, &mut lz);
    lz.extend(&blk);
    cases.push((6, lz));
    if run_ok {
        cases.push((7, cat(&[1])));
        cases.push((1, cat(&[0x23, 1])));
        let mut s = b"SOURISDB\x03\x01".to_vec();
        s.extend(&int);
        s.push(0x90);
        cases.push((0, s));
    }
    let before = cases.clone();
    for (d, b) in before {
        if d == 1 {
            let mut s = b"SOURISDB".to_vec();
            let m = r.below(3) as u8;
            s.push(m);
            let mut body = vec![0x82, 0x10, 0];
            body.extend(&b);
            rc::enc_binary(r, &body, m, false, &mut s);
            cases.push((0, s));
        }
    }
    for (d, b) in cases {
        ctx.seen(&b);
        if !run_ok && may_hold_run(d, &b) {
            continue;
        }
        feed(ctx, d, &b, &en, &tiny)?;
    }
    ctx.count("length_magnitudes");
    Ok(())
}

pub const C03: &[Kind] = &[
    kind("exhaustive_short", 256, 256 * 17, c03_exhaustive),
    kind("random", 24_000, 800_000, c03_random),
    kind("hostile", 260_000, 8_000_000, c03_hostile),
    kind("lengths", 2_560, 60_000, c03_lengths),
    kind("uniform", 256, 2_048, c03_uniform),
];

/// a store whose body is one byte over and over: megabytes out of a few bytes, behind various beginnings
fn c03_uniform(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let x = idx as u8;
    let n = (1 << 21) + r.us(1 << 12);
    let mut body = match (idx / 256) % 4 {
        0 => vec![],
        1 => Value::Map([("k".to_string(), Value::Null(()))].into_iter().collect()).ser(None),
        2 => vec![r.byte()],
        _ => (0..r.range(1, 12)).map(|_| r.byte()).collect(),
    };
    if !body.is_empty() && (idx / 256) % 4 == 1 {
        body.pop();
    }
    body.resize(body.len() + n, x);
    let (m, mut packed) = BinaryData(body).ser();
    let flag = if r.one_in(4) { 0x80 } else { 0 };
    let mut b = b"SOURISDB".to_vec();
    b.push(u8::from(m) | flag);
    b.append(&mut packed);
    let (en, tiny) = english();
    ctx.seen(&b);
    let mark = alloc::mark();
    for d in [0, 19] {
        feed(ctx, d, &b, &en, &tiny)?;
    }
    // the megabytes themselves, and at most a value for each byte of them
    let peak = alloc::since(mark).0;
    ctx.max("uniform.peak", peak as u64);
    if !cfg!(feature = "plain_alloc") {
        let per = if idx < 256 { 100 } else { 500 };
        ck!(peak < n * per, "{peak} bytes reserved for {} bytes of input that unpack to {n}: {}", b.len(), hex(&b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn hash(v: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn size(m: &MV) -> usize {
    match m {
        MV::Str(s) | MV::Tz(s) => s.len() + 8,
        MV::Bin(b) => b.len() + 8,
        MV::Arr(a) => a.iter().map(size).sum::<usize>() + 8,
        MV::Map(e) => e.iter().map(|(k, v)| k.len() + size(v)).sum::<usize>() + 8,
        _ => 8,
    }
}
/// What a store keeps of a JSON value is its text, and serde_json's reading of it: true if that reading changes it
pub fn reread_json(m: &mut MV) -> bool {
    match m {
        MV::Json(j) => match serde_json::from_str::<SJ>(&j.to_string()) {
            Ok(k) if !json_same(j, &k) => {
                *j = k;
                true
            }
            _ => false,
        },
        MV::Arr(a) => a.iter_mut().fold(false, |x, v| reread_json(v) | x),
        MV::Map(e) => e.iter_mut().fold(false, |x, (_, v)| reread_json(v) | x),
        _ => false,
    }
}
macro_rules! conversions { ($v:expr, $($t:ty),+) => { $( let _ = <$t>::try_from($v.clone()); )+ } }
pub fn exercise(ctx: &mut Ctx, v: &Value, from: &[u8]) -> R {
    let mut m = from_value(v)?;
    ctx.add("accepted", 1);
    let mut ks = std::collections::BTreeSet::new();
    m.kinds(&mut |k| {
        ks.insert(k);
    });
    for k in ks {
        ctx.count(&format!("accepted_with.{k}"));
    }
    ctx.max("accepted_depth", m.depth() as u64);
    if size(&m) > 3 << 20 {
        ctx.count("too_big_to_exercise");
        return Ok(());
    }
    let c = v.clone();
    if let Some(d) = diff(&m, &from_value(&c)?) {
        return Err(format!("clone differs{d}"));
    }
    if !m.has_nan() {
        ck!(*v == c && c == *v, "value is not equal to its clone: {} (from {})", show(&m), hex(from));
        ck!(hash(v) == hash(&c), "value and clone hash differently: {} (from {})", show(&m), hex(from));
    } else {
        let _ = (*v == c, hash(v));
    }
    ck!(!format!("{v:?}").is_empty(), "empty debug output");
    let _ = v.to_string();
    let _ = c.clone().convert_to_json(true);
    let _ = c.clone().convert_to_json(false);
    conversions!(c, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f64, f32, String, bool);
    for x in [v] {
        if let Value::Integer(i) = x {
            let _ = (f64::from(*i), f32::from(*i), i.to_json(), i.is_negative());
        }
        if let Value::Imaginary(i) = x {
            let _ = i.to_polar_form().to_cartesian_form();
            let _ = i.to_cartesian_form();
        }
    }
    let b = v.ser(None);
    let back = Value::deser(&mut Cursor::new(&b), None)
        .map_err(|e| format!("{} was accepted and saved but not reloaded: {e} (from {})", show(&m), hex(from)))?;
    if reread_json(&mut m) {
        ctx.count("json_float_reread");
        ctx.known.push("json-float-ulp".into());
    }
    same(&m, &back).map_err(|e| format!("accepted, saved, reloaded: {e} (from {})", hex(from)))
}
fn accept(ctx: &mut Ctx, d: usize, b: &[u8]) -> R {
    let (en, tiny) = english();
    let v = match d {
        0 | 19 => match Store::deser(b) {
            Ok(s) => {
                ctx.count("stores_accepted");
                let mut m = MV::Map(vec![]);
                let v = Value::Map((*s).clone());
                if let Ok(x) = from_value(&v) {
                    m = x;
                }
                if size(&m) < 1 << 20 {
                    let bytes = s.ser();
                    let back = Store::deser(&bytes).map_err(|e| format!("store accepted and saved but not reloaded: {e} (from {})", hex(b)))?;
                    reread_json(&mut m);
                    same(&m, &Value::Map((*back).clone())).map_err(|e| format!("store accepted, saved, reloaded: {e} (from {})", hex(b)))?;
                    let _ = (s.to_string(), format!("{s:?}"), s.clone().to_json(true), s.clone().to_json(false), s.clone() == back);
                    // the map inside is exercised one container at a time: as deep as values may go
                    for v in s.values() {
                        ctx.seen(&b);
                        exercise(ctx, v, b)?;
                    }
                } else {
                    ctx.count("too_big_to_exercise");
                }
                return Ok(());
            }
            Err(_) => None,
        },
        1 => Value::deser(&mut Cursor::new(&b), None).ok(),
        2 => Value::deser(&mut Cursor::new(&b), Some(&en)).ok(),
        3 => Value::deser(&mut Cursor::new(&b), Some(&tiny)).ok(),
        4..=7 => BinaryData::deser(METHODS[d - 4], &mut Cursor::new(&b)).ok().map(Value::Binary),
        8..=10 => Integer::deser(SIGNS[d - 8], &mut Cursor::new(&b)).ok().map(Value::Integer),
        11..=13 => Imaginary::deser((d == 13).then(|| b.first().copied().unwrap_or(1)).unwrap_or(if d == 11 { 0 } else { 1 + (b.len() % 9) as u8 }), &mut Cursor::new(&b)).ok().map(Value::Imaginary),
        17 => Store::from_json_bytes(b).ok().map(|s| Value::Map((*s).clone())),
        18 => serde_json::from_slice::<SJ>(b).ok().and_then(|j| Value::convert_from_json(j).ok()),
        _ => return codes(ctx, d, b),
    };
    match v {
        Some(v) => {
            ctx.seen(&b);
            exercise(ctx, &v, b)
        }
        None => {
            ctx.add("refused", 1);
            Ok(())
        }
    }
}
/// accepted text codes and bit sequences
fn codes(ctx: &mut Ctx, d: usize, b: &[u8]) -> R {
    let mut c = Cursor::new(&b);
    if d == 16 {
        if let Ok(bits) = Bits::deser(&mut c) {
            ctx.count("bits_accepted");
            ctx.seen(&b);
            let back = Bits::deser(&mut Cursor::new(&bits.ser())).map_err(|e| format!("bits accepted but not reloaded: {e:?} (from {})", hex(b)))?;
            ck!(back == bits && hash(&back) == hash(&bits) && back.to_string() == bits.to_string() && back.len() == bits.len(), "bits accepted from {} changed by a reload", hex(b));
            let v: Vec<bool> = bits.clone().into();
            ck!(Bits::from(&v) == bits && hash(&Bits::from(&v)) == hash(&bits), "bits accepted from {} are not equal to the same bits", hex(b));
            let mut p = bits.clone();
            for want in v.iter().rev() {
                ck!(p.pop() == Some(*want), "popping bits accepted from {}", hex(b));
            }
        }
    } else if d == 14 || d == 20 {
        if let Ok(h) = Huffman::<char>::deser(&mut c) {
            ctx.count("codes_accepted");
            ctx.seen(&b);
            let h2 = Huffman::<char>::deser(&mut Cursor::new(&h.ser())).map_err(|e| format!("code accepted but not reloaded: {e} (from {})", hex(b)))?;
            ck!(h.ser() == h2.ser(), "code accepted from {} changed by a reload", hex(b));
            let _ = format!("{h:?}");
            if let Ok(bits) = Bits::deser(&mut c) {
                if let Ok(s) = h.decode_string(bits) {
                    ctx.count("coded_text_accepted");
                    if s.len() < 1 << 16 {
                        // may be refused if the code has a symbol twice, but must not be misread
                        if let Ok(e) = h.encode_string(&s) {
                            ck!(h2.decode_string(e).is_ok_and(|t| t == s), "text {s:?} accepted from {} changed by a reload", hex(b));
                        }
                        let v = Value::String(s);
                        exercise(ctx, &v, b)?;
                        let e = v.ser(Some(&h));
                        let back = Value::deser(&mut Cursor::new(&e), Some(&h2)).map_err(|e| format!("coded text not reloaded: {e} (from {})", hex(b)))?;
                        same(&from_value(&v)?, &back)?;
                    }
                }
            }
        }
    } else if let Ok(h) = Huffman::<u8>::deser(&mut c) {
        ctx.count("byte_codes_accepted");
        ctx.seen(&b);
        let h2 = Huffman::<u8>::deser(&mut Cursor::new(&h.ser())).map_err(|e| format!("code accepted but not reloaded: {e} (from {})", hex(b)))?;
        ck!(h.ser() == h2.ser(), "byte code accepted from {} changed by a reload", hex(b));
    }
    Ok(())
}
fn c04_hostile(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let (d, b) = gen_hostile(r);
    ctx.sample(|| format!("{}: {}", DECODERS[d], hex(&b)));
    accept(ctx, d, &b)
}
/// legal but unusual encodings, a little damaged
fn c04_alternative(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let k = idx % 18;
    let m = if k >= 16 || k == 8 || k == 11 { gen_value(r, &SMALL) } else { gen_leaf(r, &SMALL, k) };
    let e = rc::Enc { tree: None, alt: true };
    let mut b = vec![];
    e.value(r, &m, &mut b);
    if r.bool() && !b.is_empty() {
        // change one thing inside
        let i = r.us(b.len());
        match r.below(3) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.byte(),
            _ => b[i] = *r.pick(&[0, 0xFF, 0xF0, 0x7F, 0x80]),
        }
    }
    accept(ctx, 1, &b)
}
/// every number a few bytes can spell, under every sign
fn c04_integers(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let mut b = vec![];
    let k = (idx % 17) as usize;
    if k == 0 {
        b.push(r.below(240) as u8);
    } else {
        b.push(239 + k as u8);
        for _ in 0..k {
            b.push(*r.pick(&[0, 0xFF, 0x80, 0x7F, 1, 0xFE]));
        }
    }
    for d in 8..=10 {
        accept(ctx, d, &b)?;
        let mut v = vec![0x40 | (d as u8 - 8)];
        v.extend(&b);
        accept(ctx, 1, &v)?;
    }
    let mut two = b.clone();
    two.extend(&b);
    for n in 1..10_u8 {
        let mut v = vec![0x50 | n];
        v.extend(&two);
        accept(ctx, 1, &v)?;
    }
    Ok(())
}
/// as deep as decoders allow
fn c04_deep(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let n = [126, 127, 128, 129, 130, 131, 64, 200][idx as usize % 8];
    let mut b = vec![];
    let maps = r.bool();
    for _ in 0..n {
        if maps || r.one_in(3) {
            b.extend([0x82, 0x10, 0x01, b'k']);
        } else {
            b.push(0xB2);
        }
    }
    b.push(*r.pick(&[0x90, 0x31, 0xB0, 0x80]));
    accept(ctx, 1, &b)?;
    let m = r.below(4) as u8;
    let mut body = vec![0x82, 0x10, 0x01, b'k'];
    body.extend(&b);
    let mut s = b"SOURISDB".to_vec();
    s.push(m);
    rc::enc_binary(r, &body, m, false, &mut s);
    accept(ctx, 0, &s)
}

pub const C04: &[Kind] = &[
    kind("hostile", 120_000, 3_500_000, c04_hostile),
    kind("alternative", 90_000, 2_500_000, c04_alternative),
    kind("integers", 6_000, 120_000, c04_integers),
    kind("deep", 64, 1_600, c04_deep),
];

// ---------------------------------------------------------------- C06

fn c06_check(ctx: &mut Ctx, r: &mut Rng, data: &[u8]) -> R {
    let prefix = {
        let mut p = vec![];
        rc::enc_us(r, data.len(), false, &mut p);
        p.len()
    };
    let four: [Vec<u8>; 4] = [
        {
            let mut p = vec![];
            rc::enc_us(r, data.len(), false, &mut p);
            p.extend(data);
            p
        },
        rle(data),
        lz(data),
        huffman(data),
    ];
    let junk_n = r.range(0, 9);
    let junk = r.bytes(junk_n);
    let what = |i: usize| format!("{:?} of {} bytes {}", METHODS[i], data.len(), hex(data));
    for (i, enc) in four.iter().enumerate() {
        let mut b = enc.clone();
        b.extend(&junk);
        let mut c = Cursor::new(&b);
        let back = BinaryData::deser(METHODS[i], &mut c).map_err(|e| format!("{} does not decompress: {e}", what(i)))?;
        ck!(back.0 == data, "{} decompresses to {}", what(i), hex(&back.0));
        ck!(c.pos() == enc.len(), "{} decompression used {} of {} bytes", what(i), c.pos(), enc.len());
    }
    let (label, out) = BinaryData(data.to_vec()).ser();
    let li = u8::from(label) as usize;
    ck!(li < 4, "label {li}");
    ctx.count(["chosen.none", "chosen.rle", "chosen.lz", "chosen.huffman"][li]);
    let best = four.iter().map(Vec::len).min().unwrap_or(0);
    ck!(out.len() <= best, "{} bytes {} stored in {} bytes although {:?} are possible", data.len(), hex(data), out.len(), four.iter().map(Vec::len).collect::<Vec<_>>());
    ck!(out.len() <= prefix + data.len(), "{} bytes stored in {}", data.len(), out.len());
    ck!(BinaryCompression::try_from(li as u8).is_ok_and(|l| u8::from(l) as usize == li), "label {li} does not read back");
    let mut b = out.clone();
    b.extend(&junk);
    let mut c = Cursor::new(&b);
    let back = BinaryData::deser(label, &mut c).map_err(|e| format!("label {label:?} does not decode its output: {e}; {}", hex(data)))?;
    ck!(back.0 == data && c.pos() == out.len(), "label {label:?} decodes {} as {}", hex(data), hex(&back.0));
    // stored as a value
    let v = Value::Binary(BinaryData(data.to_vec()));
    let vb = v.ser(None);
    ck!(vb.len() == out.len() + 1, "value of {} bytes is {} bytes although its data takes {}", data.len(), vb.len(), out.len());
    ck!(vb[0] == 0x20 | li as u8, "type byte {:#x} for {label:?}", vb[0]);
    same(&MV::Bin(data.to_vec()), &Value::deser(&mut Cursor::new(&vb), None).map_err(|e| e.to_string())?)?;
    ctx.seen(&data);
    ctx.max("bytes", data.len() as u64);
    Ok(())
}
fn c06_small(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let n = if r.one_in(20) { 2000 } else { 60 };
    let d = gen_bin(r, n);
    ctx.sample(|| hex(&d));
    c06_check(ctx, r, &d)
}
fn c06_tiny(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    // every string of up to 10 symbols over two symbols, and every one/two byte string in steps
    if idx < 2046 {
        let len = (64 - (idx + 2).leading_zeros() - 1) as usize;
        let bits = idx + 2 - (1 << len);
        let (a, b) = *r.pick(&[(0_u8, 255_u8), (0, 1), (7, 200)]);
        let d: Vec<u8> = (0..len).map(|i| if bits >> i & 1 == 1 { a } else { b }).collect();
        c06_check(ctx, r, &d)
    } else {
        let n = (idx - 2046) as u16;
        c06_check(ctx, r, &[n as u8])?;
        let d = n.wrapping_mul(0x9E37).to_le_bytes();
        c06_check(ctx, r, &d)
    }
}
fn c06_runs(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    // one run of every length around what a count can hold, alone and among others
    let n = (idx % 1100) as usize;
    let b = r.byte();
    let mut d = vec![b; n];
    c06_check(ctx, r, &d)?;
    d.push(!b);
    c06_check(ctx, r, &d)?;
    let m = *r.pick(&[1, 254, 255, 256, 510]);
    d.extend(std::iter::repeat(b).take(m));
    c06_check(ctx, r, &d)
}
fn c06_big(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let n = *r.pick(&[65_535, 65_536, 65_537, 200_000, 1_000_000, 3_000_000]);
    let mut d = match idx % 5 {
        0 => r.bytes(n),
        1 => vec![r.byte(); n],
        2 => (0..n).map(|i| (i / 300) as u8).collect(),
        3 => {
            let p_n = r.range(2, 70_000);
            let p = r.bytes(p_n);
            (0..n).map(|i| p[i % p.len()]).collect()
        }
        _ => (0..n).map(|_| b'a' + r.below(26).min(r.below(26)) as u8).collect(),
    };
    if r.bool() {
        let i = r.us(d.len());
        d[i] ^= 1;
    }
    c06_check(ctx, r, &d)
}
/// skewed counts make long codes
fn c06_skewed(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mut d = vec![];
    let (mut a, mut b) = (1_usize, 1_usize);
    for i in 0..r.range(2, 24) {
        d.extend(std::iter::repeat(i as u8 * 11).take(a));
        (a, b) = (b, a + b);
    }
    if r.bool() {
        r.shuffle(&mut d);
    }
    c06_check(ctx, r, &d)
}

pub const C06: &[Kind] = &[
    kind("small", 60_000, 1_500_000, c06_small),
    kind("tiny", 2046 + 65_536 / 16, 2046 + 65_536, c06_tiny),
    kind("runs", 2_200, 44_000, c06_runs),
    kind("skewed", 160, 3_000, c06_skewed),
    kind("big", 30, 600, c06_big),
];
