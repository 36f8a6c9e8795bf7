//! The harness's own picture of values, generators for them, and comparisons that don't use the library's equality.
use crate::core::Rng;
use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use chrono_tz::Tz;
use hashbrown::HashMap;
use serde_json::{Map as SJMap, Number, Value as SJ};
use sourisdb::types::{binary::BinaryData, imaginary::Imaginary, integer::Integer};
use sourisdb::values::Value;
use std::net::{Ipv4Addr, Ipv6Addr};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Origin {
    U8, U16, U32, U64, U128, Us, I8, I16, I32, I64, I128, Is, Parse,
}
pub const ORIGINS: [Origin; 13] = [
    Origin::U8, Origin::U16, Origin::U32, Origin::U64, Origin::U128, Origin::Us, Origin::I8,
    Origin::I16, Origin::I32, Origin::I64, Origin::I128, Origin::Is, Origin::Parse,
];

/// A number between -2^127 and 2^128-1 and how the library is told about it
#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub neg: bool,
    pub mag: u128,
    pub origin: Origin,
}
impl PartialEq for Num {
    fn eq(&self, o: &Self) -> bool {
        self.mag == o.mag && (self.neg == o.neg || self.mag == 0)
    }
}
impl Num {
    pub fn u(mag: u128) -> Self {
        Num { neg: false, mag, origin: Origin::U128 }
    }
    pub fn i(n: i128) -> Self {
        Num { neg: n < 0, mag: n.unsigned_abs(), origin: Origin::I128 }
    }
    pub fn dec(&self) -> String {
        if self.neg && self.mag != 0 { format!("-{}", self.mag) } else { self.mag.to_string() }
    }
    pub fn as_i128(&self) -> Option<i128> {
        if self.neg {
            if self.mag <= 1 << 127 { Some((self.mag as i128).wrapping_neg()) } else { None }
        } else {
            i128::try_from(self.mag).ok()
        }
    }
    pub fn fits_json(&self) -> bool {
        if self.neg { self.mag <= 1 << 63 } else { self.mag <= u128::from(u64::MAX) }
    }
    pub fn fits(&self, o: Origin) -> bool {
        let (signed, bits) = match o {
            Origin::U8 => (false, 8),
            Origin::U16 => (false, 16),
            Origin::U32 => (false, 32),
            Origin::U64 | Origin::Us => (false, 64),
            Origin::U128 => (false, 128),
            Origin::I8 => (true, 8),
            Origin::I16 => (true, 16),
            Origin::I32 => (true, 32),
            Origin::I64 | Origin::Is => (true, 64),
            Origin::I128 => (true, 128),
            Origin::Parse => return true,
        };
        if self.neg && self.mag > 0 {
            signed && self.mag <= 1_u128 << (bits - 1)
        } else if signed {
            self.mag < 1_u128 << (bits - 1)
        } else {
            bits == 128 || self.mag < 1_u128 << bits
        }
    }
    pub fn to_integer(&self) -> Integer {
        let i = self.as_i128().unwrap_or(0);
        let u = self.mag;
        match self.origin {
            Origin::U8 => Integer::from(u as u8),
            Origin::U16 => Integer::from(u as u16),
            Origin::U32 => Integer::from(u as u32),
            Origin::U64 => Integer::from(u as u64),
            Origin::U128 => Integer::from(u),
            Origin::Us => Integer::from(u as usize),
            Origin::I8 => Integer::from(i as i8),
            Origin::I16 => Integer::from(i as i16),
            Origin::I32 => Integer::from(i as i32),
            Origin::I64 => Integer::from(i as i64),
            Origin::I128 => Integer::from(i),
            Origin::Is => Integer::from(i as isize),
            Origin::Parse => match self.dec().parse() {
                Ok(i) => i,
                Err(e) => panic_repo(format!("Integer::from_str({}) failed: {e}", self.dec())),
            },
        }
    }
}

/// Something that cannot be expressed as a Result where it happens, but is the library's fault.
pub fn panic_repo(s: String) -> ! {
    std::panic::resume_unwind(Box::new(RepoFault(s)))
}
pub struct RepoFault(pub String);

pub fn gen_num(r: &mut Rng) -> Num {
    let neg = r.bool();
    let mag: u128 = match r.below(8) {
        0 => u128::from(r.below(20)),
        1 => 225 + u128::from(r.below(40)),
        2 | 3 => {
            let b = r.below(129);
            let base = if b == 128 { u128::MAX } else { 1 << b };
            match r.below(3) {
                0 => base.saturating_add(u128::from(r.below(4))),
                1 => base.saturating_sub(u128::from(r.below(4))),
                _ => base,
            }
        }
        4 => {
            // whole bytes of zero or ones
            let mut x = 0;
            for _ in 0..16 {
                x = (x << 8) | match r.below(4) { 0 => 0xFF, 1 => 0, 2 => 0x80, _ => u128::from(r.byte()) };
            }
            x >> (8 * r.below(16))
        }
        _ => {
            let s = r.below(128);
            r.u128() >> s
        }
    };
    let mut n = Num { neg: neg && mag != 0 && mag <= 1 << 127, mag, origin: Origin::Parse };
    if n.neg && r.one_in(4) {
        n.mag = n.mag.min(1 << 127);
    }
    loop {
        n.origin = *r.pick(&ORIGINS);
        if n.fits(n.origin) {
            return n;
        }
    }
}
pub fn gen_num64(r: &mut Rng) -> Num {
    loop {
        let n = gen_num(r);
        if n.fits_json() {
            return n;
        }
    }
}

#[derive(Clone, Debug)]
pub enum MV {
    Char(char),
    Str(String),
    Bin(Vec<u8>),
    Bool(bool),
    Int(Num),
    Cart(Num, Num),
    Polar(f64, f64),
    Ts { y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32, ns: u32 },
    Json(SJ),
    Map(Vec<(String, MV)>),
    Null,
    F64(f64),
    Arr(Vec<MV>),
    Tz(String),
    V4([u8; 4]),
    V6([u16; 8]),
    F32(f32),
}

pub const NKINDS: usize = 16;
impl MV {
    pub fn kind(&self) -> u8 {
        match self {
            MV::Char(_) => 0,
            MV::Str(_) => 1,
            MV::Bin(_) => 2,
            MV::Bool(_) => 3,
            MV::Int(_) => 4,
            MV::Cart(..) | MV::Polar(..) => 5,
            MV::Ts { .. } => 6,
            MV::Json(_) => 7,
            MV::Map(_) => 8,
            MV::Null => 9,
            MV::F64(_) => 10,
            MV::Arr(_) => 11,
            MV::Tz(_) => 12,
            MV::V4(_) => 13,
            MV::V6(_) => 14,
            MV::F32(_) => 15,
        }
    }
    pub fn kind_name(&self) -> &'static str {
        KIND_NAMES[self.kind() as usize]
    }
    pub fn has_nan(&self) -> bool {
        match self {
            MV::F64(f) => f.is_nan(),
            MV::F32(f) => f.is_nan(),
            MV::Polar(a, b) => a.is_nan() || b.is_nan(),
            MV::Arr(a) => a.iter().any(MV::has_nan),
            MV::Map(m) => m.iter().any(|(_, v)| v.has_nan()),
            _ => false,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            MV::Arr(a) => 1 + a.iter().map(MV::depth).max().unwrap_or(0),
            MV::Map(m) => 1 + m.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            MV::Arr(a) => 1 + a.iter().map(MV::nodes).sum::<usize>(),
            MV::Map(m) => 1 + m.iter().map(|(_, v)| v.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    /// every text in it, as the store collects them
    pub fn text(&self, out: &mut String) {
        match self {
            MV::Str(s) | MV::Tz(s) => out.push_str(s),
            MV::Json(j) => out.push_str(&j.to_string()),
            MV::Arr(a) => a.iter().for_each(|v| v.text(out)),
            MV::Map(m) => m.iter().for_each(|(k, v)| {
                out.push_str(k);
                v.text(out);
            }),
            _ => {}
        }
    }
    pub fn kinds(&self, f: &mut impl FnMut(&'static str)) {
        f(self.kind_name());
        match self {
            MV::Arr(a) => a.iter().for_each(|v| v.kinds(f)),
            MV::Map(m) => m.iter().for_each(|(_, v)| v.kinds(f)),
            _ => {}
        }
    }
}
pub const KIND_NAMES: [&str; 16] = [
    "Character", "String", "Binary", "Boolean", "Integer", "Imaginary", "Timestamp", "JSON", "Map",
    "Null", "DoubleFloat", "Array", "Timezone", "Ipv4Addr", "Ipv6Addr", "SingleFloat",
];

pub fn ts(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32, ns: u32) -> NaiveDateTime {
    NaiveDateTime::new(
        NaiveDate::from_ymd_opt(y, mo, d).expect("harness date"),
        NaiveTime::from_hms_opt(h, mi, s).and_then(|t| t.with_nanosecond(ns)).expect("harness time"),
    )
}
pub fn tz(name: &str) -> Tz {
    *chrono_tz::TZ_VARIANTS.iter().find(|t| t.name() == name).expect("harness tz")
}

pub fn to_value(m: &MV) -> Value {
    match m {
        MV::Char(c) => Value::Character(*c),
        MV::Str(s) => Value::String(s.clone()),
        MV::Bin(b) => Value::Binary(BinaryData(b.clone())),
        MV::Bool(b) => Value::Boolean(*b),
        MV::Int(n) => Value::Integer(n.to_integer()),
        MV::Cart(a, b) => Value::Imaginary(Imaginary::CartesianForm {
            real: a.to_integer(),
            imaginary: b.to_integer(),
        }),
        MV::Polar(a, b) => Value::Imaginary(Imaginary::PolarForm { modulus: *a, argument: *b }),
        MV::Ts { y, mo, d, h, mi, s, ns } => Value::Timestamp(ts(*y, *mo, *d, *h, *mi, *s, *ns)),
        MV::Json(j) => Value::JSON(j.clone()),
        MV::Map(e) => {
            let mut m = HashMap::new();
            for (k, v) in e {
                m.insert(k.clone(), to_value(v));
            }
            Value::Map(m)
        }
        MV::Null => Value::Null(()),
        MV::F64(f) => Value::DoubleFloat(*f),
        MV::Arr(a) => Value::Array(a.iter().map(to_value).collect()),
        MV::Tz(n) => Value::Timezone(tz(n)),
        MV::V4(a) => Value::Ipv4Addr(Ipv4Addr::from(*a)),
        MV::V6(a) => Value::Ipv6Addr(Ipv6Addr::from(*a)),
        MV::F32(f) => Value::SingleFloat(*f),
    }
}

/// What number an Integer says it is, from its decimal digits and its conversions; Err if these disagree.
pub fn num_of(i: &Integer) -> Result<Num, String> {
    let s = i.to_string();
    let (neg, digits) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s.as_str()),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("Integer prints as {s:?}"));
    }
    let mag: u128 = digits.parse().map_err(|_| format!("Integer prints as {s:?}"))?;
    let n = Num { neg: neg && mag != 0, mag, origin: if neg { Origin::I128 } else { Origin::U128 } };
    if n.neg != i.is_negative() || n.neg == i.is_positive() {
        return Err(format!("Integer prints as {s} but is_negative={}", i.is_negative()));
    }
    if neg {
        if i128::try_from(*i).ok() != n.as_i128() {
            return Err(format!("Integer prints as {s} but converts to {:?}", i128::try_from(*i)));
        }
    } else if u128::try_from(*i).ok() != Some(mag) {
        return Err(format!("Integer prints as {s} but converts to {:?}", u128::try_from(*i)));
    }
    Ok(n)
}

pub fn from_value(v: &Value) -> Result<MV, String> {
    Ok(match v {
        Value::Character(c) => MV::Char(*c),
        Value::String(s) => MV::Str(s.clone()),
        Value::Binary(b) => MV::Bin(b.0.clone()),
        Value::Boolean(b) => MV::Bool(*b),
        Value::Integer(i) => MV::Int(num_of(i)?),
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => {
            MV::Cart(num_of(real)?, num_of(imaginary)?)
        }
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => MV::Polar(*modulus, *argument),
        Value::Timestamp(t) => MV::Ts {
            y: t.year(),
            mo: t.month(),
            d: t.day(),
            h: t.hour(),
            mi: t.minute(),
            s: t.second(),
            ns: t.nanosecond(),
        },
        Value::JSON(j) => MV::Json(j.clone()),
        Value::Null(()) => MV::Null,
        Value::SingleFloat(f) => MV::F32(*f),
        Value::DoubleFloat(f) => MV::F64(*f),
        Value::Array(a) => MV::Arr(a.iter().map(from_value).collect::<Result<_, _>>()?),
        Value::Map(m) => {
            let mut e = m
                .iter()
                .map(|(k, v)| from_value(v).map(|v| (k.clone(), v)))
                .collect::<Result<Vec<_>, _>>()?;
            e.sort_by(|a, b| a.0.cmp(&b.0));
            MV::Map(e)
        }
        Value::Timezone(t) => MV::Tz(t.name().to_string()),
        Value::Ipv4Addr(a) => MV::V4(a.octets()),
        Value::Ipv6Addr(a) => MV::V6(a.segments()),
    })
}

pub fn json_same(a: &SJ, b: &SJ) -> bool {
    match (a, b) {
        (SJ::Null, SJ::Null) => true,
        (SJ::Bool(a), SJ::Bool(b)) => a == b,
        (SJ::String(a), SJ::String(b)) => a == b,
        (SJ::Number(a), SJ::Number(b)) => {
            if a.is_f64() || b.is_f64() {
                a.is_f64()
                    && b.is_f64()
                    && a.as_f64().map(f64::to_bits) == b.as_f64().map(f64::to_bits)
            } else {
                a.as_u64() == b.as_u64() && a.as_i64() == b.as_i64()
            }
        }
        (SJ::Array(a), SJ::Array(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json_same(a, b))
        }
        (SJ::Object(a), SJ::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| json_same(v, w)))
        }
        _ => false,
    }
}

fn short(s: String) -> String {
    if s.len() > 160 {
        let mut n = 160;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}… ({} bytes)", &s[..n], s.len())
    } else {
        s
    }
}
pub fn show(m: &MV) -> String {
    short(format!("{m:?}"))
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
    if b.len() > 200 {
        s.push_str(&format!("…({} bytes)", b.len()));
    }
    s
}

/// First difference between what was expected and what was found
pub fn diff(want: &MV, got: &MV) -> Option<String> {
    let leaf = |ok: bool| {
        if ok { None } else { Some(format!(": expected {}, got {}", show(want), show(got))) }
    };
    match (want, got) {
        (MV::Char(a), MV::Char(b)) => leaf(a == b),
        (MV::Str(a), MV::Str(b)) => leaf(a == b),
        (MV::Bin(a), MV::Bin(b)) => leaf(a == b),
        (MV::Bool(a), MV::Bool(b)) => leaf(a == b),
        (MV::Int(a), MV::Int(b)) => leaf(a == b),
        (MV::Cart(a, b), MV::Cart(c, d)) => leaf(a == c && b == d),
        (MV::Polar(a, b), MV::Polar(c, d)) => {
            leaf(a.to_bits() == c.to_bits() && b.to_bits() == d.to_bits())
        }
        (
            MV::Ts { y, mo, d, h, mi, s, ns },
            MV::Ts { y: y2, mo: mo2, d: d2, h: h2, mi: mi2, s: s2, ns: ns2 },
        ) => leaf((y, mo, d, h, mi, s, ns) == (y2, mo2, d2, h2, mi2, s2, ns2)),
        (MV::Json(a), MV::Json(b)) => leaf(json_same(a, b)),
        (MV::Null, MV::Null) => None,
        (MV::F64(a), MV::F64(b)) => leaf(a.to_bits() == b.to_bits()),
        (MV::F32(a), MV::F32(b)) => leaf(a.to_bits() == b.to_bits()),
        (MV::Tz(a), MV::Tz(b)) => leaf(a == b),
        (MV::V4(a), MV::V4(b)) => leaf(a == b),
        (MV::V6(a), MV::V6(b)) => leaf(a == b),
        (MV::Arr(a), MV::Arr(b)) => {
            if a.len() != b.len() {
                return Some(format!(": array of {} elements became {}", a.len(), b.len()));
            }
            a.iter()
                .zip(b)
                .enumerate()
                .find_map(|(i, (a, b))| diff(a, b).map(|d| format!("[{i}]{d}")))
        }
        (MV::Map(a), MV::Map(b)) => {
            let (mut a, mut b): (Vec<_>, Vec<_>) = (a.iter().collect(), b.iter().collect());
            a.sort_by(|x, y| x.0.cmp(&y.0));
            b.sort_by(|x, y| x.0.cmp(&y.0));
            if a.len() != b.len() {
                return Some(format!(": map of {} entries became {}", a.len(), b.len()));
            }
            a.iter().zip(&b).find_map(|(a, b)| {
                if a.0 == b.0 {
                    diff(&a.1, &b.1).map(|d| format!(".{}{d}", short(format!("{:?}", a.0))))
                } else {
                    Some(format!(": key {:?} became {:?}", short(a.0.clone()), short(b.0.clone())))
                }
            })
        }
        _ => leaf(false),
    }
}

/// Compare a library value with the model
pub fn same(want: &MV, got: &Value) -> Result<(), String> {
    let got = from_value(got)?;
    match diff(want, &got) {
        None => Ok(()),
        Some(d) => Err(format!("value{d}")),
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy)]
pub struct Cfg {
    pub depth: usize,
    pub width: usize,
    pub text: usize,
    pub bin: usize,
    /// only what exports to JSON and comes back
    pub jsonable: bool,
    pub leap_anywhere: bool,
    pub nan: bool,
}
pub const SMALL: Cfg =
    Cfg { depth: 4, width: 6, text: 40, bin: 60, jsonable: false, leap_anywhere: true, nan: true };

pub fn gen_char(r: &mut Rng) -> char {
    match r.below(10) {
        0 => *r.pick(&['\0', '\u{1}', '\n', '\r', '\t', '\u{7f}', '"', '\\', '/', ' ']),
        1 => *r.pick(&['\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fffd}', '\u{feff}', '\u{ee}', '\u{ef}', '\u{f0}', '\u{80}', '\u{7ff}', '\u{800}']),
        2 => loop {
            if let Some(c) = char::from_u32(r.below(0x11_0000) as u32) {
                return c;
            }
        },
        3 => char::from_u32(0x100 + r.below(0x500) as u32).unwrap_or('x'),
        _ => char::from(b' ' + r.below(95) as u8),
    }
}
const WORDS: &[&str] = &[
    "the", "of", "and", "souris", "JSON", "key", "value", "null", "0", "-1", "héllo", "日本語", "🖖", "a", "A", "true", "1.5e3", "{\"a\":1}", "  ",
];
pub fn gen_text(r: &mut Rng, max: usize) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => {
            let c = gen_char(r);
            let n = if r.bool() { r.range(1, 12) } else { r.range(1, max.max(1) * 4) };
            std::iter::repeat(c).take(n).collect()
        }
        2 => {
            let (a, b) = (gen_char(r), gen_char(r));
            (0..r.range(1, max.max(1))).map(|_| if r.one_in(5) { a } else { b }).collect()
        }
        3 | 4 => (0..r.range(0, max)).map(|_| gen_char(r)).collect(),
        5 => (0..r.range(0, max)).map(|_| char::from(b'a' + (r.below(26).min(r.below(26))) as u8)).collect(),
        _ => {
            let mut s = String::new();
            while s.len() < max && !r.one_in(6) {
                s.push_str(r.pick(WORDS));
                s.push(' ');
            }
            s
        }
    }
}
pub fn gen_key(r: &mut Rng) -> String {
    match r.below(6) {
        0 => gen_text(r, 20),
        1 => (*r.pick(&["JSON", "a", "", "b", "key", "\0", "é", "timestamp", "octets", "real", "bytes"])).to_string(),
        _ => format!("{}{}", r.pick(WORDS), r.below(1000)),
    }
}
pub fn gen_bin(r: &mut Rng, max: usize) -> Vec<u8> {
    match r.below(10) {
        0 => vec![],
        1 => vec![r.byte(); r.range(1, max.max(1) * 8)],
        2 => {
            let n = *r.pick(&[254_usize, 255, 256, 257, 509, 510, 511, 512]);
            let mut v = vec![r.byte(); n];
            if r.bool() {
                let b = r.byte();
                v.extend(std::iter::repeat(b).take(r.range(0, 300)));
            }
            v
        }
        3 => {
            let a = r.bytes(2);
            (0..r.range(1, max.max(1) * 2)).map(|_| if r.one_in(6) { a[0] } else { a[1] }).collect()
        }
        4 => {
            let n = r.range(1, 9);
            let p = r.bytes(n);
            (0..r.range(1, max.max(1) * 4)).map(|i| p[i % n]).collect()
        }
        5 => gen_text(r, max).into_bytes(),
        6 => (0..r.range(1, max.max(1) * 4)).map(|_| (r.below(8).min(r.below(8))) as u8 * 31).collect(),
        7 => {
            // runs
            let mut v = vec![];
            while v.len() < max * 3 && !r.one_in(8) {
                let b = r.byte();
                let n = r.range(1, 40);
                v.extend(std::iter::repeat(b).take(n));
            }
            v
        }
        8 => {
            let mut v: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut v);
            v.truncate(r.range(1, 256));
            v
        }
        _ => {
            let n = r.range(0, max);
            r.bytes(n)
        }
    }
}
pub fn gen_f64(r: &mut Rng, finite: bool, nan: bool) -> f64 {
    loop {
        let f = match r.below(9) {
            0 => 0.0,
            1 => -0.0,
            2 => *r.pick(&[1.0, -1.0, 0.1, 0.5, 1e300, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 1e16, 9007199254740993.0, 1.8446744073709552e19, -9.223372036854776e18]),
            3 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::from_bits(0xFFF8_0000_0000_0001), f64::from_bits(0x7FF0_0000_0000_0001)]),
            4 => (r.u64() as i64 >> r.below(63)) as f64,
            5 => (r.u64() as i64 >> r.below(63)) as f64 / 1000.0,
            _ => f64::from_bits(r.u64()),
        };
        if (finite && !f.is_finite()) || (!nan && f.is_nan()) {
            continue;
        }
        return f;
    }
}
pub fn gen_f32(r: &mut Rng, finite: bool, nan: bool) -> f32 {
    loop {
        let f = match r.below(6) {
            0 => *r.pick(&[0.0, -0.0, 1.0, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, 16_777_217.0]),
            1 => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::from_bits(0x7F80_0001)]),
            2 => (r.u64() as i32 >> r.below(31)) as f32,
            _ => f32::from_bits(r.u64() as u32),
        };
        if (finite && !f.is_finite()) || (!nan && f.is_nan()) {
            continue;
        }
        return f;
    }
}
/// A float that serde_json (without float_roundtrip) reads back as it wrote it
pub fn json_float_ok(f: f64) -> bool {
    let Some(n) = Number::from_f64(f) else { return false };
    matches!(serde_json::from_str::<SJ>(&n.to_string()), Ok(SJ::Number(m)) if m.is_f64() && m.as_f64().map(f64::to_bits) == Some(f.to_bits()))
}
pub fn gen_json_float(r: &mut Rng) -> f64 {
    loop {
        let f = gen_f64(r, true, false);
        if json_float_ok(f) {
            return f;
        }
    }
}
pub fn gen_json(r: &mut Rng, depth: usize, width: usize, text: usize) -> SJ {
    let top = if depth == 0 { 6 } else { 9 };
    match r.below(top) {
        0 => SJ::Null,
        1 => SJ::Bool(r.bool()),
        2 | 3 => {
            let n = gen_num64(r);
            SJ::Number(if n.neg { Number::from(n.as_i128().unwrap_or(0) as i64) } else { Number::from(n.mag as u64) })
        }
        4 => Number::from_f64(gen_json_float(r)).map_or(SJ::Null, SJ::Number),
        5 => SJ::String(gen_text(r, text)),
        6 | 7 => {
            let mut m = SJMap::new();
            for _ in 0..r.range(0, width) {
                let k = gen_key(r);
                if k != "souris_type" {
                    m.insert(k, gen_json(r, depth - 1, width, text));
                }
            }
            SJ::Object(m)
        }
        _ => SJ::Array((0..r.range(0, width)).map(|_| gen_json(r, depth - 1, width, text)).collect()),
    }
}
pub fn gen_ts(r: &mut Rng, leap_anywhere: bool) -> MV {
    loop {
        let y = match r.below(6) {
            0 => *r.pick(&[-262_143, 262_142, 0, -1, 1, 9999, 10_000, -9999, 1970, 239, 240, -240, -16, -17]),
            1 => r.below(524_000) as i32 - 262_000,
            _ => 1900 + r.below(200) as i32,
        };
        let (mo, d) = match r.below(4) {
            0 => (2, 29),
            1 => (12, 31),
            _ => (r.range(1, 12) as u32, r.range(1, 28) as u32),
        };
        if NaiveDate::from_ymd_opt(y, mo, d).is_none() {
            continue;
        }
        let mut s = r.below(60) as u32;
        let mut ns = match r.below(6) {
            0 => 0,
            1 => 999_999_999,
            2 => r.below(1000) as u32 * 1_000_000,
            3 => r.below(1000) as u32 * 1000,
            _ => r.below(1_000_000_000) as u32,
        };
        if r.one_in(5) {
            ns += 1_000_000_000;
            if !leap_anywhere || r.bool() {
                s = 59;
            }
        }
        return MV::Ts { y, mo, d, h: r.below(24) as u32, mi: r.below(60) as u32, s, ns };
    }
}
pub fn gen_leaf(r: &mut Rng, c: &Cfg, k: u64) -> MV {
    match k {
        0 => MV::Char(gen_char(r)),
        1 => MV::Str(gen_text(r, c.text)),
        2 => MV::Bin(gen_bin(r, c.bin)),
        3 => MV::Bool(r.bool()),
        4 => MV::Int(if c.jsonable { gen_num64(r) } else { gen_num(r) }),
        5 => {
            if r.bool() {
                if c.jsonable { MV::Cart(gen_num64(r), gen_num64(r)) } else { MV::Cart(gen_num(r), gen_num(r)) }
            } else {
                MV::Polar(gen_f64(r, c.jsonable, c.nan), gen_f64(r, c.jsonable, c.nan))
            }
        }
        6 => gen_ts(r, c.leap_anywhere),
        7 => {
            let d = r.us(4);
            MV::Json(gen_json(r, d, 4, c.text))
        }
        9 => MV::Null,
        10 => MV::F64(gen_f64(r, c.jsonable, c.nan)),
        12 => MV::Tz(r.pick(&chrono_tz::TZ_VARIANTS).name().to_string()),
        13 => {
            let b = r.bytes(4);
            MV::V4([b[0], b[1], b[2], b[3]])
        }
        14 => {
            let mut a = [0; 8];
            for x in &mut a {
                *x = if r.one_in(3) { 0 } else { r.u64() as u16 };
            }
            MV::V6(a)
        }
        _ => MV::F32(gen_f32(r, c.jsonable, c.nan)),
    }
}
pub fn gen_value(r: &mut Rng, c: &Cfg) -> MV {
    let k = r.below(if c.depth == 0 { 16 } else { 20 });
    let k = match k {
        16 | 17 => 8,
        18 | 19 => 11,
        k => k,
    };
    if c.jsonable && matches!(k, 0 | 7 | 15) {
        return gen_leaf(r, c, 1);
    }
    if k == 8 || k == 11 {
        let n = match r.below(6) {
            0 => 0,
            1 => r.range(5, 9),
            _ => r.range(0, c.width),
        };
        let inner = Cfg { depth: c.depth.saturating_sub(1), ..*c };
        if c.depth == 0 {
            return if k == 8 { MV::Map(vec![]) } else { MV::Arr(vec![]) };
        }
        if k == 8 {
            MV::Map(gen_entries(r, &inner, n))
        } else {
            MV::Arr((0..n).map(|_| gen_value(r, &inner)).collect())
        }
    } else {
        gen_leaf(r, c, k)
    }
}
pub fn gen_entries(r: &mut Rng, c: &Cfg, n: usize) -> Vec<(String, MV)> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for _ in 0..n {
        let k = gen_key(r);
        if k != "souris_type" && seen.insert(k.clone()) {
            out.push((k, gen_value(r, c)));
        }
    }
    out
}
/// wrap a value in `n` containers
pub fn nest(r: &mut Rng, mut v: MV, n: usize) -> MV {
    for _ in 0..n {
        v = if r.bool() { MV::Arr(vec![v]) } else { MV::Map(vec![(gen_key(r), v)]) };
        if r.one_in(8) {
            if let MV::Arr(a) = &mut v {
                a.push(MV::Null);
                a.insert(0, MV::Arr(vec![]));
            }
        }
    }
    v
}
