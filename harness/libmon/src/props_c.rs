//! C07 to C12: numbers, codes, bits, cursors, equality.
use crate::ck;
use crate::core::*;
use crate::model::*;
use crate::refcodec as rc;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::{Integer, SignedState};
use sourisdb::utilities::{bits::Bits, cursor::Cursor, huffman::Huffman};
use sourisdb::values::Value;
use std::collections::{BinaryHeap, HashMap};
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom};

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.0 = (self.0 ^ 0xFF00).wrapping_mul(0x0000_0100_0000_01B3);
    }
}
pub fn hashes(v: &impl Hash) -> (u64, u64) {
    let mut f = Fnv(0xcbf2_9ce4_8422_2325);
    v.hash(&mut f);
    (h64(v), f.finish())
}

// ---------------------------------------------------------------- C07

fn sign_of(s: SignedState) -> u8 {
    u8::from(s)
}
/// every way of making one number
fn routes(r: &mut Rng, n: &Num) -> Vec<(String, Integer)> {
    let mut out = vec![];
    for o in ORIGINS {
        if n.fits(o) {
            out.push((format!("{o:?}"), Num { origin: o, ..*n }.to_integer()));
        }
    }
    // decoded, padded in every way
    for s in [SignedState::Unsigned, SignedState::SignedPositive, SignedState::SignedNegative] {
        if n.neg != (s == SignedState::SignedNegative) || (s == SignedState::SignedPositive && n.as_i128().is_none()) {
            continue;
        }
        for _ in 0..3 {
            let mut b = vec![];
            rc::enc_int(r, n, true, &mut b);
            match Integer::deser(s, &mut Cursor::new(&b)) {
                Ok(i) => out.push((format!("bytes {} {s:?}", hex(&b)), i)),
                Err(e) => panic_repo(format!("{} as {} under {s:?} is refused: {e}", n.dec(), hex(&b))),
            }
        }
    }
    // through serde, from whatever type a format has it in
    macro_rules! serde_routes {
        ($($t:ident $d:ident $o:ident),+) => { $(
            if n.fits(Origin::$o) {
                let v: $t = if n.neg { n.as_i128().unwrap_or(0) as $t } else { n.mag as $t };
                let d = serde::de::value::$d::<serde::de::value::Error>::new(v);
                match <Integer as serde::Deserialize>::deserialize(d) {
                    Ok(i) => out.push((format!("serde {}", stringify!($t)), i)),
                    Err(e) => panic_repo(format!("{} from serde as {} is refused: {e}", n.dec(), stringify!($t))),
                }
            }
        )+ };
    }
    serde_routes!(u8 U8Deserializer U8, u16 U16Deserializer U16, u32 U32Deserializer U32, u64 U64Deserializer U64, u128 U128Deserializer U128,
        i8 I8Deserializer I8, i16 I16Deserializer I16, i32 I32Deserializer I32, i64 I64Deserializer I64, i128 I128Deserializer I128);
    out
}
macro_rules! narrow {
    ($i:expr, $n:expr, $route:expr, $($t:ident $o:ident),+) => { $(
        let got = <$t>::try_from($i);
        if $n.fits(Origin::$o) {
            let want: $t = if $n.neg { $n.as_i128().unwrap_or(0) as $t } else { $n.mag as $t };
            ck!(matches!(got, Ok(g) if g == want), "{} (from {}) as {} gives {:?}", $n.dec(), $route, stringify!($t), got);
        } else {
            ck!(got.is_err(), "{} (from {}) as {} gives {:?}", $n.dec(), $route, stringify!($t), got);
        }
    )+ };
}
fn c07_check(ctx: &mut Ctx, r: &mut Rng, n: &Num) -> R {
    let rs = routes(r, n);
    for (route, i) in &rs {
        let i = *i;
        let got = num_of(&i).map_err(|e| format!("{} (from {route}): {e}", n.dec()))?;
        ck!(got == *n, "{} (from {route}) denotes {}", n.dec(), got.dec());
        ck!(i.to_string() == n.dec(), "{} (from {route}) prints as {i}", n.dec());
        ck!(i.is_negative() == n.neg && i.is_positive() != n.neg, "sign of {} (from {route})", n.dec());
        let p: Result<Integer, _> = i.to_string().parse();
        ck!(p.as_ref().is_ok_and(|p| *p == i), "{} (from {route}) printed and parsed is {p:?}", n.dec());
        narrow!(i, n, route, u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, usize Us, i8 I8, i16 I16, i32 I32, i64 I64, i128 I128, isize Is);
        let (s, b) = i.ser();
        let mut bb = b.clone();
        bb.push(r.byte());
        let mut c = Cursor::new(&bb);
        let back = Integer::deser(s, &mut c).map_err(|e| format!("{} (from {route}) as {} does not read back: {e}", n.dec(), hex(&b)))?;
        ck!(c.pos() == b.len(), "{} (from {route}): read {} of {} bytes", n.dec(), c.pos(), b.len());
        ck!(num_of(&back)? == *n && back == i && i == back, "{} (from {route}) read back as {back}", n.dec());
        let mut d = rc::Dec::new(&b);
        let m = d.int(sign_of(s)).map_err(|e| format!("{} (from {route}) written as {}: {e}", n.dec(), hex(&b)))?;
        ck!(m == *n, "{} (from {route}) written as {s:?} {}, which is {}", n.dec(), hex(&b), m.dec());
        ck!(i.to_json().is_some() == n.fits_json(), "{} (from {route}) to JSON is {:?}", n.dec(), i.to_json());
        if let Some(j) = i.to_json() {
            ck!(j.to_string() == n.dec(), "{} (from {route}) to JSON is {j}", n.dec());
        }
        match serde_json::to_string(&i) {
            Ok(t) => ck!(t == n.dec(), "{} (from {route}) goes to serde as {t}", n.dec()),
            Err(e) => return Err(format!("{} (from {route}) does not go to serde: {e}", n.dec())),
        }
        let v = Value::Integer(i);
        same(&MV::Int(*n), &Value::deser(&mut Cursor::new(&v.ser(None)), None).map_err(|e| format!("{} (from {route}): {e}", n.dec()))?)?;
        ctx.seen(&(n.neg, n.mag, route));
        ctx.count("routes");
    }
    for (ra, a) in &rs {
        for (rb, b) in &rs {
            ck!(a == b, "{} from {ra} and from {rb} are not equal", n.dec());
            ck!(hashes(a) == hashes(b), "{} from {ra} and from {rb} hash differently", n.dec());
        }
    }
    // a different number is different, by any route
    let o = match r.below(4) {
        0 => Num { neg: !n.neg && n.mag <= 1 << 127 && n.mag > 0, mag: n.mag.min(1 << 127).max(u128::from(n.mag == 0)), origin: Origin::Parse },
        1 => Num { neg: false, mag: n.mag ^ (1 << r.below(128)), origin: Origin::Parse },
        2 => Num { neg: n.neg, mag: if n.neg { (n.mag % (1 << 127)) + 1 } else { n.mag.wrapping_add(1) }, origin: Origin::Parse },
        // same stored bytes, other sign
        _ => Num { neg: false, mag: if n.neg { n.mag.wrapping_neg() } else { n.mag }, origin: Origin::Parse },
    };
    if o != *n {
        for (rb, b) in routes(r, &o) {
            for (ra, a) in &rs {
                ck!(*a != b && b != *a, "{} (from {ra}) equals {} (from {rb})", n.dec(), o.dec());
            }
        }
        ctx.count("unequal_pairs");
    }
    Ok(())
}
fn c07_boundary(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let n = gen_num(r);
    ctx.sample(|| format!("{n:?}"));
    c07_check(ctx, r, &n)
}
fn c07_small(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    // -33000..=66000 step by step
    let i = idx as i128 % 99_001 - 33_000;
    c07_check(ctx, r, &Num::i(i))
}
fn c07_pow2(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let bit = idx % 129;
    let base = if bit == 128 { u128::MAX } else { 1 << bit };
    for d in 0..5_u128 {
        let m = base.wrapping_sub(2).wrapping_add(d);
        c07_check(ctx, r, &Num::u(m))?;
        if m > 0 && m <= 1 << 127 {
            c07_check(ctx, r, &Num { neg: true, mag: m, origin: Origin::I128 })?;
        }
    }
    Ok(())
}
fn c07_text(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let s: String = match r.below(8) {
        0 => gen_text(r, 12),
        1 => (0..r.range(0, 6)).map(|_| *r.pick(&['-', '+', '0', '1', ' ', '_', '.', 'e'])).collect(),
        2 => {
            // one past either end
            (*r.pick(&["340282366920938463463374607431768211456", "340282366920938463463374607431768211455", "-170141183460469231731687303715884105729", "-170141183460469231731687303715884105728", "99999999999999999999999999999999999999999", "-0", "+5", "-", "+", "00", "007", "-007", "+-1", "１２", "0x10", "1 ", " 1", "1\0"])).to_string()
        }
        3 => format!("{}{}", "0".repeat(r.range(0, 60)), r.below(1000)),
        _ => gen_num(r).dec(),
    };
    let (sign, digits) = match s.as_bytes().first() {
        Some(b'-') => (-1, &s[1..]),
        Some(b'+') => (1, &s[1..]),
        _ => (0, &s[..]),
    };
    let mut want = None;
    if !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) {
        let t = digits.trim_start_matches('0');
        let m: Option<u128> = if t.is_empty() { Some(0) } else { t.parse().ok() };
        want = m.map(|mag| Num { neg: sign < 0 && mag > 0, mag, origin: Origin::Parse }).filter(|n| !n.neg || n.mag <= 1 << 127);
    }
    let got = s.parse::<Integer>();
    ctx.seen(&s);
    match (&want, &got) {
        (Some(n), Ok(i)) => {
            ck!(num_of(i)? == *n, "{s:?} parsed as {i}");
            ctx.count("texts_parsed");
        }
        (None, Err(_)) => ctx.count("texts_refused"),
        // a leading plus may be refused
        (Some(_), Err(_)) if sign > 0 => ctx.count("plus_refused"),
        _ => return Err(format!("{s:?} parsed as {got:?}")),
    }
    Ok(())
}

pub const C07: &[Kind] = &[
    kind("boundary", 9_000, 300_000, c07_boundary),
    kind("every_small", 12_000, 99_001, c07_small),
    kind("powers_of_two", 129, 1_290, c07_pow2),
    kind("text", 60_000, 1_500_000, c07_text),
];

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, PartialEq, Debug)]
enum Exact {
    N(Num),
    /// no number, or one nothing holds
    None,
}
fn norm(neg: bool, mag: u128) -> Num {
    Num { neg: neg && mag > 0, mag, origin: Origin::Parse }
}
fn ex_add(a: &Num, b: &Num) -> Exact {
    if a.neg == b.neg {
        match a.mag.checked_add(b.mag) {
            Some(m) => Exact::N(norm(a.neg, m)),
            None => Exact::None,
        }
    } else if a.mag >= b.mag {
        Exact::N(norm(a.neg, a.mag - b.mag))
    } else {
        Exact::N(norm(b.neg, b.mag - a.mag))
    }
}
fn exact(op: usize, a: &Num, b: &Num) -> Exact {
    match op {
        0 => ex_add(a, b),
        1 => ex_add(a, &norm(!b.neg, b.mag)),
        2 => a.mag.checked_mul(b.mag).map_or(Exact::None, |m| Exact::N(norm(a.neg != b.neg, m))),
        _ => a.mag.checked_div(b.mag).map_or(Exact::None, |m| Exact::N(norm(a.neg != b.neg, m))),
    }
}
fn unsigned(n: &Num) -> bool {
    match n.origin {
        Origin::U8 | Origin::U16 | Origin::U32 | Origin::U64 | Origin::U128 | Origin::Us => true,
        Origin::Parse => !n.neg,
        _ => false,
    }
}
const OPS: [&str; 4] = ["+", "-", "*", "/"];
fn c08_pair(ctx: &mut Ctx, a: &Num, b: &Num) -> R {
    let (x, y) = (a.to_integer(), b.to_integer());
    for op in 0..4 {
        let got = guarded(|| match op {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            _ => x / y,
        });
        let what = || format!("{} ({:?}) {} {} ({:?})", a.dec(), a.origin, OPS[op], b.dec(), b.origin);
        let want = exact(op, a, b);
        let in_domain = match want {
            Exact::None => false,
            Exact::N(n) => {
                let dom = if unsigned(a) && unsigned(b) { Origin::U128 } else { Origin::I128 };
                a.fits(dom) && b.fits(dom) && n.fits(dom)
            }
        };
        match (got, want) {
            (Some(g), Exact::N(n)) => {
                let g = num_of(&g).map_err(|e| format!("{}: {e}", what()))?;
                ck!(g == n, "{} gives {} instead of {}", what(), g.dec(), n.dec());
                ctx.count("exact");
            }
            (Some(g), Exact::None) => return Err(format!("{} gives {g}", what())),
            (None, _) if in_domain => return Err(format!("{} is refused although it fits: {}", what(), last_panic())),
            (None, _) => ctx.count("refused"),
        }
        ctx.seen(&(op, a.dec(), b.dec(), unsigned(a), unsigned(b)));
    }
    Ok(())
}
fn c08_pairs(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let a = gen_num(r);
    let mut b = gen_num(r);
    match r.below(6) {
        // around what overflows
        0 => b = Num { mag: (u128::MAX - a.mag).wrapping_add(u128::from(r.below(3))).wrapping_sub(1), neg: false, origin: Origin::U128 },
        1 => b = Num { mag: u128::MAX.checked_div(a.mag).unwrap_or(0).wrapping_add(u128::from(r.below(2))), neg: false, origin: Origin::U128 },
        2 => {
            let m = ((1_u128 << 127) - 1).checked_div(a.mag).unwrap_or(0).wrapping_add(u128::from(r.below(2)));
            b = Num { mag: m, neg: m > 0 && m <= 1 << 127 && r.bool(), origin: Origin::I128 };
            if !b.fits(Origin::I128) {
                b.origin = Origin::U128;
            }
        }
        3 => {
            b = Num { mag: a.mag.wrapping_add(u128::from(r.below(3))).wrapping_sub(1), neg: a.neg, origin: Origin::Parse };
            if b.neg && (b.mag > 1 << 127 || b.mag == 0) {
                b.neg = false;
            }
        }
        _ => {}
    }
    ctx.sample(|| format!("{a:?} {b:?}"));
    c08_pair(ctx, &a, &b)
}
fn c08_small(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    // everything near zero, every origin
    let a = Num::i(i128::from(idx as i64 % 41 - 20));
    for j in -20..=20 {
        let b = Num::i(j);
        let pick = |r: &mut Rng, n: &Num| loop {
            let o = *r.pick(&ORIGINS);
            if n.fits(o) {
                return Num { origin: o, ..*n };
            }
        };
        let (x, y) = (pick(r, &a), pick(r, &b));
        c08_pair(ctx, &x, &y)?;
    }
    Ok(())
}
fn f64_exact(f: f64) -> Option<Num> {
    // whole finite float -> number in -2^127..2^128
    if !f.is_finite() || f.fract() != 0.0 {
        return None;
    }
    let bits = f.to_bits();
    let e = ((bits >> 52) & 0x7FF) as i32;
    let m = u128::from(bits & ((1 << 52) - 1)) | if e > 0 { 1 << 52 } else { 0 };
    let sh = e.max(1) - 1075;
    let mag = if m == 0 {
        0
    } else if sh < 0 {
        if -sh > 127 { return None } else { m >> -sh }
    } else if sh as u32 + (128 - m.leading_zeros()) > 128 {
        return None;
    } else {
        m << sh
    };
    let n = norm(f < 0.0, mag);
    (!n.neg || n.mag <= 1 << 127).then_some(n)
}
fn c08_floats(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let f = match idx % 6 {
        0 => gen_f64(r, false, true),
        1 => {
            let n = gen_num(r);
            let f = n.mag as f64;
            f64::from_bits((if n.neg { -f } else { f }).to_bits().wrapping_add(r.below(3)).wrapping_sub(1))
        }
        2 => (r.u64() as i64 >> r.below(60)) as f64 + *r.pick(&[0.0, 0.5, 0.25, 1e-10, -0.001, 0.999_999]),
        3 => f64::from_bits(r.below(2) << 63 | (1023 + r.below(140)) << 52 | (r.u64() & ((1 << 52) - 1)) & !((1_u64 << r.below(52)) - 1)),
        4 => *r.pick(&[1.7014118346046923e38, -1.7014118346046923e38, -1.7014118346046927e38, 3.4028236692093846e38, 3.4028236692093842e38, -1.701411834604692e38, f64::EPSILON, -f64::EPSILON, 1.0 + f64::EPSILON, -0.0, 0.0, 0.9999999999999999, -0.5, -1.5, -0.1]),
        _ => f64::from(gen_f32(r, false, true)),
    };
    ctx.seen(&f.to_bits());
    let got = Integer::try_from(f);
    let frac = f.fract().abs();
    match (f64_exact(f), &got) {
        (Some(n), Ok(i)) => {
            ck!(num_of(i)? == n, "{f:?} became {i}");
            ctx.count("floats_exact");
        }
        (Some(n), Err(e)) => return Err(format!("{f:?} is {} but is refused: {e}", n.dec())),
        (None, Ok(i)) => {
            ck!(f.is_finite() && frac > 0.0 && frac <= f64::EPSILON, "{f:?} became {i}");
            let n = num_of(i)?;
            ck!(f64_exact(f.trunc()).is_some_and(|t| t == n), "{f:?} became {i}");
            ctx.count("floats_within_epsilon");
        }
        (None, Err(_)) => ctx.count("floats_refused"),
    }
    // f32
    let g = match idx % 3 {
        0 => gen_f32(r, false, true),
        1 => f as f32,
        _ => f32::from_bits((r.below(2) as u32) << 31 | (127 + r.below(130) as u32).min(254) << 23 | (r.u64() as u32 & 0x7F_FFFF) & !((1_u32 << r.below(23)) - 1)),
    };
    let got = Integer::try_from(g);
    let frac = g.fract().abs();
    ctx.seen(&g.to_bits());
    match (f64_exact(f64::from(g)), &got) {
        (Some(n), Ok(i)) => ck!(num_of(i)? == n, "{g:?}f32 became {i}"),
        (Some(n), Err(e)) => return Err(format!("{g:?}f32 is {} but is refused: {e}", n.dec())),
        (None, Ok(i)) => {
            ck!(g.is_finite() && frac > 0.0 && frac <= f32::EPSILON, "{g:?}f32 became {i}");
            ck!(f64_exact(f64::from(g.trunc())).is_some_and(|t| num_of(i).is_ok_and(|n| n == t)), "{g:?}f32 became {i}");
        }
        (None, Err(_)) => {}
    }
    Ok(())
}
/// nearest, ties to even
fn nearest(mag: u128, mant: u32) -> f64 {
    if mag == 0 {
        return 0.0;
    }
    let len = 128 - mag.leading_zeros();
    if len <= mant {
        return mag as u64 as f64;
    }
    let sh = len - mant;
    let mut q = mag >> sh;
    let rem = mag & ((1 << sh) - 1);
    let half = 1_u128 << (sh - 1);
    if rem > half || (rem == half && q & 1 == 1) {
        q += 1;
    }
    q as u64 as f64 * 2.0_f64.powi(sh as i32)
}
fn c08_to_float(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mut n = gen_num(r);
    if r.bool() && n.mag > 1 << 26 {
        // halfway between floats
        let len = 128 - n.mag.leading_zeros();
        let mant = if r.bool() { 53 } else { 24 };
        if len > mant + 1 {
            let sh = len - mant;
            n.mag = (n.mag >> sh << sh) | 1 << (sh - 1);
            n.mag = n.mag.wrapping_add(u128::from(r.below(3))).wrapping_sub(1);
            if n.neg && n.mag > 1 << 127 {
                n.neg = false;
            }
            loop {
                n.origin = *r.pick(&ORIGINS);
                if n.fits(n.origin) {
                    break;
                }
            }
        }
    }
    let s = if n.neg { -1.0 } else { 1.0 };
    let i = n.to_integer();
    let (got, want) = (f64::from(i), s * nearest(n.mag, 53));
    ck!(got == want, "{} ({:?}) as f64 is {got:?}, not {want:?}", n.dec(), n.origin);
    let (got, want) = (f32::from(i), (s * nearest(n.mag, 24)) as f32);
    ck!(got == want, "{} ({:?}) as f32 is {got:?}, not {want:?}", n.dec(), n.origin);
    ctx.seen(&(n.mag, n.neg, n.origin));
    Ok(())
}

pub const C08: &[Kind] = &[
    kind("pairs", 200_000, 6_000_000, c08_pairs),
    kind("near_zero", 820, 8_200, c08_small),
    kind("from_float", 300_000, 8_000_000, c08_floats),
    kind("to_float", 200_000, 6_000_000, c08_to_float),
];

// ---------------------------------------------------------------- C09

fn bools(b: &Bits) -> Vec<bool> {
    (0..b.len()).map(|i| b[i]).collect()
}
/// least total number of bits any prefix code needs
fn optimal(counts: &[u64]) -> u64 {
    if counts.len() == 1 {
        return counts[0];
    }
    let mut h: BinaryHeap<std::cmp::Reverse<u64>> = counts.iter().map(|c| std::cmp::Reverse(*c)).collect();
    let mut total = 0;
    while h.len() > 1 {
        let (Some(a), Some(b)) = (h.pop(), h.pop()) else { break };
        total += a.0 + b.0;
        h.push(std::cmp::Reverse(a.0 + b.0));
    }
    total
}
fn c09_generic<T: Clone + Eq + Hash + std::fmt::Debug + Ord>(
    ctx: &mut Ctx,
    r: &mut Rng,
    train: &[T],
    alien: &T,
    reload: Option<&dyn Fn(&Huffman<T>) -> Result<Huffman<T>, String>>,
) -> R {
    let info = || format!("{:?}", &train[..train.len().min(40)]);
    let h = Huffman::new(train.iter().cloned()).map_err(|e| format!("no code for {}: {e}", info()))?;
    let mut counts: HashMap<T, u64> = HashMap::new();
    for t in train {
        *counts.entry(t.clone()).or_default() += 1;
    }
    ctx.max("symbols", counts.len() as u64);
    ctx.max("trained_on", train.len() as u64);
    // learn the code from outside
    let mut words: HashMap<T, Vec<bool>> = HashMap::new();
    for t in counts.keys() {
        let b = h.encode(std::iter::once(t.clone())).map_err(|e| format!("trained symbol {t:?} not encoded: {e}"))?;
        words.insert(t.clone(), bools(&b));
    }
    let mut ws: Vec<&Vec<bool>> = words.values().collect();
    ws.sort();
    for w in ws.windows(2) {
        ck!(!w[1].starts_with(w[0]), "not a prefix code: {:?} {:?} for {}", w[0], w[1], info());
    }
    ctx.max("longest_code", ws.iter().map(|w| w.len()).max().unwrap_or(0) as u64);
    let cost: u64 = counts.iter().map(|(t, n)| n * words[t].len() as u64).sum();
    let cs: Vec<u64> = counts.values().copied().collect();
    ck!(cost == optimal(&cs), "the code for {} needs {cost} bits, {} are possible", info(), optimal(&cs));
    ctx.count(if counts.len() == 1 { "single_symbol_codes" } else { "codes" });

    let reloaded = match reload {
        Some(f) => Some(f(&h)?),
        None => None,
    };
    let syms: Vec<T> = {
        let mut s: Vec<T> = counts.keys().cloned().collect();
        s.sort();
        s
    };
    let msgs: Vec<Vec<T>> = vec![
        train.to_vec(),
        vec![],
        (0..r.range(1, 60)).map(|_| r.pick(&syms).clone()).collect(),
        vec![r.pick(&syms).clone()],
    ];
    for m in &msgs {
        let bits = h.encode(m.iter().cloned()).map_err(|e| format!("trained symbols not encoded: {e}"))?;
        let want: Vec<bool> = m.iter().flat_map(|t| words[t].clone()).collect();
        ck!(bools(&bits) == want, "encoding a sequence is not encoding its symbols for {}", info());
        let back = h.decode(bits.clone()).map_err(|e| format!("own encoding of {m:?} refused: {e}"))?;
        ck!(back == *m, "{m:?} came back as {back:?}");
        let mut sb = bits.ser();
        let n = sb.len();
        sb.push(r.byte());
        let mut c = Cursor::new(&sb);
        let bits2 = Bits::deser(&mut c).map_err(|e| format!("bits not read back: {e}"))?;
        ck!(c.pos() == n, "bits read back from {} of {n} bytes", c.pos());
        if let Some(h2) = &reloaded {
            let back = h2.decode(bits2.clone()).map_err(|e| format!("encoding of {m:?} refused by the code read back: {e}"))?;
            ck!(back == *m, "{m:?} came back as {back:?} after reading the code back");
            let again = h2.encode(m.iter().cloned()).map_err(|e| format!("code read back does not encode: {e}"))?;
            ck!(bools(&again) == want, "code read back encodes differently");
        }
        let back = h.decode(bits2).map_err(|e| e.to_string())?;
        ck!(back == *m, "{m:?} came back as {back:?} after reading the bits back");
        // cut anywhere
        if !want.is_empty() {
            let cut = r.us(want.len());
            let mut whole = 0;
            let mut k = 0;
            for t in m {
                if whole + words[t].len() > cut {
                    break;
                }
                whole += words[t].len();
                k += 1;
            }
            let res = h.decode(want[..cut].iter().copied().collect::<Bits>());
            if whole == cut {
                let res = res.map_err(|e| format!("whole symbols refused: {e}"))?;
                ck!(res == m[..k], "first {k} symbols came back as {res:?}");
                ctx.count("cut_between_symbols");
            } else {
                ck!(res.is_err(), "bits that stop inside a symbol were decoded to {res:?}");
                ctx.count("cut_inside_symbol");
            }
        }
    }
    // a symbol that was never trained, anywhere
    let mut m: Vec<T> = (0..r.range(0, 10)).map(|_| r.pick(&syms).clone()).collect();
    let at = r.range(0, m.len());
    m.insert(at, alien.clone());
    ck!(h.encode(m.iter().cloned()).is_err(), "{alien:?}, never trained, was encoded");
    if let Some(h2) = &reloaded {
        ck!(h2.encode(m.iter().cloned()).is_err(), "{alien:?}, never trained, was encoded after reading back");
    }
    ctx.count("unknown_symbols");
    if let Ok((h3, b)) = Huffman::new_and_encode(train.iter().cloned()) {
        let back = h3.decode(b).map_err(|e| e.to_string())?;
        ck!(back == train, "new_and_encode is not lossless");
    } else {
        return Err("new_and_encode refused its own data".into());
    }
    Ok(())
}
fn weighted<T: Clone>(r: &mut Rng, syms: &[T]) -> Vec<T> {
    let mut out = vec![];
    match r.below(5) {
        0 => syms.iter().for_each(|s| out.push(s.clone())),
        1 => {
            // doubling
            let mut n = 1;
            for s in syms.iter().take(14) {
                out.extend(std::iter::repeat(s.clone()).take(n));
                n = n * 2 - r.us(2);
            }
        }
        2 => {
            let (mut a, mut b) = (1, 1);
            for s in syms.iter().take(20) {
                out.extend(std::iter::repeat(s.clone()).take(a));
                (a, b) = (b, a + b);
            }
        }
        _ => {
            for s in syms {
                let n = 1 + r.us(9) * r.us(6);
                out.extend(std::iter::repeat(s.clone()).take(n));
            }
        }
    }
    if r.bool() {
        r.shuffle(&mut out);
    }
    out
}
fn c09_bytes(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mut syms: Vec<u8> = (0..=255).collect();
    r.shuffle(&mut syms);
    let n = match r.below(5) {
        0 => 1,
        1 => 2,
        2 => r.range(100, 255),
        _ => r.range(1, 40),
    };
    let alien = syms[n];
    syms.truncate(n);
    let train = weighted(r, &syms);
    ctx.seen(&("u8", &train));
    ctx.sample(|| hex(&train));
    c09_generic(ctx, r, &train, &alien, Some(&|h: &Huffman<u8>| {
        let mut b = h.ser();
        let n = b.len();
        b.push(1);
        let mut c = Cursor::new(&b);
        let h2 = Huffman::<u8>::deser(&mut c).map_err(|e| format!("code does not read back: {e}"))?;
        if c.pos() == n { Ok(h2) } else { Err(format!("code read back from {} of {n} bytes", c.pos())) }
    }))
}
fn c09_chars(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let train: Vec<char> = if r.bool() {
        let n = r.range(1, 50);
        let mut s: Vec<char> = (0..n).map(|_| gen_char(r)).collect();
        s.sort_unstable();
        s.dedup();
        weighted(r, &s)
    } else {
        loop {
            let t = gen_text(r, 80);
            if !t.is_empty() {
                break t.chars().collect();
            }
        }
    };
    let alien = loop {
        let c = gen_char(r);
        if !train.contains(&c) {
            break c;
        }
    };
    ctx.seen(&("char", &train));
    let text: String = train.iter().collect();
    let hs = Huffman::new_str(&text).map_err(|e| e.to_string())?;
    let b = hs.encode_string(&text).map_err(|e| e.to_string())?;
    ck!(hs.decode_string(b).is_ok_and(|t| t == text), "text {text:?} not returned");
    c09_generic(ctx, r, &train, &alien, Some(&|h: &Huffman<char>| {
        let mut b = h.ser();
        let n = b.len();
        b.push(0);
        let mut c = Cursor::new(&b);
        let h2 = Huffman::<char>::deser(&mut c).map_err(|e| format!("code does not read back: {e}"))?;
        if c.pos() == n { Ok(h2) } else { Err(format!("code read back from {} of {n} bytes", c.pos())) }
    }))
}
fn c09_other(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let k = r.range(1, 400);
    let syms: Vec<(u16, String)> = (0..k).map(|i| (i as u16 / 3, format!("s{i}"))).collect();
    let train = weighted(r, &syms);
    ctx.seen(&("other", &train.len(), k));
    c09_generic(ctx, r, &train, &(9, "alien".to_string()), None)
}
fn c09_english(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let h = Huffman::new_with_english_frequencies();
    let s: String = (0..r.range(0, 200)).map(|_| char::from(b' ' + r.below(95) as u8)).collect();
    let mut hb = h.ser();
    hb.push(7);
    let h2 = Huffman::<char>::deser(&mut Cursor::new(&hb)).map_err(|e| e.to_string())?;
    if let Ok(b) = h.encode_string(&s) {
        ck!(h.decode_string(b.clone()).is_ok_and(|t| t == s), "english code changed {s:?}");
        ck!(h2.decode_string(b).is_ok_and(|t| t == s), "english code read back changed {s:?}");
        ctx.count("english_texts");
    }
    ck!(h.encode_string(format!("{s}\u{1F596}")).is_err(), "the english code encoded a symbol it was never given");
    Ok(())
}

pub const C09: &[Kind] = &[
    kind("bytes", 5_000, 150_000, c09_bytes),
    kind("chars", 8_000, 240_000, c09_chars),
    kind("other_types", 600, 20_000, c09_other),
    kind("english", 1_500, 40_000, c09_english),
];

// ---------------------------------------------------------------- C10

fn c10_same(b: &Bits, l: &[bool], step: &str) -> R {
    ck!(b.len() == l.len() && b.is_empty() == l.is_empty(), "after {step}: {} bits instead of {}", b.len(), l.len());
    for (i, x) in l.iter().enumerate() {
        ck!(b[i] == *x, "after {step}: bit {i} of {} is {}", l.len(), b[i]);
    }
    // there is nothing past the end
    for i in [l.len(), l.len() + 1, l.len() + 7, l.len() / 8 * 8 + 8, l.len() * 2 + 64] {
        ck!(guarded(|| b[i]).is_none(), "after {step}: bit {i} of {} is {}", l.len(), b[i]);
    }
    let want: String = l.iter().map(|x| if *x { '1' } else { '0' }).collect();
    ck!(b.to_string() == want, "after {step}: displayed as {b} instead of {want}");
    ck!(b.clone().into_iter().eq(l.iter().copied()), "after {step}: iterates differently from {want}");
    let v: Vec<bool> = b.clone().into();
    ck!(v == l, "after {step}: converts to {v:?}");
    let fresh = Bits::from(l);
    ck!(*b == fresh && fresh == *b, "after {step}: not equal to the same bits {want}");
    ck!(hashes(b) == hashes(&fresh), "after {step}: hashes differently from the same bits {want}");
    if !l.is_empty() {
        let mut other = l.to_vec();
        let n = other.len() / 2;
        other[n] = !other[n];
        ck!(*b != Bits::from(&other), "after {step}: equal to different bits");
        other = l[..l.len() - 1].to_vec();
        ck!(*b != Bits::from(&other), "after {step}: equal to fewer bits");
    }
    let mut longer = l.to_vec();
    longer.push(false);
    ck!(*b != Bits::from(&longer), "after {step}: equal to more bits");
    Ok(())
}
fn c10_reload(b: &Bits, l: &[bool], junk: u8) -> R {
    let mut s = b.ser();
    let n = s.len();
    s.extend([junk, junk]);
    let mut c = Cursor::new(&s);
    let back = Bits::deser(&mut c).map_err(|e| format!("{} bits do not read back: {e}", l.len()))?;
    ck!(c.pos() == n, "{} bits: read {} of {n} bytes", l.len(), c.pos());
    ck!(back.len() == l.len() && back == *b && *b == back, "{} bits read back as {} other bits", l.len(), back.len());
    ck!(hashes(&back) == hashes(b), "bits read back hash differently");
    if l.len() < 4000 {
        c10_same(&back, l, "reading back")?;
    }
    Ok(())
}
fn c10_ops(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mut b = Bits::default();
    let mut l: Vec<bool> = vec![];
    let mut trace = vec![];
    for _ in 0..r.range(1, 40) {
        let step;
        match r.below(12) {
            0..=2 => {
                let x = r.bool();
                b.push(x);
                l.push(x);
                step = "push";
            }
            3 | 4 => {
                let (x, y) = (b.pop(), l.pop());
                ck!(x == y, "after {trace:?}: pop gives {x:?} instead of {y:?}");
                step = "pop";
            }
            5 => {
                let v: Vec<bool> = (0..r.range(0, 20)).map(|_| r.bool()).collect();
                b.push_many(Bits::from(&v));
                l.extend(v);
                step = "push_many";
            }
            6 => {
                // append something that came from bytes
                let n = r.range(0, 4);
                let by = r.bytes(n);
                l.extend(by.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)));
                b.push_many(Bits::from_binary(by));
                step = "push_many(from_binary)";
            }
            7 => {
                let x = r.bool();
                let n = b.push_into_new(x);
                c10_same(&b, &l, "push_into_new (old)")?;
                b = n;
                l.push(x);
                step = "push_into_new";
            }
            8 if r.one_in(4) => {
                b.clear();
                l.clear();
                step = "clear";
            }
            9 => {
                let parts: Vec<Vec<bool>> = (0..r.range(0, 4)).map(|_| (0..r.range(0, 11)).map(|_| r.bool()).collect()).collect();
                let first = b.clone();
                b = std::iter::once(first).chain(parts.iter().map(|p| p.iter().copied().collect::<Bits>())).collect();
                l.extend(parts.concat());
                step = "collect";
            }
            10 => {
                let s = b.ser();
                let junk = r.byte();
                c10_reload(&b, &l, junk)?;
                b = Bits::deser(&mut Cursor::new(&s)).map_err(|e| format!("{e}"))?;
                step = "reload";
            }
            _ => {
                let n = r.range(0, 5);
                let by = r.bytes(n);
                l = by.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect();
                b = Bits::from_binary(by);
                step = "from_binary";
            }
        }
        trace.push(step);
        ctx.count(step);
        c10_same(&b, &l, &format!("{trace:?}"))?;
    }
    let junk = r.byte();
    c10_reload(&b, &l, junk)?;
    ctx.seen(&l);
    ctx.sample(|| format!("{trace:?} -> {b}"));
    Ok(())
}
fn c10_lengths(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    let n = (idx % 2200) as usize;
    let l: Vec<bool> = (0..n).map(|_| r.bool()).collect();
    let mut b: Bits = l.iter().copied().collect();
    c10_same(&b, &l, "collect")?;
    let junk = r.byte();
    c10_reload(&b, &l, junk)?;
    // and drained
    let mut back = vec![];
    while let Some(x) = b.pop() {
        back.push(x);
    }
    back.reverse();
    ck!(back == l && b.is_empty() && b == Bits::default(), "{n} bits drained to {} bits", back.len());
    ctx.seen(&("len", n));
    Ok(())
}
fn c10_huge(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    // beyond what a single precision float counts exactly
    let n = (1_usize << 24) + [0, 1, 9, 17, 1001, (1 << 24) + 9, (1 << 24) + 3, 3 << 24 | 5][idx as usize % 8];
    let l: Vec<bool> = {
        let mut x = r.u64();
        (0..n)
            .map(|_| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x & 1 == 1
            })
            .collect()
    };
    let b: Bits = l.iter().copied().collect();
    ck!(b.len() == n, "{n} bits counted as {}", b.len());
    let s = b.ser();
    let mut s2 = s.clone();
    s2.extend([0xFF; 3]);
    let mut c = Cursor::new(&s2);
    let back = Bits::deser(&mut c).map_err(|e| format!("{n} bits do not read back: {e}"))?;
    ck!(c.pos() == s.len(), "{n} bits: read {} of {} bytes", c.pos(), s.len());
    ck!(back.len() == n && back == b, "{n} bits changed when read back");
    for _ in 0..2000 {
        let i = r.us(n);
        ck!(back[i] == l[i], "bit {i} of {n} changed");
    }
    for i in n - 20..n {
        ck!(back[i] == l[i], "bit {i} of {n} changed");
    }
    let v: Vec<bool> = back.into();
    ck!(v == l, "{n} bits converted to other bits");
    ctx.seen(&("huge", n));
    ctx.max("bits", n as u64);
    Ok(())
}

pub const C10: &[Kind] = &[
    kind("operations", 30_000, 900_000, c10_ops),
    kind("every_length", 2_200, 22_000, c10_lengths),
    kind("huge", 8, 40, c10_huge),
];

// ---------------------------------------------------------------- C11

fn edge(r: &mut Rng, len: usize, pos: usize) -> usize {
    match r.below(9) {
        0 => usize::MAX - r.us(3),
        1 => len + r.us(3),
        2 => (len - pos) + r.us(3),
        3 => (len - pos).saturating_sub(r.us(3)),
        4 => pos + r.us(3),
        5 => pos.saturating_sub(r.us(2)),
        6 => usize::MAX - pos + r.us(2).min(pos),
        7 => (isize::MAX as usize).wrapping_add(r.us(3)),
        _ => r.us(len + 2),
    }
}
macro_rules! exact_n {
    ($c:expr, $data:expr, $pos:expr, $read:expr, $n:expr, $($k:literal),+) => {
        match $n {
            $( $k => {
                let got: Option<Vec<u32>> = if $read { $c.read_exact::<$k>().map(|a| a.to_vec()) } else { $c.peek_exact::<$k>().map(|a| a.to_vec()) };
                let want = $data.get($pos..$pos + $k).map(<[u32]>::to_vec);
                (got, want, $k)
            } )+
            _ => unreachable!(),
        }
    };
}
fn c11_ops(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let len = if r.one_in(8) { r.range(0, 2) } else { r.range(0, 24) };
    let data: Vec<u32> = (0..len as u32).map(|i| i * 7 + 1).collect();
    let mut c = Cursor::new(&data);
    let mut pos = 0_usize;
    let mut trace: Vec<String> = vec![];
    for _ in 0..r.range(1, 40) {
        let n = edge(r, len, pos);
        let op = r.below(14);
        macro_rules! bad { ($($a:tt)*) => { return Err(format!("{} elements, after {trace:?}: {}", len, format!($($a)*))) } }
        match op {
            0 | 1 => {
                trace.push(format!("read({n})"));
                let want = pos.checked_add(n).and_then(|e| data.get(pos..e));
                let got = c.read(n);
                // nothing to read at the end: nothing, or an empty slice
                if got != want && !(n == 0 && pos == len && got.is_none()) {
                    bad!("gives {got:?} instead of {want:?}");
                }
                if want.is_some() {
                    pos += n;
                }
                ctx.count(if want.is_some() { "read" } else { "read_refused" });
            }
            2 => {
                trace.push(format!("peek({n})"));
                let want = pos.checked_add(n).and_then(|e| data.get(pos..e));
                let got = c.peek(n);
                if got != want && !(n == 0 && pos == len && got.is_none()) {
                    bad!("gives {got:?} instead of {want:?}");
                }
                ctx.count("peek");
            }
            3 => {
                trace.push(format!("move_forwards({n})"));
                let want = pos.checked_add(n).filter(|p| *p <= len);
                let got = c.move_forwards(n);
                if got != want.is_some() {
                    bad!("gives {got}");
                }
                pos = want.unwrap_or(pos);
                ctx.count("move_forwards");
            }
            4 => {
                trace.push(format!("move_backwards({n})"));
                let want = pos.checked_sub(n);
                let got = c.move_backwards(n);
                if got != want.is_some() {
                    bad!("gives {got}");
                }
                pos = want.unwrap_or(pos);
                ctx.count("move_backwards");
            }
            5 => {
                trace.push(format!("set_pos({n})"));
                c.set_pos(n);
                pos = n.min(len);
                ctx.count("set_pos");
            }
            6 => {
                trace.push("next".into());
                let want = data.get(pos);
                let got = c.next();
                if got != want {
                    bad!("gives {got:?} instead of {want:?}");
                }
                pos += usize::from(want.is_some());
                ctx.count("next");
            }
            7 => {
                let k = r.us(6);
                trace.push(format!("take({k})"));
                let got: Vec<u32> = c.by_ref().take(k).copied().collect();
                let want = &data[pos..(pos + k).min(len)];
                if got != want {
                    bad!("gives {got:?} instead of {want:?}");
                }
                pos += want.len();
                ctx.count("iterate");
            }
            8 => {
                trace.push("remaining".into());
                if c.peek_remaining() != &data[pos..] || c.as_ref() != &data[pos..] {
                    bad!("gives {:?} instead of {:?}", c.peek_remaining(), &data[pos..]);
                }
                if r.one_in(3) {
                    trace.push("read_remaining".into());
                    let got = c.read_remaining().to_vec();
                    if got != data[pos..] {
                        bad!("gives {got:?}");
                    }
                    pos = len;
                }
                ctx.count("remaining");
            }
            9 => {
                let read = r.bool();
                let k = *r.pick(&[0_usize, 1, 2, 3, 4, 8, 16, 32]);
                trace.push(format!("{}_exact::<{k}>", if read { "read" } else { "peek" }));
                let (got, want, k) = exact_n!(c, data, pos, read, k, 0, 1, 2, 3, 4, 8, 16, 32);
                if got != want && !(k == 0 && pos == len && got.is_none()) {
                    bad!("gives {got:?} instead of {want:?}");
                }
                if read && want.is_some() {
                    pos += k;
                }
                ctx.count("exact");
            }
            10 => {
                let o = match r.below(4) {
                    0 => u64::MAX - r.below(2),
                    1 => 1 << 63,
                    _ => r.below(len as u64 + 3),
                };
                trace.push(format!("seek(Start({o}))"));
                let got = c.seek(SeekFrom::Start(o));
                let want = usize::try_from(o).ok().filter(|p| *p <= len);
                if got.as_ref().ok().copied() != want.map(|p| p as u64) {
                    bad!("gives {got:?} instead of {want:?}");
                }
                pos = want.unwrap_or(pos);
                ctx.count(if want.is_some() { "seek_start" } else { "seek_start_refused" });
            }
            11 | 12 => {
                let o = match r.below(6) {
                    0 => i64::MIN + r.below(2) as i64,
                    1 => i64::MAX - r.below(2) as i64,
                    _ => r.below(2 * len as u64 + 5) as i64 - len as i64 - 2,
                };
                let end = op == 11;
                let (base, f) = if end { (len, SeekFrom::End(o)) } else { (pos, SeekFrom::Current(o)) };
                trace.push(format!("seek({f:?})"));
                let got = c.seek(f);
                let want = (base as i128 + i128::from(o)).try_into().ok().filter(|p: &usize| *p <= len);
                if got.as_ref().ok().copied() != want.map(|p| p as u64) {
                    bad!("gives {got:?} instead of {want:?}");
                }
                pos = want.unwrap_or(pos);
                ctx.count(if want.is_some() { "seek" } else { "seek_refused" });
            }
            _ => {
                trace.push("stream_position".into());
                let got = c.stream_position();
                if got.as_ref().ok() != Some(&(pos as u64)) {
                    bad!("gives {got:?} instead of {pos}");
                }
                ctx.count("stream_position");
            }
        }
        if c.pos() != pos || c.pos() > len {
            bad!("position is {} instead of {pos}", c.pos());
        }
        if c.items_remaining() != len - pos || c.is_finished() != (pos == len) {
            bad!("{} remaining, finished: {}", c.items_remaining(), c.is_finished());
        }
        if c.peek_remaining() != &data[pos..] {
            bad!("remaining elements are {:?}", c.peek_remaining());
        }
    }
    ctx.seen(&(len, &trace));
    ctx.sample(|| format!("{len} elements: {trace:?}"));
    Ok(())
}
fn c11_every_state(ctx: &mut Ctx, _: &mut Rng, idx: u64) -> R {
    // every position of every short slice, every operation with every small argument
    let len = (idx % 7) as usize;
    let data: Vec<u8> = (0..len as u8).collect();
    for pos in 0..=len {
        for n in (0..=len + 2).chain([usize::MAX, usize::MAX - 1, usize::MAX - len]) {
            for op in 0..5 {
                let mut c = Cursor::new(&data);
                c.set_pos(pos);
                ck!(c.pos() == pos, "set_pos({pos}) of {len} gives {}", c.pos());
                let e = pos.checked_add(n).filter(|e| *e <= len);
                let (ok, want) = match op {
                    0 => (c.read(n) == e.map(|e| &data[pos..e]), e.unwrap_or(pos)),
                    1 => (c.peek(n) == e.map(|e| &data[pos..e]), pos),
                    2 => (c.move_forwards(n) == e.is_some(), e.unwrap_or(pos)),
                    3 => (c.move_backwards(n) == (n <= pos), pos.checked_sub(n).unwrap_or(pos)),
                    _ => {
                        c.set_pos(n);
                        (true, n.min(len))
                    }
                };
                ck!((ok || (op < 2 && n == 0 && pos == len)) && c.pos() == want, "operation {op} with {n} at {pos} of {len}: position {}", c.pos());
                ctx.count("exhaustive_steps");
            }
        }
        let l = len as i64;
        for o in (-l - 2..=l + 2).chain([i64::MIN, i64::MAX]) {
            for op in 0..3 {
                let mut c = Cursor::new(&data);
                c.set_pos(pos);
                let (f, base) = match op {
                    0 => (SeekFrom::Start(o as u64), if o < 0 { i128::from(o as u64) - i128::from(o) } else { 0 }),
                    1 => (SeekFrom::Current(o), pos as i128),
                    _ => (SeekFrom::End(o), len as i128),
                };
                let t = base + i128::from(o);
                let want = (t >= 0 && t <= len as i128).then_some(t as u64);
                let got = c.seek(f).ok();
                ck!(got == want, "{f:?} at {pos} of {len} gives {got:?} instead of {want:?}");
                ck!(c.pos() == want.map_or(pos, |w| w as usize), "{f:?} at {pos} of {len} moves to {}", c.pos());
                ctx.count("exhaustive_seeks");
            }
        }
    }
    ctx.seen(&("every", len));
    Ok(())
}

pub const C11: &[Kind] = &[
    kind("operations", 160_000, 5_000_000, c11_ops),
    kind("every_state", 7, 7, c11_every_state),
];

// ---------------------------------------------------------------- C12

fn num_eq(a: &Num, b: &Num) -> bool {
    a == b
}
/// equality as documented: same kind, equal content
pub fn model_eq(a: &MV, b: &MV) -> bool {
    match (a, b) {
        (MV::Char(a), MV::Char(b)) => a == b,
        (MV::Str(a), MV::Str(b)) | (MV::Tz(a), MV::Tz(b)) => a == b,
        (MV::Bin(a), MV::Bin(b)) => a == b,
        (MV::Bool(a), MV::Bool(b)) => a == b,
        (MV::Int(a), MV::Int(b)) => num_eq(a, b),
        (MV::Cart(a, b), MV::Cart(c, d)) => num_eq(a, c) && num_eq(b, d),
        (MV::Polar(a, b), MV::Polar(c, d)) => a == c && b == d,
        (MV::Ts { .. }, MV::Ts { .. }) => diff(a, b).is_none(),
        (MV::Json(a), MV::Json(b)) => a == b,
        (MV::Null, MV::Null) => true,
        (MV::F64(a), MV::F64(b)) => a == b,
        (MV::F32(a), MV::F32(b)) => a == b,
        (MV::V4(a), MV::V4(b)) => a == b,
        (MV::V6(a), MV::V6(b)) => a == b,
        (MV::Arr(a), MV::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| model_eq(a, b)),
        (MV::Map(a), MV::Map(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && model_eq(v, w)))
        }
        _ => false,
    }
}
/// the same value, told differently
pub fn retell(r: &mut Rng, m: &MV) -> MV {
    let renum = |r: &mut Rng, n: &Num| loop {
        let o = *r.pick(&ORIGINS);
        if n.fits(o) {
            return Num { origin: o, ..*n };
        }
    };
    let z = |r: &mut Rng, f: f64| if f == 0.0 && r.bool() { -f } else { f };
    match m {
        MV::Int(n) => MV::Int(renum(r, n)),
        MV::Cart(a, b) => MV::Cart(renum(r, a), renum(r, b)),
        MV::Polar(a, b) => MV::Polar(z(r, *a), z(r, *b)),
        MV::F64(f) => MV::F64(z(r, *f)),
        MV::F32(f) => MV::F32(if *f == 0.0 && r.bool() { -*f } else { *f }),
        MV::Json(j) => MV::Json(retell_json(r, j)),
        MV::Arr(a) => MV::Arr(a.iter().map(|v| retell(r, v)).collect()),
        MV::Map(e) => {
            let mut e: Vec<_> = e.iter().map(|(k, v)| (k.clone(), retell(r, v))).collect();
            r.shuffle(&mut e);
            MV::Map(e)
        }
        m => m.clone(),
    }
}
fn retell_json(r: &mut Rng, j: &serde_json::Value) -> serde_json::Value {
    use serde_json::Value as J;
    match j {
        J::Number(n) if n.is_f64() && n.as_f64() == Some(0.0) => J::from(if r.bool() { 0.0 } else { -0.0 }),
        J::Array(a) => J::Array(a.iter().map(|x| retell_json(r, x)).collect()),
        J::Object(o) => {
            let mut e: Vec<_> = o.iter().map(|(k, v)| (k.clone(), retell_json(r, v))).collect();
            r.shuffle(&mut e);
            J::Object(e.into_iter().collect())
        }
        j => j.clone(),
    }
}
/// change one thing
pub fn nudge(r: &mut Rng, m: &MV) -> MV {
    match m {
        MV::Arr(a) if !a.is_empty() && !r.one_in(4) => {
            let mut a = a.clone();
            let i = r.us(a.len());
            match r.below(4) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let v = a[i].clone();
                    a.push(v);
                }
                _ => a[i] = nudge(r, &a[i].clone()),
            }
            MV::Arr(a)
        }
        MV::Map(e) if !e.is_empty() && !r.one_in(4) => {
            let mut e = e.clone();
            let i = r.us(e.len());
            match r.below(5) {
                0 => {
                    e.remove(i);
                }
                1 => e[i].0.push('x'),
                2 if e.len() > 1 => {
                    let j = r.us(e.len());
                    let v = e[i].1.clone();
                    e[i].1 = e[j].1.clone();
                    e[j].1 = v;
                }
                _ => e[i].1 = nudge(r, &e[i].1.clone()),
            }
            MV::Map(e)
        }
        MV::Str(s) => match r.below(3) {
            0 => MV::Str(format!("{s}a")),
            1 => MV::Str(s.chars().rev().collect()),
            _ => MV::Bin(s.clone().into_bytes()),
        },
        MV::Int(n) => match r.below(3) {
            0 => MV::Int(Num { mag: n.mag ^ 1, origin: Origin::Parse, neg: n.neg && n.mag ^ 1 != 0 && n.mag ^ 1 <= 1 << 127 }),
            1 => MV::Int(Num { neg: !n.neg && n.mag > 0 && n.mag <= 1 << 127, mag: n.mag, origin: Origin::Parse }),
            _ => MV::F64(n.mag as f64),
        },
        MV::Cart(a, b) => {
            if r.bool() { MV::Cart(*b, *a) } else { MV::Cart(*a, Num::u(b.mag ^ 1)) }
        }
        MV::Polar(a, b) => if r.bool() { MV::Polar(*b, *a) } else { MV::Polar(*a, -*b) },
        MV::F64(f) => match r.below(3) {
            0 => MV::F64(f64::from_bits(f.to_bits() ^ 1)),
            1 => MV::F64(-*f),
            _ => MV::F32(*f as f32),
        },
        MV::F32(f) => if r.bool() { MV::F32(f32::from_bits(f.to_bits() ^ 1)) } else { MV::F64(f64::from(*f)) },
        MV::Ts { y, mo, d, h, mi, s, ns } => MV::Ts { y: *y, mo: *mo, d: *d, h: *h, mi: *mi, s: *s, ns: ns ^ 1 },
        MV::Json(j) => if r.bool() { MV::Json(serde_json::json!([j])) } else { MV::Json(serde_json::Value::String(j.to_string())) },
        MV::Bin(b) => {
            let mut b = b.clone();
            if b.is_empty() || r.bool() { b.push(0) } else { let i = r.us(b.len()); b[i] ^= 1 }
            MV::Bin(b)
        }
        MV::Bool(b) => MV::Bool(!b),
        MV::Char(c) => MV::Str(c.to_string()),
        MV::V4(a) => MV::V4([a[0], a[1], a[2], a[3] ^ 1]),
        MV::V6(a) => {
            let mut a = *a;
            a[r.us(8)] ^= 0x100;
            MV::V6(a)
        }
        MV::Tz(_) => MV::Tz(r.pick(&chrono_tz::TZ_VARIANTS).name().to_string()),
        MV::Null => MV::Map(vec![]),
        MV::Arr(_) => MV::Arr(vec![MV::Null]),
        MV::Map(_) => MV::Map(vec![("k".into(), MV::Null)]),
    }
}
/// built with spare room, removals and refills
pub fn build(r: &mut Rng, m: &MV) -> Value {
    match m {
        MV::Map(e) => {
            let mut map = match r.below(3) {
                0 => hashbrown::HashMap::new(),
                1 => hashbrown::HashMap::with_capacity(e.len() + 100),
                _ => hashbrown::HashMap::with_capacity(e.len()),
            };
            for (i, (k, v)) in e.iter().enumerate() {
                if r.one_in(3) {
                    map.insert(format!("temporary{i}"), Value::Null(()));
                }
                map.insert(k.clone(), build(r, v));
            }
            for i in 0..e.len() {
                let t = format!("temporary{i}");
                if !e.iter().any(|(k, _)| *k == t) {
                    map.remove(&t);
                }
            }
            if r.one_in(3) {
                map.shrink_to_fit();
            }
            Value::Map(map)
        }
        MV::Arr(a) => {
            let mut v = Vec::with_capacity(a.len() + r.us(20));
            v.extend(a.iter().map(|x| build(r, x)));
            Value::Array(v)
        }
        m => to_value(m),
    }
}
fn c12_pair(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let cfg = Cfg { nan: r.one_in(4), ..SMALL };
    let k = r.below(16);
    let a = if r.bool() || k == 8 || k == 11 { gen_value(r, &cfg) } else { gen_leaf(r, &cfg, k) };
    let b = match r.below(5) {
        0 | 1 => retell(r, &a),
        2 | 3 => {
            let n = nudge(r, &a);
            retell(r, &n)
        }
        _ => gen_value(r, &cfg),
    };
    let c = if r.bool() { retell(r, &b) } else { retell(r, &a) };
    let (x, y, z) = (build(r, &a), build(r, &b), build(r, &c));
    ctx.sample(|| format!("{} == {}", show(&a), show(&b)));
    ctx.seen(&(format!("{a:?}{b:?}")));
    for (p, q, m, n) in [(&x, &y, &a, &b), (&y, &z, &b, &c), (&x, &z, &a, &c)] {
        let want = model_eq(m, n);
        let got = p == q;
        ck!(got == want, "{} == {} is {got}", show(m), show(n));
        ck!((q == p) == got, "== is not symmetric for {} and {}", show(m), show(n));
        ck!((p != q) != got, "!= contradicts == for {} and {}", show(m), show(n));
        if got {
            ck!(hashes(p) == hashes(q), "equal values hash differently: {} and {}", show(m), show(n));
            ctx.count("equal_pairs");
        } else {
            ctx.count("unequal_pairs");
        }
    }
    if x == y && y == z {
        ck!(x == z, "== is not transitive: {}, {}, {}", show(&a), show(&b), show(&c));
        ctx.count("equal_triples");
    }
    if a.has_nan() {
        ctx.count("with_nan");
    } else {
        ck!(x == x.clone() && x.clone() == x, "{} is not equal to its clone", show(&a));
        ck!(hashes(&x) == hashes(&x.clone()), "{} and its clone hash differently", show(&a));
    }
    // through bytes as well
    if let Ok(back) = Value::deser(&mut Cursor::new(&x.ser(None)), None) {
        if !a.has_nan() {
            ck!(back == x && x == back, "{} is not equal to itself read back", show(&a));
            ck!(hashes(&back) == hashes(&x), "{} and itself read back hash differently", show(&a));
        }
    }
    Ok(())
}
fn spoil(v: &mut Value) {
    match v {
        Value::Map(m) => {
            for (_, v) in m.iter_mut() {
                spoil(v);
            }
            m.insert("spoilt".into(), Value::Boolean(true));
        }
        Value::Array(a) => {
            a.iter_mut().for_each(spoil);
            a.push(Value::Null(()));
        }
        Value::String(s) => s.push('!'),
        Value::Binary(b) => b.0.push(9),
        Value::JSON(j) => *j = serde_json::json!({ "spoilt": j.take() }),
        Value::Boolean(b) => *b = !*b,
        v => *v = Value::String("spoilt".into()),
    }
}
fn c12_clone(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let a = gen_value(r, &SMALL);
    let v = build(r, &a);
    let mut c = v.clone();
    spoil(&mut c);
    same(&a, &v).map_err(|e| format!("changing a clone changed the original: {e}"))?;
    ck!(!model_eq(&a, &from_value(&c)?), "harness: spoil did nothing");
    ck!(v != c, "{} is still equal to a clone that was changed", show(&a));
    let mut w = v.clone();
    let keep = w.clone();
    spoil(&mut w);
    drop(w);
    same(&a, &keep).map_err(|e| format!("changing the original changed the clone: {e}"))?;
    ctx.seen(&format!("{a:?}"));
    Ok(())
}
fn c12_map_order(ctx: &mut Ctx, r: &mut Rng, idx: u64) -> R {
    // maps of every size up to a few hundred, filled in different orders
    let n = (idx % 300) as usize;
    let mut e: Vec<(String, MV)> = (0..n).map(|i| (format!("{}{i}", r.below(10)), MV::Int(Num::u(r.u128() >> 100)))).collect();
    let a = build(r, &MV::Map(e.clone()));
    r.shuffle(&mut e);
    let b = build(r, &MV::Map(e.clone()));
    ck!(a == b && b == a, "maps of {n} entries filled in different orders are not equal");
    ck!(hashes(&a) == hashes(&b), "maps of {n} entries filled in different orders hash differently");
    let (s, t) = (sourisdb::store::Store::try_from(a.clone()), sourisdb::store::Store::try_from(b.clone()));
    ck!(matches!((&s, &t), (Ok(s), Ok(t)) if s == t), "stores of {n} entries filled in different orders are not equal");
    let (x, y) = (Value::Array(vec![a, Value::Null(())]), Value::Array(vec![b, Value::Null(())]));
    ck!(x == y && hashes(&x) == hashes(&y), "arrays of equal maps differ");
    ctx.seen(&(n, idx));
    ctx.count("map_orders");
    Ok(())
}
fn c12_imaginary(ctx: &mut Ctx, r: &mut Rng, _: u64) -> R {
    let mk = |r: &mut Rng| {
        let k = 5;
        let c = Cfg { nan: false, ..SMALL };
        if r.one_in(4) { MV::Polar(*r.pick(&[0.0, -0.0, 1.0]), *r.pick(&[0.0, -0.0, 1.0])) } else { gen_leaf(r, &c, k) }
    };
    let a = mk(r);
    let b = if r.bool() { retell(r, &a) } else { mk(r) };
    if let (Value::Imaginary(x), Value::Imaginary(y)) = (to_value(&a), to_value(&b)) {
        let (x, y): (Imaginary, Imaginary) = (x, y);
        ck!((x == y) == model_eq(&a, &b), "{} == {} is {}", show(&a), show(&b), x == y);
        if x == y {
            ck!(hashes(&x) == hashes(&y), "equal complex numbers hash differently: {} and {}", show(&a), show(&b));
            ctx.count("equal_complex");
        }
    }
    ctx.seen(&format!("{a:?}{b:?}"));
    Ok(())
}

pub const C12: &[Kind] = &[
    kind("triples", 60_000, 1_800_000, c12_pair),
    kind("clones", 20_000, 500_000, c12_clone),
    kind("map_order", 1_200, 30_000, c12_map_order),
    kind("complex", 20_000, 500_000, c12_imaginary),
];
