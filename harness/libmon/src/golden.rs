//! Recorded stores from the earliest build: model <-> tagged JSON.
use crate::core::*;
use crate::model::*;
use serde_json::{json, Value as SJ};

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}
pub fn fullhex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn to_json(m: &MV) -> SJ {
    match m {
        MV::Char(c) => json!(["char", *c as u32]),
        MV::Str(s) => json!(["str", s]),
        MV::Bin(b) => json!(["bin", fullhex(b)]),
        MV::Bool(b) => json!(["bool", b]),
        MV::Int(n) => json!(["int", n.dec()]),
        MV::Cart(a, b) => json!(["cart", a.dec(), b.dec()]),
        MV::Polar(a, b) => json!(["polar", a.to_bits().to_string(), b.to_bits().to_string()]),
        MV::Ts { y, mo, d, h, mi, s, ns } => json!(["ts", y, mo, d, h, mi, s, ns]),
        MV::Json(j) => json!(["json", j.to_string()]),
        MV::Map(e) => json!(["map", e.iter().map(|(k, v)| json!([k, to_json(v)])).collect::<Vec<_>>()]),
        MV::Null => json!(["null"]),
        MV::F64(f) => json!(["f64", f.to_bits().to_string()]),
        MV::Arr(a) => json!(["arr", a.iter().map(to_json).collect::<Vec<_>>()]),
        MV::Tz(s) => json!(["tz", s]),
        MV::V4(a) => json!(["v4", a]),
        MV::V6(a) => json!(["v6", a]),
        MV::F32(f) => json!(["f32", f.to_bits()]),
    }
}
fn num(s: &SJ) -> Num {
    let s = s.as_str().expect("harness");
    match s.strip_prefix('-') {
        Some(d) => Num { neg: true, mag: d.parse().expect("harness"), origin: Origin::I128 },
        None => Num::u(s.parse().expect("harness")),
    }
}
fn bits(s: &SJ) -> f64 {
    f64::from_bits(s.as_str().expect("harness").parse().expect("harness"))
}
pub fn from_json(j: &SJ) -> MV {
    let u = |i: usize| j[i].as_u64().expect("harness");
    let s = |i: usize| j[i].as_str().expect("harness").to_string();
    match j[0].as_str().expect("harness") {
        "char" => MV::Char(char::from_u32(u(1) as u32).expect("harness")),
        "str" => MV::Str(s(1)),
        "bin" => MV::Bin(unhex(&s(1))),
        "bool" => MV::Bool(j[1].as_bool().expect("harness")),
        "int" => MV::Int(num(&j[1])),
        "cart" => MV::Cart(num(&j[1]), num(&j[2])),
        "polar" => MV::Polar(bits(&j[1]), bits(&j[2])),
        "ts" => MV::Ts {
            y: j[1].as_i64().expect("harness") as i32,
            mo: u(2) as u32,
            d: u(3) as u32,
            h: u(4) as u32,
            mi: u(5) as u32,
            s: u(6) as u32,
            ns: u(7) as u32,
        },
        "json" => MV::Json(serde_json::from_str(&s(1)).expect("harness")),
        "map" => MV::Map(
            j[1].as_array().expect("harness").iter().map(|e| (e[0].as_str().expect("harness").to_string(), from_json(&e[1]))).collect(),
        ),
        "null" => MV::Null,
        "f64" => MV::F64(bits(&j[1])),
        "arr" => MV::Arr(j[1].as_array().expect("harness").iter().map(from_json).collect()),
        "tz" => MV::Tz(s(1)),
        "v4" => {
            let mut a = [0; 4];
            for (i, x) in a.iter_mut().enumerate() {
                *x = j[1][i].as_u64().expect("harness") as u8;
            }
            MV::V4(a)
        }
        "v6" => {
            let mut a = [0; 8];
            for (i, x) in a.iter_mut().enumerate() {
                *x = j[1][i].as_u64().expect("harness") as u16;
            }
            MV::V6(a)
        }
        _ => MV::F32(f32::from_bits(u(1) as u32)),
    }
}

/// Print recordings made with whichever library this is built against.
pub fn record(n: u64, seed: u64) {
    let cfg = Cfg { depth: 3, width: 5, text: 24, bin: 30, jsonable: false, leap_anywhere: false, nan: false };
    let mut i = 0;
    let mut done = 0;
    while done < n {
        i += 1;
        let mut r = case_rng(seed, "golden", "record", i);
        let k = r.range(0, 9);
        let mut e = gen_entries(&mut r, &cfg, k);
        if i % 16 < 16 {
            let kd = i % 16;
            if kd != 8 && kd != 11 {
                e.retain(|(k, _)| k != "own");
                e.push(("own".into(), gen_leaf(&mut r, &cfg, kd)));
            }
        }
        let m = MV::Map(e.clone());
        let mut t = String::new();
        m.text(&mut t);
        let mut cs: Vec<char> = t.chars().collect();
        cs.sort_unstable();
        cs.dedup();
        if cs.len() == 1 {
            continue; // earlier builds lost such texts
        }
        let st = crate::props_a::store_of(&e);
        let values: Vec<SJ> = e
            .iter()
            .map(|(_, v)| json!({"v": to_json(v), "hex": fullhex(&to_value(v).ser(None))}))
            .collect();
        println!("{}", json!({"store": to_json(&m), "hex": fullhex(&st.ser()), "values": values}));
        done += 1;
    }
}
