//! Random operations
use crate::core::Rng;
use crate::model::{self, Cfg, MV};
use crate::spec::*;

/// A value of any kind that a daemon has to keep as it is
pub fn any_value(r: &mut Rng, big: bool) -> MV {
    if big && r.one_in(3) {
        return if r.bool() {
            let n = r.range(20_000, 200_000);
            let a = r.range(1, 20) as u64;
            MV::Str((0..n).map(|_| char::from(b'a' + r.below(a) as u8)).collect())
        } else {
            let n = r.range(10_000, 100_000);
            MV::Bin(if r.bool() { vec![r.byte(); n] } else { r.bytes(n) })
        };
    }
    let c = Cfg { depth: 3, width: 4, text: 30, bin: 40, jsonable: false, leap_anywhere: true, nan: true };
    model::gen_value(r, &c)
}

pub const SPECIAL_NAMES: &[&str] = &[
    "a b", "x&y=1", "100%", "a+b", "~", "a#b", "why?", "name.sdb", "Meta", "META", "metadata", "meta.sdb", "meta ", "a;b", "a%2Fb", "%00", "'", "\"q\"", "<x>", "a=b", ".hidden", "db_name",
    "x.tmp", "x.sdb.tmp", "-", "0", "a:b", "*", "$HOME", "`id`", "|", "existing_dbs",
];
pub fn db_names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let s = match r.below(4) {
            0 => (*r.pick(SPECIAL_NAMES)).to_string(),
            1 => {
                let n = *r.pick(&[1_usize, 2, 30, 100, 200, 240]);
                (0..n).map(|_| char::from(b'a' + r.below(26) as u8)).collect()
            }
            _ => format!("db{}", r.below(100)),
        };
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}
pub fn keys(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let s = match r.below(5) {
            0 => (*r.pick(SPECIAL_NAMES)).to_string(),
            1 => model::gen_text(r, 30),
            2 => (*r.pick(&["", "é", "日本語", "../x", "/etc/passwd", "\0", "\n", "a\r\nb: c", "meta", "🖖", "%", "&", "+", " "])).to_string(),
            _ => format!("k{}", r.below(50)),
        };
        if !v.contains(&s) && s.len() < 4000 {
            v.push(s);
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub struct Mix {
    pub add_db: u64,
    pub put: u64,
    pub rm_db: u64,
    pub clear: u64,
    pub add: u64,
    pub rm: u64,
    pub get: u64,
    pub get_db: u64,
    pub list: u64,
}
pub const EVEN: Mix = Mix { add_db: 8, put: 10, rm_db: 6, clear: 5, add: 30, rm: 8, get: 14, get_db: 14, list: 5 };
pub const CACHE: Mix = Mix { add_db: 3, put: 8, rm_db: 4, clear: 5, add: 18, rm: 5, get: 8, get_db: 46, list: 3 };
pub const CHURN: Mix = Mix { add_db: 20, put: 16, rm_db: 18, clear: 8, add: 14, rm: 2, get: 4, get_db: 12, list: 8 };
pub const WRITES: Mix = Mix { add_db: 6, put: 12, rm_db: 6, clear: 4, add: 40, rm: 10, get: 3, get_db: 3, list: 2 };
pub const ONEDB: Mix = Mix { add_db: 0, put: 0, rm_db: 0, clear: 0, add: 30, rm: 10, get: 20, get_db: 35, list: 0 };

pub fn op(r: &mut Rng, m: &Mix, dbs: &[String], keys: &[String], mut fresh: impl FnMut(&mut Rng) -> V) -> Op {
    let db = r.pick(dbs).clone();
    let key = r.pick(keys).clone();
    let w = [m.add_db, m.put, m.rm_db, m.clear, m.add, m.rm, m.get, m.get_db, m.list];
    let mut x = r.below(w.iter().sum());
    let mut k = 0;
    while x >= w[k] {
        x -= w[k];
        k += 1;
    }
    match k {
        0 => Op::AddDb { db, overwrite: r.one_in(3) },
        1 => {
            let n = r.range(0, keys.len().min(4));
            let mut ks = keys.to_vec();
            r.shuffle(&mut ks);
            ks.truncate(n);
            let with = ks.into_iter().map(|k| (k, fresh(r))).collect();
            Op::PutDb { db, overwrite: r.bool(), with }
        }
        2 => Op::RmDb { db },
        3 => Op::ClearDb { db },
        4 => Op::Add { db, key, v: fresh(r), create: r.bool(), overwrite: !r.one_in(3) },
        5 => Op::Rm { db, key },
        6 => Op::Get { db, key },
        7 => Op::GetDb { db },
        _ => Op::List,
    }
}
