//! What the daemon should do, as a map of maps, and how an operation looks on the wire.
use crate::core::Rng;
use crate::http::{enc, Conn, Reply};
use crate::model::{diff, show, Num, MV};
use crate::refcodec;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type V = u32;
pub type Db = BTreeMap<String, V>;
pub type State = BTreeMap<String, Db>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    AddDb { db: String, overwrite: bool },
    PutDb { db: String, overwrite: bool, with: Vec<(String, V)> },
    RmDb { db: String },
    ClearDb { db: String },
    Add { db: String, key: String, v: V, create: bool, overwrite: bool },
    Rm { db: String, key: String },
    Get { db: String, key: String },
    GetDb { db: String },
    List,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ans {
    Status(u16),
    Added(u8),
    Val(V),
    Db(Db),
    Names(BTreeSet<String>),
}
pub const RESULTS: [&str; 5] =
    ["InsertedKeyIntoExistingDB", "OverwroteKeyInExistingDB", "FoundExistingKey", "InsertedKeyIntoNewDB", "UnableToFindDB"];

/// names every endpoint has to take / to refuse; None where nothing is promised
pub fn name_ok(n: &str) -> Option<bool> {
    if n == "meta" || !n.is_ascii() || n.contains('/') || n.contains('\0') || n.len() > 251 {
        Some(false)
    } else if n.is_empty() || n.contains('\\') || n.len() > 240 {
        None
    } else {
        Some(true)
    }
}

impl Op {
    pub fn db(&self) -> Option<&str> {
        match self {
            Op::AddDb { db, .. } | Op::PutDb { db, .. } | Op::RmDb { db } | Op::ClearDb { db } | Op::Add { db, .. } | Op::Rm { db, .. } | Op::Get { db, .. } | Op::GetDb { db } => Some(db),
            Op::List => None,
        }
    }
    pub fn is_write(&self) -> bool {
        !matches!(self, Op::Get { .. } | Op::GetDb { .. } | Op::List)
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::AddDb { .. } => "add_db",
            Op::PutDb { .. } => "add_db_with_content",
            Op::RmDb { .. } => "rm_db",
            Op::ClearDb { .. } => "clear_db",
            Op::Add { .. } => "add_kv",
            Op::Rm { .. } => "rm_kv",
            Op::Get { .. } => "get_value",
            Op::GetDb { .. } => "get_db",
            Op::List => "get_all_db_names",
        }
    }
    pub fn method(&self) -> &'static str {
        match self {
            Op::PutDb { .. } | Op::Add { .. } => "PUT",
            Op::Get { .. } | Op::GetDb { .. } | Op::List => "GET",
            _ => "POST",
        }
    }
    pub fn params(&self) -> Vec<(&'static str, String)> {
        let mut p = vec![];
        if let Some(db) = self.db() {
            p.push(("db_name", db.to_string()));
        }
        match self {
            Op::AddDb { overwrite, .. } | Op::PutDb { overwrite, .. } => p.push(("overwrite_existing", overwrite.to_string())),
            Op::Add { key, create, overwrite, .. } => {
                p.push(("key", key.clone()));
                p.push(("create_new_database", create.to_string()));
                p.push(("overwrite_key", overwrite.to_string()));
            }
            Op::Rm { key, .. } | Op::Get { key, .. } => p.push(("key", key.clone())),
            _ => {}
        }
        p
    }
    pub fn target(&self, r: &mut Rng, plain: bool) -> String {
        let mut p = self.params();
        if !plain {
            r.shuffle(&mut p);
        }
        let style = if plain { 0 } else { r.below(4) };
        let q: Vec<String> = p.iter().map(|(k, v)| format!("{k}={}", enc(v, style))).collect();
        if q.is_empty() { format!("/v1/{}", self.name()) } else { format!("/v1/{}?{}", self.name(), q.join("&")) }
    }
}

/// The effect and the answer of an operation.
pub fn apply(s: &mut State, op: &Op) -> Ans {
    match op {
        Op::AddDb { db, overwrite } => {
            if name_ok(db) == Some(false) {
                return Ans::Status(400);
            }
            match s.get_mut(db) {
                Some(d) => {
                    if *overwrite {
                        d.clear();
                    }
                    Ans::Status(200)
                }
                None => {
                    s.insert(db.clone(), Db::new());
                    Ans::Status(201)
                }
            }
        }
        Op::PutDb { db, overwrite, with } => {
            if name_ok(db) == Some(false) {
                return Ans::Status(400);
            }
            let code = if s.contains_key(db) { 200 } else { 201 };
            let d = s.entry(db.clone()).or_default();
            if *overwrite {
                d.clear();
            }
            d.extend(with.iter().cloned());
            Ans::Status(code)
        }
        Op::RmDb { db } => Ans::Status(if s.remove(db).is_some() { 200 } else { 410 }),
        Op::ClearDb { db } => Ans::Status(s.get_mut(db).map_or(410, |d| {
            d.clear();
            200
        })),
        Op::Add { db, key, v, create, overwrite } => match s.get_mut(db) {
            Some(d) => {
                if d.contains_key(key) {
                    if *overwrite {
                        d.insert(key.clone(), *v);
                        Ans::Added(1)
                    } else {
                        Ans::Added(2)
                    }
                } else {
                    d.insert(key.clone(), *v);
                    Ans::Added(0)
                }
            }
            None if *create => {
                if name_ok(db) == Some(false) {
                    return Ans::Status(400);
                }
                s.entry(db.clone()).or_default().insert(key.clone(), *v);
                Ans::Added(3)
            }
            None => Ans::Added(4),
        },
        Op::Rm { db, key } => match s.get_mut(db) {
            None => Ans::Status(410),
            Some(d) => Ans::Status(if d.remove(key).is_some() { 200 } else { 400 }),
        },
        Op::Get { db, key } => match s.get(db) {
            None => Ans::Status(410),
            Some(d) => d.get(key).map_or(Ans::Status(400), |v| Ans::Val(*v)),
        },
        Op::GetDb { db } => s.get(db).map_or(Ans::Status(410), |d| Ans::Db(d.clone())),
        Op::List => Ans::Names(s.keys().cloned().collect()),
    }
}

/// Contents behind the numbers that stand for values in a history
pub trait Values: Sync {
    fn get(&self, v: V) -> MV;
    /// which of the values this is
    fn find(&self, m: &MV, hint: Option<V>) -> Result<V, String>;
}
/// v -> a text that says which one it is, with padding
pub struct Tagged(pub usize);
impl Values for Tagged {
    fn get(&self, v: V) -> MV {
        let mut s = format!("v{v}:");
        let pad = if v % 7 == 0 { self.0 * 20 } else { self.0 };
        s.extend((0..pad).map(|i| char::from(b'a' + ((i as u32 * 7 + v) % 26) as u8)));
        MV::Str(s)
    }
    fn find(&self, m: &MV, _: Option<V>) -> Result<V, String> {
        let MV::Str(s) = m else { return Err(format!("a value nobody wrote: {}", show(m))) };
        let v = s.strip_prefix('v').and_then(|s| s.split(':').next()).and_then(|s| s.parse().ok()).ok_or_else(|| format!("a value nobody wrote: {}", show(m)))?;
        match diff(&self.get(v), m) {
            None => Ok(v),
            Some(d) => Err(format!("value v{v} came back different{d}")),
        }
    }
}
/// all kinds of values, in a table
#[derive(Default)]
pub struct Table(pub Vec<MV>);
impl Table {
    pub fn add(&mut self, m: MV) -> V {
        self.0.push(m);
        self.0.len() as V - 1
    }
}
impl Values for Table {
    fn get(&self, v: V) -> MV {
        self.0[v as usize].clone()
    }
    fn find(&self, m: &MV, hint: Option<V>) -> Result<V, String> {
        if let Some(h) = hint {
            return match diff(&self.0[h as usize], m) {
                None => Ok(h),
                Some(d) => Err(format!("value{d}")),
            };
        }
        self.0.iter().position(|x| diff(x, m).is_none()).map(|p| p as V).ok_or_else(|| format!("a value nobody wrote: {}", show(m)))
    }
}

pub fn ser_value(r: &mut Rng, m: &MV, alt: bool) -> Vec<u8> {
    let mut o = vec![];
    refcodec::Enc { tree: None, alt }.value(r, m, &mut o);
    o
}
pub fn ser_store(r: &mut Rng, with: &[(String, MV)], alt: bool) -> Vec<u8> {
    refcodec::enc_store(r, &MV::Map(with.to_vec()), alt)
}
pub fn body(r: &mut Rng, op: &Op, vals: &dyn Values, alt: bool) -> Vec<u8> {
    match op {
        Op::Add { v, .. } => ser_value(r, &vals.get(*v), alt),
        Op::PutDb { with, .. } => {
            let w: Vec<(String, MV)> = with.iter().map(|(k, v)| (k.clone(), vals.get(*v))).collect();
            ser_store(r, &w, alt)
        }
        _ => vec![],
    }
}
pub fn de_value(b: &[u8]) -> Result<MV, String> {
    let mut d = refcodec::Dec::new(b);
    let m = d.value(None)?;
    if d.p != b.len() {
        return Err(format!("{} bytes after the value", b.len() - d.p));
    }
    Ok(m)
}
pub fn de_db(b: &[u8], vals: &dyn Values, hint: Option<&Db>) -> Result<Db, String> {
    let (m, _) = refcodec::store(b).map_err(|e| format!("database doesn't decode: {e}"))?;
    let MV::Map(e) = m else { return Err("a store that is not a map".into()) };
    let n = e.len();
    let mut d = Db::new();
    for (k, v) in e {
        let h = hint.and_then(|h| h.get(&k)).copied();
        let v = vals.find(&v, h).map_err(|e| format!("at key {k:?}: {e}"))?;
        d.insert(k, v);
    }
    if d.len() != n {
        return Err("a key twice in one database".into());
    }
    Ok(d)
}

/// What a reply says. Err: something no daemon should say.
pub fn understand(op: &Op, rep: &Reply, vals: &dyn Values, hint: Option<&State>) -> Result<Ans, String> {
    if rep.status >= 500 {
        return Err(format!("{} answered {}: {}", op.name(), rep.status, String::from_utf8_lossy(&rep.body)));
    }
    if rep.status >= 400 {
        return Ok(Ans::Status(rep.status));
    }
    let hd = op.db().and_then(|d| hint.and_then(|h| h.get(d)));
    Ok(match op {
        Op::Add { .. } => {
            let s: String = serde_json::from_slice(&rep.body).map_err(|e| format!("add_kv answered {:?}: {e}", String::from_utf8_lossy(&rep.body)))?;
            let i = RESULTS.iter().position(|x| *x == s).ok_or_else(|| format!("add_kv answered {s:?}"))?;
            if rep.status != 200 {
                return Err(format!("add_kv answered {}", rep.status));
            }
            Ans::Added(i as u8)
        }
        Op::Get { db, key } => {
            let m = de_value(&rep.body).map_err(|e| format!("value doesn't decode: {e}"))?;
            let h = hint.and_then(|h| h.get(db)).and_then(|d| d.get(key)).copied();
            if hint.is_some() && h.is_none() {
                return Err(format!("get_value answered {} for what should not be there", show(&m)));
            }
            Ans::Val(vals.find(&m, h)?)
        }
        Op::GetDb { .. } => {
            if hint.is_some() && hd.is_none() {
                return Err("get_db answered with a database that should not be there".into());
            }
            Ans::Db(de_db(&rep.body, vals, hd)?)
        }
        Op::List => {
            let v: Vec<String> = serde_json::from_slice(&rep.body).map_err(|e| format!("names: {e}"))?;
            let n = v.len();
            let s: BTreeSet<String> = v.into_iter().collect();
            if s.len() != n {
                return Err("a name twice in the list of databases".into());
            }
            Ans::Names(s)
        }
        _ => Ans::Status(rep.status),
    })
}

pub enum Done {
    Answer(Ans),
    /// no or half an answer: may have happened or not
    Unknown(String),
    Wrong(String),
}
pub fn perform(c: &mut Conn, r: &mut Rng, op: &Op, vals: &dyn Values, plain: bool) -> Done {
    let alt = !plain && r.bool();
    let b = body(r, op, vals, alt);
    let t = op.target(r, plain);
    let chunked = !plain && !b.is_empty() && r.one_in(4);
    if let Err(e) = c.send(op.method(), &t, &b, chunked) {
        return Done::Unknown(e);
    }
    match c.reply(false) {
        Err(e) => Done::Unknown(e),
        Ok(rep) => match understand(op, &rep, vals, None) {
            Ok(a) => Done::Answer(a),
            Err(e) => Done::Wrong(e),
        },
    }
}

/// everything the daemon has
pub fn read_state(port: u16, vals: &dyn Values, hint: Option<&State>) -> Result<State, String> {
    let mut c = Conn::new(port)?;
    let rep = c.call("GET", "/v1/get_all_db_names", b"")?;
    let Ans::Names(n) = understand(&Op::List, &rep, vals, None)? else { return Err(format!("list answered {}", rep.status)) };
    let mut s = State::new();
    for db in n {
        let op = Op::GetDb { db: db.clone() };
        let t = op.target(&mut Rng(0), true);
        let rep = c.call("GET", &t, b"")?;
        if rep.status != 200 {
            return Err(format!("database {db:?} is listed but reading it gives {}", rep.status));
        }
        let d = de_db(&rep.body, vals, hint.and_then(|h| h.get(&db))).map_err(|e| format!("database {db:?}: {e}"))?;
        s.insert(db, d);
    }
    Ok(s)
}
pub fn state_diff(want: &State, got: &State) -> Option<String> {
    for (n, d) in want {
        let Some(g) = got.get(n) else { return Some(format!("database {n:?} ({} entries) is missing", d.len())) };
        if let Some(x) = db_diff(d, g) {
            return Some(format!("database {n:?}: {x}"));
        }
    }
    got.keys().find(|n| !want.contains_key(*n)).map(|n| format!("database {n:?} should not be there"))
}
pub fn db_diff(d: &Db, g: &Db) -> Option<String> {
    for (k, v) in d {
        match g.get(k) {
            None => return Some(format!("key {k:?} is missing")),
            Some(w) if w != v => return Some(format!("key {k:?} is v{w} and not v{v}")),
            _ => {}
        }
    }
    g.keys().find(|k| !d.contains_key(*k)).map(|k| format!("key {k:?} should not be there"))
}
pub fn num(n: i128) -> MV {
    MV::Int(Num::i(n))
}
pub type Shared<T> = Rc<std::cell::RefCell<T>>;
