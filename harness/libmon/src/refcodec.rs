//! An independent implementation of the stored format, written from the format's description.
use crate::core::Rng;
use crate::model::{json_same, Num, Origin, MV};
use std::collections::{BTreeMap, HashMap};

pub const U: u8 = 0;
pub const SP: u8 = 1;
pub const SN: u8 = 2;

// ------------------------------------------------------------------ decoding

#[derive(Clone, Debug)]
pub enum Tree {
    Leaf(u32),
    Branch(Box<Tree>, Box<Tree>),
}
impl Tree {
    pub fn codes(&self) -> HashMap<u32, Vec<bool>> {
        fn go(t: &Tree, p: &mut Vec<bool>, out: &mut HashMap<u32, Vec<bool>>) {
            match t {
                Tree::Leaf(c) => {
                    out.insert(*c, p.clone());
                }
                Tree::Branch(l, r) => {
                    p.push(true);
                    go(l, p, out);
                    p.pop();
                    p.push(false);
                    go(r, p, out);
                    p.pop();
                }
            }
        }
        let mut out = HashMap::new();
        match self {
            Tree::Leaf(c) => {
                out.insert(*c, vec![true]);
            }
            b => go(b, &mut vec![], &mut out),
        }
        out
    }
    pub fn decode(&self, bits: &[bool]) -> Result<Vec<u32>, String> {
        let mut out = vec![];
        if let Tree::Leaf(c) = self {
            return Ok(vec![*c; bits.len()]);
        }
        let mut at = self;
        for b in bits {
            if let Tree::Branch(l, r) = at {
                at = if *b { l } else { r };
            }
            if let Tree::Leaf(c) = at {
                out.push(*c);
                at = self;
            }
        }
        if std::ptr::eq(at, self) { Ok(out) } else { Err("bits end inside a symbol".into()) }
    }
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// what the writer promises beyond what readers accept
    pub strict: bool,
    pub coded_strings: usize,
}
type D<T> = Result<T, String>;

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, p: 0, strict: true, coded_strings: 0 }
    }
    fn u8(&mut self) -> D<u8> {
        let x = *self.b.get(self.p).ok_or("ran out of bytes")?;
        self.p += 1;
        Ok(x)
    }
    fn take(&mut self, n: usize) -> D<&'a [u8]> {
        let e = self.p.checked_add(n).filter(|e| *e <= self.b.len()).ok_or("ran out of bytes")?;
        let s = &self.b[self.p..e];
        self.p = e;
        Ok(s)
    }
    pub fn int(&mut self, sign: u8) -> D<Num> {
        let first = self.u8()?;
        let (bytes, one): (Vec<u8>, bool) = if first <= 239 {
            (vec![first], true)
        } else {
            (self.take(usize::from(first) - 239)?.to_vec(), false)
        };
        let fill = if sign == SN { 0xFF } else { 0 };
        let mut c = [fill; 16];
        c[..bytes.len()].copy_from_slice(&bytes);
        let raw = u128::from_le_bytes(c);
        let n = if sign == SN {
            if raw >> 127 == 0 {
                return Err("negative integer without its sign bit".into());
            }
            Num { neg: true, mag: raw.wrapping_neg(), origin: Origin::I128 }
        } else if sign == SP {
            Num { neg: false, mag: raw, origin: if raw >> 127 == 0 { Origin::I128 } else { Origin::U128 } }
        } else if sign == U {
            Num { neg: false, mag: raw, origin: Origin::U128 }
        } else {
            return Err(format!("sign state {sign}"));
        };
        if self.strict && !n.neg && n.mag <= 239 && !one {
            return Err(format!("{} was written with a size byte", n.mag));
        }
        Ok(n)
    }
    fn us(&mut self) -> D<usize> {
        let n = self.int(U)?;
        usize::try_from(n.mag).map_err(|_| "length too big".to_string())
    }
    pub fn bits(&mut self) -> D<Vec<bool>> {
        let n = self.us()?;
        let bytes = self.take(n.div_ceil(8))?;
        Ok((0..n).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect())
    }
    pub fn tree_char(&mut self) -> D<Tree> {
        let n = self.us()?;
        if n == 0 {
            return Ok(Tree::Branch(Box::new(self.tree_char()?), Box::new(self.tree_char()?)));
        }
        let c = u32::try_from(n - 1).ok().and_then(char::from_u32).ok_or("not a character in the tree")?;
        Ok(Tree::Leaf(c as u32))
    }
    pub fn tree_u8(&mut self) -> D<Tree> {
        match self.u8()? {
            0 => Ok(Tree::Branch(Box::new(self.tree_u8()?), Box::new(self.tree_u8()?))),
            1 => Ok(Tree::Leaf(u32::from(self.u8()?))),
            b => Err(format!("tree byte {b}")),
        }
    }
    fn string_body(&mut self, low: u8, tree: Option<&Tree>) -> D<String> {
        if low & 1 == 1 {
            self.coded_strings += 1;
            let t = tree.ok_or("coded text without a code")?;
            let bits = self.bits()?;
            t.decode(&bits)?.into_iter().map(|c| char::from_u32(c).ok_or("bad char".to_string())).collect()
        } else {
            let n = self.us()?;
            String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
        }
    }
    fn string(&mut self, tree: Option<&Tree>) -> D<String> {
        let b = self.u8()?;
        if b >> 4 != 1 {
            return Err(format!("expected text, found type {}", b >> 4));
        }
        self.string_body(b, tree)
    }
    pub fn binary(&mut self, method: u8) -> D<Vec<u8>> {
        match method {
            0 => {
                let n = self.us()?;
                Ok(self.take(n)?.to_vec())
            }
            1 => {
                let n = self.us()?;
                let b = self.take(n)?;
                if n % 2 != 0 {
                    return Err("odd number of bytes in run-length data".into());
                }
                Ok(b.chunks(2).flat_map(|c| std::iter::repeat(c[1]).take(usize::from(c[0]))).collect())
            }
            2 => {
                let orig = self.us()?;
                if orig == 0 {
                    return Ok(vec![]);
                }
                let n = self.us()?;
                let out = lz4_decode(self.take(n)?)?;
                if out.len() != orig {
                    return Err(format!("LZ data for {} bytes says {orig}", out.len()));
                }
                Ok(out)
            }
            3 => match self.u8()? {
                0 => Ok(vec![]),
                1 => {
                    let n = self.us()?;
                    let b = self.u8()?;
                    Ok(vec![b; n])
                }
                2 => {
                    let t = self.tree_u8()?;
                    let bits = self.bits()?;
                    Ok(t.decode(&bits)?.into_iter().map(|x| x as u8).collect())
                }
                x => Err(format!("huffman marker {x}")),
            },
            m => Err(format!("compression method {m}")),
        }
    }
    fn clen(&mut self, b: u8) -> D<usize> {
        if b & 1 == 1 {
            let n = self.us()?;
            if self.strict && n < 7 {
                return Err(format!("length {n} was not packed into the type byte"));
            }
            Ok(n)
        } else {
            Ok(usize::from(b & 0x0E) >> 1)
        }
    }
    pub fn value(&mut self, tree: Option<&Tree>) -> D<MV> {
        let b = self.u8()?;
        let low = b & 15;
        Ok(match b >> 4 {
            0 => {
                let n = self.us()?;
                MV::Char(u32::try_from(n).ok().and_then(char::from_u32).ok_or("not a character")?)
            }
            1 => MV::Str(self.string_body(low, tree)?),
            2 => MV::Bin(self.binary(low)?),
            3 => MV::Bool(low & 1 == 1),
            4 => MV::Int(self.int(low & 3)?),
            5 => {
                if low == 0 {
                    let a = f64::from_le_bytes(self.take(8)?.try_into().unwrap());
                    let b = f64::from_le_bytes(self.take(8)?.try_into().unwrap());
                    MV::Polar(a, b)
                } else {
                    let (a, b) = *[(U, U), (U, SP), (SP, U), (U, SN), (SN, U), (SP, SP), (SP, SN), (SN, SP), (SN, SN)]
                        .get(usize::from(low) - 1)
                        .ok_or("complex sign code")?;
                    MV::Cart(self.int(a)?, self.int(b)?)
                }
            }
            6 => {
                let y = self.int(low & 3)?;
                let mut f = [0_u32; 6];
                for x in &mut f {
                    *x = self.int(U)?.mag as u32;
                }
                MV::Ts { y: y.as_i128().ok_or("year")? as i32, mo: f[0], d: f[1], h: f[2], mi: f[3], s: f[4], ns: f[5] }
            }
            7 => {
                let s = self.string(tree)?;
                MV::Json(serde_json::from_str(&s).map_err(|e| e.to_string())?)
            }
            8 => {
                let n = self.clen(b)?;
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = self.string(tree)?;
                    let v = self.value(tree)?;
                    m.insert(k, v);
                }
                if m.len() != n {
                    return Err("a key was written twice".into());
                }
                MV::Map(m.into_iter().collect())
            }
            9 => MV::Null,
            10 => MV::F64(f64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            11 => {
                let n = self.clen(b)?;
                let mut a = vec![];
                for _ in 0..n {
                    a.push(self.value(tree)?);
                }
                MV::Arr(a)
            }
            12 => MV::Tz(self.string(tree)?),
            13 => {
                let b = self.take(4)?;
                MV::V4([b[0], b[1], b[2], b[3]])
            }
            14 => {
                let b = self.take(16)?;
                let mut a = [0; 8];
                for i in 0..8 {
                    a[i] = u16::from_le_bytes([b[2 * i], b[2 * i + 1]]);
                }
                MV::V6(a)
            }
            _ => MV::F32(f32::from_le_bytes(self.take(4)?.try_into().unwrap())),
        })
    }
}

/// bytes -> (map, header byte)
pub fn store(b: &[u8]) -> D<(MV, u8)> {
    let rest = b.strip_prefix(b"SOURISDB").ok_or("no magic bytes")?;
    let (&h, rest) = rest.split_first().ok_or("no header byte")?;
    let mut d = Dec::new(rest);
    let body = d.binary(h & 0x7F)?;
    if d.p != rest.len() {
        return Err(format!("{} bytes after the store", rest.len() - d.p));
    }
    let mut d = Dec::new(&body);
    let tree = if h & 0x80 != 0 { Some(d.tree_char()?) } else { None };
    let m = d.value(tree.as_ref())?;
    if d.p != body.len() {
        return Err(format!("{} bytes after the store's map", body.len() - d.p));
    }
    Ok((m, h))
}

pub fn lz4_decode(b: &[u8]) -> D<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let mut p = 0;
    let at = |p: usize| b.get(p).copied().ok_or("LZ data ends early".to_string());
    loop {
        let t = at(p)?;
        p += 1;
        let mut n = usize::from(t >> 4);
        if n == 15 {
            loop {
                let x = at(p)?;
                p += 1;
                n += usize::from(x);
                if x != 255 {
                    break;
                }
            }
        }
        let lit = b.get(p..p + n).ok_or("LZ literals end early")?;
        out.extend_from_slice(lit);
        p += n;
        if p == b.len() {
            return Ok(out);
        }
        let off = usize::from(at(p)?) | usize::from(at(p + 1)?) << 8;
        p += 2;
        let mut n = usize::from(t & 15) + 4;
        if n == 19 {
            loop {
                let x = at(p)?;
                p += 1;
                n += usize::from(x);
                if x != 255 {
                    break;
                }
            }
        }
        if off == 0 || off > out.len() {
            return Err("LZ offset".into());
        }
        for _ in 0..n {
            out.push(out[out.len() - off]);
        }
    }
}

// ------------------------------------------------------------------ encoding

fn le(n: &Num) -> (Vec<u8>, u8) {
    if n.neg {
        (n.mag.wrapping_neg().to_le_bytes().to_vec(), 0xFF)
    } else {
        (n.mag.to_le_bytes().to_vec(), 0)
    }
}
/// every legal way of writing a number
pub fn enc_int(r: &mut Rng, n: &Num, alt: bool, out: &mut Vec<u8>) {
    let (bytes, fill) = le(n);
    let mut min = 16;
    while min > 0 && bytes[min - 1] == fill {
        min -= 1;
    }
    let one = min <= 1 && bytes[0] <= 239;
    if one && !(alt && r.one_in(4)) {
        out.push(bytes[0]);
        return;
    }
    let lo = min.max(1);
    let n = if alt && r.one_in(3) { r.range(lo, 16) } else { lo };
    out.push(239 + n as u8);
    out.extend_from_slice(&bytes[..n]);
}
pub fn enc_us(r: &mut Rng, n: usize, alt: bool, out: &mut Vec<u8>) {
    enc_int(r, &Num::u(n as u128), alt, out);
}
pub fn enc_bits(r: &mut Rng, bits: &[bool], alt: bool, out: &mut Vec<u8>) {
    enc_us(r, bits.len(), alt, out);
    for c in bits.chunks(8) {
        out.push(c.iter().enumerate().fold(0, |a, (i, b)| a | u8::from(*b) << i));
    }
}
pub fn random_tree(r: &mut Rng, syms: &[u32]) -> Tree {
    if syms.len() <= 1 {
        return Tree::Leaf(syms.first().copied().unwrap_or(0));
    }
    let skew = r.one_in(3);
    let cut = if skew { if r.bool() { 1 } else { syms.len() - 1 } } else { r.range(1, syms.len() - 1) };
    let (a, b) = syms.split_at(cut);
    Tree::Branch(Box::new(random_tree(r, a)), Box::new(random_tree(r, b)))
}
pub fn enc_tree_char(r: &mut Rng, t: &Tree, alt: bool, out: &mut Vec<u8>) {
    match t {
        Tree::Leaf(c) => enc_us(r, *c as usize + 1, alt, out),
        Tree::Branch(a, b) => {
            out.push(0);
            enc_tree_char(r, a, alt, out);
            enc_tree_char(r, b, alt, out);
        }
    }
}
pub fn enc_tree_u8(t: &Tree, out: &mut Vec<u8>) {
    match t {
        Tree::Leaf(c) => out.extend([1, *c as u8]),
        Tree::Branch(a, b) => {
            out.push(0);
            enc_tree_u8(a, out);
            enc_tree_u8(b, out);
        }
    }
}
pub fn lz4_encode(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    fn len(mut n: usize, out: &mut Vec<u8>) {
        while n >= 255 {
            out.push(255);
            n -= 255;
        }
        out.push(n as u8);
    }
    fn seq(lit: &[u8], m: Option<(usize, usize)>, out: &mut Vec<u8>) {
        let l = lit.len().min(15) as u8;
        let k = m.map_or(0, |(_, n)| (n - 4).min(15)) as u8;
        out.push(l << 4 | k);
        if l == 15 {
            len(lit.len() - 15, out);
        }
        out.extend_from_slice(lit);
        if let Some((off, n)) = m {
            out.extend((off as u16).to_le_bytes());
            if k == 15 {
                len(n - 19, out);
            }
        }
    }
    let literal_only = r.one_in(4);
    let mut out = vec![];
    let mut last: HashMap<[u8; 4], usize> = HashMap::new();
    let (mut i, mut lit) = (0, 0);
    while !literal_only && i + 12 < b.len() {
        let key = [b[i], b[i + 1], b[i + 2], b[i + 3]];
        let cand = last.insert(key, i);
        if let Some(c) = cand.filter(|c| i - c <= 65535 && !r.one_in(6)) {
            let max = b.len() - 5 - i;
            let mut n = 4;
            while n < max && b[c + n] == b[i + n] {
                n += 1;
            }
            if n >= 4 && n <= max {
                seq(&b[lit..i], Some((i - c, n)), &mut out);
                i += n;
                lit = i;
                continue;
            }
        }
        i += 1;
    }
    seq(&b[lit..], None, &mut out);
    out
}
pub fn enc_binary(r: &mut Rng, b: &[u8], method: u8, alt: bool, out: &mut Vec<u8>) {
    match method {
        0 => {
            enc_us(r, b.len(), alt, out);
            out.extend_from_slice(b);
        }
        1 => {
            let mut body = vec![];
            let mut i = 0;
            while i < b.len() {
                let mut n = 1;
                while i + n < b.len() && b[i + n] == b[i] && n < 255 && !(alt && r.one_in(9)) {
                    n += 1;
                }
                body.extend([n as u8, b[i]]);
                i += n;
            }
            enc_us(r, body.len(), alt, out);
            out.extend(body);
        }
        2 => {
            enc_us(r, b.len(), alt, out);
            if !b.is_empty() {
                let c = lz4_encode(r, b);
                enc_us(r, c.len(), alt, out);
                out.extend(c);
            }
        }
        _ => {
            if b.is_empty() {
                out.push(0);
            } else if b.iter().all(|x| *x == b[0]) && !(alt && r.one_in(3)) {
                out.push(1);
                enc_us(r, b.len(), alt, out);
                out.push(b[0]);
            } else {
                let mut syms: Vec<u32> = b.iter().map(|x| u32::from(*x)).collect();
                syms.sort_unstable();
                syms.dedup();
                if syms.len() == 1 {
                    syms.push(syms[0] ^ 1); // a code may know more than is used
                }
                r.shuffle(&mut syms);
                let t = random_tree(r, &syms);
                let codes = t.codes();
                out.push(2);
                enc_tree_u8(&t, out);
                let bits: Vec<bool> = b.iter().flat_map(|x| codes[&u32::from(*x)].clone()).collect();
                enc_bits(r, &bits, alt, out);
            }
        }
    }
}

pub struct Enc<'a> {
    pub tree: Option<(&'a Tree, HashMap<u32, Vec<bool>>)>,
    pub alt: bool,
}
impl Enc<'_> {
    fn string(&self, r: &mut Rng, s: &str, ty: u8, out: &mut Vec<u8>) {
        if let Some((_, codes)) = &self.tree {
            let bits: Option<Vec<bool>> = s.chars().try_fold(vec![], |mut a, c| {
                a.extend_from_slice(codes.get(&(c as u32))?);
                Some(a)
            });
            if let Some(bits) = bits.filter(|_| !(self.alt && r.one_in(4))) {
                out.push(ty << 4 | 1);
                enc_bits(r, &bits, self.alt, out);
                return;
            }
        }
        out.push(ty << 4);
        enc_us(r, s.len(), self.alt, out);
        out.extend_from_slice(s.as_bytes());
    }
    fn sign(r: &mut Rng, n: &Num) -> u8 {
        if n.neg {
            SN
        } else if n.as_i128().is_some() && r.bool() {
            SP
        } else {
            U
        }
    }
    fn clen(&self, r: &mut Rng, n: usize, ty: u8, out: &mut Vec<u8>) {
        if n < 8 && !(self.alt && r.one_in(3)) && (n < 7 || self.alt) {
            out.push(ty << 4 | (n as u8) << 1);
        } else {
            out.push(ty << 4 | 1);
            enc_us(r, n, self.alt, out);
        }
    }
    pub fn value(&self, r: &mut Rng, m: &MV, out: &mut Vec<u8>) {
        let ty = m.kind() << 4;
        match m {
            MV::Char(c) => {
                out.push(ty);
                enc_us(r, *c as usize, self.alt, out);
            }
            MV::Str(s) => self.string(r, s, 1, out),
            MV::Bin(b) => {
                let m = r.below(4) as u8;
                out.push(ty | m);
                enc_binary(r, b, m, self.alt, out);
            }
            MV::Bool(b) => out.push(ty | u8::from(*b)),
            MV::Int(n) => {
                let s = Self::sign(r, n);
                out.push(ty | s);
                enc_int(r, n, self.alt, out);
            }
            MV::Cart(a, b) => {
                let code = loop {
                    let c = (Self::sign(r, a), Self::sign(r, b));
                    if let Some(i) = [(U, U), (U, SP), (SP, U), (U, SN), (SN, U), (SP, SP), (SP, SN), (SN, SP), (SN, SN)]
                        .iter()
                        .position(|x| *x == c)
                    {
                        break i as u8 + 1;
                    }
                };
                out.push(ty | code);
                enc_int(r, a, self.alt, out);
                enc_int(r, b, self.alt, out);
            }
            MV::Polar(a, b) => {
                out.push(ty);
                out.extend(a.to_le_bytes());
                out.extend(b.to_le_bytes());
            }
            MV::Ts { y, mo, d, h, mi, s, ns } => {
                let yn = Num::i(i128::from(*y));
                let sg = Self::sign(r, &yn);
                out.push(ty | sg);
                enc_int(r, &yn, self.alt, out);
                for x in [mo, d, h, mi, s, ns] {
                    enc_us(r, *x as usize, self.alt, out);
                }
            }
            MV::Json(j) => {
                out.push(ty);
                let mut s = j.to_string();
                if self.alt && r.one_in(4) {
                    if let Ok(p) = serde_json::to_string_pretty(j) {
                        if serde_json::from_str(&p).is_ok_and(|q| json_same(j, &q)) {
                            s = p;
                        }
                    }
                }
                self.string(r, &s, 1, out);
            }
            MV::Map(e) => {
                self.clen(r, e.len(), 8, out);
                let mut e: Vec<_> = e.iter().collect();
                r.shuffle(&mut e);
                for (k, v) in e {
                    self.string(r, k, 1, out);
                    self.value(r, v, out);
                }
            }
            MV::Null => out.push(ty),
            MV::F64(f) => {
                out.push(ty);
                out.extend(f.to_le_bytes());
            }
            MV::Arr(a) => {
                self.clen(r, a.len(), 11, out);
                for v in a {
                    self.value(r, v, out);
                }
            }
            MV::Tz(s) => {
                out.push(ty);
                self.string(r, s, 1, out);
            }
            MV::V4(a) => {
                out.push(ty);
                out.extend(a);
            }
            MV::V6(a) => {
                out.push(ty);
                a.iter().for_each(|x| out.extend(x.to_le_bytes()));
            }
            MV::F32(f) => {
                out.push(ty);
                out.extend(f.to_le_bytes());
            }
        }
    }
}

pub fn tree_for(r: &mut Rng, text: &str, extra: bool) -> Option<Tree> {
    let mut syms: Vec<u32> = text.chars().map(|c| c as u32).collect();
    if extra {
        for _ in 0..r.range(0, 5) {
            syms.push(crate::model::gen_char(r) as u32);
        }
    }
    syms.sort_unstable();
    syms.dedup();
    if extra && !syms.is_empty() && r.one_in(4) {
        let i = r.us(syms.len());
        syms.remove(i);
    }
    if syms.is_empty() || syms.len() > 200 {
        return None;
    }
    r.shuffle(&mut syms);
    Some(random_tree(r, &syms))
}

/// a store in some legal encoding
pub fn enc_store(r: &mut Rng, m: &MV, alt: bool) -> Vec<u8> {
    let mut text = String::new();
    m.text(&mut text);
    let tree = if r.one_in(4) { None } else { tree_for(r, &text, alt) };
    let e = Enc { tree: tree.as_ref().map(|t| (t, t.codes())), alt };
    let mut body = vec![];
    if let Some(t) = &tree {
        enc_tree_char(r, t, alt, &mut body);
    }
    e.value(r, m, &mut body);
    let method = r.below(4) as u8;
    let mut out = b"SOURISDB".to_vec();
    out.push(u8::from(tree.is_some()) << 7 | method);
    enc_binary(r, &body, method, alt, &mut out);
    out
}
