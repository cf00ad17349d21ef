//! Block bytes <-> JSON, and logs built from tree shapes. Independent of the code under test.
use serde_json::{json, Value};

pub fn varint(out: &mut Vec<u8>, mut n: u64) {
    while n >= 128 {
        out.push((n as u8 & 127) | 128);
        n >>= 7;
    }
    out.push(n as u8);
}
fn read_varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let (mut n, mut s) = (0u64, 0);
    loop {
        let x = *b.get(*i)?;
        *i += 1;
        n |= ((x & 127) as u64).checked_shl(s)?;
        s += 7;
        if x < 128 {
            return Some(n);
        }
        if s > 63 {
            return None;
        }
    }
}
pub fn field(out: &mut Vec<u8>, f: u64, data: &[u8]) {
    varint(out, f * 8 + 2);
    varint(out, data.len() as u64);
    out.extend_from_slice(data);
}
/// All length-delimited fields, in order. None when malformed or of another wire type.
fn fields(b: &[u8]) -> Option<Vec<(u64, Vec<u8>)>> {
    let (mut i, mut v) = (0, vec![]);
    while i < b.len() {
        let tag = read_varint(b, &mut i)?;
        if tag % 8 != 2 {
            return None;
        }
        let n = read_varint(b, &mut i)? as usize;
        if i.checked_add(n)? > b.len() {
            return None;
        }
        v.push((tag / 8, b[i..i + n].to_vec()));
        i += n;
    }
    Some(v)
}
fn varints(b: &[u8]) -> Option<Vec<u64>> {
    let (mut i, mut v) = (0, vec![]);
    while i < b.len() {
        v.push(read_varint(b, &mut i)?);
    }
    Some(v)
}

#[derive(Clone, Debug, Default)]
pub struct Level {
    pub k: Vec<u64>,
    pub c: Vec<(u64, u64)>,
}
#[derive(Clone, Debug, Default)]
pub struct Entry {
    pub key: Vec<u8>,
    pub val: Option<Vec<u8>>,
    pub idx: Vec<Level>,
}

pub fn opt<T: Into<Value>>(o: Option<T>) -> Value {
    match o {
        None => json!([]),
        Some(x) => json!([x.into()]),
    }
}

fn small(x: u64) -> i64 {
    // TLC's integers have 32 bits
    x.min(1 << 30) as i64
}

fn decode_entry(b: &[u8]) -> Option<Entry> {
    let mut e = Entry::default();
    let (mut idx, mut key) = (None, None);
    for (f, d) in fields(b)? {
        match f {
            1 => idx = Some(d),
            2 => key = Some(d),
            3 => e.val = Some(d),
            _ => return None,
        }
    }
    e.key = key?;
    for (f, d) in fields(&idx?)? {
        if f != 1 {
            return None;
        }
        let mut lv = Level::default();
        for (f, d) in fields(&d)? {
            let v = varints(&d)?;
            match f {
                1 => lv.k.extend(v),
                2 => {
                    if v.len() % 2 == 1 {
                        return None;
                    }
                    lv.c.extend(v.chunks(2).map(|p| (p[0], p[1])))
                }
                _ => return None,
            }
        }
        e.idx.push(lv);
    }
    Some(e)
}

fn decode_header(b: &[u8]) -> Option<Value> {
    let fs = fields(b)?;
    if fs.first()? != &(1, b"hyperbee".to_vec()) || fs.len() > 2 {
        return None;
    }
    let meta = match fs.get(1) {
        None => json!([]),
        Some((2, m)) => {
            let (mut cf, mut ud) = (None, None);
            for (f, d) in fields(m)? {
                match f {
                    1 => cf = Some(d),
                    2 => ud = Some(d),
                    _ => return None,
                }
            }
            json!([{ "cf": opt(cf), "ud": opt(ud) }])
        }
        _ => return None,
    };
    Some(json!({"h": true, "key": [], "val": [], "idx": [], "meta": meta}))
}

/// A block as the specification sees it.
pub fn block_json(b: &[u8]) -> Value {
    block_json_over(b, (0, 0))
}
/// A number of a block, as the specification counts them: without the blocks of the gap. One that
/// is within the gap is none that any block has.
pub fn without((at, n): (u64, u64), seq: u64) -> u64 {
    match seq {
        s if n == 0 || s < at => s,
        s if s - at < n => 2_000_000_000,
        s => (s - n).min(2_000_000_000),
    }
}
pub fn block_json_over(b: &[u8], gap: (u64, u64)) -> Value {
    if let Some(h) = decode_header(b) {
        return h;
    }
    match decode_entry(b) {
        Some(mut e) => {
            for l in &mut e.idx {
                l.k.iter_mut().for_each(|x| *x = without(gap, *x));
                l.c.iter_mut().for_each(|x| x.0 = without(gap, x.0));
            }
            entry_json(&e)
        }
        None => json!({"h": false, "key": [255, 255, 255, 255], "val": [], "idx": []}),
    }
}
pub fn entry_json(e: &Entry) -> Value {
    let idx: Vec<Value> = e
        .idx
        .iter()
        .map(|l| {
            json!({"k": l.k.iter().map(|x| small(*x)).collect::<Vec<_>>(),
                   "c": l.c.iter().map(|x| [small(x.0), small(x.1)]).collect::<Vec<_>>()})
        })
        .collect();
    json!({"h": false, "key": e.key, "val": opt(e.val.clone()), "idx": idx})
}

pub fn encode_entry(e: &Entry) -> Vec<u8> {
    let mut index = vec![];
    for lv in &e.idx {
        let mut l = vec![];
        if !lv.k.is_empty() {
            let mut p = vec![];
            lv.k.iter().for_each(|x| varint(&mut p, *x));
            field(&mut l, 1, &p);
        }
        if !lv.c.is_empty() {
            let mut p = vec![];
            lv.c.iter().for_each(|x| {
                varint(&mut p, x.0);
                varint(&mut p, x.1)
            });
            field(&mut l, 2, &p);
        }
        field(&mut index, 1, &l);
    }
    let mut out = vec![];
    field(&mut out, 1, &index);
    field(&mut out, 2, &e.key);
    if let Some(v) = &e.val {
        field(&mut out, 3, v);
    }
    out
}
pub fn encode_header() -> Vec<u8> {
    let mut out = vec![];
    field(&mut out, 1, b"hyperbee");
    out
}
fn encode_header_with(meta: &Value) -> Vec<u8> {
    let mut out = encode_header();
    if let Some(m) = meta.as_array().and_then(|a| a.first()) {
        let mut p = vec![];
        if let Some(x) = opt_bytes(&m["cf"]) {
            field(&mut p, 1, &x);
        }
        if let Some(x) = opt_bytes(&m["ud"]) {
            field(&mut p, 2, &x);
        }
        field(&mut out, 2, &p);
    }
    out
}

// ---- logs from shapes: mirrors spec/Shapes.tla (a mismatch shows as a rejected trace) ----

struct Placed {
    k: Vec<u64>,
    c: Vec<Placed>,
    hi: u64,
}
fn place(s: &Value, from: u64) -> Placed {
    let n = s["n"].as_u64().unwrap();
    let cs = s["c"].as_array().unwrap();
    if cs.is_empty() {
        return Placed { k: (from..from + n).collect(), c: vec![], hi: (from + n).wrapping_sub(1) };
    }
    let (mut k, mut c, mut at) = (vec![], vec![], from);
    for (i, x) in cs.iter().enumerate() {
        let p = place(x, at);
        if i + 1 < cs.len() {
            k.push(p.hi + 1);
        }
        at = p.hi + 2;
        c.push(p);
    }
    let hi = c.last().unwrap().hi;
    Placed { k, c, hi }
}
fn spread(p: &Placed, d: u64, out: &mut Vec<Vec<(u64, Level)>>) {
    let n = p.c.len();
    let c = p.c.iter().enumerate().map(|(i, x)| (x.hi, if i + 1 == n { d + 1 } else { 0 })).collect();
    out[p.hi as usize].push((d, Level { k: p.k.clone(), c }));
    for (i, x) in p.c.iter().enumerate() {
        spread(x, if i + 1 == n { d + 1 } else { 0 }, out);
    }
}
fn flat(p: &Placed, seq: u64, out: &mut Vec<Level>) {
    let me = out.len();
    out.push(Level { k: p.k.clone(), c: vec![] });
    for x in &p.c {
        let off = out.len() as u64;
        out[me].c.push((seq, off));
        flat(x, seq, out);
    }
}
pub fn shape_size(s: &Value) -> u64 {
    s["n"].as_u64().unwrap() + s["c"].as_array().unwrap().iter().map(shape_size).sum::<u64>()
}
pub fn log_of_shape(s: &Value, style: &str) -> Vec<Vec<u8>> {
    let n = shape_size(s);
    let mut out = vec![encode_header()];
    let entry = |r: u64, idx: Vec<Level>| {
        encode_entry(&Entry {
            key: vec![(r / 100) as u8, (2 * (r % 100)) as u8],
            val: if r % 4 == 0 { None } else { Some(vec![r as u8, (r % 3) as u8]) },
            idx,
        })
    };
    if n == 0 {
        out.push(entry(1, vec![Level::default()]));
        return out;
    }
    let p = place(s, 1);
    let mut idx: Vec<Vec<Level>> = vec![vec![]; n as usize + 1];
    if style == "spread" {
        let mut at = vec![vec![]; n as usize + 1];
        spread(&p, 0, &mut at);
        for (i, mut v) in at.into_iter().enumerate() {
            v.sort_by_key(|x| x.0);
            idx[i] = v.into_iter().map(|x| x.1).collect();
        }
    } else {
        flat(&p, n, &mut idx[n as usize]);
    }
    for r in 1..=n {
        out.push(entry(r, std::mem::take(&mut idx[r as usize])));
    }
    out
}
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub fn opt_bytes(v: &Value) -> Option<Vec<u8>> {
    v.as_array().and_then(|a| a.first()).map(bytes)
}
/// A block given in a scenario in decoded form.
pub fn block_of_json(v: &Value) -> Vec<u8> {
    if v["h"] == true {
        return encode_header_with(&v["meta"]);
    }
    encode_entry(&Entry {
        key: bytes(&v["key"]),
        val: opt_bytes(&v["val"]),
        idx: v["idx"]
            .as_array()
            .unwrap()
            .iter()
            .map(|l| Level {
                k: l["k"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                c: l["c"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap())).collect(),
            })
            .collect(),
    })
}

/// A block that is not what was written, and can be told to be so.
pub fn damage(b: &[u8], how: &str) -> Vec<u8> {
    let e = match decode_entry(b) {
        Some(e) => e,
        None => return vec![0xff; 7],
    };
    match how {
        "junk" => vec![0xff; 11],
        "wiretype" => vec![0x0d, 1, 2, 3, 4],
        "cut" => b[..b.len() - 1].to_vec(),
        "cuthead" => b[..1].to_vec(),
        // the same entry, but its nodes are missing
        "nonodes" => encode_entry(&Entry { idx: vec![], ..e }),
        "lastnode" => {
            let mut e = e;
            e.idx.pop();
            encode_entry(&e)
        }
        // inner nodes with one child too few
        "fewkids" => {
            let mut e = e;
            e.idx.iter_mut().for_each(|l| {
                l.c.pop();
            });
            encode_entry(&e)
        }
        // a child without its offset
        "oddkids" => {
            let mut out = vec![];
            let mut index = vec![];
            for lv in &e.idx {
                let (mut l, mut p) = (vec![], vec![]);
                lv.k.iter().for_each(|x| varint(&mut p, *x));
                field(&mut l, 1, &p);
                let mut p = vec![];
                lv.c.iter().for_each(|x| {
                    varint(&mut p, x.0);
                    varint(&mut p, x.1)
                });
                varint(&mut p, 3);
                field(&mut l, 2, &p);
                field(&mut index, 1, &l);
            }
            field(&mut out, 1, &index);
            field(&mut out, 2, &e.key);
            if let Some(v) = &e.val {
                field(&mut out, 3, v);
            }
            out
        }
        "badindex" => {
            let mut out = vec![];
            field(&mut out, 1, &[0xff, 0xff, 0xff]);
            field(&mut out, 2, &e.key);
            out
        }
        x => panic!("unknown damage {x}"),
    }
}
