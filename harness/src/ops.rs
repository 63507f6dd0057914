//! One operation: parsing, running it against the store, and the event recorded for it.
use crate::sym::*;
use candystore::*;
use std::borrow::Borrow;
use std::sync::Arc;

macro_rules! with_key {
    ($sym:expr, $K:ident, $key:ident, $body:expr) => {{
        let (t, v) = $sym.split_once('!').unwrap();
        macro_rules! num { ($T:ty) => {{ type $K = $T; let $key: $T = v.parse().unwrap(); $body }}; }
        match t {
            "u8" => num!(u8),
            "u16" => num!(u16),
            "u32" => num!(u32),
            "u64" => num!(u64),
            "i32" => num!(i32),
            "i64" => num!(i64),
            "u128" => num!(u128),
            "i8" => num!(i8),
            "i16" => num!(i16),
            "i128" => num!(i128),
            "usz" => num!(usize),
            "isz" => num!(isize),
            // types of the user's own with the same encoding, whose identities differ in one byte
            "c0" => { type $K = Cust<0x0102_0304>; let $key: $K = Cust(v.parse().unwrap()); $body }
            "c1" => { type $K = Cust<0x0102_03f4>; let $key: $K = Cust(v.parse().unwrap()); $body }
            "c2" => { type $K = Cust<0x0102_f304>; let $key: $K = Cust(v.parse().unwrap()); $body }
            "c3" => { type $K = Cust<0x01f2_0304>; let $key: $K = Cust(v.parse().unwrap()); $body }
            "c4" => { type $K = Cust<0xf102_0304>; let $key: $K = Cust(v.parse().unwrap()); $body }
            "uuid" => { type $K = [u8; 16]; let mut $key: $K = [0; 16]; $key[0] = v.parse().unwrap(); $body }
            "bool" => { type $K = bool; let $key: bool = v != "0"; $body }
            "chr" => { type $K = char; let $key: char = v.chars().next().unwrap(); $body }
            "str" => { type $K = String; let $key: String = String::from_utf8(bytes(v)).unwrap(); $body }
            "vec" => { type $K = Vec<u8>; let $key: Vec<u8> = bytes(v); $body }
            _ => panic!("key type {t}"),
        }
    }};
}

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub o: String,
    pub f: Vec<(String, String)>,
}
impl Op {
    pub fn new(o: &str) -> Op {
        Op { o: o.into(), f: vec![] }
    }
    pub fn a(mut self, k: &str, v: impl ToString) -> Op {
        self.f.push((k.into(), v.to_string()));
        self
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.f.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn s(&self, k: &str) -> &str {
        self.get(k).unwrap_or("")
    }
    pub fn num(&self, k: &str) -> i64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(0)
    }
    pub fn list(&self, k: &str) -> Vec<String> {
        let s = self.s(k);
        if s.is_empty() { vec![] } else { s.split(',').map(|x| x.to_string()).collect() }
    }
    pub fn parse(line: &str) -> Op {
        let mut it = line.split_whitespace();
        let mut o = Op::new(it.next().unwrap());
        for w in it {
            let (k, v) = w.split_once('=').unwrap_or((w, ""));
            o.f.push((k.into(), v.into()));
        }
        o
    }
    pub fn show(&self) -> String {
        let mut s = self.o.clone();
        for (k, v) in &self.f {
            s.push_str(&format!(" {k}={v}"));
        }
        s
    }
    /// the arguments as the specification sees them
    pub fn args_json(&self) -> String {
        let mut s = format!("\"o\":{}", js(&self.o));
        let mut kl = 0;
        let mut vl = 0;
        for (k, v) in &self.f {
            match k.as_str() {
                "k" if self.kind() == 'k' => s.push_str(&format!(",\"k\":{}", js(&key_token(v)))),
                "k" if self.kind() == 'b' => s.push_str(&format!(",\"k\":{}", js(&name_token(v)))),
                "k" => s.push_str(&format!(",\"k\":{}", js(&token(&bytes(v))))),
                "v" => s.push_str(&format!(",\"v\":{}", js(&token(&bytes(v))))),
                "x" => s.push_str(&format!(",\"x\":[{}]", js(&token(&bytes(v))))),
                "l" | "q" => s.push_str(&format!(",\"{k}\":{}", js(&name_token(v)))),
                "i" | "min" | "pct" | "id" => s.push_str(&format!(",\"{k}\":{v}")),
                // a shard is meant for 64 rows of 512 entries, nine tenths full
                "f" if self.o == "merge" => s.push_str(&format!(",\"m\":{}", ((64 * 512 * 9 / 10) as f32 * v.parse::<f32>().unwrap_or(0.25)) as usize)),
                "vs" => s.push_str(&format!(",\"vs\":{}", ja(self.list("vs").iter().map(|x| js(&token(&bytes(x))))))),
                "ks" => s.push_str(&format!(",\"ks\":{}", ja(self.fill_keys().iter().map(|x| js(&key_token(x)))))),
                "kvs" => {
                    let v = self.s("w");
                    s.push_str(&format!(
                        ",\"kvs\":{}",
                        ja(self.fill_keys().iter().map(|x| ja([js(&key_token(x)), js(&token(&fill_val(x, v)))])))
                    ));
                }
                _ => {}
            }
            if !v.contains('!') {
                match k.as_str() {
                    "k" if self.kind() != 'b' => kl = bytes(v).len(),
                    "k" | "q" => kl = kl.max(bytes(v).len()),
                    "v" if self.kind() == 'b' => vl = bytes(v).len().min(MAXV),
                    "v" => vl = bytes(v).len(),
                    "vs" => vl = self.list("vs").iter().map(|x| bytes(x).len()).max().unwrap_or(0),
                    _ => {}
                }
            }
        }
        if matches!(self.o.as_str(), "rep" | "trep" | "lrep") && self.get("x").is_none() {
            s.push_str(",\"x\":[]");
        }
        if self.o == "bset" {
            let b = bytes(self.s("v"));
            let c: Vec<String> = if b.is_empty() { vec!["~".into()] } else { b.chunks(MAXV).map(token).collect() };
            s.push_str(&format!(",\"c\":{}", ja(c.iter().map(|x| js(x)))));
        }
        if matches!(self.o.as_str(), "set" | "rep" | "goc" | "tset" | "trep" | "tgoc") {
            s.push_str(&format!(",\"sz\":{}", self.entry_size()));
        }
        let nl = |k: &str| if self.s(k).contains('!') { 0 } else { bytes(self.s(k)).len() };
        if kl + vl + nl("l") + nl("q") > 300 {
            s.push_str(",\"lg\":1");
        }
        if !matches!(self.o.as_str(), "get" | "has" | "tget" | "thas" | "lget" | "lhas" | "bget" | "dump") && kl + vl > 150 {
            s.push_str(&format!(",\"z\":[{kl},{vl}]"));
            if self.kind() == 'l' {
                s.push_str(&format!(",\"zl\":{}", bytes(self.s("l")).len()));
            }
        }
        s
    }
    /// the bytes of key and value of the record a plain or typed write makes
    fn entry_size(&self) -> usize {
        use databuf::{config::num::LE, Encode};
        let k = self.s("k");
        if k.contains('!') {
            let kl = with_key!(k, K, key, {
                let k: &K = &key;
                k.to_bytes::<LE>().len() + 5
            });
            kl + String::from_utf8(bytes(self.s("v"))).unwrap().to_bytes::<LE>().len()
        } else {
            bytes(k).len() + 1 + bytes(self.s("v")).len()
        }
    }
    /// k: plain or typed entry, l: list, q: queue, b: big value, s: whole store
    pub fn kind(&self) -> char {
        match self.o.as_str() {
            "set" | "get" | "has" | "rem" | "rep" | "goc" | "tset" | "tget" | "thas" | "trem" | "trep" | "tgoc" | "fill"
            | "unfill" => 'k',
            "bset" | "bget" | "brem" => 'b',
            o if o.starts_with('l') => 'l',
            o if o.starts_with('q') => 'q',
            _ => 's',
        }
    }
    /// Did this call, with this result, change a plain or typed entry?
    pub fn changed(&self, res: &str) -> bool {
        let v = js(&token(&bytes(self.s("v"))));
        match self.o.as_str() {
            "set" | "rep" => res.starts_with("[\"new\"") || (res.starts_with("[\"prev\"") && res != format!("[\"prev\",{v}]")),
            "goc" => res.starts_with("[\"new\""),
            "rem" | "trem" => res.starts_with("[\"some\""),
            "tset" => res != format!("[\"some\",{v}]"),
            "trep" => res.starts_with("[\"some\"") && res != format!("[\"some\",{v}]"),
            _ => false,
        }
    }
    /// fill/unfill keys: ks=prefix:from:to  or  ks=a,b,c
    pub fn fill_keys(&self) -> Vec<String> {
        let s = if let Some(s) = self.get("ks") { s } else { self.s("kvs") };
        let p: Vec<&str> = s.split(':').collect();
        if p.len() == 3 {
            let (a, b): (u64, u64) = (p[1].parse().unwrap(), p[2].parse().unwrap());
            (a..b).map(|i| format!("{}{}", p[0], i)).collect()
        } else if s.is_empty() {
            vec![]
        } else {
            s.split(',').map(|x| x.to_string()).collect()
        }
    }
}
pub const MAXV: usize = 0xffff - 0xff;
/// value of a filled key: w = length
pub fn fill_val(k: &str, w: &str) -> Vec<u8> {
    let n: usize = w.parse().unwrap_or(0);
    let mut v = format!("v.{k}").into_bytes();
    while v.len() < n {
        v.push(b'.');
    }
    v
}
pub fn key_token(sym: &str) -> String {
    match sym.split_once('!') {
        Some((t, v)) => format!("t{t}:{}", token(&bytes(v))),
        None => format!("p:{}", token(&bytes(sym))),
    }
}
pub fn name_token(sym: &str) -> String {
    match sym.split_once('!') {
        Some((t, v)) => format!("t{t}:{}", token(&bytes(v))),
        None => token(&bytes(sym)),
    }
}

const QBASE: i128 = 1 << 63;
fn qi(i: usize) -> i128 {
    i as i128 - QBASE
}
fn qu(i: i64) -> usize {
    (i as i128 + QBASE) as usize
}
pub fn tag(s: &str) -> String {
    format!("[{}]", js(s))
}
fn tagv(s: &str, v: &[u8]) -> String {
    format!("[{},{}]", js(s), js(&token(v)))
}
fn opt(v: Option<Vec<u8>>) -> String {
    match v {
        Some(v) => tagv("some", &v),
        None => tag("none"),
    }
}
fn boolr(b: bool) -> String {
    tag(if b { "true" } else { "false" })
}
fn set_r(s: SetStatus) -> String {
    if (s.was_created(), s.was_replaced()) != (s == SetStatus::CreatedNew, s != SetStatus::CreatedNew) {
        return tag("contradiction");
    }
    match s {
        SetStatus::CreatedNew => tag("new"),
        SetStatus::PrevValue(v) => tagv("prev", &v),
    }
}
fn rep_r(s: ReplaceStatus) -> String {
    let (replaced, wrong) = (matches!(s, ReplaceStatus::PrevValue(_)), matches!(s, ReplaceStatus::WrongValue(_)));
    if (s.was_replaced(), s.failed(), s.is_key_missing(), s.is_wrong_value()) != (replaced, !replaced, s == ReplaceStatus::DoesNotExist, wrong) {
        return tag("contradiction");
    }
    match s {
        ReplaceStatus::DoesNotExist => tag("none"),
        ReplaceStatus::PrevValue(v) => tagv("prev", &v),
        ReplaceStatus::WrongValue(v) => tagv("wrong", &v),
    }
}
fn goc_r(s: GetOrCreateStatus) -> String {
    let (GetOrCreateStatus::CreatedNew(v) | GetOrCreateStatus::ExistingValue(v)) = &s;
    let new = matches!(s, GetOrCreateStatus::CreatedNew(_));
    if (s.was_created(), s.already_exists()) != (new, !new) || s.clone().value() != *v {
        return tag("contradiction");
    }
    match s {
        GetOrCreateStatus::CreatedNew(v) => tagv("new", &v),
        GetOrCreateStatus::ExistingValue(v) => tagv("old", &v),
    }
}
fn kv_r(x: Option<(Vec<u8>, Vec<u8>)>) -> String {
    match x {
        Some((k, v)) => format!("[\"kv\",{},{}]", js(&token(&k)), js(&token(&v))),
        None => tag("none"),
    }
}
fn iv_r(x: Option<(usize, Vec<u8>)>) -> String {
    match x {
        Some((i, v)) => format!("[\"iv\",{},{}]", qi(i), js(&token(&v))),
        None => tag("none"),
    }
}
fn ss(o: Option<String>) -> Option<Vec<u8>> {
    o.map(|x| x.into_bytes())
}
pub fn err_kind(e: &anyhow::Error) -> String {
    match e.downcast_ref::<CandyError>() {
        Some(CandyError::KeyTooLong(_)) => "key".into(),
        Some(CandyError::ValueTooLong(_)) => "val".into(),
        Some(CandyError::EntryCannotFitInShard(..)) => "fit".into(),
        None => {
            if e.downcast_ref::<std::io::Error>().is_some() {
                "io".into()
            } else {
                "other".into()
            }
        }
    }
}

#[derive(Clone)]
pub struct Cust<const ID: u32>(u32);
impl<const ID: u32> databuf::Encode for Cust<ID> {
    fn encode<const C: u16>(&self, w: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
        w.write_all(&self.0.to_le_bytes())
    }
}
impl<'de, const ID: u32> databuf::Decode<'de> for Cust<ID> {
    fn decode<const C: u16>(b: &mut &'de [u8]) -> databuf::Result<Self> {
        Ok(Cust(<u32 as databuf::Decode>::decode::<C>(b)?))
    }
}
impl<const ID: u32> CandyTypedKey for Cust<ID> {
    const TYPE_ID: u32 = ID;
}

/// Running iterators, by id.
pub type Iters = std::collections::HashMap<i64, Running>;
/// A running iterator and the store it borrows from.
pub struct Running {
    it: Box<dyn Iterator<Item = Result<(Vec<u8>, Vec<u8>)>>>,
    _st: Arc<CandyStore>,
}

pub struct Ctx {
    pub st: Arc<CandyStore>,
    pub dir: std::path::PathBuf,
}
/// Runs the operation; the result as JSON.
pub fn exec(c: &Ctx, op: &Op, its: &mut Iters) -> (String, String) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec0(c, op, its)));
    match r {
        Ok(Ok(r)) => (r, String::new()),
        Ok(Err(e)) => (format!("[\"err\",{}]", js(&err_kind(&e))), format!("{e:#}")),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            ("[\"panic\"]".into(), format!("{m} at {}", crate::LAST_PANIC.lock().unwrap()))
        }
    }
}
fn exec0(c: &Ctx, op: &Op, its: &mut Iters) -> Result<String> {
    let st = &*c.st;
    let k = op.s("k");
    let typed = match op.kind() {
        'l' => op.s("l").contains('!'),
        'q' => op.s("q").contains('!'),
        'k' | 'b' => k.contains('!'),
        _ => false,
    };
    let v = bytes(op.s("v"));
    let x = op.get("x").map(bytes);
    if typed {
        return typed_op(c, op, v, x);
    }
    let l = bytes(op.s("l"));
    let q = bytes(op.s("q"));
    let kb = bytes(k);
    Ok(match op.o.as_str() {
        "nop" => tag("ok"),
        "set" => set_r(st.set(&kb, &v)?),
        "get" => opt(st.get(&kb)?),
        "has" => boolr(st.contains(&kb)?),
        "rem" => opt(st.remove(&kb)?),
        "rep" => rep_r(st.replace(&kb, &v, x.as_ref())?),
        "goc" => goc_r(st.get_or_create(&kb, &v)?),
        "fill" => {
            let mut n = 0;
            for key in op.fill_keys() {
                if st.set(&bytes(&key), &fill_val(&key, op.s("w")))?.was_created() {
                    n += 1;
                }
            }
            format!("[\"created\",{n}]")
        }
        "unfill" => {
            let mut n = 0;
            for key in op.fill_keys() {
                if st.remove(&bytes(&key))?.is_some() {
                    n += 1;
                }
            }
            format!("[\"removed\",{n}]")
        }
        "lset" => set_r(st.set_in_list(&l, &kb, &v)?),
        "lprom" => set_r(st.set_in_list_promoting(&l, &kb, &v)?),
        "lrep" => rep_r(st.replace_in_list(&l, &kb, &v, x.as_ref())?),
        "lgoc" => goc_r(st.get_or_create_in_list(&l, &kb, &v)?),
        "lget" => opt(st.get_from_list(&l, &kb)?),
        "lhas" => boolr(st.get_from_list(&l, &kb)?.is_some()),
        "lrem" => opt(st.remove_from_list(&l, &kb)?),
        "lpopH" => kv_r(st.pop_list_head(&l)?),
        "lpopT" => kv_r(st.pop_list_tail(&l)?),
        "lpeekH" => kv_r(st.peek_list_head(&l)?),
        "lpeekT" => kv_r(st.peek_list_tail(&l)?),
        "liter" => list_seq(st.iter_list(&l))?,
        "literb" => list_seq(st.iter_list_backwards(&l))?,
        "llen" => format!("[\"n\",{}]", st.list_len(&l)?),
        "ldisc" => boolr(st.discard_list(&l)?),
        "lcomp" => boolr(st.compact_list_if_needed(&l, lcp(op))?),
        "qpushH" => format!("[\"idx\",{}]", qi(st.push_to_queue_head(&q, &v)?)),
        "qpushT" => format!("[\"idx\",{}]", qi(st.push_to_queue_tail(&q, &v)?)),
        "qpopH" => {
            if op.get("noidx").is_some() {
                opt(st.pop_queue_head(&q)?)
            } else {
                iv_r(st.pop_queue_head_with_idx(&q)?)
            }
        }
        "qpopT" => {
            if op.get("noidx").is_some() {
                opt(st.pop_queue_tail(&q)?)
            } else {
                iv_r(st.pop_queue_tail_with_idx(&q)?)
            }
        }
        "qpeekH" => {
            if op.get("noidx").is_some() {
                opt(st.peek_queue_head(&q)?)
            } else {
                iv_r(st.peek_queue_head_with_idx(&q)?)
            }
        }
        "qpeekT" => {
            if op.get("noidx").is_some() {
                opt(st.peek_queue_tail(&q)?)
            } else {
                iv_r(st.peek_queue_tail_with_idx(&q)?)
            }
        }
        "qrem" => opt(st.remove_from_queue(&q, qu(op.num("i")))?),
        "qext" => {
            let r = st.extend_queue(&q, op.list("vs").iter().map(|x| bytes(x)))?;
            format!("[\"rng\",{},{}]", qi(r.start), qi(r.end))
        }
        "qlen" => format!("[\"n\",{}]", st.queue_len(&q)?),
        "qrange" => {
            let r = st.queue_range(&q)?;
            format!("[\"rng\",{},{}]", qi(r.start), qi(r.end))
        }
        "qiter" => queue_seq(st.iter_queue(&q))?,
        "qiterb" => queue_seq(st.iter_queue_backwards(&q))?,
        "qdisc" => boolr(st.discard_queue(&q)?),
        "bset" => boolr(st.set_big(&kb, &v)?),
        "bget" => opt(st.get_big(&kb)?),
        "brem" => boolr(st.remove_big(&kb)?),
        "clear" => {
            st.clear()?;
            tag("ok")
        }
        // another opening of the same directory while this one is in use
        "open2" => {
            let cfg = Config { max_shard_size: 777, ..Default::default() };
            tag(if CandyStore::open(&c.dir, cfg).is_err() { "refused" } else { "opened" })
        }
        "flush" => {
            st.flush()?;
            tag("ok")
        }
        "merge" => boolr(st.merge_small_shards(op.s("f").parse::<f32>().unwrap_or(0.25))?),
        "iter" => format!("[\"seq\",{}]", pairs(st.iter(), usize::MAX)?.0),
        "iterc" => {
            // stop after each of the given counts, continue from the cookie; then from the cookie of the end
            let mut parts = vec![];
            let mut cookie = 0;
            for n in op.list("at") {
                let mut it = st.iter_from_cookie(cookie);
                parts.push(pairs(&mut it, n.parse().unwrap())?.0);
                cookie = it.cookie();
            }
            let mut it = st.iter_from_cookie(cookie);
            parts.push(pairs(&mut it, usize::MAX)?.0);
            cookie = it.cookie();
            parts.push(pairs(st.iter_from_cookie(cookie), usize::MAX)?.0);
            format!("[\"seqs\",{}]", ja(parts))
        }
        "itb" => {
            let st2 = c.st.clone();
            // the iterator borrows from the store, which is kept alive next to it
            let s0: &'static CandyStore = unsafe { &*Arc::as_ptr(&st2) };
            let it = Box::new(s0.iter());
            its.insert(op.num("id"), Running { it, _st: st2 });
            tag("ok")
        }
        "itn" => {
            let r = pairs(&mut its.get_mut(&op.num("id")).unwrap().it, 1)?;
            if r.1 == 0 { tag("end") } else { format!("[\"item\",{}]", r.0) }
        }
        o => panic!("unknown op {o}"),
    })
}
fn lcp(op: &Op) -> ListCompactionParams {
    ListCompactionParams { min_length: op.num("min") as u64, min_holes_ratio: op.num("pct") as f64 / 100.0 }
}
fn list_seq(it: impl Iterator<Item = Result<(Vec<u8>, Vec<u8>)>>) -> Result<String> {
    let mut v = vec![];
    for r in it {
        let (k, x) = r?;
        v.push(ja([js(&token(&k)), js(&token(&x))]));
    }
    Ok(format!("[\"seq\",{}]", ja(v)))
}
fn queue_seq(it: impl Iterator<Item = Result<(usize, Vec<u8>)>>) -> Result<String> {
    let mut v = vec![];
    for r in it {
        let (i, x) = r?;
        v.push(ja([qi(i).to_string(), js(&token(&x))]));
    }
    Ok(format!("[\"seq\",{}]", ja(v)))
}
pub fn pairs(it: impl Iterator<Item = Result<(Vec<u8>, Vec<u8>)>>, n: usize) -> Result<(String, usize)> {
    let mut v = vec![];
    for r in it.take(n) {
        let (k, x) = r?;
        v.push(ja([js(&format!("p:{}", token(&k))), js(&token(&x))]));
    }
    let n = v.len();
    Ok((ja(v), n))
}

fn typed_op(c: &Ctx, op: &Op, v: Vec<u8>, x: Option<Vec<u8>>) -> Result<String> {
    let st = c.st.clone();
    let vs = String::from_utf8(v).unwrap();
    let xs: Option<String> = x.map(|x| String::from_utf8(x).unwrap());
    match op.kind() {
        'k' | 'b' => with_key!(op.s("k"), K, key, {
            let t: CandyTypedStore<K, String> = CandyTypedStore::new(st);
            let t = t.clone();
            Ok(match op.o.as_str() {
                "tset" => opt(ss(t.set(&key, &vs)?)),
                "tget" => opt(ss(t.get(&key)?)),
                "thas" => boolr(t.contains(&key)?),
                "trem" => opt(ss(t.remove(&key)?)),
                "trep" => opt(ss(t.replace(&key, &vs, xs.as_ref())?)),
                "tgoc" => tagv("some", t.get_or_create(&key, &vs)?.as_bytes()),
                "bset" => boolr(t.set_big(&key, &vs)?),
                "bget" => opt(ss(t.get_big(&key)?)),
                "brem" => boolr(t.remove_big(&key)?),
                o => panic!("typed {o}"),
            })
        }),
        'l' => with_key!(op.s("l"), K, lk, {
            let t: CandyTypedList<K, String, String> = CandyTypedList::new(st);
            let t = t.clone();
            let k = String::from_utf8(bytes(op.s("k"))).unwrap();
            let kv = |r: Option<(String, String)>| kv_r(r.map(|(a, b)| (a.into_bytes(), b.into_bytes())));
            let it = |r: Result<(String, String)>| r.map(|(a, b)| (a.into_bytes(), b.into_bytes()));
            let prev = |r: Option<String>| match r {
                Some(p) => tagv("prev", p.as_bytes()),
                None => tag("new"),
            };
            Ok(match op.o.as_str() {
                "lset" => prev(t.set(&lk, &k, &vs)?),
                "lprom" => prev(t.set_promoting(&lk, &k, &vs)?),
                "lrep" => match t.replace(&lk, &k, &vs, xs.as_ref())? {
                    Some(p) => tagv("prev", p.as_bytes()),
                    None => tag("tnone"),
                },
                "lgoc" => tagv("some", t.get_or_create(&lk, &k, &vs)?.as_bytes()),
                "lget" => opt(ss(t.get(&lk, &k)?)),
                "lhas" => boolr(t.contains(&lk, &k)?),
                "lrem" => opt(ss(t.remove(&lk, &k)?)),
                "lpopH" => kv(t.pop_head(&lk)?),
                "lpopT" => kv(t.pop_tail(&lk)?),
                "lpeekH" => kv(t.peek_head(&lk)?),
                "lpeekT" => kv(t.peek_tail(&lk)?),
                "liter" => list_seq(t.iter(&lk).map(it))?,
                "literb" => list_seq(t.iter_backwards(&lk).map(it))?,
                "llen" => format!("[\"n\",{}]", t.len(&lk)?),
                "ldisc" => boolr(t.discard(&lk)?),
                "lcomp" => boolr(t.compact_if_needed(&lk, lcp(op))?),
                o => panic!("typed {o}"),
            })
        }),
        _ => with_key!(op.s("q"), K, qk, {
            let t: CandyTypedDeque<K, String> = CandyTypedDeque::new(st);
            let t = t.clone();
            let b = <K as Borrow<K>>::borrow(&qk);
            let iv = |r: Option<(usize, String)>| iv_r(r.map(|(i, s)| (i, s.into_bytes())));
            let it = |r: Result<(usize, String)>| r.map(|(i, s)| (i, s.into_bytes()));
            let noidx = op.get("noidx").is_some();
            Ok(match op.o.as_str() {
                "qpushH" => {
                    t.push_head(b, &vs)?;
                    tag("pushed")
                }
                "qpushT" => {
                    t.push_tail(b, &vs)?;
                    tag("pushed")
                }
                "qpopH" if noidx => opt(ss(t.pop_head(b)?)),
                "qpopT" if noidx => opt(ss(t.pop_tail(b)?)),
                "qpeekH" if noidx => opt(ss(t.peek_head(b)?)),
                "qpeekT" if noidx => opt(ss(t.peek_tail(b)?)),
                "qpopH" => iv(t.pop_head_with_idx(b)?),
                "qpopT" => iv(t.pop_tail_with_idx(b)?),
                "qpeekH" => iv(t.peek_head_with_idx(b)?),
                "qpeekT" => iv(t.peek_tail_with_idx(b)?),
                "qlen" => format!("[\"n\",{}]", t.len(b)?),
                "qrange" => {
                    let r = t.range(b)?;
                    format!("[\"rng\",{},{}]", qi(r.start), qi(r.end))
                }
                "qiter" => queue_seq(t.iter(b).map(it))?,
                "qiterb" => queue_seq(t.iter_backwards(b).map(it))?,
                o => panic!("typed {o}"),
            })
        }),
    }
}
