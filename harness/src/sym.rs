//! Symbols, byte strings, tokens and a little JSON.
use std::hash::Hasher;

/// "abc" stands for itself, "@len.seed" for len pseudo-random bytes ("@len.seed^i": one bit of byte i flipped), "%hex" for raw bytes, "~" for nothing.
pub fn bytes(sym: &str) -> Vec<u8> {
    if sym == "~" {
        return vec![];
    }
    if let Some(r) = sym.strip_prefix('@') {
        let (r, flip) = r.split_once('^').map_or((r, None), |(r, i)| (r, i.parse::<usize>().ok()));
        let (n, s) = r.split_once('.').unwrap_or((r, "0"));
        let n: usize = n.parse().unwrap();
        let mut x: u64 = s.parse::<u64>().unwrap_or(0).wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567;
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            x = mix(x);
            v.extend_from_slice(&x.to_le_bytes());
        }
        v.truncate(n);
        if let Some(b) = flip.and_then(|i| v.get_mut(i)) {
            *b ^= 1;
        }
        return v;
    }
    if let Some(r) = sym.strip_prefix('%') {
        return (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap()).collect();
    }
    sym.as_bytes().to_vec()
}
/// What the specification sees of a byte string.
pub fn token(b: &[u8]) -> String {
    let plain = b.len() <= 24
        && b.iter().all(|c| (0x21..0x7f).contains(c) && *c != b'"' && *c != b'\\')
        && !b.first().is_some_and(|c| b"#~".contains(c));
    if b.is_empty() {
        "~".into()
    } else if plain {
        String::from_utf8(b.to_vec()).unwrap()
    } else {
        format!("#{}:{:016x}", b.len(), hash(b))
    }
}
pub fn hash(b: &[u8]) -> u64 {
    #[allow(deprecated)]
    let mut h = siphasher::sip::SipHasher13::new();
    h.write(b);
    h.finish()
}
pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// JSON array of already encoded parts
pub fn ja<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s ^ 0xabcdef))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { (self.next() >> 11) % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
/// The store's own placement function (default seed), used only to choose interesting keys.
pub fn placement(full_key: &[u8]) -> (u32, u32, u32) {
    use siphasher::sip128::{Hasher128, SipHasher24};
    let mut h = SipHasher24::new_with_key(b"kOYLu0xvq2WtzcKJ");
    h.write(full_key);
    let h = h.finish128();
    ((h.h1 >> 48) as u32, ((h.h1 >> 32) as u16 as u32) % 64, h.h1 as u32)
}
/// The bytes of the hash by which a list's records refer to it (default seed).
pub fn placement_bytes(full_key: &[u8]) -> [u8; 8] {
    use siphasher::sip128::{Hasher128, SipHasher24};
    let mut h = SipHasher24::new_with_key(b"kOYLu0xvq2WtzcKJ");
    h.write(full_key);
    h.finish128().h1.to_le_bytes()
}
