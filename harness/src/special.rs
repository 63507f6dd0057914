//! Files of others in the directory, damaged identifications, and other processes.
use crate::run::{open_store, Cfg};
pub use crate::snap::image;
use crate::snap::{write_img, FileImg};
use crate::sym::Rng;
use std::io::{Read, Write};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;

const HEADER: u64 = candystore::Stats::FILE_HEADER_SIZE as u64;

pub fn place_file(dir: &Path, name: &str, kind: &str) {
    let data: Vec<u8> = match kind {
        "empty" => vec![],
        k => crate::sym::bytes(k),
    };
    std::fs::write(dir.join(name), data).unwrap();
}

/// Shard files: name, start, end
fn shards(dir: &Path) -> Vec<(String, u32, u32)> {
    let mut v: Vec<(String, u32, u32)> = std::fs::read_dir(dir)
        .unwrap()
        .flatten()
        .filter_map(|e| {
            let n = e.file_name().into_string().ok()?;
            let (a, b) = n.strip_prefix("shard_")?.split_once('-')?;
            let (a, b) = (u32::from_str_radix(a, 16).ok()?, u32::from_str_radix(b, 16).ok()?);
            if n == format!("shard_{a:04x}-{b:04x}") { Some((n, a, b)) } else { None }
        })
        .collect();
    v.sort();
    v
}

fn content(r: &mut Rng, some_shard: Option<&Path>) -> FileImg {
    use std::rc::Rc;
    match r.below(5) {
        0 => FileImg::default(),
        1 => {
            let n = r.range(1, 200);
            FileImg { len: n, pages: vec![(0, Rc::new((0..n).map(|_| r.below(256) as u8).collect()))] }
        }
        2 => FileImg { len: HEADER, pages: vec![] },
        3 => FileImg { len: HEADER + r.below(5000), pages: vec![(0, Rc::new((0..4096).map(|_| r.below(256) as u8).collect()))] },
        _ => some_shard.and_then(image).unwrap_or_default(),
    }
}

/// Puts files into the (closed) store's directory that are none of its business, and leftovers of
/// interrupted restructurings.  Returns the former, which must stay as they are.
pub fn foreign(dir: &Path, r: &mut Rng) -> Vec<(String, FileImg)> {
    let sh = shards(dir);
    let first = sh.first().map(|x| dir.join(&x.0));
    let mut kept = vec![];
    let odd = [
        "user_notes.txt", "user_shard_0000-10000", "shard", "shard_", "shard_0000", "shard_zz-10", "shard_0-10000", "shard_00000-10000",
        "Shard_0000-10000", "shard_0000-10000.bak", "xshard_0000-8000", "shard_+000-8000", "shard_0000-8000 ", "shard_8000-0x10000",
        "shard-0000-8000", "shard_0000_8000", "shard_0000-", "shard_-8000", "SHARD_0000-10000", ".hidden", "user_bottom_0000-8000",
        "mergefile", "compact", "top", "lock", "shard_0000-08000", "shard_8000-010000", "shard_C000-10000", "shard_4000-8000-c000",
    ];
    for _ in 0..r.range(1, 5) {
        let n = *r.pick(&odd);
        let img = content(r, first.as_deref());
        write_img(&dir.join(n), &img);
        kept.retain(|x: &(String, FileImg)| x.0 != n);
        kept.push((n.to_string(), img));
    }
    if r.chance(30) {
        use std::os::unix::ffi::OsStrExt;
        _ = std::fs::write(dir.join(std::ffi::OsStr::from_bytes(b"shard_\xff\xfe-8000")), b"x");
    }
    // directories are nobody's shards
    for n in ["shard_0000-4000", "shard_4000-8000", "top_dir", "user_d"] {
        if r.chance(15) && !dir.join(n).exists() && !sh.iter().any(|x| x.0 == n) {
            _ = std::fs::create_dir(dir.join(n));
            // it must not be in the way of a later split: it is taken away again by the caller's clean-up
            DIRS.lock().unwrap().push(dir.join(n));
        }
    }
    // leftovers
    for _ in 0..r.below(4) {
        let (_, a, b) = sh[r.below(sh.len() as u64) as usize];
        let mid = (a + b) / 2;
        let n = match r.below(5) {
            0 => format!("bottom_{a:04x}-{mid:04x}"),
            1 => format!("top_{mid:04x}-{b:04x}"),
            2 => format!("merge_{:04x}-{:04x}", a, b + (b - a)),
            3 => format!("merge_{:04x}-{:04x}", 0, 65536),
            _ => format!("top_{:04x}-{:04x}", 0x8000, 65536),
        };
        let img = content(r, first.as_deref());
        write_img(&dir.join(n), &img);
    }
    for x in kept.iter_mut() {
        x.1 = image(&dir.join(&x.0)).unwrap();
    }
    // a compaction target that nothing was moved to yet
    if r.chance(30) {
        let (_, a, b) = sh[r.below(sh.len() as u64) as usize];
        let img = FileImg { len: *r.pick(&[0, 0, HEADER, 4096]), pages: vec![] };
        write_img(&dir.join(format!("compact_{a:04x}-{b:04x}")), &img);
    }
    kept
}
pub static DIRS: std::sync::Mutex<Vec<std::path::PathBuf>> = std::sync::Mutex::new(vec![]);
/// Takes away what `foreign` put where a later split could want to put a file.
pub fn remove_dirs() {
    for d in DIRS.lock().unwrap().drain(..) {
        _ = std::fs::remove_dir(d);
    }
}

/// Damages the identification of one shard file: name, span, and what the file was.
pub fn corrupt(dir: &Path, r: &mut Rng, how: i64) -> Option<(String, (u32, u32), FileImg)> {
    let sh = shards(dir);
    let (n, a, b) = sh[r.below(sh.len() as u64) as usize].clone();
    let p = dir.join(&n);
    let orig = image(&p)?;
    let mut d = std::fs::read(&p).ok()?;
    if d.len() < 64 {
        return None;
    }
    match how {
        // magic: one bit
        0 => d[r.below(8) as usize] ^= 1 << r.below(8),
        // version: one bit, or the neighbours
        1 => d[8 + r.below(8) as usize] ^= 1 << r.below(8),
        2 => {
            let v = u64::from_le_bytes(d[8..16].try_into().unwrap());
            let v = if r.chance(50) { v + 1 } else { v - 1 };
            d[8..16].copy_from_slice(&v.to_le_bytes());
        }
        // too short: of the identification, of the header
        3 => d.truncate(r.range(1, 15) as usize),
        4 => d.truncate(r.range(16, HEADER - 1) as usize),
        5 => d.truncate(*r.pick(&[16, 4095, 4096, HEADER - 1]) as usize),
        // something else altogether
        6 => d = b"This is not a shard file.\n".to_vec(),
        7 => d = (0..HEADER + 777).map(|i| (i % 251) as u8 + 1).collect(),
        // all zero, but for the version
        8 => d[0..8].fill(0),
        // no identification at all, but something to lose
        10 if d[16..].iter().any(|b| *b != 0) => d[0..16].fill(0),
        _ => d[8..16].fill(0),
    }
    std::fs::write(&p, &d).unwrap();
    Some((n, (a, b), orig))
}

pub struct Held(Child);
impl Drop for Held {
    fn drop(&mut self) {
        _ = self.0.kill();
        _ = self.0.wait();
    }
}
fn child(dir: &Path, cfg: &Cfg, what: &str) -> Option<Child> {
    let on = crate::hooks::ON.swap(false, Ordering::SeqCst);
    let r = Command::new(std::env::current_exe().unwrap())
        .args(["special", what, dir.to_str().unwrap(), &cfg.show()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok();
    crate::hooks::ON.store(on, Ordering::SeqCst);
    r
}
fn first_byte(c: &mut Child) -> u8 {
    let on = crate::hooks::ON.swap(false, Ordering::SeqCst);
    let mut b = [0u8; 1];
    _ = c.stdout.as_mut().unwrap().read_exact(&mut b);
    crate::hooks::ON.store(on, Ordering::SeqCst);
    b[0]
}
/// Another process opens the store and holds it until it is killed.
pub fn hold(dir: &Path, cfg: &Cfg) -> Option<Held> {
    let mut c = child(dir, cfg, "hold")?;
    let b = first_byte(&mut c);
    let h = Held(c);
    if b == b'O' { Some(h) } else { None }
}
/// Can another process open the store?
pub fn other_process_opens(dir: &Path, cfg: &Cfg) -> Option<bool> {
    let mut c = child(dir, cfg, "try")?;
    let b = first_byte(&mut c);
    _ = c.wait();
    match b {
        b'O' => Some(true),
        b'R' => Some(false),
        _ => None,
    }
}
pub fn main(a: &[String]) {
    let mut cfg = Cfg::default();
    for kv in a[4].split_whitespace() {
        let (k, v) = kv.split_once('=').unwrap();
        cfg.set(k, v);
    }
    let r = open_store(Path::new(&a[3]), &cfg);
    let mut o = std::io::stdout();
    _ = o.write_all(match &r {
        Ok(_) => b"O",
        Err(e) if e.starts_with("panic") => b"P",
        Err(_) => b"R",
    });
    _ = o.flush();
    if a[2] == "hold" && r.is_ok() {
        // until killed, or until the other end is gone
        let mut b = [0u8; 1];
        _ = std::io::stdin().read(&mut b);
        unsafe { libc::_exit(0) };
    }
    drop(r);
}
