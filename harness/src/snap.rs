//! Directory snapshots (only non-zero pages are kept).
use libc::c_int;
use parking_lot::sched::raw6;
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Default, Hash, PartialEq)]
pub struct FileImg {
    pub len: u64,
    pub pages: Vec<(u64, Rc<Vec<u8>>)>,
}
#[derive(Clone, Default)]
pub struct Snap {
    pub files: Vec<(String, FileImg)>,
}
impl Snap {
    pub fn hash(&self) -> u64 {
        #[allow(deprecated)]
        let mut h = siphasher::sip::SipHasher13::new();
        for (n, f) in &self.files {
            n.hash(&mut h);
            f.hash(&mut h);
        }
        h.finish()
    }
    pub fn restore(&self, dir: &Path) {
        std::fs::create_dir_all(dir).unwrap();
        for (n, f) in &self.files {
            write_img(&dir.join(n), f);
        }
    }
}
pub fn write_img(path: &Path, f: &FileImg) {
    use std::os::unix::fs::FileExt;
    let file = std::fs::File::create(path).unwrap();
    file.set_len(f.len).unwrap();
    for (o, p) in &f.pages {
        file.write_all_at(p, *o).unwrap();
    }
}
const PG: usize = 4096;
pub fn image_fd(fd: c_int, len: u64) -> FileImg {
    let mut img = FileImg { len, pages: vec![] };
    let mut buf = vec![0u8; 64 * PG];
    let mut pos = 0u64;
    while pos < len {
        // skip holes
        let d = unsafe { raw6(8, fd as usize, pos as usize, 3, 0, 0, 0) }; // SEEK_DATA
        if d < 0 {
            break;
        }
        pos = (d as u64) & !(PG as u64 - 1);
        let n = unsafe { raw6(17, fd as usize, buf.as_mut_ptr() as usize, buf.len(), pos as usize, 0, 0) };
        if n <= 0 {
            break;
        }
        let n = n as usize;
        for (i, ch) in buf[..n].chunks(PG).enumerate() {
            if ch.iter().any(|&b| b != 0) {
                img.pages.push((pos + (i * PG) as u64, Rc::new(ch.to_vec())));
            }
        }
        pos += n as u64;
    }
    img
}
pub fn image(path: &Path) -> Option<FileImg> {
    let p = format!("{}\0", path.to_str()?);
    let fd = unsafe { raw6(2, p.as_ptr() as usize, 0, 0, 0, 0, 0) };
    if fd < 0 {
        return None;
    }
    let len = unsafe { raw6(8, fd as usize, 0, 2, 0, 0, 0) };
    let img = image_fd(fd as c_int, len.max(0) as u64);
    unsafe { raw6(3, fd as usize, 0, 0, 0, 0, 0) };
    Some(img)
}
pub fn names(dir: &Path) -> Vec<(String, u64)> {
    use std::os::unix::fs::DirEntryExt;
    let mut v: Vec<(String, u64)> = std::fs::read_dir(dir)
        .map(|rd| {
            rd.filter_map(|e| e.ok())
                .filter(|e| e.file_type().map(|t| t.is_file()).unwrap_or(false))
                .map(|e| (e.file_name().to_string_lossy().to_string(), e.ino()))
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}
pub fn take(dir: &Path) -> Snap {
    let mut s = Snap::default();
    for (n, _) in names(dir) {
        let p = format!("{}\0", dir.join(&n).to_str().unwrap());
        let fd = unsafe { raw6(2, p.as_ptr() as usize, 0, 0, 0, 0, 0) };
        if fd < 0 {
            continue;
        }
        let len = unsafe { raw6(8, fd as usize, 0, 2, 0, 0, 0) };
        let img = image_fd(fd as c_int, len.max(0) as u64);
        unsafe { raw6(3, fd as usize, 0, 0, 0, 0, 0) };
        s.files.push((n, img));
    }
    s
}
