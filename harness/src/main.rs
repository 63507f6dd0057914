mod gen;
mod hooks;
mod locks;
mod ops;
mod run;
mod snap;
mod special;
mod sym;

use run::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: locks::Alloc = locks::Alloc;

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn place_file(dir: &Path, name: &str, kind: &str) {
    special::place_file(dir, name, kind)
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn scratch(tag: &str) -> PathBuf {
    let root = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm" } else { "/tmp" };
    let p = PathBuf::from(format!("{root}/cv.{}.{tag}", std::process::id()));
    match std::fs::create_dir_all(&p) {
        Ok(_) => p,
        Err(_) => {
            let p = PathBuf::from(format!("/tmp/cv.{}.{tag}", std::process::id()));
            std::fs::create_dir_all(&p).unwrap();
            p
        }
    }
}

/// Scripts of a run: generated (profile, seed, index) or read from a file.
fn source(a: &[String]) -> Box<dyn Fn(u64) -> Option<Script>> {
    if let Some(f) = arg(a, "--file") {
        let txt = std::fs::read_to_string(f).unwrap();
        let v: Vec<Script> = txt.split("\n====\n").filter(|x| !x.trim().is_empty()).map(Script::parse).collect();
        Box::new(move |i| v.get(i as usize).cloned())
    } else {
        let prof = arg(a, "--prof").expect("--prof or --file");
        let seed = num(a, "--seed", 1);
        let n = num(a, "--n", 100);
        Box::new(move |i| if i < n { Some(gen::script(&prof, seed, i)) } else { None })
    }
}

fn worker(a: &[String]) {
    let src = source(a);
    let from = num(a, "--from", 0);
    let step = num(a, "--step", 1);
    let secs = num(a, "--secs", 100000);
    let out = arg(a, "--out").unwrap();
    let f = std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
    let base = PathBuf::from(arg(a, "--base").unwrap());
    std::fs::create_dir_all(&base).unwrap();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    set_env(Env { base: base.clone(), out: f, cur: None, sum: BTreeMap::new() });
    hooks::install(hang);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = format!("{loc} {m}");
        if std::env::var("CV_VERBOSE").is_ok() {
            eprintln!("panic {loc} {m}");
        }
    }));
    let t0 = Instant::now();
    let mut i = from;
    while let Some(s) = src(i) {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        std::fs::write(format!("{out}.p"), format!("{i}")).unwrap();
        if s.id.starts_with("C23L") {
            locks::run(&s);
        } else {
            run_script(&s);
        }
        // numbers so far, for the evidence
        let mut t = String::new();
        for (k, v) in &env().sum {
            t.push_str(&format!("{k} {v}\n"));
        }
        _ = std::fs::write(format!("{out}.sum.{from}"), t);
        i += step;
    }
    std::fs::write(format!("{out}.p"), "done").unwrap();
    _ = std::fs::remove_dir_all(&base);
}

fn supervise(a: &[String]) {
    let workers = num(a, "--workers", 8);
    let out = PathBuf::from(arg(a, "--out").unwrap());
    std::fs::create_dir_all(&out).unwrap();
    let stall = num(a, "--stall", 60);
    let secs = num(a, "--secs", 100000);
    let base = scratch("w");
    let src = source(a);
    let t0 = Instant::now();
    struct W {
        child: std::process::Child,
        last: String,
        since: Instant,
        done: bool,
        restarts: u32,
    }
    let exe = std::env::current_exe().unwrap();
    let spawn = |w: u64, from: u64| {
        let left = secs.saturating_sub(t0.elapsed().as_secs());
        let mut c = Command::new(&exe);
        c.arg("worker");
        for k in ["--prof", "--seed", "--n", "--file"] {
            if let Some(v) = arg(a, k) {
                c.args([k, &v]);
            }
        }
        c.args(["--from", &from.to_string(), "--step", &workers.to_string(), "--secs", &left.to_string()]);
        c.args(["--out", out.join(format!("t{w}")).to_str().unwrap()]);
        c.args(["--base", base.join(format!("{w}")).to_str().unwrap()]);
        c.stdin(Stdio::null());
        c.spawn().unwrap()
    };
    let mut ws: Vec<W> = (0..workers)
        .map(|w| W { child: spawn(w, w), last: String::new(), since: Instant::now(), done: false, restarts: 0 })
        .collect();
    loop {
        let mut alive = false;
        for w in 0..workers {
            let x = &mut ws[w as usize];
            if x.done {
                continue;
            }
            alive = true;
            let p = std::fs::read_to_string(out.join(format!("t{w}.p"))).unwrap_or_default();
            if p != x.last {
                x.last = p.clone();
                x.since = Instant::now();
            }
            let mut ended = x.child.try_wait().unwrap();
            let mut kind = "died";
            if ended.is_none() && x.since.elapsed() > Duration::from_secs(stall) {
                _ = x.child.kill();
                ended = Some(x.child.wait().unwrap());
                kind = "timeout";
            }
            if let Some(st) = ended {
                if st.success() && p == "done" {
                    x.done = true;
                    continue;
                }
                let idx: u64 = p.parse().unwrap_or(w);
                if st.code() != Some(3) {
                    if let Some(s) = src(idx) {
                        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(out.join(format!("t{w}"))).unwrap();
                        _ = writeln!(
                            f,
                            "\n{{\"id\":\"{}/{kind}\",\"script\":\"{}\",\"cfg\":{{\"maxshard\":0,\"thr\":0,\"pre\":0,\"fault\":false,\"exact\":false}},\"ev\":[{{\"e\":\"hang\",\"kind\":\"{kind} {st}\",\"who\":[]}}]}}",
                            s.id, s.id
                        );
                    }
                }
                x.restarts += 1;
                if x.restarts > 40 {
                    x.done = true;
                    continue;
                }
                x.child = spawn(w, idx + workers);
                x.since = Instant::now();
                x.last = String::new();
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // total
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    for e in std::fs::read_dir(&out).unwrap().flatten() {
        if e.file_name().to_string_lossy().contains(".sum.") {
            for l in std::fs::read_to_string(e.path()).unwrap().lines() {
                let (k, v) = l.rsplit_once(' ').unwrap();
                *sum.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap();
            }
            _ = std::fs::remove_file(e.path());
        }
    }
    let mut f = std::fs::File::create(out.join("summary")).unwrap();
    for (k, v) in &sum {
        _ = writeln!(f, "{k} {v}");
    }
    _ = std::fs::remove_dir_all(&base);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&a),
        Some("run") => supervise(&a),
        Some("show") => {
            let src = source(&a);
            let from = num(&a, "--idx", 0);
            if let Some(id) = arg(&a, "--id") {
                let mut i = 0;
                while let Some(s) = src(i) {
                    if s.id == id {
                        print!("{}", s.show());
                    }
                    i += 1;
                }
            } else if let Some(s) = src(from) {
                print!("{}", s.show());
            }
        }
        Some("special") => special::main(&a),
        _ => eprintln!("cv run|show|worker|special"),
    }
}
