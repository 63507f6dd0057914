//! Runs one script under the scheduler, records its events, judges nothing.
use crate::hooks::{self, ctl};
use crate::ops::*;
use crate::snap::{self, Snap};
use crate::special;
use crate::sym::*;
use candystore::*;
use parking_lot::sched::{self, Strategy};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_shard: u32,
    pub thr: u32,
    pub pre: usize,
    pub locks: u32,
    pub trunc: bool,
    pub clear_unsup: bool,
    pub mlock: bool,
    pub ct: usize,
    pub agg: u64,
    pub mask: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { max_shard: 4096, thr: 1024, pre: 0, locks: 4, trunc: false, clear_unsup: false, mlock: false, ct: 1, agg: 0, mask: u64::MAX }
    }
}
impl Cfg {
    pub fn set(&mut self, k: &str, v: &str) {
        let n = || v.parse::<u64>().unwrap();
        match k {
            "max" => self.max_shard = n() as u32,
            "thr" => self.thr = n() as u32,
            "pre" => self.pre = n() as usize,
            "locks" => self.locks = n() as u32,
            "trunc" => self.trunc = v == "1",
            "unsup" => self.clear_unsup = v == "1",
            "mlock" => self.mlock = v == "1",
            "ct" => self.ct = n() as usize,
            "agg" => self.agg = n(),
            "mask" => self.mask = u64::from_str_radix(v, 16).unwrap(),
            _ => panic!("cfg {k}"),
        }
    }
    pub fn show(&self) -> String {
        format!(
            "max={} thr={} pre={} locks={} trunc={} unsup={} mlock={} ct={} agg={} mask={:x}",
            self.max_shard, self.thr, self.pre, self.locks, self.trunc as u8, self.clear_unsup as u8, self.mlock as u8, self.ct,
            self.agg, self.mask
        )
    }
    pub fn config(&self) -> Config {
        #[cfg(feature = "wb")]
        unsafe {
            candystore::HASH_BITS_TO_KEEP = self.mask;
        }
        Config {
            max_shard_size: self.max_shard,
            min_compaction_threashold: self.thr,
            expected_number_of_keys: self.pre,
            max_concurrent_list_ops: self.locks,
            truncate_up: self.trunc,
            clear_on_unsupported_version: self.clear_unsup,
            mlock_headers: self.mlock,
            num_compaction_threads: self.ct,
            #[cfg(feature = "agg")]
            flush_aggregation_delay: if self.agg > 0 { Some(std::time::Duration::from_millis(self.agg)) } else { None },
            ..Default::default()
        }
    }
}

#[derive(Clone, Debug)]
pub enum Phase {
    Seq(Vec<Op>),
    Conc(Vec<Vec<Op>>),
}
#[derive(Clone, Debug)]
pub struct Script {
    pub id: String,
    pub cfg: Cfg,
    pub phases: Vec<Phase>,
    /// scheduling: 0 = never switch unless forced, else Random(p) / PCT
    pub sched: u32,
    pub pct: u32,
    pub seed: u64,
    /// snapshots: probability (of 65536) at each mutation, at most this many, header stores included
    pub snap_p: u32,
    pub snap_max: usize,
    pub stores: bool,
    /// also take snapshots while recovering, with this probability
    pub rec_p: u32,
    /// operations run after each recovery (the store must keep working)
    pub after: Vec<Op>,
    /// fault: fail mutations [at, at+len) counted from the start of the script
    pub fault_at: u64,
    pub fault_len: u64,
    pub fault_errno: i32,
    pub fault_short: bool,
    /// only data syncs are counted and fail
    pub fault_sync: bool,
    /// only the calls of compactions on their targets fail
    pub fault_bg: bool,
    pub track_sync: bool,
    pub dump_end: bool,
    pub stats_dump: bool,
    pub budget: u64,
    /// only that every call returns is of interest
    pub live: bool,
    /// lock operations in this order (caller or 100 + background thread, up to its nth)
    pub guide: Vec<(usize, u32)>,
    /// files placed in the directory before the first open: (name, kind)
    pub files: Vec<(String, String)>,
}
impl Default for Script {
    fn default() -> Self {
        Script {
            id: String::new(), cfg: Cfg::default(), phases: vec![], sched: 0, pct: 0, seed: 1, snap_p: 0, snap_max: 0, stores: false,
            rec_p: 0, after: vec![], fault_at: 0, fault_len: 0, fault_errno: 28, fault_short: false, fault_sync: false, fault_bg: false, track_sync: false, dump_end: true, stats_dump: false,
            budget: 3_000_000, live: false, guide: vec![], files: vec![],
        }
    }
}
impl Script {
    pub fn show(&self) -> String {
        let mut s = format!("id {}\ncfg {}\n", self.id, self.cfg.show());
        s.push_str(&format!(
            "run sched={} pct={} seed={} snap_p={} snap_max={} stores={} rec_p={} fault_at={} fault_len={} errno={} short={} fsync={} fbg={} sync={} dump_end={} st={} budget={} live={}\n",
            self.sched, self.pct, self.seed, self.snap_p, self.snap_max, self.stores as u8, self.rec_p, self.fault_at,
            self.fault_len, self.fault_errno, self.fault_short as u8, self.fault_sync as u8, self.fault_bg as u8, self.track_sync as u8, self.dump_end as u8, self.stats_dump as u8, self.budget, self.live as u8
        ));
        for (n, k) in &self.files {
            s.push_str(&format!("file {n} {k}\n"));
        }
        if !self.guide.is_empty() {
            s.push_str("guide");
            for (t, n) in &self.guide {
                s.push_str(&format!(" {t}:{n}"));
            }
            s.push('\n');
        }
        for p in &self.phases {
            match p {
                Phase::Seq(v) => {
                    s.push_str("seq\n");
                    for o in v {
                        s.push_str(&o.show());
                        s.push('\n');
                    }
                }
                Phase::Conc(ts) => {
                    s.push_str("conc\n");
                    for t in ts {
                        s.push_str("thread\n");
                        for o in t {
                            s.push_str(&o.show());
                            s.push('\n');
                        }
                    }
                }
            }
        }
        if !self.after.is_empty() {
            s.push_str("after\n");
            for o in &self.after {
                s.push_str(&o.show());
                s.push('\n');
            }
        }
        s
    }
    pub fn parse(txt: &str) -> Script {
        let mut s = Script::default();
        let mut after = false;
        for line in txt.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with("//") {
                continue;
            }
            let (w, rest) = line.split_once(' ').unwrap_or((line, ""));
            match w {
                "id" => s.id = rest.into(),
                "cfg" => {
                    for kv in rest.split_whitespace() {
                        let (k, v) = kv.split_once('=').unwrap();
                        s.cfg.set(k, v);
                    }
                }
                "run" => {
                    for kv in rest.split_whitespace() {
                        let (k, v) = kv.split_once('=').unwrap();
                        let n: u64 = v.parse().unwrap();
                        match k {
                            "sched" => s.sched = n as u32,
                            "pct" => s.pct = n as u32,
                            "seed" => s.seed = n,
                            "snap_p" => s.snap_p = n as u32,
                            "snap_max" => s.snap_max = n as usize,
                            "stores" => s.stores = n != 0,
                            "rec_p" => s.rec_p = n as u32,
                            "fault_at" => s.fault_at = n,
                            "fault_len" => s.fault_len = n,
                            "errno" => s.fault_errno = n as i32,
                            "short" => s.fault_short = n != 0,
                            "fbg" => s.fault_bg = n != 0,
                            "fsync" => s.fault_sync = n != 0,
                            "sync" => s.track_sync = n != 0,
                            "dump_end" => s.dump_end = n != 0,
                            "st" => s.stats_dump = n != 0,
                            "budget" => s.budget = n,
                            "live" => s.live = n != 0,
                            _ => panic!("run {k}"),
                        }
                    }
                }
                "file" => {
                    let (n, k) = rest.split_once(' ').unwrap();
                    s.files.push((n.into(), k.into()));
                }
                "guide" => {
                    for x in rest.split_whitespace() {
                        let (t, n) = x.split_once(':').unwrap();
                        s.guide.push((t.parse().unwrap(), n.parse().unwrap()));
                    }
                }
                "seq" => s.phases.push(Phase::Seq(vec![])),
                "conc" => s.phases.push(Phase::Conc(vec![])),
                "thread" => {
                    if let Some(Phase::Conc(v)) = s.phases.last_mut() {
                        v.push(vec![])
                    }
                }
                "after" => after = true,
                _ => {
                    let op = Op::parse(line);
                    if after {
                        s.after.push(op)
                    } else {
                        match s.phases.last_mut() {
                            Some(Phase::Seq(v)) => v.push(op),
                            Some(Phase::Conc(v)) => v.last_mut().unwrap().push(op),
                            None => s.phases.push(Phase::Seq(vec![op])),
                        }
                    }
                }
            }
        }
        s
    }
    fn all_ops(&self) -> Vec<&Op> {
        let mut v = vec![];
        for p in &self.phases {
            match p {
                Phase::Seq(x) => v.extend(x.iter()),
                Phase::Conc(t) => t.iter().for_each(|x| v.extend(x.iter())),
            }
        }
        v.extend(self.after.iter());
        v
    }
}

/// Names the script mentions, so that a dump can look at all of them.
#[derive(Default, Clone)]
pub struct Known {
    pub keys: BTreeSet<String>,
    pub lists: BTreeMap<String, BTreeSet<String>>,
    pub queues: BTreeSet<String>,
    pub bigs: BTreeSet<String>,
}
impl Known {
    pub fn of(s: &Script) -> Known {
        let mut k = Known::default();
        for o in s.all_ops() {
            match o.kind() {
                'k' => {
                    if o.o == "fill" || o.o == "unfill" {
                        k.keys.extend(o.fill_keys());
                    } else {
                        k.keys.insert(o.s("k").into());
                    }
                }
                'l' => {
                    let e = k.lists.entry(o.s("l").into()).or_default();
                    if let Some(x) = o.get("k") {
                        e.insert(x.into());
                    }
                }
                'q' => {
                    k.queues.insert(o.s("q").into());
                }
                'b' => {
                    k.bigs.insert(o.s("k").into());
                }
                _ => {}
            }
        }
        k
    }
}

pub enum Ev {
    Call { t: usize, args: String, res: String },
    Ret { t: usize, note: String },
    Op { args: String, res: String, note: String },
    Raw(String),
}
#[derive(Default)]
pub struct Rec {
    pub ev: Vec<Ev>,
    pub stop: bool,
    /// keys on which a call failed: they may have changed without being synced, and a later call that finds the
    /// value it wants in place has nothing to sync
    pub taint: std::collections::HashSet<String>,
}
struct Cell0(std::cell::UnsafeCell<Option<Rec>>);
unsafe impl Sync for Cell0 {}
static REC: Cell0 = Cell0(std::cell::UnsafeCell::new(None));
pub fn rec() -> &'static mut Rec {
    unsafe { (*REC.0.get()).get_or_insert_with(Rec::default) }
}
fn ev_len() -> usize {
    rec().ev.len()
}

pub struct Env {
    pub base: PathBuf,
    pub out: std::fs::File,
    pub cur: Option<(Script, Vec<String>)>, // script being run, finished crash events (for the hang report)
    pub sum: BTreeMap<String, u64>,
}
struct EnvCell(std::cell::UnsafeCell<Option<Env>>);
unsafe impl Sync for EnvCell {}
static ENV: EnvCell = EnvCell(std::cell::UnsafeCell::new(None));
pub fn env() -> &'static mut Env {
    unsafe { (*ENV.0.get()).as_mut().unwrap() }
}
pub fn set_env(e: Env) {
    unsafe { *ENV.0.get() = Some(e) }
}
pub fn count(k: &str, n: u64) {
    *env().sum.entry(k.into()).or_insert(0) += n;
}

fn note_json(note: &str) -> String {
    if note.is_empty() { String::new() } else { format!(",\"note\":{}", js(note)) }
}
fn render(evs: &[Ev], crashes: &[(usize, String)]) -> String {
    let mut out = vec![];
    let mut ci = 0;
    for (i, e) in evs.iter().enumerate() {
        while ci < crashes.len() && crashes[ci].0 <= i {
            out.push(crashes[ci].1.clone());
            ci += 1;
        }
        out.push(match e {
            Ev::Call { t, args, res } => {
                if res.is_empty() {
                    format!("{{\"e\":\"call\",\"t\":{t},{args}}}")
                } else {
                    format!("{{\"e\":\"call\",\"t\":{t},{args},\"r\":{res}}}")
                }
            }
            Ev::Ret { t, note } => format!("{{\"e\":\"ret\",\"t\":{t}{}}}", note_json(note)),
            Ev::Op { args, res, note } => format!("{{\"e\":\"op\",{args},\"r\":{res}{}}}", note_json(note)),
            Ev::Raw(s) => s.clone(),
        });
    }
    while ci < crashes.len() {
        out.push(crashes[ci].1.clone());
        ci += 1;
    }
    ja(out)
}
fn write_trace(s: &Script, id: &str, cfg: &Cfg, init: Option<&str>, evs: String) {
    use std::io::Write;
    let mut line = format!(
        "{{\"id\":{},\"script\":{},\"cfg\":{{\"maxshard\":{},\"thr\":{},\"pre\":{},\"fault\":{},\"exact\":{},\"live\":{}}},",
        js(id),
        js(&s.id),
        cfg.max_shard.min(i32::MAX as u32),
        cfg.thr.min(i32::MAX as u32),
        cfg.pre,
        if s.fault_at > 0 { "true" } else { "false" },
        if s.phases.iter().all(|p| matches!(p, Phase::Seq(_))) { "true" } else { "false" },
        s.live
    );
    if let Some(d) = init {
        line.push_str(&format!("\"init\":{d},"));
    }
    line.push_str(&format!("\"ev\":{evs}}}\n"));
    env().out.write_all(line.as_bytes()).unwrap();
    count("traces", 1);
}

/// Called when nothing can run any more, or on a fatal signal: what happened so far becomes a trace.
pub fn hang(kind: &str) -> ! {
    hooks::ON.store(false, Ordering::SeqCst);
    let who = if kind == "deadlock" || kind == "livelock" {
        ja(sched::describe().iter().map(|(l, w, sys)| ja([js(if *sys { "system" } else { l }), js(w)])))
    } else {
        "[]".into()
    };
    if let Some((s, crashes)) = env().cur.take() {
        let s = s.clone();
        let mut t = render(&rec().ev, &[]);
        t.pop();
        for c in crashes {
            if t.len() > 1 {
                t.push(',');
            }
            t.push_str(&c);
        }
        if t.len() > 1 {
            t.push(',');
        }
        t.push_str(&format!("{{\"e\":\"hang\",\"kind\":{},\"who\":{who}}}]", js(kind)));
        write_trace(&s, &format!("{}/hang", s.id), &s.cfg, None, t);
    }
    use std::io::Write;
    _ = env().out.flush();
    unsafe {
        sched::raw6(231, 3, 0, 0, 0, 0, 0);
    }
    loop {}
}

fn strategy(s: &Script, rng: &mut Rng) -> Strategy {
    if !s.guide.is_empty() {
        Strategy::Guide(s.guide.clone())
    } else if s.pct > 0 {
        let mut v = vec![];
        for _ in 0..s.pct {
            v.push(rng.below(2500));
        }
        Strategy::Pct(v)
    } else {
        Strategy::Random(s.sched)
    }
}

pub fn reset_ctl(dir: &Path, seed: u64) {
    let c = ctl();
    *c = hooks::Ctl::default();
    c.dir = dir.to_path_buf();
    c.rng = seed;
    c.snap_ok = true;
    c.event_len = hooks::EvLen(ev_len);
}

pub fn open_store(dir: &Path, cfg: &Cfg) -> std::result::Result<Arc<CandyStore>, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| CandyStore::open(dir, cfg.config())));
    match r {
        Ok(Ok(s)) => Ok(Arc::new(s)),
        Ok(Err(e)) => Err(format!("error: {e:#}")),
        Err(_) => Err(format!("panic: {}", crate::LAST_PANIC.lock().unwrap())),
    }
}

/// As if so many entries had been written and replaced since that each file ends `left` bytes below 4 GB.
fn jump(dir: &Path, left: u64) {
    use std::os::unix::fs::FileExt;
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if !p.file_name().unwrap().to_str().unwrap().starts_with("shard_") {
            continue;
        }
        let f = std::fs::OpenOptions::new().read(true).write(true).open(p).unwrap();
        let mut b = [0u8; 16];
        f.read_exact_at(&mut b, 16).unwrap();
        let n = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        let (wasted, end) = (n(0), n(8));
        let to = (1u64 << 32) - left;
        if end < to {
            f.write_all_at(&(wasted + to - end).to_le_bytes(), 16).unwrap();
            f.write_all_at(&to.to_le_bytes(), 24).unwrap();
        }
    }
}

fn fail_json(m: &str) -> String {
    format!("{{\"fail\":{}}}", js(m))
}
/// Everything the API shows about the known names.
pub fn dump(c: &Ctx, k: &Known, with_stats: bool) -> std::result::Result<String, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dump0(c, k, with_stats)));
    match r {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("error: {e:#}")),
        Err(_) => Err(format!("panic: {}", crate::LAST_PANIC.lock().unwrap())),
    }
}
fn dump0(c: &Ctx, kn: &Known, with_stats: bool) -> Result<String> {
    let mut its = Iters::new();
    let mut get = |op: Op| -> Result<String> {
        let (r, note) = exec(c, &op, &mut its);
        if r.starts_with("[\"err") || r.starts_with("[\"panic") {
            anyhow::bail!("{}: {r} {note}", op.show());
        }
        Ok(r)
    };
    let kv = pairs(c.st.iter(), usize::MAX)?.0;
    let mut g = vec![];
    let mut tk = vec![];
    for k in &kn.keys {
        let typed = k.contains('!');
        let r = get(Op::new(if typed { "tget" } else { "get" }).a("k", k))?;
        let e = ja([js(&key_token(k)), r]);
        if typed {
            tk.push(e)
        } else {
            g.push(e)
        }
    }
    let mut ls = vec![];
    for (l, ks) in &kn.lists {
        let f = get(Op::new("liter").a("l", l))?;
        let b = get(Op::new("literb").a("l", l))?;
        let n = get(Op::new("llen").a("l", l))?;
        let mut gg = vec![];
        for k in ks {
            gg.push(ja([js(&token(&bytes(k))), get(Op::new("lget").a("l", l).a("k", k))?]));
        }
        ls.push(format!("{{\"n\":{},\"f\":{f},\"b\":{b},\"len\":{n},\"g\":{}}}", js(&name_token(l)), ja(gg)));
    }
    let mut qs = vec![];
    for q in &kn.queues {
        let f = get(Op::new("qiter").a("q", q))?;
        let b = get(Op::new("qiterb").a("q", q))?;
        let n = get(Op::new("qlen").a("q", q))?;
        let r = get(Op::new("qrange").a("q", q))?;
        qs.push(format!("{{\"n\":{},\"f\":{f},\"b\":{b},\"len\":{n},\"rng\":{r}}}", js(&name_token(q))));
    }
    let mut bs = vec![];
    for b in &kn.bigs {
        let whole = get(Op::new("bget").a("k", b))?;
        let mut ch = vec![];
        if !b.contains('!') {
            for r in c.st.iter_queue(&bytes(b)) {
                ch.push(js(&token(&r?.1)));
            }
        }
        bs.push(format!("{{\"n\":{},\"w\":{whole},\"c\":{}}}", js(&name_token(b)), ja(ch)));
    }
    let mut s = format!(
        "{{\"kv\":{kv},\"g\":{},\"tk\":{},\"ls\":{},\"qs\":{},\"big\":{}",
        ja(g),
        ja(tk),
        ja(ls),
        ja(qs),
        ja(bs)
    );
    if with_stats {
        let st = c.st.stats();
        let raw = c.st.iter_raw().count();
        s.push_str(&format!(",\"st\":[{},{raw}]", st.num_entries()));
    }
    s.push('}');
    Ok(s)
}

fn stats_json(c: &Ctx) -> Result<String> {
    let st = c.st.stats();
    let mut raw = 0usize;
    let mut rb = 0usize;
    let mut places = vec![];
    for r in c.st.iter_raw() {
        let (k, v) = r?;
        raw += 1;
        rb += k.len() + v.len();
        let (sel, row, _) = placement(&k);
        places.push((sel, row));
    }
    let mut files = 0;
    let mut stray = vec![];
    let mut big = 0u64;
    let mut spans: Vec<(u32, u32)> = vec![];
    for e in std::fs::read_dir(&c.dir)? {
        let e = e?;
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with("shard_") {
            files += 1;
            big = big.max(e.metadata()?.len().saturating_sub(Stats::FILE_HEADER_SIZE as u64));
            let sp = n[6..].split_once('-').map(|(a, b)| (u32::from_str_radix(a, 16), u32::from_str_radix(b, 16)));
            if let Some((Ok(a), Ok(b))) = sp {
                spans.push((a, b));
            }
        } else if n != ".lock" && !n.starts_with("user_") {
            stray.push(js(&n));
        }
    }
    // what each shard holds, and what each two that could be merged hold
    spans.sort();
    let count = |a: u32, b: u32| places.iter().filter(|p| p.0 >= a && p.0 < b).count();
    let sh = ja(spans.iter().map(|&(a, b)| format!("[{a},{b},{}]", count(a, b))));
    let pairs = ja(spans.windows(2).filter(|w| w[0].1 == w[1].0 && w[0].1 - w[0].0 == w[1].1 - w[1].0 && w[0].0 % (2 * (w[0].1 - w[0].0)) == 0).map(|w| {
        let (a, m, b) = (w[0].0, w[0].1, w[1].1);
        let fullest = (0..64).map(|r| places.iter().filter(|p| p.0 >= a && p.0 < b && p.1 == r).count()).max().unwrap_or(0);
        format!("[{},{},{fullest}]", count(a, m), count(m, b))
    }));
    Ok(format!(
        "\"entries\":{},\"raw\":{raw},\"data\":{},\"rawb\":{rb},\"shards\":{},\"files\":{files},\"stray\":{},\"ins\":{},\"upd\":{},\"rem\":{},\"pos\":{},\"neg\":{},\"waste\":{},\"occ\":{},\"comps\":{},\"splits\":{},\"maxfile\":{big},\"hist\":[{},{},{},{},{}],\"wops\":{},\"wbytes\":{},\"sh\":{sh},\"pairs\":{pairs},\"lc\":{},\"ls\":{},\"oth\":[{},{},{}],\"avg\":{},\"req\":{},\"sms\":{},\"tot\":{}",
        st.num_entries(), st.data_bytes(), st.num_shards, ja(stray), st.num_inserts, st.num_updates, st.num_removals,
        st.num_positive_lookups, st.num_negative_lookups, st.wasted_bytes, st.occupied_bytes, st.num_compactions, st.num_splits,
        st.entries_under_128, st.entries_under_1k, st.entries_under_8k, st.entries_under_32k, st.entries_over_32k, st.num_write_ops, st.num_write_bytes,
        st.last_compaction_stats.len(), st.last_split_stats.len(), st.num_collisions, st.num_read_ops, st.num_read_bytes,
        st.average_entry_size(), st.required_num_shards(), st.should_merge_small_shards(), st.total_occupied_bytes()
    ))
}

struct Live {
    c: Option<Ctx>,
    its: Iters,
    cfg: Cfg,
    dir: PathBuf,
    known: Known,
    faults_seen: u64,
    /// a former store that is being dropped meanwhile
    old: Option<std::thread::JoinHandle<()>>,
}

impl Live {
    fn join_old(&mut self) {
        if let Some(h) = self.old.take() {
            _ = h.join();
        }
    }
    /// Opens the store; if it failed because of an injected fault, once more without.
    fn open(&mut self, args: &str) {
        let at = rec().ev.len();
        rec().ev.push(Ev::Call { t: 0, args: args.into(), res: String::new() });
        match open_store(&self.dir, &self.cfg) {
            Ok(st) => {
                self.c = Some(Ctx { st, dir: self.dir.clone() });
                finish(at, 0, args, tag("ok"), String::new());
            }
            Err(e) => {
                finish(at, 0, args, "[\"err\",\"open\"]".into(), e);
                if ctl().faults > self.faults_seen && ctl().fault_at > 0 {
                    ctl().fault_at = 0;
                    rec().ev.push(Ev::Raw("{\"e\":\"nofault\"}".into()));
                    self.open(args);
                } else {
                    rec().stop = true;
                }
            }
        }
        self.faults_seen = ctl().faults;
    }
}

/// One operation of a sequential phase.
fn step(lv: &mut Live, op: &Op, s: &Script) {
    let r = rec();
    if ["reopen", "handover", "stats", "dump", "own"].contains(&op.o.as_str()) {
        lv.join_old();
    }
    match op.o.as_str() {
        // dropped by one thread while another one is already trying to open it
        "handover" => {
            lv.its.clear();
            let st = lv.c.take().unwrap().st;
            let args = reopen_args(&lv.cfg);
            let at = r.ev.len();
            r.ev.push(Ev::Call { t: 0, args: args.clone(), res: String::new() });
            hooks::USER_SPAWN.store(true, Ordering::SeqCst);
            lv.old = Some(std::thread::spawn(move || {
                sched::set_label("drop");
                drop(st);
                sched::set_label("done");
            }));
            for n in 0..=300 {
                if n == 300 {
                    lv.join_old();
                } else {
                    sched::yield_other();
                }
                match open_store(&lv.dir, &lv.cfg) {
                    Ok(st) => {
                        lv.c = Some(Ctx { st, dir: lv.dir.clone() });
                        finish(at, 0, &args, tag("ok"), String::new());
                        break;
                    }
                    Err(e) if e.starts_with("panic") || lv.old.is_none() => {
                        finish(at, 0, &args, "[\"err\",\"open\"]".into(), e);
                        r.stop = true;
                        break;
                    }
                    Err(_) => {}
                }
            }
        }
        "reopen" | "jump" => {
            if op.o != "jump" {
                for (k, v) in &op.f {
                    lv.cfg.set(k, v);
                }
            }
            let nofault = op.get("x").is_some();
            _ = nofault;
            lv.its.clear();
            lv.c = None;
            if op.o == "jump" {
                jump(&lv.dir, op.num("d") as u64);
            }
            lv.open(&reopen_args(&lv.cfg));
        }
        "stats" => {
            let j = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| stats_json(lv.c.as_ref().unwrap())));
            r.ev.push(Ev::Raw(match j {
                Ok(Ok(j)) => format!("{{\"e\":\"stats\",{j}}}"),
                Ok(Err(e)) => format!("{{\"e\":\"bad\",\"why\":{}}}", js(&format!("stats: {e:#}"))),
                Err(_) => format!("{{\"e\":\"bad\",\"why\":{}}}", js(&format!("stats panic: {}", crate::LAST_PANIC.lock().unwrap()))),
            }));
        }
        "dump" => {
            let d = dump(lv.c.as_ref().unwrap(), &lv.known, s.stats_dump).unwrap_or_else(|e| fail_json(&e));
            r.ev.push(Ev::Raw(format!("{{\"e\":\"dump\",\"d\":{d}}}")));
        }
        "own" => {
            // a second open of an open directory must fail and change nothing
            for _ in 0..5000 {
                sched::yield_other();
            }
            let how = op.num("how");
            let mut held = None;
            if how == 4 {
                // another process holds the store
                lv.its.clear();
                lv.c = None;
                held = special::hold(&lv.dir, &lv.cfg);
            }
            let before = snap::take(&lv.dir).hash();
            let cfg2 = Cfg { max_shard: op.get("max").map_or(lv.cfg.max_shard, |x| x.parse().unwrap()), ..lv.cfg.clone() };
            let dir2 = match how {
                1 => lv.dir.join("."),
                2 => lv.dir.join("..").join(lv.dir.file_name().unwrap()),
                3 => {
                    let ln = lv.dir.parent().unwrap().join("ln");
                    _ = std::fs::remove_file(&ln);
                    std::os::unix::fs::symlink(&lv.dir, &ln).unwrap();
                    ln
                }
                _ => lv.dir.clone(),
            };
            let ok = if how == 5 {
                special::other_process_opens(&lv.dir, &lv.cfg) == Some(false)
            } else {
                let r2 = open_store(&dir2, &cfg2);
                let ok = r2.is_err() && !r2.as_ref().err().unwrap().starts_with("panic");
                drop(r2);
                ok
            };
            let same = snap::take(&lv.dir).hash() == before;
            r.ev.push(Ev::Raw(format!("{{\"e\":\"own\",\"how\":{how},\"refused\":{ok},\"same\":{same}}}")));
            if how == 4 {
                // ... and is killed
                let ok = held.is_some();
                drop(held);
                if !ok {
                    r.ev.push(Ev::Raw("{\"e\":\"bad\",\"why\":\"another process cannot open the store after it was dropped\"}".into()));
                    r.stop = true;
                } else {
                    lv.open(&reopen_args(&lv.cfg));
                }
            }
        }
        "foreign" => {
            lv.its.clear();
            lv.c = None;
            let mut rng = Rng::new(op.num("n") as u64);
            let kept = special::foreign(&lv.dir, &mut rng);
            lv.open(&reopen_args(&lv.cfg));
            special::remove_dirs();
            let same = kept.iter().all(|(n, img)| special::image(&lv.dir.join(n)).as_ref() == Some(img));
            r.ev.push(Ev::Raw(format!("{{\"e\":\"foreign\",\"opened\":{},\"same\":{same}}}", lv.c.is_some())));
        }
        "corrupt" => {
            lv.its.clear();
            lv.c = None;
            let mut rng = Rng::new(op.num("n") as u64);
            let Some((name, span, orig)) = special::corrupt(&lv.dir, &mut rng, op.num("how")) else {
                lv.open(&reopen_args(&lv.cfg));
                return;
            };
            let path = lv.dir.join(&name);
            let before = special::image(&path);
            let cfg2 = Cfg { clear_unsup: false, ..lv.cfg.clone() };
            let r2 = open_store(&lv.dir, &cfg2);
            let refused = r2.is_err() && !r2.as_ref().err().unwrap().starts_with("panic");
            let opened = r2.is_ok();
            drop(r2);
            let same = opened || special::image(&path) == before;
            r.ev.push(Ev::Raw(format!("{{\"e\":\"refuse\",\"refused\":{refused},\"same\":{same}}}")));
            if opened {
                // accepting it anyway: nothing left to compare
                r.stop = true;
                return;
            }
            if op.num("clear") == 1 {
                let cfg3 = Cfg { clear_unsup: true, ..lv.cfg.clone() };
                let keys: Vec<String> = lv
                    .known
                    .keys
                    .iter()
                    .filter(|k| {
                        let mut b = bytes(k);
                        b.push(1);
                        let p = placement(&b).0;
                        span.0 <= p && p < span.1
                    })
                    .map(|k| js(&key_token(k)))
                    .collect();
                match open_store(&lv.dir, &cfg3) {
                    Ok(st) => {
                        lv.c = Some(Ctx { st, dir: lv.dir.clone() });
                        r.ev.push(Ev::Raw(format!("{{\"e\":\"wiped\",\"opened\":true,\"keys\":{}}}", ja(keys))));
                    }
                    Err(e) => {
                        r.ev.push(Ev::Raw(format!("{{\"e\":\"wiped\",\"opened\":false,\"keys\":[],\"note\":{}}}", js(&e))));
                        r.stop = true;
                    }
                }
            } else {
                snap::write_img(&path, &orig);
                lv.open(&reopen_args(&lv.cfg));
            }
        }
        "nofault" => {
            ctl().fault_at = 0;
            r.ev.push(Ev::Raw("{\"e\":\"nofault\"}".into()));
        }
        "room" => {
            // how far the files are filled, without asking the store, which would look after its compactions first
            let (mut end, mut left) = (0, 0);
            for e in std::fs::read_dir(&lv.dir).unwrap() {
                let p = e.unwrap().path();
                let n = p.file_name().unwrap().to_str().unwrap().to_string();
                if n.starts_with("shard_") || n.starts_with("compact_") {
                    use std::os::unix::fs::FileExt;
                    let mut b = [0u8; 8];
                    _ = std::fs::File::open(&p).and_then(|f| f.read_exact_at(&mut b, 24));
                    end = end.max(u64::from_le_bytes(b));
                    left += n.starts_with("compact_") as u64;
                }
            }
            r.ev.push(Ev::Raw(format!("{{\"e\":\"room\",\"end\":{},\"left\":{left}}}", end.min(i32::MAX as u64))));
        }
        "drain" => {
            // let background work finish
            for _ in 0..2000 {
                sched::yield_other();
            }
        }
        _ => {
            let args = op.args_json();
            let at = r.ev.len();
            let nocrash = op.o == "lprom" && false;
            if nocrash {
                ctl().snap_ok = false;
            }
            r.ev.push(Ev::Call { t: 0, args: args.clone(), res: String::new() });
            let from = if s.track_sync { since(&lv.dir) } else { Since(vec![], 0) };
            let (res, note) = exec(lv.c.as_ref().unwrap(), op, &mut lv.its);
            if nocrash {
                ctl().snap_ok = true;
            }
            count_res(op, &res);
            if res.contains("panic") {
                r.stop = true;
            }
            let f = ctl().faults;
            let flt = f > lv.faults_seen;
            lv.faults_seen = f;
            let args2 = if flt { format!("{args},\"flt\":{}", 1) } else { args };
            let changed = settles(op, &res);
            let failed = res.starts_with("[\"err\"");
            finish(at, 0, &args2, res, note);
            if s.track_sync && op.o == "flush" && !failed {
                powerloss(from, 0, None);
            } else if s.track_sync && lv.cfg.agg > 0 && changed {
                powerloss(from, 0, Some(op.s("k").to_string()));
            }
        }
    }
}
/// Was what the call did synced when it returned (with flush aggregation)?
fn settles(op: &Op, res: &str) -> bool {
    let Some(k) = op.get("k") else { return false };
    if res.starts_with("[\"err\"") {
        rec().taint.insert(k.to_string());
    }
    op.changed(res) && !rec().taint.contains(k)
}
fn reopen_args(c: &Cfg) -> String {
    format!("\"o\":\"reopen\",\"maxshard\":{},\"thr\":{},\"pre\":{}", c.max_shard.min(i32::MAX as u32), c.thr.min(i32::MAX as u32), c.pre)
}
fn count_res(op: &Op, _res: &str) {
    count(&format!("op.{}", op.o), 1);
}
/// Close the event opened at `at`: one atomic event if nothing happened in between.
fn finish(at: usize, t: usize, args: &str, res: String, note: String) {
    let r = rec();
    let snapped = ctl().snaps.last().is_some_and(|x| x.0 > at);
    if r.ev.len() == at + 1 && !snapped && matches!(r.ev[at], Ev::Call { t: t0, .. } if t0 == t) {
        r.ev[at] = Ev::Op { args: args.to_string(), res, note };
    } else {
        if let Ev::Call { res: rr, args: aa, .. } = &mut r.ev[at] {
            *rr = res;
            *aa = args.to_string();
        }
        r.ev.push(Ev::Ret { t, note });
    }
}

/// Remember what a power loss at this moment would leave: judged after the run.
pub struct Pl {
    at: usize,
    t: usize,
    dirs: Vec<Snap>,
    key: Option<String>,
}
struct PlCell(std::cell::UnsafeCell<Vec<Pl>>);
unsafe impl Sync for PlCell {}
static PLS: PlCell = PlCell(std::cell::UnsafeCell::new(vec![]));
fn pls() -> &'static mut Vec<Pl> {
    unsafe { &mut *PLS.0.get() }
}
/// The directory now, and where its further changes will be found.
struct Since(Vec<(String, u64)>, usize);
fn since(dir: &Path) -> Since {
    Since(snap::names(dir), ctl().dirlog.len())
}
/// The directory may be found as at any moment since the call began, each file with what its last sync wrote.
fn powerloss(from: Since, t: usize, key: Option<String>) {
    let mut vs = vec![from.0];
    vs.extend(ctl().dirlog[from.1..].iter().cloned());
    vs.dedup();
    if vs.len() > 14 {
        vs.drain(7..vs.len() - 7);
    }
    let dirs = vs.iter().map(|v| hooks::synced_dir(v)).collect();
    let at = rec().ev.len();
    rec().ev.push(Ev::Raw(String::new()));
    pls().push(Pl { at, t, dirs, key });
}

pub fn run_script(s: &Script) {
    let base = env().base.clone();
    let dir = base.join("d");
    _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    *rec() = Rec::default();
    pls().clear();
    env().cur = Some((s.clone(), vec![]));
    let mut rng = Rng::new(s.seed);
    for (n, k) in &s.files {
        crate::place_file(&dir, n, k);
    }
    reset_ctl(&dir, s.seed);
    {
        let c = ctl();
        c.snap_p = s.snap_p;
        c.snap_max = s.snap_max;
        c.stores = s.stores;
        c.fault_at = s.fault_at;
        c.fault_len = s.fault_len;
        c.fault_errno = s.fault_errno;
        c.fault_short = s.fault_short;
        c.fault_sync = s.fault_sync;
        c.fault_bg = s.fault_bg;
        if s.track_sync {
            c.sync = Some(Default::default());
        }
    }
    sched::begin(s.seed, strategy(s, &mut rng), s.budget, hang);
    sched::set_label("t0");
    hooks::ON.store(true, Ordering::SeqCst);
    let known = Known::of(s);
    let mut lv = Live { c: None, its: Iters::new(), cfg: s.cfg.clone(), dir: dir.clone(), known: known.clone(), faults_seen: 0, old: None };
    // creation is an event of its own (crash during creation)
    lv.open("\"o\":\"reopen\"");
    for p in &s.phases {
        if rec().stop {
            break;
        }
        match p {
            Phase::Seq(ops) => {
                for o in ops {
                    step(&mut lv, o, s);
                    if rec().stop {
                        break;
                    }
                }
            }
            Phase::Conc(ts) => {
                lv.join_old();
                conc(&mut lv, ts, s)
            }
        }
    }
    if s.dump_end && !rec().stop && lv.c.is_some() {
        ctl().fault_at = 0;
        step(&mut lv, &Op::new("dump"), s);
    }
    // the store as a process death right now would leave it, with background work still running
    if s.snap_p > 0 && !rec().stop {
        hooks::snapshot_now("end of script");
    }
    let snaps = std::mem::take(&mut ctl().snaps);
    {
        let c = ctl();
        c.snap_p = 0;
        c.stores = false;
        c.fault_at = 0;
    }
    let stopped = rec().stop;
    lv.its.clear();
    lv.join_old();
    lv.c = None;
    hooks::ON.store(false, Ordering::SeqCst);
    let left = sched::drain();
    if left > 0 && !stopped {
        hang("deadlock");
    }
    let (steps, switches) = sched::end();
    count("sched.steps", steps);
    count("sched.switches", switches);
    let (m, ren, fl) = (ctl().muts, ctl().renames, ctl().faults);
    count("mutations", m);
    count("renames", ren);
    count("faults", fl);
    count("scripts", 1);
    // recover every snapshot
    let mut crashes: Vec<(usize, String)> = vec![];
    let mut children = vec![];
    let main_ev = std::mem::take(&mut rec().ev);
    for (i, (at, what, sn)) in snaps.iter().enumerate() {
        env().cur.as_mut().unwrap().1 = vec![format!("{{\"e\":\"recovering\",\"at\":{at},\"what\":{}}}", js(what))];
        rec().ev.clear();
        let mut cfg = lv.cfg.clone();
        if s.phases.iter().all(|p| matches!(p, Phase::Seq(v) if v.iter().all(|o| o.o != "reopen"))) {
            cfg = s.cfg.clone();
        }
        let out = recover(s, &known, &cfg, sn, s.seed ^ (i as u64 + 1), s.rec_p > 0, true);
        for (j, (d, extra)) in out.dumps.iter().enumerate() {
            crashes.push((*at, format!("{{\"e\":\"crash\",\"what\":{},\"d\":{d}}}", js(&format!("{what}{extra}")))));
            if j == 0 {
                if let Some(evs) = &out.child {
                    children.push((format!("{}/{i}", s.id), d.clone(), evs.clone(), cfg.clone()));
                }
            }
        }
    }
    rec().ev = main_ev;
    // power loss images
    for p in std::mem::take(pls()) {
        rec().ev[p.at] = Ev::Raw(String::new());
        let main_ev = std::mem::take(&mut rec().ev);
        let mut ds = vec![];
        for sn in &p.dirs {
            let out = recover(s, &known, &lv.cfg, sn, s.seed, false, false);
            ds.push(out.dumps[0].0.clone());
        }
        rec().ev = main_ev;
        count("powerloss", 1);
        rec().ev[p.at] = Ev::Raw(match &p.key {
            None => format!("{{\"e\":\"pl\",\"t\":{},\"d\":{}}}", p.t, ja(ds)),
            Some(k) => format!("{{\"e\":\"plk\",\"k\":{},\"d\":{}}}", js(&key_token(k)), ja(ds)),
        });
    }
    count("crashes", crashes.len() as u64);
    count("events", rec().ev.len() as u64);
    write_trace(s, &s.id, &s.cfg, None, render(&rec().ev, &crashes));
    for (id, d, evs, cfg) in children {
        write_trace(s, &id, &cfg, Some(&d), evs);
    }
    env().cur = None;
}

struct Recovered {
    dumps: Vec<(String, String)>,
    child: Option<String>,
}
/// Open what a crash left, look at everything, keep working on it.
fn recover(s: &Script, known: &Known, cfg: &Cfg, sn: &Snap, seed: u64, nested: bool, go_on: bool) -> Recovered {
    let dir = env().base.join("r");
    _ = std::fs::remove_dir_all(&dir);
    sn.restore(&dir);
    reset_ctl(&dir, seed);
    if nested {
        let c = ctl();
        c.snap_p = s.rec_p;
        c.snap_max = 6;
        c.stores = s.stores;
    }
    let mut rng = Rng::new(seed);
    sched::begin(seed, strategy(s, &mut rng), s.budget, hang);
    sched::set_label("recovery");
    hooks::ON.store(true, Ordering::SeqCst);
    let mut out = Recovered { dumps: vec![], child: None };
    let mut lv = Live { c: None, its: Iters::new(), cfg: cfg.clone(), dir: dir.clone(), known: known.clone(), faults_seen: 0, old: None };
    let mut nested_snaps = vec![];
    match open_store(&dir, cfg) {
        Ok(st) => {
            nested_snaps = std::mem::take(&mut ctl().snaps);
            ctl().snap_p = 0;
            lv.c = Some(Ctx { st, dir: dir.clone() });
            match dump(lv.c.as_ref().unwrap(), known, s.stats_dump) {
                Ok(d) => out.dumps.push((d, String::new())),
                Err(e) => {
                    out.dumps.push((fail_json(&e), String::new()));
                    rec().stop = true;
                }
            }
        }
        Err(e) => {
            out.dumps.push((fail_json(&e), String::new()));
        }
    }
    if go_on && lv.c.is_some() && !s.after.is_empty() && !rec().stop {
        let main_ev = std::mem::take(rec());
        for o in &s.after {
            step(&mut lv, o, s);
            if rec().stop {
                break;
            }
        }
        if !rec().stop {
            step(&mut lv, &Op::new("dump"), s);
        }
        out.child = Some(render(&rec().ev, &[]));
        *rec() = main_ev;
    }
    lv.its.clear();
    lv.join_old();
    lv.c = None;
    hooks::ON.store(false, Ordering::SeqCst);
    sched::drain();
    sched::end();
    rec().stop = false;
    for (_, what, sn2) in nested_snaps {
        let o2 = recover(s, known, cfg, &sn2, seed ^ 77, false, false);
        count("nested crashes", 1);
        out.dumps.push((o2.dumps[0].0.clone(), format!("; again during recovery {what}")));
    }
    out
}

fn conc(lv: &mut Live, ts: &[Vec<Op>], s: &Script) {
    let c = lv.c.as_ref().unwrap();
    let mut hs = vec![];
    if !s.guide.is_empty() {
        sched::log_on(1 << 16);
        sched::guide_on();
    }
    for (i, ops) in ts.iter().enumerate() {
        let ops = ops.clone();
        let ctx = Ctx { st: c.st.clone(), dir: c.dir.clone() };
        let t = i + 1;
        let sync = s.track_sync;
        let agg = lv.cfg.agg > 0;
        hooks::USER_SPAWN.store(true, Ordering::SeqCst);
        hs.push(std::thread::spawn(move || {
            let mut its = Iters::new();
            for op in &ops {
                if rec().stop {
                    break;
                }
                sched::set_label(&format!("t{t}:{}", op.show()));
                let args = op.args_json();
                if op.o == "stats" {
                    // only that it returns without panic; numbers are for quiet moments
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        _ = ctx.st.stats();
                    }));
                    if r.is_err() {
                        rec().ev.push(Ev::Raw(format!("{{\"e\":\"bad\",\"why\":{}}}", js(&format!("stats panic: {}", crate::LAST_PANIC.lock().unwrap())))));
                        rec().stop = true;
                    }
                    continue;
                }
                let at = rec().ev.len();
                rec().ev.push(Ev::Call { t, args: args.clone(), res: String::new() });
                let from = if sync { since(&ctx.dir) } else { Since(vec![], 0) };
                sched::yield_point();
                let (res, note) = exec(&ctx, op, &mut its);
                count_res(op, &res);
                if res.contains("panic") {
                    rec().stop = true;
                }
                let pl_flush = sync && op.o == "flush" && !res.starts_with("[\"err\"");
                let pl_key = sync && agg && settles(op, &res);
                finish(at, t, &args, res, note);
                if pl_flush {
                    powerloss(from, t, None);
                } else if pl_key {
                    powerloss(from, t, Some(op.s("k").to_string()));
                }
                sched::yield_point();
            }
            sched::set_label("done");
        }));
    }
    for h in hs {
        _ = h.join();
    }
    if !s.guide.is_empty() {
        sched::log_off();
    }
}
