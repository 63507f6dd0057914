//! Seeded script generation, one profile per property (letters after the property id select variants).
use crate::ops::Op;
use crate::run::*;
use crate::sym::*;

struct G {
    r: Rng,
    n: u64,
    /// what the script last stored, to aim expected values (rough: only sequential effects)
    last: std::collections::HashMap<String, String>,
    keys: Vec<String>,
    lists: Vec<String>,
    items: Vec<String>,
    queues: Vec<String>,
    bigs: Vec<String>,
    vmax: u64,
    idx: i64,
}

impl G {
    fn new(seed: u64) -> G {
        G {
            r: Rng::new(seed), n: 0, last: Default::default(), keys: vec![], lists: vec![], items: vec![], queues: vec![], bigs: vec![],
            vmax: 60, idx: 0,
        }
    }
    /// a fresh value, so that every write can be told apart
    fn val(&mut self) -> String {
        self.n += 1;
        let n = self.n;
        match self.r.below(10) {
            0 if n > 3 => "~".into(),
            1..=4 => format!("v{n}"),
            5 if self.vmax > 100 => format!("@{}.{n}", (*self.r.pick(&[128u64, 1024, 8192, 32768]) - self.r.below(8)).min(self.vmax)),
            _ => format!("@{}.{n}", self.r.range(8, self.vmax.max(9))),
        }
    }
    fn key(&mut self) -> String {
        self.r.pick(&self.keys.clone()).clone()
    }
    /// a value for what has one, sometimes one that differs in a single bit
    fn tvn(&mut self, typed: bool, k: &str) -> String {
        if let Some(v) = self.last.get(k).cloned() {
            if !typed && v.starts_with('@') && self.r.chance(15) {
                return self.near(&v);
            }
        }
        self.tv(typed)
    }
    fn near(&mut self, v: &str) -> String {
        let base = v.split('^').next().unwrap();
        let n: u64 = base[1..].split('.').next().unwrap().parse().unwrap();
        let at = match self.r.below(4) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => self.r.below(n),
        };
        format!("{base}^{at}")
    }
    fn expect(&mut self, k: &str) -> Option<String> {
        if let Some(v) = self.last.get(k).cloned() {
            if v.starts_with('@') && self.r.chance(8) {
                return Some(self.near(&v));
            }
        }
        match self.r.below(4) {
            0 => None,
            1 => Some(self.val()),
            _ => Some(self.last.get(k).cloned().unwrap_or("v1".into())),
        }
    }
    fn wkey(&mut self, w: &[(u64, &'static str)]) -> &'static str {
        let t: u64 = w.iter().map(|x| x.0).sum();
        let mut x = self.r.below(t);
        for (n, s) in w {
            if x < *n {
                return s;
            }
            x -= n;
        }
        unreachable!()
    }
    fn kv(&mut self) -> Op {
        let k = self.key();
        let o = self.wkey(&[(8, "set"), (4, "get"), (1, "has"), (4, "rem"), (4, "rep"), (3, "goc")]);
        self.kv_op(o, k)
    }
    fn kv_op(&mut self, o: &str, k: String) -> Op {
        let typed = k.contains('!');
        let name = if typed { format!("t{o}") } else { o.to_string() };
        let op = Op::new(&name).a("k", &k);
        match o {
            "set" => {
                let v = if self.r.chance(10) { self.last.get(&k).cloned().unwrap_or("v1".into()) } else { self.tvn(typed, &k) };
                self.last.insert(k, v.clone());
                op.a("v", v)
            }
            "goc" => {
                let v = self.tv(typed);
                self.last.entry(k).or_insert(v.clone());
                op.a("v", v)
            }
            "rep" => {
                let v = self.tvn(typed, &k);
                let x = self.expect(&k);
                let hit = x.is_none() || self.last.get(&k) == x.as_ref();
                if hit && self.last.contains_key(&k) {
                    self.last.insert(k, v.clone());
                }
                let op = op.a("v", v);
                match x {
                    Some(x) if !(typed && x.starts_with('@')) => op.a("x", x),
                    _ => op,
                }
            }
            "rem" => {
                self.last.remove(&k);
                op
            }
            _ => op,
        }
    }
    fn tv(&mut self, typed: bool) -> String {
        if typed {
            self.n += 1;
            format!("v{}", self.n)
        } else {
            self.val()
        }
    }
    fn lst(&mut self, crash: bool) -> Op {
        let l = self.r.pick(&self.lists.clone()).clone();
        let o = self.wkey(&[
            (14, "lset"), (4, "lprom"), (6, "lrep"), (4, "lgoc"), (4, "lget"), (1, "lhas"), (7, "lrem"), (3, "lpopH"), (3, "lpopT"),
            (2, "lpeekH"), (2, "lpeekT"), (3, "liter"), (3, "literb"), (2, "llen"), (1, "ldisc"), (2, "lcomp"),
        ]);
        let o = if crash && (o == "lprom" || o == "lcomp") { "lset" } else { o };
        self.lst_op(o, l)
    }
    fn lst_op(&mut self, o: &str, l: String) -> Op {
        let typed = l.contains('!');
        let k = self.r.pick(&self.items.clone()).clone();
        let lk = format!("{l}/{k}");
        let op = Op::new(o).a("l", &l);
        match o {
            "lset" | "lprom" | "lgoc" => {
                let v = self.tvn(typed, &lk);
                self.last.insert(lk, v.clone());
                op.a("k", k).a("v", v)
            }
            "lrep" => {
                let v = self.tvn(typed, &lk);
                let x = self.expect(&lk);
                if self.last.contains_key(&lk) {
                    self.last.insert(lk, v.clone());
                }
                let op = op.a("k", k).a("v", v);
                match x {
                    Some(x) if !(typed && x.starts_with('@')) => op.a("x", x),
                    _ => op,
                }
            }
            "lget" | "lhas" | "lrem" => op.a("k", k),
            "lcomp" => {
                let (min, pct) = *self.r.pick(&[(0, 0), (0, 25), (3, 25), (1, 50), (2, 1)]);
                op.a("min", min).a("pct", pct)
            }
            _ => op,
        }
    }
    fn que(&mut self) -> Op {
        let q = self.r.pick(&self.queues.clone()).clone();
        let o = self.wkey(&[
            (9, "qpushH"), (9, "qpushT"), (5, "qpopH"), (5, "qpopT"), (6, "qrem"), (4, "qext"), (2, "qpeekH"), (2, "qpeekT"),
            (2, "qlen"), (2, "qrange"), (3, "qiter"), (3, "qiterb"), (1, "qdisc"),
        ]);
        self.que_op(o, q)
    }
    fn que_op(&mut self, o: &str, q: String) -> Op {
        let typed = q.contains('!');
        let o = if typed && matches!(o, "qrem" | "qext" | "qdisc") { "qpopT" } else { o };
        let op = Op::new(o).a("q", &q);
        match o {
            "qpushH" | "qpushT" => {
                let v = self.tv(typed);
                op.a("v", v)
            }
            "qrem" => {
                let i = self.r.range(0, 9) as i64 - 3 + self.idx;
                op.a("i", i)
            }
            "qext" => {
                let n = *self.r.pick(&[0, 1, 2, 3, 5]);
                let vs: Vec<String> = (0..n).map(|_| self.tv(true)).collect();
                op.a("vs", vs.join(","))
            }
            "qpopH" | "qpopT" | "qpeekH" | "qpeekT" if self.r.chance(25) => op.a("noidx", 1),
            _ => op,
        }
    }
    fn big(&mut self, sizes: &[u64]) -> Op {
        let k = self.r.pick(&self.bigs.clone()).clone();
        let op = Op::new(*self.r.pick(&["bset", "bset", "bget", "bget", "brem"])).a("k", &k);
        if op.o == "bset" {
            self.n += 1;
            let n = *self.r.pick(sizes);
            let v = if k.contains('!') { format!("v{}", self.n) } else if n == 0 { "~".into() } else { format!("@{n}.{}", self.n) };
            op.a("v", v)
        } else {
            op
        }
    }
    fn names(&mut self, k: u64, l: u64, i: u64, q: u64) {
        self.keys = (0..k).map(|i| format!("k{i}")).collect();
        self.lists = (0..l).map(|i| format!("L{i}")).collect();
        self.items = (0..i).map(|i| format!("i{i}")).collect();
        self.queues = (0..q).map(|i| format!("Q{i}")).collect();
    }
}

/// keys of one row (whatever shard), for the given suffix that the store appends
fn same_row(r: &mut Rng, n: usize, suffix: &[u8], shard_top_bits: Option<(u32, u32)>) -> Vec<String> {
    let row = r.below(64) as u32;
    row_keys(r, row, n, suffix, shard_top_bits)
}
fn row_keys(r: &mut Rng, row: u32, n: usize, suffix: &[u8], shard_top_bits: Option<(u32, u32)>) -> Vec<String> {
    let mut v = vec![];
    let mut i = r.below(1 << 40);
    while v.len() < n {
        i += 1;
        let k = format!("r{i:x}");
        let mut b = k.clone().into_bytes();
        b.extend_from_slice(suffix);
        let p = placement(&b);
        if p.1 == row && shard_top_bits.map_or(true, |(m, x)| p.0 & m == x) {
            v.push(k);
        }
    }
    v
}
// Plain keys (default seed) that agree on shard bits, row and signature are rare; these were searched for.
include!("colliding.rs");

fn small_cfg(r: &mut Rng) -> Cfg {
    Cfg {
        max_shard: *r.pick(&[700, 1000, 1500, 2500, 4000, 16000]),
        thr: *r.pick(&[60, 120, 250, 500, 1000]),
        pre: *r.pick(&[0, 0, 0, 0, 40000, 100000]),
        locks: *r.pick(&[1, 4, 5, 64]),
        trunc: r.chance(25),
        mlock: r.chance(10),
        ct: *r.pick(&[1, 1, 2, 4]),
        ..Default::default()
    }
}
fn sched_of(s: &mut Script, r: &mut Rng) {
    if r.chance(30) {
        s.pct = *r.pick(&[2, 3, 5]);
    } else {
        s.sched = *r.pick(&[8, 24, 64, 128]);
    }
}

pub fn script(prof: &str, seed: u64, i: u64) -> Script {
    let sd = mix(mix(seed) ^ hash(prof.as_bytes()) ^ mix(i.wrapping_mul(7919)));
    let mut g = G::new(sd);
    let mut s = Script { id: format!("{prof}-{seed}-{i}"), seed: sd, ..Default::default() };
    s.cfg = small_cfg(&mut g.r);
    let (p, var) = if prof.len() > 3 { (&prof[..3], &prof[3..]) } else { (prof, "") };
    match p {
        "C01" if var == "j" => c01j(&mut g, &mut s),
        "C01" => c01(&mut g, &mut s, var),
        "C02" => c02(&mut g, &mut s),
        "C03" => c03(&mut g, &mut s),
        "C04" => c04(&mut g, &mut s),
        "C05" => c05(&mut g, &mut s),
        "C06" => c06(&mut g, &mut s),
        "C07" => c07(&mut g, &mut s),
        "C08" => c08(&mut g, &mut s),
        "C09" => c09(&mut g, &mut s, var),
        "C10" => c10(&mut g, &mut s),
        "C11" => c11(&mut g, &mut s),
        "C12" => c12(&mut g, &mut s),
        "C13" => c13(&mut g, &mut s),
        "C14" => c14(&mut g, &mut s),
        "C15" => c15(&mut g, &mut s),
        "C16" => c16(&mut g, &mut s),
        "C17" => c17(&mut g, &mut s),
        "C18" => c18(&mut g, &mut s),
        "C19" => c19(&mut g, &mut s),
        "C20" => c20(&mut g, &mut s),
        "C21" => c21(&mut g, &mut s),
        "C22" => c22(&mut g, &mut s),
        "C23" if var == "L" => c23l(&mut g, &mut s),
        "C23" => c23(&mut g, &mut s),
        "C24" => {
            c24(&mut g, &mut s, var);
            if var == "f" {
                // syncs fail
                s.fault_sync = true;
                s.fault_at = g.r.range(1, 30);
                s.fault_len = *g.r.pick(&[1, 1, 2, 4]);
                s.fault_errno = *g.r.pick(&[28, 5]);
                s.phases.push(Phase::Seq(vec![Op::new("nofault"), Op::new("dump"), Op::new("reopen")]));
            }
        }
        "C25" => c25(&mut g, &mut s),
        "C26" if var == "c" => c26c(&mut g, &mut s),
        "C26" if var == "d" => c26d(&mut g, &mut s),
        "C26" if var == "g" => c26g(&mut g, &mut s),
        "C26" if var == "y" => c26y(&mut g, &mut s),
        "C26" if var == "z" => c26z(&mut g, &mut s),
        "C26" => {
            c26(&mut g, &mut s);
            if var == "x" {
                // the process dies, too
                s.snap_p = *g.r.pick(&[3000, 10000]);
                s.snap_max = 8;
                s.rec_p = *g.r.pick(&[0, 8000]);
            }
        }
        _ => panic!("profile {prof}"),
    }
    // stores into the mapped headers as scheduling points, too
    if matches!(p, "C02" | "C08" | "C10" | "C13" | "C18" | "C19" | "C20" | "C23" | "C25") && Rng::new(sd ^ 0x5709e5).chance(20) {
        s.stores = true;
    }
    s
}

/// files whose ends come near the largest offset there is
fn c01j(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(1, 3);
    g.names(nk, 0, 0, 0);
    g.vmax = 60;
    s.cfg.max_shard = *g.r.pick(&[u32::MAX, u32::MAX, 1 << 31, 4000]);
    s.cfg.thr = *g.r.pick(&[u32::MAX, u32::MAX, u32::MAX - 1000, 1 << 31, 1000]);
    s.cfg.pre = *g.r.pick(&[0, 0, 0, 100_000]);
    let mut v = vec![];
    for _ in 0..g.r.range(1, 3) {
        for _ in 0..g.r.range(1, 6) {
            let op = g.kv();
            v.push(op);
        }
        v.push(Op::new("jump").a("d", g.r.range(300, 600)));
        // an insertion into each shard notices the garbage
        for k in g.keys.clone() {
            let op = g.kv_op("set", k);
            v.push(op);
        }
        v.push(Op::new("drain"));
        for _ in 0..g.r.range(8, 40) {
            let op = g.kv();
            v.push(op);
        }
        v.push(Op::new("dump"));
        if g.r.chance(50) {
            v.push(Op::new("reopen"));
            v.push(Op::new("dump"));
        }
    }
    s.phases.push(Phase::Seq(v));
}
fn c01(g: &mut G, s: &mut Script, var: &str) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(3, 14);
    g.names(nk, 1, 3, 1);
    g.vmax = *g.r.pick(&[20, 60, 150]);
    if g.r.chance(10) {
        g.keys.push("~".into());
    }
    if var == "w" {
        // few hash bits: many keys in one row with equal signatures, or equal except for the shard
        s.cfg.mask = *g.r.pick(&[0x0, 0xffff_0000_0000_0000, 0x3f_0000_0006, 0xff, 0x8000_0000_0000_0006, 0x1_0000_0000]);
    } else if g.r.chance(35) {
        let k = *g.r.pick(COLLIDING);
        g.keys.truncate(3);
        g.keys.extend(k.iter().map(|x| x.to_string()));
        g.keys.extend(ZERO_SIG.iter().map(|x| x.to_string()));
    }
    let mut v = vec![];
    let row_full = var.is_empty() && g.r.chance(6);
    if row_full {
        // more keys of one row than the row has slots
        let ks = same_row(&mut g.r, 516, &[1], None);
        s.cfg.max_shard = 1_000_000;
        s.cfg.thr = 1_000_000;
        s.cfg.pre = 0;
        g.keys = ks[500..].iter().cloned().collect();
        let n = g.r.range(505, 513) as usize;
        v.push(Op::new("fill").a("kvs", ks[..n].join(",")).a("w", 0));
    }
    let mut n = g.r.range(30, 90);
    if !row_full && var.is_empty() && g.r.chance(4) {
        // as large as entries may be
        s.cfg.max_shard = *g.r.pick(&[82_000, 200_000, 600_000]);
        s.cfg.thr = *g.r.pick(&[20_000, 150_000, 400_000]);
        s.cfg.pre = 0;
        g.vmax = *g.r.pick(&[40_000, 65_280]);
        for (i, l) in [16_128, 16_127, 8_191, 8_192, 255, 256].iter().enumerate() {
            if g.r.chance(50) {
                g.keys.push(format!("@{l}.{i}"));
            }
        }
        n = g.r.range(10, 30);
    }
    for _ in 0..n {
        let op = match g.r.below(100) {
            0..=84 => g.kv(),
            85..=88 => Op::new("merge").a("f", "0.4"),
            89..=90 => Op::new("flush"),
            91..=93 => Op::new("iter"),
            94 if !row_full => {
                let a = g.r.below(20);
                Op::new("fill").a("kvs", format!("f:{a}:{}", a + g.r.range(3, 30))).a("w", g.r.range(10, 60))
            }
            95 if !row_full => {
                let a = g.r.below(20);
                Op::new("unfill").a("ks", format!("f:{a}:{}", a + g.r.range(3, 30)))
            }
            96 => Op::new("reopen"),
            97 => Op::new("clear"),
            98 => Op::new("drain"),
            _ => g.kv(),
        };
        if op.o == "clear" {
            g.last.clear();
        }
        v.push(op);
    }
    s.phases.push(Phase::Seq(v));
}
fn prefill(g: &mut G, n: u64) -> Vec<Op> {
    (0..n)
        .map(|_| {
            let k = g.key();
            g.kv_op("set", k)
        })
        .collect()
}
fn c02(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(1, 5);
    g.names(nk, 1, 3, 1);
    g.vmax = *g.r.pick(&[20, 80, 200]);
    s.cfg.max_shard = *g.r.pick(&[300, 500, 700, 1200, 4000]);
    s.cfg.thr = *g.r.pick(&[30, 60, 120, 250]);
    let mut v = vec![];
    if g.r.chance(40) {
        let a = g.r.range(2, 20);
        v.push(Op::new("fill").a("kvs", format!("f:0:{a}")).a("w", g.r.range(10, 60)));
    }
    let n = g.r.below(12);
    v.extend(prefill(g, n));
    s.phases.push(Phase::Seq(v));
    let nt = g.r.range(2, 4);
    let mut ts = vec![];
    for t in 0..nt {
        let n = g.r.range(3, if nt == 2 { 9 } else { 6 });
        ts.push(
            (0..n)
                .map(|_| match g.r.below(30) {
                    0 if t == 0 => Op::new("merge").a("f", "0.4"),
                    1 => Op::new("flush"),
                    2 => Op::new("stats"),
                    _ => g.kv(),
                })
                .collect(),
        );
    }
    s.phases.push(Phase::Conc(ts));
}
fn cfg_change(g: &mut G, op: Op) -> Op {
    let mut op = op;
    for (k, vs) in [
        ("max", &["600", "1000", "2500", "20000"][..]),
        ("thr", &["60", "300", "5000"]),
        ("pre", &["0", "50000", "120000"]),
        ("locks", &["1", "16"]),
        ("trunc", &["0", "1"]),
        ("mlock", &["0", "1"]),
        ("ct", &["1", "3"]),
    ] {
        if g.r.chance(40) {
            op = op.a(k, *g.r.pick(vs));
        }
    }
    op
}
fn any_op(g: &mut G) -> Op {
    match g.r.below(10) {
        0..=3 => g.kv(),
        4..=6 => g.lst(false),
        7..=8 => g.que(),
        _ => g.big(&[0, 10, 300]),
    }
}
fn c03(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.names(6, 2, 4, 2);
    g.bigs = vec!["B0".into(), "u32!9".into()];
    g.keys.push("u32!7".into());
    g.keys.push("str!k0".into());
    g.vmax = *g.r.pick(&[20, 60, 150]);
    s.cfg.max_shard = *g.r.pick(&[1000, 1500, 2500, 4000]);
    let mut v = vec![];
    let rounds = g.r.range(1, 4);
    for _ in 0..rounds {
        for _ in 0..g.r.range(5, 30) {
            let op = any_op(g);
            v.push(op);
        }
        v.push(Op::new("dump"));
        // make the drop follow a write that starts a compaction
        if g.r.chance(50) {
            let k = g.key();
            for _ in 0..g.r.range(3, 25) {
                let op = g.kv_op("set", k.clone());
                v.push(op);
            }
        }
        let r = cfg_change(g, Op::new("reopen"));
        v.push(r);
        v.push(Op::new("dump"));
        if g.r.chance(30) {
            v.push(Op::new("reopen"));
            v.push(Op::new("dump"));
        }
    }
    s.phases.push(Phase::Seq(v));
}
fn c04(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(2, 7);
    g.names(nk, 1, 3, 1);
    g.keys.push("u32!7".into());
    g.vmax = *g.r.pick(&[20, 60, 150]);
    let conc = g.r.chance(40);
    let n = g.r.range(8, 30);
    let v: Vec<Op> = (0..n).map(|_| g.kv()).collect();
    s.phases.push(Phase::Seq(v));
    if conc {
        let ts = (0..2).map(|_| (0..g.r.range(3, 8)).map(|_| g.kv()).collect()).collect();
        s.phases.push(Phase::Conc(ts));
    }
    s.stores = g.r.chance(70);
    s.snap_p = *g.r.pick(&[1500, 4000, 12000]);
    s.snap_max = 10;
    if g.r.chance(50) {
        s.after = (0..8).map(|_| g.kv()).collect();
    }
}
fn c05(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(4, 12);
    g.names(nk, 1, 3, 1);
    g.vmax = *g.r.pick(&[60, 100, 150]);
    s.cfg.max_shard = *g.r.pick(&[500, 700, 1000]);
    s.cfg.thr = *g.r.pick(&[60, 120, 250, 400]);
    s.cfg.pre = *g.r.pick(&[0, 0, 40000]);
    let mut v = vec![];
    if g.r.chance(50) {
        v.push(Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(5, 25))).a("w", g.r.range(20, 60)));
        if g.r.chance(50) {
            v.push(Op::new("unfill").a("ks", "f:0:12"));
        }
        v.push(Op::new("merge").a("f", "0.4"));
    }
    let n = g.r.range(6, 25);
    for _ in 0..n {
        v.push(match g.r.below(12) {
            0 => Op::new("merge").a("f", "0.4"),
            1 => Op::new("drain"),
            _ => {
                let k = g.key();
                let o = *g.r.pick(&["set", "set", "set", "rem", "goc", "get"]);
                g.kv_op(o, k)
            }
        });
    }
    s.phases.push(Phase::Seq(v));
    s.stores = g.r.chance(50);
    s.snap_p = *g.r.pick(&[800, 2000, 5000]);
    s.snap_max = 10;
    s.rec_p = *g.r.pick(&[0, 6000, 20000]);
    if g.r.chance(40) {
        s.after = (0..6).map(|_| g.kv()).collect();
        s.after.push(Op::new("reopen"));
    }
}
fn c06(g: &mut G, s: &mut Script) {
    g.names(6, 1, 3, 1);
    g.vmax = 60;
    s.sched = 16;
    s.cfg.max_shard = *g.r.pick(&[700, 4000]);
    s.cfg.pre = *g.r.pick(&[0, 30000, 60000, 60000, 120000, 240000]);
    let mut v = vec![];
    let n = g.r.below(14);
    v.extend(prefill(g, n));
    v.push(Op::new("clear"));
    v.extend(prefill(g, 2));
    s.phases.push(Phase::Seq(v));
    s.stores = g.r.chance(60);
    s.snap_p = *g.r.pick(&[8000, 20000]);
    s.snap_max = 14;
    s.rec_p = *g.r.pick(&[0, 10000]);
    s.after = (0..10).map(|_| g.kv()).collect();
    s.after.push(Op::new("reopen"));
}
fn c07(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.names(8, 1, 3, 1);
    g.keys.push("u32!7".into());
    if g.r.chance(40) {
        g.keys.push("~".into());
    }
    g.vmax = *g.r.pick(&[20, 60]);
    s.cfg.max_shard = *g.r.pick(&[400, 700, 1500]);
    s.cfg.pre = *g.r.pick(&[0, 0, 40000, 100000]);
    let mut v = vec![];
    for _ in 0..g.r.range(3, 8) {
        for _ in 0..g.r.range(0, 9) {
            let op = match g.r.below(10) {
                0 => g.lst(false),
                1 => g.que(),
                _ => g.kv(),
            };
            v.push(op);
        }
        match g.r.below(6) {
            0 => v.push(Op::new("merge").a("f", "0.4")),
            1 => v.push(Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(1, 40))).a("w", g.r.range(1, 60))),
            2 => v.push(Op::new("reopen")),
            3 => v.push(Op::new("unfill").a("ks", format!("f:0:{}", g.r.range(1, 40)))),
            _ => {}
        }
        if g.r.chance(50) {
            v.push(Op::new("iter"));
        }
        let n = g.r.range(0, 4);
        let at: Vec<String> = (0..n).map(|_| g.r.below(8).to_string()).collect();
        v.push(Op::new("iterc").a("at", at.join(",")));
    }
    s.phases.push(Phase::Seq(v));
}
fn c08(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(4, 10);
    g.names(nk, 1, 3, 1);
    g.vmax = *g.r.pick(&[30, 80, 150]);
    s.cfg.max_shard = *g.r.pick(&[400, 700, 1200]);
    s.cfg.thr = *g.r.pick(&[30, 60, 150]);
    s.cfg.pre = *g.r.pick(&[0, 0, 40000]);
    let mut v = vec![];
    // a few entries sharing a row, so that repacking a row matters
    if g.r.chance(60) {
        let bits = if g.r.chance(50) { None } else { Some((0x8000, if g.r.chance(50) { 0 } else { 0x8000 })) };
        let n = g.r.range(3, 6) as usize;
        let ks = same_row(&mut g.r, n, &[1], bits);
        g.keys.truncate(3);
        g.keys.extend(ks);
    }
    let ks = g.keys.clone();
    for k in ks {
        if g.r.chance(85) {
            let op = g.kv_op("set", k);
            v.push(op);
        }
    }
    let conc = g.r.chance(50);
    if !conc {
        for id in 0..g.r.range(1, 3) {
            v.push(Op::new("itb").a("id", id));
            let mut left = g.r.range(4, 14);
            while left > 0 {
                left -= 1;
                for _ in 0..g.r.below(4) {
                    let op = match g.r.below(12) {
                        0 => Op::new("merge").a("f", "0.4"),
                        1 => Op::new("drain"),
                        _ => g.kv(),
                    };
                    v.push(op);
                }
                v.push(Op::new("itn").a("id", id));
            }
            for _ in 0..30 {
                v.push(Op::new("itn").a("id", id));
            }
        }
        s.phases.push(Phase::Seq(v));
    } else {
        let k0 = g.key();
        for _ in 0..g.r.below(4) {
            let op = g.kv_op("set", k0.clone());
            v.push(op);
        }
        s.phases.push(Phase::Seq(v));
        let mut a = vec![Op::new("itb").a("id", 7)];
        for _ in 0..14 {
            a.push(Op::new("itn").a("id", 7));
        }
        let mut ts = vec![a];
        for _ in 0..g.r.range(1, 2) {
            ts.push(
                (0..g.r.range(3, 10))
                    .map(|_| match g.r.below(12) {
                        0 => Op::new("merge").a("f", "0.4"),
                        _ => g.kv(),
                    })
                    .collect(),
            );
        }
        s.phases.push(Phase::Conc(ts));
    }
}
fn c09(g: &mut G, s: &mut Script, var: &str) {
    sched_of(s, &mut g.r);
    let (nl, ni) = (g.r.range(1, 3), g.r.range(2, 7));
    g.names(3, nl, ni, 1);
    if g.r.chance(25) {
        g.lists.push(if g.r.chance(50) { "u32!5".into() } else { "str!L0".into() });
        g.items = g.items.iter().map(|x| x.replace('i', "j")).collect();
    }
    if var == "w" {
        // items whose hashes collide (colliding list names would share a 64-bit hash: out of scope)
        g.lists.truncate(1);
        s.cfg.mask = *g.r.pick(&[0x0, 0xffff_0000_0000_0000, 0x3f_0000_0006, 0x7f, 0x8000_0000_0000_0006]);
    }
    g.vmax = *g.r.pick(&[20, 60]);
    let n = g.r.range(25, 70);
    let mut v = vec![];
    for _ in 0..n {
        let op = match g.r.below(40) {
            0 => Op::new("reopen"),
            1 => Op::new("merge").a("f", "0.4"),
            2 => g.kv(),
            3 => Op::new("dump"),
            4 | 5 => Op::new("stats"),
            _ => g.lst(false),
        };
        v.push(op);
    }
    s.phases.push(Phase::Seq(v));
}
fn c10(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let (nl, ni) = (g.r.range(1, 2), g.r.range(1, 4));
    g.names(3, nl, ni, 1);
    s.cfg.locks = *g.r.pick(&[1, 4, 64]);
    g.vmax = 20;
    s.cfg.max_shard = *g.r.pick(&[900, 1500, 4000, 4000]);
    let n = g.r.below(12);
    let mut v = vec![];
    for _ in 0..n {
        let o = *g.r.pick(&["lset", "lset", "lset", "lrem"]);
        let l = g.r.pick(&g.lists.clone()).clone();
        v.push(g.lst_op(o, l));
    }
    s.phases.push(Phase::Seq(v));
    let nt = g.r.range(2, 3);
    let ts = (0..nt)
        .map(|_| {
            (0..g.r.range(2, if nt == 2 { 7 } else { 5 }))
                .map(|_| loop {
                    let op = g.lst(false);
                    if !matches!(op.o.as_str(), "liter" | "literb" | "llen") {
                        break op;
                    }
                })
                .collect()
        })
        .collect();
    s.phases.push(Phase::Conc(ts));
    s.phases.push(Phase::Seq(vec![Op::new("dump"), g.lst(false), g.lst(false)]));
}
fn c11(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let (nl, ni) = (g.r.range(1, 2), g.r.range(2, 6));
    g.names(3, nl, ni, 1);
    g.vmax = 30;
    s.cfg.max_shard = *g.r.pick(&[1500, 4000, 4000, 16000]);
    let n = g.r.range(6, 24);
    let mut v = vec![];
    for _ in 0..n {
        let op = g.lst(true);
        v.push(op);
    }
    s.phases.push(Phase::Seq(v));
    if g.r.chance(25) {
        let ts = (0..2).map(|_| (0..4).map(|_| loop {
            let op = g.lst(true);
            if !matches!(op.o.as_str(), "liter" | "literb" | "llen") {
                break op;
            }
        }).collect()).collect();
        s.phases.push(Phase::Conc(ts));
    }
    s.stores = g.r.chance(60);
    s.snap_p = *g.r.pick(&[3000, 8000, 16000]);
    s.snap_max = 10;
    s.after = (0..12).map(|_| g.lst(false)).collect();
    if g.r.chance(30) {
        s.after.push(Op::new("reopen"));
    }
}
fn c12(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nq = g.r.range(1, 3);
    g.names(3, 1, 3, nq);
    if g.r.chance(25) {
        g.queues.push("u32!5".into());
    }
    g.vmax = *g.r.pick(&[20, 60]);
    let n = g.r.range(25, 70);
    let mut v = vec![];
    for _ in 0..n {
        let op = match g.r.below(40) {
            0 => Op::new("reopen"),
            1 => Op::new("merge").a("f", "0.4"),
            2 => g.kv(),
            3 => Op::new("dump"),
            4 | 5 => Op::new("stats"),
            _ => g.que(),
        };
        if op.o == "qpushT" {
            g.idx += if g.r.chance(30) { 1 } else { 0 };
        }
        if op.o == "qdisc" {
            g.idx = 0;
        }
        v.push(op);
    }
    s.phases.push(Phase::Seq(v));
}
fn c13(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nq = g.r.range(1, 2);
    g.names(3, 1, 3, nq);
    s.cfg.locks = *g.r.pick(&[1, 4, 64]);
    g.vmax = 20;
    s.cfg.max_shard = *g.r.pick(&[900, 1500, 4000, 4000]);
    let n = g.r.below(8);
    let mut v = vec![];
    for _ in 0..n {
        let o = *g.r.pick(&["qpushT", "qpushH", "qext", "qrem"]);
        let q = g.r.pick(&g.queues.clone()).clone();
        v.push(g.que_op(o, q));
    }
    s.phases.push(Phase::Seq(v));
    let nt = g.r.range(2, 3);
    let ts = (0..nt)
        .map(|_| {
            (0..g.r.range(2, if nt == 2 { 7 } else { 5 }))
                .map(|_| loop {
                    let op = g.que();
                    if !matches!(op.o.as_str(), "qiter" | "qiterb") {
                        break op;
                    }
                })
                .collect()
        })
        .collect();
    s.phases.push(Phase::Conc(ts));
    s.phases.push(Phase::Seq(vec![Op::new("dump"), g.que(), g.que()]));
}
fn c14(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nq = g.r.range(1, 2);
    g.names(3, 1, 3, nq);
    g.bigs = vec!["B0".into()];
    g.vmax = 30;
    s.cfg.max_shard = *g.r.pick(&[1500, 4000, 4000, 200_000]);
    let big = s.cfg.max_shard == 200_000;
    let n = g.r.range(6, 24);
    let mut v = vec![];
    for _ in 0..n {
        let op = if g.r.chance(if big { 40 } else { 10 }) {
            g.big(if big { &[0, 10, 66000, 140000] } else { &[0, 10, 300] })
        } else {
            g.que()
        };
        v.push(op);
    }
    s.phases.push(Phase::Seq(v));
    if g.r.chance(25) {
        let ts = (0..2).map(|_| (0..4).map(|_| loop {
            let op = g.que();
            if !matches!(op.o.as_str(), "qiter" | "qiterb") {
                break op;
            }
        }).collect()).collect();
        s.phases.push(Phase::Conc(ts));
    }
    s.stores = g.r.chance(60);
    s.snap_p = *g.r.pick(&[3000, 8000, 16000]);
    s.snap_max = 10;
    s.after = (0..12).map(|_| if g.r.chance(15) { g.big(&[0, 10, 300]) } else { g.que() }).collect();
    if g.r.chance(30) {
        s.after.push(Op::new("reopen"));
    }
}
fn c15(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.names(3, 1, 3, 1);
    g.bigs = vec!["B0".into(), "B1".into(), "str!B0".into()];
    s.cfg.max_shard = *g.r.pick(&[66000, 200_000, 400_000]);
    s.cfg.thr = *g.r.pick(&[10_000, 100_000, 200_000]);
    let c = crate::ops::MAXV as u64;
    let mut v = vec![];
    for _ in 0..g.r.range(8, 25) {
        let op = match g.r.below(20) {
            0 => Op::new("reopen"),
            1 => g.kv(),
            2 => Op::new("dump"),
            3 => g.que(),
            4 => Op::new("merge").a("f", "0.4"),
            5 | 6 => Op::new("stats"),
            _ => g.big(&[0, 0, 1, 100, c - 1, c, c, c + 1, 2 * c, 2 * c + 5, 3 * c - 1]),
        };
        v.push(op);
    }
    s.phases.push(Phase::Seq(v));
}
fn c16(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    // one name in every space; plain names that are the encodings of the typed ones
    let enc = ["07000000", "0700000003000000", "070000000300000002", "61", "6101", "610300", "0161", "01610f000000", "01610f00000002"];
    g.keys = vec!["a".into(), "u32!7".into(), "i32!7".into(), "str!a".into(), "vec!a".into(), "bool!1".into(), "u8!1".into(), "u64!7".into(), "chr!a".into(), "~".into()];
    for _ in 0..3 {
        let e = *g.r.pick(&enc);
        g.keys.push(format!("%{e}"));
    }
    g.lists = vec!["a".into(), "u32!7".into(), "i32!7".into(), "str!a".into(), "%07000000".into(), "~".into()];
    g.items = vec!["a".into(), "b".into(), "i0".into()];
    g.queues = vec!["a".into(), "u32!7".into(), "i32!7".into(), "str!a".into(), "%07000000".into(), "~".into()];
    if g.r.chance(50) {
        // what the records of the list "a" and the queue "a" are called inside, in every other space
        let hex = |b: &[u8]| format!("%{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
        let ph = placement_bytes(b"a\x03");
        let mut forms: Vec<String> = vec![hex(&ph), hex(&[b"a".as_slice(), &ph].concat()), hex(&[b"i0".as_slice(), &ph].concat())];
        for i in 0..2u64 {
            let idx = ((1u64 << 63) + i).to_le_bytes();
            forms.push(hex(&[ph.as_slice(), &idx].concat()));
            forms.push(hex(&[b"a".as_slice(), &idx].concat()));
        }
        g.keys.truncate(2);
        g.lists.truncate(1);
        g.queues.truncate(1);
        g.keys.extend(forms.iter().cloned());
        for _ in 0..2 {
            g.lists.push(g.r.pick(&forms).clone());
            g.queues.push(g.r.pick(&forms[..1]).clone());
            g.queues.push(g.r.pick(&forms).clone());
        }
        g.queues.dedup();
    } else if g.r.chance(60) {
        // keys of different types with the same encoding
        let fam: &[&str] = match g.r.below(4) {
            0 => &["u8!1", "i8!1", "bool!1", "%01"],
            1 => &["u16!1", "i16!1", "usz!1", "isz!1", "chr!b"],
            2 => &["u32!7", "i32!7", "c0!7", "c1!7", "c2!7", "c3!7", "c4!7"],
            _ => &["u64!7", "i64!7", "u128!7", "i128!7", "uuid!7", "usz!7", "isz!7"],
        };
        let f: Vec<String> = fam.iter().map(|x| x.to_string()).collect();
        g.keys = f.clone();
        g.keys.push("a".into());
        g.lists = f.iter().filter(|_| g.r.chance(60)).cloned().collect();
        g.lists.push(f[0].clone());
        g.queues = f.iter().filter(|_| g.r.chance(60)).cloned().collect();
        g.queues.push(f[1].clone());
        g.lists.dedup();
        g.queues.dedup();
    }
    g.bigs = vec!["u32!8".into(), "big".into()];
    g.vmax = 20;
    s.cfg.max_shard = *g.r.pick(&[1500, 4000]);
    let mut v = vec![];
    for _ in 0..g.r.range(30, 70) {
        let op = match g.r.below(30) {
            0 => Op::new("reopen"),
            1 => Op::new("dump"),
            2 => Op::new("iter"),
            3 => Op::new("merge").a("f", "0.4"),
            4 => Op::new("stats"),
            _ => any_op(g),
        };
        v.push(op);
    }
    v.push(Op::new("iter"));
    s.phases.push(Phase::Seq(v));
}
fn c17(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.names(3, 1, 3, 1);
    g.bigs = vec!["B0".into()];
    s.cfg.max_shard = *g.r.pick(&[400, 1000, 20_000, 81_000, 90_000, 200_000, 200_000, 200_000]);
    s.cfg.thr = 50_000;
    s.cfg.pre = 0;
    let ms = s.cfg.max_shard as u64;
    let mk = 16383 - 255u64;
    let mv = 65535 - 255u64;
    let key_len = |g: &mut G| -> u64 {
        match g.r.below(10) {
            0 => mk,
            1 => mk + 1,
            2 => mk - 1,
            3 => 16383 - g.r.below(12),
            4 => 16384 + g.r.below(3),
            5 => 0,
            6 => g.r.below(mk),
            _ => g.r.below(40),
        }
    };
    let mut v = vec![];
    v.push(Op::new("lset").a("l", "L0").a("k", "i0").a("v", "v0"));
    v.push(Op::new("lset").a("l", "L0").a("k", "i1").a("v", "v1"));
    v.push(Op::new("qpushT").a("q", "Q0").a("v", "v0"));
    v.push(Op::new("set").a("k", "k0").a("v", "v0"));
    v.push(Op::new("bset").a("k", "B0").a("v", "v0"));
    for _ in 0..g.r.range(6, 18) {
        g.n += 1;
        let n = g.n;
        let kl = key_len(g);
        let sum = if g.r.chance(50) { ms } else { 0 };
        let vl = match g.r.below(10) {
            0 => mv,
            1 => mv + 1,
            2 => mv - 1,
            3 => 65535 - g.r.below(12),
            4 => 65536 + g.r.below(3),
            5 => 0,
            6 | 7 if sum > 0 => (sum + 4).saturating_sub(kl + g.r.below(26)),
            _ => g.r.below(2000),
        };
        let vs = if vl == 0 { "~".to_string() } else { format!("@{vl}.{n}") };
        let ks = if kl == 0 { "~".to_string() } else if kl < 6 { "k0".into() } else { format!("@{kl}.{}", g.r.below(2)) };
        let op = match g.r.below(12) {
            0 => Op::new("set").a("k", ks).a("v", vs),
            1 => Op::new("goc").a("k", ks).a("v", vs),
            2 => Op::new("rep").a("k", if g.r.chance(60) { "k0".into() } else { ks }).a("v", vs),
            3 => Op::new("lset").a("l", "L0").a("k", ks).a("v", vs),
            4 => Op::new("lset").a("l", "L0").a("k", "i0").a("v", vs),
            5 => Op::new("lgoc").a("l", if g.r.chance(70) { "L0" } else { "L1" }).a("k", ks).a("v", vs),
            6 => Op::new("lprom").a("l", "L0").a("k", if g.r.chance(50) { "i1".into() } else { ks }).a("v", vs),
            7 => Op::new("lrep").a("l", "L0").a("k", if g.r.chance(80) { "i1".into() } else { ks }).a("v", vs),
            8 => Op::new("qpushT").a("q", if g.r.chance(60) { "Q0".into() } else { ks }).a("v", vs),
            9 => Op::new("qpushH").a("q", if g.r.chance(60) { "Q0".into() } else { ks }).a("v", vs),
            10 => Op::new("qext").a("q", if g.r.chance(70) { "Q0".into() } else { ks }).a("vs", format!("a{n},{vs},b{n}")),
            _ => Op::new("bset").a("k", if g.r.chance(60) || kl < 6 { "B0".into() } else { format!("@{kl}.7") }).a("v", vs),
        };
        v.push(op);
        if g.r.chance(30) {
            v.push(Op::new("dump"));
        }
    }
    s.phases.push(Phase::Seq(v));
}
fn c18(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(4, 10);
    g.names(nk, 1, 4, 1);
    g.vmax = *g.r.pick(&[60, 120]);
    s.cfg.max_shard = *g.r.pick(&[250, 400, 700]);
    s.cfg.thr = *g.r.pick(&[60, 200, 1000]);
    s.cfg.pre = *g.r.pick(&[0, 0, 0, 40000, 100000]);
    let mut v = vec![];
    if g.r.chance(5) {
        // two halves that hold about as many entries of one row as a row has slots
        let (a, b) = (256 + g.r.range(0, 4) as usize, 253 + g.r.range(0, 5) as usize);
        let row = g.r.below(64) as u32;
        let lo = row_keys(&mut g.r, row, a, &[1], Some((0x8000, 0)));
        let hi = row_keys(&mut g.r, row, b, &[1], Some((0x8000, 0x8000)));
        s.cfg.pre = 40000;
        s.cfg.max_shard = 1_000_000;
        s.cfg.thr = 1_000_000;
        let pre = s.cfg.pre;
        v.push(Op::new("fill").a("kvs", lo.join(",")).a("w", 0));
        v.push(Op::new("fill").a("kvs", hi.join(",")).a("w", 0));
        v.push(Op::new("reopen").a("pre", 0));
        for _ in 0..g.r.range(1, 3) {
            v.push(Op::new("stats"));
            v.push(Op::new("merge").a("f", *g.r.pick(&["0.4", "0.0001", "0.0087"])));
            v.push(Op::new("stats"));
            if g.r.chance(50) {
                v.push(Op::new("rem").a("k", g.r.pick(&lo).clone()));
            }
            if g.r.chance(50) {
                v.push(Op::new("rem").a("k", g.r.pick(&hi).clone()));
            }
            if g.r.chance(30) {
                v.push(Op::new("reopen").a("pre", pre));
            }
        }
        v.push(Op::new("dump"));
        v.push(Op::new("reopen"));
        s.phases.push(Phase::Seq(v));
        return;
    }
    for _ in 0..g.r.range(1, 3) {
        // grow shards unevenly, then shrink
        let a = g.r.below(30);
        let b = a + g.r.range(4, 40);
        v.push(Op::new("fill").a("kvs", format!("f:{a}:{b}")).a("w", g.r.range(10, 60)));
        if g.r.chance(50) {
            // many keys in one part of the hash space
            let bits = *g.r.pick(&[(0x8000, 0), (0x8000, 0x8000), (0xc000, 0x4000), (0xe000, 0xa000)]);
            let n = g.r.range(6, 16) as usize;
            let ks = same_row(&mut g.r, n, &[1], Some(bits));
            v.push(Op::new("fill").a("kvs", ks.join(",")).a("w", g.r.range(30, 80)));
            if g.r.chance(70) {
                v.push(Op::new("unfill").a("ks", ks.join(",")));
            }
        }
        if g.r.chance(70) {
            v.push(Op::new("unfill").a("ks", format!("f:{a}:{b}")));
        }
        for _ in 0..g.r.below(8) {
            let op = g.kv();
            v.push(op);
        }
        v.push(Op::new("stats"));
        let f = *g.r.pick(&["0.4", "0.25", "0.49", "0.0001"]);
        v.push(Op::new("merge").a("f", f));
        v.push(Op::new("stats"));
        v.push(Op::new("dump"));
        if g.r.chance(40) {
            v.push(Op::new("reopen"));
            v.push(Op::new("dump"));
        }
    }
    s.phases.push(Phase::Seq(v));
    if g.r.chance(50) {
        let mut ts = vec![vec![Op::new("merge").a("f", "0.4"), g.kv(), Op::new("merge").a("f", "0.4")]];
        for _ in 0..g.r.range(1, 2) {
            ts.push((0..g.r.range(2, 7)).map(|_| g.kv()).collect());
        }
        s.phases.push(Phase::Conc(ts));
        s.phases.push(Phase::Seq(vec![Op::new("dump"), Op::new("reopen")]));
    }
}
fn c19(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.names(5, 2, 3, 1);
    g.bigs = vec!["B0".into()];
    g.vmax = *g.r.pick(&[30, 100]);
    s.cfg.max_shard = *g.r.pick(&[700, 1200, 4000]);
    s.cfg.thr = *g.r.pick(&[30, 60, 150]);
    s.cfg.pre = *g.r.pick(&[0, 0, 40000, 100000]);
    let mut v = vec![];
    for _ in 0..g.r.range(3, 25) {
        let op = any_op(g);
        v.push(op);
    }
    // a compaction is likely running when clear comes
    let k = g.key();
    for _ in 0..g.r.below(8) {
        let op = g.kv_op("set", k.clone());
        v.push(op);
    }
    if g.r.chance(50) {
        v.push(Op::new("clear"));
        v.push(Op::new("stats"));
        v.push(Op::new("dump"));
        if g.r.chance(50) {
            v.push(Op::new("reopen"));
            v.push(Op::new("dump"));
        }
        for _ in 0..6 {
            let op = any_op(g);
            v.push(op);
        }
        s.phases.push(Phase::Seq(v));
    } else {
        s.phases.push(Phase::Seq(v));
        let mut ts = vec![vec![g.kv(), Op::new("clear"), g.kv()]];
        for _ in 0..g.r.range(1, 2) {
            ts.push(
                (0..g.r.range(2, 6))
                    .map(|_| loop {
                        let op = match g.r.below(10) {
                            0..=4 => g.kv(),
                            5..=7 => g.lst(false),
                            _ => g.que(),
                        };
                        if !matches!(op.o.as_str(), "liter" | "literb" | "llen" | "qiter" | "qiterb") {
                            break op;
                        }
                    })
                    .collect(),
            );
        }
        s.phases.push(Phase::Conc(ts));
    }
    s.phases.push(Phase::Seq(vec![Op::new("dump"), Op::new("drain"), Op::new("reopen")]));
}
fn c20(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(3, 10);
    g.names(nk, 1, 4, 1);
    g.bigs = vec!["B0".into()];
    g.vmax = *g.r.pick(&[20, 100]);
    let kind = g.r.below(4);
    let mut v = vec![];
    match kind {
        0 => {
            // nothing restructures: counters are exact
            s.cfg.max_shard = 1_000_000;
            s.cfg.thr = 1_000_000;
            g.vmax = *g.r.pick(&[100, 300, 2_000, 20_000, 40_000]);
            for _ in 0..g.r.range(10, 50) {
                let op = match g.r.below(8) {
                    0 => Op::new("stats"),
                    1 if g.r.chance(15) => Op::new("clear"),
                    _ => g.kv(),
                };
                v.push(op);
            }
        }
        1 => {
            // crash: never too few, never a panic
            for _ in 0..g.r.range(5, 25) {
                let op = if g.r.chance(80) { g.kv() } else { g.lst(true) };
                v.push(op);
            }
            s.snap_p = *g.r.pick(&[3000, 10000]);
            s.snap_max = 10;
            s.stores = true;
            s.stats_dump = true;
            s.rec_p = *g.r.pick(&[0, 8000]);
            s.after = vec![g.kv(), g.kv(), g.kv(), g.kv()];
        }
        _ => {
            for _ in 0..g.r.range(10, 60) {
                let op = match g.r.below(12) {
                    0 | 1 => Op::new("stats"),
                    2 => Op::new("merge").a("f", "0.4"),
                    3 => any_op(g),
                    4 if g.r.chance(30) => Op::new("reopen"),
                    5 if g.r.chance(20) => Op::new("clear"),
                    6 => Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(1, 20))).a("w", g.r.range(1, 60)),
                    7 => Op::new("unfill").a("ks", "f:0:14"),
                    _ => g.kv(),
                };
                v.push(op);
            }
            if kind == 3 {
                s.phases.push(Phase::Seq(std::mem::take(&mut v)));
                let ts = (0..2).map(|_| (0..5).map(|_| g.kv()).collect()).collect();
                s.phases.push(Phase::Conc(ts));
            }
        }
    }
    if kind != 1 {
        v.push(Op::new("stats"));
    }
    s.phases.push(Phase::Seq(v));
}
fn own(g: &mut G) -> Op {
    let how = if g.r.chance(6) { 4 + g.r.below(2) } else { g.r.below(4) };
    let op = Op::new("own").a("how", how);
    if g.r.chance(30) { op.a("max", 9000) } else { op }
}
fn c21(g: &mut G, s: &mut Script) {
    g.names(4, 1, 3, 1);
    s.sched = 32;
    if g.r.chance(60) {
        return c21_race(g, s);
    }
    if g.r.chance(50) {
        return c21_handover(g, s);
    }
    if g.r.chance(30) {
        // the lock file a dead process leaves
        s.snap_p = *g.r.pick(&[500, 3000]);
        s.snap_max = 6;
        s.after = vec![Op::new("own"), g.kv(), Op::new("own")];
    }
    let mut v = vec![];
    for _ in 0..g.r.range(2, 5) {
        for _ in 0..g.r.below(10) {
            let op = any_kv_list(g);
            v.push(op);
        }
        {
            let o = own(g);
            v.push(o);
        }
        v.push(Op::new("dump"));
        if g.r.chance(60) {
            v.push(Op::new("reopen"));
            {
            let o = own(g);
            v.push(o);
        }
        }
        if g.r.chance(20) {
            v.push(Op::new("clear"));
            {
            let o = own(g);
            v.push(o);
        }
        }
        if g.r.chance(20) {
            v.push(Op::new("merge").a("f", "0.4"));
            {
            let o = own(g);
            v.push(o);
        }
        }
    }
    s.phases.push(Phase::Seq(v));
}
/// opened again while it is still being dropped
fn c21_handover(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.vmax = *g.r.pick(&[60, 150]);
    s.cfg.max_shard = *g.r.pick(&[400, 700, 2000]);
    s.cfg.thr = *g.r.pick(&[30, 60, 150]);
    let mut v = vec![];
    if g.r.chance(50) {
        v.push(Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(2, 30))).a("w", g.r.range(10, 60)));
    }
    for _ in 0..g.r.range(1, 4) {
        for _ in 0..g.r.range(2, 14) {
            let op = g.kv();
            v.push(op);
        }
        if g.r.chance(20) {
            v.push(Op::new("merge").a("f", "0.4"));
        }
        v.push(Op::new("handover"));
        for _ in 0..g.r.below(8) {
            let op = g.kv();
            v.push(op);
        }
        v.push(Op::new("dump"));
        if g.r.chance(50) {
            v.push(Op::new("reopen"));
            v.push(Op::new("dump"));
        }
    }
    s.phases.push(Phase::Seq(v));
}
/// other openings are refused in the middle of everything
fn c21_race(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.vmax = *g.r.pick(&[60, 150]);
    s.cfg.max_shard = *g.r.pick(&[400, 700]);
    s.cfg.thr = *g.r.pick(&[60, 150, 1000]);
    let mut v = vec![];
    if g.r.chance(50) {
        v.push(Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(2, 30))).a("w", g.r.range(10, 60)));
    }
    s.phases.push(Phase::Seq(v));
    let mut ts = vec![(0..g.r.range(1, 3)).map(|_| Op::new("open2")).collect::<Vec<_>>()];
    // a fill is many calls in one: it does not go with a clear in between
    let clears = g.r.chance(40);
    for t in 0..g.r.range(1, 2) {
        ts.push(
            (0..g.r.range(3, 9))
                .map(|_| match g.r.below(12) {
                    0 => Op::new("merge").a("f", "0.4"),
                    1 if t == 0 && clears => Op::new("clear"),
                    2 if !clears => Op::new("fill").a("kvs", format!("f:{}:{}", 30 * (t + 1), 30 * (t + 1) + g.r.range(2, 6))).a("w", 60),
                    _ => g.kv(),
                })
                .collect(),
        );
    }
    s.phases.push(Phase::Conc(ts));
    s.phases.push(Phase::Seq(vec![Op::new("dump"), Op::new("reopen"), Op::new("dump")]));
}
fn any_kv_list(g: &mut G) -> Op {
    if g.r.chance(75) { g.kv() } else { g.lst(false) }
}
fn c22(g: &mut G, s: &mut Script) {
    g.names(7, 1, 3, 1);
    g.bigs = vec!["B0".into()];
    s.sched = 32;
    s.cfg.pre = *g.r.pick(&[0, 40000, 100000]);
    s.cfg.max_shard = *g.r.pick(&[700, 4000]);
    g.vmax = *g.r.pick(&[20, 60, 150]);
    let clears = g.r.chance(60);
    let mut v = vec![];
    for _ in 0..g.r.range(5, 25) {
        // lists cannot be told apart by shard: only without wiping
        let op = if clears { g.kv() } else { any_op(g) };
        v.push(op);
    }
    for _ in 0..g.r.range(1, 3) {
        v.push(Op::new("dump"));
        if g.r.chance(70) {
            v.push(Op::new("foreign").a("n", g.r.below(1 << 30)));
            v.push(Op::new("dump"));
            for _ in 0..g.r.below(10) {
                let op = if clears { g.kv() } else { any_op(g) };
                v.push(op);
            }
            if g.r.chance(20) {
                v.push(Op::new("merge").a("f", "0.4"));
            }
        }
        if g.r.chance(80) {
            let c = clears && g.r.chance(70);
            v.push(Op::new("corrupt").a("n", g.r.below(1 << 30)).a("how", g.r.below(11)).a("clear", c as u8));
            v.push(Op::new("dump"));
            for _ in 0..g.r.below(8) {
                let op = if clears { g.kv() } else { any_op(g) };
                v.push(op);
            }
            if c && g.r.chance(40) {
                v.push(Op::new("reopen"));
                v.push(Op::new("dump"));
            }
        }
    }
    s.phases.push(Phase::Seq(v));
}
fn c23(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.names(5, 2, 3, 2);
    g.bigs = vec!["B0".into()];
    g.vmax = *g.r.pick(&[30, 100, 200]);
    s.cfg.max_shard = *g.r.pick(&[300, 500, 900]);
    s.cfg.thr = *g.r.pick(&[30, 60, 150]);
    s.cfg.pre = *g.r.pick(&[0, 0, 40000, 100000]);
    s.cfg.locks = *g.r.pick(&[1, 4]);
    if cfg!(feature = "agg") {
        s.cfg.agg = *g.r.pick(&[1, 5]);
    }
    let mut v = vec![];
    if g.r.chance(60) {
        v.push(Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(4, 30))).a("w", g.r.range(10, 60)));
    }
    if g.r.chance(40) {
        v.push(Op::new("unfill").a("ks", "f:0:20"));
    }
    let n = g.r.below(6);
    v.extend(prefill(g, n));
    s.phases.push(Phase::Seq(v));
    let nt = g.r.range(2, 4);
    let ts = (0..nt)
        .map(|_| {
            (0..g.r.range(3, 8))
                .map(|_| match g.r.below(20) {
                    0 => Op::new("merge").a("f", "0.4"),
                    1 => Op::new("stats"),
                    2 => Op::new("flush"),
                    3 => Op::new("iter"),
                    4 => Op::new("clear"),
                    5..=13 => {
                        let k = g.key();
                        let o = *g.r.pick(&["set", "set", "set", "rem", "goc", "get"]);
                        g.kv_op(o, k)
                    }
                    14..=16 => g.lst(false),
                    17..=18 => g.que(),
                    _ => g.big(&[0, 10]),
                })
                .collect()
        })
        .collect();
    s.phases.push(Phase::Conc(ts));
    s.dump_end = false;
    s.live = true;
}
/// calls before, then calls each of which is run alone to see what locks it takes
fn c23l(g: &mut G, s: &mut Script) {
    g.names(5, 2, 3, 2);
    g.bigs = vec!["B0".into()];
    g.vmax = *g.r.pick(&[30, 100, 200]);
    s.cfg.max_shard = *g.r.pick(&[300, 500, 900, 4000]);
    s.cfg.thr = *g.r.pick(&[30, 60, 150]);
    s.cfg.pre = *g.r.pick(&[0, 0, 0, 40000]);
    s.cfg.locks = *g.r.pick(&[1, 4]);
    s.cfg.ct = *g.r.pick(&[1, 1, 1, 2]);
    s.cfg.mlock = false;
    if cfg!(feature = "agg") {
        s.cfg.agg = *g.r.pick(&[0, 1]);
    }
    let mut v = vec![];
    if g.r.chance(40) {
        v.push(Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(3, 12))).a("w", g.r.range(10, 60)));
    }
    if g.r.chance(30) {
        v.push(Op::new("unfill").a("ks", "f:0:6"));
    }
    for _ in 0..g.r.range(2, 25) {
        let op = any_op(g);
        v.push(op);
    }
    // a compaction is likely waiting to be done
    let k = g.key();
    for _ in 0..g.r.below(6) {
        let op = g.kv_op("set", k.clone());
        v.push(op);
    }
    s.phases.push(Phase::Seq(v));
    let mut c = vec![];
    for _ in 0..9 {
        c.push(any_op(g));
    }
    let k2 = g.key();
    c.push(g.kv_op("set", k));
    c.push(g.kv_op("rem", k2));
    c.push(Op::new("set").a("k", format!("new{}", g.r.below(100))).a("v", "@250.1"));
    c.push(Op::new("set").a("k", format!("new{}", g.r.below(100))).a("v", "@30.1"));
    for (o, p) in [("merge", 70), ("stats", 70), ("flush", 50), ("iter", 50), ("clear", 70)] {
        if g.r.chance(p) {
            c.push(if o == "merge" { Op::new(o).a("f", "0.4") } else { Op::new(o) });
        }
    }
    s.phases.push(Phase::Conc(c.into_iter().map(|o| vec![o]).collect()));
    s.dump_end = false;
    s.live = true;
}
fn c24(g: &mut G, s: &mut Script, _var: &str) {
    sched_of(s, &mut g.r);
    g.names(6, 1, 3, 1);
    g.vmax = *g.r.pick(&[30, 100]);
    s.cfg.max_shard = *g.r.pick(&[500, 900, 4000]);
    s.cfg.thr = *g.r.pick(&[30, 60, 150]);
    s.cfg.pre = *g.r.pick(&[0, 0, 40000]);
    s.track_sync = true;
    let agg = cfg!(feature = "agg");
    if agg {
        s.cfg.agg = 1;
    }
    let mut v = vec![];
    for _ in 0..g.r.range(4, 20) {
        let op = if g.r.chance(if agg { 0 } else { 15 }) { Op::new("flush") } else { g.kv() };
        v.push(op);
    }
    if !agg {
        v.push(Op::new("flush"));
    }
    s.phases.push(Phase::Seq(v));
    if g.r.chance(60) {
        if agg {
            // each thread has keys of its own
            let ts = (0..g.r.range(2, 3))
                .map(|t| {
                    (0..g.r.range(2, 5))
                        .map(|_| {
                            let k = format!("t{t}k{}", g.r.below(2));
                            let o = *g.r.pick(&["set", "set", "rem", "goc", "rep"]);
                            g.kv_op(o, k)
                        })
                        .collect()
                })
                .collect();
            s.phases.push(Phase::Conc(ts));
        } else {
            let mut ts = vec![(0..g.r.range(1, 3)).map(|_| Op::new("flush")).collect::<Vec<_>>()];
            for _ in 0..g.r.range(1, 2) {
                ts.push((0..g.r.range(3, 8)).map(|_| g.kv()).collect());
            }
            s.phases.push(Phase::Conc(ts));
        }
    }
}
fn c25(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(2, 6);
    g.names(nk, 1, 3, 1);
    g.vmax = *g.r.pick(&[20, 60]);
    let single = g.r.chance(60);
    s.cfg.trunc = false;
    s.cfg.pre = 0;
    if single {
        s.cfg.max_shard = *g.r.pick(&[1500, 3000]);
        s.cfg.thr = *g.r.pick(&[100, 300, 600]);
    } else {
        s.cfg.max_shard = *g.r.pick(&[500, 900]);
        s.cfg.thr = *g.r.pick(&[60, 200]);
    }
    let mut v = vec![];
    for _ in 0..g.r.range(20, 70) {
        let k = g.key();
        let o = *g.r.pick(&["set", "set", "set", "set", "rem", "goc", "rep"]);
        let op = g.kv_op(o, k);
        v.push(op);
        v.push(Op::new("stats"));
        if !single && g.r.chance(10) {
            v.push(Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(5, 20))).a("w", 40));
            v.push(Op::new("unfill").a("ks", "f:0:20"));
            v.push(Op::new("merge").a("f", "0.4"));
        }
    }
    s.phases.push(Phase::Seq(v));
}
fn c26(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    g.names(6, 1, 4, 1);
    g.bigs = vec!["B0".into()];
    g.vmax = *g.r.pick(&[30, 100, 150]);
    s.cfg.max_shard = *g.r.pick(&[400, 700, 1500]);
    s.cfg.thr = *g.r.pick(&[60, 150, 400]);
    s.cfg.pre = *g.r.pick(&[0, 0, 40000]);
    let mut v = vec![];
    let n = g.r.range(10, 35);
    let with_struct = g.r.chance(30);
    for _ in 0..n {
        let op = if with_struct && g.r.chance(40) {
            match g.r.below(3) {
                0 => g.lst(true),
                1 => g.que(),
                _ => g.big(&[0, 10, 200]),
            }
        } else {
            match g.r.below(14) {
                0 => Op::new("merge").a("f", "0.4"),
                1 => Op::new("flush"),
                2 => Op::new("drain"),
                _ => g.kv(),
            }
        };
        v.push(op);
    }
    let clears = g.r.chance(25);
    if clears && g.r.chance(30) {
        v.push(Op::new("clear"));
    }
    v.push(Op::new("nofault"));
    v.push(Op::new("dump"));
    if clears {
        // whatever the failures left behind is gone as well
        v.push(Op::new("clear"));
    }
    for _ in 0..8 {
        let op = g.kv();
        v.push(op);
    }
    if clears || g.r.chance(20) {
        v.push(Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(5, 40))).a("w", g.r.range(20, 60)));
        v.push(Op::new("reopen"));
        v.push(Op::new("dump"));
    }
    v.push(Op::new("stats"));
    v.push(Op::new("reopen"));
    s.phases.push(Phase::Seq(v));
    s.fault_at = g.r.range(4, 90);
    s.fault_len = *g.r.pick(&[1, 1, 2, 5, 30]);
    s.fault_errno = *g.r.pick(&[28, 5]);
    s.fault_short = g.r.chance(30);
}
/// something fails while several threads are at work
fn c26c(g: &mut G, s: &mut Script) {
    c02(g, s);
    if let Some(Phase::Conc(ts)) = s.phases.last_mut() {
        for t in ts.iter_mut() {
            t.retain(|o| o.o != "stats");
        }
    }
    let mut v = vec![Op::new("nofault"), Op::new("dump")];
    for _ in 0..g.r.range(2, 10) {
        let op = g.kv();
        v.push(op);
    }
    v.push(Op::new("reopen"));
    s.phases.push(Phase::Seq(v));
    s.fault_at = g.r.range(4, 80);
    s.fault_len = *g.r.pick(&[1, 1, 2, 4, 12]);
    s.fault_errno = *g.r.pick(&[28, 5]);
    s.fault_short = g.r.chance(20);
}
/// failures while several threads work on lists and queues
fn c26d(g: &mut G, s: &mut Script) {
    if g.r.chance(50) {
        c10(g, s);
    } else {
        c13(g, s);
    }
    let Some(last) = s.phases.iter().rposition(|p| matches!(p, Phase::Conc(_))) else { return };
    s.phases.truncate(last + 1);
    if let Some(Phase::Conc(ts)) = s.phases.last_mut() {
        for t in ts.iter_mut() {
            // documented as not crash-safe
            t.retain(|o| !matches!(o.o.as_str(), "stats" | "lcomp" | "lprom"));
        }
    }
    let mut v = vec![Op::new("nofault"), Op::new("dump")];
    for _ in 0..g.r.range(1, 5) {
        let op = g.kv();
        v.push(op);
    }
    v.push(Op::new("reopen"));
    v.push(Op::new("dump"));
    s.phases.push(Phase::Seq(v));
    s.fault_at = g.r.range(4, 80);
    s.fault_len = *g.r.pick(&[1, 1, 2, 4, 12]);
    s.fault_errno = *g.r.pick(&[28, 5]);
    s.fault_short = g.r.chance(20);
}
/// compactions fail, and once they don't any longer, the garbage has to go
fn c26g(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(1, 3);
    g.names(nk, 0, 0, 0);
    g.vmax = *g.r.pick(&[40, 80]);
    s.cfg.max_shard = *g.r.pick(&[200, 400, 700]);
    s.cfg.thr = *g.r.pick(&[30, 60, 150, 300]);
    s.cfg.pre = 0;
    let mut v = vec![];
    for _ in 0..g.r.range(4, 25) {
        let op = g.kv();
        v.push(op);
        if g.r.chance(10) {
            v.push(Op::new("drain"));
        }
    }
    v.push(Op::new("nofault"));
    if g.r.chance(15) {
        v.push(Op::new("reopen"));
    }
    for _ in 0..g.r.range(6, 16) {
        for k in g.keys.clone() {
            let op = if g.r.chance(15) { g.kv() } else { g.kv_op("set", k) };
            v.push(op);
        }
        v.push(Op::new("drain"));
    }
    for k in g.keys.clone() {
        let op = g.kv_op("set", k);
        v.push(op);
    }
    v.push(Op::new("drain"));
    v.push(Op::new("room"));
    v.push(Op::new("dump"));
    s.phases.push(Phase::Seq(v));
    s.fault_bg = g.r.chance(85);
    s.fault_at = if s.fault_bg { g.r.range(1, 30) } else { g.r.range(4, 80) };
    s.fault_len = *g.r.pick(&[1, 1, 3, 20, 1000]);
    s.fault_errno = *g.r.pick(&[28, 5]);
}
/// something fails, some keys change, and then the store is cleared, merged or filled while the process dies
fn c26y(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(2, 4);
    g.names(nk, 0, 0, 0);
    g.vmax = *g.r.pick(&[40, 100]);
    s.cfg.max_shard = *g.r.pick(&[200, 400, 700]);
    s.cfg.thr = *g.r.pick(&[30, 60, 60, 150, 1000000]);
    s.cfg.pre = 0;
    let mut v = vec![];
    for _ in 0..g.r.range(4, 12) {
        let op = g.kv();
        v.push(op);
    }
    if g.r.chance(70) {
        v.push(Op::new("drain"));
    }
    v.push(Op::new("nofault"));
    for _ in 0..g.r.range(1, 4) {
        let k = g.key();
        let o = *g.r.pick(&["rem", "rem", "rem", "set"]);
        let op = g.kv_op(o, k);
        v.push(op);
    }
    match g.r.below(5) {
        0 => v.push(Op::new("merge").a("f", "0.4")),
        1 => v.push(Op::new("fill").a("kvs", "f:0:3").a("w", 60)),
        2 => {}
        _ => v.push(Op::new("clear")),
    }
    if g.r.chance(30) {
        let op = g.kv();
        v.push(op);
    }
    s.phases.push(Phase::Seq(v));
    s.fault_at = g.r.range(4, 40);
    s.fault_len = *g.r.pick(&[1, 1, 3, 1000, 1000]);
    s.fault_errno = *g.r.pick(&[28, 5]);
    s.snap_p = *g.r.pick(&[16000, 65536]);
    s.snap_max = 40;
    s.rec_p = *g.r.pick(&[0, 0, 20000]);
}

/// what failures leave behind must not get in the way of what comes after a clear or a merge
fn c26z(g: &mut G, s: &mut Script) {
    sched_of(s, &mut g.r);
    let nk = g.r.range(4, 10);
    g.names(nk, 0, 0, 0);
    g.vmax = *g.r.pick(&[40, 80]);
    s.cfg.max_shard = *g.r.pick(&[200, 300, 500]);
    s.cfg.thr = *g.r.pick(&[30, 60, 150]);
    s.cfg.pre = 0;
    let mut v = vec![Op::new("fill").a("kvs", format!("f:0:{}", g.r.range(5, 25))).a("w", g.r.range(20, 60))];
    for _ in 0..g.r.range(4, 30) {
        let op = g.kv();
        v.push(op);
    }
    let early = g.r.chance(25);
    if early {
        v.push(Op::new("merge").a("f", "0.4"));
        v.push(Op::new("dump"));
    }
    v.push(Op::new("nofault"));
    if g.r.chance(50) {
        v.push(Op::new("dump"));
    }
    if g.r.chance(70) {
        v.push(Op::new("clear"));
    } else {
        v.push(Op::new("merge").a("f", "0.4"));
    }
    for round in 0..g.r.range(1, 3) {
        v.push(Op::new("fill").a("kvs", format!("f:{}:{}", 30 * round, 30 * round + g.r.range(3, 20))).a("w", g.r.range(20, 60)));
        for _ in 0..g.r.range(0, 20) {
            let op = g.kv();
            v.push(op);
        }
        if g.r.chance(70) {
            v.push(Op::new("reopen"));
        }
        v.push(Op::new("dump"));
    }
    s.phases.push(Phase::Seq(v));
    s.fault_bg = early || g.r.chance(70);
    s.fault_at = if s.fault_bg { g.r.range(1, 40) } else { g.r.range(20, 160) };
    s.fault_len = *g.r.pick(&[1, 3, 20, 1000]);
    s.fault_errno = *g.r.pick(&[28, 5]);
}
