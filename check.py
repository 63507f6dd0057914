#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)
   check.py ID --replay F re-run one recorded violation
   check.py --setup       build everything once"""
import math, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from cv import *
import plan

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
REPLAYS = os.path.join(V, "replays")


def known_findings():
    known = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            # known: property=C01 match=<regular expression over the description of the rejected step> what=<text>
            m = re.match(r"known: property=(\S+) match=(.*?) what=(.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def is_timing(line):
    """Judged by the clock (no progress for long, or the process ended), not by the scheduler's own logic."""
    ev = json.loads(line)["ev"]
    k = ev[-1].get("kind", "") if ev and ev[-1].get("e") == "hang" else ""
    return k.startswith("timeout") or k.startswith("died")


def run_scripts(binary, texts, tag, stall=60):
    out = os.path.join(scratch_root(), f"cvr.{os.getpid()}.{tag}")
    f = out + ".scripts"
    with open(f, "w") as fh:
        fh.write("\n====\n".join(texts))
    try:
        record(binary, out, file=f, workers=min(CORES, len(texts)), secs=900, stall=stall)
        return load(out)
    finally:
        shutil.rmtree(out, ignore_errors=True)
        os.unlink(f)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], profiles=[], specifications=[])

    def note(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    def violation(self, what, replay):
        for pid, rx, text in known_findings():
            if pid == self.pid and re.search(rx, what):
                print(f"KNOWN-FINDING: property={pid} {text}", flush=True)
                return
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{self.pid}-{len(self.viol) + 1}.json")
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.viol.append(path)
        print("rejected:", what[:600], flush=True)
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def specs(self):
        """the design-level specifications, exhaustively"""
        for name, cfg in plan.specs(self.pid, TIER):
            self.spec(name, cfg)

    def spec(self, name, cfg):
        t0 = time.time()
        rc, out = java(["-workers", str(CORES), "-config", cfg + ".cfg", name + ".tla"], xmx="12g",
                       gc="-XX:+UseParallelGC", timeout=800 if TIER == "quick" else 7200)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or not m:
            # a specification alone never depends on /repo: failing is an error of this check
            raise ToolError(f"{name}/{cfg}: TLC ended with {rc}\n" + out[-3000:])
        self.cov["states"] += int(m.group(2))
        self.cov["transitions"] += int(m.group(1))
        self.cov["specifications"].append(dict(spec=name, config=cfg, distinct_states=int(m.group(2)), transitions=int(m.group(1)), seconds=round(time.time() - t0, 1)))
        self.note(f"{name} ({cfg}): {m.group(2)} distinct states, no violation")

    def judge(self, binary, feature, lines, scripts, label):
        """scripts: trace header -> script text"""
        rej, st = validate(lines)
        if st["undecided"]:
            self.note(f"{label}: {st['undecided']} histories leave too much open and were not decided")
            self.cov["undecided"] = self.cov.get("undecided", 0) + st["undecided"]
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["states"]
        self.cov["traces_validated_against_impl"] += len(lines) - len(rej) - st["undecided"]
        shown = 0
        for i in rej:
            if shown >= 3:
                break
            t = json.loads(lines[i])
            text = scripts(t["script"])
            if is_timing(lines[i]):
                # give it a machine of its own and far more time
                again = run_scripts(binary, [text], "again", stall=240)
                again = [x for x in again if json.loads(x)["id"] == t["id"]]
                if not again or not is_timing(again[0]):
                    self.note(f"{t['id']}: not confirmed when run alone")
                    continue
            at, what, txt = describe(lines[i])
            shown += 1
            self.violation(f"{t['id']} event {at}: {what}",
                           dict(property=self.pid, feature=feature, id=t["id"], at=at, script=text, why=txt, trace=t))
        return rej

    def profile(self, prof, feature, n, secs):
        b = build(feature)
        out = os.path.join(scratch_root(), f"cv.{os.getpid()}.{prof}{feature}")
        try:
            sm = record(b, out, prof, SEED, n, secs=secs)
            self.note(f"{prof}{'+' + feature if feature else ''}: {sm.get('scripts')} scripts recorded")
            lines = load(out)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        if not lines:
            raise ToolError(f"{prof}: nothing recorded")
        rej = self.judge(b, feature, lines, lambda sid: show_script(b, sid, prof, SEED, n), prof)
        self.note(f"{prof}: {len(lines)} histories, {len(rej)} rejected")
        self.cov["profiles"].append(dict(profile=prof, feature=feature, seed=SEED, histories=len(lines), rejected=len(rej), **sm))
        for k in (0, len(lines) // 2):
            t = json.loads(lines[k])
            self.cov["samples"].append(dict(id=t["id"], events=len(t["ev"]), first=[json.dumps(e)[:200] for e in t["ev"][:6]]))

    def stops(self):
        """a quick check has its answer once something was rejected"""
        return TIER == "quick" and self.viol

    def walks(self):
        """call sequences walked out of the specification's own state graph, run in the real code"""
        import walk
        for cfg, mode, num, feature in plan.walks(self.pid, TIER):
            b = build(feature)
            if self.stops():
                break
            texts = walk.scripts(cfg, mode, num, SEED, feature)
            lines = run_scripts(b, texts, "walk")
            ids = {re.search(r"^id (\S+)", x, re.M).group(1): x for x in texts}
            g = walk.STATS[cfg]
            if not any(x.get("config") == cfg for x in self.cov["specifications"]):
                self.cov["states"] += g["distinct"]
                self.cov["transitions"] += g["states"]
                self.cov["specifications"].append(dict(spec="Candy", config=cfg, distinct_states=g["distinct"], transitions=g["states"]))
            rej = self.judge(b, feature, lines, lambda sid: ids[sid], cfg)
            self.note(f"{cfg}: {g['distinct']} states, {g['edges']} transitions, no violation; {len(texts)} {mode} walks, {len(lines)} histories, {len(rej)} rejected")
            self.cov["profiles"].append(dict(walks_of="Candy", config=cfg, mode=mode, feature=feature, seed=SEED, scripts=len(texts), histories=len(lines), rejected=len(rej)))

    def locks(self):
        """what real calls do with locks, put side by side: a deadlock found there is looked for in the real code"""
        import locks, random
        for feature, n in plan.locks(self.pid, TIER):
            b = build(feature)
            out = os.path.join(scratch_root(), f"cv.{os.getpid()}.locks{feature}")
            try:
                record(b, out, "C23L", SEED, n, secs=60 if TIER == "quick" else 600)
                lines = load(out)
            finally:
                shutil.rmtree(out, ignore_errors=True)
            rnd = random.Random(SEED)
            tot = dict(calls=sum(len(json.loads(x).get("calls", [])) for x in lines), programs_side_by_side=0, scenarios=0, with_a_cycle=0, all_locks_and_interleavings=0, states=0, deadlocks=0, reached=0)
            for size, limit in ((2, 300), (3, 60 if TIER == "quick" else 1000)):
                scen, src, sets = locks.collect(lines, size, limit, rnd)
                tot["programs_side_by_side"] += sets
                tot["scenarios"] += len(scen)
                cyc = [(i, s) for i, s in enumerate(scen) if locks.cyclic(s)[0]]
                tot["with_a_cycle"] += len(cyc)
                rnd.shuffle(cyc)
                cyc.sort(key=lambda x: sum(len(p) for p in x[1]["th"]))
                # an order without a cycle cannot deadlock; have TLC look at some of those all the same, all of their locks in
                easy = [s for s in scen if math.prod(len(p) + 1 for p in s["th"]) <= (3000 if TIER == "quick" else 20000) and not locks.cyclic(s)[0]]
                rnd.shuffle(easy)
                easy = easy[:100 if TIER == "quick" else 2000]
                if easy:
                    r, st = locks.check(easy, 100 if TIER == "quick" else 1200)
                    self.cov["states"] += st[1]
                    self.cov["transitions"] += st[0]
                    tot["states"] += st[1]
                    tot["all_locks_and_interleavings"] += len(easy)
                    if r not in (None, "late"):
                        raise ToolError("LockProgs: a deadlock without a cycle of locks")
                found = 0
                for i, s in cyc[:40 if TIER == "quick" else 1000]:
                    if found >= 3 or self.stops():
                        break
                    r, st = locks.check([s], 60)
                    self.cov["states"] += st[1]
                    self.cov["transitions"] += st[0]
                    tot["states"] += st[1]
                    if r is None or r == "late":
                        continue
                    found += 1
                    tot["deadlocks"] += 1
                    n, ops, back, ks = src[i]
                    texts = locks.confirm_scripts(lines[n], ops, s, back, ks, r[1], SEED)
                    ids = {re.search(r"^id (\S+)", x, re.M).group(1): x for x in texts}
                    got = [x for x in run_scripts(b, texts, "locks") if '"hang"' in x]
                    if got:
                        tot["reached"] += 1
                        self.judge(b, feature, got[:1], lambda sid: ids[sid], "locks")
                    else:
                        self.note(f"{ops}: the programs could deadlock, but the code was not brought there")
            self.note(f"lock programs{'+' + feature if feature else ''}: {tot}")
            self.cov["profiles"].append(dict(lock_programs=True, feature=feature, seed=SEED, **tot))
            if self.stops():
                break

    def run(self):
        if TIER == "quick":
            DEADLINE[0], PER_TLC[0] = self.t0 + 700, 200
        self.specs()
        for prof, feature, n, secs in plan.profiles(self.pid, TIER):
            self.profile(prof, feature, n, secs)
            if self.stops():
                break
        else:
            self.walks()
            if not self.stops():
                self.locks()
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level="model_checking", coverage=self.cov,
                  assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        with open(os.path.join(V, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.note("violated" if self.viol else "held on everything explored")
        return 1 if self.viol else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build("")
        return 0
    pid = a[0]
    c = Check(pid)
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        b = build(r["feature"])
        rej = c.judge(b, r["feature"], run_scripts(b, [r["script"]], "replay", stall=240), lambda sid: r["script"], "replay")
        print("violated again" if rej else "not violated")
        return 1 if c.viol else 0
    return c.run()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("ERROR of the check:", e, file=sys.stderr)
        sys.exit(2)
