"""Lock programs of real calls, put together two (or three) at a time for spec/LockProgs.tla."""
import itertools, json, os, re
from cv import *

TAKE = {"r": "x", "R": "x", "T": "x", "u": "z", "V": "z", "c": "y", "X": "y", "m": "n", "M": "n", "g": "y", "G": "y"}


class Call:
    def __init__(self, c):
        self.op = c["op"]
        cut = next((i for i, e in enumerate(c["log"]) if e[1] == "{"), 0)
        self.prog = []           # (kind, lock, nth lock operation) / ("b", (pool, its nth), None)
        self.pool = {}           # k -> [(kind, lock, nth)]
        self.gate = {}           # k -> (after how many of the pool's operations, after how many of the caller's)
        n = {}
        waits = []
        done = False
        for t, k, a in c["log"][cut:]:
            if k == "}":
                done = True
                continue
            if k in "{AP$":
                continue
            if k == "b":
                if t == 0 and not done:
                    waits.append(len(self.prog))
                    self.prog.append(["b", None, None])
                continue
            if k == "s":
                if t > 0 and a == 0 and waits:
                    self.prog[waits.pop(0)][1] = (t, n.get(t, 0))
                elif t == 0 and a > 0 and not done:
                    self.gate.setdefault(a, (n.get(a, 0), n.get(0, 0)))
                continue
            n[t] = n.get(t, 0) + 1
            if t == 0:
                if not done:
                    self.prog.append([k, a, n[t]])
            else:
                self.pool.setdefault(t, []).append([k, a, n[t]])
        self.prog = [e for e in self.prog if not (e[0] == "b" and e[1] is None)]
        self.whole = True        # nothing was held already when the record starts
        # whatever is still held is let go of
        for p in [self.prog] + list(self.pool.values()):
            held = []
            for k, a, _ in p:
                if k in TAKE and k not in "gG":
                    held.append((TAKE[k], a))
                elif k in "gGdef" and a not in [h[1] for h in held]:
                    self.whole = False
                elif k in "xyzn":
                    if (k, a) in held:
                        held.remove((k, a))
                    else:           # after an upgrade or a downgrade
                        for h in held:
                            if h[1] == a:
                                held.remove(h)
                                break
                        else:
                            self.whole = False
            for k, a in held:
                p.append([k, a, p[-1][2] if p[-1][2] is not None else 0])


def pools(cs):
    """The background threads' programs when the calls run side by side: [(program, gate or None)]"""
    out = []
    for k in sorted({k for c in cs for k in c.pool}):
        var = []
        for i, c in enumerate(cs):
            p = c.pool.get(k, [])
            g = c.gate.get(k)
            var.append((p, (g[0], i, g[1]) if g else None))
        var.sort(key=lambda x: -len(x[0]))
        kept = []
        for p, g in var:
            for q in kept:
                if q[0][:len(p)] == p:
                    # the same work; if both start it either may have been first
                    if q[1] is not None and len(p) > q[1][0]:
                        q[1] = None
                    break
            else:
                kept.append([p, g, k])
        out += kept
    return out


def scenario(cs):
    """Threads reduced to the locks they share, and how to find the way back"""
    pl = pools(cs)
    raw = [c.prog for c in cs] + [p for p, _, _ in pl]
    users = {}
    for i, p in enumerate(raw):
        for e in p:
            if e[0] != "b":
                users.setdefault(e[1], set()).add(i)
    shared = {a for a, u in users.items() if len(u) > 1 and a != -1}
    if not shared:
        return None
    names = {}
    th, back = [], []

    def upto(p, n):
        """how many of the reduced operations of p are among its first n"""
        return sum(1 for e in p if e[0] != "b" and e[1] in shared and e[2] <= n)

    gates = {i + len(cs): g for i, (_, g, _) in enumerate(pl)}
    for i, p in enumerate(raw):
        out, bk = [], []
        g = gates.get(i)
        put = g is None
        for e in p:
            if not put and e[0] != "b" and e[2] > g[0]:
                # started by that caller
                m = sum(1 for x in cs[g[1]].prog if (x[0] == "b" and False) or (x[0] != "b" and x[1] in shared and x[2] <= g[2]))
                out.append(["b", g[1] + 1, ("caller", g[1], m)])
                bk.append(None)
                put = True
            if e[0] == "b":
                js = [j for j, (q, _, k) in enumerate(pl) if k == e[1][0] and len(q) >= e[1][1]]
                j = js[0] if js else None
                for x in js:
                    if pl[x][0][:e[1][1]] == cs[i].pool.get(e[1][0], [])[:e[1][1]]:
                        j = x
                        break
                if j is not None:
                    out.append(["b", len(cs) + j + 1, ("pool", j, upto(pl[j][0], e[1][1]))])
                    bk.append(None)
            elif e[1] in shared:
                names.setdefault(e[1], len(names) + 1)
                out.append([e[0], names[e[1]], 0])
                bk.append(e[2])
        th.append(out)
        back.append(bk)

    # positions: "so many lock operations done" -> program counter (waits count as steps, too)
    def pcof(t, m):
        n = 0
        for j, e in enumerate(th[t]):
            if n == m:
                return j
            if e[0] != "b":
                n += 1
        return len(th[t])
    for t, p in enumerate(th):
        for j, e in enumerate(p):
            if e[0] == "b":
                what, i, m = e[2]
                e[2] = pcof(i if what == "caller" else len(cs) + i, m)
            elif e[0] in "TVXMG":
                # a try that fails: go on after the release
                rel = TAKE[e[0]]
                e[2] = next((x + 2 for x in range(j, len(p)) if p[x][0] == rel and p[x][1] == e[1]), len(p) + 1)
    for p, bk in zip(th, back):
        assert len(p) == len(bk)
    return dict(n=max(1, len(names)), callers=len(cs), th=[[list(e) for e in p] for p in th]), back, [k for _, _, k in pl]


def cyclic(s):
    """The locks that lie on a cycle of the order in which a scenario's threads ask for locks while they hold others.
    A deadlock is such a cycle; a lock nobody takes as a writer holds nobody up, and an upgrade waits for readers
    other than itself."""
    wr = {e[1] for p in s["th"] for e in p if e[0] in "cgmwGMXuV"}
    g = {}
    for t, p in enumerate(s["th"]):
        held = []
        me = ("w", t + 1)
        for k, a, _ in p:
            if k == "b":
                for h in held:
                    g.setdefault(h, set()).add(("w", a))
            elif k in TAKE or k == "w":
                if a in wr:
                    if k != "w" and k not in "TVXMG":
                        for h in held + [me]:
                            if h != a or k not in "RgG":
                                g.setdefault(h, set()).add(a)
                    if k not in "gGw":
                        held.append(a)
            elif k in "xyzn" and a in held:
                held.remove(a)
    def reach(v):
        seen, todo = set(), [v]
        while todo:
            for x in g.get(todo.pop(), ()):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen
    keep = {v for v in g if v in reach(v)}
    return {v for v in keep if isinstance(v, int)}, {v[1] for v in keep if not isinstance(v, int)}


def reduced(s, locks, waits):
    """The scenario with these locks alone: it may do more than the real one"""
    new = {a: i + 1 for i, a in enumerate(sorted(locks))}
    at = [[0] * (len(p) + 2) for p in s["th"]]
    out = [[] for _ in s["th"]]
    for t, p in enumerate(s["th"]):
        for i, e in enumerate(p):
            at[t][i + 1] = len(out[t]) + 1
            if e[0] == "b" and True or e[0] != "b" and e[1] in locks:
                out[t].append(list(e))
        at[t][len(p) + 1] = len(out[t]) + 1
    for t, p in enumerate(out):
        for e in p:
            if e[0] == "b":
                e[2] = at[e[1] - 1][e[2]] - 1 if e[2] and e[2] < len(at[e[1] - 1]) else e[2]
            else:
                e[1] = new[e[1]]
                if e[2]:
                    e[2] = at[t][e[2]]
    return dict(n=max(1, len(new)), callers=s["callers"], th=out)


def collect(lines, size, limit, rnd):
    """(scenarios, where each comes from)"""
    seen, out, src = set(), [], []
    pairs = 0
    for n, line in enumerate(lines):
        x = json.loads(line)
        calls = [c for c in map(Call, (c for c in x.get("calls", []) if c["same"])) if c.whole]
        combos = list(itertools.combinations_with_replacement(range(len(calls)), size))
        if len(combos) > limit:
            combos = rnd.sample(combos, limit)
        for ix in combos:
            pairs += 1
            r = scenario([calls[i] for i in ix])
            if r is None:
                continue
            key = json.dumps(r[0])
            if key in seen:
                continue
            seen.add(key)
            out.append(r[0])
            src.append((n, [calls[i].op for i in ix], r[1], r[2]))
    return out, src, pairs


def check(scen, timeout):
    """None, or (scenario, order of threads and program counters) of a deadlock"""
    f = os.path.join(scratch_root(), f"locks.{os.getpid()}.ndjson")
    with open(f, "w") as fh:
        for s in scen:
            fh.write(json.dumps(s) + "\n")
    try:
        rc, out = java(["-workers", str(CORES), "-config", "LockProgs.cfg", "LockProgs.tla"], env={"SCEN": f}, xmx="8g", gc="-XX:+UseParallelGC", timeout=timeout)
    finally:
        os.unlink(f)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if rc == 0 and m:
        return None, st
    if rc == -9:
        return "late", st
    if "Invariant NoDeadlock is violated" not in out:
        raise ToolError("LockProgs: TLC failed\n" + out[-3000:])
    sc = int(re.search(r"sc = (\d+)", out).group(1)) - 1
    pcs = [[int(v) for v in x.split(",")] for x in re.findall(r"pc = <<([\d, ]+)>>", out)]
    steps = []
    for a, b in zip(pcs, pcs[1:]):
        t = next(i for i in range(len(a)) if a[i] != b[i])
        steps.append((t, a[t]))
    return (sc, steps, pcs[-1]), st


def confirm_scripts(line, ops, scen, back, pool_k, steps, seed):
    """Scripts that try to get the real code to that deadlock"""
    text = json.loads(line)["script"]
    head, _ = text.split("\nconc\n", 1)
    guide = []
    for t, at in steps:
        pos = back[t][at - 1]
        if pos is None:
            continue
        who = t if t < scen["callers"] else 100 + pool_k[t - scen["callers"]] - 1
        if guide and guide[-1][0] == who:
            guide[-1][1] = max(pos, guide[-1][1])
        else:
            guide.append([who, pos])
    conc = "\nconc\n" + "".join(f"thread\n{o}\n" for o in ops)
    sid = re.search(r"^id (\S+)", head, re.M).group(1)
    res = []
    for n in range(200):
        h = re.sub(r"^id \S+", f"id {sid.replace('C23L', 'C23g')}.{n}", head, flags=re.M)
        if n == 0:
            h = h.replace("\nseq\n", "\nguide " + " ".join(f"{a}:{b}" for a, b in guide) + "\nseq\n", 1)
        else:
            h = re.sub(r"sched=\d+ pct=\d+ seed=\d+", f"sched={64 if n % 2 else 0} pct={0 if n % 2 else 3} seed={seed * 1000 + n}", h)
        res.append(h + conc)
    return res
