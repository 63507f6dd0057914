"""Call sequences out of the state graph of spec/Candy.tla.

TLC explores the graph and prints every transition; the sequences made here cover all of them
(or a seeded choice, where a number is given) and are run in the real code:
  seq    (and reopen, clear, stats: with those in between) tours through the graph, one call after the other, with reopenings in between
  crash  short tours, with a process death at every mutation of the files and mapped headers
  fault  tours during which one system call fails
  pair   every state reached by some path, then two (or three) of its calls in parallel
"""
import os, random, re, collections
from cv import java, ToolError

# calls made of several steps, by design (documented for big values)
NOT_ATOMIC = {"liter", "literb", "llen", "qiter", "qiterb", "bset", "brem", "bget"}
# what is mixed into a tour: (calls, how many)
MIXED = {
    "seq": (["reopen", "dump", "dump", "merge f=0.4", "drain"], 3),
    "reopen": (["reopen", "reopen max=900 thr=100", "reopen max=3000 thr=60 locks=1", "reopen trunc=1"], 14),
    "clear": (["clear", "clear", "dump", "reopen", "stats"], 8),
    "stats": (["stats", "stats", "stats", "dump", "drain"], 14),
}
STATS = {}
_graphs = {}


def graph(cfg):
    if cfg in _graphs:
        return _graphs[cfg]
    rc, out = java(["-workers", "1", "-config", cfg + ".cfg", "Candy.tla"], xmx="6g", timeout=3000)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc != 0 or not m:
        raise ToolError(f"Candy/{cfg}: TLC ended with {rc}\n" + re.sub(r'(?m)^"E\|.*\n', "", out)[-3000:])
    ids, edges = {}, []
    for line in out.splitlines():
        if line.startswith('"E|'):
            _, op, a, b = line[1:-1].split("|")
            edges.append((ids.setdefault(a, len(ids)), op, ids.setdefault(b, len(ids))))
    g = collections.defaultdict(list)
    for a, op, b in sorted(set(edges)):
        g[a].append((op, b))
    start = edges[0][0]
    STATS[cfg] = dict(distinct=int(m.group(2)), states=int(m.group(1)), edges=sum(len(x) for x in g.values()))
    _graphs[cfg] = (start, dict(g))
    return _graphs[cfg]


def path_to(g, start, want):
    """shortest call sequence from start to a state for which want holds"""
    prev, todo = {start: None}, collections.deque([start])
    while todo:
        a = todo.popleft()
        if want(a):
            r = []
            while prev[a]:
                p, op = prev[a]
                r.append((p, op, a))
                a = p
            return r[::-1]
        for op, b in g.get(a, ()):
            if b not in prev:
                prev[b] = (a, op)
                todo.append(b)
    return None


def tours(start, g, length, rnd, loops=True):
    """sequences from start that together take every transition"""
    left = {a: [e for e in es if loops or e[1] != a] for a, es in g.items()}
    for es in left.values():
        rnd.shuffle(es)
    n = sum(len(x) for x in left.values())
    res = []
    while n:
        cur, seq = start, []
        # begin somewhere else every time
        for _ in range(rnd.randrange(4)):
            op, cur = rnd.choice(g[cur])
            seq.append(op)
        while n and len(seq) < length:
            es = left.get(cur)
            if es:
                # self-loops first: they need no way back
                k = next((i for i, e in enumerate(es) if e[1] == cur), len(es) - 1)
                op, cur = es.pop(k)
                n -= 1
                seq.append(op)
            else:
                p = path_to(g, cur, lambda a: left.get(a))
                if p is None:
                    break
                for _, op, b in p:
                    seq.append(op)
                    cur = b
                op, cur = left[cur].pop()
                n -= 1
                seq.append(op)
        if not seq:
            break
        res.append(seq)
    return res


def values(rnd, typed):
    """what the specification's v1 and v2 stand for"""
    c = [("v1", "v2"), ("v1", "v2"), ("~", "v2"), ("a" * 60, "b" * 61), ("c" * 140, "d"), ("e" * 300, "f" * 300)]
    return rnd.choice(c)


def names(rnd, cfg):
    """what the specification's names stand for: other kinds of names, too"""
    m = {}
    if cfg.startswith("Candy_list") and rnd.random() < 0.3:
        m["l=L0"] = "l=" + rnd.choice(["u32!7", "str!L0", "~", "@300.5"])
    if cfg.startswith("Candy_kv") and rnd.random() < 0.4:
        m["k=k0"] = "k=" + rnd.choice(["~", "@200.9", "@4000.1"])
    return m


def subst(op, v, m):
    ws = []
    for w in op.split(" "):
        if w in m:
            w = m[w]
        elif w.startswith(("v=", "x=", "vs=")):
            k, x = w.split("=", 1)
            x = ",".join({"v1": v[0], "v2": v[1]}.get(y, y) for y in x.split(",")) if x else x
            w = k + "=" + x
        ws.append(w)
    return " ".join(ws)


def conf(rnd, cfg, mode):
    big = cfg.startswith(("Candy_big", "Candy_mix"))
    mx = rnd.choice([66000, 200000]) if big else rnd.choice([900, 1500, 4000, 16000])
    thr = rnd.choice([10000, 100000]) if big else rnd.choice([60, 120, 250, 500, 1000])
    sched = f"sched=0 pct={rnd.choice([2, 3, 5])}" if rnd.random() < 0.3 else f"sched={rnd.choice([8, 24, 64, 128])} pct=0"
    mask = "ffffffffffffffff"
    if cfg.endswith("_w"):
        mask = rnd.choice(["0", "ffff000000000000", "ff"])
    return (f"cfg max={mx} thr={thr} pre={rnd.choice([0, 0, 0, 40000]) if not big else 0} locks={rnd.choice([1, 4, 64])} trunc={rnd.choice([0, 0, 1])} "
            f"ct={rnd.choice([1, 2])} mask={mask}", sched)


def scripts(cfg, mode, num, seed, feature=""):
    start, g = graph(cfg)
    rnd = random.Random(f"{cfg}/{mode}/{seed}")
    res = []
    live = {"seq": 70, "reopen": 50, "clear": 50, "stats": 50, "crash": 9, "fault": 25}

    def script(body, **k):
        i = len(res)
        c, sched = conf(rnd, cfg + ("_w" if feature == "wb" else ""), mode)
        run = dict(seed=rnd.randrange(1, 1 << 60))
        run.update(k)
        res.append(f"id W{cfg}.{mode}-{seed}-{i}\n{c}\nrun {sched} " + " ".join(f"{a}={b}" for a, b in run.items()) + "\n" + body)

    if mode in live:
        if mode not in MIXED:
            # documented as not crash-safe: not to be interrupted
            g = {a: [e for e in es if e[0].split(" ")[0] not in ("lprom", "lcomp")] for a, es in g.items()}
        ts = tours(start, g, live[mode], rnd, loops=mode in MIXED)
        rnd.shuffle(ts)
        changing = [op for es in g.values() for op, _ in es]
        rounds = 0
        while ts and len(res) < num:
            for t in ts[:max(0, num - len(res))]:
                v, m = values(rnd, False), names(rnd, cfg)
                ops = [subst(o, v, m) for o in t]
                if mode in MIXED:
                    what, n = MIXED[mode]
                    for at in sorted((rnd.randrange(len(ops) + 1) for _ in range(n)), reverse=True):
                        ops.insert(at, rnd.choice(what))
                    script("seq\n" + "\n".join(ops) + "\ndump\nreopen\n")
                elif mode == "crash":
                    after = [subst(rnd.choice(changing), v, m) for _ in range(10)]
                    script("seq\n" + "\n".join(ops) + "\nafter\n" + "\n".join(after + (["reopen"] if rnd.random() < .3 else [])) + "\n",
                           snap_p=65536, snap_max=90, stores=rnd.choice([0, 1]))
                else:
                    script("seq\n" + "\n".join(ops) + "\nnofault\ndump\nreopen\n",
                           fault_at=rnd.randrange(4, 60), fault_len=rnd.choice([1, 1, 3, 1000]), errno=rnd.choice([28, 5]), short=rnd.choice([0, 0, 1]))
            rounds += 1
            if rounds > 8:
                break
            ts = tours(start, g, live[mode], rnd, loops=mode in MIXED)
            rnd.shuffle(ts)
    elif mode == "pair":
        states = sorted(g)
        while len(res) < num:
            # some path to a state: shortest, or a random walk
            if rnd.random() < 0.5:
                a = rnd.choice(states)
                pre = [op for _, op, _ in path_to(g, start, lambda x: x == a)]
            else:
                a, pre = start, []
                for _ in range(rnd.randrange(1, 12)):
                    ch = [e for e in g[a] if e[1] != a]
                    op, a = rnd.choice(ch)
                    pre.append(op)
            es = [e for e in g[a] if e[0].split(" ")[0] not in NOT_ATOMIC]
            chg = [e for e in es if e[1] != a] or es
            v, m = values(rnd, False), names(rnd, cfg)
            def th():
                t = [rnd.choice(chg if rnd.random() < 0.8 else es)]
                if rnd.random() < 0.4:
                    t.append(rnd.choice(es))
                return [subst(o, v, m) for o, _ in t]
            def conc():
                return "conc\n" + "".join("thread\n" + "\n".join(th()) + "\n" for _ in range(rnd.choice([2, 2, 2, 3])))
            body = "seq\n" + "".join(subst(o, v, m) + "\n" for o in pre) + conc() + "seq\ndump\n"
            if rnd.random() < 0.5:
                body += conc() + "seq\ndump\n"
            script(body, stores=rnd.choice([0, 0, 1]))
    return res
