"""Building the harness, running it, and checking the recorded histories with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
H = os.path.join(V, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = int(os.environ.get("CV_CORES", 0)) or os.cpu_count() or 8


class ToolError(Exception):
    pass


def scratch_root():
    for r in ("/dev/shm", "/tmp"):
        if os.path.isdir(r) and os.access(r, os.W_OK):
            return r
    return V


def build(feature=""):
    """Build the harness against /repo's working tree; returns the binary."""
    out = os.path.join(V, "harness", "bin")
    os.makedirs(out, exist_ok=True)
    feat = f"--features {feature}" if feature else ""
    cmd = f". /opt/vp/env.sh; export CARGO_TARGET_DIR={H}/target; cd {H} && cargo build --offline {feat}"
    p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])
    dst = os.path.join(out, "cv" + ("-" + feature if feature else ""))
    tmp = dst + ".new"
    shutil.copy2(os.path.join(H, "target", "debug", "cv"), tmp)
    os.replace(tmp, dst)
    return dst


def record(binary, out, prof=None, seed=1, n=100, secs=60, workers=CORES, file=None, stall=60):
    """Run scripts; returns the summary counters."""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [binary, "run", "--out", out, "--workers", str(workers), "--secs", str(secs), "--stall", str(stall)]
    if file:
        cmd += ["--file", file]
    else:
        cmd += ["--prof", prof, "--seed", str(seed), "--n", str(n)]
    p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness failed:\n" + p.stdout[-3000:])
    sm = {}
    with open(os.path.join(out, "summary")) as f:
        for line in f:
            k, v = line.rsplit(" ", 1)
            sm[k] = int(v)
    return sm


def load(out):
    """All histories of a run, as (line, parsed header) without parsing everything."""
    lines = []
    for fn in sorted(os.listdir(out)):
        if re.fullmatch(r"t\d+", fn):
            with open(os.path.join(out, fn), errors="replace") as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("{") and line.endswith("}"):
                        lines.append(line)
    return lines


def java(args, cwd=SPEC, env=None, xmx="3g", timeout=3600, gc="-XX:+UseSerialGC"):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch_root())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", f"-Xmx{xmx}", "-Xss64m", gc, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE"] + args
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _chunk(lines, k):
    """k groups of about the same size"""
    groups = [[0, []] for _ in range(k)]
    for i in sorted(range(len(lines)), key=lambda i: -len(lines[i])):
        g = min(groups, key=lambda g: g[0])
        g[0] += len(lines[i]) + 2000
        g[1].append(i)
    return [g[1] for g in groups if g[1]]


# when to give up on histories that leave too much open (they can't be decided, which is no violation)
DEADLINE = [None]
PER_TLC = [3000]


def validate(lines, module="CandyTrace", timeout=None, jvms=CORES):
    """Which histories are behaviours of the specification?  Returns (rejected indices, stats)."""
    if not lines:
        return [], dict(states=0, distinct=0, time=0, undecided=0)
    timeout = timeout or PER_TLC[0]
    und = 0
    tmp = tempfile.mkdtemp(prefix="cvt.", dir=scratch_root())
    if jvms < 0:
        groups, jvms = _chunk(lines, max(CORES, len(lines) // 6)), CORES
        if len(lines) <= 4 * CORES:
            groups = [[i] for i in range(len(lines))]
    else:
        groups = _chunk(lines, min(jvms, max(1, len(lines))))
    # keep single files small
    small = []
    for g in groups:
        cur, sz = [], 0
        for i in g:
            cur.append(i)
            sz += len(lines[i])
            if sz > 12_000_000:
                small.append(cur)
                cur, sz = [], 0
        if cur:
            small.append(cur)

    def one(args):
        n, g = args
        f = os.path.join(tmp, f"{n}.ndjson")
        with open(f, "w") as fh:
            for i in g:
                fh.write(lines[i] + "\n")
        limit = timeout if DEADLINE[0] is None else max(5, min(timeout, DEADLINE[0] - time.time()))
        rc, out = java(["-workers", "1", "-config", module + ".cfg", module + ".tla"], env={"TRACES": f}, timeout=limit)
        os.unlink(f)
        acc = {int(x) for x in re.findall(r'"ACC (\d+)"', out)}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        ok = (rc == 0 and m) or (rc == -9 and "late")
        return g, acc, (int(m.group(1)), int(m.group(2))) if m else (0, 0), ok, out

    t0 = time.time()
    rejected, st, di = [], 0, 0
    try:
        with ThreadPoolExecutor(jvms) as ex:
            res = list(ex.map(one, enumerate(small)))
        redo, late = [], []
        for g, acc, (a, b), ok, out in res:
            st += a
            di += b
            if ok == "late":
                # some history in there takes too long
                if len(g) == 1 and 1 not in acc:
                    und += 1
                elif len(g) > 1:
                    late += [i for j, i in enumerate(g) if j + 1 not in acc]
            elif ok:
                rejected += [i for j, i in enumerate(g) if j + 1 not in acc]
            elif len(g) == 1:
                # the specification cannot even be evaluated on this history: it is no behaviour
                if "TLC threw" in out or "Error" in out or "error" in out:
                    rejected += g
                else:
                    raise ToolError("TLC failed:\n" + out[-3000:])
            else:
                if 'Parsing or semantic analysis failed' in out:
                    raise ToolError("specification does not parse:\n" + out[-3000:])
                redo.append((g, acc))
        if late and DEADLINE[0] is not None and time.time() > DEADLINE[0] - 10:
            und += len(late)
        elif late:
            # all of them again, in far smaller groups
            r, s2 = validate([lines[i] for i in late], module, timeout if len(late) <= jvms else max(20, timeout // 4), jvms if len(late) <= jvms else -1)
            rejected += [late[j] for j in r]
            st += s2["states"]
            di += s2["distinct"]
            und += s2["undecided"]
        # a chunk broke off: repeat its unfinished histories one by one (in halves)
        for g, acc in redo:
            rest = [i for j, i in enumerate(g) if j + 1 not in acc]
            sub = [lines[i] for i in rest]
            if len(rest) == len(g):
                h = len(rest) // 2
                parts = [rest[:h], rest[h:]]
            else:
                parts = [rest]
            for part in parts:
                r, s2 = validate([lines[i] for i in part], module, timeout, jvms)
                rejected += [part[j] for j in r]
                st += s2["states"]
                di += s2["distinct"]
                und += s2["undecided"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return sorted(rejected), dict(states=st, distinct=di, time=time.time() - t0, undecided=und)


def explain(line, module="CandyTrace"):
    """How far the specification can follow a rejected history."""
    tmp = tempfile.mkdtemp(prefix="cvx.", dir=scratch_root())
    f = os.path.join(tmp, "x.ndjson")
    with open(f, "w") as fh:
        fh.write(line + "\n")
    rc, out = java(["-workers", "1", "-config", module + ".cfg", module + ".tla"], env={"TRACES": f, "DBG": "1"}, timeout=600)
    shutil.rmtree(tmp, ignore_errors=True)
    at = [int(x) for x in re.findall(r'"AT 1 (\d+)"', out)]
    err = ""
    if rc != 0:
        m = re.search(r"Error:.*", out, re.S)
        err = m.group(0)[:1500] if m else out[-1500:]
    return (max(at) if at else 0), err


def show_script(binary, sid, prof=None, seed=1, n=100, file=None):
    a = ["--file", file] if file else ["--prof", prof, "--seed", str(seed), "--n", str(n)]
    m = re.search(r"-(\d+)$", sid)
    if m and not file:
        p = subprocess.run([binary, "show"] + a + ["--idx", m.group(1)], stdout=subprocess.PIPE, text=True)
    else:
        p = subprocess.run([binary, "show"] + a + ["--id", sid], stdout=subprocess.PIPE, text=True)
    return p.stdout


def describe(line):
    """A rejected history in words."""
    t = json.loads(line)
    at, err = explain(line)
    evs = t["ev"]
    txt = []
    lo = max(0, at - 12)
    for i in range(lo, min(len(evs), at + 2)):
        mark = "=> " if i == at - 1 else "   "
        txt.append(mark + f"{i + 1}: " + json.dumps(evs[i])[:1600])
    what = json.dumps(evs[at - 1])[:300] if 0 < at <= len(evs) else "?"
    return at, what, "\n".join(txt) + ("\n" + err if err else "")
