#!/usr/bin/env python3
"""dev.py PROF SEED N [feature] [max shown] : run and show what is rejected"""
import sys, os, collections
sys.path.insert(0, os.path.dirname(__file__))
from cv import *
prof, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
feat = sys.argv[4] if len(sys.argv) > 4 else ""
show = int(sys.argv[5]) if len(sys.argv) > 5 else 3
b = build(feat)
t0 = time.time()
out = f"/dev/shm/dev.{prof}"
sm = record(b, out, prof, seed, n, secs=600)
t1 = time.time()
lines = load(out)
rej, st = validate(lines)
print(f"{prof}: scripts {sm.get('scripts')} crashes {sm.get('crashes')} traces {len(lines)} rejected {len(rej)} run {t1-t0:.1f}s tlc {st['time']:.1f}s states {st['states']}")
kinds = collections.Counter()
ex = {}
for i in rej[:60]:
    t = json.loads(lines[i])
    last = t["ev"][-1]
    at, what, txt = describe(lines[i]) if last.get("e") not in ("hang",) else (len(t["ev"]), json.dumps(last)[:200], json.dumps(last))
    key = re.sub(r"[0-9a-f]{6,}|\d+", "#", what)[:90]
    kinds[key] += 1
    ex.setdefault(key, (t["id"], at, what, txt))
for k, v in kinds.most_common(40):
    print(v, ex[k][0], k)
for k, v in kinds.most_common(show):
    print("-----", ex[k][0], "at", ex[k][1]); print(ex[k][3])
