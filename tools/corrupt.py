"""corrupt.py [PROPERTY ...]: is the trace validation strict? Records traces of the real library, changes one
observed detail in each session and validates again: every change has to be reported. Prints what was not."""
import collections, json, os, random, sys
sys.path.insert(0, '/verif')
from vlib import run
from vlib.gen import Gen
OBS = ("r", "re", "r2", "now", "init", "ro", "sent")
W = '/tmp/corruptw'
os.makedirs(W, exist_ok=True)
def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x: yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        yield path
        for i in range(len(x)): yield from leaves(x[i], path + (i,))
    else: yield path
def change(e, path, r):
    p = e
    for k in path[:-1]: p = p[k]
    x = p[path[-1]]
    if isinstance(x, bool): y = not x
    elif isinstance(x, int): y = x ^ (1 << r.randrange(7))
    elif isinstance(x, str): y = {"ok": "err", "err": "ok"}.get(x, x + "x")
    elif isinstance(x, list): y = x[:-1] if x and r.random() < 0.5 else x + ([x[-1]] if x else [0])
    else: return False
    p[path[-1]] = y
    return True
for prop in sys.argv[1:] or ["C%02d" % i for i in range(1, 23)]:
    r = random.Random(prop)
    ss = getattr(Gen(prop + "corrupt"), prop)(1500)
    if not any(len(s) > 1 and s[0]["op"].split(".")[0] in ("tx", "tup", "w") for s in ss):
        ss = [[c] for s in ss for c in s]
    tr = run.execute(ss, W, "c")
    ev = [json.loads(x) for x in open(tr)]
    by = collections.defaultdict(list)
    for i, e in enumerate(ev): by[e["n"]].append(i)
    done = {}
    for n, idx in by.items():
        i = r.choice(idx)
        ls = [p for p in leaves({k: ev[i][k] for k in OBS if k in ev[i]}) if len(p) > 0]
        if ev[i]["op"] == "sig.step" and "v" in ev[i]: ls += [("v",) + p for p in leaves(ev[i]["v"])]
        if not ls: continue
        # one field name first, so that small fields are tried as often as long byte strings
        names = sorted({tuple(k for k in p if isinstance(k, str)) for p in ls})
        nm = r.choice(names)
        p = r.choice([q for q in ls if tuple(k for k in q if isinstance(k, str)) == nm])
        if change(ev[i], p, r): done[i] = (ev[i]["op"], p)
    with open(tr, "w") as f:
        for e in ev: f.write(json.dumps(e) + "\n")
    st = run.Stats()
    bad = set()
    # TLC stops at an answer of an impossible shape: validate the rest without that session
    live = list(range(len(ev)))
    for _ in range(60):
        with open(tr, "w") as f:
            for i in live: f.write(json.dumps(ev[i]) + "\n")
        try: new = {live[j] for j in run.validate(tr, W, st)}
        except run.CheckError as x:
            print(prop, "ERROR", str(x)[-800:])
            break
        if not new: break
        bad |= new
        gone = {ev[i]["n"] for i in new}
        live = [i for i in live if ev[i]["n"] not in gone]
    miss = collections.Counter()
    for i in done:
        if i not in bad: miss[(done[i][0], ".".join(k for k in done[i][1] if isinstance(k, str)))] += 1
    print(prop, "changes", len(done), "reported", len(done) - sum(miss.values()), dict(miss), flush=True)
    extra = bad - set(done)
    if extra: print("   others reported:", len(extra))
