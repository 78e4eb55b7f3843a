"""bugs.py [-j N] [-s SEED] ID[:PROP] ...  runs planted bugs against the checks in scratch copies under /tmp/bugw (removed at the end).
An ID that ends in * is a prefix; ID:PROP runs another property's check."""
import json, os, shutil, subprocess, sys, threading, queue, time
a = sys.argv[1:]
j, seed = 3, "1"
while a and a[0] in ("-j", "-s"):
    if a[0] == "-j": j = int(a[1])
    else: seed = a[1]
    a = a[2:]
q = queue.Queue()
for x in a:
    i, _, pr = x.partition(":")
    ids = sorted(d for d in os.listdir("/verif/seeded") if d.startswith(i[:-1])) if i.endswith("*") else [i]
    for d in ids:
        q.put((d, pr or json.load(open(f"/verif/seeded/{d}/meta.json"))["property"]))
res = []
def work(n):
    w = f"/tmp/bugw/{n}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(["rsync", "-a", "--exclude", "target", "/repo", w], check=True) if shutil.which("rsync") else \
        subprocess.run(f"mkdir {w}/repo && cd /repo && tar cf - --exclude=./target . | tar xf - -C {w}/repo", shell=True, check=True)
    subprocess.run(f"mkdir {w}/verif && cd /verif && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C {w}/verif", shell=True, check=True)
    g = ["git", "-C", w + "/repo"]
    subprocess.run(g + ["checkout", "-q", "--", "."], check=True)
    while True:
        try: d, pr = q.get_nowait()
        except queue.Empty: break
        if subprocess.run(g + ["apply", f"/verif/seeded/{d}/patch.diff"]).returncode:
            print(d, "DOES NOT APPLY", flush=True); continue
        t = time.time()
        p = subprocess.run(["./check", pr], cwd=w + "/verif", env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick"), capture_output=True, text=True)
        subprocess.run(g + ["checkout", "-q", "--", "."], check=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{'caught' if p.returncode == 1 and v else 'MISSED' if p.returncode == 0 else 'BROKEN'} {d} {pr} rc={p.returncode} {time.time()-t:.0f}s", flush=True)
        if p.returncode not in (0, 1): print((p.stdout + p.stderr)[-1500:])
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=work, args=(n,)) for n in range(j)]
[t.start() for t in ts]; [t.join() for t in ts]
