"""check PROPERTY: decide one property of stacks.rs with the TLA+ specification.

1. build the harness against /repo's working tree;
2. model-check the bounded models of the property (vlib/models.py), which also write
   down the calls and histories they explored as scripts for the harness;
3. execute those scripts and seeded random ones on the real library, recording
   every call with what it answered;
4. have TLC validate the recorded trace against spec/Trace.tla.
"""
import argparse
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import lits, models           # noqa: E402
from vlib.gen import Gen                # noqa: E402

BUILD = HERE + "/.build"
SPEC = HERE + "/spec"
TARGET = BUILD + "/target"
BIN = TARGET + "/debug/vharness"
REPLAY = HERE + "/replay"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
# random commands per run and per round, by property
QUICK_N = 6000
THOROUGH_N = 6000
THOROUGH_S = 600
CHANGED_S = 240


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# --- building -------------------------------------------------------------------------
def build():
    """one at a time: checks may run side by side"""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        build_alone()


def build_alone():
    classes = BUILD + "/classes"
    src = sorted(glob.glob(HERE + "/java/*.java"))
    if not os.path.exists(classes + "/TraceFile.class") or os.path.getmtime(classes + "/TraceFile.class") < max(map(os.path.getmtime, src)):
        r = subprocess.run(["javac", "-cp", JARS, "-d", classes, *src], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac failed:\n" + r.stderr)
    # cargo trusts file times; the crates under test are always rebuilt
    for p in glob.glob(TARGET + "/debug/.fingerprint/stacks*") + glob.glob(TARGET + "/debug/.fingerprint/vharness*"):
        shutil.rmtree(p)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints warn")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=HERE + "/harness", env=env, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("the harness does not build:\n" + r.stderr[-6000:])


# --- running the library -----------------------------------------------------------------
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


HISTORIES = ("C06", "C14", "C15", "C16", "C17", "C18")
HANGS = [3]         # calls that may fail to return before the run goes to the judgement with what it has


def execute(sessions, work, tag, limit=40, crashes=40):
    """run the sessions, return the path of the trace"""
    script, out, prog = (f"{work}/{tag}.{x}" for x in ("script", "trace", "pos"))
    with open(script, "w") as f:
        for s in sessions:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    for p in (out, prog):
        if os.path.exists(p):
            os.remove(p)
    open(out, "w").close()
    env = dict(os.environ, VH_LIMIT=str(limit))
    for k in list(env):
        if k.lower().endswith("_proxy"):
            del env[k]
    start = 0
    while True:
        r = subprocess.run([BIN, script, out, prog, str(start)], env=env, preexec_fn=limits,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if r.returncode == 0:
            return out
        if r.returncode == 2:
            raise CheckError("harness failed: " + r.stderr[-2000:])
        pos = open(prog, "rb").read()
        n, i, head = int.from_bytes(pos[:8], "little"), int.from_bytes(pos[8:16], "little"), pos[16]
        if r.returncode == 5:           # a process of its own is done
            start = n + 1
            if start >= len(sessions):
                return out
            continue
        e = sessions[n]["sessions"][0][0] if isinstance(sessions[n], dict) else sessions[n][i]
        e = dict(e, h=head, n=n, crash="hang" if r.returncode == 3 else "abort")
        with open(out, "a") as f:
            f.write(json.dumps(e) + "\n")
        start = n + 1
        crashes -= 1
        HANGS[0] -= r.returncode == 3
        if start >= len(sessions) or crashes == 0 or HANGS[0] <= 0:
            return out


# --- TLC -----------------------------------------------------------------------------
def tlc(module, cfg, work, env=None, workers="auto", timeout=3600, extra=()):
    meta = f"{work}/meta-{module}"
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-Xss64m", "-Xmx12g", "-DTLA-Library=" + SPEC,
           "-cp", f"{BUILD}/classes:{JARS}", "tlc2.TLC", "-metadir", meta, "-workers", workers,
           "-deadlock", "-noGenerateSpecTE", "-config", cfg, *extra, f"{SPEC}/{module}.tla"]
    e = dict(os.environ, SPEC_DIR=SPEC, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    log = f"{work}/{module}.log"
    with open(log, "w") as f:
        r = subprocess.run(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=work)
    shutil.rmtree(meta, ignore_errors=True)
    text = open(log, errors="replace").read()
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found, 0 states left", text, re.M)
    done = "Model checking completed. No error has been found." in text
    return {"rc": r.returncode, "text": text, "done": done and bool(m),
            "gen": int(m[1]) if m else 0, "distinct": int(m[2]) if m else 0}


class Stats:
    def __init__(self):
        self.states = self.transitions = self.events = self.sessions = 0
        self.mc = []
        self.samples = []
        self.ops = {}


def run_models(prop, tier, work, st, rnd=random.Random(1)):
    """model-check; return the scripts the models explored"""
    out = []
    for k, m in enumerate(models.MODELS.get(prop, {}).get(tier, [])):
        emit = f"{work}/emit{k}"
        cfg = f"{work}/{m['module']}.cfg"
        open(cfg, "w").write(models.cfg(m))
        open(emit, "w").close()
        t = time.time()
        r = tlc(m["module"], cfg, work, {"EMIT": emit}, workers="1" if m.get("history") else "auto")
        if not r["done"]:
            raise CheckError(f"model {m['module']} {m['constants']}: TLC did not complete:\n" + r["text"][-5000:])
        st.states += r["distinct"]
        st.transitions += r["gen"]
        lines = sorted(set(open(emit).read().splitlines()))
        if not lines:
            raise CheckError(f"model {m['module']} produced no scripts")
        ss = [json.loads(x) for x in lines]
        if m.get("history"):
            ss = dedup(ss)
        total = len(ss)
        if m.get("cap") and total > m["cap"]:
            ss = rnd.sample(ss, m["cap"])
        st.mc.append({"model": m["module"], "constants": m["constants"], "invariants": m["invariants"] + m.get("properties", []),
                      "states": r["distinct"], "transitions": r["gen"], "scripts": total, "executed": len(ss), "wall_s": round(time.time() - t, 1)})
        if m.get("history"):
            out += ss
        else:
            flat = [c for s in ss for c in s]
            out += [flat[i:i + 25] for i in range(0, len(flat), 25)]
    return out


def dedup(sessions):
    """drop histories that another history extends"""
    keep = []
    prev = None
    for s in sorted(sessions, key=lambda s: [json.dumps(c, sort_keys=True) for c in s]):
        if prev is not None and s[:len(prev)] != prev:
            keep.append(prev)
        prev = s
    if prev is not None:
        keep.append(prev)
    return keep


PART = 200 << 20        # TLC reads a trace as a whole: longer ones in parts of whole sessions


def validate(trace, work, st):
    """validate a trace; return the indexes of events the specification does not allow"""
    if os.path.getsize(trace) <= PART:
        return validate_part(trace, work, st)
    bad, first, n, size, f, part = [], 0, 0, 0, None, trace + ".part"

    def close():
        f.close()
        bad.extend(first + b for b in validate_part(part, work, st))
        os.remove(part)

    with open(trace) as lines:
        for line in lines:
            if f and size > PART and json.loads(line)["h"] == 1:
                close()
                f, first, size = None, n, 0
            f = f or open(part, "w")
            f.write(line)
            n, size = n + 1, size + len(line)
    close()
    return bad


def validate_part(trace, work, st):
    lines = open(trace).read().splitlines()
    n = len(lines)
    if n == 0:
        raise CheckError("empty trace")
    heads = 0
    for x in lines:
        e = json.loads(x)
        heads += e["h"] == 1
        st.ops[e["op"]] = st.ops.get(e["op"], 0) + 1
    bad = set()
    r = tlc("Trace", SPEC + "/Trace.cfg", work, {"TRACE": trace})
    bad |= {int(x) - 1 for x in re.findall(r'^<<"BAD", (\d+)>>', r["text"], re.M)}
    if not r["done"] or r["distinct"] != n + heads:
        at = evaluation_error(r["text"])
        if at is not None and 0 <= at < n:      # an answer of a shape that no action allows
            bad.add(at)
        elif not bad:
            raise CheckError(f"trace validation did not complete ({r['distinct']} of {n + heads}):\n" + r["text"][-5000:])
    st.states += r["distinct"]
    st.transitions += r["gen"]
    st.events += n
    st.sessions += heads
    return sorted(bad)


def evaluation_error(text):
    """TLC could not evaluate the judgement of an event: the event after the last state"""
    if "The error occurred when TLC was evaluating" not in text and "TLC threw an unexpected exception" not in text \
            and "Attempted to" not in text:
        return None
    ls = re.findall(r"^/\\ l = (\d+)", text, re.M) or re.findall(r"^l = (\d+)", text, re.M)
    return int(ls[-1]) if ls else None


# --- known findings --------------------------------------------------------------------
def findings(prop, work):
    """probe the recorded findings of this property in processes of their own"""
    path = HERE + "/known-findings.txt"
    if not os.path.exists(path):
        return
    for line in open(path):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
        if not m or m[1] != prop:
            continue
        cmd = models.FINDINGS[m[2]]()
        out = execute([[cmd]], work, "finding-" + m[2])
        e = json.loads(open(out).read().splitlines()[-1])
        if "crash" in e or e["r"]["o"] == "panic":
            say(f"KNOWN-FINDING: property={prop} {m[3]}")


# --- reporting ------------------------------------------------------------------------
def report(prop, sessions, trace, bad, tier, seed):
    os.makedirs(REPLAY, exist_ok=True)
    lines = open(trace).read().splitlines()
    seen = {}
    for b in bad:
        e = json.loads(lines[b])
        seen.setdefault(e["n"], []).append(e)
    paths = []
    for n, es in list(seen.items())[:5]:
        body = {"property": prop, "tier": tier, "seed": seed, "session": sessions[n], "events": es[:3],
                "meaning": "the specification (spec/Trace.tla) does not allow the answers in these events"}
        h = hashlib.sha256(json.dumps(sessions[n]).encode()).hexdigest()[:12]
        p = f"{REPLAY}/{prop}-{h}.json"
        json.dump(body, open(p, "w"), indent=1)
        paths.append(p)
        e = json.dumps(es[0])
        say(f"not allowed: {e[:600]}{'...' if len(e) > 600 else ''}")
    for p in paths:
        say(f"VIOLATION property={prop} replay={p}")


def sample(trace, st, rnd):
    lines = open(trace).read().splitlines()
    for x in rnd.sample(lines, min(3, len(lines))):
        st.samples.append(json.loads(x) if len(x) < 3000 else x[:3000])


def evidence(prop, tier, seed, st, wall, violations):
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": st.states, "transitions": st.transitions,
            "traces_validated_against_impl": st.sessions, "events_validated": st.events,
            "events_by_operation": st.ops, "models": st.mc,
            "samples": st.samples[:6],
        },
        "assumptions": ["TLC and java/Crypto.java evaluate the specification correctly",
                        "the harness logs calls and answers faithfully"],
        "wall_s": round(wall, 1), "violations": violations,
    }, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)


# --- main -----------------------------------------------------------------------------
def generate(prop, name, make):
    for extra in ("", "-a", "-b"):          # a generator that trips over a rare draw is started again
        try:
            return make(Gen(f"{prop}-{name}{extra}"))
        except (ArithmeticError, LookupError, TypeError, ValueError) as e:
            say(f"note: generator {prop}-{name}{extra}: {type(e).__name__} {e}")
    raise CheckError(f"generator {prop}-{name} failed")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true", help="keep the working files")
    ap.add_argument("--n", type=int)
    ap.add_argument("--no-models", action="store_true")
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = a.property
    work = f"{BUILD}/work-{prop}-{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    st = Stats()
    rnd = random.Random(seed)
    try:
        if not a.no_build:
            build()
        if a.replay:
            sessions = [json.load(open(a.replay))["session"]]
            trace = execute(sessions, work, "replay")
            bad = validate(trace, work, st)
            if bad:
                report(prop, sessions, trace, bad, tier, seed)
            return 1 if bad else 0
        violations = 0
        rounds = 0
        findings(prop, work)
        scripted = [] if a.no_models else run_models(prop, tier, work, st, rnd)
        scripted += generate(prop, f"{seed}-huge", lambda g: g.huge(prop))
        scripted += generate(prop, f"{seed}-sweep", lambda g: g.sweep(prop))
        n = a.n or models.RANDOM.get(prop, {}).get(tier) or (QUICK_N if tier == "quick" else THOROUGH_N)
        changed = lits.changed()        # more histories for a tree other than the one this was made for
        while True:
            sessions = scripted + generate(prop, f"{seed}-{rounds}", lambda g: g.relatives(getattr(g, prop)(n)) if prop in HISTORIES
                                           else getattr(g, prop)(n))
            scripted = []
            trace = execute(sessions, work, f"r{rounds}")
            bad = validate(trace, work, st)
            sample(trace, st, rnd)
            if bad:
                violations += len(bad)
                report(prop, sessions, trace, bad, tier, seed)
                break
            if not a.keep:
                for p in glob.glob(f"{work}/r{rounds}.*"):
                    os.remove(p)
            rounds += 1
            if HANGS[0] <= 0:
                break
            if rounds >= (1 if tier == "quick" and not changed else 4 if tier == "quick" else 10 ** 9):
                break
            if time.time() - t0 > (CHANGED_S if tier == "quick" else THOROUGH_S):
                break
        evidence(prop, tier, seed, st, time.time() - t0, violations)
        say(f"{prop} {tier}: {st.events} events in {st.sessions} sessions validated, {st.states} states, "
            f"{violations} violations, {time.time() - t0:.0f} s")
        return 1 if violations else 0
    except (CheckError, subprocess.TimeoutExpired) as e:
        say(f"ERROR: {e}")
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
