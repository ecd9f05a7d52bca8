#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decides one property.

1. builds the harness against the working tree of /repo;
2. checks the design models of the property with TLC (spec/MC_*.tla);
3. lets the harness run generated programs against the real code and record what it did;
4. lets TLC decide whether every recorded trace is a behaviour of the specification (spec/Trace.tla).

Exit 0: the property held on everything explored.  Exit 1, with a line VIOLATION: a trace was rejected.
Exit 2: a tool failed.
"""
import collections
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
BIN = os.path.join(HERE, "target", "debug", "jmt-harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# traces per quick run
QUICK = {
    "C01": 1800, "C02": 1200, "C03": 600, "C04": 900, "C05": 700, "C06": 900, "C07": 1400, "C08": 800,
    "C09": 900, "C10": 450, "C11": 1500, "C12": 1800, "C13": 1600, "C14": 700, "C15": 300, "C16": 300,
    "C17": 400, "C18": 1200, "C19": 600, "C20": 1200, "C21": 1400, "C22": 800, "C23": 700, "C24": 2500,
}
THOROUGH_S = 1500          # budget of a thorough run, in seconds
# property -> models whose behaviours are replayed, and how many in a quick run
REPLAY = {"C%02d" % j: (["MC_Hist.cfg", "MC_HistLong.cfg", "MC_HistWide.cfg"], 150) for j in range(1, 24)}
REPLAY["C15"] = (["MC_Sched0.cfg"], 150)
REPLAY["C16"] = (["MC_Sched.cfg"], 150)
REPLAY["C17"] = (["MC_SchedBad.cfg"], 150)
REPLAY["C24"] = (["MC_StoreGen.cfg"], 1200)
# property -> design models (those of quick runs end in _q)
DESIGN = {}
_tree = "C01 C02 C03 C05 C07 C09 C10 C11 C12 C13 C14 C18 C20 C21 C22"
for _cfg, _ps in {
    "MC_TreeOps_q": "C01 C02 C12 C13 C20 C22", "MC_TreePre_q": "C03 C20", "MC_TreePrune_q": "C05 C09 C10 C11",
    "MC_TreeSets_q": "C07 C14 C21", "MC_TreeAppend_q": "C19", "MC_TreeThree_q": "C01 C02 C05 C09 C12 C13 C14",
    "MC_TreeVals_q": "C01 C11", "MC_TreeMix_q": "C19 C22",
    "MC_ProofsKeyBig_q": "C04", "MC_ProofsIcs_q": "C06", "MC_ProofsUpd_q": "C08", "MC_ProofsRangeBig_q": "C18",
    "MC_Store_q": "C24", "MC_Store4": "C24", "MC_Conc_q": "C22 C24",
    "MC_RestoreChunks_q": "C15", "MC_RestoreFaults_q": "C16", "MC_RestoreForged_q": "C17",
    "MC_TreeFour": _tree, "MC_TreeDeep": _tree, "MC_TreeDeep3": _tree + " C19", "MC_TreeLong": _tree + " C19",
    "MC_TreePre3": _tree + " C19", "MC_ProofsUpdBig": "C08 C07", "MC_RestoreFaults": "C15 C16",
    "MC_RestoreForged": "C17", "MC_RestoreForged2": "C17 C16",
}.items():
    for _p in _ps.split():
        _m = re.match("MC_(Tree|Proofs|Restore|Store|Conc)", _cfg).group(0)
        DESIGN.setdefault(_p, []).append((_m + ".tla", _cfg + ".cfg"))

TIER = {"quick": "quick", "thorough": "thorough"}


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable")
    for v in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(v, None)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        fail("the harness does not build")


def tlc(work, module, config, env=None, limit=800, extra=()):
    """Runs TLC in the directory work. Returns its output."""
    meta = os.path.join(work, "states")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss64m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "8",
           "-metadir", meta, "-config", config, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=work, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        fail("TLC ran out of time on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    return r.stdout


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def finished(out):
    return "Model checking completed. No error has been found." in out


def workdir(prop):
    w = os.path.join(HERE, "out", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), w)
    return w


def generate(prop, seed, first, count, out, big):
    return harness(["gen", prop, str(seed), str(first), str(count), out] + (["big"] if big else []), out)


def harness(args, out):
    try:
        r = subprocess.run([BIN] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=820)
    except subprocess.TimeoutExpired:
        fail("the harness ran out of time")
    if r.returncode < 0:
        # the code under test ended the whole process (stack overflow, abort, memory)
        return None, "the harness was ended by signal %d\n%s" % (-r.returncode, r.stdout[-2000:])
    if r.returncode != 0 or not os.path.exists(out):
        fail("the harness failed (%d): %s" % (r.returncode, r.stdout[-2000:]))
    with open(out) as f:
        return json.load(f), ""


def behaviours(work, module, config, part, parts):
    """What TLC writes out of a model that enumerates behaviours."""
    meta = os.path.join(work, "states.%s.%d" % (config, part))
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx3g", "-Xss64m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1",
           "-metadir", meta, "-config", config, module]
    try:
        r = subprocess.run(cmd, cwd=work, env=dict(os.environ, PART=str(part), PARTS=str(parts)), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        fail("TLC ran out of time on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    if not finished(r.stdout):
        print(r.stdout[-3000:])
        fail("TLC failed on " + module)
    return [json.loads(json.loads(l)) for l in r.stdout.splitlines() if l.startswith('"{')], counts(r.stdout)


SHAPE_DEPTHS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 64, 127, 251, 252, 254, 255]


def random_shape(rnd, n):
    while True:
        a = [rnd.choice(SHAPE_DEPTHS) for _ in range(n - 1)]
        if all(a[i] != a[j] or any(x < a[i] for x in a[i + 1:j]) for i in range(n - 1) for j in range(i + 1, n - 1)):
            return a


def jobs_of(prop, work, rnd, config, parts, count):
    """Behaviours to be replayed: up to count of those of some shapes, each with a slice of the steps that may follow."""
    if config.startswith("MC_Sched"):
        seen, (_, d) = behaviours(work, "MC_Sched.tla", config, 0, 1)
        rnd.shuffle(seen)
        res = []
        for b in seen[:count]:
            res.append({"adj": random_shape(rnd, b["n"] + rnd.choice([0, 1, 1])), "n": b["n"], "sched": b["sched"]})
        return res, {"behaviours": len(seen), "states": d}
    if config.startswith("MC_Store"):
        outs = [behaviours(work, "MC_Store.tla", config, p, 29) for p in rnd.sample(range(29), 1 + parts // 3)]
        seen = [b for o in outs for b in o[0]]
        rnd.shuffle(seen)
        res = [{"adj": random_shape(rnd, 2), "over": b["over"], "ops": b["ops"]} for b in seen[:count]]
        return res, {"behaviours": len(seen), "states": sum(o[1][1] for o in outs)}
    k = {"C14": 3, "C21": 2, "C10": 5, "C04": 8, "C08": 8, "C18": 8}.get(prop, 10)
    of = {"MC_Hist.cfg": 34, "MC_HistLong.cfg": 11, "MC_HistWide.cfg": 60}[config]
    mine = rnd.sample(range(of), min(parts, of))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda p: behaviours(work, "MC_Hist.tla", config, p, of), mine))
    seen = [b for o in outs for b in o[0]]
    if prop == "C06":
        seen = [b for b in seen if all(x < 12 for x in b["adj"])]
    res = []
    for b in seen:
        nx = [x for x in b["next"] if not (prop in ("C14", "C21") and x[0] == "p")]
        rnd.shuffle(nx)
        for j in range(0, max(1, len(nx)), k):
            res.append({"adj": b["adj"], "hist": b["hist"], "next": nx[j:j + k], "look": j == 0})
    total = len(res)
    rnd.shuffle(res)
    return res[:count], {"behaviours": total, "states": sum(o[1][1] for o in outs)}


def replay(prop, work, seed, jobs, tally):
    """Replays behaviours. Returns what validate returns."""
    for i, j in enumerate(jobs):
        j["id"] = i
    path = os.path.join(work, "traces.json")

    def go(some):
        with open(os.path.join(work, "jobs.json"), "w") as f:
            json.dump(some, f)
        return harness(["replay", prop, str(seed), os.path.join(work, "jobs.json"), path], path)
    traces, died = go(jobs)
    if traces is None:
        for j in jobs:
            t, d = go([j])
            if t is None:
                return 0, 0, j["id"], {"prop": prop, "seed": seed, "trace": j["id"], "event": 0, "failed": [d], "job": j}
        fail(died)
    s, t, n, rej = accept(prop, work, seed, traces, path, tally)
    if rej:
        rej["job"] = jobs[rej["trace"]]
    return s, t, n, rej


def validate(prop, work, seed, first, count, big, tally):
    """Records traces and validates them. Returns (states, transitions, traces, rejection or None)."""
    path = os.path.join(work, "traces.json")
    traces, died = generate(prop, seed, first, count, path, big)
    if traces is None:
        # find out which trace did it
        for j in range(first, first + count):
            t, d = generate(prop, seed, j, 1, path, big)
            if t is None:
                return 0, 0, j - first, {"prop": prop, "seed": seed, "trace": j, "event": 0, "failed": [d], "big": big}
        fail(died)
    s, t, n, rej = accept(prop, work, seed, traces, path, tally)
    if rej:
        rej["big"] = big
    return s, t, n, rej


def accept(prop, work, seed, traces, path, tally):
    """Lets TLC decide whether the traces in the file are behaviours of the specification."""
    for t in traces:
        for e in t["ev"]:
            tally["%s.%s" % (e["e"], e["api"]) if "api" in e else e["e"]] += 1
    with open(os.path.join(work, "Trace.cfg")) as f:
        cfg = f.read()
    with open(os.path.join(work, "TraceP.cfg"), "w") as f:
        f.write(cfg.replace('{"C01"}', '{"%s"}' % prop))
    out = tlc(work, "Trace.tla", "TraceP.cfg", {"TRACES": path})
    gen, distinct = counts(out)
    n = len(traces)
    if finished(out):
        want = sum(len(t["ev"]) for t in traces)
        if gen > want + 2 * n:
            fail("TLC explored more states than there are events")
        return distinct, gen - n, n, None
    m_tr = re.findall(r"^/\\ trace = (\d+)", out, re.M)
    m_ev = re.findall(r"^/\\ event = (\d+)", out, re.M)
    m_f = re.findall(r"^/\\ failed = (\{.*?\})\s*$", out, re.M | re.S)
    violated = "Invariant Accepted is violated" in out
    if not m_tr:
        # a violation in an initial state cannot be; an error in evaluating a step comes with its trace
        with open(os.path.join(work, "tlc.out"), "w") as f:
            f.write(out)
        print(out[-3000:])
        fail("TLC failed")
    i = int(m_tr[-1]) - 1
    ev = int(m_ev[-1])
    if violated:
        failed = re.findall(r'"([^"]*)"', m_f[-1]) if m_f else []
    else:
        # the outcome is outside the domain of the specification
        err = re.search(r"Error: (?:TLC threw|Evaluating|The |In |Attempted|A non)[^\n]*(?:\n[^\n]+){0,6}", out)
        if "OutOfMemory" in out or "Java heap" in out:
            fail("TLC ran out of memory")
        ev += 1
        failed = ["the outcome is outside the domain of the specification", err.group(0) if err else out[-1500:]]
    t = traces[i]
    return distinct, gen - n, n, {
        "prop": prop, "seed": seed, "trace": t["id"], "event": ev, "failed": failed,
        "events": t["ev"][:ev], "keys": t["nib"], "base": t.get("base"), "terms": t.get("terms"), "label": t.get("label"),
    }


def report(rej):
    d = os.path.join(HERE, "out", "replay")
    os.makedirs(d, exist_ok=True)
    kind = "-replay" if "job" in rej else "-big" if rej["big"] else ""
    p = os.path.join(d, "%s-%s-%s%s.json" % (rej["prop"], rej["seed"], rej["trace"], kind))
    if "job" in rej:
        how = "jmt-harness replay %s %s JOBS OUT, JOBS being a list of the job below" % (rej["prop"], rej["seed"])
    else:
        how = "jmt-harness gen %s %s %s 1 OUT%s" % (rej["prop"], rej["seed"], rej["trace"], " big" if rej["big"] else "")
    rej["how"] = how + ", then TLC on spec/Trace.tla"
    with open(p, "w") as f:
        json.dump(rej, f)
    for x in rej["failed"]:
        print("rejected: trace %s event %s: %s" % (rej["trace"], rej["event"], x))
    if rej.get("events"):
        print("event: " + json.dumps(rej["events"][-1])[:1500])
    print("VIOLATION property=%s replay=%s" % (rej["prop"], p), flush=True)


def known(prop):
    """Reproduces the known findings of the property."""
    lines = []
    with open(os.path.join(HERE, "KNOWN_FINDINGS")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) repro=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r = subprocess.run([BIN, m.group(2)], stdout=subprocess.PIPE, text=True, timeout=120)
                if r.stdout.strip() == "present":
                    print("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)), flush=True)
                    lines.append(m.group(2))
    return lines


def sample(work):
    """A short, actual case of this run."""
    with open(os.path.join(work, "traces.json")) as f:
        traces = json.load(f)
    res = []
    for t in traces[:2]:
        evs = []
        for e in t["ev"][:14]:
            s = json.dumps({k: v for k, v in e.items() if k not in ("nodes", "stale", "vals", "upd", "left")})
            evs.append(s if len(s) < 300 else s[:300] + "...")
        res.append({"trace": t["id"], "keys": len(t["nib"]), "events_in_trace": len(t["ev"]), "first_events": evs})
    return res


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    if tier not in TIER or prop not in QUICK:
        fail("usage: check.py PROP [quick|thorough]")
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    build()
    work = workdir(prop)
    tally = collections.Counter()
    design = {}
    states = trans = ntr = 0
    rej = None
    rnd = random.Random("%s %s" % (prop, seed))
    replays = collections.Counter()

    def rep(config, parts, count):
        nonlocal states, trans, ntr, rej
        jobs, info = jobs_of(prop, work, rnd, config, parts, count)
        s, t, n, rej = replay(prop, work, seed, jobs, tally)
        states, trans, ntr = states + s, trans + t, ntr + n
        for k, v in info.items():
            replays["%s %s" % (config, k)] += v
        replays["%s replayed" % config] += len(jobs)
    try:
        found = known(prop)
        batches = 0
        if tier == "quick":
            todo = [(0, QUICK[prop], False)]
        else:
            n = max(20, QUICK[prop] // 2)
            todo = ((1_000_000 * (j % 3 + 1) + (j // 3) * n, n if j % 3 else max(10, n // 8), j % 3 == 0) for j in range(10**6))
        for first, count, big in todo:
            if tier == "thorough" and batches and time.time() - t0 > THOROUGH_S:
                break
            s, t, n, rej = validate(prop, work, seed, first, count, big, tally)
            states, trans, ntr, batches = states + s, trans + t, ntr + n, batches + 1
            if rej:
                break
            if tier == "thorough" and prop in REPLAY:
                cfgs = REPLAY[prop][0]
                rep(cfgs[batches % len(cfgs)], 6, max(40, REPLAY[prop][1] * 3))
                if rej:
                    break
        if not rej and tier == "quick" and prop in REPLAY:
            rep(REPLAY[prop][0][0], 4, REPLAY[prop][1])
        if not rej:
            for j, (module, cfg) in enumerate(DESIGN.get(prop, [])):
                if tier == "quick" and not cfg.endswith("_q.cfg"):
                    continue
                out = tlc(work, module, cfg)
                if not finished(out):
                    print(out[-3000:])
                    fail("the design model %s with %s does not hold" % (module, cfg))
                g, d = counts(out)
                design["%s/%s" % (module, cfg)] = {"states": d, "transitions": g}
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states + sum(x["states"] for x in design.values()),
                "transitions": trans + sum(x["transitions"] for x in design.values()),
                "traces_validated_against_impl": ntr - (1 if rej else 0),
                "events_by_kind": dict(sorted(tally.items())),
                "design_models": design,
                "behaviours_replayed": dict(replays),
                "known_findings_reproduced": found,
                "samples": sample(work) if not rej or rej.get("events") else [str(rej["failed"])],
            },
            "assumptions": ["SHA-256 is collision-free (digests are compared as terms of the hash function)"],
            "wall_s": round(time.time() - t0, 1),
            "violations": 1 if rej else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if rej:
        report(rej)
        sys.exit(1)
    print("property=%s held: %d traces, %d states, %.1f s" % (prop, ntr, states, time.time() - t0))


if __name__ == "__main__":
    main()
