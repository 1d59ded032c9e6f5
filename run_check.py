#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  run_check.py C01 [quick|thorough]     build from /repo, search, report
  run_check.py --replay FILE            build and replay a recorded violation

Exit 0: the property held in every simulated run.  Exit 1: a VIOLATION line was printed.
Exit 2: the machinery itself failed.
"""
import os, sys, time, subprocess, json, re, shutil, struct, random, signal, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build as B
import props

VERIF = B.VERIF
NPROC = os.cpu_count() or 8

class Harness(Exception):
    pass

# ------------------------------------------------------------------ plan text
def parse_plans(text):
    plans, cur = [], None
    for line in text.splitlines():
        if not line.strip() or line.startswith("#"):
            continue
        w = line.split()
        if w[0] == "prop":
            cur = {"prop": w[1], "seed": "0", "knobs": [], "steps": []}
        elif w[0] == "seed":
            cur["seed"] = w[1]
        elif w[0] == "knob":
            cur["knobs"].append([w[1], int(w[2])])
        elif w[0] == "step":
            cur["steps"].append({"op": w[1], "a": [[kv.split("=")[0], int(kv.split("=")[1])] for kv in w[2:]], "f": []})
        elif w[0] == "fault":
            cur["steps"][-1]["f"].append([w[1], int(w[2]), int(w[3])])
        elif w[0] == "end":
            plans.append(cur); cur = None
    return plans

def plan_text(p):
    o = ["prop " + p["prop"], "seed " + p["seed"]]
    o += ["knob %s %d" % tuple(k) for k in p["knobs"]]
    for s in p["steps"]:
        o.append("step " + s["op"] + "".join(" %s=%d" % tuple(a) for a in s["a"]))
        o += ["fault %s %d %d" % tuple(f) for f in s["f"]]
    return "\n".join(o + ["end"]) + "\n"

def plans_text(ps):
    return "".join(plan_text(p) for p in ps)

# -------------------------------------------------------------------- running
VIOL = re.compile(r"^VIOL class=(\S+) prop=(\S+) seed=(\d+) step=(-?\d+) hash=(\w+) detail=(.*)$", re.M)
HERR = re.compile(r"^HERR .*$", re.M)

def outcome(rc, out):
    """(kind, class, hash, detail, seed) of a finished simulator process."""
    m = VIOL.search(out)
    if m:
        return ("viol", m.group(1), m.group(5), m.group(6), int(m.group(3)))
    if HERR.search(out):
        return ("herr", "", "", HERR.search(out).group(0), 0)
    if rc == 0:
        return ("ok", "", "", "", 0)
    at = re.findall(r"^AT (\d+)$", out, re.M)
    return ("died", "died-%d" % rc, "-", "the process ended with status %d without a report" % rc, int(at[-1]) if at else 0)

class Sim:
    """One built simulator."""
    def __init__(self, cfg, exe, work, wrapper=None):
        self.cfg, self.exe, self.work = cfg, exe, work
        self.n = 0
    def cmd(self, args):
        return [self.exe] + [str(a) for a in args]
    def replay(self, plans, timeout=120):
        self.n += 1
        f = os.path.join(self.work, "r%d-%d.plan" % (self.n, random.getrandbits(40)))
        open(f, "w").write(plans_text(plans))
        try:
            r = subprocess.run(self.cmd(["replay", f]), capture_output=True, text=True, errors="replace", timeout=timeout)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, out = 1, "VIOL class=hang prop=- seed=0 step=0 hash=- detail=no end within the wall clock limit\n"
        os.unlink(f)
        return outcome(rc, out)
    def gen(self, prop, seed):
        r = subprocess.run(self.cmd(["gen", prop, seed]), capture_output=True, text=True)
        if r.returncode:
            raise Harness("cannot generate plan: " + r.stderr[-500:])
        return parse_plans(r.stdout)

def search(sims, prop, seed0, ms, nworkers_of):
    """Runs workers; returns (violation or None, stats per cfg, shapes, traces)."""
    procs = []
    for cfg, sim in sims.items():
        n = nworkers_of[cfg]
        for w in range(n):
            sf = os.path.join(sim.work, "shape-%s-%d" % (cfg, w))
            out = open(os.path.join(sim.work, "out-%s-%d" % (cfg, w)), "w+")
            p = subprocess.Popen(sim.cmd(["run", prop, seed0 + w, n, 10**9, ms, sf]), stdout=out, stderr=subprocess.DEVNULL)
            procs.append(dict(p=p, sim=sim, cfg=cfg, w=w, n=n, sf=sf, out=out, seed0=seed0 + w))
    # a second process repeats some seeds in another order: same traces expected
    dets = []
    for cfg, sim in sims.items():
        sf = os.path.join(sim.work, "det-%s" % cfg)
        out = open(os.path.join(sim.work, "detout-%s" % cfg), "w+")
        p = subprocess.Popen(sim.cmd(["run", prop, seed0, 1, 40, ms, sf]), stdout=out, stderr=subprocess.DEVNULL)
        dets.append(dict(p=p, sim=sim, cfg=cfg, sf=sf, out=out))
    deadline = time.time() + ms / 1000 + 150
    found = []
    pending = list(procs)
    while pending:
        for q in list(pending):
            rc = q["p"].poll()
            if rc is None:
                if time.time() > deadline:
                    q["p"].kill(); q["p"].wait(); rc = -9
                else:
                    continue
            pending.remove(q)
            q["out"].seek(0)
            q["text"] = q["out"].read()
            q["rc"] = rc
            oc = outcome(rc, q["text"])
            if oc[0] != "ok":
                found.append((q, oc))
        if found:
            break
        time.sleep(0.05)
    if found:
        for q in pending:
            q["p"].kill(); q["p"].wait()
    for d in dets:
        if found:
            d["p"].kill()
        d["p"].wait()
    return procs, dets, found

def collect(procs, dets):
    stats, shapes, traces = {}, set(), {}
    for q in procs:
        if q.get("rc") != 0:
            continue
        for k, v in re.findall(r"^STAT (\S+) (\d+)$", q["text"], re.M):
            stats[k] = stats.get(k, 0) + int(v)
        try:
            d = open(q["sf"], "rb").read()
            shapes.update((q["cfg"], x[0]) for x in struct.iter_unpack("<Q", d[: len(d) // 8 * 8]))
            d = open(q["sf"] + ".trace", "rb").read()
            for s, h in struct.iter_unpack("<QQ", d):
                traces[(q["cfg"], s)] = h
        except OSError:
            pass
    same = differ = 0
    for d in dets:
        try:
            b = open(d["sf"] + ".trace", "rb").read()
        except OSError:
            continue
        for s, h in struct.iter_unpack("<QQ", b):
            if (d["cfg"], s) in traces:
                if traces[(d["cfg"], s)] == h: same += 1
                else: differ += 1
    return stats, len(shapes), same, differ

# ----------------------------------------------------------------- minimising
def minimise(sim, plans, cls, budget_s):
    """Smallest plan list that still ends in the same violation class."""
    t_end = time.time() + budget_s
    tries = [0]
    def bad(ps):
        if time.time() > t_end:
            return False
        tries[0] += 1
        o = sim.replay(ps)
        return o[0] in ("viol", "died") and o[1] == cls
    cur = json.loads(json.dumps(plans))
    # 1. fewer plans (the last one fails)
    if len(cur) > 1:
        k = len(cur) - 1
        chunk = k
        while chunk >= 1 and len(cur) > 1:
            i, progress = 0, False
            while i < len(cur) - 1:
                cand = cur[:i] + cur[min(i + chunk, len(cur) - 1):]
                if bad(cand):
                    cur, progress = cand, True
                else:
                    i += chunk
            if chunk == 1 and not progress: break
            chunk = max(1, chunk // 2) if chunk > 1 else (1 if progress else 0)
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for pi in range(len(cur)):
            p = cur[pi]
            # 2. fewer steps
            chunk = max(1, len(p["steps"]) // 2)
            while chunk:
                i = 0
                while i < len(p["steps"]):
                    cand = json.loads(json.dumps(cur))
                    del cand[pi]["steps"][i:i + chunk]
                    if cand[pi]["steps"] and bad(cand):
                        cur = cand; p = cur[pi]; progress = True
                    else:
                        i += chunk
                chunk //= 2
            # 3. fewer faults
            for si in range(len(p["steps"])):
                fi = 0
                while fi < len(cur[pi]["steps"][si]["f"]):
                    cand = json.loads(json.dumps(cur))
                    del cand[pi]["steps"][si]["f"][fi]
                    if bad(cand):
                        cur = cand; progress = True
                    else:
                        fi += 1
            p = cur[pi]
            # 4. smaller numbers
            def shrink(get, put):
                nonlocal cur, progress
                v = get(cur)
                for c in [0, 1, v // 2, v - 1]:
                    if 0 <= c < v and time.time() < t_end:
                        cand = json.loads(json.dumps(cur))
                        put(cand, c)
                        if bad(cand):
                            cur = cand; progress = True
                            return
            for si in range(len(p["steps"])):
                for ai in range(len(p["steps"][si]["a"])):
                    if p["steps"][si]["a"][ai][0] in ("t", "f", "via", "sv", "lv"):
                        continue
                    shrink(lambda c: c[pi]["steps"][si]["a"][ai][1], lambda c, x: c[pi]["steps"][si]["a"][ai].__setitem__(1, x))
                for fi in range(len(p["steps"][si]["f"])):
                    if p["steps"][si]["f"][fi][1] > 1:
                        shrink(lambda c: c[pi]["steps"][si]["f"][fi][1], lambda c, x: c[pi]["steps"][si]["f"][fi].__setitem__(1, x) if x else None)
            for ki in range(len(p["knobs"])):
                if p["knobs"][ki][0] in ("t",):
                    continue
                shrink(lambda c: c[pi]["knobs"][ki][1], lambda c, x: c[pi]["knobs"][ki].__setitem__(1, x))
    return cur, tries[0]

# -------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r"finding: property=(\S+) config=(\S+) plan=(\S+) class=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append(dict(config=m.group(2), plan=m.group(3), cls=m.group(4), what=m.group(5)))
    return out

# ----------------------------------------------------------------------- gate
def gate(sim, prop, plans):
    """Replays twice in fresh processes; returns the outcome if it is a stable violation."""
    a = sim.replay(plans)
    if a[0] not in ("viol", "died"):
        return None
    b = sim.replay(plans)
    if b[0] == a[0] and b[1] == a[1] and b[2] == a[2]:
        return a
    return None

def resolve(sim, prop, q, oc):
    """Turns what a worker reported into plans that reproduce it in a fresh process."""
    if oc[0] == "died":
        # find the exact seed: repeat the last stretch with every seed announced
        start = max(0, oc[4])
        env = dict(os.environ, SIM_ANNOUNCE="1")
        r = subprocess.run(sim.cmd(["run", prop, start, q["n"], 65, 0, "/dev/null"]), capture_output=True, text=True, errors="replace", env=env, timeout=600)
        oc = outcome(r.returncode, r.stdout)
        if oc[0] not in ("died", "viol"):
            return None, None
    seed = oc[4]
    plans = sim.gen(prop, seed)
    g = gate(sim, prop, plans)
    if g:
        return plans, g
    # depends on what the process did before: replay the whole prefix
    seeds = list(range(q["seed0"], seed + 1, q["n"]))
    for back in (10, 100, 1000, len(seeds)):
        sel = seeds[-back:]
        plans = []
        for s in sel:
            plans += sim.gen(prop, s)
        g = gate(sim, prop, plans)
        if g:
            return plans, g
        if back >= len(seeds):
            break
    return None, None

def save_replay(prop, cfg, plans, g, tries):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.plan" % (prop, cfg, plans[-1]["seed"]))
    with open(path, "w") as f:
        f.write("# property %s, build configuration %s\n# violation class %s\n# trace hash %s\n# %s\n" % (prop, cfg, g[1], g[2], g[3]))
        f.write("# minimised with %d replays; to reproduce: python3 /verif/run_check.py --replay %s\n" % (tries, path))
        f.write("#config %s\n#class %s\n#hash %s\n" % (cfg, g[1], g[2]))
        f.write(plans_text(plans))
    return path

# ----------------------------------------------------------------------- main
def check(prop, tier):
    t0 = time.time()
    info = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = info["quick_ms"] if tier == "quick" else info["thorough_ms"]
    if os.environ.get("VERIF_MS"):
        budget = int(os.environ["VERIF_MS"])
    work = os.path.join(B.BUILD, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return check_in(prop, tier, info, seed, budget, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check_in(prop, tier, info, seed, budget, work, t0):
    sims = {}
    cfgs = info["configs"] if tier == "quick" else info.get("thorough_configs", info["configs"])
    exes = props.build(prop, cfgs, work)
    for cfg in cfgs:
        sims[cfg] = Sim(cfg, exes[cfg], work)
    build_s = time.time() - t0
    # known findings first
    known_lines = 0
    violations = 0
    for k in known_findings(prop):
        if k["config"] not in sims:
            continue
        plans = parse_plans(open(os.path.join(VERIF, k["plan"])).read())
        g = gate(sims[k["config"]], prop, plans)
        if g and g[1] == k["cls"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            known_lines += 1
        elif g:
            path = save_replay(prop, k["config"], plans, g, 0)
            print("class %s: %s" % (g[1], g[3]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
    nw = props.workers(cfgs, NPROC)
    seed0 = seed * 1_000_000_000
    t1 = time.time()
    procs, dets, found = search(sims, prop, seed0, budget, nw)
    run_s = time.time() - t1
    stats, distinct, same, differ = collect(procs, dets)
    rc = 0
    unresolved = []
    for q, oc in found:
        if oc[0] == "herr":
            print("harness error: " + oc[3]); rc = max(rc, 2); continue
        plans, g = resolve(q["sim"], prop, q, oc)
        if not plans:
            unresolved.append(oc)
            continue
        plans, tries = minimise(q["sim"], plans, g[1], 25 if tier == "quick" else 120)
        g2 = gate(q["sim"], prop, plans)
        if not g2:
            unresolved.append(oc); continue
        path = save_replay(prop, q["cfg"], plans, g2, tries)
        print("class %s: %s" % (g2[1], g2[3]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        violations = 1
        rc = 1
        break
    if not violations and unresolved:
        print("not reproducible: %s" % (unresolved[0],)); rc = 2
    fresh_samples = []
    for cfg, sim in sims.items():
        for s in (seed0, seed0 + 3):
            fresh_samples.append({"config": cfg, "seed": s, "plan": "".join(plans_text(sim.gen(prop, s))).splitlines()})
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault:")}
    other = {k: v for k, v in stats.items() if not k.startswith("fault:") and k not in ("runs", "nontrivial", "sim_us", "events")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.get("runs", 0),
            "distinct_nontrivial": distinct,
            "rule": info["rule"],
            "samples": fresh_samples,
            "nontrivial_runs": stats.get("nontrivial", 0),
            "seeds_per_hour": int(stats.get("runs", 0) / max(run_s, 0.001) * 3600),
            "simulated_time_s": stats.get("sim_us", 0) / 1e6,
            "simulated_events": stats.get("events", 0),
            "faults_fired": faults,
            "reach_probes": other,
            "determinism": {"seeds_run_twice_in_different_processes": same + differ, "identical_event_logs": same},
            "real_components": info["real"],
            "stubbed_components": info["stub"],
            "configurations": {c: props.describe(c) for c in cfgs},
            "build_s": round(build_s, 1), "search_s": round(run_s, 1),
            "known_findings_reproduced": known_lines,
        },
        "assumptions": info["assumes"],
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct, %.0f s build, %.0f s search, %d/%d replays identical, rc=%d" %
          (prop, tier, stats.get("runs", 0), distinct, build_s, run_s, same, same + differ, rc))
    return rc

def replay_file(path):
    text = open(path).read()
    cfg = re.search(r"^#config (\S+)", text, re.M).group(1)
    want_cls = re.search(r"^#class (\S+)", text, re.M)
    want_hash = re.search(r"^#hash (\S+)", text, re.M)
    plans = parse_plans(text)
    prop = plans[-1]["prop"]
    work = os.path.join(B.BUILD, "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        exe = props.build(prop, [cfg], work)[cfg]
        sim = Sim(cfg, exe, work)
        o = sim.replay(plans)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if o[0] in ("viol", "died"):
        print("class %s hash %s: %s" % (o[1], o[2], o[3]))
        if want_cls and (want_cls.group(1), want_hash.group(1)) == (o[1], o[2]):
            print("reproduced exactly")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation")
    return 0 if o[0] == "ok" else 2

def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--replay":
            return replay_file(a[1])
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(prop, tier)
    except B.BuildError as e:
        print("build failed: %s" % e); return 2
    except Harness as e:
        print("harness failed: %s" % e); return 2

if __name__ == "__main__":
    sys.exit(main())
