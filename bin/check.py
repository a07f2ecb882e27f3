#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

Usage: check.py PROP [--tier quick|thorough] [--secs N] [--workers N]
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Any other exit: the check itself could not give an answer."""
import sys, os, json, time, struct, subprocess, shutil, argparse, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
VARIANT = {"C10": "conc"}
SHM_HDR = 40 + 64 + 3968 + 16
QUICK_SECS, THOROUGH_SECS = 36, 560
STALL = 60          # seconds without a finished run: the worker hangs outside the step clock

INFO = json.load(open(os.path.join(VERIF, "bin", "props.json")))

def read_shm(path):
    try: d = open(path, "rb").read()
    except OSError: return None
    if len(d) < SHM_HDR: return None
    magic, fatal, caseno, runs, evhash, plen = struct.unpack_from("<IIQQQQ", d)
    txt = lambda b: b.split(b"\0")[0].decode("utf-8", "replace")
    return dict(fatal=fatal, case=caseno, runs=runs, evhash=evhash, cls=txt(d[40:104]),
                detail=txt(d[104:104 + 3968]), plan=d[SHM_HDR:SHM_HDR + plen].decode("latin1"))

class Worker:
    def __init__(self, sim, prop, seed, w, n, secs, tier, tmp, count=10**9, extra=()):
        self.shm, self.stats, self.log = (os.path.join(tmp, "%s.%d" % (x, w)) for x in ("shm", "stats", "log"))
        self.args = dict(seed=seed, start=w, stride=n, tier=tier)
        cmd = [sim, "explore", prop, "--seed", str(seed), "--start", str(w), "--stride", str(n), "--count", str(count),
               "--deadline", str(secs), "--tier", tier, "--stats", self.stats, "--shm", self.shm] + list(extra)
        self.logf = open(self.log, "wb")
        self.p = subprocess.Popen(cmd, stdout=self.logf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=tmp)
        self.seen, self.t = -1, time.time(); self.hung = False
    def poll(self):
        if self.p.poll() is not None: return True
        try:
            with open(self.shm, "rb") as f: h = f.read(40)
            runs = struct.unpack_from("<IIQQQQ", h)[3] if len(h) == 40 else 0
        except OSError: runs = 0
        if runs != self.seen: self.seen, self.t = runs, time.time()
        elif time.time() - self.t > STALL: self.hung = True; self.p.kill(); self.p.wait(); return True
        return False

def replay(sim, path, tmp, limit=120, tag="r"):
    """-> (violated, hash, class, detail)"""
    shm = os.path.join(tmp, "shm." + tag)
    p = subprocess.run([sim, "replay", path, "--shm", shm, "--alarm", str(limit)], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=tmp)
    out = p.stdout.decode("latin1")
    s = read_shm(shm)
    m = re.search(r"^(HELD|VIOLATED) hash=(\w+)(?: class=(.*))?", out, re.M)
    if m and m.group(1) == "HELD" and p.returncode == 0: return False, m.group(2), "", ""
    if m and m.group(1) == "VIOLATED": return True, m.group(2), m.group(3) or "", s["detail"] if s else ""
    if s and s["fatal"]: return True, "%016x" % s["evhash"], s["cls"], s["detail"]
    if "SLOW" in out: return False, "?", "", "the harness itself took more than %d s" % limit
    if p.returncode == -14: return True, "alarm", "hang", "no end within %d s" % limit
    if p.returncode < 0: return True, "signal", "crash", "killed by signal %d" % -p.returncode
    return False, "?", "", "replay ended with %d" % p.returncode

def kind(c): return c.split(":")[0]

def explore_case(sim, prop, a, case, tmp, alone):
    """Re-runs one case (alone) or the worker's whole sequence up to it, in a fresh process."""
    shm = os.path.join(tmp, "shm.h")
    start = case if alone else a["start"]
    p = subprocess.run([sim, "explore", prop, "--seed", str(a["seed"]), "--start", str(start), "--stride", str(a["stride"]),
                        "--count", str(case + 1), "--tier", a["tier"], "--shm", shm], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=tmp, timeout=900)
    s = read_shm(shm)
    if s and s["fatal"] and s["case"] == case: return True, "%016x" % s["evhash"], s["cls"], s["detail"]
    if p.returncode < 0 and s and s["case"] == case: return True, "signal", "crash", "killed by signal %d" % -p.returncode
    return False, "", "", ""

def known(prop, cls, detail):
    try: lines = open(os.path.join(VERIF, "known-findings.txt")).read().splitlines()
    except OSError: return None
    for l in lines:
        m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*)$", l)
        if m and m.group(1) == prop and kind(m.group(2)) == kind(cls) and m.group(3) in detail: return l
    return None

def report(sim, prop, w, s, tmp, tier):
    """Confirms, minimises and writes the replay file. -> path or None when not reproducible."""
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    cls, detail = s["cls"] or "crash", s["detail"]
    raw = os.path.join(tmp, "raw.plan"); open(raw, "w", encoding="latin1").write(s["plan"])
    limit = 240 if w.hung else 120
    r1 = replay(sim, raw, tmp, limit); r2 = replay(sim, raw, tmp, limit) if r1[0] else r1
    if w.hung and not r1[0]:
        sys.stderr.write("case %d was slow, not hanging; its worker's remaining cases were not run\n" % s["case"]); return "slow"
    base = os.path.join(rdir, "%s-%s-%d-%d" % (prop, tier, w.args["seed"], s["case"]))
    if r1[0] and r2[0] and r1[1] == r2[1]:
        path, chosen, note = base + ".plan", raw, ""
        small = os.path.join(tmp, "min.plan")
        if r1[1] != "alarm":
            try:
                q = subprocess.run([sim, "minimise", raw, small, "--secs", "25" if tier == "quick" else "90"], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=tmp, timeout=240)
                note = q.stdout.decode("latin1").strip()
                if q.returncode == 0 and os.path.exists(small):
                    m1, m2 = replay(sim, small, tmp, limit), replay(sim, small, tmp, limit)
                    if m1[0] and m1[:3] == m2[:3]: chosen, r1 = small, m1
            except subprocess.TimeoutExpired: pass
        body = open(chosen, encoding="latin1").read()
        with open(path, "w", encoding="latin1") as f:
            f.write("# property %s, seed %d, case %d, tier %s\n# %s\n# class %s\n# event-log hash %s\n" %
                    (prop, w.args["seed"], s["case"], tier, note.replace("\n", " "), r1[2], r1[1]))
            for l in r1[3].splitlines(): f.write("#   %s\n" % l)
            for l in describe(body): f.write("# %s\n" % l)
            f.write(body)
        return path, r1[2], r1[3], "plan"
    # the failure depends on what ran before it in the same process
    for alone in (True, False):
        try: a = explore_case(sim, prop, w.args, s["case"], tmp, alone); b = a[0] and explore_case(sim, prop, w.args, s["case"], tmp, alone)
        except subprocess.TimeoutExpired: continue
        if a[0] and b[0] and a[:3] == b[:3]:
            path = base + ".history"
            json.dump(dict(property=prop, args=w.args, case=s["case"], alone=alone, cls=a[2], hash=a[1], detail=a[3],
                           last_plan=s["plan"]), open(path, "w"), indent=1)
            return path, a[2], a[3], "history"
    return None

def describe(body):
    docs = {}
    for l in body.splitlines():
        a = l.split()
        for i, x in enumerate(a[:-1]):
            if x.startswith("doc"):
                try: docs.setdefault(" ".join(a[:i + 1]), bytearray()).extend(bytes.fromhex(a[i + 1].split("*")[0]) * int((a[i + 1].split("*") + [1])[1]))
                except ValueError: pass
                break
    return ["%s = %r" % (k, bytes(v)) if len(v) < 4000 else "%s = %d bytes: %r ... %r" % (k, len(v), bytes(v[:500]), bytes(v[-500:])) for k, v in docs.items()]

def run_replay_file(path):
    t = open(path, encoding="latin1").read()
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if t.lstrip().startswith("{"):
            h = json.loads(t); sim = B.build(VARIANT.get(h["property"], "base"))
            r = explore_case(sim, h["property"], h["args"], h["case"], tmp, h["alone"]); want = h["hash"]; prop = h["property"]
        else:
            prop = re.search(r"^prop (\S+)", t, re.M).group(1); sim = B.build(VARIANT.get(prop, "base"))
            r = replay(sim, path, tmp); m = re.search(r"^# event-log hash (\w+)", t, re.M); want = m.group(1) if m else None
        print("%s class=%s hash=%s (recorded: %s)\n%s" % ("VIOLATED" if r[0] else "HELD", r[2], r[1], want, r[3]))
        if r[0]: print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if r[0] else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)

def determinism(sim, prop, seed, tier, tmp, n):
    """The same cases in two different process splits, and twice: the logs must agree."""
    def go(parts):
        ps = [subprocess.Popen([sim, "explore", prop, "--seed", str(seed), "--start", str(k), "--stride", str(parts), "--count", str(n),
                                "--tier", tier, "--casehash", "--deadline", "60", "--shm", os.path.join(tmp, "shm.d%d" % k)],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=tmp) for k in range(parts)]
        out = {}
        for p in ps:
            for l in p.communicate()[0].decode("latin1").splitlines():
                a = l.split()
                if len(a) == 3 and a[0] == "case": out[int(a[1])] = a[2]
        return out
    a, b = go(4), go(3)
    both = set(a) & set(b)
    return len(both), sorted(k for k in both if a[k] != b[k])

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--secs", type=float); ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--no-evidence", action="store_true"); o = ap.parse_args()
    t0 = time.time(); prop, tier = o.prop, o.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); info = INFO[prop]
    secs = o.secs or float(os.environ.get("VERIF_SECS", 0)) or (QUICK_SECS if tier == "quick" else THOROUGH_SECS)
    sim = B.build(VARIANT.get(prop, "base")); tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        ws = [Worker(sim, prop, seed, w, o.workers, secs, tier, tmp) for w in range(o.workers)]
        bad = []; pending = list(ws); hard = time.time() + secs + 240
        while pending:
            time.sleep(0.1)
            for w in list(pending):
                if not w.poll(): continue
                pending.remove(w); s = read_shm(w.shm)
                if w.p.returncode == 0 and not w.hung: continue
                if w.hung: s["cls"], s["detail"], s["fatal"] = "hang", "no run finished within %d s" % STALL, 1
                elif not s or not s["fatal"]:
                    if w.p.returncode < 0 and w.p.returncode != -9 and s: s["cls"], s["detail"] = "crash", "killed by signal %d" % -w.p.returncode
                    else:
                        sys.stderr.write("worker ended with %s\n%s\n" % (w.p.returncode, open(w.log, errors="replace").read()[-2000:])); return 2
                k = known(prop, s["cls"], s["detail"])
                if k: continue
                bad.append((w, s))
            if bad:     # one reproducible failure is enough; let the others finish their case for a moment
                time.sleep(0.5)
                for w in pending: w.p.kill(); w.p.wait()
                pending = []
            if time.time() > hard:
                for w in pending: w.p.kill(); w.p.wait()
                sys.stderr.write("workers did not end\n"); return 2
        wall = time.time() - t0 - tb
        agg = dict(runs=0, cases=0, steps=0, bytes=0, events=0); maps = dict(faults={}, probes={}); sets = dict(nontrivial=set(), faultsites=set(), edges=set())
        samples, etot = [], 0
        for w in ws:
            if not os.path.exists(w.stats): continue
            try: d = json.load(open(w.stats))
            except ValueError: continue
            for k in agg: agg[k] += d[k]
            for k in maps:
                for n, v in d[k].items(): maps[k][n] = maps[k].get(n, 0) + v
            for k in sets: sets[k].update(d[k])
            etot = d["edges_total"]; samples += d["samples"][:1]
        nviol, rc, found = 0, 0, None
        if bad:
            for w, s in sorted(bad, key=lambda x: len(x[1]["plan"]))[:3]:
                found = report(sim, prop, w, s, tmp, tier)
                if found and found != "slow": break
            if found == "slow": bad, found = [], None
            if bad and not found:
                sys.stderr.write("a failure was seen but could not be reproduced: %s\n%s\n" % (bad[0][1]["cls"], bad[0][1]["detail"])); return 2
            if bad: rc, nviol = 1, 1
        dn, dm = (0, [])
        if not bad:
            dn, dm = determinism(sim, prop, seed, tier, tmp, 24 if tier == "quick" else 120)
            if dm: sys.stderr.write("warning: the event logs of cases %s depend on what ran before them\n" % dm[:10])
        if not bad and (agg["runs"] == 0 or not sets["nontrivial"]):
            sys.stderr.write("nothing was explored\n"); return 2
        hours = max(wall, 0.001) / 3600
        ev = dict(property=prop, tier=tier, seed=seed, level=info["level"], wall_s=round(time.time() - t0, 1), violations=nviol,
            coverage=dict(evaluations=agg["runs"], distinct_nontrivial=len(sets["nontrivial"]), rule=info["rule"],
                samples=samples[:4] or ["(none: the run ended at the violation)"],
                seeds=agg["cases"], runs_per_hour=int(agg["runs"] / hours), seeds_per_hour=int(agg["cases"] / hours),
                simulated_time="the code reads no clock: simulated time is the step count, one step per executed control-flow edge",
                simulated_steps=agg["steps"], simulated_events=agg["events"], input_bytes_delivered=agg["bytes"],
                faults_injected=maps["faults"], distinct_fault_sites=len(sets["faultsites"]),
                distinct_fault_sites_rule="(last control-flow edge before the fault, fault kind)",
                edges_reached=len(sets["edges"]), edges_instrumented=etot, conditions_reached=maps["probes"],
                determinism=dict(cases_rerun_in_another_process_split=dn, differing=len(dm)),
                workers=o.workers, real_components=info["real"], simulated_components=info["stub"]),
            assumptions=info["assumptions"])
        if not o.no_evidence:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        try:
            for l in open(os.path.join(VERIF, "known-findings.txt")):
                if l.startswith("finding: property=%s " % prop): print("KNOWN-FINDING: " + l[len("finding: "):].strip())
        except OSError: pass
        if found:
            print("class %s\n%s" % (found[1], found[2])); print("VIOLATION property=%s replay=%s" % (prop, found[0]))
        else:
            print("HELD property=%s tier=%s seed=%d: %d runs of %d seeds, %d distinct non-trivial, %d/%d edges, %d faults at %d sites, %.0f s" % (prop, tier, seed, agg["runs"],
                  agg["cases"], len(sets["nontrivial"]), len(sets["edges"]), etot, sum(maps["faults"].values()), len(sets["faultsites"]), time.time() - t0))
        return rc
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1:2] == ["replay"]: sys.exit(run_replay_file(sys.argv[2]))
    sys.exit(main())
