#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working tree,
explores, replays what it found, writes evidence/<id>.json.
usage: run.py ID [--tier quick|thorough] [--replay FILE] [--keep]"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
os.environ.setdefault("REPO", "/repo")
import checks

def sh(cmd, log):
    with open(log, "a") as f:
        f.write("$ " + cmd + "\n"); f.flush()
        return subprocess.Popen(cmd, shell=True, stdout=f, stderr=f, cwd=V)

def build(chk, B, tier):
    """all build commands of a check, in parallel within each phase"""
    t0 = time.time()
    env = {"B": B, "V": V, "R": os.environ["REPO"]}
    for phase in chk.get("build", []):
        ps = []
        for i, c in enumerate(phase):
            for k, v in env.items(): c = c.replace("{%s}" % k, v)
            log = f"{B}/build.{i}.log"
            ps.append((c, log, sh(c, log)))
        bad = False
        for c, log, p in ps:
            if p.wait():
                bad = True
                print("BUILD FAILED:", c); print(open(log).read()[-4000:])
        if bad: return None
    return time.time() - t0

def known(pid):
    r = []
    fn = os.path.join(V, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) stage=(\S+) key=(\S+) case=/(.*)/ -- (.*)", l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3), re.compile(m.group(4)), m.group(5)))
    return r

def stage_cmd(st, B, D, tier, seed, budget):
    exe = st["exe"].replace("{B}", B)
    return [exe, "--out", D, "--tier", tier, "--seed", str(seed), "--budget", "%.1f" % budget,
            "--workers", str(st.get("workers", min(8, os.cpu_count() or 8)))] + (["--hang", str(st["hang"])] if "hang" in st else [])

def stage_env(st, B, D):
    e = dict(os.environ)
    e.update({"RANKDIR": B, "MC_SCRATCH": D, "REPO": os.environ["REPO"], "VERIF": V, "BUILD": B,
              "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_odr_violation=0", "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:abort_on_error=1"})
    e.update({k: v.replace("{B}", B) for k, v in st.get("env", {}).items()})
    return e

def run_stage(st, B, name, tier, seed, budget, extra=()):
    D = f"{B}/d.{name}"
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    p = subprocess.Popen(stage_cmd(st, B, D, tier, seed, budget) + list(extra), env=stage_env(st, B, D), cwd=D,
                         stdout=open(D + "/stdout", "w"), stderr=subprocess.STDOUT, start_new_session=True)
    try:
        rc = p.wait(timeout=budget * 1.5 + 200)
    except subprocess.TimeoutExpired:
        rc = None
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    r = dict(V=[], S=[], N=[], T={}, rc=rc, D=D)
    if os.path.exists(D + "/log"):
        for l in open(D + "/log", errors="replace"):
            f = l.rstrip("\n").split("\t")
            if f[0] == "V" and len(f) >= 6: r["V"].append(dict(idx=f[1], where=f[2], key=f[3], desc=f[4], msg=f[5]))
            elif f[0] == "S" and len(f) >= 4: r["S"].append(f[3])
            elif f[0] == "N" and len(f) >= 4: r["N"].append(f[3])
            elif f[0] == "T":
                for kv in f[1:]:
                    k, v = kv.split("="); r["T"][k] = float(v) if k == "wall" else int(v)
    return r

def count_sets(D):
    import array
    n = {}
    for pre in ("out.", "st."):
        fs = [f for f in os.listdir(D) if f.startswith(pre)]
        a = None
        try:
            import numpy
            arr = [numpy.fromfile(os.path.join(D, f), dtype=numpy.uint64) for f in fs]
            n[pre] = int(numpy.unique(numpy.concatenate(arr)).size) if arr else 0
        except ImportError:
            s = set()
            for f in fs:
                x = array.array("Q"); x.frombytes(open(os.path.join(D, f), "rb").read()); s.update(x)
            n[pre] = len(s)
        for f in fs: os.remove(os.path.join(D, f))
    return n["out."], n["st."]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = checks.CHECKS[pid]
    t0 = time.time()
    B = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    rc = 2
    try:
        rc = drive(a, pid, tier, seed, chk, B, t0)
    finally:
        if not a.keep: shutil.rmtree(B, ignore_errors=True)
        else: print("kept", B)
    sys.exit(rc)

def drive(a, pid, tier, seed, chk, B, t0):
    if build(chk, B, tier) is None: return 2
    t_build = time.time() - t0
    if a.replay:
        rp = json.load(open(a.replay))
        st = [s for s in chk["stages"] if s["name"] == rp["stage"]][0]
        os.environ["MC_VERBOSE"] = "1"
        r = run_stage(st, B, "replay", rp["tier"], seed, 300, ["--replay", rp["idx"], "--sub", rp["where"]])
        print(open(r["D"] + "/stdout").read()[-8000:])
        for v in r["V"]: print("V", v)
        if r["V"]:
            print(f"VIOLATION property={pid} replay={os.path.abspath(a.replay)}")
            return 1
        return 0
    budget = a.budget or chk.get("budget", {}).get(tier, 45 if tier == "quick" else 600)
    tot = dict(evals=0, steps=0, execs=0, cases=0, skipped=0)
    samples, notes, stages, viol, findings = [], [], [], [], {}
    outs = states = 0
    kn = known(pid)
    weight = sum(s.get("weight", 1) for s in chk["stages"])
    broken = []
    for st in chk["stages"]:
        r = run_stage(st, B, st["name"], tier, seed, budget * st.get("weight", 1) / weight)
        if r["rc"] != 0 or not r["T"]:
            broken.append(f"stage {st['name']}: exit {r['rc']}: " + open(r["D"] + "/stdout").read()[-1500:])
            continue
        for k in tot: tot[k] += r["T"].get(k, 0)
        o, s_ = count_sets(r["D"])
        outs += o; states += s_
        samples += [f"[{st['name']}] {x}" for x in r["S"][:6]]
        notes += r["N"]
        stages.append(dict(name=st["name"], **r["T"], distinct_outcomes=o, states=s_, truncated=r["N"].count("truncated")))
        # known findings first, then confirm the rest by replaying in a fresh process
        fresh = {}
        for v in r["V"]:
            hit = None
            for stage, key, rx, text in kn:
                if stage in (st["name"], "*") and key == v["key"] and rx.search(v["desc"] + " | " + v["msg"]): hit = text
            if hit: findings[hit] = findings.get(hit, 0) + 1
            else: fresh.setdefault(v["key"], []).append(v)
        n = 0
        for key, vs in fresh.items():
            for v in vs[:3]:
                if n >= 12: break
                n += 1
                q = run_stage(st, B, "confirm", tier, seed, 300, ["--replay", v["idx"], "--sub", v["where"]])
                ok = [w for w in q["V"] if w["key"] == v["key"]] or ([] if key == "hang" else q["V"])
                if key == "hang" and not ok: notes.append("hang not reproduced alone: " + v["desc"]); continue
                if key == "harness": broken.append("harness: " + v["msg"]); continue
                v["confirmed"] = bool(ok)
                if not ok:
                    # not reproducible from the recorded case alone: run the whole case
                    q = run_stage(st, B, "confirm", tier, seed, 300, ["--replay", v["idx"]])
                    v["confirmed"] = bool(q["V"])
                viol.append(dict(stage=st["name"], tier=tier, property=pid, **v))
                break
    rc = 0
    os.makedirs(f"{V}/replays", exist_ok=True)
    for i, v in enumerate(viol[:10]):
        fn = f"{V}/replays/{pid}-{v['stage']}-{re.sub('[^A-Za-z0-9]+', '_', v['key'])}.json"
        json.dump(v, open(fn, "w"), indent=1)
        print(f"  {v['key']}: {v['desc'][:300]}\n    {v['msg'][:600]}" + ("" if v["confirmed"] else "  (not reproduced in isolation)"))
        print(f"VIOLATION property={pid} replay={fn}")
        rc = 1
    for t, n in findings.items(): print(f"KNOWN-FINDING: property={pid} {t} ({n} cases)")
    if broken and rc == 0:
        print("CHECK ERROR:", *broken, sep="\n"); rc = 2
    samples = samples[:16] or ["none"]
    cov = dict(samples=samples, rule=chk["rule"], evaluations=tot["evals"], cases=tot["cases"], distinct_nontrivial=outs,
               cases_not_reached_in_budget=tot["skipped"], exhaustive=tot["skipped"] == 0 and not any(s["truncated"] for s in stages), stages=stages)
    if chk["level"] == "model_checking":
        cov.update(states=states or outs, transitions=tot["steps"], traces_validated_against_impl=tot["execs"])
    ev = dict(property=pid, tier=tier, seed=seed, level=chk["level"], coverage=cov, assumptions=chk.get("assumptions", []) + [n for n in dict.fromkeys(notes) if n != "truncated"][:10],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    tmp = f"{V}/evidence/.{pid}.{os.getpid()}"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{V}/evidence/{pid}.json")
    print(f"{pid} {tier}: {tot['cases']} cases, {tot['execs']} executions, {tot['evals']} checks, {states} states, {outs} distinct outcomes, {tot['skipped']} not reached; build {t_build:.1f}s total {time.time()-t0:.1f}s")
    return rc
if __name__ == "__main__": main()
