#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decide one property on /repo's working tree.

Builds the library (and the checker) from /repo into a scratch directory,
runs the bounded exhaustive exploration, re-runs a failing case alone, writes
evidence/<PROP>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held; 1: violated (VIOLATION line); anything else: error of the check.
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "py"))
sys.dont_write_bytecode = True
import props_table as T
import build as B


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in T.TABLE:
        print("usage: check.py PROP [quick|thorough]"); return 3
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    try:
        kind = T.TABLE[prop]
        if kind[0] == "bin":
            rc, res, known = run_bin(prop, tier, scratch, kind[1])
        else:
            mod = __import__(kind[1])
            rc, res, known = mod.run(prop, tier, scratch)
        if rc not in (0, 1):
            print("ERROR: %s" % (res or {}).get("error", "the check could not be completed")); return rc or 3
        write_evidence(ev, prop, tier, seed, res, time.time() - t0, rc)
        for f in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
        print("%s %s: cases=%s states=%s transitions=%s wall=%.1fs" % (prop, tier, res["cases"], res["states"], res["transitions"], time.time() - t0))
        if rc == 1:
            d = os.path.join(HERE, "out", "replay"); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s.json" % prop)
            v = dict(res["violation"]); v["property"] = prop; v["tier"] = tier
            v["how_to_replay"] = v.get("how_to_replay", "python3 /verif/replay.py %s" % p)
            json.dump(v, open(p, "w"), indent=1)
            print("counterexample: %s" % json.dumps(v)[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_bin(prop, tier, scratch, spec):
    """spec: dict(src, cfg) -> exploration binary following common.h's protocol."""
    exe = B.harness(prop, scratch, spec)
    if exe is None:
        return 3, {"error": "build failed"}, []
    env = dict(os.environ, SHIM_DIR=scratch, **spec.get("env", {}))
    limit = 840 if tier == "quick" else 6 * 3600
    def go(extra=()):
        try:
            p = subprocess.run([exe, prop, tier, scratch] + list(extra), env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, errors="replace")
        except subprocess.TimeoutExpired:
            return 3, None, "time limit", ""
        try: r = json.load(open(os.path.join(scratch, prop + ".result.json")))
        except Exception: r = None
        return p.returncode, r, p.stdout, p.stderr
    rc, res, out, err = go()
    sys.stdout.write(out)
    if rc not in (0, 1) or res is None:
        return 3, {"error": "checker ended with status %s: %s %s" % (rc, out[-2000:], err[-2000:])}, []
    known = []
    if rc == 1:
        v = res["violation"]
        rc2, res2, out2, err2 = go(["--only", "%d:%d" % (v["shard"], v["case"])])
        if rc2 == 1:
            v["reproduced_alone"] = True; v["message_alone"] = res2["violation"]["message"]; v["diagnostics"] = err2[-4000:]
        else:
            # needs the preceding executions of the same process: run the exploration again
            rc3, res3, _, err3 = go()
            if rc3 != 1:
                return 3, {"error": "case %d:%d failed once (%s) and passed when repeated" % (v["shard"], v["case"], v["message"])}, []
            v["reproduced_alone"] = False; v["diagnostics"] = err3[-2000:]
        res["violation"] = v
    else:
        known = probe(prop, exe, scratch, env)
    return rc, res, known


def probe(prop, exe, scratch, env):
    """Which of the recorded known findings still show on this tree."""
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    want = {f["id"]: f for f in kf["findings"] if f["property"] == prop}
    if not want: return []
    p = subprocess.run([exe, prop, "probe", scratch], env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, errors="replace")
    shown = [l.split()[1] for l in p.stdout.splitlines() if l.startswith("PROBE ") and l.endswith(" fails")]
    return ["[%s] %s" % (i, want[i]["what"]) for i in want if i in shown]


def write_evidence(path, prop, tier, seed, res, wall, rc):
    level = T.LEVEL.get(prop, "model_checking")
    cov = {"states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["cases"] - res.get("undef", 0),
           "samples": res.get("samples", [])[:12] or ["(none)"], "bounds": res.get("bounds", ""), "rule": res.get("rule", ""),
           "outcomes": {"accepted": res.get("accepted", 0), "rejected": res.get("rejected", 0), "left_open_by_the_model": res.get("soft", 0), "excluded_as_known_finding_or_undefined": res.get("undef", 0)},
           "exhaustive": rc == 0}
    if level in ("fault_enumeration", "exploration"):
        cov["evaluations"] = res["cases"]; cov["distinct_nontrivial"] = res.get("distinct", res["states"])
    cov.update({"counter_" + k.replace(" ", "_"): v for k, v in res.get("counters", {}).items()})
    e = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
         "assumptions": T.ASSUME.get(prop, []) + T.ASSUME_ALL, "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    tmp = path + ".tmp"
    json.dump(e, open(tmp, "w"), indent=1); os.replace(tmp, path)


if __name__ == "__main__":
    sys.exit(main())
