#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]  -> exit 0 held / 1 VIOLATION"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYV = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PYV):
    PYV = "python3-vt"
PYR = "/opt/venv/bin/python"


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def setup():
    for py, mods in ((PYV, "z3, mpmath"), (PYR, "numpy, scipy, build123d")):
        subprocess.run([py, "-c", "import " + mods], check=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)


def wait(p, deadline):
    """stderr of p; at the deadline the whole process group is stopped"""
    try:
        return p.communicate(timeout=max(1, deadline - time.time()))[1]
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return "time limit"


def main():
    t0 = time.time()
    if sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = []
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1:]
    seed = os.environ.get("VERIF_SEED", "1")
    verbose = "-v" in sys.argv or "-vv" in sys.argv
    tmp = tempfile.mkdtemp(prefix="ggg_")
    so, no = os.path.join(tmp, "sym.json"), os.path.join(tmp, "num.json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    lim = 560 if tier == "quick" else 20000
    ps = subprocess.Popen([PYV, os.path.join(HERE, "engine/symrun.py"), pid, tier, seed, so] + only, env=env, stderr=subprocess.PIPE, text=True, start_new_session=True)
    pn = subprocess.Popen([PYR, os.path.join(HERE, "engine/numrun.py"), "sample", pid, tier, seed, no, "1"] + only, env=env, stderr=subprocess.PIPE, text=True, start_new_session=True)
    es = wait(ps, t0 + lim)
    en = wait(pn, t0 + lim + 20)
    try:
        sym = json.load(open(so))
    except Exception:
        sym = []
        print("symbolic side failed:", es[-1500:])
    num = None
    try:
        num = json.load(open(no))
    except Exception:
        print("concrete side failed:", en[-1500:])

    problems = []  # (kind, text, harness, inputs)
    # --- concrete failures
    for r in num or []:
        if r["fail"]:
            problems.append(("input", r["name"], r["fail"]["fails"][0], r["fail"]))
    if num is None and "time limit" in en:
        num = []
    elif num is None:
        # the package cannot even be imported / run
        problems.append(("broken", "import", ("package loads", (en or "")[-400:]), {}))
    bad_h = {p[1] for p in problems}
    # --- symbolic refutations
    total = disch = 0
    by = {}
    bounded = []
    undec = []
    for r in sym:
        for name, a in r["obligations"].items():
            total += 1
            if a["refuted"]:
                if r["name"] not in bad_h:
                    inp = None
                    if a["cex"]:
                        f = os.path.join(tmp, "in.json")
                        json.dump(dict(inputs=a["cex"]), open(f, "w"))
                        rp = subprocess.run([PYR, os.path.join(HERE, "engine/numrun.py"), "replay", pid, r["name"], f], env=env, capture_output=True, text=True)
                        try:
                            j = json.loads(rp.stdout.strip().splitlines()[-1])
                            if j["status"] == "fail":
                                inp = dict(inputs=j["inputs"], fails=j["fails"])
                        except Exception:
                            pass
                    problems.append(("input" if inp else "noinput", r["name"], (name, a["info"]), inp or dict(cex=a["cex"])))
            elif a["undecided"]:
                undec.append((r["name"], name, a["info"]))
            else:
                disch += 1
                for b, n in a["backends"].items():
                    by[b] = by.get(b, 0) + n
        if r["raised"]:
            for info, inp in r["raised"]:
                if inp is not None and r["name"] not in bad_h:
                    f = os.path.join(tmp, "in.json")
                    json.dump(dict(inputs=inp), open(f, "w"))
                    rp = subprocess.run([PYR, os.path.join(HERE, "engine/numrun.py"), "replay", pid, r["name"], f], env=env, capture_output=True, text=True)
                    hit = False
                    try:
                        j = json.loads(rp.stdout.strip().splitlines()[-1])
                        if j["status"] == "fail":
                            problems.append(("input", r["name"], ("no exception", info), dict(inputs=j["inputs"], fails=j["fails"])))
                            hit = True
                    except Exception:
                        pass
                    if hit:
                        break
            undec.append((r["name"], "(path)", "raised: " + r["raised"][0][0]))
        if r["errors"]:
            undec.append((r["name"], "(engine)", "; ".join(r["errors"])))
        if not r["obligations"] and not r["errors"] and not r["raised"]:
            undec.append((r["name"], "(vacuous)", "no obligation reached"))
    # --- bounded stand-in for what the verifier did not settle: deeper sampling
    und_h = sorted({u[0] for u in undec})
    if und_h and not problems and num is not None:
        p2 = os.path.join(tmp, "num2.json")
        p4 = subprocess.Popen([PYR, os.path.join(HERE, "engine/numrun.py"), "sample", pid, tier, str(int(seed) + 1000), p2, "4"] + und_h, env=env, stderr=subprocess.PIPE, text=True, start_new_session=True)
        wait(p4, time.time() + (200 if tier == "quick" else 5000))
        try:
            for r in json.load(open(p2)):
                if r["fail"]:
                    problems.append(("input", r["name"], r["fail"]["fails"][0], r["fail"]))
                for o in num:
                    if o["name"] == r["name"]:
                        o["ok"] += r["ok"]
        except Exception:
            pass
    if verbose:
        for r in sym:
            print(f"  {r['name']}: paths={r['paths']} obl={len(r['obligations'])} t={r.get('seconds')} smt={(r.get('smt') or {}).get('queries')}/{(r.get('smt') or {}).get('time',0):.1f}s")
            for n, a in r["obligations"].items():
                if a["refuted"] or a["undecided"]:
                    print("     ", n, {k: a[k] for k in ("proved", "refuted", "undecided", "info")}, "cex" if a["cex"] else "")
            for e in r["errors"]:
                print("      ERR", e)
            for e in r["raised"]:
                print("      RAISED", e[0])
            if r.get("def_assumed"):
                print("      DEFS assumed", r["def_assumed"])
        for r in num or []:
            if "-vv" in sys.argv or r["fail"] or not r["ok"]:
                print("  num", {k: (v if k != "fail" else v and v["fails"]) for k, v in r.items()})
    # --- known findings
    kf = known(pid)
    out = []
    for p in problems:
        k = next((k for k in kf if k["harness"] == p[1] and k["obligation"] in p[2][0]), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            out.append(p)
    shutil.rmtree(tmp, ignore_errors=True)
    bounded_obs = [r for r in (num or []) if r["name"] not in {s["name"] for s in sym} or r["name"] in und_h]
    funcs = sorted({f for r in sym for f in r["functions"]})
    ev = dict(
        property=pid, tier=tier, seed=int(seed),
        level="proof" if disch else "exploration",
        coverage=dict(
            obligations=total, discharged=disch,
            discharged_by=by,
            checker_cmd=f"python3 /verif/run.py {pid} --tier {tier}",
            harnesses=[dict(name=r["name"], paths=r["paths"], obligations=len(r["obligations"]), seconds=r.get("seconds"), definedness=r.get("defs")) for r in sym],
            functions_executed=funcs,
            functions_under_contract=contract_funcs(pid),
            callees_replaced_by_contract=sorted({s for r in sym for s in r["stubs"]}),
            solver=dict(
                z3_queries=sum(r.get("smt", {}).get("queries", 0) for r in sym),
                z3_seconds=round(sum(r.get("smt", {}).get("time", 0) for r in sym), 2),
            ),
            undecided=[dict(harness=u[0], obligation=u[1], why=str(u[2])[:300]) for u in undec],
            bounded=[dict(harness=r["name"], samples=r["ok"], checks=r["checks"], note="bounded: sampled inputs on the real code, not a proof") for r in bounded_obs],
            concrete_runs=[dict(harness=r["name"], samples=r["ok"], rejected=r["rejected"], checks=r["checks"]) for r in (num or [])],
            trusted_base=TRUSTED,
        ),
        assumptions=sorted({a for r in sym for a in r["assumptions"]}) + ["definedness assumed (not proved): " + d for d in sorted({d for r in sym for d in r.get("def_assumed", [])})[:40]] + GENERAL,
        wall_s=round(time.time() - t0, 2),
        violations=len(out),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print(f"{pid}: obligations={total} discharged={disch} undecided={len(undec)} concrete={sum(r['checks'] for r in num or [])} wall={ev['wall_s']}s")
    if total == 0 and not out and not [r for r in (num or []) if r["checks"]]:
        print("nothing was checked")
        sys.exit(2)
    if out:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{pid}.json")
        json.dump([dict(kind=p[0], harness=p[1], obligation=p[2][0], detail=p[2][1], data=p[3]) for p in out], open(path, "w"), indent=1, default=str)
        p = next((p for p in out if p[0] != "noinput"), out[0])
        for x in out[:6]:
            print(f"  failed obligation: harness={x[1]} obligation={x[2][0]} {str(x[2][1])[:300]}")
        print(f"VIOLATION property={pid} replay={path}" + (" no-failing-input-found" if p[0] == "noinput" else ""))
        sys.exit(1)
    sys.exit(0)


def contract_funcs(pid):
    import re
    s = open(os.path.join(HERE, "specs", pid + ".py")).read()
    fs = set()
    for mm in re.finditer(r"funcs=\[(.*?)\]", s, re.S):
        fs |= set(re.findall(r'"([^"]+)"', mm.group(1)))
    return sorted(fs)


TRUSTED = [
    "CPython 3.12 executing the repository's own code objects on symbolic operands",
    "/verif/engine: path exploration, normal forms (polynomial arithmetic modulo sin^2+cos^2=1, sqrt(p)^2=p), numpy/scipy shims",
    "z3 (nonlinear real arithmetic)",
]
GENERAL = [
    "machine floating point is read as exact real arithmetic; float literals as their decimal value, numpy.pi as pi",
    "array shapes (number of control points, curves, teeth in a list) are those the harness states; the reals inside are unrestricted",
]

if __name__ == "__main__":
    main()
