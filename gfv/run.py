"""Check of one property: discharge its contracts on the exported real code, evaluate the same contracts on the compiled real
code, decide, write the evidence.  usage: run.py ID [--tier quick|thorough] [--baseline]"""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import prove as P

VERIF = P.VERIF
BASE_TRUST = [
    "clang 18 front end (AST of the instantiated code, exported by gfv/export/gfexport.cpp) and the symbolic interpreter gfv/*.py",
    "contracts assumed for xtensor / Eigen / std functions (gfv/lib.py; the ones used are listed under library_contracts)",
    "machine integers are treated as mathematical integers (no overflow), doubles as real numbers (no rounding), unless the contract says otherwise",
    "z3 4.x/5.x for the SMT obligations; gfv/terms.py normal forms for the others",
]


def log(*a):
    print(*a)
    sys.stdout.flush()


def compile_harness(pid, src, flags, out):
    cmd = ["g++", "-std=c++17", "-w", "-O1", "-I" + os.path.join(P.REPO, "include"), "-I" + os.path.join(HERE, "rt"),
           "-isystem", "/usr/include/eigen3", '-DGOOSEFEM_VERSION="0"', *flags,
           os.path.join(VERIF, "props", pid, src), "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr


def run_harness(exe, seed, cases, seconds, extra=(), env=None):
    cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--seconds", str(seconds), *extra]
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = "4"
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=seconds + 200, env=e, errors="replace")
    except subprocess.TimeoutExpired:
        return {"error": "harness timeout", "cmd": cmd}
    j = None
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            try:
                j = json.loads(l)
            except Exception:
                pass
        m = re.match(r"GFVH-CRASH signal=(\d+) case=(\d+) seed=(\d+)", l)
        if m:
            j = {"fail": "the process was ended by signal %s%s" % (m.group(1), " (no answer within 120 s)" if m.group(1) == "14" else ""), "case": int(m.group(2)), "seed": int(m.group(3)), "inputs": ""}
    if j is None:
        j = {"error": "no result, exit %d: %s" % (r.returncode, (r.stdout + r.stderr)[-800:])}
    j["cmd"] = cmd
    return j


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(P.BUILD, pid), exist_ok=True)
    m, contracts = P.load_contracts(pid)
    harnesses = getattr(m, "HARNESS", [("harness.cpp", ())])
    secs = getattr(m, "HSECONDS", 8) if tier == "quick" else getattr(m, "HSECONDS_THOROUGH", 120)
    cases = getattr(m, "HCASES", 20000) if tier == "quick" else getattr(m, "HCASES_THOROUGH", 100000000)

    pool = cf.ThreadPoolExecutor(max_workers=8)

    def harness_job(i, src, flags):
        exe = os.path.join(P.BUILD, pid, "harness%d" % i)
        t = time.time()
        rc, err = compile_harness(pid, src, flags, exe)
        if rc:
            return {"error": "compile: " + err[-3000:], "src": src}
        ct = time.time() - t
        r = run_harness(exe, seed, cases, secs)
        r["compile_s"] = round(ct, 1)
        r["src"] = src
        r["exe"] = exe
        return r

    hj = [pool.submit(harness_job, i, h[0], h[1]) for i, h in enumerate(harnesses)]
    pr = {"contracts": [], "export_rc": 0, "export_err": ""}
    if contracts:
        pr = P.prove(pid, tier=tier)
    hres = [h.result() for h in hj]
    # a harness that relies on a tool that may be unable to run here
    skipped = [h["error"] for h, d in zip(hres, harnesses) if len(d) > 2 and h.get("error") and not h["error"].startswith("compile")]
    hres = [h for h, d in zip(hres, harnesses) if not (len(d) > 2 and h.get("error") and not h["error"].startswith("compile"))]

    # ---------------------------------------------------------------- obligations
    base = {}
    bp = os.path.join(VERIF, "props", pid, "baseline.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    obligations = discharged = 0
    by = {}
    undecided, refuted, lost = [], [], []
    fns, libs, assum = set(), set(), set()
    solver = 0.0
    smt = 0
    vac = {}
    nloops = nbounds = 0
    now = {}
    for c in pr["contracts"]:
        name = c["contract"]
        fns |= set(c.get("functions", ()))
        libs |= set(c.get("lib", ()))
        assum |= set(c.get("assumptions", ()))
        solver += c.get("smt_time", 0)
        smt += c.get("smt_calls", 0)
        vac[name] = c.get("vacuity")
        bgoals = base.get(name, {})
        bad = None
        if c["error"]:
            bad = c["error"]
        elif c.get("vacuity") == "unsat":
            bad = "precondition is contradictory"
        if bad:
            undecided.append("%s: %s" % (name, bad))
        tainted = bool(c.get("taint"))
        now[name] = {}
        for g in c["goals"]:
            k = g["goal"]
            ok = g["status"] == "proved" and not bad
            now[name][k] = bool(ok)
            if ok:
                obligations += 1
                discharged += 1
                by[g["backend"]] = by.get(g["backend"], 0) + 1
            else:
                d = "%s / %s: %s %s" % (name, k, g["status"], (g["detail"] or "")[:1500])
                if g["status"] == "sat" and not tainted and not bad and bgoals.get(k):
                    refuted.append(d)
                    obligations += 1
                else:
                    undecided.append(d)
        for k, v in bgoals.items():
            if v and k not in now[name] and k != "#bounds":
                lost.append("%s / %s" % (name, k))
        if not bad:
            b = c.get("bounds", {"discharged": 0, "open": []})
            n = b["discharged"]
            nbounds += n
            obligations += n
            discharged += n
            by["index in bounds (z3/normal form)"] = by.get("index in bounds (z3/normal form)", 0) + n
            now[name]["#bounds"] = not b["open"]
            for o in b["open"]:
                if bgoals.get("#bounds") and o[1] == "sat" and not tainted:
                    refuted.append("%s / element access out of bounds at %s: %s" % (name, o[0], o[2]))
                    obligations += 1
                else:
                    undecided.append("%s / element access at %s: %s %s" % (name, o[0], o[1], o[2][:200]))
            nl = len(c.get("loops", ()))
            nloops += nl
            obligations += nl
            discharged += nl
            if nl:
                by["loop summary side conditions (z3/normal form)"] = by.get("loop summary side conditions (z3/normal form)", 0) + nl
            undecided += ["%s: imprecise: %s" % (name, t) for t in c.get("taint", ())]
    undecided += ["harness not run: " + x[-300:] for x in skipped]
    if pr["export_rc"] or pr["export_err"]:
        undecided.append("export failed: " + pr["export_err"][-500:])
    for c in pr["contracts"]:
        for k in base.get(c["contract"], {}):
            pass
    if "--baseline" in sys.argv:
        json.dump(now, open(bp, "w"), indent=1, sort_keys=True)

    # ---------------------------------------------------------------- decision
    replaydir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replaydir, exist_ok=True)
    replay = os.path.join(replaydir, "%s.txt" % pid)
    viol = None
    herr = [h["error"] for h in hres if h.get("error")]
    for h in hres:
        if h.get("fail"):
            viol = h
            break
    if viol is None and refuted and not herr:
        # look for a failing input with a larger budget
        t1 = time.time()
        for s in range(2, 40):
            for h in hres:
                if time.time() - t1 > 90:
                    break
                r = run_harness(h["exe"], seed * 1000 + s, 10**7, 20)
                if r.get("fail"):
                    r["src"] = h["src"]
                    viol = r
                    break
            if viol or time.time() - t1 > 90:
                break
    rc = 0
    if viol is not None:
        with open(replay, "w") as f:
            f.write("property %s violated on the real code\n\n%s\n\ninputs:\n%s\n" % (pid, viol["fail"], viol.get("inputs", "")))
            f.write("replay: build props/%s/%s against the tree (g++ -std=c++17 -I<repo>/include -Igfv/rt ...), run: %s --seed %s --case %s\n" % (pid, viol.get("src"), os.path.basename(viol["cmd"][0]), viol["seed"], viol["case"]))
            if refuted:
                f.write("\nfailed obligations:\n" + "\n".join(refuted) + "\n")
        log("failing case %s of seed %s: %s" % (viol["case"], viol["seed"], viol["fail"][:1500]))
        for r in refuted[:5]:
            log("failed obligation: " + r[:600])
        log("VIOLATION property=%s replay=%s" % (pid, replay))
        rc = 1
    elif refuted and not herr:
        with open(replay, "w") as f:
            f.write("property %s: obligations that are discharged on the unchanged tree fail\n\n%s\n" % (pid, "\n".join(refuted)))
        for r in refuted[:5]:
            log("failed obligation: " + r[:600])
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        rc = 1
    elif herr:
        log("ERROR: " + herr[0][-2500:])
        rc = 2
    elif contracts and discharged == 0 and not undecided:
        log("ERROR: no obligations were generated")
        rc = 2

    for k in known_findings():
        if k[0] == pid and rc == 0:
            log("KNOWN-FINDING: property=%s %s" % (pid, k[2]))

    # ---------------------------------------------------------------- evidence
    level = getattr(m, "LEVEL", "proof")
    ev = sum(h.get("evaluations", 0) for h in hres)
    dn = sum(h.get("distinct_nontrivial", 0) for h in hres)
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "python3-vt gfv/prove.py %s -v" % pid,
        "trusted_base": BASE_TRUST + list(getattr(m, "TRUSTED", ())) + sorted(assum),
        "discharged_by_backend": by,
        "contracts": len(pr["contracts"]),
        "goals_proved": sum(1 for c in now.values() for k, v in c.items() if v and k != "#bounds"),
        "loop_side_conditions": nloops,
        "in_bounds_obligations": nbounds,
        "functions_under_contract": sorted(fns),
        "library_contracts": sorted(libs),
        "undecided_covered_by_bounded_stand_in_only": undecided,
        "obligations_not_generated_this_run": lost,
        "vacuity": {"satisfiable": sum(1 for v in vac.values() if v == "sat"), "unknown": sum(1 for v in vac.values() if v == "unknown"), "contradictory": sum(1 for v in vac.values() if v == "unsat")},
        "smt_queries": smt,
        "solver_time_s": round(solver, 2),
        "export_time_s": pr.get("export_time"),
        "bounded_note": "the evaluations below are the same contracts evaluated on the compiled real code: bounded, not counted as proved; " + getattr(m, "BOUNDED", ""),
        "evaluations": ev,
        "distinct_nontrivial": dn,
        "contract_evaluations": sum(h.get("checks", 0) for h in hres),
        "rule": "; ".join(h.get("rule", "") for h in hres),
        "samples": sum((h.get("samples", []) for h in hres), [])[:3] or ["-"],
        "explanation": getattr(m, "EXPLANATION", "contracts discharged by symbolic execution of the exported real code plus SMT; bounded evaluation on the compiled code as stand-in for what is undecided"),
    }
    e = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": BASE_TRUST + list(getattr(m, "TRUSTED", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if rc == 1 else 0,
    }
    json.dump(e, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    log("%s: %d contracts, %d/%d obligations discharged, %d undecided, %d refuted; bounded evaluation: %d cases; %.1f s" % (pid, len(pr["contracts"]), discharged, obligations, len(undecided), len(refuted), ev, time.time() - t0))
    if "-v" in sys.argv:
        for u in undecided:
            log("  undecided: " + u[:400])
        for u in lost:
            log("  not generated: " + u)
    sys.exit(rc)


if __name__ == "__main__":
    main()
