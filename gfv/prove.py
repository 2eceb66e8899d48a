"""Export the driver of a property and discharge its contracts.  usage: prove.py ID OUT.json [filter]"""
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BUILD = os.environ.get("GFV_BUILD", os.path.join(VERIF, "build"))
REPO = os.environ.get("GFV_REPO", "/repo")


def plugin():
    src = os.path.join(HERE, "export", "gfexport.cpp")
    so = os.path.join(BUILD, "gfexport.so")
    if os.path.exists(so) and os.path.getmtime(so) >= os.path.getmtime(src):
        return so
    os.makedirs(BUILD, exist_ok=True)
    tmp = so + ".%d" % os.getpid()
    subprocess.run(["g++", "-O1", "-fno-rtti", "-fPIC", "-shared", "-w", "-I/usr/lib/llvm-18/include", "-std=c++17", src, "-o", tmp], check=True)
    os.rename(tmp, so)
    return so


def export(driver, out, flags=()):
    cmd = ["clang++", "-std=c++17", "-w", "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3",
           '-DGOOSEFEM_VERSION="0"', *flags, "-fplugin=" + plugin(), "-Xclang", "-plugin-arg-gfexport", "-Xclang", out,
           "-fsyntax-only", driver]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr


def load_contracts(pid):
    import spec
    p = os.path.join(VERIF, "props", pid, "contract.py")
    sp = importlib.util.spec_from_file_location("contract_" + pid, p)
    m = importlib.util.module_from_spec(sp)
    del spec.CONTRACTS[:]
    sp.loader.exec_module(m)
    return m, list(spec.CONTRACTS)


_data = {}


def _work(a):
    pid, i, path, budget = a
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import signal
    import threading

    def alarm(*_):
        raise TimeoutError("contract budget of %d s used up" % budget)

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(budget)
    import spec
    if path not in _data:
        _data[path] = json.load(open(path))
    if ("c", pid) not in _data:
        _data[("c", pid)] = load_contracts(pid)[1]
    c = _data[("c", pid)][i]
    try:
        return spec.run_contract(_data[path], c)
    except BaseException as ex:
        return {"contract": c[0], "goals": [], "error": "engine: %r" % (ex,), "time": 0}
    finally:
        signal.alarm(0)


def prove(pid, tier="quick", jobs=8, filt=None, budget=None, log=None):
    t0 = time.time()
    out = os.path.join(BUILD, pid)
    os.makedirs(out, exist_ok=True)
    m, cs = load_contracts(pid)
    flags = getattr(m, "FLAGS", ())
    path = os.path.join(out, "export.json")
    if os.path.exists(path):
        os.remove(path)
    rc, err = export(os.path.join(VERIF, "props", pid, "driver.cpp"), path, flags)
    res = {"property": pid, "export_rc": rc, "export_err": err[-3000:] if rc or not os.path.exists(path) else "", "contracts": []}
    if rc or not os.path.exists(path):
        res["time"] = time.time() - t0
        return res
    res["export_time"] = round(time.time() - t0, 2)
    todo = [i for i, c in enumerate(cs) if (tier == "thorough" or c[3] == "quick") and (filt is None or filt in c[0])]
    if budget is None:
        budget = getattr(m, "BUDGET", 120) * (3 if tier == "thorough" else 1)
    with mp.Pool(min(jobs, max(1, len(todo))), maxtasksperchild=8) as pool:
        for r in pool.imap(_work, [(pid, i, path, budget) for i in todo], chunksize=1):
            res["contracts"].append(r)
            if log:
                log(r)
    res["time"] = round(time.time() - t0, 2)
    return res


def main():
    pid = sys.argv[1]

    def log(r):
        print("%-34s %6.2fs smt %d/%.2fs vac=%s %s" % (r["contract"], r["time"], r.get("smt_calls", 0), r.get("smt_time", 0), r.get("vacuity"), r["error"] or ""))
        if r.get("trace") and "-v" in sys.argv:
            print(r["trace"])
        for t in r.get("taint", ()):
            print("      taint:", t)
        for t in r.get("bounds", {}).get("open", ()):
            print("      bounds:", t)
        if "-v" in sys.argv:
            print("      in-bounds obligations", r.get("bounds", {}).get("discharged"), "loops", r.get("loops"))
        for g in r["goals"]:
            if g["status"] != "proved" or "-v" in sys.argv:
                print("      %-30s %s [%s] %s %.2f" % (g["goal"], g["status"], g["backend"], (g["detail"] or "")[:1500], g["time"]))
        sys.stdout.flush()

    f = [a for a in sys.argv[2:] if not a.startswith("-")]
    r = prove(pid, tier="thorough" if "-t" in sys.argv else "quick", filt=f[0] if f else None, log=log, jobs=1 if "-1" in sys.argv else 8)
    if r["export_rc"] or r["export_err"]:
        print(r["export_err"])
    print("total %.1f" % r["time"])


if __name__ == "__main__":
    main()
