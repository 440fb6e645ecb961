#!/usr/bin/env python3-vt
"""Decides one property: check.py <ID> [quick|thorough]

1. builds (if needed) the AST extractor, generates the headers /repo's build would generate;
2. extracts the functions under contract from /repo's current sources (clang AST) and discharges every obligation;
3. runs the replay harness (real code, bounded inputs, independent oracle) to look for a concrete failing input.

exit 0: held (or, for functions that could not be decided, no failing input within the stated bound)
exit 1: VIOLATION line
"""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import fcntl

if os.environ.get("PYTHONHASHSEED") != "0" and __name__ == "__main__":   # the order of proof searches must not vary between runs
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
sys.path[:0] = [os.path.join(V, "engine"), os.path.join(V, "props")]
sys.setrecursionlimit(100000)
RES = "/usr/lib/llvm-18/lib/clang/18"
T0 = time.time()


def log(*a):
    print("[%5.1fs]" % (time.time() - T0), *a, flush=True)


def write_if_changed(p, txt):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == txt:
        return
    tmp = p + ".%d" % os.getpid()
    open(tmp, "w").write(txt)
    os.rename(tmp, p)


def gen_headers():
    """what /repo's cmake generates into its build tree"""
    inc = os.path.join(B, "include")
    t = open(REPO + "/include/cppad/cg/configure.hpp.in").read().replace("@cppadcg_version@", "2.5.0")
    write_if_changed(inc + "/cppad/cg/configure.hpp", t)
    src = REPO + "/include/cppad/cg/model/threadpool/"
    for f in ("pthread_pool.c", "pthread_pool.h", "openmp.c", "openmp.h"):
        body = open(src + f).read()
        d = "*=*"
        while d in body:
            d += "*"
        var = "CPPADCG_%s_FILE" % f.replace(".", "_").upper()
        write_if_changed(inc + "/cppad/cg/model/threadpool/%s.hpp" % f.replace(".", "_"),
                         'const char %s[] = R"%s(%s)%s";\n\nconst size_t %s_SIZE = %d;\n\n' % (var, d, body, d, var, len(body)))
    return inc


def start_extractor_build():
    os.makedirs(B, exist_ok=True)
    src = os.path.join(V, "extractor", "extract.cpp")
    key = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(B, "extract-" + key)
    if os.path.exists(out):
        return out, None
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(out):
        lock.close()
        return out, None
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-w", src, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so.18.1"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return out, (p, tmp, lock)


def finish_extractor(out, job):
    if job is None:
        return
    p, tmp, lock = job
    txt = p.communicate()[0]
    if p.returncode != 0:
        log("extractor build failed:", txt[-2000:])
    else:
        os.rename(tmp, out)
    lock.close()


def start_harness(pid, inc, tier):
    """compiles and runs the harness in the background; returns the process"""
    outs = []
    import glob
    for src in sorted(glob.glob(os.path.join(V, "replay", pid.lower() + "*.cpp"))):
        name = os.path.basename(src)[:-4]
        exe = os.path.join(B, "h_" + name)
        extra = ""
        for line in open(src):
            if line.startswith("// FLAGS:"):
                extra = line.split(":", 1)[1].strip().replace("$REPO", REPO).replace("$V", V).replace("$INC", inc)
            elif not line.startswith("//"):
                break
        san = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
        if "-fno-san" in extra:
            extra = extra.replace("-fno-san", "")
            san = ""
        out = os.path.join(B, "h_%s.log" % name)
        lim = 600 if tier == "thorough" else 240
        sh = ("rm -f '%s'; clang++ -std=c++14 -O1 -w %s -I%s/include -I%s -I%s/replay -o '%s' '%s' -ldl -lpthread %s > '%s.build' 2>&1 || exit 99; "
              "cd '%s'; ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0 UBSAN_OPTIONS=print_stacktrace=0 VERIF_BUILD='%s' VERIF_REPO='%s' VERIF_INC='%s' H_TIER=%s timeout -k 5 %d '%s' > '%s' 2> '%s.err'" %
              (exe, san, REPO, inc, V, exe, src, extra, exe, B, B, REPO, inc, tier, lim, exe, out, out))
        outs.append((name, subprocess.Popen(["bash", "-c", sh], start_new_session=True), out, exe, time.time()))
    return outs


def spec_setup(M, pid, exe, inc):
    import prog
    progs = {}
    for drv in getattr(M, "DRIVERS", [pid.lower() + ".cpp"]):
        js = os.path.join(B, drv + ".json")
        src = os.path.join(V, "props", drv)
        std = ["-std=c++14"] if drv.endswith("cpp") else ["-std=gnu99"]
        cmd = [exe, src, js, "--repo", REPO + "/include"] + list(getattr(M, "EXTRACT_ARGS", [])) + ["--"] + std + \
              ["-I" + REPO + "/include", "-I" + inc, "-resource-dir", RES]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(js):
            log("extraction of %s failed: %s" % (drv, r.stdout[-3000:]))
            continue
        progs[drv] = prog.Program(js)
        os.unlink(js)
    return progs


def run_task(task, opts):
    import contract
    P, S, cs, fn, sp, timeout = task
    if opts:
        o = dict(sp.opts)
        o.update(opts)
        sp = type(sp)(**dict(sp.__dict__, opts=o))
        if opts.get("bmc"):
            cs = {q: [c for c in l if getattr(c, "assumed", False)] for q, l in cs.items()}   # callees by body
    r = contract.verify(P, fn, sp, cs, S, timeout=timeout, axioms=tuple(getattr(sp, "axioms", ())) )
    d = dict(r.__dict__)
    d.pop("__class__", None)
    d["contract"] = type(sp).__name__
    d["title"] = getattr(sp, "title", None) or (sp.__doc__ or "").strip() or None
    return d


def pool(tasks, jobs, cap, deadline, opts=None):
    """forks one process per task; returns {index: result dict}"""
    res, running, todo = {}, {}, list(range(len(tasks)))
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            path = os.path.join(B, "res.%d.%d" % (os.getpid(), i))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    d = run_task(tasks[i], opts)
                    open(path, "w").write(json.dumps(d, default=str))
                except BaseException as e:
                    open(path, "w").write(json.dumps({"status": "unsupported", "error": "engine: %r" % e, "obls": [], "name": tasks[i][3].qn}))
                os._exit(0)
            running[pid] = (i, path, time.time())
        done = False
        for pid in list(running):
            i, path, t = running[pid]
            r, _ = os.waitpid(pid, os.WNOHANG)
            if r == 0:
                if time.time() - t > cap or time.time() > deadline:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    res[i] = {"status": "timeout", "error": "no answer within %d s" % (time.time() - t), "obls": [], "name": tasks[i][3].qn}
                else:
                    continue
            elif os.path.exists(path):
                res[i] = json.load(open(path))
            else:
                res[i] = {"status": "unsupported", "error": "verifier process died (memory?)", "obls": [], "name": tasks[i][3].qn}
            if os.path.exists(path):
                os.unlink(path)
            del running[pid]
            done = True
        if not done:
            time.sleep(0.05)
    return res


def known(pid):
    """known findings of this property: list of (key, text)"""
    out = []
    p = os.path.join(V, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("finding:"):
            f = dict(x.split("=", 1) for x in line[8:].split(" :: ")[0].split() if "=" in x)
            if f.get("property") == pid:
                out.append((f.get("key", ""), line.split(" :: ", 1)[1] if " :: " in line else line))
    return out


def any_new(pid, lines):
    kn = known(pid)
    return any(not any(k == l.split(" :: ")[0] or (k and l.startswith(k)) for k, _ in kn) for _, l in lines)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    inc = gen_headers()
    exe, job = start_extractor_build()
    harness = start_harness(pid, inc, tier)
    M = importlib.import_module(pid.lower())
    finish_extractor(exe, job)
    log("extractor ready")
    tasks, missing, progs = [], [], {}
    err = None
    import val
    try:
        progs = spec_setup(M, pid, exe, inc)
    except Exception as e:
        err = "extraction: %r" % e
    log("extracted %d translation unit(s)" % len(progs))
    tmo = getattr(M, "TIMEOUT", 20000) * (4 if tier == "thorough" else 1)
    cs = {}
    for sp in M.SPECS:
        for q in (sp.qn if isinstance(sp.qn, (list, tuple)) else [sp.qn]):
            cs.setdefault(q, []).append(sp)
    sorts = {}
    for sp in M.SPECS:
        if getattr(sp, "assumed", False):
            continue
        n = 0
        for drv, P in progs.items():
            if drv not in sorts:
                sorts[drv] = val.Sorts(P, *getattr(M, "SORTS", lambda P: ())(P))
            for q in (sp.qn if isinstance(sp.qn, (list, tuple)) else [sp.qn]):
                for f in P.find(q):
                    try:
                        ok = sp.select(f)
                    except Exception:
                        ok = False
                    if ok and (only is None or only == type(sp).__name__):
                        tasks.append((P, sorts[drv], cs, f, sp, tmo))
                        n += 1
        if n == 0:
            missing.append("%s (%s)" % (sp.qn, type(sp).__name__))
    tasks.sort(key=lambda t: -getattr(t[4], "cost", 1))
    budget = 1500 if tier == "thorough" else 560
    cap = 700 if tier == "thorough" else 420
    res = pool(tasks, 7, cap, T0 + budget)
    log("verification: " + ", ".join("%s=%s" % (s, sum(1 for r in res.values() if r["status"] == s)) for s in sorted({r["status"] for r in res.values()})))
    # harness
    lines, sections, hbad = [], [], None
    for name, p, out, hexe, t in harness:
        lim = (700 if tier == "thorough" else 300)
        try:
            rc = p.wait(timeout=max(1, lim - (time.time() - t)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc = 98
        txt = open(out, errors="replace").read() if os.path.exists(out) else ""
        for l in txt.splitlines():
            if l.startswith("CASE "):
                lines.append((name, l[5:]))
            elif l.startswith("SECTION "):
                sections.append(name + ":" + l[8:])
        if rc == 99:
            hbad = "harness %s does not compile: %s" % (name, open(out + ".build").read()[-800:])
        elif rc not in (0, 3):
            hbad = "harness %s ended with %s" % (name, rc)
    log("harness: %d section(s), %d failing case(s)%s" % (len(sections), len(lines), "; " + hbad if hbad else ""))
    # a failed obligation is confirmed on the code with its loops unrolled (no invariant involved)
    failed = [i for i in res if res[i]["status"] == "failed"]
    conf = {}
    if failed and not any_new(pid, lines):
        conf = pool([tasks[i] for i in failed], 7, 90, T0 + budget + 100, {"bmc": 3})
        conf = {i: conf[n] for n, i in enumerate(failed)}
    # verdict
    kn = known(pid)
    viol, seen = [], set()
    for name, l in lines:
        key = l.split(" :: ")[0]
        hit = [t for k, t in kn if k == key or (k and l.startswith(k))]
        if hit:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
            seen.add(key)
            continue
        viol.append((name, l))
    rdir = os.path.join(V, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    rpath = os.path.join(rdir, pid + ".txt")
    obl_known = [k for k, t in kn if k.startswith("obligation:")]
    undecided, confirmed = [], []
    for i, r in sorted(res.items()):
        if r["status"] == "proved":
            continue
        bad = [o for o in r["obls"] if o["status"] != "proved"]
        if r["status"] == "failed":
            c = conf.get(i, {"obls": [], "status": "none"})
            cex = [o for o in c["obls"] if o["status"] == "cex"]
            if not r.get("loops"):
                cex = cex or [o for o in bad if o["status"] == "cex"]
            if cex and not any(("obligation:" + r["name"]) in k for k in obl_known):
                confirmed.append((r, bad, cex))
                continue
        undecided.append((r, bad))
    if os.path.exists(rpath):
        os.unlink(rpath)
    if viol:
        nviol = len(viol)
        with open(rpath, "w") as f:
            f.write("property %s: failing input(s) found by running the real code\n\n" % pid)
            for name, l in viol[:20]:
                f.write("harness %s (replay/%s.cpp), case: %s\n" % (name, name, l))
            f.write("\nreplay: VERIF_SEED=%d python3-vt %s/tools/check.py %s %s   (or run build/h_%s directly)\n" % (seed, V, pid, tier, viol[0][0]))
            for r, bad, cex in confirmed:
                f.write("\nfailed obligations of %s (%s):\n" % (r["name"], r["loc"]))
                for o in bad:
                    f.write("  %s at %s: %s\n" % (o["name"], o["loc"], o.get("detail", "")))
    elif confirmed:
        nviol = len(confirmed)
        with open(rpath, "w") as f:
            f.write("property %s: proof obligation(s) failed on the current source; no failing input was found by the harness\n" % pid)
            for r, bad, cex in confirmed:
                f.write("\nfunction %s (%s), contract %s\n" % (r["name"], r["loc"], r.get("contract")))
                for o in bad:
                    f.write("  obligation: %s at %s\n    %s\n" % (o["name"], o["loc"], o.get("detail", "")))
                f.write("  counterexample with loops unrolled:\n")
                for o in cex:
                    f.write("    %s at %s\n    %s\n" % (o["name"], o["loc"], o.get("detail", "")))
    for r, bad in undecided:
        print("UNDECIDED: %s: %s %s %s" % (r["name"], r["status"], r.get("error") or "", "; ".join("%s at %s (%s)" % (o["name"], o["loc"], o["status"]) for o in bad)[:600]))
    for m in missing:
        print("UNDECIDED: no function under contract found for", m)
    if hbad:
        print("NOTE:", hbad)
    evidence(pid, tier, seed, M, tasks, res, conf, missing, sections, nviol, seen, err, hbad, lines)
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        return 1
    if confirmed:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath))
        return 1
    log("OK: %d/%d obligations discharged" % (sum(1 for r in res.values() for o in r["obls"] if o["status"] == "proved"), sum(len(r["obls"]) for r in res.values())))
    return 0


def evidence(pid, tier, seed, M, tasks, res, conf, missing, sections, nviol, seen, err, hbad, lines):
    obls = [o for r in res.values() for o in r["obls"]]
    be = {}
    for o in obls:
        if o["status"] == "proved":
            be[o["backend"]] = be.get(o["backend"], 0) + 1
    models, inl, notes = set(), set(), set()
    for r in res.values():
        models |= set(r.get("models") or [])
        inl |= set(r.get("inlined") or [])
        notes |= set(r.get("notes") or [])
    ncase = 0
    for s in sections:
        for w in s.split():
            if w.startswith("cases="):
                ncase += int(w[6:])
    fns = []
    for i, r in sorted(res.items()):
        fns.append({"function": r["name"], "signature": r.get("sig"), "location": str(r.get("loc", "")).split("/repo/")[-1], "contract": r.get("contract"),
                    "says": r.get("title"), "status": r["status"], "error": r.get("error"), "obligations": len(r["obls"]),
                    "discharged": sum(1 for o in r["obls"] if o["status"] == "proved"), "seconds": round(r.get("seconds", 0) or 0, 2),
                    "solver_seconds": round(r.get("solver_s", 0) or 0, 2), "vacuity": r.get("vacuity"),
                    "loop_invariants": r.get("loops"), "callee_contracts": r.get("contracts"),
                    "not_discharged": [{k: o.get(k) for k in ("name", "loc", "status", "detail")} for o in r["obls"] if o["status"] != "proved"]})
    base = ["clang 18 front end and this extractor (AST of /repo's sources, template instances of the driver)", "engine/*.py (symbolic execution of the AST, verification-condition generation)",
            "z3 / cvc5 answers"] + ["model of library function: " + m for m in sorted(models)]
    und = [f["function"] for f in fns if f["status"] != "proved"]
    j = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
         "coverage": {"obligations": len(obls), "discharged": sum(1 for o in obls if o["status"] == "proved"),
                      "checker_cmd": "python3-vt tools/check.py %s %s" % (pid, tier), "trusted_base": base,
                      "functions_under_contract": fns, "functions_proved": sum(1 for f in fns if f["status"] == "proved"),
                      "functions_not_proved": und + ["missing: " + m for m in missing],
                      "inlined_helpers": sorted(inl), "discharged_by_backend": be,
                      "solver_seconds": round(sum(r.get("solver_s", 0) or 0 for r in res.values()), 2),
                      "slowest_obligation_ms": max([o["ms"] for o in obls] or [0]),
                      "bounded_replay_on_real_code": {"label": "bounded, not counted as proved", "evaluations": ncase, "sections": sections, "failing": len(lines), "problem": hbad},
                      "extraction_error": err},
         "assumptions": list(getattr(M, "ASSUME", [])) + COMMON + sorted("engine note: " + n for n in notes),
         "wall_s": round(time.time() - T0, 2), "violations": nviol}
    if seen:
        j["coverage"]["known_findings_hit"] = sorted(seen)
    open(os.path.join(V, "evidence", pid + ".json"), "w").write(json.dumps(j, indent=1))


COMMON = ["machine integers are treated as mathematical integers unless an obligation says otherwise (no overflow obligations by default)",
          "floating-point numbers are treated as exact reals; library math functions as uninterpreted functions",
          "distinct reference parameters do not alias; allocation never fails",
          "termination is not proved (partial correctness); the bounded harness has a per-case time limit",
          "template code is verified for the instances listed under functions_under_contract"]

if __name__ == "__main__":
    rc = 0
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
