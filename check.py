#!/opt/venv/bin/python
"""check.py --property C01 [--tier quick|thorough]     decide one property on /repo's current source
   check.py --replay FILE                              run the recorded input again on the real code

Exit 0: every obligation discharged (known findings are printed); exit 1: VIOLATION line."""
import sys, os, json, time, argparse, subprocess, threading, queue, select, fnmatch
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
from contracts.registry import PROPS


def env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1", JAXTYPING_DISABLE="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", PYTHONHASHSEED="0")
    return e


class Worker:
    def __init__(self): self.p = None

    def start(self):
        self.err = open(os.devnull, "w")
        self.p = subprocess.Popen([PY, "-u", os.path.join(HERE, "engine", "worker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env(), cwd=HERE)

    def run(self, job, timeout):
        if self.p is None or self.p.poll() is not None: self.start()
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode()); self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return dict(results=[], functions=[], error="worker died")
        fd = self.p.stdout.fileno(); end = time.time() + timeout; buf = b""
        while True:
            left = end - time.time()
            if left <= 0:
                self.p.kill(); self.p.wait(); self.p = None
                return dict(results=[], functions=[], error="timeout after %d s" % timeout)
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if not r: continue
            d = os.read(fd, 1 << 20)
            if not d:
                self.p.wait(); rc = self.p.returncode; self.p = None
                return dict(results=[], functions=[], error="worker ended (%s)" % rc)
            buf += d
            if buf.endswith(b"\n"): return json.loads(buf)

    def stop(self):
        if self.p is not None and self.p.poll() is None:
            try: self.p.stdin.write(b'{"quit":1}\n'); self.p.stdin.flush()
            except Exception: pass
            try: self.p.wait(3)
            except Exception: self.p.kill()


def listing(props):
    """names of the contracts behind a property, from the contract modules (imported in a worker-like process)"""
    code = ("import sys,json,importlib;sys.path.insert(0,%r)\n"
            "from contracts.registry import PROPS\n"
            "out=[]\n"
            "for m in sorted({x.split(':')[0] for p in %r for x in PROPS[p]}):\n"
            "    M=importlib.import_module('contracts.'+m)\n"
            "    for c in getattr(M,'CONTRACTS',[]): out.append([m,c.name,'prove',c.shards,c.wall])\n"
            "    for c in getattr(M,'CUSTOM',[]): out.append([m,c.name,'custom',1,c.wall])\n"
            "print('@@'+json.dumps(out))" % (HERE, list(props)))
    r = subprocess.run([PY, "-c", code], capture_output=True, text=True, env=env(), cwd=HERE)
    for l in r.stdout.splitlines():
        if l.startswith("@@"): return json.loads(l[2:]), None
    return [], (r.stderr or r.stdout)[-3000:]


def load_known():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    pid = a.property; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
    allc, lerr = listing([pid])
    quick = a.tier == "quick"
    end = t0 + (780 if quick else 6 * 3600)          # a check answers within its time
    sel = [x for x in allc if any(fnmatch.fnmatch(x[0] + ":" + x[1], pat) for pat in PROPS[pid])]
    pool = [Worker() for _ in range(a.jobs)]
    base = dict(seed=seed, tier=a.tier, crosscheck=True, cc_n=1 if quick else 3, cc_elems=4 if quick else 24, search_s=15 if quick else 90,
                rounds=None if quick else 24, deadline=end - 60)

    def runall(jobs, stop=None):
        """longest first over the workers; stop(r): the remaining jobs are not started"""
        jobs = sorted(jobs, key=lambda j: -j["timeout"])
        q = queue.Queue()
        for j in jobs: q.put(j)
        out = []; lock = threading.Lock(); halt = threading.Event()

        def loop(w):
            while not halt.is_set():
                try: j = q.get_nowait()
                except queue.Empty: break
                j["known"] = [e for c, e in knk if c == j["name"]]
                tmo = min(j["timeout"] if quick else 3 * j["timeout"], end - time.time())
                if tmo < 5: r = dict(results=[], functions=[], error="not decided within the time of the check")
                else:
                    r = w.run(j, tmo)
                    if r.get("error") in ("worker died",) or str(r.get("error", "")).startswith("worker ended"):
                        r = w.run(j, max(5, min(tmo, end - time.time())))
                with lock: out.append((j, r))
                if a.v: print("#", j["type"], j["name"], j.get("shard", 0), "%.1fs" % r.get("wall", -1), r.get("error") or "", file=sys.stderr)
                if stop and stop(j, r): halt.set()
        ths = [threading.Thread(target=loop, args=(w,)) for w in pool[:max(1, len(jobs))]]
        for t in ths: t.start()
        for t in ths: t.join()
        return out

    # 1. executions of the real code on generated inputs; 2. every obligation. A failing input restricts 2 to the contract it breaks.
    knk = {(k["contract"], k["ensures"]) for k in known}

    def fresh(j, r):
        v = r.get("violation")
        if not v: return None
        if v.get("exception"): return None if (j["name"], "exception") in knk else ["exception"]
        return [f[0] for f in v["fails"] if (j["name"], f[0]) not in knk and is_gross(f)] or None
    pre = runall([dict(base, type="search", module=m, name=n, timeout=wall) for m, n, ty, sh, wall in sel if ty != "custom"])
    hit = {j["name"]: (fresh(j, r), r) for j, r in pre if fresh(j, r)}
    jobs = []
    if hit:
        for m, n, ty, sh, wall in sel:
            if n not in hit: continue
            f = hit[n][0]
            if f == ["exception"]: continue
            if len(jobs) < 8: jobs.append(dict(base, type=ty, module=m, name=n, timeout=min(wall, 150), only=f, noretry=True, nofallback=True, nosearch=True, crosscheck=False, stop_after=2, deadline=time.time() + 90))
    else:
        for m, n, ty, sh, wall in sel:
            for i in range(sh): jobs.append(dict(base, type=ty, module=m, name=n, shard=i, shards=sh, timeout=wall, nosearch=True))
    out = runall(jobs, stop=(lambda j, r: bool(fresh(j, r))))
    # the searched violation and statistics belong to the record of the contract
    got = {}
    for j, r in out: got.setdefault(j["name"], []).append(r)
    for j, r in pre:
        if j["name"] in got:
            tgt = got[j["name"]][0]
            if not tgt.get("violation"): tgt["violation"] = r.get("violation")
            s0, s1 = r.get("search") or {}, tgt.get("search") or {}
            tgt["search"] = {k: s0.get(k, 0) + s1.get(k, 0) for k in ("tried", "admissible")}
            if j["name"] in hit and tgt.get("error"): tgt["error"] = None
        elif j["name"] in hit or r.get("error"): out.append((j, r))
    for w in pool: w.stop()

    viol = []        # (line suffix, replay dict)
    notes = []
    kf = {}          # finding id -> what
    tot = dis = bounded = bdis = 0; funcs = set(); assumes = set(); samples = 0; adm = 0; cc = dict(compared=0, unknown=0, mismatches=0)
    be = {}; z3q = 0; z3t = 0.0; contracts = {}; fallb = []; bnotes = set(); custom_notes = []
    if lerr or not sel:
        viol.append((" no-failing-input-found", dict(obligation="contracts could not be loaded against the current source", verifier_output=lerr)))
    for j, r in out:
        nm = j["name"]; m = j["module"]
        c = contracts.setdefault(nm, dict(obligations=0, discharged=0, admissible=0, error=None))
        kn = {k["ensures"]: k for k in known if k["contract"] == nm}
        v = r.get("violation")
        failing = [x for x in r.get("results", []) if not x["ok"]]
        for x in r.get("results", []):
            if x["ens"] in kn: continue
            isb = bool(x.get("bounded") or r.get("bounded"))
            if isb: bounded += 1; bdis += bool(x["ok"])
            else: tot += 1; dis += bool(x["ok"])
            c["obligations"] += 1; c["discharged"] += bool(x["ok"])
        funcs |= set(r.get("functions", [])); assumes |= set(r.get("assumes", []) or [])
        if r.get("bounded"): bnotes.add("%s: %s" % (nm, r["bounded"]))
        if r.get("fallback"): fallb.append("%s: %s" % (nm, r.get("fallback_reason")))
        if r.get("notes"): custom_notes += r["notes"]
        st = r.get("search") or {}
        samples += st.get("tried", 0); adm += st.get("admissible", 0); c["admissible"] += st.get("admissible", 0)
        s = r.get("stats") or {}
        z3q += s.get("z3_queries", 0); z3t += s.get("z3_time", 0.0)
        for k, n in (s.get("backend") or {}).items(): be[k] = be.get(k, 0) + n
        x = r.get("crosscheck")
        if x:
            cc["compared"] += x["compared"]; cc["unknown"] += x["unknown"]; cc["mismatches"] += x.get("nmism", 0)
            if x.get("nmism"): notes.append("evaluator cross-check mismatch in %s: %s" % (nm, x["mismatches"][:3]))
        # --- known findings
        for e in {y["ens"] for y in failing} & set(kn): kf[kn[e]["id"]] = kn[e]["what"]
        failing = [y for y in failing if y["ens"] not in kn]
        if v and not v.get("exception"):
            for f in v["fails"]:
                if f[0] in kn: kf[kn[f[0]]["id"]] = kn[f[0]]["what"]
            v = dict(v, fails=[f for f in v["fails"] if f[0] not in kn])
            if not v["fails"]: v = None
        if v and v.get("exception") and "exception" in kn: kf[kn["exception"]["id"]] = kn["exception"]["what"]; v = None
        # --- verdicts
        failed_ens = {y["ens"] for y in failing}
        if v and not v.get("exception"):
            bad = [f for f in v["fails"] if f[0] in failed_ens or r.get("search_only") or not r.get("results") or f[1] is not None]
            if failed_ens and not any(f[0] in failed_ens for f in v["fails"]): pass
            gross = [f for f in v["fails"] if f[0] in failed_ens or is_gross(f)]
            if gross or not r.get("results"):
                viol.append(("", dict(contract=nm, module=m, obligation=[f[0] for f in gross] or v["fails"][0][0], fails=v["fails"], dims=v["dims"], inputs=v["inputs"],
                                      failed_obligations=brief(failing))))
                continue
        if v and v.get("exception"):
            rp = dict(contract=nm, module=m, obligation="the real code runs on every admissible input", fails=v["fails"], dims=v["dims"], inputs={}, exception=True)
            viol.append(("" if v.get("repo_raised") else " no-failing-input-found", rp)); continue
        if r.get("error"):
            if "exception" in kn: kf[kn["exception"]["id"]] = kn["exception"]["what"]; continue
            viol.append((" no-failing-input-found", dict(contract=nm, module=m, obligation="obligations of %s could not be generated or decided" % nm,
                                                         verifier_output=r["error"], traceback=r.get("tb"))))
            continue
        if failing:
            viol.append((" no-failing-input-found", dict(contract=nm, module=m, obligation=[y["ob"] for y in failing], verifier_output=brief(failing))))
    # vacuity guards
    for nm, c in contracts.items():
        if any(nm in str(v[1].get("contract")) for v in viol): continue
        if (nm, "exception") in knk and any(k["id"] in kf for k in known if k["contract"] == nm): continue
        if c["obligations"] == 0 and c["admissible"] == 0:
            viol.append((" no-failing-input-found", dict(contract=nm, obligation="vacuity guard: no obligation and no admissible sample")))
    for i in dict.fromkeys(k["id"] for k in known):
        if i in kf: print("KNOWN-FINDING: property=%s %s" % (pid, kf[i]))
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    level = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in level["checks"] if c["property"] == pid), "proof")
    cov = dict(obligations=tot, discharged=dis, checker_cmd="python3 check.py --property %s --tier %s" % (pid, a.tier), trusted_base=TRUSTED,
               bounded_obligations=bounded, bounded_discharged=bdis, bounded=sorted(bnotes), bounded_fallback=fallb,
               functions_under_contract=sorted(funcs), contracts=contracts, back_ends=be, z3_queries=z3q, z3_seconds=round(z3t, 2),
               evaluations=samples, distinct_nontrivial=adm,
               rule="concrete executions of the real code on generated inputs; non-trivial: every precondition of the contract holds",
               evaluator_crosscheck=cc, notes=notes + custom_notes, known_findings=sorted(kf))
    if level == "other":
        cov["explanation"] = ("bounded: the listed configurations are enumerated; in each one index bookkeeping is evaluated exactly and array contents are symbolic (%d of %d bounded obligations "
                              "discharged for all values), plus %d executions of the real code" % (bdis, bounded, samples))
    ev = dict(property=pid, tier=a.tier, seed=seed, level=level, coverage=cov, assumptions=sorted(assumes) + GLOBAL_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("property %s: %d/%d obligations discharged (+%d/%d bounded), %d contracts, %d functions, z3 %d queries %.1f s, %d executions (%d admissible), cross-check %d compared %d mismatches, wall %.0f s"
          % (pid, dis, tot, bdis, bounded, len(contracts), len(funcs), z3q, z3t, samples, adm, cc["compared"], cc["mismatches"], time.time() - t0))
    for n in notes: print("note:", n)
    if not viol: return 0
    # concrete counterexamples first
    viol.sort(key=lambda v: v[0] != "")
    seen = 0
    for i, (suf, rp) in enumerate(viol[:6]):
        path = os.path.join(HERE, "evidence", "replay", "%s_%d.json" % (pid, i))
        rp["property"] = pid
        json.dump(rp, open(path, "w"), indent=1, default=str)
        print("  %s: %s" % (rp.get("contract"), str(rp.get("obligation"))[:300]))
        if rp.get("fails"): print("     ", str(rp["fails"][0])[:300])
        elif rp.get("verifier_output"): print("     ", str(rp["verifier_output"])[:300])
        if i == 0: first = (path, suf)
    print("VIOLATION property=%s replay=%s%s" % (pid, first[0], first[1]))
    return 1


def is_gross(f):
    """clear of rounding: a failure of a discharged obligation in real execution is only reported when it cannot be rounding"""
    v = f[2]
    if v is None or not isinstance(v, list): return True
    if any(x != x or x in (float("inf"), float("-inf")) for x in v if isinstance(x, float)): return True
    if len(v) >= 2: return abs(v[0] - v[1]) > 1e-3 * (abs(v[0]) + abs(v[1]) + 1e-6)
    return True


def brief(fl): return [dict(obligation=y["ob"], reason=str(y["how"])[:600], model=y.get("model")) for y in fl[:20]]


TRUSTED = ["engine/trace.py: jaxpr-to-term semantics (cross-checked against real execution on every run)", "engine/ir.py: normal forms, indicator and finite-sum algebra",
           "engine/prove.py: proof search", "z3 %s" % "4.x python bindings", "JAX tracing and XLA (jaxpr means what the executed code does)"]
GLOBAL_ASSUMPTIONS = ["floating point is treated as real arithmetic; integers as unbounded (no int32 overflow)",
                      "is_finite(x) is true (no overflow to inf)", "jaxtyping run-time shape checks are disabled while tracing"]


def replay(path):
    d = json.load(open(path))
    if not d.get("fails"):
        print(json.dumps(d, indent=1)[:4000]); print("no failing input recorded: verifier output above"); return 1
    os.environ.update(env())
    import importlib
    m = importlib.import_module("contracts." + d["module"])
    for c in getattr(m, "CONTRACTS", []):
        if c.name == d["contract"]:
            f = c.replay(d); break
    else:
        c = {c.name: c for c in m.CUSTOM}[d["contract"]]
        r = c.run(1, "quick"); f = (r.get("violation") or {}).get("fails", [])
    for x in f: print("FAILS", x)
    print("reproduced" if f else "not reproduced")
    return 1 if f else 0


if __name__ == "__main__":
    sys.exit(main())
