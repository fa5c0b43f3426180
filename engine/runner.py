"""Command line of one check: explore symbolically, replay counterexamples on the real library, report."""
from __future__ import annotations
import argparse, importlib, json, multiprocessing as mp, os, random, selectors, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def _work(cid, name, tier, deadline, seed, conn, attempt=0):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get("VDEBUG"): os.dup2(dn, 2)
        from engine import harness
        m = importlib.import_module("checks." + cid.lower())
        case = next(c for c in m.cases(tier) if c.name == name)
        from engine.zload import z3
        z3.set_param("smt.random_seed", (seed + 17 * attempt) % 1000)
        if attempt: z3.set_param("nlsat.seed", 17)
        r = harness.explore_case(case, deadline, tier, seed)
    except BaseException as e:
        r = dict(case=name, candidates=[], inconclusive=[f"{name}: engine failure {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"], samples=[], witnesses=[], completed=0, skipped=0, stats={}, entered=[], ufs=[], wall=0)
    conn.send(r)
    conn.close()


class Real:
    """Process running the real library."""
    all = []

    def __init__(self, boundscheck=False):
        self.bc = boundscheck
        self.p = None
        Real.all.append(self)

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MALLOC_PERTURB_="128", PYTHONHASHSEED="0", NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/tmp"))
        env.pop("PYTHONPYCACHEPREFIX", None)
        if self.bc: env["NUMBA_BOUNDSCHECK"] = "1"
        self.p = subprocess.Popen([PY, os.path.join(ROOT, "engine", "concrete.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("VDEBUG") else None, env=env, text=True, cwd="/")
        self.buf = ""
        r = self._line(180)
        if r is None: raise RuntimeError("the real library could not be imported")

    def _line(self, timeout):
        import select
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while "\n" not in self.buf:
            left = end - time.time()
            if left <= 0: return "timeout"
            if select.select([fd], [], [], left)[0]:
                b = os.read(fd, 1 << 16)
                if not b: return None
                self.buf += b.decode()
        l, self.buf = self.buf.split("\n", 1)
        return json.loads(l)

    def run(self, job, timeout=90):
        if self.p is None or self.p.poll() is not None: self.start()
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
            r = self._line(timeout)
        except BrokenPipeError: r = None
        if r == "timeout":
            self.stop()
            return dict(id=job["id"], status="fail", failures=[("terminates", f"no result after {timeout} s")], timeout=True)
        if r is None:
            rc = self.p.wait()
            self.stop()
            return dict(id=job["id"], status="fail", failures=[("no crash", f"the process died (exit {rc})")])
        return r

    def stop(self):
        if self.p is not None:
            try: self.p.kill()
            except Exception: pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try: f.close()
                except Exception: pass
            self.p = None


def known():
    p = os.path.join(ROOT, "known_findings.json")
    return [k for k in json.load(open(p)) if isinstance(k, dict)] if os.path.exists(p) else []


def jitter(inputs, rng, k):
    out = {}
    for n, v in inputs.items():
        if isinstance(v, bool) or isinstance(v, int) or k == 0: out[n] = v
        elif k % 3 == 1: out[n] = v + rng.uniform(-1, 1)
        elif k % 3 == 2: out[n] = v * rng.uniform(0.9, 1.1)
        else: out[n] = v if rng.random() < 0.5 else v + rng.uniform(-50, 50)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--nocross", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vrun.")
    os.environ["TMPDIR"] = tempfile.tempdir = scratch
    cid, tier = a.check.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    m = importlib.import_module("checks." + cid.lower())
    cases = list(m.cases(tier))
    assert len({c.name for c in cases}) == len(cases), "duplicate case names"
    if a.case: cases = [c for c in cases if a.case in c.name]
    budget = getattr(m, "BUDGET", {}).get(tier, 420 if tier == "quick" else 780)
    deadline = t0 + budget
    early = 75 if tier == "quick" else 300
    # modules every worker needs, loaded once before forking
    from engine import harness, sym, arr, world, loader
    import warnings, logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    for n in ("numpy", "scipy.ndimage", "scipy.optimize", "scipy.interpolate", "astropy.io.fits", "PIL.Image", "pytz"):
        try: importlib.import_module(n)
        except Exception: pass
    loader.shim("numpy"); loader.shim("astropy.io.fits")

    # cross-check of the encoding: the same cases on the real library, random inputs, in parallel
    cross = []
    nx = 0 if a.nocross else getattr(m, "CROSS", 3 if tier == "quick" else 12)
    import threading

    def crosscheck(part, off):
        real = Real()
        rr = random.Random(seed * 1000 + off)
        try:
            for k in range(nx):
                for c in part:
                    if c.opts.get("nocross"): continue
                    if time.time() > deadline or stop[0]: return
                    q = real.run(dict(id=len(cross), check=cid, case=c.name, seed=rr.randrange(1 << 30), tier=tier), timeout=60)
                    cross.append((c.name, q))
                    if q.get("timeout"): return
            alldone.wait(max(0, deadline - time.time()))
            for r in list(results):
                if r["case"] not in {c.name for c in part if not c.opts.get("nocross")}: continue
                for w in r["witnesses"][:1]:
                    if time.time() > deadline or stop[0]: break
                    cross.append((r["case"], real.run(dict(id=0, check=cid, case=r["case"], inputs=w, seed=3, tier=tier), timeout=60)))
        except Exception as e:
            cross.append(("*", dict(status="error", failures=[("cross-check", f"{type(e).__name__}: {e}")])))
        finally: real.stop()
    alldone, stop = threading.Event(), [False]
    nproc = min(4, max(1, len(cases) // 3))
    ths = [] if a.nocross else [threading.Thread(target=crosscheck, args=(cases[k::nproc], k), daemon=True) for k in range(nproc)]

    # symbolic exploration, one process per case
    results, running, queue = [], [], sorted(cases, key=lambda c: -c.opts.get("cost", 1))
    ctx = mp.get_context("fork")
    started, again = False, {}
    while queue or running:
        while queue and len(running) < a.j:
            c = queue.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(cid, c.name, tier, deadline, seed, w, again.get(c.name, 0)))
            p.start()
            w.close()
            running.append((p, r, c, time.time()))
        if not started:
            for th in ths: th.start()
            started = True
        for x in list(running):
            p, r, c, st = x
            if r.poll(0.01):
                try: res = r.recv()
                except EOFError: res = None
                p.join()
                running.remove(x)
                if (res and res["inconclusive"] and all(q["kind"] == "timeout" for q in res["candidates"]) and c.name not in again
                        and len(again) < 3 and not stop[0] and deadline - time.time() > 130):
                    again[c.name] = 1        # a slow solver or a loaded machine: once more, with other solver seeds
                    queue.append(c)
                    if a.v: print(f"  {c.name}: again ({res['inconclusive'][:1]})", flush=True)
                    continue
                results.append(res if res else dict(case=c.name, candidates=[], inconclusive=[f"{c.name}: worker died (exit {p.exitcode})"], samples=[], witnesses=[], completed=0, skipped=0, stats={}, entered=[], ufs=[], wall=0))
                if a.v:
                    q = results[-1]
                    print(f"  {q['case']}: {q['wall']:.1f}s paths={q['stats'].get('paths')} goals={q['stats'].get('goals')} cand={len(q['candidates'])} inc={q['inconclusive'][:2]}", flush=True)
            elif time.time() > deadline + 30:
                p.kill()
                p.join()
                running.remove(x)
                results.append(dict(case=c.name, candidates=[], inconclusive=[f"{c.name}: time budget exhausted"], samples=[], witnesses=[], completed=0, skipped=0, stats={}, entered=[], ufs=[], wall=time.time() - st))
        if not stop[0] and time.time() - t0 > early and any(q["candidates"] for q in results):
            # enough to report: the rest of the exploration would only add more of the same
            stop[0] = True
            queue = []
            for p, r, c, st in running:
                p.kill()
                p.join()
                results.append(dict(case=c.name, candidates=[], inconclusive=[f"{c.name}: not finished, counterexamples were found elsewhere"], samples=[], witnesses=[], completed=0, skipped=0, stats={}, entered=[], ufs=[], wall=time.time() - st))
            running = []
        time.sleep(0.005)
    tsym = time.time() - t0
    alldone.set()

    # replay
    cands = [c for r in results for c in r["candidates"]]
    inconclusive = [i for r in results for i in r["inconclusive"]]
    violations, unrepro, nrep = [], [], 0
    rr = random.Random(seed + 17)
    real, realbc = Real(), Real(True)
    seen, tried = set(), {}
    for c in cands:
        key = (c["case"], c["label"])
        if key in seen or tried.get(key, 0) >= 3: continue
        if len(violations) >= 6 or time.time() > deadline + 200 or (violations and time.time() - t0 > early + 20): break
        tried[key] = tried.get(key, 0) + 1
        hit = None
        to = 20 if c["kind"] == "timeout" else 60
        for k in range(24):
            if time.time() > deadline + 260: break
            inp = jitter(c["inputs"], rr, k) if k < 16 else {}
            nrep += 1
            r = real.run(dict(id=nrep, check=cid, case=c["case"], inputs=inp, seed=rr.randrange(1 << 30), tier=tier), timeout=to)
            if r["status"] == "fail":
                hit = (r, inp if k < 16 else r.get("used", {}), False)
                break
            if k == 0 and c["kind"] == "exception":
                r = realbc.run(dict(id=nrep, check=cid, case=c["case"], inputs=inp, seed=1, tier=tier), timeout=120)
                if r["status"] == "fail":
                    hit = (r, inp, True)
                    break
        if hit:
            seen.add(key)
            violations.append(dict(c, reproduced=hit[0]["failures"], inputs=hit[0].get("used") or hit[1], boundscheck=hit[2], origin="solver"))
        else: unrepro.append(c)
    unrepro = [c for c in unrepro if (c["case"], c["label"]) not in seen]
    if violations: stop[0] = True
    for th in ths: th.join(timeout=5 if violations else max(1, deadline + 60 - time.time()))
    cross = list(cross)
    real.stop()
    realbc.stop()
    for name, q in cross:
        if q["status"] == "error": inconclusive.append(f"cross-check: {q['failures']}")
        if q["status"] == "fail" and len(violations) < 3 and not any(v["case"] == name or v["origin"] == "solver" for v in violations):
            # the real code fails a claim the encoding proved: the encoding is wrong there, the failure is real
            f = q["failures"][0]
            if "(in the harness)" in str(f[1]):
                inconclusive.append(f"{name}: harness error {f}")
                continue
            violations.append(dict(case=name, label=f[0], kind="cross-check", detail=f[1], inputs=q.get("used", {}), reproduced=q["failures"], origin="cross-check of the encoding on the real code"))
    kn = [k for k in known() if k.get("property") == cid and k.get("status") == "known"]
    ret, lines, nv = 0, [], 0
    for k in kn: lines.append(f"KNOWN-FINDING: property={cid} {k['what']}")
    for v in violations:
        if any(k["case"] == v["case"] and k["label"] == v["label"] for k in kn): continue
        nv += 1
        path = os.path.join(ROOT, "replays", f"{cid}-{nv}.json")
        json.dump(dict(property=cid, tier=tier, **v), open(path, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={cid} replay={path}")
        lines.append(f"  case {v['case']}: {v['label']}: {v['reproduced'][0][1] if v['reproduced'] else v['detail']} [{v['origin']}]")
        ret = 1
    if ret == 0 and (inconclusive or unrepro):
        ret = 2
        for i in inconclusive[:12]: lines.append(f"INCONCLUSIVE {i}")
        for c in unrepro[:8]: lines.append(f"INCONCLUSIVE {c['case']}: {c['label']}: counterexample did not reproduce on the real code ({c['detail']}) {str(c['inputs'])[:300] if a.v else ''}")
    elif inconclusive and a.v:
        for i in inconclusive[:12]: lines.append(f"  (also inconclusive: {i})")
    tot = {}
    for r in results:
        for k, v in r["stats"].items(): tot[k] = tot.get(k, 0) + v
    fns = sorted({f for r in results for f in r["entered"]})
    ok = sum(1 for n, q in cross if q["status"] == "ok")
    ev = dict(property=cid, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2), violations=nv,
              coverage=dict(
                  explanation="Symbolic execution of the library's current source; each claim is a query to Z3 over all input values within the bounds, on every feasible path.",
                  bounds=getattr(m, "BOUNDS", ""), cases=len(cases), paths=tot.get("paths", 0), paths_completed=sum(r["completed"] for r in results), forks=tot.get("forks", 0),
                  obligations=tot.get("goals", 0), discharged_by_simplifier=tot.get("simplified", 0), discharged_by_query=tot.get("unsat", 0), refuted=tot.get("sat", 0), unknown=tot.get("unknown", 0),
                  solver_queries=tot.get("goal_queries", 0), feasibility_queries=tot.get("feas_queries", 0), solver_s=round(tot.get("solver_s", 0.0), 2), symbolic_wall_s=round(tsym, 2),
                  functions_encoded=fns, uninterpreted_functions=sorted({u for r in results for u in r["ufs"]}),
                  counterexample_replays=nrep, encoding_crosschecks_run=len(cross), encoding_crosschecks_agreeing=ok, inconclusive=len(inconclusive) + len(unrepro),
                  samples=[s for r in results for s in r["samples"]][:6] or [dict(case=r["case"], claims=r["stats"].get("goals", 0), note="all claims of this case reduced to true by Z3's simplifier") for r in results][:3],
                  case_names=[c.name for c in cases][:200]),
              assumptions=list(getattr(m, "ASSUMPTIONS", [])) + COMMON)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{cid}.json"), "w"), indent=1, default=str)
    for l in lines: print(l)
    if ret == 0: print(f"OK property={cid} tier={tier} cases={len(cases)} paths={tot.get('paths')} obligations={tot.get('goals')} queries={tot.get('goal_queries')} wall={time.time() - t0:.1f}s")
    sys.stdout.flush()
    for r in Real.all:
        try: r.p.kill(), r.p.wait(5)
        except Exception: pass
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(ret)


COMMON = [
    "floating-point arithmetic is modelled over the reals (rounding error ignored up to the stated tolerance); float32/float16 results carry an uninterpreted rounding with its relative error bound",
    "integer arithmetic wraps to its stored width, 64-bit signed excepted",
    "compiled libraries (numpy kernels, numba, astropy.io.fits, PIL, scipy) are represented by the stand-ins of engine/arr.py and engine/world.py, cross-checked against the real ones on every run",
]

if __name__ == "__main__": main()
