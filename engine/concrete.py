"""Runs cases on the real, unmodified library (own process).  Reads jobs (JSON lines) on stdin."""
import importlib, json, logging, os, random, sys, tempfile, shutil, traceback, warnings, io, contextlib


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from engine import loader, harness
    warnings.simplefilter("ignore")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    ml = loader.load_real()
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    root = tempfile.mkdtemp(prefix="vreal.")
    tempfile.tempdir = root
    loader.guard_fs(root)
    print(json.dumps({"ready": True}), file=out, flush=True)
    checks = {}
    saved = {}
    mods = {n: m for n, m in sys.modules.items() if n.startswith("micropolarray")}
    # module-level state that a case may change (default angles, caches) is restored between jobs
    state = {(n, k): v for n, m in mods.items() for k, v in vars(m).items() if (v is None or isinstance(v, (dict, list, int, float, str, bool, tuple))) and not k.startswith("__")}
    import copy
    state = {k: (v, copy.deepcopy(v)) for k, v in state.items()}
    for line in sys.stdin:
        job = json.loads(line)
        cid = job["check"]
        if cid not in checks: checks[cid] = importlib.import_module("checks." + cid.lower())
        case = next((c for c in checks[cid].cases(job.get("tier", "quick")) if c.name == job["case"]), None)
        res = dict(id=job["id"])
        if case is None: res.update(status="skip", detail="no such case")
        else:
            for (n, k), (orig, cp) in state.items():
                if isinstance(orig, (dict, list)):
                    if orig != cp:
                        orig.clear()
                        orig.update(copy.deepcopy(cp)) if isinstance(orig, dict) else orig.extend(copy.deepcopy(cp))
                setattr(mods[n], k, orig)
            for m in mods.values():
                for v in list(vars(m).values()):
                    if hasattr(v, "cache_clear"): v.cache_clear()
            d = tempfile.mkdtemp(dir=root)
            os.chdir(d)
            env = harness.RealEnv(ml, d, job.get("inputs"), random.Random(job.get("seed", 0)))
            env.tier = job.get("tier", "quick")
            for _ in range(3):       # memory handed out as "empty" holds large numbers
                junk = [np.full(k, 1.37e300) for k in range(1, 130) for _ in range(3)]
                del junk
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    case.fn(env, **case.kw)
                res.update(status="fail" if env.failures else "ok", failures=env.failures[:5])
            except harness.Skip: res.update(status="fail" if env.failures else "skip", failures=env.failures[:5])
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                lib = any(f.filename.startswith(os.path.realpath(loader.REPO)) or f.filename.startswith(loader.REPO) for f in tb)
                res.update(status="fail", failures=env.failures[:4] + [("no unexpected error", f"{type(e).__name__}: {str(e)[:300]}" + ("" if lib else " (in the harness)"))])
                if os.environ.get("VDEBUG"): res["tb"] = traceback.format_exc()
            finally:
                env.restore()
                os.chdir("/")
                shutil.rmtree(d, ignore_errors=True)
            if res["status"] == "fail": res["used"] = env.used
        print(json.dumps(res, default=str), file=out, flush=True)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__": main()
