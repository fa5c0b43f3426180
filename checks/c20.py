from .common import *
import os
ID = "C20"
BOUNDS = "calibration folders of 1x1 to 3x2 superpixels with arbitrary tensor, covariance, flag, transmittance, efficiency and phase values stored as float64, float32, int16 or uint8; listings with any file first and the rest ascending or descending; every single missing matrix, with and without unrelated files from a fixed list of names"
NAMES = [f"M{i}{j}.fits" for i in range(3) for j in range(4)]
COV = [f"C{i}{j}.fits" for i in range(3) for j in range(3)]
OTHER = ["notes.txt", "README", "M00.png", "flat.fits", "dark_2022.fits", "M1.fits", "exposure.fits", "temperature_-45.fits", "M00.fits.bak", "run123.fits", "fit_report.fits", "fitted.fits", "fit_found_flag_old.fits", "my_transmittancies.fits", "phases2.fits", "saturation_flag.fits", "no_fit_found_flag.fits", "Fit_found_flag.fits", "fit_found_flags.fits", "flag.fits", "transmittancies_old.fits", "efficiencies.fits", "mask.fits"]


def other(env, path, names):
    for n, o in enumerate(names):
        f = os.path.join(path, o)
        if o.endswith(".fits"): env.write_fits(f, env._mkarr([float(900 + k) for k in range(15)], (3, 5), float))
        else: env.write_bytes(f, b"not a matrix")


def folder(env, path, h, w, dtype="float64", skip=(), cov=True, flags=True, extra=(), cov_extra=()):
    lo, hi = (0, 200) if dtype == "uint8" else (-200, 200)
    os.makedirs(path, exist_ok=True)
    m, c = env.pixels("m", (3, 4, h, w), dtype, lo, hi), env.pixels("c", (3, 3, 2 * h, 2 * w), dtype, lo, hi)
    for i in range(3):
        for j in range(4):
            if NAMES[4 * i + j] not in skip: env.write_fits(os.path.join(path, NAMES[4 * i + j]), m[i, j])
    if cov:
        p = os.path.join(path, "covariance_tensor")
        os.makedirs(p, exist_ok=True)
        for i in range(3):
            for j in range(3):
                if COV[3 * i + j] not in skip: env.write_fits(os.path.join(p, COV[3 * i + j]), c[i, j])
        env.write_fits(os.path.join(p, "reduced_chisquare.fits"), env.reals("chi", (2 * h, 2 * w), 0, 50))
        other(env, p, cov_extra)
    q = {n: env.pixels(n, (2 * h, 2 * w), dtype, lo, hi) for n in ("transmittancies", "efficiences", "phases")}
    for n in q: env.write_fits(os.path.join(path, n + ".fits"), q[n])
    if flags:
        q["flags"] = put(env, (h, w), lambda y, x: env.ite(env.bool(f"flag{y},{x}"), 1.0, 0.0))
        env.write_fits(os.path.join(path, "fit_found_flag.fits"), q["flags"])
    other(env, path, extra)
    return m, c, q


def stored(env, label, d, m, c, q):
    env.equal(f"{label}: tensor", d.mij, m, tol=0)
    if c is not None: env.equal(f"{label}: covariances", d.Cij, c, tol=0)
    for n, k in (("transmittancies", "tk"), ("efficiences", "eff"), ("phases", "phi")): env.equal(f"{label}: {n}", getattr(d, k), q[n], tol=0)
    if "flags" in q: env.equal(f"{label}: flags", d.fit_found_flags, q["flags"])
    else: env.check(f"{label}: no flags", d.fit_found_flags is None)


def load(env, h, w, dtype, path="cal", arg=None, flags=True, extra=(), cov_extra=()):
    m, c, q = folder(env, path, h, w, dtype, flags=flags, extra=extra, cov_extra=cov_extra)
    stored(env, "loaded", env.ml.Demodulator(arg or path), m, c, q)
    if arg is None:
        stored(env, "absolute path", env.ml.Demodulator(os.path.abspath(path)), m, c, q)
        stored(env, "path ending in a separator", env.ml.Demodulator(path + os.sep), m, c, q)


def listed(env, rest, extra):
    """Any file may come first."""
    m, c, q = folder(env, "cal", 2, 1, extra=extra)
    names = sorted(NAMES + [n + ".fits" for n in ("transmittancies", "efficiences", "phases", "fit_found_flag")] + list(extra))
    first = env.choose("first", names)

    def order(ns):
        l = ns if rest else ns[::-1]
        return ([first] if first in l else []) + [n for n in l if n != first]
    env.listing(order)
    d = env.ml.Demodulator("cal")
    stored(env, f"{first} first", d, m, None, q)


def listed_cov(env, rest, extra):
    m, c, q = folder(env, "cal", 1, 2, cov_extra=extra)
    first = env.choose("first", sorted(COV + ["reduced_chisquare.fits"] + list(extra)))

    def order(ns):
        l = ns if rest else ns[::-1]
        return ([first] if first in l else []) + [n for n in l if n != first]
    env.listing(order)
    env.equal(f"covariances, {first} first", env.ml.Demodulator("cal").Cij, c)


def incomplete(env, k, extra):
    """A missing matrix is an error, not a hole in the tensor."""
    folder(env, "cal", 1, 1, skip=(NAMES[k],), extra=extra)
    env.raises(f"{NAMES[k]} missing", lambda: env.ml.Demodulator("cal"))


def incomplete_cov(env, k, extra):
    m, c, q = folder(env, "cal", 1, 1, skip=(COV[k],), cov_extra=extra)
    d = env.ml.Demodulator("cal")
    stored(env, "the rest", d, m, None, q)
    env.raises(f"{COV[k]} missing", lambda: d.Cij)


def nothing(env):
    env.raises("missing folder", lambda: env.ml.Demodulator("nowhere"))
    os.makedirs("empty")
    env.raises("empty folder", lambda: env.ml.Demodulator("empty"))
    os.makedirs("text")
    other(env, "text", ["notes.txt", "M00.png"])
    env.raises("no matrices at all", lambda: env.ml.Demodulator("text"))
    os.makedirs("unrelated")
    other(env, "unrelated", ["flat.fits", "exposure.fits"])
    env.raises("only unrelated files", lambda: env.ml.Demodulator("unrelated"))
    os.makedirs("more")
    other(env, "more", [f"image_{n}.fits" for n in range(10, 22)])
    env.raises("only unrelated numbered files", lambda: env.ml.Demodulator("more"))
    folder(env, "nocov", 1, 1, cov=False)
    env.check("no covariances stored", env.ml.Demodulator("nocov").Cij is None)


def calibrated(env, grid, h, w):
    """What the calibration wrote is what is loaded."""
    from . import c19
    c19.stub(env, c19.fit_of(env, False, True))
    imgs = c19.images(env, h, w, {(0, 0), (1, 1)})
    c19.calibrate(env, imgs, c19.ANG, "out", procs_grid=grid)
    d = env.ml.Demodulator("out")
    get = lambda *p: env.read_fits(os.path.join("out", *p))[0]
    for i in range(3):
        for j in range(4): env.equal(f"M{i}{j}", d.mij[i, j], get(f"M{i}{j}.fits"))
    C = d.Cij
    for i in range(3):
        for j in range(3): env.equal(f"C{i}{j}", C[i, j], get("covariance_tensor", f"C{i}{j}.fits"))
    for n, a in (("transmittancies", d.tk), ("efficiences", d.eff), ("phases", d.phi), ("fit_found_flag", d.fit_found_flags)): env.equal(n, a, get(n + ".fits"))


def cases(tier):
    q = tier == "quick"
    for n, (h, w) in enumerate(((1, 1), (2, 3), (3, 2))):
        for dt in ("float64", "float32", "int16", "uint8") if n == 1 else ("float64",): yield Case(f"{h}x{w} {dt}", load, h=h, w=w, dtype=dt)
    yield Case("without flags", load, h=2, w=1, dtype="float64", flags=False)
    for p in ("cal_2021/run_45", "M00.fits.d/C01", "runs [1]/a*b", ".hidden", "a.fits"): yield Case(f"folder {p}", load, h=1, w=2, dtype="float64", path=p)
    yield Case("unrelated files", load, h=2, w=2, dtype="float64", extra=OTHER, cov_extra=OTHER)
    for k, o in enumerate(OTHER): yield Case(f"unrelated {o}", load, h=1, w=2, dtype="float64", extra=(o,), cov_extra=(o,))
    for r in (0, 1):
        for e in ((), OTHER): yield Case(f"listing, {len(e)} unrelated, {'ascending' if r else 'descending'}", listed, rest=r, extra=tuple(e))
        for e in ((), OTHER): yield Case(f"covariance listing, {len(e)} unrelated, {'ascending' if r else 'descending'}", listed_cov, rest=r, extra=tuple(e))
    for k in range(12):
        for e in ((), (f"temperature_{k // 4}{k % 4}0.fits", "dark_2022.fits")): yield Case(f"without {NAMES[k]}, {len(e)} unrelated", incomplete, k=k, extra=e)
    for k in range(9):
        for e in ((), ("dark_2022.fits",)): yield Case(f"without {COV[k]}, {len(e)} unrelated", incomplete_cov, k=k, extra=e)
    yield Case("nothing to load", nothing)
    for g, h, w in (([1, 1], 4, 4), ([2, 1], 4, 8)): yield Case(f"calibrated {h}x{w}", calibrated, grid=g, h=h, w=w, _feas=400)
