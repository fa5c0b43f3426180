from .common import *
import itertools, os
ID = "C21"
BOUNDS = "all 24 arrangements, each family's mean phase anywhere within 15 degrees of its orientation plus any of -2 to 2 half turns, phase images of 2x2 to 4x6 pixels (arbitrary pixel values with that mean) stored as float64, float32 or int16; calibrations of one superpixel for all 24 arrangements with any fitted phases within their bounds"
PERMS = list(itertools.permutations(ANGLES))
REST = ["transmittancies", "efficiences"]


def folder(env, phi, path="cal"):
    h, w = phi.shape
    d = demodulator(env, env._mkarr([1.0] * (12 * (h // 2) * (w // 2)), (3, 4, h // 2, w // 2), float), path=path)
    env.write_fits(os.path.join(path, "phases.fits"), phi)
    for n in REST: env.write_fits(os.path.join(path, n + ".fits"), env._mkarr([0.5] * (h * w), (h, w), float))
    return d


def reported(env, label, d, perm):
    dic = d.angle_dic
    env.check(f"{label}: four orientations", sorted(dic) == [-45, 0, 45, 90], f"{dic}")
    env.check(f"{label}: arrangement", {int(k): int(v) for k, v in dic.items()} == {perm[k]: k for k in range(4)}, f"families at {perm} degrees reported as {dic}")


def uniform(env, perm, turns, dtype):
    """Phases equal over the family."""
    ph = [env.int(f"p{k}", -15, 15) if dtype == "int16" else env.real(f"p{k}", -15, 15) for k in range(4)]
    a = put(env, (2, 2), lambda y, x: perm[2 * y + x] + 180 * turns[2 * y + x] + ph[2 * y + x], dtype)
    d = folder(env, a)
    reported(env, "families", d, perm)
    reported(env, "asked again", d, perm)


def turned(env, perm, free):
    """Any number of half turns for each family."""
    ph = [env.real(f"p{k}", -15, 15) for k in range(4)]
    t = [180 * (env.choose(f"t{k}", [-2, -1, 0, 1, 2]) if k in free else (k + perm[k] // 45) % 3 - 1) for k in range(4)]
    reported(env, "turned", folder(env, put(env, (2, 2), lambda y, x: perm[2 * y + x] + t[2 * y + x] + ph[2 * y + x])), perm)


def spread(env, perm, h, w):
    """Arbitrary pixel phases; only their mean is near the orientation."""
    n = (h // 2) * (w // 2)
    free = {(y, x): env.real(f"e{y},{x}", -80, 80) for y in range(h) for x in range(w)}
    for k in range(4):
        j, i = divmod(k, 2)
        m = env.div(env.sum([free[y, x] for y in range(j, h, 2) for x in range(i, w, 2)]), n)
        env.assume(env.and_(env.le(-15, m), env.le(m, 15)))
    reported(env, "spread", folder(env, put(env, (h, w), lambda y, x: perm[2 * (y % 2) + x % 2] + free[y, x])), perm)


def calibrated(env, perm):
    """Phases fitted within their bounds around the arrangement given to the calibration."""
    from . import c19
    from math import radians
    ph = [env.real(f"p{k}", -15, 15) for k in range(4)]
    err = {}
    for k in range(4): err[round(radians(perm[k]), 6)] = env.div(ph[k] * radians(180), 180)

    def fit(x, y, p0, sigma):
        c = float(p0[2])
        return [0.5, 0.9, c + err[round(c, 6)]], [[1.0 * (i == j) for j in range(3)] for i in range(3)]
    c19.stub(env, fit)
    c19.calibrate(env, c19.images(env, 4, 4, set()), c19.ANG, "out", procs_grid=[1, 1], prev=list(perm))
    reported(env, "calibrated", env.ml.Demodulator("out"), perm)


def cases(tier):
    q = tier == "quick"
    for n, p in enumerate(PERMS):
        yield Case(f"{p}", uniform, perm=p, turns=(0, 0, 0, 0), dtype=("float64", "float32", "int16")[n % 3])
        yield Case(f"{p} turned", uniform, perm=p, turns=[(1, 0, -1, 2), (-1, -1, -1, -1), (0, -2, 1, 0), (2, 1, 1, -1)][n % 4], dtype="float64")
    for n, p in enumerate(PERMS):
        if q and n % 4: continue
        for f in ([(n // 4 % 4,)] if q else [(0, 1), (2, 3), (1, 2), (0, 3)]): yield Case(f"{p} any turns of {f}", turned, perm=p, free=f, _paths=20000)
    for n, p in enumerate(PERMS[::3] if q else PERMS):
        h, w = ((2, 6), (6, 2), (4, 4), (4, 6))[n % 4]
        yield Case(f"{p} spread over {h}x{w}", spread, perm=p, h=h, w=w)
    for p in PERMS[::5] if q else PERMS: yield Case(f"calibrated {p}", calibrated, perm=p, _feas=400)
