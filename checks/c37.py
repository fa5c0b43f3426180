import os
from math import cos, sin, radians
from .common import *
ID = "C37"
BOUNDS = "mosaics of 2x2 to 4x6 pixels stored as float64, uint16 or int16, four to six polarizer orientations in any order of the list, one or two arbitrary pixels of a superpixel per frame (fixed values elsewhere), all arrangements of the micropolarizers, arbitrary darks at the pixels under study, fixed flats"
ASSUMPTIONS = ["the pseudo-inverse of a rank-one matrix W is its transpose over its squared norm (0 for W = 0)"]


def base(k, y, x): return 200 + (137 * k + 31 * y + 53 * x + 11 * k * y + 7 * x * y * (k + 1)) % 397


def pinv(env, M):
    """Moore-Penrose inverse of a matrix of rank one (or zero): its transpose over its squared norm."""
    q = env.sum([x * x for r in M for x in r])
    z = env.eq(q, 0)
    return [[env.ite(z, 0, env.div(M[i][j], env.ite(z, 1, q))) for i in range(len(M))] for j in range(len(M[0]))]


def superpixel(env, P, prev, ideal):
    """C and offsets of one superpixel (mean over the polarizers), P[k] its four values under polarizer k."""
    at = {a: prev.index(a) for a in ANGLES}
    n = len(P)
    Cs, ds = [], []
    for v in P:
        s = [v[at[0]] + v[at[90]], v[at[0]] - v[at[90]], v[at[45]] - v[at[-45]], 1]
        S = pinv(env, [[q] for q in s])[0]
        W = [[x * S[c] for c in range(3)] for x in v]
        G = pinv(env, W)
        Cs.append([[env.sum([ideal[i][c] * G[c][j] for c in range(3)]) for j in range(4)] for i in range(4)])
        ds.append([x * S[3] for x in v])
    return [[env.div(env.sum([C[i][j] for C in Cs]), n) for j in range(4)] for i in range(4)], [env.div(env.sum([d[i] for d in ds]), n) for i in range(4)]


def calibration(env, h, w, free, angles=(0, 45, 90, -45), prev=(0, 45, -45, 90), dtype="float64", dark=None, flat=False, order=None, only=None):
    frames, asfloat = [], []
    lo, hi = (0, 4095) if dtype == "uint16" else (-500, 3000)
    for k, a in enumerate(angles):
        frames.append(put(env, (h, w), lambda y, x: (env.int(f"P{k},{y},{x}", lo, hi) if dtype != "float64" else env.real(f"P{k},{y},{x}", lo, hi)) if (k, y, x) in free else base(k, y, x), dtype))
        env.write_fits(f"f{k}.fits", frames[k])
        asfloat.append(frames[k].astype(float))
    kw = {}
    D = F = None
    if dark:
        D = put(env, (h, w), lambda y, x: (env.int(f"D{y},{x}", 0, 500) if dark != "float64" else env.real(f"D{y},{x}", 0, 500)) if not flat and any((k, y, x) in free for k in range(len(angles))) else 3 * y + x, dark)
        env.write_fits("dark.fits", D)
        kw["dark_filename"] = "dark.fits"
    if flat:
        F = put(env, (h, w), lambda y, x: 1000.0 - 5 * y - 11 * x)
        env.write_fits("flat.fits", F)
        kw["flat_filename"] = "flat.fits"
    o = list(order or range(len(angles)))
    env.mod("processing.chen_wan_liang_calibration").calculate_chen_wan_lian_calibration([angles[k] for k in o], [f"f{k}.fits" for k in o], list(prev), "cal/out", occulter=False, **kw)
    top = None
    if flat:       # the first pixel has the largest flat
        top = val(env, F[0, 0]) - (val(env, D[0, 0]) if dark else 0)

    def value(k, y, x):
        v = val(env, asfloat[k][y, x])
        if dark: v = env.max(v - val(env, D[y, x]), 0)
        if flat: v = env.div(v, env.div(val(env, F[y, x]) - (val(env, D[y, x]) if dark else 0), top))
        return v
    ideal = [[0.5, 0.5 * cos(2 * radians(q)), 0.5 * sin(2 * radians(q))] for q in prev]
    for Y in range(h // 2):
        for X in range(w // 2):
            if only and (Y, X) not in only: continue
            P = [[value(k, 2 * Y + n // 2, 2 * X + n % 2) for n in range(4)] for k in range(len(angles))]
            C, d = superpixel(env, P, list(prev), ideal)
            s = (slice(2 * Y, 2 * Y + 2), slice(2 * X, 2 * X + 2))
            for i in range(4):
                for j in range(4): env.equal(f"C{i}{j} of superpixel {Y},{X}", env.read_fits(f"cal/out/C{i}{j}.fits")[0][s], put(env, (2, 2), lambda y, x: C[i][j]))
            env.equal(f"offsets of superpixel {Y},{X}", env.read_fits("cal/out/d_ij.fits")[0][s], put(env, (2, 2), lambda y, x: d[2 * y + x]))
    env.check("nothing else written", sorted(os.listdir("cal/out")) == sorted([f"C{i}{j}.fits" for i in range(4) for j in range(4)] + ["d_ij.fits"]))


def refused(env, angles, n):
    for k in range(n): env.write_fits(f"f{k}.fits", env.reals(f"a{k}", (2, 2)))
    env.raises("refused", lambda: env.mod("processing.chen_wan_liang_calibration").calculate_chen_wan_lian_calibration(list(angles), [f"f{k}.fits" for k in range(n)], [0, 45, -45, 90], "cal", occulter=False), ValueError)
    env.check("nothing written", not os.path.exists("cal") or not os.listdir("cal"))


def cases(tier):
    deep = tier != "quick"
    yield Case("2x2 one pixel", calibration, h=2, w=2, free={(0, 0, 1)})
    yield Case("2x2 two pixels", calibration, h=2, w=2, free={(0, 0, 0), (0, 1, 1)})
    yield Case("2x4", calibration, h=2, w=4, free={(1, 0, 2), (2, 1, 0)})
    yield Case("4x2", calibration, h=4, w=2, free={(3, 2, 1), (1, 0, 0)})
    yield Case("2x8", calibration, h=2, w=8, free={(1, 1, 6), (2, 0, 3)})
    yield Case("8x2", calibration, h=8, w=2, free={(0, 6, 1), (3, 3, 0)})
    yield Case("4x6", calibration, h=4, w=6, free={(0, 2, 3), (2, 1, 5)})
    for k, o in enumerate(((3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1))): yield Case(f"order {o}", calibration, h=2, w=4, free={(k, 1, 2)}, order=o)
    for k, d in enumerate(ALL_DICS): yield Case(f"arrangement {list(by_position(d))}", calibration, h=2, w=2, free={(k % 4, k // 4 % 2, k % 2)}, prev=by_position(d))
    yield Case("six orientations", calibration, h=2, w=2, free={(4, 0, 1)}, angles=(30, 0, -45, 90, 45, 60), order=(5, 3, 1, 0, 2, 4))
    for dt in ("uint16", "int16"): yield Case(f"stored as {dt}", calibration, h=2, w=4, free={(0, 0, 2)}, dtype=dt)
    for dt, dd in (("float64", "float64"), ("uint16", "uint16"), ("int16", "float64"), ("uint16", "float64")): yield Case(f"{dt} with {dd} dark", calibration, h=2, w=2, free={(1, 1, 0)}, dtype=dt, dark=dd)
    yield Case("flat", calibration, h=2, w=4, free={(2, 0, 3)}, flat=True)
    yield Case("dark and flat", calibration, h=2, w=4, free={(2, 0, 3)}, flat=True, dark="float64")
    for a, n in (((0, 45, 90), 3), ((0, 45, 90, -45), 3), ((0, 45, 90, 30), 4), ((0, 45, 90, -45, 20), 4), ((45, 90, -45, 135), 4)): yield Case(f"refused {a} with {n}", refused, angles=a, n=n)
