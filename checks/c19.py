from math import sin, cos, pi, radians, sqrt
from .common import *
ID = "C19"
BOUNDS = "calibrations of 3 (5 with the automatic normalization) images of 4x4, 4x8 and 8x4 (thorough 8x8) pixels, binning 1 and 2, worker grids from 1x1 to 4x2, arbitrary pixel values in the superpixels under study (the others fixed), darks, fixed normalization numbers and images, fixed flats; the least-squares fit replaced by an arbitrary fixed function of its data, angles and starting point that may fail, the pseudo-inverse by an uninterpreted function"

ANG = (0, 60, -60)
PREV = (0, 45, -45, 90)
FILES = ["transmittancies", "efficiences", "phases", "fit_found_flag", "covariance_tensor/reduced_chisquare"]


def fit_of(env, fails, sig, which="t"):
    """The stand-in for the fit: local, deterministic, depends on everything it is given."""
    def fit(x, y, p0, sigma):
        n = len(y)
        y = [val(env, y[k]) for k in range(n)]
        if fails and env.truth(env.lt(0.9, y[0])): raise RuntimeError("no fit")
        s = env.sum([(1 + float(x[k])) * y[k] for k in range(n)])
        t = 0.4 + 0.01 * s if "t" in which else 0.4 + 0.01 * float(p0[0])
        if sig: t = t + 0.1 * val(env, sigma[n - 1])
        p0 = [float(v) for v in p0]
        return [t, p0[1] + 0.001 * y[0] if "e" in which else p0[1], p0[2] + 0.01 + (0.001 * y[0] if "p" in which else 0)], [[(3 * i + j + 1) * y[0] + j * y[n - 1] + i * s for j in range(3)] for i in range(3)]
    return fit


def stub(env, fit):
    def curve_fit(f, xdata, ydata, p0=None, sigma=None, **k):
        if len(xdata) > 6:      # the fit of the normalization peak
            return env.np.array([1.0, 1000.0, 250.0]), env.np.zeros((3, 3))
        p, c = fit(xdata, ydata, p0, sigma)
        return env._mkarr(p, (3,), float), env._mkarr([v for r in c for v in r], (3, 3), float)
    env.stub_curve_fit(curve_fit)


def calibrate(env, imgs, angles, out, order=None, expect=True, dark=None, flat=None, **kw):
    n = len(imgs)
    names = []
    for k in range(n):
        env.write_fits(f"in{k}.fits", imgs[k])
        names.append(f"in{k}.fits")
    if dark is not None:
        env.write_fits("dark.fits", dark)
        kw["dark_filename"] = "dark.fits"
    if flat is not None:
        env.write_fits("flat.fits", flat)
        kw["flat_filename"] = "flat.fits"
    order = order or range(n)
    kw.setdefault("normalizing_S", 1000.0)
    kw.setdefault("gain", 9.0)
    f = env.mod("processing.demodulation").calculate_demodulation_tensor
    f([angles[k] for k in order], [names[k] for k in order], kw.pop("prev", list(PREV)), output_dir=out, **kw)
    r = {f"M{i}{j}": env.read_fits(f"{out}/M{i}{j}.fits")[0] for i in range(3) for j in range(4)}
    r.update({f"C{i}{j}": env.read_fits(f"{out}/covariance_tensor/C{i}{j}.fits")[0] for i in range(3) for j in range(3)})
    r.update({q: env.read_fits(f"{out}/{q}.fits")[0] for q in FILES})
    return r


def theory(prev):
    import numpy
    p = [radians(v) for v in prev]
    return numpy.linalg.pinv(numpy.array([[.5, .5 * cos(2 * q), .5 * sin(2 * q)] for q in p]))


def spec(env, imgs, angles, fit, S=1000.0, gain=9.0, dark=None, flat=None, occulted=(), binning=1, prev=PREV, tk=0.5, eff=0.5):
    """Expected files; None where nothing is claimed.  The list is ordered by angle as the code documents."""
    order = sorted(range(len(imgs)), key=lambda k: angles[k])
    b = binning
    H, W = imgs[0].shape[0] // b // 2 * 2, imgs[0].shape[1] // b // 2 * 2

    def binned(a, y, x):
        """Sum of the same-family pixels of the block of superpixels."""
        Y, X = y // 2 * b, x // 2 * b
        return env.sum([val(env, a[2 * (Y + j) + y % 2, 2 * (X + i) + x % 2]) for j in range(b) for i in range(b)])
    if flat is not None:
        import numpy
        fl = numpy.array([[float(binned(flat, y, x)) for x in range(W)] for y in range(H)])
        fmax = fl.mean() + fl.std()

    def norm(k, y, x):
        v = binned(imgs[k], y, x)
        if dark is not None: v = env.max(v - binned(dark, y, x), 0)
        if flat is not None and (y // 2, x // 2) not in occulted and fl[y, x] != 0: v = env.div(v, float(fl[y, x] / fmax))
        s = S * b * b if getattr(S, "ndim", 0) != 2 else binned(S, y, x)
        return env.div(v, s), s
    h, w = H // 2, W // 2
    th = theory(prev)
    out = {}
    for Y in range(h):
        for X in range(w):
            M = flag = None
            pix = []
            ok = (Y, X) not in occulted
            if ok:
                for n in range(4):
                    vs = [norm(k, 2 * Y + n // 2, 2 * X + n % 2) for k in order]
                    v = [q for q, _ in vs]
                    if env.truth(env.and_(*[env.eq(q, 0) for q in v])): ok = False; break
                    sg = [env.ite(env.eq(q, 0), 1e-5, env.sqrt(env.div(q, s * gain))) for q, s in vs]
                    try: pix.append(fit([radians(angles[k]) for k in order], v, [tk, eff, radians(prev[n])], sg))
                    except RuntimeError: ok = False; break
            if ok:
                t, e, p = ([q[0][i] for q in pix] for i in range(3))
                mod = env._mkarr([q for n in range(4) for q in (0.5 * t[n], 0.5 * t[n] * e[n] * env.cos(2 * p[n]), 0.5 * t[n] * e[n] * env.sin(2 * p[n]))], (4, 3), float)
                m = env.np.linalg.pinv(mod)
                ms = [val(env, m[i, j]) for i in range(3) for j in range(4)]
                if env.truth(env.or_(*[env.lt(100, v) for v in ms])) or env.truth(env.or_(*[env.lt(v, -100) for v in ms])): m, ok, params = th, False, None
                else: params = pix
            else: m, params = th, None
            out[Y, X] = (m, ok, params)
    return out


def compare(env, label, r, want):
    h, w = max(y for y, _ in want) + 1, max(x for _, x in want) + 1
    for i in range(3):
        for j in range(4): env.equal(f"{label}: M{i}{j}", r[f"M{i}{j}"], put(env, (h, w), lambda y, x: val(env, want[y, x][0][i, j])))
    env.equal(f"{label}: flags", r["fit_found_flag"], put(env, (h, w), lambda y, x: 1.0 if want[y, x][1] else 0.0))
    for (Y, X), (_, _, p) in want.items():
        if p is None: continue
        for n in range(4):
            y, x = 2 * Y + n // 2, 2 * X + n % 2
            for q, k in (("transmittancies", 0), ("efficiences", 1)): env.equal(f"{label}: {q} at {y},{x}", r[q][y:y + 1, x], put(env, (1,), lambda _: p[n][0][k]))
            env.equal(f"{label}: phase at {y},{x}", r["phases"][y:y + 1, x], put(env, (1,), lambda _: p[n][0][2] * 180 / pi))
            for i in range(3):
                for j in range(3): env.equal(f"{label}: C{i}{j} at {y},{x}", r[f"C{i}{j}"][y:y + 1, x], put(env, (1,), lambda _: p[n][1][i][j]))


def images(env, h, w, free, n=3, lo=50, hi=880, name="img", dtype="float64", b=1):
    """n images; superpixels (of the binned grid) in free hold arbitrary values, the others fixed ones."""
    out = []
    for k in range(n):
        g = lambda y, x: (env.int(f"{name}{k},{y},{x}", lo, hi) if dtype != "float64" else env.real(f"{name}{k},{y},{x}", lo, hi)) if (y // 2 // b, x // 2 // b) in free else (100 + (37 * y + 61 * x + 101 * k + 13 * y * x) % 650) / b ** 0
        out.append(put(env, (h, w), g, dtype))
    return out


def local(env, h, w, free, grid, dtype="float64", b=1, **kw):
    """Each superpixel's results from its own values, at its own position."""
    sig = kw.pop("sig", False)
    fit = fit_of(env, False, sig, kw.pop("which", "t"))
    stub(env, fit)
    imgs = images(env, h, w, free, dtype=dtype, b=b)
    sp = {}
    if kw.pop("dark", 0):
        sp["dark"] = put(env, (h, w), lambda y, x: env.real(f"dark{y},{x}", 0, 40) if (y // 2 // b, x // 2 // b) in free else (y + 2 * x) % 7 * 1.0)
    if kw.pop("flat", 0): sp["flat"] = put(env, (h, w), lambda y, x: float((3 * y + 5 * x + y * x) % 9) * 10)
    run = dict(sp)
    S = kw.pop("S", None)
    if isinstance(S, str) and S == "image": S = put(env, (h, w), lambda y, x: 1000.0 + 37 * y + 101 * x + 7 * x * y)
    if isinstance(S, str) and S == "number": S = env.choose("S", [950.0, 1600.5])
    if S is not None: sp["S"] = S; run["normalizing_S"] = S.copy() if getattr(S, "ndim", 0) == 2 else S
    r = calibrate(env, imgs, ANG, "out", procs_grid=grid, binning=b, **run)
    compare(env, f"grid {grid}", r, spec(env, imgs, ANG, fit, binning=b, **sp))


def equal_results(env, label, r, s):
    for k in r: env.equal(f"{label}: {k}", s[k], r[k])


def grids(env, h, w, free, gs):
    """The worker grid does not matter."""
    stub(env, fit_of(env, False, True))
    imgs = images(env, h, w, free)
    r = calibrate(env, imgs, ANG, "a", procs_grid=[1, 1])
    for g in gs: equal_results(env, f"grid {g}", r, calibrate(env, imgs, ANG, f"g{g[0]}{g[1]}", procs_grid=g))


def orders(env, h, w, free, angles, orders_, **kw):
    """The order of the list does not matter."""
    stub(env, fit_of(env, False, True))
    imgs = images(env, h, w, free, n=len(angles))
    r = calibrate(env, imgs, angles, "a", procs_grid=[1, 1], **kw)
    for n, o in enumerate(orders_): equal_results(env, f"order {o}", r, calibrate(env, imgs, angles, f"b{n}", order=o, procs_grid=[1, 1], **kw))


def automatic(env, order):
    """Normalization estimated from the four main orientations (fixed images); an additional image varies."""
    fit = fit_of(env, False, False)
    stub(env, fit)
    ang = (0, 45, 90, -45, 30)
    imgs = images(env, 4, 4, (), n=4) + images(env, 4, 4, {(0, 0), (1, 1)}, n=1, name="extra")
    r = calibrate(env, imgs, ang, "out", order=order, procs_grid=[1, 2], normalizing_S=None)
    compare(env, "automatic normalization", r, spec(env, imgs, ang, fit, S=2000.0))


def refused(env, h, w, grid):
    """A grid that does not tile the image in whole superpixels."""
    stub(env, fit_of(env, False, False))
    imgs = images(env, h, w, {(0, 0)})
    env.raises(f"grid {grid}", lambda: calibrate(env, imgs, ANG, "out", procs_grid=grid))


def missing_angles(env):
    stub(env, fit_of(env, False, False))
    imgs = images(env, 4, 4, {(0, 0)})
    env.raises("main orientations missing", lambda: calibrate(env, imgs, ANG, "out", procs_grid=[1, 1], normalizing_S=None))


def occulter(env, h, w, occ, free, grid, flat, b=1):
    """Occulted superpixels get the theoretical matrix and no flag."""
    fit = fit_of(env, False, False)
    stub(env, fit)
    imgs = images(env, h, w, free, b=b)
    sp = {}
    if flat: sp["flat"] = put(env, (h, w), lambda y, x: float((3 * y + 5 * x + y * x) % 9) * 10)
    cy, cx, r = (q // b // 2 for q in occ)
    inside = {(y, x) for y in range(h // b // 2) for x in range(w // b // 2) if (y - cy) ** 2 + (x - cx) ** 2 <= r * r}
    res = calibrate(env, imgs, ANG, "out", procs_grid=grid, occulter=list(occ), binning=b, **sp)
    want = spec(env, imgs, ANG, fit, occulted=inside, binning=b, **sp)
    compare(env, f"occulter {occ}", res, want)
    for Y, X in inside: env.check(f"occulted {Y},{X}", not want[Y, X][1])


def dead(env, h, w, sup, which, grid):
    """Dead pixels (zero in every image) and failing fits."""
    fit = fit_of(env, which == "fails", False)
    stub(env, fit)
    imgs = images(env, h, w, {sup}, lo=0, hi=980)
    if which == "one": keep = [(2 * sup[0] + 1, 2 * sup[1])]
    elif which == "fails": keep = []
    else: keep = [(2 * sup[0] + j, 2 * sup[1] + i) for j in (0, 1) for i in (0, 1)]
    # pixels of the superpixel outside keep stay alive
    for k in range(3):
        for j in (0, 1):
            for i in (0, 1):
                y, x = 2 * sup[0] + j, 2 * sup[1] + i
                if (y, x) not in keep: env.assume(env.le(10, imgs[k][y, x]))
    r = calibrate(env, imgs, ANG, "out", procs_grid=grid)
    compare(env, which, r, spec(env, imgs, ANG, fit))


def previsions(env, prev, tk, eff):
    """Other arrangements of the micropolarizers and starting points."""
    fit = fit_of(env, False, False)
    stub(env, fit)
    imgs = images(env, 4, 4, {(0, 1), (1, 0)})
    r = calibrate(env, imgs, ANG, "out", procs_grid=[2, 1], prev=list(prev), tk_boundary=tk and [tk, 0.1, 0.99], eff_boundary=eff and [eff, 0.1, 0.99])
    compare(env, f"arrangement {prev}", r, spec(env, imgs, ANG, fit, prev=prev, tk=tk or .5, eff=eff or .5))


def cases(tier):
    for c in all_cases(tier):
        c.opts.setdefault("feas", 400)
        yield c


def all_cases(tier):
    deep = tier != "quick"
    yield Case("4x4", local, h=4, w=4, free={(0, 0), (1, 1)}, grid=[1, 1])
    yield Case("4x4 grid 2x2", local, h=4, w=4, free={(0, 1), (1, 0)}, grid=[2, 2], which="e")
    yield Case("4x8 grid 1x4", local, h=4, w=8, free={(0, 1), (1, 3)}, grid=[1, 4])
    yield Case("4x8 grid 2x1", local, h=4, w=8, free={(0, 2), (1, 1)}, grid=[2, 1], which="e")
    yield Case("8x4 grid 4x2", local, h=8, w=4, free={(1, 0), (3, 1)}, grid=[4, 2])
    yield Case("8x4 grid 2x1", local, h=8, w=4, free={(2, 0)}, grid=[2, 1], which="te")
    yield Case("phases", local, h=4, w=4, free={(0, 1)}, grid=[2, 2], which="p")
    yield Case("uint16", local, h=4, w=4, free={(0, 1), (1, 0)}, grid=[1, 2], dtype="uint16")
    yield Case("errors", local, h=4, w=4, free={(1, 0)}, grid=[1, 2], sig=True)
    yield Case("dark", local, h=4, w=4, free={(0, 1)}, grid=[2, 1], dark=1)
    yield Case("flat", local, h=4, w=4, free={(0, 1), (1, 0)}, grid=[1, 1], flat=1)
    yield Case("dark and flat", local, h=4, w=8, free={(1, 2)}, grid=[2, 2], dark=1, flat=1)
    yield Case("normalization image", local, h=4, w=4, free={(0, 1), (1, 0)}, grid=[2, 1], S="image")
    yield Case("normalization number", local, h=4, w=4, free={(0, 1)}, grid=[1, 1], S="number")
    yield Case("binning", local, h=8, w=8, free={(1, 0)}, grid=[1, 2], b=2)
    yield Case("binning, dark, flat, normalization image", local, h=8, w=8, free={(0, 1)}, grid=[2, 1], b=2, dark=1, flat=1, S="image")
    yield Case("grids 4x8", grids, h=4, w=8, free={(0, 1), (1, 2)}, gs=([1, 2], [2, 1], [2, 4], (1, 1)))
    yield Case("orders", orders, h=4, w=4, free={(0, 0), (1, 1)}, angles=ANG, orders_=[(0, 2, 1), (1, 2, 0), (2, 1, 0)])
    yield Case("orders with equal angles", orders, h=4, w=4, free={(0, 1)}, angles=(30, 0, 30, 90), orders_=[(2, 1, 0, 3), (3, 2, 1, 0)])
    for o in ((0, 1, 2, 3, 4), (4, 2, 0, 3, 1)): yield Case(f"automatic normalization {o}", automatic, order=o)
    for h, w, g in ((4, 4, [3, 1]), (4, 4, [1, 3]), (4, 4, [4, 1]), (4, 8, [1, 8]), (6, 4, [2, 1]), (4, 6, [1, 2]), (4, 4, [8, 8])): yield Case(f"refused {h}x{w} {g}", refused, h=h, w=w, grid=g)
    yield Case("main orientations missing", missing_angles)
    for flat in (False, True): yield Case(f"occulter{' and flat' * flat}", occulter, h=8, w=8, occ=(4, 4, 2), free={(2, 2), (0, 0)}, grid=[2, 2], flat=flat)
    yield Case("occulter off center", occulter, h=4, w=8, occ=(1, 5, 3), free={(0, 2), (0, 1), (1, 0)}, grid=[1, 2], flat=False)
    yield Case("occulter binned", occulter, h=8, w=8, occ=(6, 5, 4), free={(1, 1), (0, 0)}, grid=[1, 1], flat=False, b=2)
    for n, wh in enumerate(("one", "any", "fails")): yield Case(f"dead {wh}", dead, h=4, w=4, sup=((1, 0), (0, 1), (0, 0))[n], which=wh, grid=([1, 1], [1, 2], [2, 1])[n])
    for prev, tk, eff in (((90, 45, -45, 0), None, 0.4), ((-45, 0, 90, 45), 0.6, None), ((0, 45, 135, 90), None, None)): yield Case(f"arrangement {prev}", previsions, prev=prev, tk=tk, eff=eff)
    if deep:
        yield Case("8x8 grid 4x4", local, h=8, w=8, free={(0, 3), (1, 1), (3, 2)}, grid=[4, 4])
        yield Case("8x8 grid 2x4, dark, flat", local, h=8, w=8, free={(2, 1), (3, 3)}, grid=[2, 4], dark=1, flat=1)
        yield Case("grids 8x8", grids, h=8, w=8, free={(0, 1), (3, 2)}, gs=([1, 2], [2, 1], [2, 4], [4, 4], [4, 1]))
        yield Case("12x4 binning 3", local, h=12, w=12, free={(1, 0)}, grid=[2, 1], b=3)
