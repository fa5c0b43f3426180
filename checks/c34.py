from math import cos, sin, pi, radians
from .common import *
from .c19 import calibrate, theory
ID = "C34"
BOUNDS = "noise-free Malus-law images of 3 to 5 prepolarizer angles, 4x4 to 8x8 pixels, binning 1 and 2, worker grids up to 2x2; arbitrary transmittances and efficiencies in [0.2, 0.95] (four numbers per superpixel under study, fixed ones elsewhere), orientations up to 12 degrees off the nominal ones (fixed); arbitrary normalization, dark and light; four arrangements of the orientations"
ASSUMPTIONS = ["the least-squares fit returns the parameters for which the model it is given reproduces the data it is given, when they lie within the bounds it is given and the errors are positive; it fails otherwise (convergence of the numerical iteration is not examined)",
               "the pseudo-inverse of a matrix with arbitrary entries is an uninterpreted function; that of a fixed one is computed"]

PREV = (0, 45, -45, 90)
ANG = (0, 60, -60)


def instrument(env, h, w, free, prev, same=1):
    """Parameters of every pixel: (t, e, phase in degrees); the four of a superpixel differ."""
    p = {}
    for y in range(h):
        for x in range(w):
            n = 2 * (y % 2) + x % 2
            if (y // 2, x // 2) in free: t, e = env.real(f"t{y},{x}", 0.2, 0.95), env.real(f"e{y},{x}", 0.2, 0.95)
            else: t, e = 0.35 + (37 * y + 11 * x) % 53 / 100, 0.4 + (17 * y + 29 * x) % 47 / 90
            p[y, x] = (t, e, prev[n] + (((5 * y + 3 * x + n) % 7) - 3) * 4)
    return p


def reply(env, p, h, w):
    """The fit: finds the pixel whose parameters explain the data."""
    pix = [(y + n // 2, x + n % 2) for y in range(0, h, 2) for x in range(0, w, 2) for n in range(4)]
    last = [-1]

    def curve_fit(f, xdata, ydata, p0=None, sigma=None, bounds=None, **k):
        y = [val(env, ydata[i]) for i in range(len(ydata))]
        if sigma is not None:
            for i in range(len(y)):
                if not env.truth(env.lt(0, val(env, sigma[i]))): raise RuntimeError("errors must be positive")
        model = {}
        order = [(last[0] + 1 + d) % len(pix) for d in range(len(pix))]
        for j in order:
            t, e, ph = p[pix[j]]
            model[j] = f(xdata, t, e, radians(ph))
            if all(env.identical(val(env, model[j][i]), y[i]) for i in range(len(y))):
                order = [j]
                break
        for j in order:
            t, e, ph = p[pix[j]]
            ph = radians(ph)
            m = model[j]
            if len(order) > 1 and not env.truth(env.and_(*[env.le(env.abs(val(env, m[i]) - y[i]), 1e-7) for i in range(len(y))])): continue
            lo, hi = bounds if bounds is not None else (-float("inf"), float("inf"))
            lo, hi = ([float(v[i]) if getattr(v, "__len__", None) else float(v) for i in range(3)] for v in (lo, hi))
            if p0 is not None and not all(l <= float(q) <= u for l, q, u in zip(lo, p0, hi)): raise ValueError("x0 is infeasible")
            if not env.truth(env.and_(*[env.and_(env.le(l, q), env.le(q, u)) for l, q, u in zip(lo, (t, e, ph), hi)])): raise RuntimeError("outside the bounds")
            last[0] = j
            return env._mkarr([t, e, ph], (3,), float), env._mkarr([0.01 * (i + 1) + j / 1e4 if i == l else 0.0 for i in range(3) for l in range(3)], (3, 3), float)
        raise RuntimeError("no parameters explain the data")
    env.stub_curve_fit(curve_fit)


def data(env, p, h, w, angles, S, dark=None, b=1):
    """What the camera records: each binned pixel's light is shared among its b x b pixels."""
    out = []
    for a in angles:
        def g(y, x):
            q = p[y // 2 // b * 2 + y % 2, x // 2 // b * 2 + x % 2]
            return S(y, x) * (q[0] * 0.5 * (1 + q[1] * cos(2 * radians(a - q[2])))) + (dark[y, x] if dark is not None else 0)
        out.append(put(env, (h, w), g))
    return out


def row(env, q): return [0.5 * q[0], 0.5 * q[0] * q[1] * cos(2 * radians(q[2])), 0.5 * q[0] * q[1] * sin(2 * radians(q[2]))]


def recover(env, h, w, free, grid, prev=PREV, angles=ANG, b=1, S="number", dark=False, order=None, tk=None, eff=None):
    H, W = h // b, w // b
    p = instrument(env, H, W, free, prev)
    reply(env, p, H, W)
    kw = {}
    if S == "image":
        s = put(env, (h, w), lambda y, x: env.real(f"S{y},{x}", 200, 3000) if (y // 2 // b, x // 2 // b) in free or (y, x) == (0, 0) else 1000.0 + 37 * y + 101 * x)
        sv, kw["normalizing_S"] = (lambda y, x: val(env, s[y, x])), s.copy()
    else:
        c = env.choose("S", [700.0, 1600.5]) if S == "number" else env.real("S", 300, 3000)
        sv, kw["normalizing_S"] = (lambda y, x: c), c
    d = put(env, (h, w), lambda y, x: env.real(f"dark{y},{x}", 0, 60)) if dark else None
    imgs = data(env, p, h, w, angles, sv, d, b)
    if tk: kw["tk_boundary"] = list(tk)
    if eff: kw["eff_boundary"] = list(eff)
    pinv = {}
    for Y in range(H // 2):
        for X in range(W // 2):
            m = env.np.linalg.pinv(env._mkarr([v for n in range(4) for v in row(env, p[2 * Y + n // 2, 2 * X + n % 2])], (4, 3), float))
            for i in range(3):
                for j in range(4): env.assume(env.and_(env.le(val(env, m[i, j]), 99), env.le(-99, val(env, m[i, j]))))
            pinv[Y, X] = m
    r = calibrate(env, imgs, angles, "out", order=order, dark=d, procs_grid=grid, prev=list(prev), binning=b, **kw)
    g = lambda f: put(env, (H, W), f)
    env.equal("fit found everywhere", r["fit_found_flag"], put(env, (H // 2, W // 2), lambda y, x: 1.0))
    env.equal("transmittances", r["transmittancies"], g(lambda y, x: p[y, x][0]))
    env.equal("efficiencies", r["efficiences"], g(lambda y, x: p[y, x][1]))
    env.equal("phases", r["phases"], g(lambda y, x: p[y, x][2]))
    for i in range(3):
        for j in range(4): env.equal(f"M{i}{j}", r[f"M{i}{j}"], put(env, (H // 2, W // 2), lambda y, x: val(env, pinv[y, x][i, j])))
        for k in range(3):      # M times the modulation is the identity
            env.equal(f"M W {i}{k}", put(env, (H // 2, W // 2), lambda y, x: 1.0 * (i == k) if (y, x) in free else env.sum([val(env, r[f"M{i}{j}"][y, x]) * row(env, p[2 * y + j // 2, 2 * x + j % 2])[k] for j in range(4)])),
                      put(env, (H // 2, W // 2), lambda y, x: 1.0 * (i == k)))
    return p


def light(env, h, w, grid, prev=PREV, angles=ANG, demosaicing=False, b=1, dark=False, image=False, S="number"):
    """Calibrate the instrument, look at unknown light through it, demodulate with the files of the calibration."""
    p = recover(env, h, w, set(), grid, prev, angles, S="image" if image else S, dark=dark, b=b)
    H, W = h // b, w // b
    I, Q, U = (put(env, (H // 2, W // 2), lambda y, x: env.real(f"{c}{y},{x}", -500 if c != "I" else 0, 1000)) for c in "IQU")
    mosaic = put(env, (H, W), lambda y, x: env.sum([c * val(env, v[y // 2, x // 2]) for c, v in zip(row(env, p[y, x]), (I, Q, U))]))
    D = env.ml.Demodulator("out")
    im = env.ml.MicropolImage(mosaic).demodulate(D)
    env.equal("I of the light", im.I.data, I)
    env.equal("Q of the light", im.Q.data, Q)
    env.equal("U of the light", im.U.data, U)
    env.equal("Demodulator.tk", D.tk, put(env, (H, W), lambda y, x: p[y, x][0]))
    env.equal("Demodulator.eff", D.eff, put(env, (H, W), lambda y, x: p[y, x][1]))
    env.equal("Demodulator.phi", D.phi, put(env, (H, W), lambda y, x: p[y, x][2]))


def outside(env, what):
    """Parameters outside the bounds given: no fit is claimed, the theoretical matrix is stored."""
    h, w = 4, 4
    p = instrument(env, h, w, set(), PREV)
    bad = p[2, 1]
    p[2, 1] = {"t": (env.real("t", 0.61, 0.95), *bad[1:]), "e": (bad[0], env.real("e", 0.61, 0.95), bad[2]), "phase": (*bad[:2], bad[2] + 30)}[what]
    for k in p:
        if k != (2, 1): p[k] = (0.3 + p[k][0] % .3, 0.3 + p[k][1] % .3, p[k][2])
    reply(env, p, h, w)
    S = env.choose("S", [700.0, 1600.5])
    r = calibrate(env, data(env, p, h, w, ANG, lambda y, x: S), ANG, "out", procs_grid=[2, 1], normalizing_S=S, tk_boundary=[0.4, 0.1, 0.6], eff_boundary=[0.4, 0.1, 0.6])
    env.equal("flags", r["fit_found_flag"], put(env, (2, 2), lambda y, x: 0.0 if (y, x) == (1, 0) else 1.0))
    th = theory(PREV)
    for i in range(3):
        for j in range(4): env.equal(f"theoretical M{i}{j}", r[f"M{i}{j}"][1:2, 0], put(env, (1,), lambda _: float(th[i][j])))


def cases(tier):
    for c in all_cases(tier):
        c.opts.setdefault("feas", 2000)
        yield c


def all_cases(tier):
    deep = tier != "quick"
    yield Case("recover 4x4", recover, h=4, w=4, free={(0, 0)}, grid=[1, 1])
    yield Case("recover 4x8 grid 1x2", recover, h=4, w=8, free={(1, 2)}, grid=[1, 2])
    yield Case("recover 8x4 grid 2x2", recover, h=8, w=4, free={(3, 0)}, grid=[2, 2], S="image")
    yield Case("recover dark", recover, h=4, w=4, free={(0, 1)}, grid=[2, 1], dark=True)
    yield Case("recover normalization image", recover, h=4, w=4, free={(1, 0)}, grid=[1, 2], S="image")
    yield Case("recover binned", recover, h=8, w=8, free={(1, 0)}, grid=[1, 1], b=2)
    yield Case("recover five angles", recover, h=4, w=4, free={(1, 1)}, grid=[1, 1], angles=(0, 45, 90, -45, 30), order=(3, 1, 4, 0, 2))
    yield Case("recover arrangement", recover, h=4, w=4, free={(0, 1)}, grid=[1, 2], prev=(90, -45, 45, 0), angles=(0, 30, 70))
    yield Case("recover arrangement 135", recover, h=4, w=4, free={(0, 0)}, grid=[1, 1], prev=(135, 0, 90, 45), angles=(10, 80, 150, 100))
    yield Case("recover with boundaries", recover, h=4, w=4, free={(1, 0)}, grid=[1, 1], tk=(0.6, 0.15, 0.97), eff=(0.9, 0.15, 0.97))
    for n, prev in enumerate((PREV, (90, -45, 45, 0), (45, 0, 90, 135), (-45, 90, 0, 45))): yield Case(f"light {prev}", light, h=4, w=4, grid=[1 + n % 2, 1 + n // 2], prev=prev)
    yield Case("light dark", light, h=4, w=4, grid=[1, 1], dark=True)
    yield Case("light any normalization", light, h=4, w=4, grid=[1, 1], S="any", prev=(-45, 0, 45, 90))
    yield Case("light normalization image", light, h=4, w=8, grid=[2, 2], image=True)
    yield Case("light binned", light, h=8, w=8, grid=[1, 1], b=2)
    for q in ("t", "e", "phase"): yield Case(f"outside {q}", outside, what=q)
    if deep:
        yield Case("light 8x8 grid 4x4", light, h=8, w=8, grid=[4, 4])
        yield Case("light 8x8 grid 2x4, dark, image", light, h=8, w=8, grid=[2, 4], dark=True, image=True)
        yield Case("recover 8x8 grid 4x2", recover, h=8, w=8, free={(1, 2), (3, 3)}, grid=[4, 2], S="any")
        yield Case("recover binned by 3", recover, h=12, w=12, free={(0, 1)}, grid=[1, 2], b=3)
        yield Case("recover binned, dark", recover, h=8, w=8, free={(0, 1)}, grid=[1, 2], b=2, dark=True, S="any")
