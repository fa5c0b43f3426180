from math import exp, sqrt
from .common import *
ID = "C35"
BOUNDS = "images of 16x16 to 24x20 pixels with one dark disc of fixed position (off the centre of the image by up to 3 pixels) and radius 6 to 9 pixels; arbitrary values inside and outside it, the contrast as stated; thresholds from 2 to 4; the sigmoid fit off the edge by up to 0.4 pixels, arbitrarily; the radial filter with no centre given on 9x12 and 12x8 pixels; up to 3 candidate circles with arbitrary positions, radii and numbers of votes"
ASSUMPTIONS = ["the least-squares fit of a sigmoid to a half profile returns the position of its only edge within 0.4 pixels (convergence of the numerical iteration is not examined)",
               "cv2.HoughCircles returns the circles within the radius limits that gather more votes than param2, best first, as (x, y, r), or None; cv2.medianBlur keeps the disc darker than its surroundings"]


def inside(c, r): return lambda y, x: (y - c[0]) ** 2 + (x - c[1]) ** 2 <= r * r


def disc(env, h, w, c, r, thr, free, dtype="float64"):
    """Values of the disc up to m, those around it above thr times m; the pixels of free vary."""
    ins = inside(c, r)

    def g(y, x):
        if ins(y, x): return env.real(f"in{y},{x}", 10, 12) if (y, x) in free else 10.0 + (3 * y + x) % 3
        return env.real(f"out{y},{x}", 12 * thr + 1, 400) if (y, x) in free else 12 * thr + 2 + (5 * y + 7 * x) % 100
    return put(env, (h, w), g)


def cross(h, w, every=1): return {(h // 2, x) for x in range(0, w, every)} | {(y, w // 2) for y in range(0, h, every)}


def near(env, label, got, c, r, tol=1.51):
    y, x, rr = (val(env, v) for v in got)
    env.check(f"{label}: y of the centre", env.le(env.abs(y - c[0]), 1.01), "more than a pixel off")
    env.check(f"{label}: x of the centre", env.le(env.abs(x - c[1]), 1.01), "more than a pixel off")
    env.check(f"{label}: radius", env.le(env.abs(rr - r), tol), "off by more than that")


def threshold(env, h, w, c, r, thr, free=None, default=False):
    a = disc(env, h, w, c, r, thr, cross(h, w) if free is None else free)
    before = env.snap(a)
    f = env.ml.find_occulter_position
    got = f(a, method="algo") if default else f(a, "algo", thr)
    near(env, "threshold method", got, c, r)
    env.same("image unchanged", before, a)


def no_edge(env, h, w, flat):
    """Without the contrast asked for on one of the four sides, an error."""
    c, r = (h / 2, w / 2), 6
    a = disc(env, h, w, c, r, 4.0, set())
    side = {"all": lambda y, x: True, "left": lambda y, x: x < w // 2, "right": lambda y, x: x >= w // 2, "top": lambda y, x: y < h // 2, "bottom": lambda y, x: y >= h // 2}[flat]
    a = put(env, (h, w), lambda y, x: (env.real(f"v{y},{x}", 10, 39) if (y, x) in cross(h, w) else 20.0) if side(y, x) else a[y, x])
    env.raises(f"no edge: {flat}", lambda: env.ml.find_occulter_position(a, method="algo", threshold=4.0), ValueError)


def sigmoid(env, h, w, c, r, default=True):
    """The fit is given the four half profiles, from the centre of the image outwards, and a rising edge to look for."""
    a = disc(env, h, w, c, r, 3.0, {p for p in cross(h, w) if p[0] % 3 == 0 or p[1] % 3 == 1})
    calls = []

    def curve_fit(f, xdata, ydata, p0=None, **k):
        n = len(ydata)
        edge = [i for i in range(n) if env.truth(env.lt(30, val(env, ydata[i])))]
        if len(xdata) != n or any(float(val(env, xdata[i])) != i for i in range(n)): raise RuntimeError("distances from the centre")
        if not edge or edge != list(range(edge[0], n)) or edge[0] == 0: raise RuntimeError("not one edge")
        lo, hi, s, q = 2.0, 7.0, 0.8, 3.25
        for t in (0.0, 3.25, 6.0):       # the model: value lo + hi / 2 at its last parameter, rising
            m = float(val(env, f(env.np.array([t]), hi, lo, s, q)[0]))
            if abs(m - (lo + hi / (1 + exp(-s * (t - q))))) > 1e-9: raise RuntimeError("not a sigmoid")
        if p0 is None or len(p0) != 4: raise RuntimeError("no starting point")
        d = env.real(f"fit{len(calls)}", -0.4, 0.4)
        calls.append(edge[0])
        return env._mkarr([1.0, 1.0, 1.0, edge[0] - 0.5 + d], (4,), float), env.np.zeros((4, 4))
    env.stub_curve_fit(curve_fit)
    got = env.ml.find_occulter_position(a) if default else env.ml.find_occulter_position(a, method="sigmoid")
    near(env, "sigmoid method", got, c, r, 2.01)


def filtered(env, h, w, dist, free):
    """The radial filter centres itself on the occulter it finds."""
    a = put(env, (h, w), lambda y, x: env.real(f"a{y},{x}", 0, 100) if (y, x) in free else float((7 * y * y + 3 * x + x * y) % 41))
    k = env.choose("edges", list(dist))

    def curve_fit(f, xdata, ydata, p0=None, **kw):
        side = [i for i, q in enumerate(sides) if len(q) == len(ydata) and env.truth(env.and_(*[env.eq(val(env, ydata[j]), val(env, q[j])) for j in range(len(q))]))]
        if len(side) != 1: raise RuntimeError("not a half profile")
        return env.np.array([1.0, 1.0, 1.0, float(k[side[0]])]), env.np.zeros((4, 4))
    sides = [env.np.flip(a[:h // 2, w // 2]), a[h // 2:, w // 2], env.np.flip(a[h // 2, :w // 2]), a[h // 2, w // 2:]]
    env.stub_curve_fit(curve_fit)
    nr = env.mod("processing.nrgf").nrgf
    y, x = int((h // 2 - k[0] + h // 2 + k[1]) / 2), int((w // 2 - k[2] + w // 2 + k[3]) / 2)
    r = int((abs(k[0] + k[1]) / 2 + abs(k[2] + k[3]) / 2) / 2)
    env.equal("found", env.np.array(env.ml.find_occulter_position(a)), env.np.array([y, x, r]))
    env.equal("filter around the occulter found", nr(a), nr(a, y, x, r))


def hough(env, h, w, n, lim):
    """Up to n circles; the one with the most votes is the occulter."""
    C = [tuple(env.real(f"{q}{i}", 0, m) for q, m in (("x", w), ("y", h), ("r", max(h, w)))) for i in range(n)]
    votes = [env.int(f"votes{i}", 0, 40) for i in range(n)]
    lo, hi = lim or (1, max(h, w))
    env.assume(env.lt(10, votes[0]))
    env.assume(env.and_(env.le(lo, C[0][2]), env.le(C[0][2], hi)))
    for i in range(1, n): env.assume(env.lt(votes[i] + (5 if i == 1 else 0), votes[i - 1]))
    c, r = (h / 2, w / 2), 5
    ins = inside(c, r)
    mx = env.real("brightest", 100, 60000)
    a = put(env, (h, w), lambda y, x: mx if (y, x) == (0, 0) else env.div(mx, 10) if ins(y, x) else mx * 0.5 if (y + x) % 2 else mx * 0.9)
    before = env.snap(a)
    seen = []

    def blur(src, k, *z):
        seen.append(src)
        return src

    def circles(image=None, method=None, dp=None, minDist=None, circles=None, param1=None, param2=100, minRadius=0, maxRadius=0):
        if image.shape != (h, w): raise RuntimeError("not the image")
        if str(image.dtype) != "uint8": raise RuntimeError("8-bit images only")
        d = [val(env, image[y, x]) for y in range(h) for x in range(w) if ins(y, x)]
        b = [val(env, image[y, x]) for y in range(h) for x in range(w) if not ins(y, x)]
        if not env.truth(env.and_(*[env.lt(v + 60, q) for v in d[:3] for q in b[:6]])): raise RuntimeError("the disc does not stand out")
        top = maxRadius if maxRadius is not None and maxRadius > 0 else max(h, w)
        got = [C[i] for i in range(n) if env.truth(env.and_(env.lt(param2, votes[i]), env.le(minRadius, C[i][2]), env.le(C[i][2], top)))]
        if minDist is None or minDist < max(h, w): raise RuntimeError("circles closer than the image")
        if not got: return None
        return env._mkarr([v for q in got for v in q], (1, len(got), 3), float)
    env.stub_cv2(medianBlur=blur, HoughCircles=circles)
    f = env.ml.find_occulter_hough
    got = f(a) if lim is None else f(a, lim[0], lim[1])
    env.check("three numbers", len(got) == 3)
    for k, q in ((0, 1), (1, 0), (2, 2)): env.equal(f"{'yxr'[k]} of the occulter", put(env, (1,), lambda _: val(env, got[k])), put(env, (1,), lambda _: C[0][q]))
    env.same("image unchanged", before, a)


def cases(tier):
    deep = tier != "quick"
    for n, (h, w, c, r, thr) in enumerate(((16, 16, (7.5, 7.5), 6.4, 4.0), (20, 24, (9.5, 12), 7, 3.0), (24, 20, (13, 9), 8, 2.5), (18, 22, (8, 12.5), 7.6, 4.0), (21, 17, (10, 8), 7, 2.0))):
        yield Case(f"threshold {h}x{w} {n}", threshold, h=h, w=w, c=c, r=r, thr=thr)
        yield Case(f"sigmoid {h}x{w} {n}", sigmoid, h=h, w=w, c=c, r=r, default=n != 2)
    yield Case("threshold by default 4", threshold, h=18, w=20, c=(9, 10), r=7, thr=4.0, default=True)
    for s in ("all", "left", "right", "top", "bottom"): yield Case(f"no edge {s}", no_edge, h=16, w=18, flat=s)
    yield Case("filter 9x12", filtered, h=9, w=12, dist=((2.2, 3.1, 1.9, 4.4), (1.0, 1.0, 3.0, 2.6)), free={(0, 0), (8, 3)})
    yield Case("filter 12x8", filtered, h=12, w=8, dist=((3.7, 1.2, 1.5, 2.9), (2.4, 4.4, 1.0, 1.3)), free={(11, 7), (1, 1)})
    for n in (1, 2, 3): yield Case(f"hough, {n} circles", hough, h=12, w=16, n=n, lim=None)
    yield Case("hough, limits", hough, h=16, w=12, n=2, lim=(4, 9))
    yield Case("hough, limits, 1 circle", hough, h=16, w=12, n=1, lim=(2, 16))
    if deep:
        yield Case("hough, 4 circles", hough, h=12, w=16, n=4, lim=None)
        for n, (h, w, c, r, thr) in enumerate(((30, 40, (15, 22), 9, 4.0), (40, 30, (22, 15), 10, 3.0), (32, 32, (13.5, 18.5), 12, 3.5))):
            yield Case(f"deep threshold {h}x{w} {n}", threshold, h=h, w=w, c=c, r=r, thr=thr)
            yield Case(f"deep sigmoid {h}x{w} {n}", sigmoid, h=h, w=w, c=c, r=r)
