from math import sqrt, atan2, degrees
from .common import *
ID = "C14"
BOUNDS = "images up to 5x6 pixels and 4x6 (thorough 6x8) pixels in superpixel mode, centers inside, between and outside the pixels, arbitrary radii (order not assumed), arbitrary angle limits, pixel values and fill values, float64/uint8/int16; radii within 1e-6 of an irrational pixel distance and angles within 1e-6 of a pixel angle that is no multiple of 90 degrees are left out"
EPS = 1e-6


def polar(h, w, cy, cx):
    for y in range(h):
        for x in range(w):
            dy, dx = y - cy, x - cx
            yield y, x, sqrt(dy * dy + dx * dx), dy * dy + dx * dx, degrees(atan2(dy, dx)) % 360


def inside(env, h, w, c, rho, theta):
    """Mask by the definition (rho, theta: possibly symbolic limits)."""
    m = {}
    for y, x, d, d2, t in polar(h, w, *c):
        if round(d) ** 2 == d2: d = int(round(d))
        else:
            for r in rho: env.assume(env.not_(env.and_(env.lt(d - EPS, r), env.lt(r, d + EPS))))
        if round(t) % 90 == 0 and abs(t - round(t)) < 1e-9: t = int(round(t)) % 360
        else:
            for q in theta: env.assume(env.not_(env.and_(env.lt(t - EPS, q), env.lt(q, t + EPS))))
        m[y, x] = env.and_(env.lt(rho[0], d), env.le(d, rho[1]), env.le(theta[0], t), env.lt(t, theta[1]))
    return m


def claims(env, label, a, mask, fill, args, **kw):
    h, w = a.shape
    want = put(env, (h, w), lambda y, x: env.ite(mask(y, x), val(env, a[y, x]), fill))
    roi = env.mod("processing.nrgf").roi_from_polar
    before = env.snap(a, args)
    for t in range(2):
        r = roi(a, *args, fill=fill, **kw)
        env.equal(f"{label} selection", r, want)
        b = roi(a, *args, return_boolean=True, **kw)
        env.equal(f"{label} mask", b, put(env, (h, w), lambda y, x: mask(y, x), bool), dtype=bool)
    env.equal(f"{label} default fill", roi(a, *args, **kw), put(env, (h, w), lambda y, x: env.ite(mask(y, x), val(env, a[y, x]), 0)))
    env.same(f"{label} arguments unchanged", before, a, args)


def limits(env, what):
    rho = [env.real("rho_min", -2, 9), env.real("rho_max", -2, 9)] if "r" in what else [0, 2]
    theta = [env.real("theta_min", -20, 380), env.real("theta_max", -20, 380)] if "t" in what else [0, 360]
    return rho, theta


def plain(env, h, w, dtype, what, cs):
    a = env.pixels("a", (h, w), dtype, 0, 200)
    c = list(env.choose("center", cs))
    fill = env.real("fill", -50, 50)
    rho, theta = limits(env, what)
    m = inside(env, h, w, c, rho, theta)
    claims(env, f"center {c}", a, lambda y, x: m[y, x], fill, (c, rho, theta), include_superpixels=False)


def superpixels(env, h, w, dtype, what, cs):
    a = env.pixels("a", (h, w), dtype, 0, 200)
    c = list(env.choose("center", cs))
    fill = env.real("fill", -50, 50)
    rho, theta = limits(env, what)
    half = [env.trunc(env.div(r, 2)) for r in rho]
    m = inside(env, h // 2, w // 2, [int(q / 2) for q in c], half, theta)
    claims(env, f"center {c}", a, lambda y, x: m[y // 2, x // 2], fill, (c, rho, theta))
    claims(env, f"center {c} (asked for)", a, lambda y, x: m[y // 2, x // 2], fill, (c, rho, theta), include_superpixels=True)


def defaults(env, h, w, sp):
    """Center and radii left out."""
    a = env.reals("a", (h, w))
    fill = env.real("fill", -50, 50)
    theta = [env.real("theta_min", -20, 380), env.real("theta_max", -20, 380)]
    H, W = (h // 2, w // 2) if sp else (h, w)
    near = min(h // 2, w // 2)
    c, near = ([h // 2 // 2, w // 2 // 2], near // 2) if sp else ([h // 2, w // 2], near)
    k = 2 if sp else 1
    m = inside(env, H, W, c, [0, near], [0, 360])
    claims(env, "no center, radii or angles", a, lambda y, x: m[y // k, x // k], fill, (), include_superpixels=sp)
    m = inside(env, H, W, c, [0, near], theta)
    claims(env, "no center or radii", a, lambda y, x: m[y // k, x // k], fill, (None, None, theta), include_superpixels=sp)
    rho = [env.real("rho_min", -2, 9), env.real("rho_max", -2, 9)]
    m = inside(env, H, W, c, [env.trunc(env.div(r, 2)) for r in rho] if sp else rho, theta)
    claims(env, "no center", a, lambda y, x: m[y // k, x // k], fill, (None, rho, theta), include_superpixels=sp)


def nearest(env, h, w, cs):
    """Radii left out, center nearest to the lower or right border."""
    a = env.reals("a", (h, w))
    c = list(env.choose("center", cs))
    m = inside(env, h, w, c, [0, min(h - c[0], w - c[1])], [0, 360])
    claims(env, f"center {c}, no radii", a, lambda y, x: m[y, x], 1.5, (c,), include_superpixels=False)


def repeated(env):
    """Different selections of equal images do not disturb one another."""
    a = env.reals("a", (4, 4))
    roi = env.mod("processing.nrgf").roi_from_polar
    args = [((1, 2), (0.5, 2.5), (0, 200)), ([2, 2], [0, 2], [0, 360]), ((1, 2), (0, 1), (90, 270)), ((1, 2), (0.5, 2.5), (0, 200))]
    for n, s in enumerate(args + args):
        for sp in (False, True):
            k = 2 if sp else 1
            m = inside(env, 4 // k, 4 // k, [q // k for q in s[0]], [int(r / 2) for r in s[1]] if sp else s[1], s[2])
            env.equal(f"selection {n}", roi(a, *s, include_superpixels=sp), put(env, (4, 4), lambda y, x: env.ite(m[y // k, x // k], a[y, x], 0)))


def cases(tier):
    deep = tier != "quick"
    grid = lambda h, w, e=0: [(y, x) for y in range(-e, h + e) for x in range(-e, w + e)]
    yield Case("3x4 radii", plain, h=3, w=4, dtype="float64", what="r", cs=grid(3, 4, 1))
    yield Case("3x4 angles", plain, h=3, w=4, dtype="float64", what="t", cs=grid(3, 4, 1))
    yield Case("3x3 radii and angles, between pixels", plain, h=3, w=3, dtype="float64", what="rt", cs=[(1, 1), (0.5, 1.5), (1, 0.5), (-1.5, 2), (0, 2)])
    yield Case("5x6 radii and angles", plain, h=5, w=6, dtype="float64", what="rt", cs=[(2, 3)] + (grid(5, 6) if deep else []))
    yield Case("2x5 uint8", plain, h=2, w=5, dtype="uint8", what="rt", cs=[(1, 2), (0, 0)])
    yield Case("superpixels 4x6 radii", superpixels, h=4, w=6, dtype="float64", what="r", cs=grid(4, 6, 2 * deep))
    yield Case("superpixels 4x6 angles", superpixels, h=4, w=6, dtype="float64", what="t", cs=grid(4, 6))
    yield Case("superpixels 6x4 both", superpixels, h=6, w=4, dtype="int16", what="rt", cs=[(2, 2), (3, 1), (5, 3)])
    if deep: yield Case("superpixels 6x8 both", superpixels, h=6, w=8, dtype="float64", what="rt", cs=grid(6, 8))
    for h, w in ((4, 4), (2, 6), (6, 4)): yield Case(f"defaults {h}x{w}", defaults, h=h, w=w, sp=False)
    for h, w in ((4, 4), (4, 8), (8, 4)): yield Case(f"superpixel defaults {h}x{w}", defaults, h=h, w=w, sp=True)
    yield Case("center alone", nearest, h=4, w=5, cs=[(2, 3), (3, 3), (3, 4), (2, 4)])
    yield Case("repeated", repeated)
