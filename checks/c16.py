from functools import reduce
from math import sqrt, atan2, degrees
from .common import *
from .c14 import EPS
ID = "C16"
BOUNDS = "images up to 5x5 pixels, rings of up to 8 (thorough 12) pixels with arbitrary values, starting radii 0 to 2, ring widths 1 to 3, averaging sectors of 45 degree multiples, arbitrary output sectors, arbitrary positive scale factors and offsets together on 2-pixel rings, one at a time on 3- and 4-pixel rings"


def rings(h, w, c, rho_min, step):
    """Pixels of each ring, the ring number from the starting radius on."""
    p = {(y, x): ((y - c[0]) ** 2 + (x - c[1]) ** 2, degrees(atan2(y - c[0], x - c[1])) % 360) for y in range(h) for x in range(w)}
    last = int(sqrt(max(d for d, _ in p.values())))
    out = {}
    for r in range(rho_min, last, step): out[r] = [q for q, (d, _) in p.items() if r * r < d <= (r + step) ** 2]
    return p, out, last


def spec(env, a, c, rho_min, step, sector, out):
    h, w = a.shape
    p, rs, last = rings(h, w, c, rho_min, step)
    res = {}
    for ring in rs.values():
        v = [val(env, a[q]) for q in ring if sector[0] <= p[q][1] < sector[1]]
        if not v:
            for q in ring: res[q] = 0
            continue
        n = len(v)
        mean = env.div(env.sum(v), n)
        sd = env.sqrt(env.div(env.sum([(x - mean) * (x - mean) for x in v]), n))
        spread = env.lt(reduce(env.min, v), reduce(env.max, v)) if n > 1 else False
        for q in ring:
            t = p[q][1]
            if round(t) % 90 == 0 and abs(t - round(t)) < 1e-9: t = int(round(t)) % 360
            else:
                for l in out: env.assume(env.not_(env.and_(env.lt(t - EPS, l), env.lt(l, t + EPS))))
            shown = env.and_(env.le(out[0], t), env.lt(t, out[1]))
            res[q] = (env.and_(spread, shown), val(env, a[q]) - mean, sd)
    for q in p:
        if q not in res and p[q][0] <= rho_min ** 2: res[q] = 0
    return res


def compare(env, label, r, want):
    """Each pixel is 0, or (value - mean) / deviation: compared without dividing."""
    for q, s in want.items():
        v = val(env, r[q])
        if s == 0 and not isinstance(s, tuple): env.equal(f"{label}: pixel {list(q)} is 0", put(env, (1,), lambda _: v), put(env, (1,), lambda _: 0.0))
        else:
            on, num, sd = s
            env.check(f"{label}: pixel {list(q)} is 0 outside", env.implies(env.not_(on), env.eq(v, 0)))
            env.check(f"{label}: pixel {list(q)} standardized", env.implies(on, env.le(env.abs(v * sd - num), 1e-6 * (1 + env.abs(num)))))


def filtered(env, h, w, c, rho_min, step, sector, dtype, whole, free=None):
    """free: the pixels that vary (the others are fixed to distinct numbers)."""
    a = env.pixels("a", (h, w), dtype, 0, 200)
    if free is not None:
        a = put(env, (h, w), lambda y, x: a[y, x] if (y, x) in free else (7 * y * y + 3 * x) % 11, dtype)
    out = [0, 360] if whole else [env.real("out_min", -20, 380), env.real("out_max", -20, 380)]
    before = env.snap(a, out)
    want = spec(env, a, c, rho_min, step, sector, out)
    f = env.mod("processing.nrgf").nrgf
    r = f(a, c[0], c[1], rho_min, step, list(sector), out)
    env.check("shape", r.shape == (h, w))
    compare(env, "filtered", r, want)
    if whole and sector == (0, 360): compare(env, "default sectors", f(a, c[0], c[1], rho_min, step), want)
    env.same("arguments unchanged", before, a, out)


def invariant(env, h, w, c, free, k, b):
    """Scaling by a positive factor and an offset changes nothing."""
    a = env.reals("a", (h, w), 0, 200)
    a = put(env, (h, w), lambda y, x: a[y, x] if (y, x) in free else float((7 * y * y + 3 * x) % 11))
    k, b = env.real("k", 0.1, 50) if k is None else k, env.real("b", -100, 100) if b is None else b
    f = env.mod("processing.nrgf").nrgf
    r, s = f(a, c[0], c[1], 0), f(a * k + b, c[0], c[1], 0)
    env.equal("same result", s, r)


def cases(tier):
    deep = tier != "quick"
    full, cross = (0, 360), {(0, 1), (1, 0), (1, 2), (2, 1)}
    yield Case("3x3 whole", filtered, h=3, w=3, c=(1, 1), rho_min=0, step=1, sector=full, dtype="float64", whole=True)
    yield Case("3x3 any output sector", filtered, h=3, w=3, c=(1, 1), rho_min=0, step=1, sector=full, dtype="float64", whole=False)
    yield Case("3x3 averaging 0-180", filtered, h=3, w=3, c=(1, 1), rho_min=0, step=1, sector=(0, 180), dtype="float64", whole=False)
    yield Case("3x3 averaging 90-271", filtered, h=3, w=3, c=(1, 1), rho_min=0, step=1, sector=(90, 271), dtype="uint8", whole=True)
    yield Case("empty averaging sector", filtered, h=3, w=3, c=(1, 1), rho_min=0, step=1, sector=(10, 80), dtype="float64", whole=True)
    yield Case("4x3 off center", filtered, h=4, w=3, c=(0, 0), rho_min=0, step=1, sector=full, dtype="float64", whole=False)
    yield Case("4x3 off center, from 1", filtered, h=4, w=3, c=(0, 0), rho_min=1, step=1, sector=full, dtype="uint16", whole=True)
    yield Case("5x5 from 1", filtered, h=5, w=5, c=(2, 2), rho_min=1, step=1, sector=full, dtype="float64", whole=True, free={(0, 2), (2, 0), (2, 4), (4, 2), (1, 1), (3, 3)})
    yield Case("5x5 width 2", filtered, h=5, w=5, c=(2, 2), rho_min=0, step=2, sector=(0, 90), dtype="float64", whole=False, free={(2, 3), (3, 3), (2, 4), (1, 1)})
    yield Case("4x5 width 3", filtered, h=4, w=5, c=(1, 2), rho_min=0, step=3, sector=(180, 360), dtype="int16", whole=True, free={(0, 2), (1, 0), (1, 1)})
    yield Case("invariance, ring of two", invariant, h=1, w=3, c=(0, 1), free={(0, 0), (0, 2)}, k=None, b=None)
    yield Case("invariance, two rings of two", invariant, h=1, w=5, c=(0, 2), free={(0, 0), (0, 1), (0, 3), (0, 4)}, k=None, b=None)
    yield Case("scale", invariant, h=2, w=3, c=(0, 1), free={(0, 0), (0, 2), (1, 1)}, k=None, b=0.0)
    yield Case("invariance 2, 10", invariant, h=3, w=3, c=(1, 1), free=cross, k=2.0, b=10.0)
    yield Case("invariance off center", invariant, h=3, w=3, c=(0, 0), free={(0, 1), (1, 0), (1, 1), (0, 2)}, k=0.5, b=-3.0)
    yield Case("offset", invariant, h=3, w=3, c=(1, 1), free=cross, k=1.0, b=None)
    if deep:
        yield Case("5x5 whole", filtered, h=5, w=5, c=(2, 2), rho_min=0, step=1, sector=full, dtype="float64", whole=True, _wall=600)
        yield Case("5x5 any output sector", filtered, h=5, w=5, c=(2, 2), rho_min=0, step=1, sector=(0, 225), dtype="float64", whole=False, _wall=600)
        yield Case("5x4 width 2", filtered, h=5, w=4, c=(2, 1), rho_min=0, step=2, sector=full, dtype="float64", whole=True, _wall=600)
