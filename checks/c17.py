from math import sin, cos, radians
from .common import *
ID = "C17"
BOUNDS = "straight form: every displacement within images up to 6x7 (thorough 9x9) pixels from an arbitrary start pixel, and every pair of pixels of a 5x4 (thorough 7x6) image, arbitrary pixel values; long lines up to 40 pixels; polar form: 5x6 images, centers on a grid including every border, angles in 15 degree steps and some uneven ones, arbitrary inner radius 0 to 4 and outer radius at least one larger"


def line_claims(env, label, ys, xs, vals, a, ends=None):
    """Steps of at most one, never turning back, values at the listed pixels."""
    n = len(ys)
    env.check(f"{label}: as many coordinates as values", len(xs) == n and len(vals) == n)
    Y, X, V = ([val(env, q[i]) for i in range(n)] for q in (ys, xs, vals))
    h, w = a.shape
    for i in range(n):
        env.check(f"{label}: pixel {i} inside the image", env.and_(env.le(0, Y[i]), env.lt(Y[i], h), env.le(0, X[i]), env.lt(X[i], w)))
        env.check(f"{label}: value {i} is the image at pixel {i}", env.or_(*[env.and_(env.eq(Y[i], y), env.eq(X[i], x), env.eq(V[i], val(env, a[y, x]))) for y in range(h) for x in range(w)]))
    for q, C in (("y", Y), ("x", X)):
        d = [C[i + 1] - C[i] for i in range(n - 1)]
        for i in range(n - 1): env.check(f"{label}: {q} moves by at most one at step {i}", env.le(env.abs(d[i]), 1))
        if d: env.check(f"{label}: {q} never turns back", env.or_(env.and_(*[env.le(0, v) for v in d]), env.and_(*[env.le(v, 0) for v in d])))
    return Y, X


def near_segment(env, label, Y, X, s, e):
    """Within one pixel of the straight segment (perpendicular distance, and between its ends)."""
    dy, dx = e[0] - s[0], e[1] - s[1]
    l2 = dy * dy + dx * dx
    for i in range(len(Y)):
        u, v = Y[i] - s[0], X[i] - s[1]
        c = u * dx - v * dy
        env.check(f"{label}: pixel {i} within one pixel of the segment", env.le(c * c, l2))
        t = u * dy + v * dx
        env.check(f"{label}: pixel {i} between the ends", env.and_(env.le(0, t), env.le(t, l2)))


def straight(env, label, a, s, e):
    """s, e: start and end pixel, concrete displacement."""
    ys, xs, vals = env.mod("processing.linear_roi").linear_roi(a, [s[0], s[1]], [e[0], e[1]])
    Y, X = line_claims(env, label, ys, xs, vals, a)
    env.check(f"{label}: starts at the start pixel", env.and_(env.eq(Y[0], s[0]), env.eq(X[0], s[1])))
    env.check(f"{label}: ends at the end pixel", env.and_(env.eq(Y[-1], e[0]), env.eq(X[-1], e[1])))
    near_segment(env, label, Y, X, s, e)


def displaced(env, h, w, dy):
    a = env.reals("a", (h, w))
    y0, x0 = env.int("y", 0, h - 1), env.int("x", 0, w - 1)
    for dx in range(1 - w, w):
        if (dy, dx) == (0, 0): continue
        if not env.truth(env.and_(env.le(0, y0 + dy), env.lt(y0 + dy, h), env.le(0, x0 + dx), env.lt(x0 + dx, w))): continue
        straight(env, f"displacement {dy},{dx}", a, (y0, x0), (y0 + dy, x0 + dx))


def pairs(env, h, w, dtype):
    a = env.pixels("a", (h, w), dtype, 0, 200)
    s = env.choose("start", [(y, x) for y in range(h) for x in range(w)])
    for y in range(h):
        for x in range(w):
            if (y, x) != tuple(s): straight(env, f"{s} to {(y, x)}", a, s, (y, x))


def long_lines(env, n):
    """Lengths where rounding errors would add up; start anywhere on the near border."""
    k = env.choose("across", list(range(0, n + 1, max(1, n // 8))) + [1, n - 1])
    a = env._mkarr([env.real(f"a{y},{x}") if (y, x) in ((0, 0), (n, k)) else float(y * 50 + x) for y in range(n + 1) for x in range(n + 1)], (n + 1, n + 1), float)
    D = env.mod("processing.linear_roi").DDA
    for s, e in (((0, 0), (n, k)), ((0, 0), (k, n)), ((n, k), (0, 0)), ((n, 0), (0, k)), ((k, n), (n, n - k))):
        if s == e: continue
        ys, xs = D(s, e)[:2]
        Y, X = [int(v) for v in ys], [int(v) for v in xs]
        env.check(f"{s} to {e}: ends", (Y[0], X[0], Y[-1], X[-1]) == s + e)
        env.check(f"{s} to {e}: steps", all(abs(p - q) <= 1 for C in (Y, X) for p, q in zip(C, C[1:])))
        near_segment(env, f"{s} to {e}", Y, X, s, e)
    ys, xs, vals = env.mod("processing.linear_roi").linear_roi(a, (0, 0), (n, k))
    env.equal("first value", vals[0], a[0, 0])
    env.equal("last value", vals[-1], a[n, k])


def polar(env, h, w, thetas, cs, with_r):
    a = env.reals("a", (h, w))
    c = env.choose("center", cs)
    t = env.choose("theta", thetas)
    f = env.mod("processing.linear_roi").linear_roi_from_polar
    sn, cn = sin(radians(t)), cos(radians(t))
    label = f"center {c} angle {t}"
    if not with_r:
        vals, ys, xs, _ = f(a, list(c), t)
        Y, X = line_claims(env, label, ys, xs, vals, a)
        env.check(f"{label}: not empty", len(Y) > 0)
        env.check(f"{label}: starts at the center", env.and_(env.eq(Y[0], c[0]), env.eq(X[0], c[1])))
        r0 = 0
    else:
        r0, r1 = env.real("r_min", 0, 4), env.real("r_max", 1, 8)
        env.assume(env.le(r0 + 1, r1))
        vals, ys, xs, _ = f(a, list(c), t, [r0, r1])
        Y, X = line_claims(env, label, ys, xs, vals, a)
        if not Y:       # nothing selected: the ray at the inner radius has left the image
            env.check(f"{label}: nothing to select", env.and_(*[env.implies(env.le(r0, k), not (1e-6 < c[0] - k * sn < h - 1 - 1e-6 and 1e-6 < c[1] + k * cn < w - 1 - 1e-6)) for k in range(1, 5)]))
            env.check(f"{label}: empty", len(vals) == 0)
            return
        for k in range(6):
            env.check(f"{label}: starts at the inner radius ({k})", env.implies(env.and_(env.lt(k - 1, r0), env.le(r0, k - 1e-6)) if k else env.le(r0, 0),
                      env.and_(env.le(env.abs(Y[0] - (c[0] - k * sn)), 1 + 1e-6), env.le(env.abs(X[0] - (c[1] + k * cn)), 1 + 1e-6))))
        env.check(f"{label}: center if the inner radius is 0", env.implies(env.le(r0, 0), env.and_(env.eq(Y[0], c[0]), env.eq(X[0], c[1]))))
    for i in range(len(Y)):
        u, v = Y[i] - c[0], X[i] - c[1]
        across = u * cn + v * sn
        env.check(f"{label}: pixel {i} near the ray", env.le(env.abs(across), 2))
        env.check(f"{label}: pixel {i} on the ray's side", env.le(-1.5, v * cn - u * sn))
        if with_r: env.check(f"{label}: pixel {i} not inside the inner radius", env.le(r0 - 1.5, v * cn - u * sn))
        if with_r: env.check(f"{label}: pixel {i} not beyond the outer radius", env.le(v * cn - u * sn, r1 + 1.5))


def cases(tier):
    deep = tier != "quick"
    for h, w in ((6, 7),) + (((9, 9),) if deep else ()):
        for dy in range(1 - h, h): yield Case(f"{h}x{w} displacement {dy}", displaced, h=h, w=w, dy=dy)
    yield Case("pairs 5x4", pairs, h=5, w=4, dtype="float64")
    yield Case("pairs 3x3", pairs, h=3, w=3, dtype="uint16")
    yield Case("one row", pairs, h=1, w=8, dtype="float64")
    if deep: yield Case("pairs 7x6", pairs, h=7, w=6, dtype="float64")
    for n in (10, 23, 40): yield Case(f"length {n}", long_lines, n=n)
    cs = [(y, x) for y in (0, 1, 2, 4) for x in (0, 1, 3, 5)]
    th = list(range(-180, 181, 15)) + [200, 270, 355, 400, 33.3, -77.7]
    for k in range(0, len(th), 8): yield Case(f"polar from angle {th[k]}", polar, h=5, w=6, thetas=th[k:k + 8], cs=cs, with_r=False)
    for k in range(0, len(th), 4 if deep else 8): yield Case(f"polar with radii from angle {th[k]}", polar, h=5, w=6, thetas=th[k:k + 4 if deep else k + 8:1 if deep else 2], cs=cs if deep else [(0, 0), (2, 3), (4, 5), (1, 5), (4, 1)], with_r=True)
