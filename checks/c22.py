from .common import *
ID = "C22"
BOUNDS = "demodulators of 1x1 to 8x9 superpixels (quick) / 12x12 (thorough) with arbitrary tensor values and arbitrary fit flags (or none), binning 1 to 4, any number of quarter turns from -5 to 5, flips along either or both axes, and sequences of these"


def make(env, h, w, flags, path="demo"):
    m = env.reals("m", (3, 4, h, w), -200, 200)
    f = put(env, (h, w), lambda y, x: env.ite(env.bool(f"f{y},{x}"), 1.0, 0.0)) if flags else None
    return demodulator(env, m, f, path), m, f


def same(env, label, d, m, f):
    env.check(f"{label}: shape", tuple(d.mij.shape) == tuple(m.shape), f"{d.mij.shape} instead of {m.shape}")
    for i in range(3):
        for j in range(4): env.equal(f"{label}: M{i}{j}", d.mij[i, j], m[i, j])
    if f is None: env.check(f"{label}: no flags", d.fit_found_flags is None)
    else: env.equal(f"{label}: flags", d.fit_found_flags, f)


def spec_rebin(env, m, f, b):
    h, w = m.shape[2] // b, m.shape[3] // b
    blk = lambda y, x: [(b * y + j, b * x + i) for j in range(b) for i in range(b)]
    M = put(env, (3, 4, h, w), lambda i, j, y, x: env.div(env.sum([val(env, m[(i, j) + p]) for p in blk(y, x)]), b * b))
    F = None if f is None else put(env, (h, w), lambda y, x: env.ite(env.and_(*[env.eq(val(env, f[p]), 1.0) for p in blk(y, x)]), 1.0, 0.0))
    return M, F


def spec_rot(env, m, f, k):
    for _ in range(k % 4):      # a quarter turn counter-clockwise
        h, w = m.shape[2:]
        o, p = m, f
        m = put(env, (3, 4, w, h), lambda i, j, y, x: o[i, j, x, w - 1 - y])
        f = None if p is None else put(env, (w, h), lambda y, x: p[x, w - 1 - y])
    return m, f


def spec_flip(env, m, f, axis):
    axes = (0, 1) if axis is None else tuple(a % 2 for a in (axis if isinstance(axis, tuple) else (axis,)))
    h, w = m.shape[2:]
    at = lambda y, x: (h - 1 - y if 0 in axes else y, w - 1 - x if 1 in axes else x)
    return put(env, m.shape, lambda i, j, y, x: m[(i, j) + at(y, x)]), None if f is None else put(env, (h, w), lambda y, x: f[at(y, x)])


def rebin(env, h, w, b, flags):
    d, m, f = make(env, h, w, flags)
    before = env.snap(d.mij, d.fit_found_flags)
    if (h // b) % 2 or (w // b) % 2:
        env.raises("odd result", lambda: d.rebin(b))
        env.same("original after the error", before, d.mij, d.fit_found_flags)
        return
    r = d.rebin(b)
    same(env, "rebinned", r, *spec_rebin(env, m, f, b))
    env.check("new object", r is not d)
    env.noalias("rebinned and original", r.mij, d.mij)
    env.same("original", before, d.mij, d.fit_found_flags)
    r.mij[:] = 7.0
    if flags: r.fit_found_flags[:] = 5.0
    env.same("original after a change of the result", before, d.mij, d.fit_found_flags)
    again = d.rebin(b)
    same(env, "rebinned again", again, *spec_rebin(env, m, f, b))


def move(env, h, w, flags, ops):
    d, m, f = make(env, h, w, flags)
    other = env.ml.Demodulator("demo")
    before = env.snap(other.mij, other.fit_found_flags)
    for n, (o, a) in enumerate(ops):
        if o == "rot":
            d.rot90(a) if a != 1 else d.rot90()
            m, f = spec_rot(env, m, f, a)
        elif o == "flip":
            d.flip(a)
            m, f = spec_flip(env, m, f, a)
        else:
            d = d.rebin(a)
            m, f = spec_rebin(env, m, f, a)
        same(env, f"after {n}: {o} {a}", d, m, f)
    env.same("another demodulator of the same folder", before, other.mij, other.fit_found_flags)


def inverse(env, h, w, flags):
    """Four quarter turns, opposite turns and double flips restore everything."""
    d, m, f = make(env, h, w, flags)
    for _ in range(4): d.rot90()
    same(env, "four quarter turns", d, m, f)
    d.rot90(1); d.rot90(-1)
    same(env, "there and back", d, m, f)
    for a in (0, 1):
        d.flip(a); d.flip(a)
        same(env, f"double flip {a}", d, m, f)


def demodulated(env, h, w, k):
    """A flipped tensor demodulates each superpixel with the matrix that moved there."""
    d, m, f = make(env, h, w, True)
    im = fixed(env, 2 * h, 2 * w, lambda y, x: (3 * y + 5 * x) % 11 + 1)
    (d.rot90 if k[0] == "rot" else d.flip)(k[1])
    M, F = (spec_rot if k[0] == "rot" else spec_flip)(env, m, f, k[1])
    r = im.demodulate(d)
    a = im.data
    for n, nm in enumerate("IQU"):
        env.equal(f"Stokes {nm}", getattr(r, nm).data, put(env, (h, w), lambda y, x: env.ite(env.eq(val(env, F[y, x]), 1.0), env.sum([val(env, M[n, q, y, x]) * val(env, a[2 * y + q // 2, 2 * x + q % 2]) for q in range(4)]), val(env, getattr(im, nm).data[y, x]))))


def cases(tier):
    q = tier == "quick"
    for n, (h, w, b) in enumerate([(2, 2, 1), (4, 4, 2), (4, 8, 2), (5, 4, 2), (8, 9, 2), (2, 4, 2), (4, 2, 2), (6, 4, 2), (6, 6, 3), (7, 6, 3), (6, 9, 3), (8, 8, 4), (9, 8, 4), (3, 3, 2), (3, 2, 1), (2, 3, 1)] + ([] if q else [(12, 12, 2), (12, 12, 3), (11, 12, 5), (10, 10, 5), (12, 12, 6)])):
        for fl in ((True, False) if n < 6 or not q else (bool(n % 2),)): yield Case(f"rebin {h}x{w} by {b}{' flags' * fl}", rebin, h=h, w=w, b=b, flags=fl)
    for n, (h, w) in enumerate([(1, 1), (1, 3), (2, 2), (3, 2), (2, 4), (4, 5)]):
        for k in range(-5, 6) if n in (2, 3) or not q else (-1, 1, 2, 3): yield Case(f"rot {k} {h}x{w}", move, h=h, w=w, flags=bool((k + n) % 3), ops=[("rot", k)])
        for a in (0, 1, -1, -2): yield Case(f"flip {a} {h}x{w}", move, h=h, w=w, flags=n % 3 != 1, ops=[("flip", a)])
        yield Case(f"inverse {h}x{w}", inverse, h=h, w=w, flags=True)
    for n, ops in enumerate([[("rot", 1), ("flip", 0)], [("flip", 1), ("rot", 1)], [("rot", 1), ("rebin", 2)], [("flip", 0), ("rebin", 2)], [("rebin", 2), ("rot", -1)], [("rebin", 2), ("flip", 1)], [("rot", 3), ("flip", 1), ("rebin", 2), ("rot", 1)], [("flip", 0), ("flip", 1), ("rot", 2)], [("rebin", 2), ("rebin", 1), ("flip", 0)]]):
        for fl in (True, False): yield Case(f"{ops}{' flags' * fl}", move, h=4, w=8, flags=fl, ops=ops)
    for k in (("rot", 1), ("rot", 2), ("flip", 0), ("flip", 1)): yield Case(f"demodulated after {k}", demodulated, h=2, w=2, k=k)
