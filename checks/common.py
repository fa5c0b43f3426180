"""Reference computations shared by the checks (independent of the library's own helpers)."""
import itertools
from engine.harness import Case, Skip  # noqa

ANGLES = (0, 45, -45, 90)
# angle -> position, all assignments, their keys listed in various orders
ALL_DICS = [{a: p.index(a) for a in (ANGLES, p, ANGLES[::-1])[n % 3]} for n, p in enumerate(itertools.permutations(ANGLES))]
def by_position(d): return tuple(sorted(d, key=d.get))


DEFAULT = {0: 0, 45: 1, -45: 2, 90: 3}     # PolarCam


def put(env, shape, gen, dtype=float):
    """Array of shape filled with gen(*index)."""
    import numpy as np
    flat = [gen(*i) for i in np.ndindex(tuple(shape))]
    return env._mkarr(flat, tuple(shape), dtype)


def fam(a, k):
    """Position-k family of a mosaic (plain slicing)."""
    j, i = divmod(k, 2)
    return a[j::2, i::2]


def val(env, x):
    """Element as an exact number (no fixed-width arithmetic in the specification)."""
    if env.sym: return env._s.norm(x)
    return x.item() if hasattr(x, "item") else x


def spec_stokes(env, a, dic):
    """I, Q, U of mosaic a: half the sum of the four; 0 minus 90; 45 minus -45."""
    h, w = a.shape[0] // 2, a.shape[1] // 2
    p = {ang: fam(a, dic[ang]) for ang in ANGLES}
    g = lambda ang, y, x: val(env, p[ang][y, x])
    I = put(env, (h, w), lambda y, x: env.div(env.sum([g(q, y, x) for q in ANGLES]), 2))
    Q = put(env, (h, w), lambda y, x: g(0, y, x) - g(90, y, x))
    U = put(env, (h, w), lambda y, x: g(45, y, x) - g(-45, y, x))
    return I, Q, U


def stokes_of_full(env, imgs, dic):
    """I, Q, U from four full images in position order."""
    h, w = imgs[0].shape
    g = lambda ang, y, x: val(env, imgs[dic[ang]][y, x])
    I = put(env, (h, w), lambda y, x: env.div(env.sum([g(q, y, x) for q in ANGLES]), 2))
    Q = put(env, (h, w), lambda y, x: g(0, y, x) - g(90, y, x))
    U = put(env, (h, w), lambda y, x: g(45, y, x) - g(-45, y, x))
    return I, Q, U


def equal_stokes(env, label, im, spec, tol=1e-6):
    for n, s in zip("IQU", spec): env.equal(f"{label} {n}", getattr(im, n).data, s, tol)


def camera(env, name="PolarCam", **kw):
    return getattr(env.ml.cameras, name)(**kw)


def observe(im):
    """Everything a user can see of an image."""
    r = [im.data, im.header, im.height, im.width, getattr(im, "filename", None)]
    if hasattr(im, "Stokes_vec"):
        r += [im.Stokes_vec, im.angle_dic, im.demosaiced_images] + [getattr(im, k, None) for k in ("_is_demosaiced", "_is_demodulated", "_dark_subtracted", "_flat_subtracted", "_binning")]
    return r


def demodulator(env, m, flags=None, path="demo"):
    """Demodulator loaded from files holding matrices m (3, 4, h, w)."""
    import os
    os.makedirs(path, exist_ok=True)
    for i in range(3):
        for j in range(4): env.write_fits(os.path.join(path, f"M{i}{j}.fits"), m[i, j])
    if flags is not None: env.write_fits(os.path.join(path, "fit_found_flag.fits"), flags)
    return env.ml.Demodulator(path)


def spec_demosaic(env, a, mode):
    """The four demosaiced images of mosaic a by their documented rule."""
    h, w = a.shape
    out = []
    for k in range(4):
        f = fam(a, k)
        v = lambda y, x: val(env, f[min(y, h // 2 - 1), min(x, w // 2 - 1)])
        if mode == "mean": g = lambda y, x: env.div(v(y // 2, x // 2), 4)
        else:
            def g(y, x):
                (p, q), (r, s) = (y // 2, y // 2 + y % 2), (x // 2, x // 2 + x % 2)
                return env.div(v(p, r) + v(p, s) + v(q, r) + v(q, s), 4)
        out.append(put(env, (h, w), g))
    return out


def consistent(env, label, im, mode="adjacent"):
    """The Stokes images and the header follow from the current data."""
    h, w = im.data.shape
    env.check(f"{label}: height and width", im.height == h and im.width == w)
    env.check(f"{label}: header axis sizes", im.header["NAXIS1"] == w and im.header["NAXIS2"] == h)
    if not hasattr(im, "Stokes_vec"): return
    if im.demosaiced_images is None: spec = spec_stokes(env, im.data, im.angle_dic)
    else:
        d = spec_demosaic(env, im.data, mode)
        for k in range(4): env.equal(f"{label}: demosaiced image {k}", im.demosaiced_images[k], d[k])
        spec = stokes_of_full(env, d, im.angle_dic)
    for n, s in zip("IQU", spec): env.equal(f"{label}: Stokes {n}", getattr(im, n).data, s)


def fixed(env, h, w, f, **k): return env.ml.MicropolImage(env._mkarr([float(f(y, x)) for y in range(h) for x in range(w)], (h, w), float), **k)


def fixed_demodulator(env, h, w, flags=False):
    """A demodulator for h x w images with fixed tensor (and flags)."""
    h, w = h // 2, w // 2
    m = env._mkarr([float((i + 2 * j + 3 * y + x) % 5 - 2) for i in range(3) for j in range(4) for y in range(h) for x in range(w)], (3, 4, h, w), float)
    f = env._mkarr([float((y + x) % 2) for y in range(h) for x in range(w)], (h, w), float) if flags else None
    return demodulator(env, m, f, f"demo_{h}_{w}_{int(flags)}")


def _in_place(f):
    def g(env, im):
        f(env, im)
        return im
    return g


# what may have happened to an image before the operation under study
HIST = dict(
    demosaic=_in_place(lambda env, im: im.demosaic()), demosaic_mean=_in_place(lambda env, im: im.demosaic("mean")),
    demod=lambda env, im: im.demodulate(fixed_demodulator(env, *im.data.shape)),
    demod_flags=lambda env, im: im.demodulate(fixed_demodulator(env, *im.data.shape, flags=True)),
    demod_full=lambda env, im: im.demodulate(fixed_demodulator(env, *im.data.shape, flags=True), demosaicing=True),
    dark=_in_place(lambda env, im: im.subtract_dark(fixed(env, *im.data.shape, lambda y, x: (y + 3 * x) % 5 - 200))),
    flat=_in_place(lambda env, im: im.correct_flat(fixed(env, *im.data.shape, lambda y, x: 1 + (y + 3 * x) % 2 * 0.5))),
    shift=lambda env, im: im.shift(0, 1, 7), copy=lambda env, im: env.ml.MicropolImage(im), add=lambda env, im: im + 1.5,
)


def histories(tier):
    """Sequences of earlier operations: each alone, pairs around demodulation and demosaicing; thorough: all pairs and some triples."""
    n = list(HIST)
    key = [("dark", "demod"), ("dark", "demod_full"), ("demosaic", "demod"), ("demod", "demosaic_mean"), ("demod_full", "dark"), ("flat", "demod"), ("demod", "flat"), ("demod_full", "copy"), ("demosaic_mean", "copy"), ("demod_flags", "shift")]
    if tier == "quick": return [(o,) for o in n] + key
    return [(o,) for o in n] + [(o, q) for o in n for q in n] + [("dark", "flat", o) for o in n] + [(o, "copy", "dark") for o in n]


def mode_of(hist):
    """The demosaicing in force after the history ("" when not demosaiced)."""
    m = ""
    for o in hist:
        if o in ("demosaic", "demod_full"): m = "adjacent"
        if o == "demosaic_mean": m = "mean"
        if o in ("demod", "demod_flags"): m = ""
        if o == "add": m = ""
    return m


def past(env, im, hist):
    for o in hist: im = HIST[o](env, im)
    return im
