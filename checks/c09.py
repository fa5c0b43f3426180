from .common import *
ID = "C09"
BOUNDS = "every sequence of 2 (thorough: 3; also in quick when starting with demosaicing) operations out of 18, on 4x8 images (after rebinning 2x4), arbitrary pixels, darks and added images, fixed flats and divisors with zero pixels, orientation assignments varied over all 24 across sequences; float64 and uint16 start images"


def const(env, h, w, f, **k): return env.ml.MicropolImage(env._mkarr([float(f(y, x)) for y in range(h) for x in range(w)], (h, w), float), **k)


class Ctx:
    """The second operands, one per image size."""

    def __init__(self, env): self.env, self.c = env, {}

    def get(self, name, shape):
        k = (name,) + tuple(shape)
        if k not in self.c: self.c[k] = self.env.reals(f"{name}{shape[0]}x{shape[1]}", shape, 0.0, 500.0)
        return self.env.ml.MicropolImage(self.c[k].copy())


def op_demosaic(mode):
    def f(env, c, im):
        im.demosaic(mode)
        return im, mode
    return f


def inplace(name):
    def f(env, c, im):
        h, w = im.data.shape
        if name == "dark": r = im.subtract_dark(c.get("dark", im.data.shape))
        elif name == "flat": r = im.correct_flat(const(env, h, w, lambda y, x: (3 * y + 5 * x + y * x) % 7))
        else: r = im.correct_ifov()
        consistent(env, f"returned by {name}", r, c.mode)
        return im, None
    return f


OPS = dict(
    dark=inplace("dark"), flat=inplace("flat"), ifov=inplace("ifov"),
    rebin=lambda env, c, im: (im.rebin(2), None),
    shift=lambda env, c, im: (im.shift(1, -1, 3.0), None),
    shift_far=lambda env, c, im: (im.shift(0, 9), None),
    add=lambda env, c, im: (im + c.get("add", im.data.shape), None), sub=lambda env, c, im: (im - c.get("add", im.data.shape), None),
    mul=lambda env, c, im: (im * const(env, *im.data.shape, lambda y, x: (y + 2 * x) % 5 - 1), None), div=lambda env, c, im: (im / const(env, *im.data.shape, lambda y, x: (y + 3 * x) % 4), None),
    add_number=lambda env, c, im: (im + 7.5, None), mul_number=lambda env, c, im: (im * 3.0, None), div_number=lambda env, c, im: (im / 8.0, None),
    clean=lambda env, c, im: (im.clean_hot_pixels(const(env, *im.data.shape, lambda y, x: (y + x) % 3 == 0)), None),
    hotmap=lambda env, c, im: (env.ml.get_hot_pixels(im, threshold=0.25), None),
    copy=lambda env, c, im: (env.ml.MicropolImage(im), None),
    demosaic=op_demosaic("adjacent"), demosaic_mean=op_demosaic("mean"),
)


def run(env, ops, c, a, dic):
    im, mode = env.ml.MicropolImage(a.copy(), angle_dic=dict(dic)), "adjacent"
    for k, o in enumerate(ops):
        c.mode = mode
        h = im.data.shape
        if o == "rebin" and (h[0] < 4 or h[1] < 4): return
        im, m = OPS[o](env, c, im)
        mode = m or mode
        env.check("orientation assignment kept", dict(im.angle_dic) == dict(dic))
    consistent(env, " > ".join(ops), im, mode)


def seqs(env, first, dtype, start):
    c = Ctx(env)
    a = env.pixels("a", (4, 8), dtype, 0, 500)
    for n, o in enumerate(OPS): run(env, list(first) + [o], c, a, ALL_DICS[(n + start) % 24])


def plain(env, dtype):
    a = env.pixels("a", (5, 6), dtype, 0, 500)
    im = env.ml.Image(a)
    consistent(env, "new", im)
    for name, r in dict(rebin2=lambda: im.rebin(2), rebin3=lambda: im.rebin(3), shift=lambda: im.shift(2, -1), add=lambda: im + 1, sub=lambda: im - im, mul=lambda: im * 2, div=lambda: im / 3, copy=lambda: env.ml.Image(im)).items():
        x = r()
        consistent(env, name, x)
        consistent(env, name + " rebin", x.rebin(2))
        consistent(env, name + " shift", x.shift(-1, 1))
        x.data = env.reals(name, (3, 2))
        consistent(env, name + " assignment", x)


def assign(env):
    """Assigning the data keeps sizes and header in step."""
    im = env.ml.MicropolImage(env.reals("a", (4, 6)))
    im.data = env.reals("b", (2, 8))
    env.check("height and width", (im.height, im.width) == (2, 8))
    env.check("header axis sizes", im.header["NAXIS1"] == 8 and im.header["NAXIS2"] == 2)


def resized(env, op, state):
    """Header and sizes after the remaining operations (their Stokes rules are C18, C32)."""
    im = env.ml.MicropolImage(env.reals("a", (4, 6)))
    if state: im.demosaic()
    r = dict(congrid=lambda: im.congrid(6, 2), rotate=lambda: im.rotate(90), congrid_up=lambda: im.congrid(8, 10))[op]()
    h, w = r.data.shape
    env.check("height and width", (r.height, r.width) == (h, w))
    env.check("header axis sizes", r.header["NAXIS1"] == w and r.header["NAXIS2"] == h)


def loaded(env, dtype):
    """An image read from a file and then changed."""
    c = Ctx(env)
    a = env.pixels("a", (4, 8), dtype, 0, 500)
    for n, o in enumerate(OPS):
        env.write_fits(f"f{n}.fits", a, [("DATE-OBS", "2022-12-03T10:11:12"), ("OBSERVER", "x")])
        im = env.ml.MicropolImage(f"f{n}.fits", angle_dic=dict(ALL_DICS[(3 * n) % 24]))
        c.mode = "adjacent"
        consistent(env, "loaded", im)
        im, mode = OPS[o](env, c, im)
        consistent(env, f"loaded > {o}", im, mode or "adjacent")


def demodulated(env, hist, dic):
    """Operations on a demodulated image leave the Stokes images of the data, not of the tensor."""
    c = Ctx(env)
    a = env.reals("a", (4, 8), 0, 500)
    for o in OPS:
        if o == "copy": continue
        im = past(env, env.ml.MicropolImage(a.copy(), angle_dic=dict(dic)), hist)
        c.mode = mode_of(hist) or "adjacent"
        im, m = OPS[o](env, c, im)
        consistent(env, f"{o}", im, m or c.mode)


def cases(tier):
    for n, h in enumerate([x for x in histories(tier) if any(o.startswith("demod") for o in x)]): yield Case("demodulated: " + ", ".join(h), demodulated, hist=h, dic=ALL_DICS[5 * n % 24])
    names = list(OPS)
    for n, o in enumerate(names):
        yield Case(f"after {o}", seqs, first=(o,), dtype="float64", start=n, _wall=600, _cost=9)
        if tier != "quick":
            yield Case(f"after {o} uint16", seqs, first=(o,), dtype="uint16", start=n + 7, _wall=600)
        if tier != "quick" or o.startswith("demosaic"):
            for k, q in enumerate(names): yield Case(f"after {o}, {q}", seqs, first=(o, q), dtype="float64", start=3 * n + 5 * k, _wall=600)
    yield Case("first uint16", seqs, first=(), dtype="uint16", start=5)
    for dt in ("float64", "uint16", "int64"): yield Case(f"plain {dt}", plain, dtype=dt)
    yield Case("assignment", assign)
    for op in ("congrid", "rotate", "congrid_up"):
        for st in (0, 1): yield Case(f"{op} {'demosaiced' if st else 'fresh'}", resized, op=op, state=st)
    for dt in ("float32", "uint16"): yield Case(f"loaded {dt}", loaded, dtype=dt)
