from .common import *
ID = "C12"
BOUNDS = "images up to 5x4 plain pixels and 3x3 superpixels, every displacement from beyond one side to beyond the other, arbitrary pixels and fill values in float64, float32, uint8, uint16, int16, int64"


def want_of(env, a, y, x, missing):
    h, w = a.shape
    return put(env, (h, w), lambda j, i: val(env, a[j - y, i - x]) if 0 <= j - y < h and 0 <= i - x < w else missing)


def value(env, dtype, name="missing", frac=True):
    return env.real(name, -100, 300) if frac else env.int(name, 0, 100)


def plain(env, h, w, dtype, frac):
    a = env.pixels("a", (h, w), dtype, 0, 200)
    m = value(env, dtype, frac=frac)
    y, x = env.choose("y", list(range(-h - 2, h + 3))), env.choose("x", list(range(-w - 2, w + 3)))
    im = env.ml.Image(a)
    env.equal(f"shifted by {y}, {x}", im.shift(y, x, m).data, want_of(env, a, y, x, m))
    env.equal(f"default fill, {y}, {x}", im.shift(y, x).data, want_of(env, a, y, x, 0))


def micropol(env, h, w, dtype, frac, dic):
    a = env.pixels("a", (h, w), dtype, 0, 200)
    m = value(env, dtype, frac=frac)
    y, x = env.choose("y", list(range(-h // 2 - 2, h // 2 + 3))), env.choose("x", list(range(-w // 2 - 2, w // 2 + 3)))
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    want = want_of(env, a, 2 * y, 2 * x, m)
    r = im.shift(y, x, m)
    env.equal(f"shifted by {y}, {x} superpixels", r.data, want)
    env.equal(f"by keyword, {y}, {x}", im.shift(y=y, x=x, missing=m).data, want)
    env.equal(f"default fill, {y}, {x}", im.shift(y, x).data, want_of(env, a, 2 * y, 2 * x, 0))
    equal_stokes(env, "Stokes of the shifted image", r, spec_stokes(env, want, dic))


def there_and_back(env, y, x):
    """What stays inside comes back to its place."""
    h, w = 6, 8
    a = env.reals("a", (h, w))
    b = env.ml.MicropolImage(a).shift(y, x).shift(-y, -x).data
    ok = lambda j, i: 0 <= j // 2 + y < h // 2 and 0 <= i // 2 + x < w // 2
    env.equal("there and back", b, put(env, (h, w), lambda j, i: a[j, i] if ok(j, i) else 0.0))


def after(env, hist, dic):
    """Whatever happened to the image before."""
    im = past(env, env.ml.MicropolImage(env.reals("a", (4, 4), 0, 300), angle_dic=dict(dic)), hist)
    a, m = env.ml.MicropolImage(im).data.copy(), env.real("missing", -100, 300)
    for y, x in ((1, 0), (-1, 1), (0, -2)):
        r = im.shift(y, x, m)
        env.equal(f"shifted by {y}, {x}", r.data, want_of(env, a, 2 * y, 2 * x, m))
        consistent(env, f"shifted by {y}, {x}", r, mode_of(hist) or "adjacent")


def cases(tier):
    for n, h in enumerate(histories(tier)): yield Case("after " + ", ".join(h), after, hist=h, dic=ALL_DICS[7 * n % 24])
    k = 0
    for h, w in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 3)) + (((5, 4), (3, 6)) if tier != "quick" else ()):
        for dt in ("float64", "uint8", "int16") if (h, w) == (2, 3) else (("float64", "int64", "uint16", "float32")[(h + w) % 4],):
            for frac in (True, False): yield Case(f"plain {h}x{w} {dt} {'real' if frac else 'integer'} fill", plain, h=h, w=w, dtype=dt, frac=frac)
    for h, w in ((2, 2), (2, 4), (4, 2), (4, 6)) + (((6, 6), (6, 4)) if tier != "quick" else ()):
        for dt in ("float64", "uint16") if (h, w) == (2, 4) else (("float64", "uint8", "int16")[(h + w) % 3],):
            for frac in (True, False):
                k += 1
                yield Case(f"superpixels {h}x{w} {dt} {'real' if frac else 'integer'} fill", micropol, h=h, w=w, dtype=dt, frac=frac, dic=ALL_DICS[5 * k % 24])
    for y, x in ((1, 0), (0, 1), (1, 2), (-1, 1), (2, -3)): yield Case(f"there and back {y} {x}", there_and_back, y=y, x=x)
