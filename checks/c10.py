from .common import *
ID = "C10"
BOUNDS = "every even image size up to 12x12 that holds a block, square and not, binning 1 to 5 (thorough: up to 20x16 and binning 7), arbitrary pixels in float64, uint8, uint16 and int16, orientation assignments varied over all 24; images that are not demodulated"


def block(env, a, n, h, w):
    """Sums over n x n blocks of superpixels, family by family."""
    def g(y, x):
        Y, X, j, i = y // 2, x // 2, y % 2, x % 2
        return env.sum([val(env, a[2 * (n * Y + p) + j, 2 * (n * X + q) + i]) for p in range(n) for q in range(n)])
    return put(env, (h // (2 * n) * 2, w // (2 * n) * 2), g)


def rebin(env, h, w, n, dtype, dic, demosaiced=False):
    a = env.pixels("a", (h, w), dtype, 0 if dtype.startswith("u") else -200, 200)
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    S = im.Stokes_vec.copy()
    r = im.rebin(n)
    want = block(env, a, n, h, w)
    env.equal("block sums of each family", r.data, want)
    env.check("orientation assignment", dict(r.angle_dic) == dict(dic))
    H, W = want.shape[0] // 2, want.shape[1] // 2
    for k, s in enumerate("IQU"):
        env.equal(f"Stokes {s} is the block sum", getattr(r, s).data, put(env, (H, W), lambda y, x: env.sum([val(env, S[k, n * y + p, n * x + q]) for p in range(n) for q in range(n)])))
    for k in range(4):
        f = fam(a, k)
        env.equal(f"signal of family {k}", env.sum([val(env, x) for x in fam(r.data, k).flat]), env.sum([val(env, f[y, x]) for y in range(H * n) for x in range(W * n)]))
    # the array function behind it
    env.equal("micropolarray_rebin", env.mod("processing.rebin").micropolarray_rebin(put(env, (h, w), lambda y, x: val(env, a[y, x])), n), want)


def compose(env, h, w, p, q, dtype):
    a = env.pixels("a", (h, w), dtype, 0, 200)
    im = env.ml.MicropolImage(a)
    one, two = im.rebin(p * q), im.rebin(p).rebin(q)
    env.equal("binning twice", two.data, one.data)
    env.equal("Stokes of binning twice", two.Stokes_vec, one.Stokes_vec)


def rejected(env):
    im = env.ml.MicropolImage(env.reals("a", (4, 6)))
    pl = env.ml.Image(env.reals("b", (4, 6)))
    for n in (0, -1, -2, -3):
        env.raises(f"binning {n}", lambda: im.rebin(n))
        env.raises(f"plain binning {n}", lambda: pl.rebin(n))


def cases(tier):
    top = (12, 12, 5) if tier == "quick" else (20, 16, 7)
    k = 0
    for n in range(1, top[2] + 1):
        for h in range(2 * n, top[0] + 1, 2):
            for w in range(2 * n, top[1] + 1, 2):
                k += 1
                if n == 1 and h + w > 8 and k % 3: continue
                yield Case(f"{h}x{w} by {n}", rebin, h=h, w=w, n=n, dtype=("float64", "uint16", "float64", "uint8", "int16")[k % 5], dic=ALL_DICS[k % 24])
    for p, q, h, w in ((2, 2, 8, 8), (2, 2, 8, 16), (1, 3, 6, 12), (3, 1, 6, 6), (2, 3, 12, 12), (3, 2, 12, 12), (2, 2, 16, 8)) + (((3, 3, 18, 18), (2, 4, 16, 16), (4, 2, 16, 32)) if tier != "quick" else ()):
        yield Case(f"{h}x{w} by {p} then {q}", compose, h=h, w=w, p=p, q=q, dtype="float64" if q > 2 else "uint16")
    yield Case("non-positive binning", rejected)
