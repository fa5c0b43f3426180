from .common import *
ID = "C08"
BOUNDS = "images of 4x4 to 6x8 pixels (plain images 3x4), arbitrary pixels, float64 and integer storage, demosaiced or not, demodulated or not; every operation that returns an image, followed by every in-place operation on either image"
import operator
N = [0]


def build(env, name, h, w, dtype, state, dic):
    im = env.ml.MicropolImage(env.pixels(name, (h, w), dtype, 0, 4000), angle_dic=dict(dic))
    im.header["OBSERVER"] = "someone"
    im.header["EXPTIME"] = 2.5
    if state == "demosaiced": im.demosaic()
    if state == "demodulated":
        m = env._mkarr([float((3 * i + 5 * j + y + 2 * x) % 7 - 3) for i in range(3) for j in range(4) for y in range(h // 2) for x in range(w // 2)], (3, 4, h // 2, w // 2), float)
        im = im.demodulate(demodulator(env, m))
    return im


def second(env, h, w, dic): return env.ml.MicropolImage(env.reals("b", (h, w), 0.5, 4000), angle_dic=dict(dic))


def op_demod(env, im, dem):
    h, w = im.data.shape[0] // 2, im.data.shape[1] // 2
    m = env._mkarr([float((i + 2 * j + 3 * y + x) % 5 - 2) for i in range(3) for j in range(4) for y in range(h) for x in range(w)], (3, 4, h, w), float)
    f = env._mkarr([float((y + x) % 2) for y in range(h) for x in range(w)], (h, w), float)
    return im.demodulate(demodulator(env, m, f, "demo2"), demosaicing=dem)


def hot(env, im):
    h, w = im.data.shape
    return im.clean_hot_pixels(env.ml.MicropolImage(env._mkarr([float((y * w + x) % 3 == 0) for y in range(h) for x in range(w)], (h, w), float)))


OPS = dict(
    copy=lambda env, im: env.ml.MicropolImage(im),
    copy_angles=lambda env, im: env.ml.MicropolImage(im, angle_dic=dict(DEFAULT)),
    plain=lambda env, im: env.ml.Image(im),
    rebin=lambda env, im: im.rebin(2),
    rebin1=lambda env, im: im.rebin(1),
    shift=lambda env, im: im.shift(1, -1),
    shift0=lambda env, im: im.shift(0, 0),
    rotate=lambda env, im: im.rotate(90),
    rotate0=lambda env, im: im.rotate(0),
    rotate33=lambda env, im: im.rotate(33.0),
    congrid=lambda env, im: im.congrid(im.height + 2, im.width - 2),
    congrid_same=lambda env, im: im.congrid(im.height, im.width),
    demodulate=lambda env, im: op_demod(env, im, False),
    demodulate_demosaicing=lambda env, im: op_demod(env, im, True),
    clean=hot,
    hotmap=lambda env, im: env.ml.get_hot_pixels(im, threshold=2),
    roi=None,
    dark=lambda env, im: env.ml.MicropolImage(im, dark=second(env, im.height, im.width, DEFAULT)),
    flat=lambda env, im: env.ml.MicropolImage(im, flat=second(env, im.height, im.width, DEFAULT)),
    add=lambda env, im: im + 3.0, sub=lambda env, im: im - 3, mul=lambda env, im: im * 2.0, div=lambda env, im: im / 4.0,
    mul1=lambda env, im: im * 1, add0=lambda env, im: im + 0, sub0=lambda env, im: im - 0.0, div1=lambda env, im: im / 1.0,
    add_image=lambda env, im: im + second(env, im.height, im.width, DEFAULT), sub_image=lambda env, im: im - second(env, im.height, im.width, DEFAULT),
    mul_image=lambda env, im: im * second(env, im.height, im.width, DEFAULT), div_image=lambda env, im: im / second(env, im.height, im.width, DEFAULT),
    add_self=lambda env, im: im + im, sub_self=lambda env, im: im - im, mul_self=lambda env, im: im * im,
)
del OPS["roi"]


def hdr(im):
    im.header["OBSERVER"] = "changed"
    im.header["NEWCARD"] = 1


def same_size(env, n, im): return env.ml.MicropolImage(env.reals(n, im.data.shape, 1, 50))


def stokes_write(im, v):
    if hasattr(im, "Stokes_vec"):
        for k in range(3): im.Stokes_vec[k, 0, 0] = v


def demo_write(im, v):
    if getattr(im, "demosaiced_images", None) is not None:
        for k in range(4): im.demosaiced_images[k][0, 0] = v


def data_write(im, v): im.data[0, 0] = v


MUT = dict(
    mask=lambda env, im, n: hasattr(im, "Stokes_vec") and im.mask_occulter(2, 2, 1, fill=-7.0),
    dark=lambda env, im, n: hasattr(im, "Stokes_vec") and im.subtract_dark(same_size(env, n, im)),
    flat=lambda env, im, n: hasattr(im, "Stokes_vec") and im.correct_flat(same_size(env, n, im)),
    ifov=lambda env, im, n: hasattr(im, "Stokes_vec") and im.correct_ifov(),
    demosaic=lambda env, im, n: hasattr(im, "Stokes_vec") and im.demosaic("mean"),
    header=lambda env, im, n: hdr(im),
    write_data=lambda env, im, n: data_write(im, -77),
    write_stokes=lambda env, im, n: stokes_write(im, -78.0),
    write_demosaiced=lambda env, im, n: demo_write(im, -79.0),
)


def one(env, op, h, w, dtype, state, dic, muts):
    im = build(env, "a", h, w, dtype, state, dic)
    before = env.snap(*observe(im))
    r = OPS[op](env, im)
    env.check("a new object", r is not im and r.header is not im.header)
    env.same("original after the operation", before, *observe(im))
    env.noalias("data", r.data, im.data)
    if hasattr(r, "Stokes_vec"): env.noalias("Stokes images", r.Stokes_vec, im.Stokes_vec)
    after = env.snap(*observe(r))
    for k, m in enumerate(muts):
        MUT[m](env, im, f"d{k}")
        env.same(f"result after {m} of the original", after, *observe(r))
    before = env.snap(*observe(im))
    for k, m in enumerate(muts):
        MUT[m](env, r, f"e{k}")
        env.same(f"original after {m} of the result", before, *observe(im))


def plain(env, op, dtype):
    im = env.ml.Image(env.pixels("a", (3, 4), dtype, 0, 4000))
    im.header["OBSERVER"] = "someone"
    before = env.snap(*observe(im))
    b = env.ml.Image(env.pixels("b", (3, 4), dtype, 1, 4000))
    r = dict(copy=lambda: env.ml.Image(im), rebin=lambda: im.rebin(2), rebin1=lambda: im.rebin(1), shift=lambda: im.shift(1, 1), shift0=lambda: im.shift(0, 0),
             add=lambda: im + b, sub=lambda: im - b, mul=lambda: im * b, div=lambda: im / b, add0=lambda: im + 0, mul1=lambda: im * 1)[op]()
    env.check("a new object", r is not im)
    env.same("original after the operation", before, *observe(im))
    after = env.snap(*observe(r))
    hdr(im)
    data_write(im, -5)
    env.same("result after changes of the original", after, *observe(r))
    before = env.snap(*observe(im))
    hdr(r)
    data_write(r, -6)
    env.same("original after changes of the result", before, *observe(im))


def array(env, cls):
    """The array an image is built from is not the image's memory."""
    a = env.reals("a", (4, 6))
    im = getattr(env.ml, cls)(a)
    keep = env.snap(*observe(im))
    a[0, 0] = -9.0
    env.same("image after a write to the array it was built from", keep, *observe(im))


def cases(tier):
    n = 0
    for op in OPS:
        for state in ("fresh", "demosaiced", "demodulated"):
            for dtype in ("float64", "uint16", "int64") if (tier != "quick" or state == "fresh") else ("float64",):
                if "rotate" in op and dtype != "float64": continue
                if tier == "quick" and dtype == "int64" and op not in ("copy", "rebin1", "shift0", "congrid_same", "mul1", "add0"): continue
                n += 1
                # quick: the in-place operations are spread over two rounds of cases
                ms = list(MUT)
                for part, muts in (("", ms[n % 2::2] + ms[(n + 1) % 2::2]),):
                    yield Case(f"{op} {state} {dtype}{part}", one, op=op, h=4 if n % 2 else 6, w=6 if n % 2 else 4, dtype=dtype, state=state, dic=ALL_DICS[n % 24], muts=muts)
    for op in ("copy", "rebin", "rebin1", "shift", "shift0", "add", "sub", "mul", "div", "add0", "mul1"):
        for dtype in ("float64", "int64"): yield Case(f"plain {op} {dtype}", plain, op=op, dtype=dtype)
    for cls in ("Image", "MicropolImage"): yield Case(f"{cls} from an array", array, cls=cls)
