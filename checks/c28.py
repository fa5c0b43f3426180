from .common import *
import os
ID = "C28"
BOUNDS = "raw files of 1x1 to 4x5 pixels with every 16-bit value in every pixel, one to five files merged in any order of the list (also repeated), names with several dots, folders, '..' and absolute paths, failing writes, images of every number type saved as raw"


def raw(env, name, h, w):
    """Pixels and the little-endian bytes that hold them."""
    b = env.byteseq(name, 2 * h * w)
    bits = lambda k: [bool(b[k] >> q & 1) for q in range(8)] if isinstance(b[k], int) else list(env.bits(b[k], 8))
    return b, put(env, (h, w), lambda y, x: env.frombits(bits(2 * (y * w + x)) + bits(2 * (y * w + x) + 1)), "int64")


def files(): return sorted(os.path.join(d, f) for d, _, fs in os.walk(".") for f in fs)


def convert(env, h, w, path, remove, call=None):
    if os.path.dirname(path): os.makedirs(os.path.dirname(path), exist_ok=True)
    b, a = raw(env, "b", h, w)
    env.write_bytes(path, b)
    arg = os.path.abspath(path) if call == "absolute" else path
    env.mod("processing.convert").convert_rawfile_to_fits(arg, h, w, **(dict(remove_old=True) if remove else {}))
    out = os.path.join(".", os.path.normpath(path))[:-4] + ".fits"
    src = os.path.join(".", os.path.normpath(path))
    env.check("files", files() == sorted([out] + ([] if remove else [src])), f"{files()}")
    env.equal("pixels", env.read_fits(out)[0], a, tol=0)
    if not remove: env.check("raw file kept", env.and_(*[env.eq(p, q) for p, q in zip(env.read_bytes(src), list(b))]))
    im = env.ml.Image(out)
    env.equal("loaded", im.data, put(env, (h, w), lambda y, x: val(env, a[y, x])), tol=0)


def again(env):
    """Converting over an earlier result replaces it."""
    for n in range(2):
        b, a = raw(env, f"b{n}", 2, 2)
        env.write_bytes("x.raw", b)
        env.mod("processing.convert").convert_rawfile_to_fits("x.raw", 2, 2)
        env.equal(f"conversion {n}", env.read_fits("x.fits")[0], a, tol=0)


def failing(env, remove):
    b, a = raw(env, "b", 2, 3)
    env.write_bytes("x.raw", b)
    env.fail_writes(lambda p: True)
    env.raises("write fails", lambda: env.mod("processing.convert").convert_rawfile_to_fits("x.raw", 2, 3, remove_old=remove))
    env.check("raw file still there", "./x.raw" in files(), f"{files()}")


def short(env):
    for n in (0, 1, 11): 
        env.write_bytes("x.raw", bytes(n))
        env.raises(f"{n} bytes", lambda: env.mod("processing.convert").convert_rawfile_to_fits("x.raw", 2, 3, remove_old=True))
        env.check("raw file still there", files() == ["./x.raw"], f"{files()}")
    env.raises("not raw", lambda: env.mod("processing.convert").convert_rawfile_to_fits("x.bin", 2, 3))


def merge(env, n, h, w, mode, order, new="out.fits", func="merge"):
    rs = [raw(env, f"b{k}", h, w) for k in range(n)]
    for k, (b, _) in enumerate(rs): env.write_bytes(f"r.{k}.raw", b)
    M = env.mod("processing.convert")
    names = [f"r.{k}.raw" for k in order]
    given = list(names)
    if func == "average": M.average_rawfiles_to_fits(given, new, h, w)
    elif mode == "sum": M.merge_rawfiles_to_fits(given, new, h, w)
    else: M.merge_rawfiles_to_fits(given, new, h, w, mode=mode)
    want = put(env, (h, w), lambda y, x: env.div(env.sum([val(env, rs[k][1][y, x]) for k in order]), len(order) if mode == "average" else 1))
    r = env.read_fits(new)[0]
    env.equal(mode, r, want, tol=0 if mode == "sum" else 1e-9)
    env.check("files", files() == sorted([os.path.join(".", os.path.normpath(new))] + [f"./r.{k}.raw" for k in range(n)]), f"{files()}")
    env.check("list unchanged", given == names)
    if len(order) == 1:
        (M.average_rawfiles_to_fits if mode == "average" else M.merge_rawfiles_to_fits)(names[0], "alone.fits", h, w)
        env.equal("single name", env.read_fits("alone.fits")[0], want, tol=0)


def badname(env):
    b, a = raw(env, "b", 1, 2)
    env.write_bytes("x.raw", b)
    M = env.mod("processing.convert")
    for n in ("out", "out.raw", "fits", "out.fits.raw"):
        env.raises(f"merged as {n}", lambda: M.merge_rawfiles_to_fits(["x.raw"], n, 1, 2))
        env.raises(f"averaged as {n}", lambda: M.average_rawfiles_to_fits(["x.raw"], n, 1, 2))
    env.check("nothing written", files() == ["./x.raw"], f"{files()}")


def back(env, h, w, dtype, cls, path, loaded=False):
    """Image -> raw -> FITS."""
    a = env.pixels("a", (h, w), dtype, 0, 255 if dtype == "uint8" else 32767 if dtype == "int16" else 65535) if dtype.startswith(("u", "i")) else put(env, (h, w), lambda y, x: env.int(f"a{y},{x}", 0, 65535), dtype)
    if os.path.dirname(path): os.makedirs(os.path.dirname(path))
    if loaded:
        env.write_fits("src.fits", a)
        im = getattr(env.ml, cls)("src.fits")
    else: im = getattr(env.ml, cls)(a)
    before = env.snap(observe(im))
    im.save_as_raw(path)
    env.same("image in memory", before, observe(im))
    env.check("raw size", len(env.read_bytes(path)) == 2 * h * w)
    env.mod("processing.convert").convert_rawfile_to_fits(path, h, w)
    env.equal("converted back", env.read_fits(path[:-4] + ".fits")[0], put(env, (h, w), lambda y, x: val(env, a[y, x])), tol=0)


def notraw(env):
    im = fixed(env, 2, 2, lambda y, x: 1.0)
    for n in ("x.fits", "x", "raw", "x.raw.bin"): env.raises(n, lambda: im.save_as_raw(n))
    env.check("nothing written", files() == [], f"{files()}")


def cases(tier):
    q = tier == "quick"
    for h, w in ((1, 1), (2, 2), (3, 2), (2, 3), (1, 4), (4, 5)) + (() if q else ((6, 8), (10, 3))):
        for r in (False, True): yield Case(f"convert {h}x{w}{', removing' * r}", convert, h=h, w=w, path="x.raw", remove=r)
    os_ = ("a.b.raw", "run.1/x.raw", "a.raw/b.raw", "raw.d/c.rawx.raw", "s/../x.2.raw", "my file.raw", "fits.raw", "x.fits.raw", ".hidden.raw")
    for p in os_:
        for r in (False, True): yield Case(f"convert {p}{', removing' * r}", convert, h=1, w=2, path=p, remove=r)
        yield Case(f"convert {p}, absolute", convert, h=1, w=2, path=p, remove=False, call="absolute")
    yield Case("converted again", again)
    for r in (False, True): yield Case(f"failing write{', removing' * r}", failing, remove=r)
    yield Case("short files", short)
    for n, o in ((1, (0,)), (2, (0, 1)), (2, (1, 0)), (3, (2, 0, 1)), (3, (0, 0, 2)), (5, (4, 2, 0, 1, 3))):
        for m in ("sum", "average"): yield Case(f"{m} of {o}", merge, n=n, h=2, w=1 + n % 3, mode=m, order=o)
        yield Case(f"average of {o} by its own name", merge, n=n, h=1, w=2, mode="average", order=o, func="average", new="./sum.1.fits")
    yield Case("names refused", badname)
    for n, dt in enumerate(("uint16", "int32", "int64", "uint8", "int16", "float64", "float32", "uint32")):
        yield Case(f"back {dt}", back, h=2, w=2 + 2 * (n % 2), dtype=dt, cls=("MicropolImage", "Image")[n % 2], path=("x.raw", "d.1/y.2.raw")[n % 2])
    for dt in ("uint16", "float64"): yield Case(f"back from a {dt} file", back, h=2, w=2, dtype=dt, cls="MicropolImage", path="x.raw", loaded=True)
    yield Case("not raw", notraw)
