from .common import *
import itertools, os
ID = "C26"
BOUNDS = "one to six files (quick) / eight of 2x2 to 3x5 pixels with arbitrary values stored as float64, float32, uint8, uint16, int16 or int32 (also mixed), any order of the list, files repeated in the list, each with a time from a fixed list in either format or none, images of both kinds"
RANGE = dict(uint8=(0, 255), uint16=(0, 65535), int16=(-32768, 32767), int32=(-2000000000, 2000000000))
CARDS = [("OBSERVER", "Somebody"), ("EXPTIME", 0.25), ("GAIN", 7)]
TIMES = ["2022-03-04T05:06:07", "2022-03-04T05:06:06.999", "2021-12-31T23:59:59", "2022-03-04T15:00:00.5", "2022-10-04T05:06:07"]


def cards(t, style):
    if t is None: return []
    if style == "split": return [("DATE-OBS", t[:10]), ("TIME-OBS", t[11:])]
    return [("DATE-OBS", t)]


def text(t): return t[:10] + " " + t[11:19]


def make(env, n, h, w, dtypes, times=None, styles=None, folder="in"):
    os.makedirs(folder, exist_ok=True)
    out = []
    for k in range(n):
        a = env.pixels(f"a{k}", (h, w), dtypes[k % len(dtypes)], *RANGE.get(dtypes[k % len(dtypes)], (-1000, 1000)))
        p = os.path.join(folder, f"f{k}.fits")
        env.write_fits(p, a, CARDS + [("NUMBER", k)] + cards(times[k] if times else None, styles[k] if styles else "one"))
        out.append((p, a))
    return out


def tolerance(dtypes): return 1e-3 if "float32" in dtypes else 1e-6


def combined(env, fs, mean):
    n = len(fs)
    return put(env, fs[0][1].shape, lambda y, x: env.div(env.sum([val(env, a[y, x]) for _, a in fs]), n if mean else 1))


def single(env, h, w, dtype, cls, style, aslist, path):
    t = TIMES[0]
    a = env.pixels("a", (h, w), dtype, *RANGE.get(dtype, (-1000, 1000)))
    if os.path.dirname(path): os.makedirs(os.path.dirname(path))
    extra = CARDS + cards(t if style != "none" else None, style)
    if style in ("date only", "odd"): extra = CARDS + [("DATE-OBS", t[:10] if style == "date only" else t + "Z")]
    env.write_fits(path, a, extra)
    for mean in (True, False):
        im = getattr(env.ml, cls)([path] if aslist else path, averageimages=mean)
        env.equal("pixel values", im.data, put(env, (h, w), lambda y, x: val(env, a[y, x])), tol=1e-5 if dtype == "float32" else 0)
        for k, v in extra: env.check(f"card {k}", im.header.get(k) == v, f"{im.header.get(k)!r} instead of {v!r}")
        env.check("no combination recorded", not any(k in im.header for k in ("SUMOF", "STRT-OBS", "END-OBS")))
        env.check("axis sizes", im.header["NAXIS1"] == w and im.header["NAXIS2"] == h)
        env.check("file name", im.filename == path, f"{im.filename}")
    env.equal("file on disk", env.read_fits(path)[0], a, tol=1e-5 if dtype == "float32" else 0)


def several(env, n, h, w, dtypes, cls, mean, rep=()):
    fs = make(env, n, h, w, dtypes)
    fs += [fs[k] for k in rep]
    names = [p for p, _ in fs]
    given = list(names)
    im = getattr(env.ml, cls)(given, **({} if mean else dict(averageimages=False)))
    want = combined(env, fs, mean)
    env.equal("mean" if mean else "sum", im.data, want, tol=tolerance(dtypes))
    env.check("count", im.header["SUMOF"] == len(fs), f"{im.header.get('SUMOF')}")
    env.check("no times", not any(k in im.header for k in ("STRT-OBS", "END-OBS")))
    env.check("list unchanged", given == names)
    for k, v in CARDS: env.check(f"card {k}", im.header.get(k) == v)
    if cls == "MicropolImage": consistent(env, "combined", im)
    for p, a in fs: env.equal(f"{p} on disk", env.read_fits(p)[0], a, tol=0)


def order(env, n, dtypes, mean):
    """Every order of the list, with the observation times anywhere in it."""
    fs = make(env, n, 2, 2, dtypes)
    base = env.ml.MicropolImage([p for p, _ in fs], averageimages=mean)
    for q in itertools.permutations(range(n)):
        im = env.ml.MicropolImage([fs[k][0] for k in q], averageimages=mean)
        env.equal(f"order {q}", im.data, base.data)
        env.equal(f"order {q}: Stokes I", im.I.data, base.I.data)
        env.check(f"order {q}: count", im.header["SUMOF"] == n)


def times(env, n, styles, mean):
    pick = [env.choose(f"t{k}", TIMES + [None]) for k in range(n)]
    fs = make(env, n, 2, 2, ["uint16"], pick, styles)
    im = env.ml.Image([p for p, _ in fs], averageimages=mean)
    env.equal("data", im.data, combined(env, fs, mean))
    known = sorted(t[:19] for t in pick if t)
    env.check("count", im.header["SUMOF"] == n)
    if not known: env.check("no times", not any(k in im.header for k in ("STRT-OBS", "END-OBS")))
    else:
        env.check("earliest", im.header.get("STRT-OBS") == text(known[0]), f"{im.header.get('STRT-OBS')} instead of {text(known[0])}")
        env.check("latest", im.header.get("END-OBS") == text(known[-1]), f"{im.header.get('END-OBS')} instead of {text(known[-1])}")


def corrected(env, n, mean):
    """Dark and flat given while loading apply to the combination."""
    fs = make(env, n, 2, 4, ["uint16"])
    dark, flat = env.reals("dark", (2, 4), 0, 50), fixed(env, 2, 4, lambda y, x: 1 + (y + 3 * x) % 2 * 0.5)
    names = [p for p, _ in fs]
    a = env.ml.MicropolImage(names, averageimages=mean, dark=env.ml.MicropolImage(dark), flat=flat)
    b = env.ml.MicropolImage(names, averageimages=mean)
    b.subtract_dark(env.ml.MicropolImage(dark))
    b.correct_flat(flat)
    env.equal("corrected", a.data, b.data)
    consistent(env, "corrected", a)


def nothing(env):
    fs = make(env, 1, 2, 2, ["uint16"])
    for cls in ("Image", "MicropolImage"):
        env.raises(f"{cls}: empty list", lambda: getattr(env.ml, cls)([]))
        env.raises(f"{cls}: empty list to be summed", lambda: getattr(env.ml, cls)([], averageimages=False))
        env.raises(f"{cls}: missing file", lambda: getattr(env.ml, cls)("nowhere.fits"))
        env.raises(f"{cls}: missing file in a list", lambda: getattr(env.ml, cls)([fs[0][0], "nowhere.fits"]))


def cases(tier):
    q = tier == "quick"
    dts = ("float64", "float32", "uint8", "uint16", "int16", "int32")
    for n, dt in enumerate(dts):
        for m, cls in enumerate(("Image", "MicropolImage")): yield Case(f"one {dt} {cls}", single, h=2, w=4, dtype=dt, cls=cls, style=("one", "split", "none")[(n + m) % 3], aslist=bool((n + m) % 2), path=("x.fits", "a b/run.1.fits")[n % 2])
    yield Case("one 3x5", single, h=3, w=5, dtype="uint16", cls="Image", style="one", aslist=False, path="x.fits")
    for s in ("date only", "odd"): yield Case(f"one, {s}", single, h=2, w=2, dtype="uint16", cls="MicropolImage", style=s, aslist=False, path="x.fits")
    for n, dt in enumerate(dts):
        for mean in (True, False): yield Case(f"{2 + n % 3} {dt}, {'mean' if mean else 'sum'}", several, n=2 + n % 3, h=2, w=2 + 2 * (n % 2), dtypes=[dt], cls=("MicropolImage", "Image")[(n + mean) % 2], mean=mean)
    for mean in (True, False):
        yield Case(f"mixed, {'mean' if mean else 'sum'}", several, n=5, h=2, w=2, dtypes=["uint16", "float32", "uint8", "int16", "float64"], cls="MicropolImage", mean=mean)
        yield Case(f"six, {'mean' if mean else 'sum'}", several, n=6 if q else 8, h=2, w=2, dtypes=["uint16"], cls="MicropolImage", mean=mean)
        yield Case(f"repeated, {'mean' if mean else 'sum'}", several, n=2, h=2, w=2, dtypes=["uint8"], cls="Image", mean=mean, rep=(0, 0, 1))
        for dt in (["uint16"], ["uint8", "int32", "float64"]): yield Case(f"orders {dt} {'mean' if mean else 'sum'}", order, n=3 if q else 4, dtypes=dt, mean=mean)
        for st in (("one", "one", "one"), ("split", "one", "split"), ("one", "split", "one")):
            yield Case(f"times {st} {'mean' if mean else 'sum'}", times, n=2 if q and mean else 3, styles=st, mean=mean)
        yield Case(f"corrected {'mean' if mean else 'sum'}", corrected, n=3, mean=mean)
    yield Case("nothing", nothing)
