from .common import *
ID = "C31"
BOUNDS = "square images of 2x2 to 8x8 pixels (quick) / 16x16 (thorough) with arbitrary values stored as float64, float32 or integers, arbitrary plate scales, binning 1 to 8, sun centers anywhere in the 1952x1952 sensor or a little outside, headers given as dictionaries and as FITS headers with other cards"
DATES = [("2022-03-04", "05:06:07"), ("2021-12-31", "23:59:59.875"), ("2020-02-29", "00:00:00")]


def header(env, kind, n, date, time):
    cards = [("DATE-OBS", date), ("TIME-OBS", time), ("OBSERVER", "Somebody"), ("EXPTIME", 0.25), ("NAXIS1", n), ("NAXIS2", n)]
    if kind == "dict": return dict(cards)
    return env.header(cards)


def turned(env, a):
    """Every family about its own anti-diagonal."""
    n = a.shape[0]
    return put(env, (n, n), lambda y, x: val(env, a[n - 2 + y % 2 - (x - x % 2), n - 2 + x % 2 - (y - y % 2)]))


def align(env, n, dtype, kind, binning, date=0, center="any"):
    a = env.pixels("a", (n, n), dtype, *((0, 255) if dtype == "uint8" else (0, 60000) if dtype == "uint16" else (-1000, 1000)))
    f = env.mod("utils").align_keywords_and_data
    p = env.real("p", -100, 100)
    if center == "any": cy, cx = env.real("cy", -50, 2000), env.real("cx", -50, 2000)
    elif center == "int": cy, cx = env.int("cy", 0, 1952), env.int("cx", 0, 1952)
    else: cy, cx = center
    want = turned(env, a)
    D, T = DATES[date]
    hd = header(env, kind, n, D, T)
    args = () if binning is None else (binning,)
    rh, rd = f(hd, a, (cy, cx), p, *args)
    env.equal("data", rd, want, tol=1e-5 if dtype == "float32" else 0)
    one = lambda label, x, y, tol=1e-9: env.equal(label, put(env, (1,), lambda i: val(env, x)), put(env, (1,), lambda i: y), tol=tol)
    one("NAXIS1", rh["NAXIS1"], n, 0)
    one("NAXIS2", rh["NAXIS2"], n, 0)
    for k in (1, 2): one(f"CDELT{k}", rh[f"CDELT{k}"], p * (binning or 1))
    env.check("date and time", rh["DATE-OBS"] == D + "T" + T, f"{rh['DATE-OBS']}")
    one("CRPIX1", rh["CRPIX1"], n - env.trunc(env.div(cy * n, 1952)), 0)
    one("CRPIX2", rh["CRPIX2"], n - env.trunc(env.div(cx * n, 1952)), 0)
    env.check("other cards", rh["OBSERVER"] == "Somebody" and rh["EXPTIME"] == 0.25 and rh["TIME-OBS"] == T)
    again = f(header(env, kind, n, D, T), rd, (cy, cx), p, *args)
    env.equal("aligned twice", again[1], put(env, (n, n), lambda y, x: val(env, turned(env, want)[y, x])), tol=1e-5 if dtype == "float32" else 0)


def restored(env, n):
    """Two alignments restore the data, whatever it was."""
    a = env.reals("a", (n, n), -1000, 1000)
    keep = put(env, (n, n), lambda y, x: val(env, a[y, x]))
    f = env.mod("utils").align_keywords_and_data
    d = a
    for k in range(2): d = f(header(env, "dict", n, *DATES[0]), d, (700, 900), 4.3)[1]
    env.equal("restored", d, keep, tol=0)


def apart(env, n):
    """Families do not mix: one family's values come only from the same family."""
    v = [env.real(f"f{k}", -1000, 1000) for k in range(4)]
    a = put(env, (n, n), lambda y, x: v[2 * (y % 2) + x % 2])
    d = env.mod("utils").align_keywords_and_data(header(env, "dict", n, *DATES[0]), a, (700, 900), 4.3)[1]
    env.equal("constant families", d, put(env, (n, n), lambda y, x: v[2 * (y % 2) + x % 2]), tol=0)


def cases(tier):
    q = tier == "quick"
    for n in (2, 4, 6, 8) + (() if q else (10, 12, 16)):
        for kind in ("dict", "fits"): yield Case(f"{n}x{n} {kind}", align, n=n, dtype="float64", kind=kind, binning=None if kind == "dict" else 1, date=n // 2 % 3)
        yield Case(f"twice {n}x{n}", restored, n=n)
        yield Case(f"families {n}x{n}", apart, n=n)
    for k, dt in enumerate(("float32", "uint8", "uint16", "int16", "int32", "int64")): yield Case(f"4x4 {dt}", align, n=4, dtype=dt, kind=("dict", "fits")[k % 2], binning=2, center="int")
    for b in (1, 2, 3, 4, 8): yield Case(f"binning {b}", align, n=4 if b % 2 else 6, dtype="float64", kind=("fits", "dict")[b % 2], binning=b, date=b % 3)
    for c in ((0, 0), (1952, 1952), (976, 976.0), (0, 1952), (917.5, 1003.25), (1951.99, 0.01)): yield Case(f"center {c}", align, n=8, dtype="float64", kind="fits", binning=None, center=c)
