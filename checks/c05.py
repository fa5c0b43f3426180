from .common import *
ID = "C05"
BOUNDS = "plain images 1x1 to 3x4, micropolarizer images 2x2 to 4x6, arbitrary real or integer pixels (64-bit) and scalars, zero divisors included, all orientation assignments; operands demosaiced or not"
ASSUMPTIONS = ["pixel types wide enough for the result (float64 and int64 operands)"]
import operator
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}


def spec(env, op, x, y):
    if op != "/": return OPS[op](x, y)
    z = env.eq(y, 0)
    return env.ite(z, 0.0, env.div(x, env.ite(z, 1, y)))


def micropol(env, op, h, w, da, db, dic, other, demosaiced=False):
    a = env.pixels("a", (h, w), da, -10000, 10000)
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    im.header["OBSERVER"] = "someone"
    im.header["EXPTIME"] = 2.5
    if demosaiced: im.demosaic()
    if other == "image":
        b = env.pixels("b", (h, w), db, -10000, 10000)
        second = env.ml.MicropolImage(b, angle_dic=dict(reversed(list(zip(dic.keys(), reversed(list(dic.values())))))))
        second.header["OBSERVER"] = "another"
        at = lambda y, x: val(env, b[y, x])
    else:
        second = env.int("k", -1000, 1000) if db.startswith("int") else env.real("k", -1000, 1000)
        at = lambda y, x: second
    before, before2 = env.snap(*observe(im)), env.snap(*observe(second)) if other == "image" else None
    r = OPS[op](im, second)
    env.check("the result is a micropolarizer image", type(r) is env.ml.MicropolImage)
    want = put(env, (h, w), lambda y, x: spec(env, op, val(env, a[y, x]), at(y, x)))
    env.equal("pixel by pixel result", r.data, want)
    env.check("orientation assignment of the first operand", dict(r.angle_dic) == dict(dic))
    env.check("header cards of the first operand", list(r.header.keys()) == list(im.header.keys()) and r.header["OBSERVER"] == "someone" and float(r.header["EXPTIME"]) == 2.5 and r.header["NAXIS1"] == w and r.header["NAXIS2"] == h)
    if not demosaiced: equal_stokes(env, "Stokes of the result", r, spec_stokes(env, r.data, dic))
    env.same("first operand unchanged", before, *observe(im))
    if before2: env.same("second operand unchanged", before2, *observe(second))
    env.noalias("result and first operand share no data", r.data, im.data)


def plain(env, op, h, w, da, db, other):
    a = env.pixels("a", (h, w), da, -10000, 10000)
    im = env.ml.Image(a)
    if other == "image":
        b = env.pixels("b", (h, w), db, -10000, 10000)
        second = env.ml.Image(b)
        at = lambda y, x: val(env, b[y, x])
    else:
        second = env.int("k", -1000, 1000) if db.startswith("int") else env.real("k", -1000, 1000)
        at = lambda y, x: second
    before, before2 = env.snap(*observe(im)), env.snap(*observe(second)) if other == "image" else None
    r = OPS[op](im, second)
    env.check("the result is an image", type(r) is env.ml.Image)
    env.equal("pixel by pixel result", r.data, put(env, (h, w), lambda y, x: spec(env, op, val(env, a[y, x]), at(y, x))))
    env.check("header states the size", r.header["NAXIS1"] == w and r.header["NAXIS2"] == h)
    env.same("first operand unchanged", before, *observe(im))
    if before2: env.same("second operand unchanged", before2, *observe(second))


def after(env, hist, dic, h=4, w=4):
    """Whatever happened to the first operand before."""
    im = past(env, env.ml.MicropolImage(env.reals("a", (h, w), 0, 300), angle_dic=dict(dic)), hist)
    a, b, k = im.data.copy(), env.reals("b", (h, w), -50, 50), env.real("k", -50, 50)
    second = env.ml.MicropolImage(b)
    for op in OPS:
        for r, at in ((OPS[op](im, second), lambda y, x: val(env, b[y, x])), (OPS[op](im, k), lambda y, x: k)):
            want = put(env, (h, w), lambda y, x: spec(env, op, val(env, a[y, x]), at(y, x)))
            env.equal(f"image {op} other", r.data, want)
            consistent(env, f"image {op} other", r, mode_of(hist) or "adjacent")
            env.check("orientation assignment of the first operand", dict(r.angle_dic) == dict(dic))


def cases(tier):
    for n, p in enumerate(histories(tier)): yield Case("after " + ", ".join(p), after, hist=p, dic=ALL_DICS[7 * n % 24], h=2)
    n = 0
    for op in OPS:
        for other in ("image", "number"):
            for da, db in (("float64", "float64"), ("int64", "int64"), ("int64", "float64"), ("float64", "int64")):
                n += 5
                shapes = ((2, 2), (2, 4), (4, 2), (4, 6)) if tier != "quick" or da == db == "float64" else ((2, 4),)
                for h, w in shapes:
                    yield Case(f"micropolarizer {h}x{w} {da} {op} {other} {db}", micropol, op=op, h=h, w=w, da=da, db=db, dic=ALL_DICS[n % 24], other=other)
                for h, w in ((1, 1), (3, 4)) if da == db else ((2, 3),):
                    yield Case(f"plain {h}x{w} {da} {op} {other} {db}", plain, op=op, h=h, w=w, da=da, db=db, other=other)
            yield Case(f"demosaiced 4x4 {op} {other}", micropol, op=op, h=4, w=4, da="float64", db="float64", dic=DEFAULT, other=other, demosaiced=True)
