from .common import *
ID = "C04"
BOUNDS = "arbitrary real angles, phases (up to 10^3 rad), transmittances and efficiencies in [0, 1] (and beyond, for the formula), signals; shifts by up to 3 half turns; all 24 orientation assignments; one and several superpixels"
ASSUMPTIONS = ["cos and sin are uninterpreted functions on the unit circle, with angle addition and exact values at multiples of 45 degrees"]
PI = 3.141592653589793


def response(env):
    M = env.mod("processing.demodulation").Malus
    a, p = env.real("angle", -1000, 1000), env.real("phase", -1000, 1000)
    t, e = env.real("t", -2, 2), env.real("e", -2, 2)
    m = M(a, t, e, p)
    env.equal("response = t/2 (1 + e cos 2(angle - phase))", m, env.div(t, 2) * (1 + e * env.cos(2 * a - 2 * p)))
    env.equal("vectorised over angles", M(env.np.array([a, a + 0.5]), t, e, p), env.np.array([M(a, t, e, p), M(a + 0.5, t, e, p)]))


def bounds(env):
    M = env.mod("processing.demodulation").Malus
    a, p = env.real("angle", -1000, 1000), env.real("phase", -1000, 1000)
    t, e = env.real("t", 0, 1), env.real("e", 0, 1)
    env.equal("response depends on angle - phase only", M(a, t, e, p), M(a - p, t, e, 0.0))
    m = M(env.real("difference", -1000, 1000), t, e, 0.0)
    env.check("response is at least 0", env.le(-1e-9, m))
    env.check("response is at most t", env.le(m, t + 1e-9))


def turns(env, k):
    M = env.mod("processing.demodulation").Malus
    a, p = env.real("angle", -1000, 1000), env.real("phase", -1000, 1000)
    t, e = env.real("t", -2, 2), env.real("e", -2, 2)
    env.equal("angle plus half turns", M(a + k * PI, t, e, p), M(a, t, e, p))
    env.equal("phase plus half turns", M(a, t, e, p + k * PI), M(a, t, e, p))
    env.equal("maximum at the phase", M(p, t, e, p), env.div(t, 2) * (1 + e))
    env.equal("minimum across it", M(p + PI / 2, t, e, p), env.div(t, 2) * (1 - e))


def polarimeter(env, dic, h, w):
    M = env.mod("processing.demodulation").Malus
    t, e = env.real("t", 0, 1), env.real("e", 0, 1)
    ang = env.reals("ang", (h, w), -20, 20)
    S = env.reals("S", (h, w), 0, 1e5)
    inv = {v: k for k, v in dic.items()}
    # each superpixel sees light of its own signal and angle
    data = put(env, (2 * h, 2 * w), lambda y, x: S[y // 2, x // 2] * M(ang[y // 2, x // 2], t, e, inv[2 * (y % 2) + x % 2] * PI / 180))
    im = env.ml.MicropolImage(data, angle_dic=dict(dic))
    g = lambda f: put(env, (h, w), f)
    env.equal("I = S t", im.I.data, g(lambda y, x: S[y, x] * t))
    env.equal("Q = S t e cos(2 angle)", im.Q.data, g(lambda y, x: S[y, x] * t * e * env.cos(2 * ang[y, x])))
    env.equal("U = S t e sin(2 angle)", im.U.data, g(lambda y, x: S[y, x] * t * e * env.sin(2 * ang[y, x])))


def cases(tier):
    yield Case("response", response)
    yield Case("bounds", bounds)
    for k in (1, -1, 2) if tier == "quick" else (1, -1, 2, -2, 3, -3): yield Case(f"{k} half turns", turns, k=k)
    for n, d in enumerate(ALL_DICS): yield Case(f"polarimeter {n}", polarimeter, dic=d, h=1, w=1)
    yield Case("polarimeter 4x6", polarimeter, dic=ALL_DICS[13], h=2, w=3)
