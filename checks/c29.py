from .common import *
import math
ID = "C29"
BOUNDS = "real angles within 5 half turns of zero (lists: within 2 each) for both normalizers of lists, lists of 0 to 5 angles, bare numbers, and arrays of 1 to 6 elements of one to three dimensions stored as float64, float32 or integers, within 3 half turns (single angles 7, thorough 12)"
PI = math.pi


def edge(env, x, turn):
    """Real runs only: rounding decides on which side of an end of the interval the angle lands (exact multiples of
    a quarter turn are examined by cases of their own)."""
    if env.sym: return False
    d = abs((float(x) / turn - 0.5) - round(float(x) / turn - 0.5))
    return d < 1e-11 and (turn != 180 or d != 0)


def landed(env, label, r, x, turn, n, tol=0):
    """r is the angle in (-turn/2, turn/2] that is whole turns away from x (|x| <= n turns and a half)."""
    r, x = val(env, r), val(env, x)
    if edge(env, x, turn): return
    if env.sym: turn = env._s.snap(turn)       # no rounding in the multiples
    want = x
    for k in range(1, n + 2):
        want = env.ite(env.lt((2 * k - 1) * turn / 2, x), x - k * turn, want)
        want = env.ite(env.le(x, -(2 * k - 1) * turn / 2), x + k * turn, want)
    env.equal(label, put(env, (1,), lambda i: r), put(env, (1,), lambda i: want), tol=tol)


def normalizer(env, where): return env.mod(where).normalize2pi


def bare(env, where, kind, n):
    f = normalizer(env, where)
    x = env.real("x", -180 * n, 180 * n) if kind == "float" else env.int("x", -180 * n, 180 * n)
    r = f(x)
    env.check("a list", type(r) is list, f"{type(r)}")
    env.check("one element", len(r) == 1, f"{len(r)}")
    landed(env, "angle", r[0], x, 180, n, 0 if kind == "int" else 1e-9)
    env.check("within half a turn", env.and_(env.lt(-90, val(env, r[0])), env.le(val(env, r[0]), 90)))
    again = f(list(r))
    env.check("again", len(again) == 1)
    env.equal("normalized again", put(env, (1,), lambda i: val(env, again[0])), put(env, (1,), lambda i: val(env, r[0])), tol=0)
    env.equal("a list of one", put(env, (1,), lambda i: val(env, f([x])[0])), put(env, (1,), lambda i: val(env, r[0])), tol=0)


def several(env, where, n, turns, kinds):
    f = normalizer(env, where)
    xs = [(env.real if kinds[k % len(kinds)] == "f" else env.int)(f"x{k}", -180 * turns, 180 * turns) for k in range(n)]
    r = f(list(xs))
    env.check("a list", type(r) is list)
    env.check("length", len(r) == n, f"{len(r)}")
    for k in range(n): landed(env, f"angle {k}", r[k], xs[k], 180, turns, 1e-9 if kinds[k % len(kinds)] == "f" else 0)
    again = f(list(r))
    env.check("length again", len(again) == n)
    for k in range(n): env.equal(f"angle {k} again", put(env, (1,), lambda i: val(env, again[k])), put(env, (1,), lambda i: val(env, r[k])), tol=0)


def exact(env, where):
    """Multiples of a quarter turn."""
    f = normalizer(env, where)
    for x, w in ((0, 0), (90, 90), (-90, 90), (180, 0), (-180, 0), (270, 90), (-270, 90), (45, 45), (-45, -45), (135, -45), (-135, 45), (450, 90), (-450, 90), (540, 0), (1e-9, 1e-9), (-89.5, -89.5), (90.5, -89.5), (-90.5, 89.5)):
        r = f([x, 17, x])
        env.check(f"{x}", [float(v) for v in r] == [float(w), 17.0, float(w)], f"{r}")
        env.check(f"{x} alone", [float(v) for v in f(x)] == [float(w)])
    env.check("no angles", f([]) == [])


def array(env, shape, dtype, n):
    f = env.mod("utils").normalize2piarray
    a = env.pixels("a", shape, dtype, -int(PI * n), int(PI * n)) if dtype.startswith("int") else env.pixels("a", shape, dtype, -PI * n, PI * n)
    if dtype == "float32":
        # rounded sums leave the ends of the interval undecided
        for i in np_index(shape):
            for k in range(-n - 1, n + 1): env.assume(env.lt(1e-4, env.abs(val(env, a[i]) - (2 * k + 1) * PI / 2)))
    before = env.snap(a)
    r = f(a)
    env.same("input", before, a)
    env.check("shape", tuple(r.shape) == tuple(shape), f"{r.shape}")
    tol = 1e-5 if dtype == "float32" else 1e-9
    for i in np_index(shape):
        landed(env, f"angle {list(i)}", r[i], a[i], PI, n, tol)
        if dtype != "float32" and not edge(env, val(env, a[i]), PI): env.check(f"angle {list(i)} in the half turn", env.and_(env.lt(-PI / 2, val(env, r[i])), env.le(val(env, r[i]), PI / 2)))
    if not any(edge(env, val(env, a[i]), PI) for i in np_index(shape)): env.equal("again", f(r), r, tol=1e-5 if dtype == "float32" else 0)


def exact_array(env, dtype):
    import numpy as np
    f = env.mod("utils").normalize2piarray
    h = np.pi / 2
    for x, w in ((h, h), (-h, h), (0.0, 0.0), (2 * h, 0.0), (-2 * h, 0.0), (h * (1 + 1e-9), -h), (-h * (1 - 1e-9), -h), (3 * h, h), (-3 * h, h), (1.0, 1.0), (-1.5, -1.5), (2.0, 2.0 - 2 * h)):
        a = np.array([x, 0.5, x])
        r = f(a)
        env.check(f"{x}", bool(np.all(np.abs(np.asarray(r, float) - [w, 0.5, w]) < 1e-6)), f"{r}")
        env.check(f"{x}: input", a.tolist() == [x, 0.5, x])


def np_index(shape):
    import numpy as np
    return list(np.ndindex(tuple(shape)))


def cases(tier):
    q = tier == "quick"
    for where in ("utils", "polarization_functions"):
        for kind in ("float", "int"): yield Case(f"{where}: bare {kind}", bare, where=where, kind=kind, n=5 if q else 12)
        for n, t, k in ((1, 5, "f"), (2, 2, "fi"), (3, 1, "f"), (3, 2, "i")) + (() if q else ((4, 1, "fi"), (5, 1, "f"), (2, 5, "f"))): yield Case(f"{where}: list of {n} ({k}, {t} turns)", several, where=where, n=n, turns=t, kinds=k)
        yield Case(f"{where}: quarter turns", exact, where=where)
    yield Case("array of quarter turns", exact_array, dtype="float64")
    T = 7 if q else 12
    for sh, dt, n in (((1,), "float64", T), ((2,), "float64", 2), ((1, 2), "float64", 3), ((2, 2), "float64", 1), ((3,), "int64", 2), ((2,), "int32", 3), ((2,), "float32", 1), ((1, 1, 2), "float64", 2)) + (() if q else (((2, 3), "float64", 1), ((4,), "int64", 2), ((3,), "float64", 3))):
        yield Case(f"array {sh} {dt} within {n} turns", array, shape=sh, dtype=dt, n=n)
