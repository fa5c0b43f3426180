from .common import *
ID = "C03"
BOUNDS = "arbitrary real Stokes images of 1 to 6 superpixels (every sign combination, zeros included); images of 2x2 and 4x6 arbitrary reals"
ASSUMPTIONS = ["signed zeros are not distinguished (a Stokes value -0.0 counts as 0)", "arctan2 is an uninterpreted function with its quadrant, sign, zero and range axioms"]
HALFPI = 1.5707963267948966


def one(env, label, I, Q, U, pb, dolp, aolp):
    r = env.sqrt(Q * Q + U * U)
    env.equal(f"{label}pB = sqrt(Q^2+U^2)", pb, r)
    env.check(f"{label}pB is not negative", env.le(0, pb))
    z = env.eq(I, 0)
    env.equal(f"{label}DoLP = pB / I, 0 where I is 0", dolp, env.ite(z, 0.0, env.div(r, env.ite(z, 1.0, I))))
    env.equal(f"{label}AoLP = half the angle of (Q, U)", aolp, env.div(env.atan2(U, Q), 2))
    # quadrants, stated without arctan2
    env.check(f"{label}AoLP in (-90, 90] degrees", env.and_(env.lt(-HALFPI, aolp + 1e-12), env.le(aolp, HALFPI + 1e-12)))
    env.check(f"{label}AoLP has the sign of U", env.and_(env.implies(env.lt(0, U), env.lt(0, aolp)), env.implies(env.lt(U, 0), env.lt(aolp, 0))))
    env.check(f"{label}AoLP is beyond 45 degrees iff Q < 0", env.and_(env.implies(env.lt(Q, 0), env.lt(HALFPI / 2 - 1e-9, env.abs(aolp))), env.implies(env.lt(0, Q), env.lt(env.abs(aolp), HALFPI / 2 + 1e-9))))


def functions(env, n, dtype="float64"):
    f = env.mod("polarization_functions")
    S = env.reals("S", (3, n), -1e4, 1e4)
    if n > 1: S = S.reshape(3, 1, n)
    before = S.copy()
    pb, d, a = f.pB(S), f.DoLP(S), f.AoLP(S)
    env.equal("the Stokes images are unchanged", S, before, tol=0)
    for k in range(n):
        g = lambda q: val(env, q.reshape(n)[k])
        one(env, "", val(env, before.reshape(3, n)[0, k]), val(env, before.reshape(3, n)[1, k]), val(env, before.reshape(3, n)[2, k]), g(pb), g(d), g(a))


def image(env, h, w, dic):
    a = env.reals("a", (h, w), -1e4, 1e4)
    im = env.ml.MicropolImage(a, angle_dic=dict(dic))
    for step in ("", "new Stokes: "):
        if step:
            # the reported values follow the current Stokes images
            im.Stokes_vec = env.reals("T", (3, h // 2, w // 2), -1e4, 1e4)
        I, Q, U = im.I.data, im.Q.data, im.U.data
        if not step: env.equal("Stokes of the image", env.np.array([I, Q, U]), env.np.array(spec_stokes(env, a, dic)))
        pb, d, l = im.pB.data, im.DoLP.data, im.AoLP.data
        pl = {p.ID: p.data for p in im.polparam_list}
        for y in range(h // 2):
            for x in range(w // 2):
                one(env, step, *(val(env, q[y, x]) for q in (I, Q, U, pb, d, l)))
        env.equal(step + "listed parameters", env.np.array([pl[k] for k in ("pB", "DoLP", "AoLP")]), env.np.array([pb, d, l]), tol=0)


def cases(tier):
    for n in (1, 2) + ((4, 6) if tier != "quick" else ()): yield Case(f"functions of {n} Stokes vectors", functions, n=n)
    yield Case("image 2x2", image, h=2, w=2, dic=DEFAULT)
    yield Case("image 2x4", image, h=2, w=4, dic=ALL_DICS[11])
    if tier != "quick": yield Case("image 4x6", image, h=4, w=6, dic=ALL_DICS[8])
