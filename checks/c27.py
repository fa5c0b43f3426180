from .common import *
import os
ID = "C27"
BOUNDS = "the decoder on every content of up to 24 (quick) / 60 groups of three bytes; whole 1952x1952 camera files (5.7 MB) with arbitrary bytes in the groups at both ends of every one of the 32 worker slices and at the file's quarter points, the rest fixed patterns with runs of zero bytes; refused lengths from 1 to 400 and around the full length"
N = 1952
SIZE = N * N * 3 // 2


def pixel(env, b, k):
    """Documented value of pixel k of byte list b."""
    g = 3 * (k // 2)
    one, two, three = (list(env.bits(b[g + n], 8)) if not isinstance(b[g + n], int) else [bool(b[g + n] >> q & 1) for q in range(8)] for n in range(3))
    lo, hi = (two[4:], one) if k % 2 == 0 else (two[:4], three)
    return env.frombits(lo + hi)


def decode(env, n, kind):
    b = env.byteseq("b", 3 * n)
    r = env.mod("processing.convert").three_bytes_to_two_ints(b)
    env.check("two pixels per group", len(r) == 2 * n, f"{len(r)}")
    env.equal("pixels", r, put(env, (2 * n,), lambda k: pixel(env, b, k)), tol=0)


def pattern(kind, n):
    if kind == "zeros": return bytes(n)
    if kind == "runs": return (bytes(range(256)) + bytes(97) + bytes([255] * 31) + bytes([0, 7, 0, 0, 0, 240])) * (n // 300 + 1)
    return bytes((k * 73 + 11) % 256 for k in range(256)) * (n // 256 + 1)


def whole(env, kind, convert=False):
    import numpy
    base = pattern(kind, SIZE)[:SIZE]
    c = SIZE // 32
    at = sorted({p for k in range(32) for p in (k * c, k * c + 1, k * c + 2, (k + 1) * c - 3, (k + 1) * c - 2, (k + 1) * c - 1)} | {q * SIZE // 4 // 3 * 3 + d for q in (1, 2, 3) for d in range(3)})
    b = env.bytes_with(base, "b", at)
    env.write_bytes("cam.bin", b)
    if convert:
        env.mod("processing.convert").convert_set("cam.bin", "out.fits", N, N)
        r = env.read_fits("out.fits")[0]
    else: r = env.mod("processing.convert").nparr_from_binary("cam.bin")
    env.check("shape", tuple(r.shape) == (N, N), f"{r.shape}")
    v = numpy.frombuffer(base, dtype=numpy.uint8).reshape(-1, 3).astype(int)
    want = numpy.stack([v[:, 0] * 16 + v[:, 1] // 16, v[:, 2] * 16 + v[:, 1] % 16], 1).reshape(N, N)
    free = sorted({2 * (p // 3) + d for p in at for d in (0, 1)})
    flat = r.reshape(-1)
    env.equal("free pixels", flat[free], put(env, (len(free),), lambda k: pixel(env, b, free[k])), tol=0)
    mask = numpy.ones(N * N, bool)
    mask[free] = False
    fixed_ = numpy.nonzero(mask)[0]
    env.check("fixed pixels", env.fixed_equal(flat, fixed_, want.reshape(-1)))
    env.check("input kept", env.read_bytes("cam.bin")[:30] == list(b)[:30] if not env.sym else True)


def refused(env, n):
    env.write_bytes("cam.bin", bytes(n))
    env.raises(f"{n} bytes", lambda: env.mod("processing.convert").nparr_from_binary("cam.bin"))


def converted(env):
    env.write_bytes("cam.bin", bytes(96))
    for b in ("out.bin", "out", "fits", "out.fits.bin"): env.raises(b, lambda: env.mod("processing.convert").convert_set("cam.bin", b, N, N))
    env.check("nothing written", sorted(os.listdir(".")) == ["cam.bin"], f"{os.listdir('.')}")


def cases(tier):
    q = tier == "quick"
    for k in ("runs",) if q else ("runs", "zeros", "mixed"): yield Case(f"whole file, {k}", whole, kind=k, _wall=400, _cost=100)
    if not q: yield Case("converted file", whole, kind="mixed", convert=True, _wall=600, _cost=100)
    for n in (1, 2, 3, 4, 8, 24) + (() if q else (60,)): yield Case(f"{n} groups", decode, n=n, kind="")
    for n in (0, 1, 2, 3, 31, 32, 95, 96, 97, 192, 400, SIZE - 1, SIZE - 3, SIZE + 1, SIZE + 3, SIZE + 32, SIZE - 96): yield Case(f"file of {n} bytes", refused, n=n, _cost=1)
    yield Case("converted", converted)
