"""What a check is written against.

A check is a set of cases; a case is a function body(env, **params) that builds inputs through env,
calls the library and states its claims through env.equal / env.check / env.raises.  The same body
runs symbolically (SymEnv: inputs are solver variables, claims become queries over all their values)
and on the real library (RealEnv: replays of counterexamples, cross-checks of the encoding).
"""
from __future__ import annotations
import math, os, random, shutil, signal, sys, tempfile, time, traceback
from fractions import Fraction
import numpy as _np


class Skip(Exception):
    """The concrete inputs lie outside the assumptions."""


class Fail(Exception):
    def __init__(self, label, detail): super().__init__(f"{label}: {detail}"); self.label, self.detail = label, detail


class Case:
    def __init__(self, name, fn, **kw):
        self.name, self.fn, self.kw = name, fn, kw
        self.opts = {k[1:]: kw.pop(k) for k in list(kw) if k.startswith("_")}


TOL = 1e-6
TOL32 = 2e-3


class BaseEnv:
    sym = False
    tier = "quick"
    tol = TOL
    slack = 0.0

    def _lower(self, dtype, size):
        """Single-precision inputs may be processed in single precision throughout: a relative tolerance, and
        an absolute one of some units in the last place of the largest input."""
        d = _np.dtype(dtype)
        if d.kind == "f" and d.itemsize < 8: self.tol, self.slack = max(self.tol, TOL32), max(self.slack, 2.0 ** -17 * size)

    def mod(self, name=""):
        return sys.modules["micropolarray" + ("." + name if name else "")]

    def listing(self, order):
        """Directories are listed as order(sorted names) says (None: reverse lexicographic)."""
        from . import loader
        loader.ORDER = order

    # ---- inputs
    def reals(self, name, shape, lo=-1000.0, hi=1000.0, dtype="float64"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        self._lower(dtype, max(abs(lo), abs(hi)))
        flat = [self._real(f"{name}{list(i)}", lo, hi, dtype) for i in _np.ndindex(shape)]
        return self._mkarr(flat, shape, dtype)

    def ints(self, name, shape, lo=0, hi=4095, dtype="int64"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        flat = [self._int(f"{name}{list(i)}", lo, hi) for i in _np.ndindex(shape)]
        return self._mkarr(flat, shape, dtype)

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        return self._mkarr([self.bool(f"{name}{list(i)}") for i in _np.ndindex(shape)], shape, "bool")

    def pixels(self, name, shape, dtype="float64", lo=0, hi=4095):
        """Image data of any dtype."""
        if _np.dtype(dtype).kind in "iu": return self.ints(name, shape, int(lo), int(hi), dtype)
        return self.reals(name, shape, lo, hi, dtype)

    def real(self, name, lo=-1000.0, hi=1000.0): return self._real(name, lo, hi, "float64")
    def int(self, name, lo, hi): return self._int(name, lo, hi)

    # ---- snapshots
    def snap(self, *objs):
        """Observable state of images/headers/arrays/dicts, to be compared later with same()."""
        return [self._snap(o, 0, {}) for o in objs]

    def _snap(self, o, d, memo):
        np = self.np
        if id(o) in memo: return ("ref",)
        if isinstance(o, _np.ndarray):
            if o.dtype == object: return ("list", [self._snap(x, d + 1, memo) for x in list(o)])
            return ("arr", o.copy())
        if o is None or isinstance(o, (str, bytes, bool)): return ("v", o)
        if self.isnum(o): return ("n", o)
        t = type(o).__name__
        if t in ("Header", "VHeader"): return ("hdr", [(k, o[k]) for k in o.keys()])
        if isinstance(o, dict):
            memo[id(o)] = 1
            return ("dict", {k: self._snap(v, d + 1, memo) for k, v in o.items()})
        if isinstance(o, (list, tuple)):
            memo[id(o)] = 1
            return ("list", [self._snap(x, d + 1, memo) for x in o])
        if t in ("Image", "MicropolImage", "PolParam", "Demodulator", "Camera", "PolarCam", "Kasi", "Antarticor") and d < 4:
            memo[id(o)] = 1
            return ("obj", {k: self._snap(v, d + 1, memo) for k, v in sorted(vars(o).items()) if not k.startswith("_")})
        return ("other",)

    def same(self, label, before, *objs):
        for n, (s, o) in enumerate(zip(before, objs)):
            self._same(f"{label}[{n}]" if len(objs) > 1 else label, s, self._snap(o, 0, {}))

    def _same(self, label, a, b):
        if a[0] != b[0]:
            return self.check(label, False, f"kind changed from {a[0]} to {b[0]}")
        k = a[0]
        if k == "arr": self.equal(label, b[1], a[1], tol=0)
        elif k == "n": self.equal(label, b[1], a[1], tol=0)
        elif k == "v": self.check(label, a[1] == b[1], f"changed from {a[1]!r} to {b[1]!r}")
        elif k == "hdr":
            self.check(label, [x for x, _ in a[1]] == [x for x, _ in b[1]], f"cards changed from {[x for x, _ in a[1]]} to {[x for x, _ in b[1]]}")
            for (n, v), (_, w) in zip(a[1], b[1]):
                if self.isnum(v) and self.isnum(w): self.equal(f"{label}.{n}", w, v, tol=0)
                else: self.check(f"{label}.{n}", v == w, f"{v!r} -> {w!r}")
        elif k == "dict" or k == "obj":
            self.check(label, list(a[1]) == list(b[1]), f"fields {list(a[1])} -> {list(b[1])}")
            for n in a[1]:
                if n in b[1]: self._same(f"{label}.{n}", a[1][n], b[1][n])
        elif k == "list":
            self.check(label, len(a[1]) == len(b[1]), "length changed")
            for n, (x, y) in enumerate(zip(a[1], b[1])): self._same(f"{label}[{n}]", x, y)

    def noalias(self, label, a, b):
        """Writing to array a must not be able to change array b."""
        if isinstance(a, _np.ndarray) and isinstance(b, _np.ndarray):
            self.check(label, not _np.shares_memory(self._mem(a), self._mem(b)), "the two arrays share memory")

    def _mem(self, a): return a

    def call(self, f, *a, **k):
        """(result, exception) of a library call that may legitimately raise."""
        try: return f(*a, **k), None
        except Exception as e:  # noqa
            return None, e

    def close_to(self, a, b, tol=None):
        tol = self.tol if tol is None else tol
        return self.le(self.abs(a - b), tol * (1 + self.abs(b)) + (self.slack if tol else 0))


# ======================================================================= symbolic
def fractional(s, t):
    """Contains divisions or roots of variables."""
    if not s.size_below(t, 2000): return False
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if s.z3.is_app(x) and (x.decl().kind() == s.z3.Z3_OP_DIV and s.const_of(x.arg(1)) is None or x.decl().name() == "sqrt"): return True
        st.extend(x.children())
    return False


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, engine, case, scratch, rec):
        from . import arr, sym, world, loader
        self.e, self.case, self.scratch, self.rec = engine, case, scratch, rec
        self._s, self._a, self._w = sym, arr, world
        self.inputs = {}
        self.np = loader.shim("numpy")
        self.ml = None
        self.world = world

    def _reg(self, name, var, kind, lo, hi):
        if name in self.inputs: raise RuntimeError(f"input {name} defined twice")
        self.inputs[name] = (var, kind, lo, hi)

    def _real(self, name, lo, hi, dtype):
        z3 = self._s.z3
        v = z3.Real(name)
        self._reg(name, v, "r4" if _np.dtype(dtype).itemsize < 8 else "r", lo, hi)
        if lo is not None: self.e.assume(v >= self._s.rval(lo))
        if hi is not None: self.e.assume(v <= self._s.rval(hi))
        self.e.intervals[v.get_id()] = (v, tuple(None if q is None else Fraction(self._s.const_of(self._s.rval(q))) for q in (lo, hi)))
        return self._s.SNum(v, False)

    def _int(self, name, lo, hi):
        z3 = self._s.z3
        v = z3.Int(name)
        self._reg(name, v, "i", lo, hi)
        self.e.assume(z3.And(v >= lo, v <= hi))
        self.e.intervals[v.get_id()] = (v, (Fraction(lo), Fraction(hi)))
        return self._s.SNum(v, True, lo, hi)

    def bool(self, name):
        v = self._s.z3.Bool(name)
        self._reg(name, v, "b", None, None)
        return self._s.SBool(v)

    def byteseq(self, name, n):
        """n arbitrary bytes (bit-level symbols)."""
        z3 = self._s.z3
        out = []
        for k in range(n):
            bits = []
            for q in range(8):
                v = z3.Bool(f"{name}[{k}].{q}")
                self._reg(f"{name}[{k}].{q}", v, "b", None, None)
                bits.append(v)
            out.append(self._s.frombits(bits))
        return self._a.SymBytes(out)

    def bytes_with(self, base, name, at):
        """The given bytes, arbitrary ones at the given positions."""
        out, free = list(base), list(self.byteseq(name, len(at)))
        for k, v in zip(at, free): out[k] = v
        return self._a.SymBytes(out)

    def uint_bits(self, name, shape, bits, dtype):
        """Array of unsigned integers made of individual bits."""
        z3 = self._s.z3
        shape = tuple(shape)
        flat = []
        for i in _np.ndindex(shape):
            bs = []
            for q in range(bits):
                n = f"{name}{list(i)}.{q}"
                v = z3.Bool(n)
                self._reg(n, v, "b", None, None)
                bs.append(v)
            flat.append(self._s.frombits(bs))
        return self._mkarr(flat, shape, dtype)

    def choose(self, name, options):
        """One of finitely many options, decided by a forked integer."""
        k = int(self.e.concretize(self._int(name, 0, len(options) - 1)))
        return options[k]

    def _mkarr(self, flat, shape, dtype):
        r = _np.empty(len(flat), dtype=object)
        for k, v in enumerate(flat): r[k] = v
        return self._a.wrap(r.reshape(shape), dtype)

    def arr(self, x, dtype=None):
        return self._a.lift(_np.array(x, dtype=dtype)) if not self._a.any_sym(x) else (self._a.cast_array(self._a.lift(x), dtype) if dtype else self._a.lift(x))

    def isnum(self, o): return self._s.is_sym(o) or isinstance(o, (int, float, _np.generic))

    # ---- logic
    def ite(self, c, a, b): return self._s.n_ite(self._tb(c), a, b)
    def _tb(self, c): return self._s.tobool(self._s.norm(c) if not self._s.is_sym(c) else c)
    def and_(self, *xs): return self._s.b_all([self._tb(x) for x in xs])
    def or_(self, *xs): return self._s.b_any([self._tb(x) for x in xs])
    def not_(self, x): return self._s.b_not(self._tb(x))
    def implies(self, a, b): return self._s.b_implies(self._tb(a), self._tb(b))
    def abs(self, a): return self._s.n_abs(self._s.norm(a))
    def min(self, a, b): return self._s.n_min(self._s.norm(a), self._s.norm(b))
    def max(self, a, b): return self._s.n_max(self._s.norm(a), self._s.norm(b))
    def le(self, a, b): return self._s.n_le(self._s.norm(a), self._s.norm(b))
    def lt(self, a, b): return self._s.n_lt(self._s.norm(a), self._s.norm(b))
    def eq(self, a, b): return self._s.n_eq(self._s.norm(a), self._s.norm(b))
    def sqrt(self, a): return self._s.n_sqrt(self._s.norm(a))
    def root_of(self, a):
        """The x with a = sqrt(x): (x, True if a cannot be negative anyway)."""
        s, a = self._s, self._s.norm(a)
        if s.is_sym(a) and not a.i and self._s.z3.is_app(a.t) and a.t.decl().name() == "sqrt": return s.with_nf(s.SNum(a.t.arg(0), False), a), True
        return s.n_mul(a, a), False
    def div(self, a, b): return self._s.n_div(self._s.norm(a), self._s.norm(b))
    def atan2(self, y, x): return self._s.n_atan2(self._s.norm(y), self._s.norm(x))
    def cos(self, a): return self._s.n_cos(self._s.norm(a))
    def sin(self, a): return self._s.n_sin(self._s.norm(a))
    def floor(self, a): return self._s.n_floor(self._s.norm(a))
    def trunc(self, a): return self._s.n_trunc(self._s.norm(a))
    def sum(self, xs): return self._a.nsum([self._s.norm(x) for x in xs])
    def sort(self, xs): return self._a.sort_elems([self._s.norm(x) for x in xs])
    def bits(self, x, n):
        b = list(self._s.getbits(x))[:n]
        return b + [False] * (n - len(b))
    def frombits(self, bs): return self._s.frombits(bs)

    def truth(self, c):
        """Value of c on this path (splits into two paths if both are possible)."""
        c = self._tb(c)
        return c if isinstance(c, bool) else bool(c)

    def identical(self, x, y):
        """Equal for all values of this path within 1e-9 (quickly settled, else False; no path is split)."""
        ne, big = self._neq(self._s.norm(x), self._s.norm(y), 1e-9)
        if isinstance(ne, bool): return not ne
        return self.e.solve(big[-1] if big else ne, timeout=400, quick=True) == self._s.z3.unsat

    def assume(self, c):
        c = self._tb(c)
        if c is True: return
        if c is False: raise Skip()
        self.e.assume(c.t)

    # ---- files
    def write_fits(self, path, data, cards=()):
        h = self._w.VHDU(data=data)
        for k, v in cards: h.header[k] = v
        h.writeto(path, overwrite=True)

    def read_fits(self, path):
        with self._w.vopen(path) as h: return h[0].data, h[0].header

    def write_bytes(self, path, b):
        if isinstance(b, (bytes, bytearray)): open(path, "wb").write(b)
        else: self._w.W.put(path, b)

    def read_bytes(self, path):
        c = self._w.W.get(path)
        return list(c.elems) if c is not None else list(open(path, "rb").read())

    def fixed_equal(self, a, at, want):
        """All elements of the 1-D array a at the given places are the given numbers (decided without symbols)."""
        raw = a.raw() if hasattr(a, "raw") else a
        import numpy
        got = raw[at]
        if got.dtype != object: return bool((got == want[at]).all())
        return all(not self._s.is_sym(x) and x == y for x, y in zip(got.tolist(), want[at].tolist()))

    def fail_writes(self, pred): self._w.W.fail_write = pred
    def stub_curve_fit(self, f): self._w.W.curve_fit = f
    def stub_cv2(self, **fs): self._w.W.cv2 = fs
    def drawn(self, ax): return [tuple(i) for i in ax.zimg], list(ax.zsteps), ax.ztitle
    def header(self, cards=()):
        self._w.real_fits()
        h = self._w.VHeader_()
        for k, v in cards: h[k] = v
        return h

    # ---- claims
    def _bad(self, label, kind, detail, neg=None, model=None):
        """Candidate violation on this path."""
        if model is None:
            r, model = self.e.solve(neg, model=True)
            z3 = self._s.z3
            if r == z3.unsat: return
            if r != z3.sat:
                self.rec["inconclusive"].append(f"{self.case.name}: {label}: solver gave no answer ({detail})")
                return
        if sum(1 for c in self.rec["candidates"] if c["label"] == label) >= 3: return
        self.rec["candidates"].append(dict(case=self.case.name, label=label, kind=kind, detail=str(detail)[:500], inputs=self.values(model)))

    def values(self, m):
        z3 = self._s.z3
        out = {}
        for n, (v, k, lo, hi) in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if k == "b": out[n] = bool(z3.is_true(x))
            elif k == "i": out[n] = x.as_long()
            else:
                if z3.is_algebraic_value(x): x = x.approx(20)
                out[n] = self._s.unsnap(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        return out

    def check(self, label, cond, detail="the claim is false"):
        s, z3 = self._s, self._s.z3
        self.e.st["goals"] += 1
        c = self._tb(cond)
        if c is True:
            self.e.st["simplified"] += 1
            return
        if c is False:
            self._bad(label, "claim", detail)
            return
        t = z3.simplify(s.mk_not(c.t))
        if z3.is_false(t):
            self.e.st["simplified"] += 1
            return
        self._sample(label, t)
        r, m = self.e.solve(t, model=True)
        if r == z3.unsat: self.e.st["unsat"] += 1
        elif r == z3.sat:
            self.e.st["sat"] += 1
            self._bad(label, "claim", detail, model=m)
        else:
            self.e.st["unknown"] += 1
            self.rec["inconclusive"].append(f"{self.case.name}: {label}: solver gave no answer")

    def _sample(self, label, t):
        if len(self.rec["samples"]) < 3:
            q = t.sexpr()
            self.rec["samples"].append(dict(case=self.case.name, claim=label, negated_goal=q if len(q) < 700 else q[:700] + " ...", path_conditions=len(self.e.pc)))

    def equal(self, label, a, b, tol=None, dtype=None):
        """a (library) equals b (specification), elementwise and in shape."""
        s, A, z3 = self._s, self._a, self._s.z3
        tol = self.tol if tol is None else max(tol, self.tol) if tol and self.tol > TOL else tol
        self.e.st["goals"] += 1
        try: a = A.lift(a)
        except (s.Unsupported, TypeError, ValueError):
            self._bad(label, "type", f"result is not numeric: {type(a).__name__}")
            return
        b = A.lift(b)
        if a.shape != b.shape:
            self._bad(label, "shape", f"shape {a.shape} instead of {b.shape}")
            return
        if dtype is not None and a.dtype != _np.dtype(dtype):
            self._bad(label, "dtype", f"dtype {a.dtype} instead of {dtype}")
            return
        todo = []
        for i in _np.ndindex(a.shape):
            x, y = s.norm(a.raw()[i]), s.norm(b.raw()[i])
            ne, big = self._neq(x, y, tol)
            if ne is False: continue
            if ne is True:
                self._bad(label, "value", f"element {list(i)}: {x} instead of {y}")
                return
            todo.append((i, ne, big))
        if not todo:
            # reduced to identities by the simplifier; the solver confirms the unreduced claim
            raw = []
            for i in _np.ndindex(a.shape):
                x, y = s.tonum(s.norm(a.raw()[i])), s.tonum(s.norm(b.raw()[i]))
                if s.is_sym(x) or s.is_sym(y):
                    if s.nonfinite(x) or s.nonfinite(y): continue
                    raw.append(s.it(x) != s.it(y) if s.isint(x) and s.isint(y) else s.rt(x) != s.rt(y))
            if not raw: self.e.st["simplified"] += 1
            else:
                t0 = time.time()
                q = z3.Solver()
                slow = getattr(self.e, "unconfirmed", 0)
                q.set("timeout", 500 if slow < 4 else 40)
                q.add(z3.Or(*raw))
                ok = q.check() == z3.unsat
                if not ok: self.e.unconfirmed = slow + 1
                self.e.st["unsat" if ok else "simplified"] += 1
                self.e.st["goal_queries"] += 1
                self.e.st["solver_s"] += time.time() - t0
            return
        self._sample(label, todo[0][1])
        r = self.e.solve(z3.Or(*[n for _, n, _ in todo]) if len(todo) > 1 else todo[0][1], timeout=self.e.goal_timeout if len(todo) == 1 else min(self.e.goal_timeout, 3000), quick=len(todo) > 1)
        if r == z3.unsat:
            self.e.st["unsat"] += 1
            return
        for i, ne, big in todo:
            r, m = None, None
            if big is not None:
                # a clear counterexample first, then the tolerance itself
                for n in big:
                    r, m = self.e.solve(n, model=True)
                    if r == z3.sat: break
            else:
                r, m = self.e.solve(ne, model=True)
            if r == z3.unsat:
                self.e.st["unsat"] += 1
            elif r == z3.sat:
                self.e.st["sat"] += 1
                self._bad(label, "value", f"element {list(i)} differs", model=m)
                return
            else:
                self.e.st["unknown"] += 1
                self.rec["inconclusive"].append(f"{self.case.name}: {label}: no answer for element {list(i)}")
                return

    def _neq(self, x, y, tol):
        """(disequality or False/True, [clear disequality, disequality beyond tolerance] or None)."""
        s, z3 = self._s, self._s.z3
        slack = Fraction(self.slack) if tol else 0
        if not s.is_sym(x) and not s.is_sym(y):
            if s.nonfinite(x) or s.nonfinite(y):
                return not (x == y or (x != x and y != y)), None
            return not abs(x - y) <= tol * (1 + abs(y)) + slack, None
        if s.nonfinite(x) or s.nonfinite(y):
            q = x if s.is_sym(x) else y
            o = y if q is x else x
            if q.nf is None: return True, None
            c = s.is_nan(q) if o != o else s.is_inf(q)
            n = z3.simplify(s.mk_not(s.bt(c)))
            return (False if z3.is_false(n) else n), None
        x, y = s.tonum(x), s.tonum(y)
        nfx, nfy = s.nfof(x), s.nfof(y)
        extra = []
        if nfx is not None or nfy is not None:
            p, q = nfx or (False, False), nfy or (False, False)
            for u, v in zip(p, q):
                d = z3.simplify(s.bt(s.b_xor(u, v)))
                if not z3.is_false(d): extra.append(d)
        isint = s.isint(x) and s.isint(y)
        if isint:
            d = z3.simplify(s.it(x) - s.it(y))
            if s.const_of(d) is None and s.size_below(d, 20000) and s.polynomial(d) == {}: d = s.ival(0)
        else:
            tx, ty = s.rt(x), s.rt(y)
            if tol and not extra and any(q.decl().name() == "round_f32" for q in s.find_apps([tx, ty])):
                # single precision: equal up to rounding where the unrounded expressions are identical and the
                # roundings cannot add up to the tolerance
                bounds = {n: (b[2], b[3]) for n, b in self.inputs.items()}
                if s.same_unrounded(tx, ty, Fraction(tol) + slack, bounds): return False, None
            if tx.eq(ty): d = s.rval(0)
            else:
                d = z3.simplify(tx - ty)
                if s.const_of(d) is None and s.size_below(d, 300): d = z3.simplify(d, som=True, som_blowup=3000, sort_sums=True)
        c = s.const_of(d)
        if c is None and not isint and any(q.decl().name() == "sin" for q in s.find_apps([d])):
            pl = s.polynomial(d)
            if pl is not None and tol and all(abs(v) < 1e-10 for v in pl.values()): d, c = s.rval(0), 0
        if c is None and not isint and fractional(s, d):
            q = s.ratio(d)
            if q is not None and not q[0]: d, c = s.rval(0), 0
        if c is None and not isint and s.size_below(d, 20000) and s.polynomial(d) == {}: d, c = s.rval(0), 0
        if c is not None and not extra:
            if c == 0: return False, None
            if not isint and tol and abs(c) <= Fraction(tol) + slack: return False, None
        fin = []
        if nfy is not None: fin = [s.bt(s.is_fin(y))]
        zero = s.ival(0) if isint else s.rval(0)
        ne = s.mk_not(s.mk_eq(d, zero)) if c is None or c != 0 else z3.BoolVal(c != 0)
        if nfy is not None: ne = z3.And(ne, *fin)
        ne = z3.simplify(z3.Or(ne, *extra)) if extra else ne
        if z3.is_false(ne): return False, None
        if isint or not tol: return ne, None
        out = []
        ay = s.rt(s.n_abs(y))
        for tl in (max(0.05, tol), tol):
            lim = s.rval(Fraction(tl)) * (1 + ay) + s.rval(slack)
            g = z3.Or(d > lim, d < -lim)
            if nfy is not None: g = z3.And(g, *fin)
            out.append(z3.Or(g, *extra) if extra else g)
        return ne, out

    def raises(self, label, f, exc=Exception, msg="no error was raised"):
        try: f()
        except exc: self.e.st["goals"] += 1; self.e.st["simplified"] += 1
        except Exception as e: self._bad(label, "claim", f"raised {type(e).__name__} instead")
        else:
            self.e.st["goals"] += 1
            self._bad(label, "claim", msg)

    def _mem(self, a): return a.raw() if hasattr(a, "raw") else a


def explore_case(case, deadline, tier, seed=1):
    """All paths of one case; returns a plain dict."""
    from . import sym, loader, world
    loader.install()
    import logging, warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    o = case.opts
    eng = sym.Engine(path_limit=o.get("paths", 4000), feas_timeout=o.get("feas", 5000), goal_timeout=o.get("goal", 60000), deadline=deadline)
    rec = dict(candidates=[], inconclusive=[], samples=[], witnesses=[], completed=0, skipped=0)
    scratch = tempfile.mkdtemp(prefix="vsym.")
    loader.guard_fs(scratch)
    wall = o.get("wall", 100)
    loader.ENTERED.clear()
    n = [0]

    def body():
        n[0] += 1
        d = os.path.join(scratch, f"p{n[0]}")
        os.mkdir(d)
        os.chdir(d)
        env = SymEnv(eng, case, d, rec)
        env.tier = tier

        def alarm(*a):
            e = sym.PathTimeout(f"one path ran longer than {wall} s")
            eng.aborted = e
            raise e
        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, wall)
        try:
            env.ml = loader.fresh()
            try:
                case.fn(env, **case.kw)
            except Skip:
                rec["skipped"] += 1
                return
            except Exception as e:
                if eng.aborted: raise eng.aborted
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{os.path.relpath(f.filename, loader.REPO)}:{f.name}" for f in reversed(tb) if f.filename.startswith(loader.REPO)), "harness")
                if os.environ.get("VDEBUG"): traceback.print_exc()
                env._bad("no unexpected error", "exception", f"{type(e).__name__}: {e} in {where}")
            if eng.aborted: raise eng.aborted
            rec["completed"] += 1
            if len(rec["witnesses"]) < 2:
                signal.setitimer(signal.ITIMER_REAL, 0)
                eng.solver.set("timeout", 3000)
                if eng._check() == sym.z3.sat: rec["witnesses"].append(env.values(eng.solver.model()))
        except sym.PathTimeout as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            eng.aborted = None
            rec["inconclusive"].append(f"{case.name}: {e}")
            env._bad("terminates", "timeout", str(e))
        except sym.Infeasible:
            eng.aborted = None
            rec["skipped"] += 1
        except sym.Abort as e:
            if os.environ.get("VDEBUG"): traceback.print_exc()
            rec["inconclusive"].append(f"{case.name}: {e}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.chdir(scratch)
            shutil.rmtree(d, ignore_errors=True)
    t0 = time.time()
    try:
        eng.explore(body)
    except sym.Abort as e:
        rec["inconclusive"].append(f"{case.name}: {e}")
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    if rec["completed"] and eng.st["goals"] == 0: rec["inconclusive"].append(f"{case.name}: no claim was reached")
    if not rec["completed"] and not rec["candidates"] and not rec["inconclusive"]: rec["inconclusive"].append(f"{case.name}: no path satisfies the assumptions")
    rec.update(stats=eng.st, entered=sorted(loader.ENTERED), ufs=sorted(eng.ufs_used), wall=time.time() - t0, case=case.name)
    return rec


# ======================================================================= real library
class RealEnv(BaseEnv):
    sym = False
    np = _np

    def __init__(self, ml, scratch, inputs=None, rng=None):
        self.ml, self.scratch = ml, scratch
        self.inputs, self.rng = inputs or {}, rng or random.Random(0)
        self.used = {}
        self.failures = []
        self._cf = None

    def _val(self, name, gen):
        v = self.inputs[name] if name in self.inputs else gen()
        self.used[name] = v
        return v

    def _real(self, name, lo, hi, dtype):
        def gen():
            a, b = (-1000.0 if lo is None else lo), (1000.0 if hi is None else hi)
            r = self.rng.random()
            if r < 0.08: return float(min(max(0.0, a), b))
            if r < 0.12: return float(a)
            if r < 0.16: return float(b)
            if r < 0.4: return float(min(max(round(self.rng.uniform(a, b)), a), b))
            return self.rng.uniform(a, b)
        v = float(self._val(name, gen))
        if lo is not None: v = max(v, lo)
        if hi is not None: v = min(v, hi)
        return v

    def _int(self, name, lo, hi):
        def gen():
            r = self.rng.random()
            if r < 0.1: return lo
            if r < 0.2: return hi
            if r < 0.3: return min(max(0, lo), hi)
            return self.rng.randint(lo, hi)
        return int(self._val(name, gen))

    def bool(self, name): return bool(self._val(name, lambda: self.rng.random() < 0.5))

    def byteseq(self, name, n):
        mode = self.rng.random()
        def byte(k): return sum(int(self._val(f"{name}[{k}].{q}", lambda: self.rng.random() < (0.5 if mode > 0.2 else 0.05))) << q for q in range(8))
        return bytes(byte(k) for k in range(n))

    def bytes_with(self, base, name, at):
        out = bytearray(base)
        for k, v in zip(at, self.byteseq(name, len(at))): out[k] = v
        return bytes(out)

    def uint_bits(self, name, shape, bits, dtype):
        def g(i): return sum(int(self._val(f"{name}{list(i)}.{q}", lambda: self.rng.random() < 0.5)) << q for q in range(bits))
        return _np.array([g(i) for i in _np.ndindex(tuple(shape))], dtype=dtype).reshape(shape)

    def choose(self, name, options): return options[self._int(name, 0, len(options) - 1)]
    def _mkarr(self, flat, shape, dtype): return _np.array(flat, dtype=dtype).reshape(shape)
    def arr(self, x, dtype=None): return _np.array(x, dtype=dtype)
    def isnum(self, o): return isinstance(o, (int, float, _np.generic)) and not isinstance(o, (_np.str_, _np.bytes_))
    def ite(self, c, a, b): return a if c else b
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not bool(x)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def abs(self, a): return abs(a)
    def min(self, a, b): return min(a, b)
    def max(self, a, b): return max(a, b)
    def le(self, a, b): return bool(a <= b)
    def lt(self, a, b): return bool(a < b)
    def eq(self, a, b): return bool(a == b)
    def sqrt(self, a): return math.sqrt(max(a, 0.0))
    def root_of(self, a): return a * a, False
    def div(self, a, b):
        with _np.errstate(all="ignore"): return float(_np.float64(a) / _np.float64(b))
    def atan2(self, y, x): return math.atan2(y, x)
    def cos(self, a): return math.cos(a)
    def sin(self, a): return math.sin(a)
    def floor(self, a): return math.floor(a)
    def trunc(self, a): return int(a)
    def sum(self, xs): return math.fsum(xs) if any(isinstance(x, (float, _np.floating)) for x in xs) else sum(int(x) for x in xs)
    def sort(self, xs): return sorted(xs)
    def bits(self, x, n): return [bool(int(x) >> k & 1) for k in range(n)]
    def frombits(self, bs): return sum(int(bool(b)) << k for k, b in enumerate(bs))
    def truth(self, c): return bool(c)
    def identical(self, x, y): return bool(abs(x - y) <= 1e-9 * (1 + abs(y)))

    def assume(self, c):
        if not c: raise Skip()

    def write_fits(self, path, data, cards=()):
        from astropy.io import fits
        h = fits.PrimaryHDU(data=data)
        for k, v in cards: h.header[k] = v
        h.writeto(path, overwrite=True)

    def read_fits(self, path):
        from astropy.io import fits
        with fits.open(path, memmap=False) as h: return h[0].data, h[0].header

    def write_bytes(self, path, b): open(path, "wb").write(bytes(b))
    def read_bytes(self, path): return list(open(path, "rb").read())

    def fixed_equal(self, a, at, want): return bool((_np.asarray(a)[at] == want[at]).all())

    def fail_writes(self, pred):
        from astropy.io import fits
        if not hasattr(self, "_wt"): self._wt = fits.PrimaryHDU.writeto
        orig = self._wt
        if pred is None:
            fits.PrimaryHDU.writeto = orig
            return

        def wt(hdu, path, *a, **k):
            if pred(os.fspath(path)): raise OSError(28, "No space left on device", path)
            return orig(hdu, path, *a, **k)
        fits.PrimaryHDU.writeto = wt

    def stub_curve_fit(self, f):
        """The same stand-in replaces scipy's fit in every library module."""
        for n, m in list(sys.modules.items()):
            if n.startswith("micropolarray") and hasattr(m, "curve_fit"):
                if not hasattr(m, "_orig_curve_fit"): m._orig_curve_fit = m.curve_fit
                m.curve_fit = f
        import scipy.optimize
        if not hasattr(self, "_sc"): self._sc = scipy.optimize.curve_fit
        scipy.optimize.curve_fit = f

    def stub_cv2(self, **fs):
        import cv2
        self._cv = []
        for n, f in fs.items():
            orig = getattr(cv2, n)
            for m in [cv2] + [m for k, m in list(sys.modules.items()) if k.startswith("micropolarray")]:
                for q, v in list(vars(m).items()):
                    if v is orig:
                        self._cv.append((m, q, v))
                        setattr(m, q, f)

    def drawn(self, ax):
        """Images (array, lower and upper limit), histogram steps (values, edges) and title of an axis."""
        return [(_np.asarray(i.get_array()), *i.get_clim()) for i in ax.get_images()], [(p.get_data().values, p.get_data().edges) for p in ax.patches if hasattr(p, "get_data")], ax.get_title()

    def restore(self):
        if "matplotlib.pyplot" in sys.modules: sys.modules["matplotlib.pyplot"].close("all")
        if hasattr(self, "_wt"): self.fail_writes(None)
        for m, q, v in getattr(self, "_cv", ()): setattr(m, q, v)
        for n, m in list(sys.modules.items()):
            if n.startswith("micropolarray") and hasattr(m, "_orig_curve_fit"): m.curve_fit = m._orig_curve_fit
        if hasattr(self, "_sc"):
            import scipy.optimize
            scipy.optimize.curve_fit = self._sc

    def header(self, cards=()):
        from astropy.io import fits
        h = fits.Header()
        for k, v in cards: h[k] = v
        return h

    def check(self, label, cond, detail="the claim is false"):
        if not bool(cond): self.failures.append((label, detail))

    def equal(self, label, a, b, tol=None, dtype=None):
        tol = self.tol if tol is None else max(tol, self.tol) if tol and self.tol > TOL else tol
        try: x = _np.asarray(a)
        except Exception: return self.failures.append((label, "result is not numeric"))
        y = _np.asarray(b)
        if x.dtype.kind not in "biuf": return self.failures.append((label, f"result is not numeric: {x.dtype}"))
        if x.shape != y.shape: return self.failures.append((label, f"shape {x.shape} instead of {y.shape}"))
        if dtype is not None and x.dtype != _np.dtype(dtype): return self.failures.append((label, f"dtype {x.dtype} instead of {dtype}"))
        if x.dtype.kind in "biu" and y.dtype.kind in "biu":
            xi, yi = x.astype(object), y.astype(object)
            bad = _np.array([p != q for p, q in zip(xi.flat, yi.flat)], dtype=bool).reshape(x.shape)
        else:
            with _np.errstate(all="ignore"):
                xf, yf = x.astype(float), y.astype(float)
                bad = ~((_np.abs(xf - yf) <= max(tol, 1e-9) * (1 + _np.abs(yf)) + (self.slack if tol else 0)) | (xf == yf) | (_np.isnan(xf) & _np.isnan(yf)))
        if bad.any():
            i = tuple(int(q[0]) for q in _np.nonzero(bad)) if bad.ndim else ()
            self.failures.append((label, f"element {list(i)}: {x[i]} instead of {y[i]}"))

    def raises(self, label, f, exc=Exception, msg="no error was raised"):
        try: f()
        except exc: return
        except Exception as e: self.failures.append((label, f"raised {type(e).__name__} instead"))
        else: self.failures.append((label, msg))
