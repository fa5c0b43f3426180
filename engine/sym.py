"""Symbolic scalars over Z3 and the path-exploring engine.

SNum is a number (Int or Real sort), SBool a truth value.  Python control flow on them forks: the
engine re-executes the harness once per feasible path (feasibility decided by the solver), so every
path is covered.  Floats are modelled as exact reals, integers as mathematical integers wrapped to
their stored width by the array layer (arr.py).
"""
from __future__ import annotations
import os, math, random, signal, time
from fractions import Fraction
from .zload import z3
from z3 import z3core as zc

CTX = z3.main_ctx()
_C = CTX.ref()
_A2 = zc.Ast * 2


class Abort(BaseException):
    """Ends the current path (not an Exception: library code must not catch it)."""


class Unsupported(Abort):
    """The code did something the encoding does not cover: inconclusive, never a verdict."""


class Infeasible(Abort):
    """The path condition turned out to be unsatisfiable: there is nothing to claim on this path."""


class PathTimeout(Abort):
    pass


def _ar(ast):
    return z3.ArithRef(ast, CTX)


def _br(ast):
    return z3.BoolRef(ast, CTX)


_rv, _iv = {}, {}
INTSORT, REALSORT, BOOLSORT = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def snap(v):
    """Exact value of a float constant, computed constants rounded to 13 significant digits (so that the
    same constant obtained by two roundings is one constant: the model ignores rounding error)."""
    f = Fraction(v)
    if f.denominator <= 1 << 20 or isinstance(v, int): return f
    if abs(f) < Fraction(1, 10 ** 15): return Fraction(0) if abs(f) > Fraction(1, 10 ** 18) else f
    g = Fraction(f"{v:.13g}")
    if len(SNAPPED) < 200000: SNAPPED.setdefault(g, float(v))
    return g


SNAPPED = {}      # rounded constant -> the float it stands for


def unsnap(f):
    """The float a model value stands for: a constant of the program, or its negative, comes back unrounded."""
    if f in SNAPPED: return SNAPPED[f]
    if -f in SNAPPED: return -SNAPPED[-f]
    return float(f)


def rval(v):
    """Real constant from an int/float/Fraction (floats exactly)."""
    k = v
    r = _rv.get(k)
    if r is None or (v == 0):
        f = v if isinstance(v, Fraction) else snap(v)
        r = z3.RealVal(f)
        if len(_rv) < 200000:
            _rv[k] = r
    return r


def ival(v):
    r = _iv.get(v)
    if r is None:
        r = z3.IntVal(int(v))
        if len(_iv) < 200000:
            _iv[v] = r
    return r


def mk_add(a, b): return _ar(zc.Z3_mk_add(_C, 2, _A2(a.ast, b.ast)))
def mk_sub(a, b): return _ar(zc.Z3_mk_sub(_C, 2, _A2(a.ast, b.ast)))
def mk_mul(a, b): return _ar(zc.Z3_mk_mul(_C, 2, _A2(a.ast, b.ast)))
def mk_div(a, b): return _ar(zc.Z3_mk_div(_C, a.ast, b.ast))
def mk_mod(a, b): return _ar(zc.Z3_mk_mod(_C, a.ast, b.ast))
def mk_neg(a): return _ar(zc.Z3_mk_unary_minus(_C, a.ast))
def mk_le(a, b): return _br(zc.Z3_mk_le(_C, a.ast, b.ast))
def mk_lt(a, b): return _br(zc.Z3_mk_lt(_C, a.ast, b.ast))
def mk_eq(a, b): return _br(zc.Z3_mk_eq(_C, a.ast, b.ast))
def mk_i2r(a): return _ar(zc.Z3_mk_int2real(_C, a.ast))
def mk_r2i(a): return _ar(zc.Z3_mk_real2int(_C, a.ast))
def mk_not(a): return _br(zc.Z3_mk_not(_C, a.ast))
def mk_ite(c, a, b): return _ar(zc.Z3_mk_ite(_C, c.ast, a.ast, b.ast))


def _is_num(x):
    return isinstance(x, (int, float)) or (hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "shape", None) == ())


def norm(x):
    """Element in canonical form: python bool/int/float, SNum or SBool."""
    if type(x) in (int, float, bool, SNum, SBool):
        return x
    if isinstance(x, (SNum, SBool)):
        return x
    if isinstance(x, Fraction):
        return x
    if hasattr(x, "item") and getattr(x, "shape", None) == ():
        return norm(x.item())
    if isinstance(x, bool): return bool(x)
    if isinstance(x, int): return int(x)
    if isinstance(x, float): return float(x)
    if isinstance(x, complex): raise Unsupported("complex number")
    raise Unsupported(f"element of type {type(x).__name__}")


def is_sym(x): return isinstance(x, (SNum, SBool))


def const_of(t):
    """Python value of a z3 constant term, else None."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


ENG = None     # current engine


def eng():
    if ENG is None:
        raise Unsupported("symbolic control flow outside the engine")
    return ENG


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self): return eng().fork(self.t)
    def __repr__(self): return "<sym bool>"
    def __format__(self, spec): return "<sym>"
    def __str__(self): return "<sym>"
    def num(self): return SNum(z3.If(self.t, ival(1), ival(0)), True, 0, 1)
    def __index__(self): return int(bool(self))
    __int__ = __index__
    def __hash__(self): return hash(bool(self))
    def __and__(self, o): return b_and(self, o) if isb(o) else NotImplemented
    def __or__(self, o): return b_or(self, o) if isb(o) else NotImplemented
    def __xor__(self, o): return b_xor(self, o) if isb(o) else NotImplemented
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return b_not(self)
    def __eq__(self, o): return n_eq(self, o)
    def __ne__(self, o): return b_not(n_eq(self, o))

    def __array_ufunc__(self, uf, method, *a, **k):
        from . import arr
        return arr.ufunc_call(uf, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, types, args, kwargs)


def isb(x): return isinstance(x, (bool, SBool)) or type(x).__name__ == "bool_"


def bt(x):
    """z3 Bool of a bool-like."""
    if isinstance(x, SBool): return x.t
    if isinstance(x, SNum): return mk_not(mk_eq(x.t, ival(0) if x.i else rval(0)))
    if isinstance(x, z3.BoolRef): return x
    return z3.BoolVal(bool(x))


def mkb(t):
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)


def tobool(x):
    """bool or SBool (truth value of an element, without forking)."""
    if isinstance(x, (SBool, bool)): return x
    if isinstance(x, SNum): return mkb(bt(x))
    return bool(x)


def b_not(a):
    a = tobool(a)
    if isinstance(a, SBool): return SBool(mk_not(a.t))
    return not a


def b_and(a, b):
    a, b = tobool(a), tobool(b)
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return SBool(z3.And(a.t, b.t))


def b_or(a, b):
    a, b = tobool(a), tobool(b)
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return SBool(z3.Or(a.t, b.t))


def b_xor(a, b):
    a, b = tobool(a), tobool(b)
    if not is_sym(a) and not is_sym(b): return a != b
    return SBool(z3.Xor(bt(a), bt(b)))


def b_all(xs):
    ts = []
    for x in xs:
        x = tobool(x)
        if x is False: return False
        if x is True: continue
        ts.append(x.t)
    if not ts: return True
    return SBool(z3.And(*ts) if len(ts) > 1 else ts[0])


def b_any(xs):
    ts = []
    for x in xs:
        x = tobool(x)
        if x is True: return True
        if x is False: continue
        ts.append(x.t)
    if not ts: return False
    return SBool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def b_implies(a, b): return b_or(b_not(a), b)


class SNum:
    """Symbolic number.  t: z3 term, i: Int sort?, lo/hi: known integer range, bits: LSB-first bits
    (python bool or z3 Bool) of a known non-negative integer."""
    __slots__ = ("t", "i", "lo", "hi", "bits", "nf", "k")

    def __init__(self, t, i, lo=None, hi=None, bits=None, nf=None):
        self.t, self.i, self.lo, self.hi, self.bits = t, i, lo, hi, bits
        self.nf = nf        # None, or (condition for NaN, condition for infinity)
        self.k = False      # stands for a numpy scalar (division by zero gives infinity or NaN)

    def as_np(self):
        if self.k: return self
        r = SNum(self.t, self.i, self.lo, self.hi, self.bits, self.nf)
        r.k = True
        return r

    # -- numpy interop
    def __array_ufunc__(self, uf, method, *a, **k):
        from . import arr
        return arr.ufunc_call(uf, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, types, args, kwargs)

    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self):
        import numpy
        return numpy.dtype("int64" if self.i else "float64")
    @property
    def real(self): return self
    def item(self): return self
    def copy(self): return self
    def conjugate(self): return self

    def astype(self, dt, **k):
        from . import arr
        return arr.cast_elem(self, self.dtype, arr.todt(dt))

    def __repr__(self): return "<sym>"
    __str__ = __repr__

    def __format__(self, spec):
        if spec.endswith("b") and self.i:
            from . import world
            w = spec[:-1].lstrip("0") or "0"
            if w.isdigit():
                d = world.BinDigits(self)
                return d.zfill(int(w)) if spec[0] == "0" else d.fix().rjust(int(w))
        return "<sym>"

    def __add__(self, o): return _bin(n_add, self, o)
    def __radd__(self, o): return _bin(n_add, o, self)
    def __sub__(self, o): return _bin(n_sub, self, o)
    def __rsub__(self, o): return _bin(n_sub, o, self)
    def __mul__(self, o): return _bin(n_mul, self, o)
    def __rmul__(self, o): return _bin(n_mul, o, self)
    def __truediv__(self, o): return _bin(p_div, self, o)
    def __rtruediv__(self, o): return _bin(p_div, o, self)
    def __floordiv__(self, o): return _bin(p_floordiv, self, o)
    def __rfloordiv__(self, o): return _bin(p_floordiv, o, self)
    def __mod__(self, o): return _bin(p_mod, self, o)
    def __rmod__(self, o): return _bin(p_mod, o, self)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __pow__(self, o): return _bin(n_pow, self, o)
    def __rpow__(self, o): return _bin(n_pow, o, self)
    def __neg__(self): return n_neg(self)
    def __pos__(self): return self
    def __abs__(self): return n_abs(self)
    def __lshift__(self, o): return _bin(n_shl, self, o)
    def __rlshift__(self, o): return _bin(n_shl, o, self)
    def __rshift__(self, o): return _bin(n_shr, self, o)
    def __rrshift__(self, o): return _bin(n_shr, o, self)
    def __and__(self, o): return _bin(n_band, self, o)
    __rand__ = __and__
    def __or__(self, o): return _bin(n_bor, self, o)
    __ror__ = __or__
    def __xor__(self, o): return _bin(n_bxor, self, o)
    __rxor__ = __xor__
    def __invert__(self): return n_sub(n_neg(self), 1)
    def __lt__(self, o): return _bin(n_lt, self, o)
    def __le__(self, o): return _bin(n_le, self, o)
    def __gt__(self, o): return _bin(n_lt, o, self)
    def __ge__(self, o): return _bin(n_le, o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, list, tuple, dict)): return False
        return _bin(n_eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, list, tuple, dict)): return True
        return _bin(lambda a, b: b_not(n_eq(a, b)), self, o)

    def __bool__(self): return bool(tobool(self))

    def __hash__(self):
        if self.i: return hash(self.__index__())
        c = const_of(self.t)
        return hash(c) if c is not None else 7

    def __index__(self):
        if not self.i:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return eng().concretize(self)

    def __int__(self):
        return eng().concretize(n_trunc(self))

    def __trunc__(self): return n_trunc(self)
    def __floor__(self): return n_floor(self)
    def __ceil__(self): return n_neg(n_floor(n_neg(self)))

    def __round__(self, nd=None):
        r = n_round(self, nd or 0)
        return n_trunc(r) if nd is None else r

    def __float__(self):
        c = const_of(z3.simplify(self.t))
        if c is not None: return float(c)
        raise Unsupported("a symbolic number reached compiled code as a float")

    def is_integer(self):
        if self.i: return True
        return mkb(z3.simplify(mk_eq(mk_i2r(mk_r2i(self.t)), self.t)))

    def bit_length(self):
        if not self.i: raise AttributeError("bit_length")
        n = 0
        while n_abs(self) >= (1 << n): n += 1
        return n

    def to_bytes(self, *a, **k): raise Unsupported("to_bytes")
    # numpy object loops call these as methods
    def sqrt(self): return n_sqrt(self)
    def cos(self): return n_cos(self)
    def sin(self): return n_sin(self)
    def floor(self): return n_floor(self)


def _bin(f, a, b):
    """Scalar binary operator entry: defers to arrays, rejects foreign types."""
    import numpy
    for x, left in ((a, True), (b, False)):
        if isinstance(x, numpy.ndarray) and x.shape != ():
            return _arrbin(f, a, b)
    npk = isinstance(a, numpy.generic) or isinstance(b, numpy.generic) or (type(a) is SNum and a.k) or (type(b) is SNum and b.k)
    try:
        a, b = norm(a), norm(b)
    except Unsupported:
        return NotImplemented
    if not npk: return f(a, b)
    r = n_div(a, b) if f is p_div else f(a, b)
    return r.as_np() if type(r) is SNum else r


def _arrbin(f, a, b):
    import numpy as np
    from . import arr
    name = {n_add: np.add, n_sub: np.subtract, n_mul: np.multiply, p_div: np.true_divide, n_lt: np.less,
            n_le: np.less_equal, n_eq: np.equal, n_pow: np.power, p_floordiv: np.floor_divide, p_mod: np.remainder}.get(f)
    if name is None: raise Unsupported("array operator")
    return arr.ufunc_call(name, "__call__", (a, b), {})


# ---------------------------------------------------------------- arithmetic
def tonum(x):
    if isinstance(x, SBool): return x.num()
    if isinstance(x, bool): return int(x)
    return x


def it(x): return x.t if isinstance(x, SNum) else ival(x)


def rt(x):
    if isinstance(x, SNum): return mk_i2r(x.t) if x.i else x.t
    return rval(x)


def isint(x): return x.i if isinstance(x, SNum) else isinstance(x, int)
def rng(x): return (x.lo, x.hi) if isinstance(x, SNum) else (x, x)


def simp(x):
    """Collapse constants."""
    if isinstance(x, SNum):
        c = const_of(x.t)
        if c is not None:
            return int(c) if x.i else (float(c) if Fraction(float(c)) == c else x)
    return x


def nonfinite(x): return isinstance(x, float) and not math.isfinite(x)


def nfof(a): return a.nf if isinstance(a, SNum) else None


def nfjoin(p, q):
    if p is None: return q
    if q is None: return p
    return (b_or(p[0], q[0]), b_or(p[1], q[1]))


def with_nf(r, *xs):
    """Result r of arithmetic on xs: not finite where an operand is not finite."""
    nf = None
    for x in xs:
        if isinstance(x, SNum) and x.nf is not None: nf = nfjoin(nf, x.nf)
    if nf is None or not isinstance(r, SNum): return r
    return SNum(r.t, r.i, r.lo, r.hi, r.bits, nf)


def _nfop(f):
    def g(a, b):
        r = f(a, b)
        if (isinstance(a, SNum) and a.nf is not None) or (isinstance(b, SNum) and b.nf is not None): return with_nf(r, a, b)
        return r
    g.__name__ = f.__name__
    return g


def _nfop1(f):
    def g(a, *k):
        r = f(a, *k)
        return with_nf(r, a) if isinstance(a, SNum) and a.nf is not None else r
    g.__name__ = f.__name__
    return g


@_nfop
def n_add(a, b):
    a, b = tonum(a), tonum(b)
    sa, sb = isinstance(a, SNum), isinstance(b, SNum)
    if not sa and not sb: return a + b
    if nonfinite(a): return a
    if nonfinite(b): return b
    if not sa and a == 0 and (isinstance(a, int) or not b.i): return b
    if not sb and b == 0 and (isinstance(b, int) or not a.i): return a
    if isint(a) and isint(b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        return SNum(mk_add(it(a), it(b)), True, None if al is None or bl is None else al + bl, None if ah is None or bh is None else ah + bh)
    return SNum(mk_add(rt(a), rt(b)), False)


@_nfop1
def n_neg(a):
    a = tonum(a)
    if not isinstance(a, SNum): return -a
    if a.i: return SNum(mk_neg(a.t), True, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo)
    return SNum(mk_neg(a.t), False)


@_nfop
def n_sub(a, b):
    a, b = tonum(a), tonum(b)
    sa, sb = isinstance(a, SNum), isinstance(b, SNum)
    if not sa and not sb: return a - b
    if nonfinite(a): return a
    if nonfinite(b): return -b
    if not sb and b == 0 and (isinstance(b, int) or not a.i): return a
    if sa and sb and a.t.eq(b.t): return 0 if a.i else 0.0
    if isint(a) and isint(b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        return SNum(mk_sub(it(a), it(b)), True, None if al is None or bh is None else al - bh, None if ah is None or bl is None else ah - bl)
    return SNum(mk_sub(rt(a), rt(b)), False)


@_nfop
def n_mul(a, b):
    # truth values scale by selection
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SBool) and not isinstance(y, (SBool, bool)) and nfof(y) is None:
            return n_ite(x, y, 0 if isint(y) else 0.0)
    a, b = tonum(a), tonum(b)
    sa, sb = isinstance(a, SNum), isinstance(b, SNum)
    if not sa and not sb: return a * b
    if nonfinite(a) or nonfinite(b): return float("nan")
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, SNum):
            if x == 0 and y.nf is None: return 0 if isint(x) and isint(y) else 0.0
            if x == 0: return SNum(rval(0), False, None, None, None, (b_or(*y.nf), False))
            if x == 1 and (isinstance(x, int) or not y.i): return y
            if x == -1 and (isinstance(x, int) or not y.i): return n_neg(y)
    if isint(a) and isint(b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        lo = hi = None
        if None not in (al, ah, bl, bh):
            ps = (al * bl, al * bh, ah * bl, ah * bh)
            lo, hi = min(ps), max(ps)
        return SNum(mk_mul(it(a), it(b)), True, lo, hi)
    return SNum(mk_mul(rt(a), rt(b)), False)


DIV0 = z3.Function("div0", REALSORT, REALSORT)


def n_div(a, b):
    """numpy semantics; x/0 has an unconstrained value, flagged as NaN or infinite."""
    a, b = tonum(a), tonum(b)
    r = _div(a, b)
    if isinstance(r, SNum) and (isinstance(b, SNum) or b == 0):
        z, az = n_eq(b, 0), n_eq(a, 0)
        if z is not False:
            return SNum(r.t, r.i, None, None, None, nfjoin((b_and(z, az), b_and(z, b_not(az))), nfjoin(nfof(a), nfof(b))))
    return with_nf(r, a, b)


def is_nan(x):
    if isinstance(x, SNum): return False if x.nf is None else x.nf[0]
    return isinstance(x, float) and x != x


def is_inf(x):
    if isinstance(x, SNum): return False if x.nf is None else b_and(x.nf[1], b_not(x.nf[0]))
    return isinstance(x, float) and math.isinf(x)


def is_fin(x): return b_not(b_or(is_nan(x), is_inf(x)))


def quotient(x, y):
    """x / y by cancellation where y is a factor of x and, by the inputs' bounds, not zero; else None."""
    if not (x.eq(y) or z3.is_mul(x) and any(c.eq(y) for c in x.children())): return None
    lo, hi = interval(y, [1500])
    if not (lo is not None and lo > 0 or hi is not None and hi < 0): return None
    if x.eq(y): return rval(1)
    ch = list(x.children())
    del ch[next(k for k, c in enumerate(ch) if c.eq(y))]
    r = ch[0]
    for c in ch[1:]: r = mk_mul(r, c)
    return r


def _div(a, b):
    a, b = tonum(a), tonum(b)
    sa, sb = isinstance(a, SNum), isinstance(b, SNum)
    if not sa and not sb:
        if b == 0:
            if a == 0 or a != a: return float("nan")
            return math.copysign(float("inf"), a) * (math.copysign(1.0, b) if isinstance(b, float) else 1.0)
        return a / b
    if nonfinite(a) or nonfinite(b):
        return 0.0 if (isinstance(b, float) and math.isinf(b)) else float("nan")
    if not sb:
        if b == 0: return SNum(DIV0(rt(a)), False)
        if b == 1: return SNum(rt(a), False)
        f = snap(b)
        inv = Fraction(1) / f
        return SNum(mk_mul(rval(inv), rt(a)), False)
    if sa and sb and a.nf is None and b.nf is None and ENG is not None:
        q = quotient(rt(a), rt(b))
        if q is not None: return SNum(q, False)
    if not sa and a == 0:
        return SNum(mk_ite(mk_eq(rt(b), rval(0)), DIV0(rval(0)), rval(0)), False)
    return SNum(mk_div(rt(a), rt(b)), False)


def p_div(a, b):
    b = tonum(b)
    if isinstance(b, SNum):
        if bool(n_eq(b, 0)): raise ZeroDivisionError("division by zero")
    elif b == 0: raise ZeroDivisionError("division by zero")
    return n_div(a, b)


def n_floor(a):
    a = tonum(a)
    if not isinstance(a, SNum): return math.floor(a) if math.isfinite(a) else a
    if a.i: return a
    return SNum(mk_r2i(a.t), True)


def n_trunc(a):
    a = tonum(a)
    if not isinstance(a, SNum): return int(a)
    if a.i: return a
    s = z3.simplify(a.t)
    c = const_of(s)
    if c is not None: return int(c)
    # an integer-valued term stays linear
    k = s.decl().kind()
    if k == z3.Z3_OP_TO_REAL: return SNum(s.arg(0), True)
    return SNum(mk_ite(mk_le(rval(0), a.t), mk_r2i(a.t), mk_neg(mk_r2i(mk_neg(a.t)))), True)


def n_round(a, nd=0):
    a = tonum(a)
    if not isinstance(a, SNum): return float(round(a, nd)) if isinstance(a, float) else round(a, nd)
    if a.i and nd >= 0: return a
    k = Fraction(10) ** nd
    x = mk_mul(rval(k), rt(a))
    f = mk_r2i(mk_add(x, rval(Fraction(1, 2))))
    tie = mk_eq(mk_sub(mk_i2r(f), x), rval(Fraction(1, 2)))
    odd = mk_eq(mk_mod(f, ival(2)), ival(1))
    r = mk_ite(z3.And(tie, odd), mk_sub(f, ival(1)), f)
    return SNum(mk_mul(rval(1 / k), mk_i2r(r)), False)


def n_floordiv(a, b):
    a, b = tonum(a), tonum(b)
    if not isinstance(a, SNum) and not isinstance(b, SNum):
        return a // b if b != 0 else (0 if isint(a) else n_div(a, b))
    if isint(a) and isint(b):
        if isinstance(b, SNum):
            if b.lo is not None and b.lo > 0: return SNum(mk_div(it(a), b.t), True)
            if bool(n_lt(b, 0)): return n_floordiv(n_neg(a), n_neg(b))
            if bool(n_eq(b, 0)): return 0
            return SNum(mk_div(it(a), b.t), True)
        if b == 0: return 0
        if b < 0: return n_floordiv(n_neg(a), -b)
        if a.lo is not None and a.lo >= 0 and b & (b - 1) == 0 and a.bits is not None: return n_shr(a, b.bit_length() - 1)
        return SNum(mk_div(a.t, ival(b)), True, None if a.lo is None else a.lo // b, None if a.hi is None else a.hi // b)
    q = n_div(a, b)
    f = n_floor(q)
    return SNum(mk_i2r(f.t), False) if isinstance(f, SNum) else float(f)


def n_mod(a, b):
    a, b = tonum(a), tonum(b)
    if not isinstance(a, SNum) and not isinstance(b, SNum):
        return a % b if b != 0 else (0 if isint(a) else float("nan"))
    if isint(a) and isint(b):
        if isinstance(b, SNum):
            if not (b.lo is not None and b.lo > 0):
                if bool(n_lt(b, 0)): return n_neg(n_mod(n_neg(a), n_neg(b)))
                if bool(n_eq(b, 0)): return 0
            return SNum(mk_mod(it(a), b.t), True, 0, None if b.hi is None else b.hi - 1)
        if b == 0: return 0
        if b < 0: return n_neg(n_mod(n_neg(a), -b))
        if a.bits is not None and b & (b - 1) == 0: return frombits(a.bits[:b.bit_length() - 1])
        if a.lo is not None and a.hi is not None and 0 <= a.lo and a.hi < b: return a
        return SNum(mk_mod(a.t, ival(b)), True, 0, b - 1)
    return n_sub(a, n_mul(b, n_floordiv(a, b)))


def _zchk(b):
    b = tonum(b)
    if isinstance(b, SNum):
        if b.lo is not None and b.lo > 0: return
        if bool(n_eq(b, 0)): raise ZeroDivisionError("integer modulo by zero")
    elif b == 0: raise ZeroDivisionError("integer division or modulo by zero")


def p_floordiv(a, b): _zchk(b); return n_floordiv(a, b)
def p_mod(a, b): _zchk(b); return n_mod(a, b)


def n_pow(a, b):
    a, b = tonum(a), tonum(b)
    if not isinstance(a, SNum) and not isinstance(b, SNum): return a ** b
    if not isinstance(b, SNum):
        if b == 0.5: return n_sqrt(a)
        if b == -0.5: return n_div(1.0, n_sqrt(a))
        if float(b).is_integer():
            k = abs(int(b))
            if k <= 8:
                r = 1
                for _ in range(k): r = n_mul(r, a)
                if isinstance(b, float) and isint(r): r = SNum(rt(r), False) if isinstance(r, SNum) else float(r)
                return r if b >= 0 else n_div(1.0, r)
    raise Unsupported("power with a symbolic or unusual exponent")


@_nfop1
def n_abs(a):
    a = tonum(a)
    if not isinstance(a, SNum): return abs(a)
    if a.i:
        if a.lo is not None and a.lo >= 0: return a
        hi = None if a.lo is None or a.hi is None else max(abs(a.lo), abs(a.hi))
        return SNum(mk_ite(mk_le(ival(0), a.t), a.t, mk_neg(a.t)), True, 0, hi)
    return SNum(mk_ite(mk_le(rval(0), a.t), a.t, mk_neg(a.t)), False)


def interval(t, fuel):
    """Bounds of a real term that follow from the bounds assumed of the inputs, (None, None) if none are found
    within fuel[0] subterms."""
    memo, i = ENG.intervals, t.get_id()
    if i in memo: return memo[i][1]
    fuel[0] -= 1
    if fuel[0] < 0: return None, None
    c = const_of(t)
    r = (None, None)
    if c is not None: r = (Fraction(c), Fraction(c))
    else:
        d = t.decl().kind()
        if d == z3.Z3_OP_TO_REAL: r = interval(t.arg(0), fuel)
        elif d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_ITE):
            ch = t.children()
            vs = [interval(x, fuel) for x in (ch[1:] if d == z3.Z3_OP_ITE else ch)]
            if d == z3.Z3_OP_UMINUS: r = (None if vs[0][1] is None else -vs[0][1], None if vs[0][0] is None else -vs[0][0])
            elif d == z3.Z3_OP_ITE: r = tuple(None if vs[0][k] is None or vs[1][k] is None else f(vs[0][k], vs[1][k]) for k, f in ((0, min), (1, max)))
            elif d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                r = vs[0]
                for v in vs[1:]:
                    if d == z3.Z3_OP_SUB: v = (None if v[1] is None else -v[1], None if v[0] is None else -v[0])
                    r = tuple(None if p is None or q is None else p + q for p, q in zip(r, v))
            elif all(q is not None for v in vs for q in v):
                r = vs[0]
                if d == z3.Z3_OP_MUL and len(ch) == 2 and ch[0].eq(ch[1]):
                    e = [q * q for q in r]
                    r = (Fraction(0) if r[0] <= 0 <= r[1] else min(e), max(e))
                else:
                    for v in vs[1:]:
                        if d == z3.Z3_OP_DIV:
                            if v[0] <= 0 <= v[1]:
                                r = (None, None)
                                break
                            v = (1 / v[1], 1 / v[0])
                        e = [p * q for p in r for q in v]
                        r = (min(e), max(e))
    r = (outward(r[0], math.floor), outward(r[1], math.ceil))
    if fuel[0] >= 0: memo[i] = (t, r)
    return r


def outward(q, f):
    """Bound with at most some 120 bits, rounded outward."""
    if q is None or q.denominator.bit_length() < 200 and q.numerator.bit_length() < 200: return q
    k = 120 - (abs(q.numerator).bit_length() - q.denominator.bit_length())
    return Fraction(f(q * Fraction(2) ** k)) / Fraction(2) ** k


def settled(mk, x, y):
    """Value of a comparison of reals that follows from the inputs' bounds, None if it does not."""
    if ENG is None: return None
    fuel = [1500]
    (a, b), (c, d) = interval(x, fuel), interval(y, fuel)
    if b is not None and c is not None:
        if b < c: return mk is not mk_eq
        if b == c and mk is mk_le: return True
    if a is not None and d is not None:
        if a > d: return False
        if a == d and mk is mk_lt: return False
    return None


def _cmp(mk, py, a, b):
    a, b = tonum(a), tonum(b)
    if not isinstance(a, SNum) and not isinstance(b, SNum): return py(a, b)
    if nonfinite(a) or nonfinite(b):
        return py(a if nonfinite(a) else 0.0, b if nonfinite(b) else 0.0)
    if isint(a) and isint(b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        if mk is mk_lt:
            if ah is not None and bl is not None and ah < bl: return True
            if al is not None and bh is not None and al >= bh: return False
        elif mk is mk_le:
            if ah is not None and bl is not None and ah <= bl: return True
            if al is not None and bh is not None and al > bh: return False
        x, y = it(a), it(b)
    else:
        x, y = rt(a), rt(b)
    nf = nfjoin(nfof(a), nfof(b))
    k = settled(mk, x, y)
    if nf is not None: return b_and(b_not(nf[0]), SBool(mk(x, y)) if k is None else k)
    if x.eq(y): return mk is not mk_lt
    if k is not None: return k
    return SBool(mk(x, y))


def n_lt(a, b): return _cmp(mk_lt, lambda x, y: x < y, a, b)
def n_le(a, b): return _cmp(mk_le, lambda x, y: x <= y, a, b)


def n_eq(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return b_not(b_xor(a, b))
    return _cmp(mk_eq, lambda x, y: x == y, a, b)


def n_ne(a, b): return b_not(n_eq(a, b))


def n_ite(c, a, b):
    r = _ite(c, a, b)
    if nfof(a) is None and nfof(b) is None or not isinstance(r, SNum) or r is a or r is b: return r
    p, q = nfof(a) or (False, False), nfof(b) or (False, False)
    nf = tuple(b_or(b_and(c, u), b_and(b_not(c), v)) for u, v in zip(p, q))
    nf = tuple(mkb(z3.simplify(x.t)) if isinstance(x, SBool) else x for x in nf)
    return SNum(r.t, r.i, r.lo, r.hi, r.bits, None if nf[0] is False and nf[1] is False else nf)


def _ite(c, a, b):
    c = tobool(c)
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool(z3.If(c.t, bt(a), bt(b)))
    a, b = tonum(a), tonum(b)
    if nonfinite(a) or nonfinite(b):
        if not is_sym(a) and not is_sym(b) and (a == b or (a != a and b != b)): return a
        na = nf_term(a) if nonfinite(a) else rt(a)
        nb = nf_term(b) if nonfinite(b) else rt(b)
        return SNum(mk_ite(c.t, na, nb), False)
    if not is_sym(a) and not is_sym(b) and a == b and type(a) is type(b): return a
    if isint(a) and isint(b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        x, y = it(a), it(b)
        if x.eq(y): return a
        return SNum(mk_ite(c.t, x, y), True, None if al is None or bl is None else min(al, bl), None if ah is None or bh is None else max(ah, bh))
    x, y = rt(a), rt(b)
    if x.eq(y): return a if not isint(a) else SNum(x, False)
    return SNum(mk_ite(c.t, x, y), False)


_nf = {}


def nf_term(x):
    """inf/nan merged into a symbolic value: an unconstrained real (never provably equal to anything)."""
    k = "nan" if x != x else ("inf" if x > 0 else "ninf")
    e = eng()
    e.fresh_n += 1
    return z3.Real(f"!{k}{e.fresh_n}")


def n_min(a, b):
    if not is_sym(a) and not is_sym(b): return a if (a <= b or a != a) else b
    return n_ite(n_le(a, b), a, b)


def n_max(a, b):
    if not is_sym(a) and not is_sym(b): return a if (a >= b or a != a) else b
    return n_ite(n_le(b, a), a, b)


def n_sign(a): return n_ite(n_lt(a, 0), -1.0, n_ite(n_eq(a, 0), 0.0, 1.0)) if not isint(a) else n_ite(n_lt(a, 0), -1, n_ite(n_eq(a, 0), 0, 1))


# ---------------------------------------------------------------- bits
def frombits(bits):
    """Integer with the given LSB-first bits."""
    bits = list(bits)
    while bits and bits[-1] is False: bits.pop()
    if all(isinstance(b, bool) for b in bits): return sum(1 << k for k, b in enumerate(bits) if b)
    ts = [ival(1 << k) if b is True else z3.If(b, ival(1 << k), ival(0)) for k, b in enumerate(bits) if b is not False]
    t = ts[0] if len(ts) == 1 else z3.Sum(*ts)
    return SNum(t, True, 0, (1 << len(bits)) - 1, bits)


def getbits(x, width=64):
    """LSB-first bits of a non-negative integer."""
    if isinstance(x, bool): return [x]
    if isinstance(x, int):
        if x < 0: raise Unsupported("bit operation on a negative number")
        return [bool(x >> k & 1) for k in range(x.bit_length())]
    if isinstance(x, SBool): return [x.t]
    if x.bits is not None: return x.bits
    if not (x.i and x.lo is not None and x.lo >= 0):
        if not x.i: raise TypeError("unsupported operand type(s) for bit operation: 'float'")
        if bool(n_lt(x, 0)): raise Unsupported("bit operation on a negative number")
    w = x.hi.bit_length() if x.hi is not None else width
    bv = z3.Int2BV(x.t, w)
    return [z3.simplify(z3.Extract(k, k, bv)) == z3.BitVecVal(1, 1) for k in range(w)]


def _bop(a, b, f):
    A, B = list(getbits(a)), list(getbits(b))
    n = max(len(A), len(B))
    A += [False] * (n - len(A)); B += [False] * (n - len(B))
    return frombits([f(x, y) for x, y in zip(A, B)])


def _fa(x, y):
    if x is False or y is False: return False
    if x is True: return y
    if y is True: return x
    return z3.And(x, y)


def _fo(x, y):
    if x is True or y is True: return True
    if x is False: return y
    if y is False: return x
    return z3.Or(x, y)


def _fx(x, y):
    if x is False: return y
    if y is False: return x
    if x is True: return (not y) if isinstance(y, bool) else z3.Not(y)
    if y is True: return z3.Not(x)
    return z3.Xor(x, y)


def n_band(a, b):
    if isb(a) and isb(b): return b_and(a, b)
    if not is_sym(a) and not is_sym(b): return a & b
    return _bop(a, b, _fa)


def n_bor(a, b):
    if isb(a) and isb(b): return b_or(a, b)
    if not is_sym(a) and not is_sym(b): return a | b
    return _bop(a, b, _fo)


def n_bxor(a, b):
    if isb(a) and isb(b): return b_xor(a, b)
    if not is_sym(a) and not is_sym(b): return a ^ b
    return _bop(a, b, _fx)


def n_shl(a, b):
    b = eng().concretize(b) if isinstance(b, SNum) else b
    if not is_sym(a): return a << b
    if a.bits is not None: return frombits([False] * b + list(a.bits))
    return n_mul(a, 1 << b)


def n_shr(a, b):
    b = eng().concretize(b) if isinstance(b, SNum) else b
    if not is_sym(a): return a >> b
    if a.bits is not None: return frombits(a.bits[b:])
    return SNum(mk_div(a.t, ival(1 << b)), True, None if a.lo is None else a.lo >> b, None if a.hi is None else a.hi >> b)


# ---------------------------------------------------------------- transcendental functions (UF + lazily added axioms)
F_SQRT = z3.Function("sqrt", REALSORT, REALSORT)
F_ATAN2 = z3.Function("atan2", REALSORT, REALSORT, REALSORT)
F_ATAN = z3.Function("atan", REALSORT, REALSORT)
F_COS = z3.Function("cos", REALSORT, REALSORT)
F_SIN = z3.Function("sin", REALSORT, REALSORT)
F_EXP = z3.Function("exp", REALSORT, REALSORT)
F_LOG = z3.Function("log", REALSORT, REALSORT)
F_R32 = z3.Function("round_f32", REALSORT, REALSORT)
F_R16 = z3.Function("round_f16", REALSORT, REALSORT)
PI = Fraction(math.pi)


@_nfop1
def n_sqrt(a):
    a = tonum(a)
    if not isinstance(a, SNum): return math.sqrt(a) if a >= 0 else float("nan")
    s = canon(rt(a))
    q, vs, rest = square_content(s)
    if rest is None: return SNum(F_SQRT(s), False)
    r = mk_mul(rval(q), F_SQRT(canon(rest)))
    for v in vs:       # sqrt(v^2 x) = |v| sqrt(x)
        if ENG is not None and ENG._check(v < 0) == z3.unsat: r = mk_mul(v, r)
        else: r = mk_mul(mk_ite(v >= 0, v, -v), r)
    return SNum(r, False)


def square_content(t):
    """t = q^2 v1^2 v2^2 ... rest, with q rational and v polynomial terms; rest is None where there is nothing to take out."""
    nothing = Fraction(1), [], None
    if not size_below(t, 400): return nothing
    atoms = {}
    p = polynomial(t, 60, atoms)
    if not p: return nothing
    g = Fraction(math.gcd(*[c.numerator for c in p.values()]), math.lcm(*[c.denominator for c in p.values()]))
    r = Fraction(1)
    if max(g.numerator, g.denominator) <= 10 ** 12:
        for part, up in ((g.numerator, 1), (g.denominator, 0)):
            d = 2
            while d * d <= part and d < 3000:
                while part % (d * d) == 0:
                    part //= d * d
                    r = r * d if up else r / d
                while part % d == 0: part //= d
                d += 1
            k = math.isqrt(part)
            if k * k == part: r = r * k if up else r / k
    ms = [dict(m) for m in p]
    com = {k: min(m.get(k, 0) for m in ms) // 2 for k in ms[0]}
    com = {k: e for k, e in com.items() if e and len(p) > 1}
    if r == 1 and not com: return nothing
    out, vs = [], [atoms[k] for k, e in sorted(com.items()) for _ in range(e)]
    for m, c in p.items():
        x = [atoms[k] for k, e in m for _ in range(e - 2 * com.get(k, 0))]
        y = rval(c / (r * r))
        out.append(z3.Product(y, *x) if x else y)
    return r, vs, z3.Sum(*out) if len(out) > 1 else out[0]


def canon(t):
    """Normal form of a polynomial term, so that equal arguments give syntactically equal applications."""
    return z3.simplify(t, som=True, som_blowup=3000, sort_sums=True) if size_below(t, 400) else t


def size_below(t, n):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if len(seen) > n: return False
        st.extend(x.children())
    return True


def n_hypot(a, b): return n_sqrt(n_add(n_mul(a, a), n_mul(b, b)))


def n_atan2(y, x):
    y, x = tonum(y), tonum(x)
    if not is_sym(y) and not is_sym(x): return math.atan2(y, x)
    return SNum(F_ATAN2(canon(rt(y)), canon(rt(x))), False)


def n_atan(a):
    if not is_sym(a): return math.atan(a)
    return SNum(F_ATAN(rt(a)), False)


def lin_decomp(t):
    """term -> ({atom id: (atom, coeff)}, const) or None."""
    c = const_of(t)
    if c is not None: return {}, Fraction(c)
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        d, k0 = {}, Fraction(0)
        for n, ch in enumerate(t.children()):
            sg = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and n > 0) else 1
            dd, kk = lin_decomp(ch)
            k0 += sg * kk
            for i, (a, co) in dd.items():
                d[i] = (a, d.get(i, (a, 0))[1] + sg * co)
        return d, k0
    if k == z3.Z3_OP_MUL:
        co, rest = Fraction(1), []
        for ch in t.children():
            dd, kk = lin_decomp(ch)
            if not dd: co *= kk
            else: rest.append((dd, kk))
        if len(rest) == 1:
            return {i: (a, c2 * co) for i, (a, c2) in rest[0][0].items()}, rest[0][1] * co
        if not rest: return {}, co
    return {t.get_id(): (t, Fraction(1))}, Fraction(0)


def _trig(t):
    """(cos, sin) of term t expanded over base angles, as SNum/float."""
    d, k0 = lin_decomp(z3.simplify(t))
    c, s = math.cos(float(k0)), math.sin(float(k0))
    if k0 == 0: c, s = 1.0, 0.0
    for _, (a, co) in sorted(d.items()):
        if co == 0: continue
        if abs(float(co) - round(float(co))) < 1e-12 and abs(round(float(co))) <= 8 and round(float(co)) != 0:
            n, base = round(float(co)), a
        else:
            n, base = 1, mk_mul(rval(co), a)
        ca, sa = SNum(F_COS(base), False), SNum(F_SIN(base), False)
        if n < 0: sa, n = n_neg(sa), -n
        cn, sn = 1.0, 0.0
        for _k in range(n):
            cn, sn = n_sub(n_mul(cn, ca), n_mul(sn, sa)), n_add(n_mul(sn, ca), n_mul(cn, sa))
        c, s = n_sub(n_mul(c, cn), n_mul(s, sn)), n_add(n_mul(s, cn), n_mul(c, sn))
    return c, s


def n_cos(a):
    a = tonum(a)
    return math.cos(a) if not is_sym(a) else _trig(rt(a))[0]


def n_sin(a):
    a = tonum(a)
    return math.sin(a) if not is_sym(a) else _trig(rt(a))[1]


def n_tan(a): return n_div(n_sin(a), n_cos(a)) if is_sym(a) else math.tan(a)


def n_exp(a): return SNum(F_EXP(rt(a)), False) if is_sym(a) else (math.exp(a) if a < 709 else float("inf"))
def n_log(a): return SNum(F_LOG(rt(a)), False) if is_sym(a) else (math.log(a) if a > 0 else float("nan"))


def round_float(a, bits):
    return with_nf(SNum((F_R32 if bits == 32 else F_R16)(rt(a)), False), a)


def rounded(t, bounds, cap=4000):
    """(t without its roundings to single precision, most it can differ from t), by forward error analysis
    over the bounds of the variables; None where that does not settle it."""
    memo = {}

    def mul(p, q):
        (x, l, h, e), (y, m, k, f) = p, q
        c = (l * m, l * k, h * m, h * k)
        return x * y, min(c), max(c), max(abs(l), abs(h)) * f + max(abs(m), abs(k)) * e + e * f

    def go(x):
        k = x.get_id()
        if k in memo: return memo[k]
        if len(memo) > cap: raise _Big()
        c = const_of(x)
        d = x.decl().kind()
        if c is not None: r = (x, Fraction(c), Fraction(c), Fraction(0))
        elif z3.is_const(x):
            b = bounds.get(x.decl().name())
            if b is None or b[0] is None or b[1] is None: raise _Big()
            r = (x, Fraction(b[0]), Fraction(b[1]), Fraction(0))
        elif d == z3.Z3_OP_TO_REAL:
            i, l, h, e = go(x.arg(0))
            if e: raise _Big()
            r = (x, l, h, e)
        elif d == z3.Z3_OP_ADD:
            a = [go(y) for y in x.children()]
            r = (z3.Sum(*[y[0] for y in a]), sum(y[1] for y in a), sum(y[2] for y in a), sum(y[3] for y in a))
        elif d == z3.Z3_OP_SUB:
            a = [go(y) for y in x.children()]
            i, l, h, e = a[0]
            for y in a[1:]: i, l, h, e = i - y[0], l - y[2], h - y[1], e + y[3]
            r = (i, l, h, e)
        elif d == z3.Z3_OP_UMINUS:
            i, l, h, e = go(x.arg(0))
            r = (-i, -h, -l, e)
        elif d == z3.Z3_OP_MUL:
            r = go(x.arg(0))
            for y in x.children()[1:]: r = mul(r, go(y))
        elif d == z3.Z3_OP_DIV and const_of(x.arg(1)):
            c = 1 / Fraction(const_of(x.arg(1)))
            r = mul(go(x.arg(0)), (rval(c), c, c, Fraction(0)))
        elif d == z3.Z3_OP_ITE:
            if any(q.decl().name().startswith("round_f") for q in find_apps([x.arg(0)])): raise _Big()
            a, b = go(x.arg(1)), go(x.arg(2))
            r = (z3.If(x.arg(0), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))
        elif x.decl().name() == "sqrt":
            i, l, h, e = go(x.arg(0))
            r = (rt(n_sqrt(SNum(z3.simplify(i), False))), Fraction(0), Fraction(math.sqrt(max(h, 0)) * 1.001), Fraction(math.sqrt(e) * 1.001))
        elif x.decl().name() in ("round_f32", "round_f16"):
            i, l, h, e = go(x.arg(0))
            u = Fraction(1, 1 << (24 if x.decl().name() == "round_f32" else 11))
            r = (i, l, h, e + (max(abs(l), abs(h)) + e) * u + Fraction(1, 10 ** 40))
        else: raise _Big()
        memo[k] = r
        return r
    try: i, l, h, e = go(t)
    except _Big: return None
    return i, e


def same_unrounded(x, y, tol, bounds, deep=6):
    """x and y are the same expression but for roundings to single precision that stay below tol; decided
    separately for each outcome of the choices in them that do not depend on rounded values."""
    p, q = rounded(x, bounds), rounded(y, bounds)
    if p is not None and q is not None and p[1] + q[1] <= tol and size_below(p[0] - q[0], 20000) and polynomial(z3.simplify(p[0] - q[0])) == {}: return True
    if not deep: return False
    cs = [a.arg(0) for a in ites([x, y])]
    cs = [c for c in cs if not any(f.decl().name().startswith("round_f") for f in find_apps([c]))]
    if not cs: return False
    c = next((c for c in cs if not ites([c])), cs[0])
    for v in (True, False):
        u, w = (z3.simplify(z3.substitute(t, (c, z3.BoolVal(v)))) for t in (x, y))
        if not same_unrounded(u, w, tol, bounds, deep - 1): return False
    return True


UFS = {"sqrt", "atan2", "atan", "cos", "sin", "exp", "log", "round_f32", "round_f16"}


class _Big(Exception): pass


def ratio(t, cap=2000):
    """Term as a quotient of polynomials over its other subterms (numerator, denominator); None if too big."""
    atoms, memo = {}, {}

    def mul(p, q):
        if len(p) * len(q) > cap: raise _Big()
        r = {}
        for a, x in p.items():
            for b, y in q.items():
                m = dict(a)
                for k, e in b: m[k] = m.get(k, 0) + e
                m = tuple(sorted(m.items()))
                r[m] = r.get(m, 0) + x * y
        return roots({m: c for m, c in r.items() if c != 0})

    def roots(p):
        """sqrt(x)^2 = x for x that cannot be negative."""
        for _ in range(40):
            hit = next(((m, k) for m in p for k, e in m if e >= 2 and k in sq and sq[k] is not None), None)
            if hit is None: break
            m, k = hit
            c = p.pop(m)
            base = dict(m)
            base[k] -= 2
            base = {tuple(sorted((a, e) for a, e in base.items() if e)): c}
            for m2, c2 in mul(base, sq[k]).items(): p[m2] = p.get(m2, 0) + c2
            p = {m: c for m, c in p.items() if c != 0}
        return p

    def add(a, b, sgn=1):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2: n, d = (n1, n2), d1
        else: n, d = (mul(n1, d2), mul(n2, d1)), mul(d1, d2)
        r = dict(n[0])
        for m, v in n[1].items(): r[m] = r.get(m, 0) + sgn * v
        return {m: v for m, v in r.items() if v != 0}, d

    def atom(x):
        k = x.get_id()
        if k not in atoms:
            atoms[k] = x
            if z3.is_app(x) and x.decl().name() == "sqrt" and x.num_args() == 1:
                sq[k] = None
                y = x.arg(0)
                if squares(y) or ENG is not None and ENG._check(y < 0) == z3.unsat:
                    n, d = go(y)
                    if d == ONE: sq[k] = n
        return {((k, 1),): Fraction(1)}, ONE
    sq, ONE = {}, {(): Fraction(1)}

    def go(x):
        k = x.get_id()
        if k in memo: return memo[k]
        c = const_of(x)
        if c is not None: r = ({(): Fraction(c)} if c else {}), ONE
        else:
            d = x.decl().kind()
            if d == z3.Z3_OP_ADD:
                r = {}, ONE
                for a in x.children(): r = add(r, go(a))
            elif d == z3.Z3_OP_SUB:
                r = go(x.arg(0))
                for a in x.children()[1:]: r = add(r, go(a), -1)
            elif d == z3.Z3_OP_UMINUS: r = add(({}, ONE), go(x.arg(0)), -1)
            elif d == z3.Z3_OP_MUL:
                r = ONE, ONE
                for a in x.children():
                    n = go(a)
                    r = mul(r[0], n[0]), mul(r[1], n[1])
            elif d == z3.Z3_OP_POWER and const_of(x.arg(1)) is not None and const_of(x.arg(1)) in (1, 2, 3, 4, 5, 6):
                n, r = go(x.arg(0)), (ONE, ONE)
                for _ in range(int(const_of(x.arg(1)))): r = mul(r[0], n[0]), mul(r[1], n[1])
            elif d == z3.Z3_OP_DIV:
                a, b = go(x.arg(0)), go(x.arg(1))
                if not b[0]: r = atom(x)
                else: r = mul(a[0], b[1]), mul(a[1], b[0])
            elif d == z3.Z3_OP_TO_REAL and not z3.is_const(x.arg(0)): r = go(x.arg(0))
            else: r = atom(x)
        memo[k] = r
        return r
    try: return go(t)
    except (_Big, RecursionError): return None


def squares(t):
    """Syntactic sum of squares."""
    c = const_of(t)
    if c is not None: return c >= 0
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD: return all(squares(a) for a in t.children())
    if k == z3.Z3_OP_MUL:
        odd = {}
        for a in t.children():
            if squares(a): continue
            odd[a.get_id()] = odd.get(a.get_id(), 0) ^ 1
        return not any(odd.values())
    if k == z3.Z3_OP_POWER: return const_of(t.arg(1)) in (2, 4, 6)
    return k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == "sqrt" and t.num_args() == 1 and squares(t.arg(0))


def polynomial(t, cap=4000, atoms=None):
    """Term as {monomial: coefficient} over its non-polynomial subterms, sin^2 rewritten to 1 - cos^2; None if too big."""
    atoms, memo = {} if atoms is None else atoms, {}

    def mul(p, q):
        if len(p) * len(q) > cap: raise _Big()
        r = {}
        for a, x in p.items():
            for b, y in q.items():
                m = dict(a)
                for k, e in b: m[k] = m.get(k, 0) + e
                m = tuple(sorted(m.items()))
                r[m] = r.get(m, 0) + x * y
        return circle(r)

    def circle(p):
        for _ in range(40):
            hit = next(((m, k) for m in p for k, e in m if e >= 2 and k in sins), None)
            if hit is None: return {m: c for m, c in p.items() if c != 0}
            m, k = hit
            c = p.pop(m)
            base = dict(m)
            base[k] -= 2
            one = tuple(sorted((a, e) for a, e in base.items() if e))
            base[sins[k]] = base.get(sins[k], 0) + 2
            two = tuple(sorted((a, e) for a, e in base.items() if e))
            p[one] = p.get(one, 0) + c
            p[two] = p.get(two, 0) - c
        return p

    def atom(x):
        k = x.get_id()
        if k not in atoms:
            atoms[k] = x
            if z3.is_app(x) and x.decl().name() == "sin" and x.num_args() == 1:
                c = F_COS(x.arg(0))
                keep.append(c)
                atoms.setdefault(c.get_id(), c)
                sins[k] = c.get_id()
        return {((k, 1),): Fraction(1)}
    sins, keep = {}, []

    def go(x):
        k = x.get_id()
        if k in memo: return memo[k]
        c = const_of(x)
        if c is not None: r = {(): Fraction(c)} if c else {}
        else:
            d = x.decl().kind()
            if d == z3.Z3_OP_ADD:
                r = {}
                for a in x.children():
                    for m, v in go(a).items(): r[m] = r.get(m, 0) + v
                r = {m: v for m, v in r.items() if v != 0}
                if len(r) > cap: raise _Big()
            elif d == z3.Z3_OP_SUB:
                r = dict(go(x.arg(0)))
                for a in x.children()[1:]:
                    for m, v in go(a).items(): r[m] = r.get(m, 0) - v
                r = {m: v for m, v in r.items() if v != 0}
            elif d == z3.Z3_OP_UMINUS: r = {m: -v for m, v in go(x.arg(0)).items()}
            elif d == z3.Z3_OP_MUL:
                r = {(): Fraction(1)}
                for a in x.children(): r = mul(r, go(a))
            elif d == z3.Z3_OP_POWER and const_of(x.arg(1)) is not None and const_of(x.arg(1)) in (1, 2, 3, 4, 5, 6):
                r = {(): Fraction(1)}
                for _ in range(int(const_of(x.arg(1)))): r = mul(r, go(x.arg(0)))
            elif d == z3.Z3_OP_DIV and const_of(x.arg(1)): r = {m: v / const_of(x.arg(1)) for m, v in go(x.arg(0)).items()}
            elif d == z3.Z3_OP_TO_REAL and not z3.is_const(x.arg(0)): r = go(x.arg(0))
            elif d == z3.Z3_OP_ITE and const_of(x.arg(1)) is not None and const_of(x.arg(2)) is not None:
                u, v = Fraction(const_of(x.arg(1))), Fraction(const_of(x.arg(2)))
                one = z3.If(x.arg(0), rval(1), rval(0))
                keep.append(one)
                r = {m: c for m, c in ((((one.get_id(), 1),), u - v), ((), v)) if c}
                atoms.setdefault(one.get_id(), one)
            else: r = atom(x)
        memo[k] = r
        return r
    try: return go(t)
    except (_Big, RecursionError): return None


def axioms_for(apps):
    """Defining/bounding facts about the listed applications."""
    out = []
    exps, logs = [], []
    for t in apps:
        n = t.decl().name()
        x = t.arg(0)
        if n == "sqrt":
            out += [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), (x == 0) == (t == 0)]
        elif n == "atan2":
            y, xx = t.arg(0), t.arg(1)
            h = rval(PI / 2)
            out += [z3.Implies(xx > 0, t == F_ATAN(y / xx)),
                    z3.Implies(z3.And(xx < 0, y >= 0), t == F_ATAN(y / xx) + rval(PI)),
                    z3.Implies(z3.And(xx < 0, y < 0), t == F_ATAN(y / xx) - rval(PI)),
                    z3.Implies(z3.And(xx == 0, y > 0), t == h), z3.Implies(z3.And(xx == 0, y < 0), t == -h),
                    z3.Implies(z3.And(xx == 0, y == 0), t == 0),
                    t <= rval(PI), t > -rval(PI)]
            for u, v in ((y, xx),):
                a = F_ATAN(u / v)
                out += [a < h, a > -h, (a > 0) == (u / v > 0), (a < 0) == (u / v < 0)]
        elif n == "atan":
            h = rval(PI / 2)
            out += [t < h, t > -h, (t > 0) == (x > 0), (t < 0) == (x < 0)]
        elif n in ("cos", "sin"):
            c, s = F_COS(x), F_SIN(x)
            out += [c * c + s * s == 1]
        elif n == "exp":
            out += [t > 0, (t > 1) == (x > 0), (t == 1) == (x == 0)]
        elif n == "round_f32":
            e = rval(Fraction(1, 1 << 24))
            out += [z3.Implies(x >= 0, z3.And(t <= x * (1 + e), t >= x * (1 - e))),
                    z3.Implies(x < 0, z3.And(t >= x * (1 + e), t <= x * (1 - e)))]
        elif n == "round_f16":
            e = rval(Fraction(1, 1 << 11))
            out += [z3.Implies(x >= 0, z3.And(t <= x * (1 + e), t >= x * (1 - e))),
                    z3.Implies(x < 0, z3.And(t >= x * (1 + e), t <= x * (1 - e)))]
    return out


def range_facts(apps):
    """The linear ones among them, cheap enough for deciding branches."""
    out = []
    for t in apps:
        n, x = t.decl().name(), t.arg(0)
        if n in ("round_f32", "round_f16"): out += axioms_for([t])
        elif n == "atan2": out += [t <= rval(PI), t > -rval(PI)]
        elif n == "atan": out += [t < rval(PI / 2), t > -rval(PI / 2)]
        elif n in ("cos", "sin"): out += [t <= 1, t >= -1]
        elif n == "exp": out.append(t > 0)
        elif n == "sqrt": out.append(z3.Implies(x >= 0, t >= 0))
    return out


def find_apps(terms, seen=None):
    seen = set() if seen is None else seen
    apps, st = [], list(terms)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0 and d.name() in UFS: apps.append(x)
            st.extend(x.children())
    return apps


def ites(terms):
    seen, out, st = set(), [], list(terms)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE: out.append(x)
            st.extend(x.children())
    return out


# ---------------------------------------------------------------- engine
class Engine:
    """Depth-first exploration of all feasible paths of a harness by re-execution."""

    def __init__(self, path_limit=4000, feas_timeout=4000, goal_timeout=60000, path_wall=120, deadline=None):
        self.path_limit, self.feas_timeout, self.goal_timeout, self.path_wall = path_limit, feas_timeout, goal_timeout, path_wall
        self.deadline = deadline
        self.st = dict(paths=0, forks=0, feas_queries=0, goal_queries=0, simplified=0, unsat=0, sat=0, unknown=0, solver_s=0.0, goals=0)
        self.fresh_n = 0
        self.ufs_used = set()

    # -- per path
    def begin(self, prefix):
        self.prefix, self.pos, self.dec = prefix, 0, []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_timeout)
        self.pc = []
        self.known = {}
        self.intervals = {}
        self.ranged = set()
        self.fresh_n = 0
        self.aborted = None

    def assume(self, t):
        t = bt(t)
        if z3.is_true(t): return
        self.pc.append(t)
        self.solver.add(t)

    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.st["solver_s"] += time.time() - t0
        self.st["feas_queries"] += 1
        return r

    def fork(self, cond):
        if self.aborted: raise self.aborted
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k in self.known: return self.known[k][0]
        if self.deadline and time.time() > self.deadline: self.abort(Unsupported("time budget exhausted"))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            nc = mk_not(c)
            apps = find_apps([c], self.ranged)
            if apps: self.solver.add(*range_facts(apps))
            ft = self._check(c) != z3.unsat
            ff = self._check(nc) != z3.unsat
            if ft and ff:
                d = True
                self.work.append(self.dec + [False])
                self.st["forks"] += 1
            elif ft: d = True
            elif ff: d = False
            else:
                self.abort(Infeasible("the path is infeasible"))
        self.pos += 1
        self.dec.append(d)
        self.known[k] = (d, c)
        t = c if d else mk_not(c)
        self.pc.append(t)
        self.solver.add(t)
        if len(self.dec) > 3000: self.abort(PathTimeout("more than 3000 decisions on one path"))
        return d

    def abort(self, e):
        self.aborted = e
        raise e

    def concretize(self, x):
        if not isinstance(x, SNum): return int(x)
        c = const_of(z3.simplify(x.t))
        if c is not None: return int(c)
        lo, hi = x.lo, x.hi
        if lo is None or hi is None:
            lo, hi = self.bounds(x.t)
        while lo < hi:
            mid = (lo + hi) // 2
            if self.fork(mk_le(x.t, ival(mid))): hi = mid
            else: lo = mid + 1
        # pins the value in the path condition
        if not self.fork(mk_eq(x.t, ival(lo))): self.abort(Unsupported("concretization out of range"))
        return lo

    def bounds(self, t):
        key = ("bounds", t.get_id())
        if key in self.known: return self.known[key][0]
        res = []
        for sgn in (1, -1):
            b = None
            for k in (4, 16, 64, 256, 1024, 4096, 1 << 14, 1 << 17):
                cond = (t > k) if sgn > 0 else (t < -k)
                if self._check(cond) == z3.unsat:
                    b = sgn * k
                    break
            if b is None: self.abort(Unsupported("an unbounded symbolic integer is used as a size or index"))
            res.append(b)
        self.known[key] = ((res[1], res[0]), t)
        return res[1], res[0]

    # -- goals
    def solve(self, neg, extra=(), timeout=None, model=False, quick=False):
        """Satisfiability of path condition and neg. Axioms are added only when needed."""
        timeout = timeout or self.goal_timeout
        base = list(self.pc) + list(extra) + ([neg] if neg is not None else [])
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*base)
        t0 = time.time()
        self.st["goal_queries"] += 1
        r = s.check()
        if quick and r == z3.unknown:
            self.st["solver_s"] += time.time() - t0
            return r
        if r != z3.unsat:
            seen = set()
            apps = find_apps(base, seen)
            rounds = 0
            while apps and rounds < 3:
                for a in apps: self.ufs_used.add(a.decl().name())
                ax = axioms_for(apps)
                s.add(*ax)
                apps = find_apps(ax, seen)
                rounds += 1
            if rounds:
                self.st["goal_queries"] += 1
                r = s.check()
        if r == z3.unknown and not quick:
            # second opinion: nonlinear solver on the same assertions
            for tac in (("simplify", "solve-eqs", "qfnra-nlsat"), ("simplify", "purify-arith", "qfnra-nlsat"), ("simplify", "smt")):
                try:
                    s2 = z3.Then(*tac).solver()
                    s2.set("timeout", timeout)
                    s2.add(*s.assertions())
                    self.st["goal_queries"] += 1
                    r2 = s2.check()
                except z3.Z3Exception:
                    continue
                if r2 != z3.unknown:
                    r, s = r2, s2
                    break
        self.st["solver_s"] += time.time() - t0
        if os.environ.get("VSLOW") and time.time() - t0 > 2: open(os.environ["VSLOW"], "a").write(f"{time.time() - t0:.1f}s {r}\n{neg.sexpr()[:3000]}\n--pc {len(base)}\n")
        m = s.model() if r == z3.sat and model else None
        return (r, m) if model else r

    def explore(self, body, on_path=None):
        """body() is run once per path; exceptions derived from Abort end the path."""
        global ENG
        self.work = [[]]
        prev = ENG
        try:
            while self.work:
                prefix = self.work.pop()
                if self.st["paths"] >= self.path_limit:
                    raise Unsupported(f"more than {self.path_limit} paths")
                ENG = self
                self.begin(prefix)
                self.st["paths"] += 1
                body()
        finally:
            ENG = prev
