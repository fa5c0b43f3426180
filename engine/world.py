"""The environment the encoded code runs in: numpy proxy, virtual FITS/raw file contents kept
symbolic (backed by marker files in a scratch directory, so path handling is the real one), and
stand-ins for compiled libraries.  Every stand-in here is part of the claim (listed in DESIGN.md)."""
from __future__ import annotations
import builtins, io, math, os, sys, types
import numpy as np
from . import arr, sym
from .arr import SymArray, SymBytes, lift, todt, wrap
from .sym import SNum, SBool, Unsupported, is_sym, norm

MARK = b"VERIF-VIRTUAL-FILE:"


class World:
    """State of one path."""

    def __init__(self):
        self.store = {}           # id -> content (VHDUList template or SymBytes)
        self.n = 0
        self.fit_calls = []
        self.fail_write = None    # predicate(path) -> bool: injected output failure
        self.curve_fit = None     # stand-in used by the check
        self.figure = None        # current matplotlib figure
        self.cv2 = {}             # stand-ins for functions of cv2
        self.strs = {}            # placeholder char -> bit

    def put(self, path, content):
        self.n += 1
        key = str(self.n)
        self.store[key] = content
        with builtins.open(path, "wb") as f: f.write(MARK + key.encode())

    def get(self, path):
        with builtins.open(path, "rb") as f: head = f.read(64)
        if head.startswith(MARK): return self.store.get(head[len(MARK):].decode())
        return None


W = World()


def reset():
    global W
    W = World()
    return W


def write_bytes(fid, b):
    if hasattr(fid, "write"):
        fid.write(b)
        return
    W.put(os.fspath(fid), b)


# ---------------------------------------------------------------- binary files
class SymFile:
    def __init__(self, path, mode, content=None):
        self.path, self.mode, self.pos = path, mode, 0
        self.buf = list(content.elems) if content is not None else []
        self.closed = False
        self.name = path

    def read(self, n=-1):
        e = self.buf[self.pos:] if n is None or n < 0 else self.buf[self.pos:self.pos + n]
        self.pos += len(e)
        return SymBytes(e)

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.buf) + off
        return self.pos

    def tell(self): return self.pos
    def readable(self): return "r" in self.mode
    def write(self, b):
        b = list(b)
        self.buf[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def close(self):
        if not self.closed and ("w" in self.mode or "a" in self.mode or "+" in self.mode): W.put(self.path, SymBytes(self.buf))
        self.closed = True

    def flush(self): pass
    def fileno(self): raise Unsupported("fileno")
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def zopen(path, mode="r", *a, **k):
    if isinstance(path, (str, os.PathLike)) and "b" in mode:
        p = os.fspath(path)
        if "r" in mode:
            if os.path.isfile(p):
                c = W.get(p)
                if isinstance(c, SymBytes): return SymFile(p, mode, c)
        elif "w" in mode:
            builtins.open(p, "wb").close()
            return SymFile(p, mode)
    return builtins.open(path, mode, *a, **k)


# ---------------------------------------------------------------- FITS
_fits = None


def real_fits():
    global _fits
    if _fits is None:
        from astropy.io import fits
        _fits = fits

        class VHeader(fits.Header):
            """The real header class; symbolic values ride beside it."""
            def __init__(self, *a, **k):
                self._sv = {}
                super().__init__(*a, **k)
                if a and isinstance(a[0], VHeader): self._sv.update(a[0]._sv)

            def __setitem__(self, key, value):
                v, rest = (value[0], tuple(value[1:])) if isinstance(value, tuple) and value else (value, None)
                k = key.upper() if isinstance(key, str) else key
                if is_sym(v):
                    self._sv[k] = v
                    v = 0 if not isinstance(v, SNum) or v.i else 0.5
                    value = v if rest is None else (v, *rest)
                else: self._sv.pop(k, None)
                super().__setitem__(key, value)

            def __getitem__(self, key):
                k = key.upper() if isinstance(key, str) else key
                sv = self.__dict__.get("_sv", {})
                if isinstance(k, str) and k in sv: return sv[k]
                return super().__getitem__(key)

            def __delitem__(self, key):
                self._sv.pop(key.upper() if isinstance(key, str) else key, None)
                super().__delitem__(key)

            def copy(self, strip=False):
                r = VHeader(super().copy(strip=strip))
                r._sv = dict(self._sv)
                return r
            __copy__ = copy
            def __deepcopy__(self, memo): return self.copy()

            def set(self, keyword, value=None, comment=None, before=None, after=None):
                if is_sym(value):
                    self[keyword] = (value, comment) if comment is not None else value
                    return
                super().set(keyword, value, comment, before, after)

            def update(self, *a, **k):
                for x in a:
                    if isinstance(x, VHeader) and x._sv: self._sv.update(x._sv)
                super().update(*a, **k)

            def get(self, key, default=None):
                try: return self[key]
                except KeyError: return default

            def values(self):
                for k in self.keys(): yield self[k]

            def items(self):
                for k in self.keys(): yield k, self[k]
        global VHeader_
        VHeader_ = VHeader
    return _fits


VHeader_ = None
_hc = {}


def base_header(shape, ld, header, cls):
    """Header the real PrimaryHDU builds for data of that shape and dtype."""
    fits = real_fits()
    key = (shape, ld.str)
    if ld.kind not in "iuf": raise KeyError(ld.name)
    if key not in _hc: _hc[key] = fits.PrimaryHDU(data=np.zeros(shape, dtype=ld)).header.copy()
    h = VHeader_(_hc[key].copy())
    if header is not None:
        src = header.copy()
        fixed = fits.PrimaryHDU(data=np.zeros(shape, dtype=ld), header=fits.Header(src.cards)).header
        h = VHeader_(fixed.copy())
        for k, v in getattr(src, "_sv", {}).items():
            if k in h and not k.startswith("NAXIS") and k != "BITPIX": h._sv[k] = v
    return h


class VHDU:
    def __init__(self, data=None, header=None, do_not_scale_image_data=False, ignore_blank=False, uint=True, scale_back=None, **k):
        real_fits()
        self.data = None if data is None else (lift(data) if not isinstance(data, SymArray) else data)
        if data is not None and not isinstance(data, np.ndarray): raise TypeError("data object cannot be coerced into an ndarray")
        if self.data is not None:
            self.header = base_header(self.data.shape, self.data._ld, header, VHeader_)
        else:
            self.header = VHeader_() if header is None else header.copy()
        self.name = "PRIMARY"

    @property
    def shape(self): return self.data.shape

    def verify(self, option="warn"): pass
    def copy(self):
        h = VHDU.__new__(VHDU)
        h.data, h.header, h.name = self.data, self.header, self.name
        return h

    def writeto(self, path, output_verify="exception", overwrite=False, checksum=False, **k):
        p = os.fspath(path)
        if W.fail_write is not None and W.fail_write(p): raise OSError(28, "No space left on device", p)
        if os.path.exists(p) and not overwrite: raise OSError(f"File {p!r} already exists. If you mean to replace it then use the argument \"overwrite=True\".")
        d = None if self.data is None else (self.data if isinstance(self.data, SymArray) else lift(self.data))
        if d is not None and d._ld.kind not in "iuf": raise KeyError(d._ld.name)
        h = base_header(d.shape, d._ld, self.header, VHeader_) if d is not None else self.header.copy()
        W.put(p, ("fits", None if d is None else d.copy(), h))


class VHDUList(list):
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True
    def close(self, *a, **k): self.closed = True
    def verify(self, option="warn"): pass
    def info(self, *a): pass
    def writeto(self, path, **k): self[0].writeto(path, **k)
    def flush(self, **k): pass


def stored_dtype(ld):
    """dtype of data read back from disk."""
    if ld.kind == "f" or (ld.kind == "i" and ld.itemsize > 1): return ld.newbyteorder(">")
    if ld.kind == "u" and ld.itemsize > 1: return ld.newbyteorder("=")
    return ld


def vopen(path, mode="readonly", **k):
    real_fits()
    p = os.fspath(path)
    if not os.path.exists(p): raise FileNotFoundError(2, "No such file or directory", p)
    c = W.get(p)
    if not (isinstance(c, tuple) and c[0] == "fits"): raise OSError("No SIMPLE card found, this file does not appear to be a valid FITS file.")
    d = None if c[1] is None else wrap(c[1].raw().copy(), stored_dtype(c[1]._ld))
    h = VHDU.__new__(VHDU)
    h.data, h.header, h.name = d, c[2].copy(), "PRIMARY"
    return VHDUList([h])


def vgetdata(path, *a, header=False, **k):
    hl = vopen(path)
    return (hl[0].data, hl[0].header) if header else hl[0].data


def vwriteto(path, data, header=None, output_verify="exception", overwrite=False, **k):
    VHDU(data=data, header=header).writeto(path, overwrite=overwrite)


def fits_module():
    real_fits()
    m = types.ModuleType("astropy.io.fits")
    m.open, m.PrimaryHDU, m.HDUList, m.Header = vopen, VHDU, VHDUList, VHeader_
    m.getdata, m.writeto = vgetdata, vwriteto
    m.getheader = lambda p, *a, **k: vopen(p)[0].header
    m.ImageHDU = VHDU
    m.Card, m.Undefined, m.VerifyError = _fits.Card, _fits.card.Undefined, _fits.VerifyError
    return m


# ---------------------------------------------------------------- compiled libraries
def median_filter(input, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, *, axes=None):
    a = lift(input)
    if not arr.has_sym(a.raw()):
        import scipy.ndimage
        return lift(scipy.ndimage.median_filter(arr.real_array(a), size=size, footprint=footprint, mode=mode, cval=cval, origin=origin, **({} if axes is None else dict(axes=axes))))
    if output is not None or axes is not None or origin not in (0, (0, 0)): raise Unsupported("median_filter options")
    fp = np.asarray(footprint, dtype=bool) if footprint is not None else np.ones((size,) * a.ndim if isinstance(size, (int, np.integer)) else tuple(size), dtype=bool)
    sz = fp.shape
    if mode not in ("reflect", "nearest", "mirror", "wrap", "constant"): raise Unsupported("median_filter mode")

    def ref(i, n):
        if mode == "constant": return i if 0 <= i < n else None
        if mode == "nearest": return min(max(i, 0), n - 1)
        if mode == "wrap": return i % n
        if n == 1: return 0
        if mode == "reflect":
            i %= 2 * n
            return i if i < n else 2 * n - 1 - i
        i %= 2 * n - 2
        return i if i < n else 2 * n - 2 - i
    import itertools
    res = np.empty(a.shape, dtype=object)
    tot = int(fp.sum())
    for pos in np.ndindex(a.shape):
        xs = []
        for off in itertools.product(*[range(s) for s in sz]):
            if not fp[off]: continue
            ii = [ref(p + o - s // 2, n) for p, o, s, n in zip(pos, off, sz, a.shape)]
            xs.append(cval if any(i is None for i in ii) else a.raw()[tuple(ii)])
        res[pos] = arr.sort_elems(xs)[tot // 2]
    return wrap(res, a._ld)


class interp1d:
    """Linear interpolation along the last (or given) axis; nodes and targets constant."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.y = lift(y)
        self.sym = arr.has_sym(self.y.raw())
        self.axis = axis % self.y.ndim
        self.x = arr.real_array(lift(x))
        self.kind = kind
        if len(self.x) != self.y.shape[self.axis]: raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if kind == "linear" and fill_value != "extrapolate" and not isinstance(fill_value, str): self.bound = True
        else: self.bound = False
        if kind != "linear" and self.sym: raise Unsupported("non-linear interpolation of symbolic data")
        self.args = dict(kind=kind, axis=axis, bounds_error=bounds_error, fill_value=fill_value)

    def __call__(self, t):
        t = arr.real_array(lift(t))
        if not self.sym:
            import scipy.interpolate
            return lift(scipy.interpolate.interp1d(self.x, arr.real_array(self.y), **self.args)(t))
        if t.ndim != 1: raise Unsupported("interp1d target shape")
        if self.bound and len(t) and (np.any(t < self.x[0]) or np.any(t > self.x[-1])): raise ValueError("A value in x_new is outside the interpolation range.")
        m = np.moveaxis(self.y.raw(), self.axis, -1)
        n = len(self.x)
        res = np.empty(m.shape[:-1] + (len(t),), dtype=object)
        for q, v in enumerate(t):
            if n == 1:
                w = None
            else:
                if not math.isfinite(v):
                    for pos in np.ndindex(m.shape[:-1]): res[pos + (q,)] = float("nan")
                    continue
                k = min(max(int(np.searchsorted(self.x, v)), 1), n - 1)
                w = (v - self.x[k - 1]) / (self.x[k] - self.x[k - 1])
            for pos in np.ndindex(m.shape[:-1]):
                if w is None: res[pos + (q,)] = m[pos + (0,)]
                else:
                    a, b = m[pos + (k - 1,)], m[pos + (k,)]
                    res[pos + (q,)] = sym.n_add(a, sym.n_mul(float(w), sym.n_sub(b, a))) if w else sym.n_add(a, 0.0)
        return wrap(np.moveaxis(res, -1, self.axis), float)


def curve_fit(f, xdata, ydata, p0=None, sigma=None, absolute_sigma=False, check_finite=True, bounds=None, **k):
    if W.curve_fit is None:
        if arr.any_sym(ydata) or arr.any_sym(xdata): raise Unsupported("curve_fit on symbolic data")
        import scipy.optimize
        kw = dict(k)
        if bounds is not None: kw["bounds"] = deep_real(bounds)
        r = scipy.optimize.curve_fit(f, deep_real(xdata), deep_real(ydata), deep_real(p0), sigma=deep_real(sigma), absolute_sigma=absolute_sigma, **kw)
        return tuple(lift(x) for x in r)
    return W.curve_fit(f, xdata, ydata, p0=p0, sigma=sigma, absolute_sigma=absolute_sigma, bounds=bounds, **k)


def deep_real(x):
    if isinstance(x, SymArray): return arr.real_array(x)
    if isinstance(x, (list, tuple)): return type(x)(deep_real(e) for e in x)
    return x


class PILImg:
    """PIL.Image stand-in: geometric operations are the real ones applied to an index image."""

    def __init__(self, a, idx=None, fill=None):
        self.a = a
        self.idx = idx

    def rotate(self, angle, resample=0, expand=0, center=None, translate=None, fillcolor=None):
        if is_sym(angle): raise Unsupported("symbolic rotation angle")
        if resample not in (0, None) or fillcolor is not None: raise Unsupported("rotation resampling")
        from PIL import Image as P
        idx = P.fromarray(np.arange(1, self.a.size + 1, dtype=np.int32).reshape(self.a.shape), mode="I").rotate(angle, expand=expand, center=center, translate=translate)
        ix = np.asarray(idx)
        fl = self.a.raw().reshape(-1)
        r = np.empty(ix.shape, dtype=object)
        for i in np.ndindex(ix.shape): r[i] = fl[ix[i] - 1] if ix[i] > 0 else 0.0
        b = wrap(r, np.float32)
        for i in np.ndindex(ix.shape): r[i] = arr.cast_elem(r[i], None, b._ld)
        return PILImg(b)

    def __zarray__(self): return self.a


def pil_fromarray(a, mode=None):
    a = lift(a)
    if a._ld.kind == "f": a = arr.cast_array(a, np.float32)
    else: raise Unsupported("PIL image of integers")
    return PILImg(a)


class Pool:
    """Sequential worker pool; unordered results come back reversed."""

    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def map(self, f, it, chunksize=None): return [f(x) for x in list(it)]
    def imap(self, f, it, chunksize=None): return iter(self.map(f, it))
    def imap_unordered(self, f, it, chunksize=None): return iter(self.map(f, it)[::-1])
    def starmap(self, f, it, chunksize=None): return [f(*x) for x in list(it)]

    def apply(self, f, a=(), k=None): return f(*a, **(k or {}))

    def apply_async(self, f, a=(), k=None, callback=None, error_callback=None):
        r = _Res(lambda: f(*a, **(k or {})))
        if callback is not None: callback(r.get())
        return r
    def map_async(self, f, it, *a, **k): return _Res(lambda: self.map(f, it))
    def starmap_async(self, f, it, *a, **k): return _Res(lambda: self.starmap(f, it))
    def close(self): pass
    join = terminate = close


class _Res:
    def __init__(self, th):
        self.v, self.e = None, None
        try: self.v = th()
        except Exception as e: self.e = e
    def get(self, timeout=None):
        if self.e: raise self.e
        return self.v
    def wait(self, timeout=None): pass
    def ready(self): return True
    def successful(self): return self.e is None


def pool_map(self, f, it): return [f(x) for x in it]


class _Exec(Pool):
    def map(self, f, *its, **k): return iter([f(*x) for x in zip(*its)])
    def submit(self, f, *a, **k):
        r = _Res(lambda: f(*a, **k))
        r.result = r.get
        return r
    def shutdown(self, *a, **k): pass


# ---------------------------------------------------------------- numba
class NumbaTypingError(Exception):
    pass


def _njit(*a, **k):
    import functools

    def deco(f):
        @functools.wraps(f)
        def run(*args, **kw):
            for x in list(args) + list(kw.values()):
                if isinstance(x, np.ndarray):
                    if not x.dtype.isnative: raise NumbaTypingError(f"unsupported array dtype {x.dtype}")
            arr.NUMBA += 1
            try: return f(*args, **kw)
            finally: arr.NUMBA -= 1
        run.py_func = f
        return run
    if len(a) == 1 and callable(a[0]) and not k: return deco(a[0])
    return deco


def numba_module():
    m = types.ModuleType("numba")
    m.njit = m.jit = _njit
    m.prange = range
    m.__path__ = []
    t = types.ModuleType("numba.typed")
    t.List, t.Dict = list, dict
    m.typed = t
    for n in ("float64", "float32", "int64", "int32", "uint16", "boolean", "types", "void"): setattr(m, n, Dummy())
    m.core = Dummy()
    m.set_num_threads = lambda *a: None
    return m


class Dummy(types.ModuleType):
    """Plotting and other irrelevant libraries."""
    def __init__(self, name="dummy"):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__") and n != "__path__": raise AttributeError(n)
        return Dummy(n)

    def __call__(self, *a, **k): return Dummy("r")
    def __iter__(self): return iter([Dummy("a"), Dummy("b")])
    def __getitem__(self, k): return Dummy("i")
    def __setitem__(self, k, v): pass


class Axes(Dummy):
    """An axis that remembers what is drawn on it (histogram steps, images, titles)."""
    def __init__(self):
        super().__init__("axes")
        self.__dict__.update(zimg=[], zsteps=[], ztitle="")

    def imshow(self, X, cmap=None, norm=None, *, vmin=None, vmax=None, **k):
        a = X if isinstance(X, np.ndarray) else np.asarray(X)
        if norm is not None and not isinstance(norm, Dummy): raise Unsupported("imshow with a norm")
        d = Dummy("image")
        d.__dict__["zimg"] = (a.copy(), vmin, vmax)
        self.zimg.append(d.zimg)
        return d

    def set_title(self, label, *a, **k): self.__dict__["ztitle"] = str(label)
    def get_title(self, *a): return self.ztitle
    def set(self, **k):
        if "title" in k: self.set_title(k["title"])

    def stairs(self, values, edges=None, **k):
        self.zsteps.append((values, edges))
        return Dummy("stairs")


class Figure(Dummy):
    def __init__(self):
        super().__init__("figure")
        self.__dict__["zaxes"] = []

    def subplots(self, nrows=1, ncols=1, *, squeeze=True, **k):
        a = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(nrows, ncols):
            a[i] = Axes()
            self.zaxes.append(a[i])
        if not squeeze: return a
        return a[0, 0] if a.size == 1 else a.ravel() if 1 in a.shape else a

    def add_subplot(self, *a, **k):
        self.zaxes.append(Axes())
        return self.zaxes[-1]

    def add_axes(self, *a, **k): return self.add_subplot()
    def get_axes(self): return list(self.zaxes)
    @property
    def axes(self): return list(self.zaxes)


class Plt(Dummy):
    """matplotlib.pyplot: figures that remember what is drawn on them."""
    def figure(self, *a, **k):
        W.figure = Figure()
        return W.figure

    def subplots(self, nrows=1, ncols=1, *, sharex=False, sharey=False, squeeze=True, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols, squeeze=squeeze)

    def gcf(self): return W.figure if W.figure is not None else self.figure()
    def gca(self):
        f = self.gcf()
        return f.zaxes[-1] if f.zaxes else f.add_subplot()

    def __getattr__(self, n):
        if n in ("imshow", "stairs"): return getattr(self.gca(), n)
        if n == "title": return self.gca().set_title
        return Dummy.__getattr__(self, n)


class Cv2(Dummy):
    """cv2: the functions a check provides stand-ins for; reading any other result of it is meaningless."""
    def __getattr__(self, n):
        if n in W.cv2: return lambda *a, **k: W.cv2[n](*a, **k)
        return Dummy.__getattr__(self, n)


# ---------------------------------------------------------------- numpy proxy
class _NdMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, np.ndarray)
    def __eq__(cls, o): return o is cls or o is np.ndarray
    def __hash__(cls): return hash(np.ndarray)


class NdProxy(metaclass=_NdMeta):
    _is_ndarray_proxy = True

    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if buffer is None: return arr.full(shape, None, dtype)
        if isinstance(buffer, SymBytes):
            if strides is not None: raise Unsupported("strides")
            return arr.bytes_to_array(buffer, dtype, shape, offset)
        return lift(np.ndarray(shape, dtype=dtype, buffer=buffer, offset=offset))


def z_array(x, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    dt = None if dtype is None else todt(dtype)
    if hasattr(x, "__zarray__"): x = x.__zarray__()
    if dt is not None and dt.kind not in "biuf":
        if dt.kind == "O": return _obj_array(x)
        return np.array(x, dtype=dt)
    if isinstance(x, (list, tuple)) and any(isinstance(e, SymBytes) for e in x):
        return [e.strip_nul() if isinstance(e, SymBytes) else e for e in x]
    if isinstance(x, (str, bytes, dict, set)) or x is None or (isinstance(x, (list, tuple)) and _nonnum(x)):
        return np.array(x) if dt is None else np.array(x, dtype=dt)
    a = lift(x)
    if dt is not None and dt != a._ld: a = arr.cast_array(a, dt)
    elif copy or not isinstance(x, SymArray): a = a.copy()
    if a.ndim < ndmin: a = wrap(a.raw().reshape((1,) * (ndmin - a.ndim) + a.shape), a._ld)
    return a


def _nonnum(x):
    for e in x:
        if isinstance(e, (list, tuple)):
            if _nonnum(e): return True
        elif not isinstance(e, (bool, int, float, np.generic, np.ndarray, SNum, SBool)) and not hasattr(e, "__zarray__"): return True
        elif isinstance(e, (np.str_, np.bytes_)): return True
    return False


def _obj_array(x):
    """np.array(nested, dtype=object) keeping array leaves' elements as numpy would."""
    def conv(e):
        if isinstance(e, SymArray): return e.raw()
        if isinstance(e, (list, tuple)): return type(e)(conv(q) for q in e)
        return e
    x = conv(x)
    r = np.array(x, dtype=object)
    # leaves that stay arrays must come back symbolic
    if r.size and any(isinstance(e, np.ndarray) for e in r.flat):
        out = np.empty(r.shape, dtype=object)
        for i in np.ndindex(r.shape):
            e = r[i]
            out[i] = wrap(e, float) if isinstance(e, np.ndarray) and np.ndarray.dtype.__get__(e) == arr.O else e
        return out
    return ObjArray.make(r)


class ObjArray(np.ndarray):
    """Plain object array of symbolic elements (numpy semantics for dtype=object)."""
    @staticmethod
    def make(r): return r.view(ObjArray) if r.ndim else r

    def __getitem__(self, i):
        r = np.ndarray.__getitem__(self, i)
        if isinstance(r, np.ndarray): return wrap(r.view(np.ndarray), float)
        return r


def z_asarray(x, dtype=None, order=None, **k): return z_array(x, dtype, copy=False)


def z_full(shape, fill_value, dtype=None, **k):
    if dtype is None: dtype = lift(fill_value)._ld
    r = arr.full(shape, 0, dtype)
    if todt(dtype).kind in "biuf": r[...] = fill_value
    return r


def z_frombuffer(b, dtype=float, count=-1, offset=0):
    if isinstance(b, SymBytes):
        if len(b) - offset == 0: raise ValueError("buffer size must be a multiple of element size")
        if (len(b) - offset) % todt(dtype).itemsize and count < 0: raise ValueError("buffer size must be a multiple of element size")
        a = arr.bytes_to_array(b, dtype, None, offset)
        return a if count < 0 else a[:count]
    return lift(np.frombuffer(b, dtype=dtype, count=count, offset=offset))


def z_fromfile(f, dtype=float, count=-1, sep="", offset=0):
    if isinstance(f, SymFile): c = f.read()
    else: c = W.get(os.fspath(f))
    if isinstance(c, SymBytes):
        a = arr.bytes_to_array(c, dtype, None, offset)
        return a if count < 0 else a[:count]
    return lift(np.fromfile(f, dtype=dtype, count=count, offset=offset))


def z_unpackbits(a, axis=None, count=None, bitorder="big"):
    a = lift(a)
    if axis not in (None, -1) or (axis is None and a.ndim > 1 and False): raise Unsupported("unpackbits axis")
    src = a.raw().reshape(-1)
    bits = []
    for x in src:
        g = list(sym.getbits(x))
        g = g[:8] + [False] * (8 - len(g))
        if bitorder == "big": g = g[::-1]
        bits += [b if isinstance(b, bool) else SBool(b) for b in g]
    if count is not None: bits = bits[:count]
    r = np.empty(len(bits), dtype=object)
    for k, b in enumerate(bits): r[k] = int(b) if isinstance(b, bool) else sym.frombits([b.t])
    if axis is not None and a.ndim > 1: r = r.reshape(a.shape[:-1] + (-1,))
    return wrap(r, np.uint8)


def z_packbits(a, axis=None, bitorder="big"):
    a = lift(a)
    if axis not in (None, -1): raise Unsupported("packbits axis")
    m = a.raw().reshape(-1) if axis is None or a.ndim == 1 else None
    if m is None: raise Unsupported("packbits axis")
    out = []
    for k in range(0, len(m), 8):
        g = [sym.tobool(x) for x in m[k:k + 8]]
        g += [False] * (8 - len(g))
        if bitorder == "big": g = g[::-1]
        out.append(sym.frombits([b if isinstance(b, bool) else b.t for b in g]))
    r = np.empty(len(out), dtype=object)
    for k, b in enumerate(out): r[k] = b
    return wrap(r, np.uint8)


def z_vectorize(f, *a, **k):
    def run(*xs):
        L = [lift(x) for x in xs]
        sh = np.broadcast_shapes(*[x.shape for x in L])
        r = np.empty(sh, dtype=object)
        B = [np.broadcast_to(x.raw(), sh) for x in L]
        for i in np.ndindex(sh): r[i] = norm(f(*[b[i] for b in B]))
        ot = k.get("otypes")
        if ot: return arr.cast_array(wrap(r, arr.O if False else float), todt(ot[0] if isinstance(ot, (list, tuple)) else ot))
        return arr.from_flat([e for e in r.flat], sh)
    return run


def z_apply_along_axis(f, axis, a, *args, **k):
    a = lift(a)
    m = np.moveaxis(a.raw(), axis, -1)
    outs = {}
    for i in np.ndindex(m.shape[:-1]): outs[i] = lift(f(wrap(m[i], a._ld), *args, **k))
    o0 = outs[next(iter(outs))]
    r = np.empty(m.shape[:-1] + o0.shape, dtype=object)
    for i, o in outs.items(): r[i] = o.raw() if o.ndim else o.raw()[()]
    if o0.ndim: r = np.moveaxis(r, -1, axis)
    return wrap(r, o0._ld)


def z_fromiter(it, dtype, count=-1): return arr.cast_array(lift(list(it)), dtype)


def z_fromfunction(f, shape, dtype=float, **k):
    return f(*[lift(x) for x in np.indices(shape, dtype=dtype)], **k)


def z_asfortran(x, dtype=None, **k): return z_array(x, dtype, copy=False)


def z_interp(x, xp, fp, left=None, right=None, period=None):
    if arr.any_sym(fp) and not arr.any_sym(x) and not arr.any_sym(xp):
        X, XP, FP = arr.real_array(lift(x)), arr.real_array(lift(xp)), lift(fp)
        f = interp1d(XP, FP, fill_value="extrapolate")
        t = np.clip(X, XP[0], XP[-1])
        return f(np.atleast_1d(t)) if X.ndim else f(np.atleast_1d(t))[0]
    if not arr.any_sym((x, xp, fp)): return arr.from_real(np.interp(deep_real(x), deep_real(xp), deep_real(fp)))
    raise Unsupported("interp")


def lifted(f):
    """Real function whose array results become (constant) SymArrays; constants in."""
    def g(*a, **k):
        if arr.any_sym(a) or any(isinstance(x, SymArray) for x in a): return arr.array_function(f, (), a, k)
        r = f(*[deep_real(x) for x in a], **{q: deep_real(v) for q, v in k.items()})
        return arr.from_real(r)
    return g


SCALAR_TYPES = ("float64", "float32", "float16", "float_", "double", "single", "half", "int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8", "int_", "intp",
                "uint", "bool_", "longlong", "short", "ushort", "intc", "byte", "ubyte", "longdouble")


class _Cast:
    def __getitem__(self, dt):
        d = todt(dt)
        return lambda x: arr.cast_array(lift(x), d) if isinstance(x, (np.ndarray, list, tuple)) else wrap(arr.cast_elem(norm(x), None, d), d)


def numpy_proxy():
    m = types.ModuleType("numpy")
    m.__path__ = list(np.__path__)
    over = {
        "array": z_array, "asarray": z_asarray, "asanyarray": z_asarray, "ascontiguousarray": z_asarray, "asfortranarray": z_asfortran,
        "asfarray": lambda a, dtype=float: z_array(a, dtype, copy=False), "asarray_chkfinite": z_asarray,
        "zeros": lambda shape, dtype=float, order="C", **k: arr.full(shape, 0, dtype), "ones": lambda shape, dtype=None, order="C", **k: arr.full(shape, 1, dtype or float),
        "empty": lambda shape, dtype=float, order="C", **k: arr.full(shape, None, dtype), "full": z_full, "ndarray": NdProxy,
        "frombuffer": z_frombuffer, "fromfile": z_fromfile, "unpackbits": z_unpackbits, "packbits": z_packbits, "vectorize": z_vectorize,
        "apply_along_axis": z_apply_along_axis, "fromiter": z_fromiter, "fromfunction": z_fromfunction, "cast": _Cast(), "interp": z_interp,
        "eye": lifted(np.eye), "identity": lifted(np.identity), "tri": lifted(np.tri),
    }
    # dispatching functions on plain Python sequences that hold symbols
    def dispatching(f):
        def g(*a, **k):
            if arr.any_sym(a) or arr.any_sym(list(k.values())) or any(isinstance(x, SymArray) for x in a):
                if a and isinstance(a[0], arr.Masked): return a[0].__array_function__(f, (), a, k)
                try: return arr.array_function(f, (), a, k)
                except TypeError:
                    raise
            if any(isinstance(x, (list, tuple)) and _has_sa(x) for x in a) or any(isinstance(x, SymArray) or (isinstance(x, (list, tuple)) and _has_sa(x)) for x in k.values()):
                return arr.array_function(f, (), a, k)
            return f(*a, **k)
        g.__name__ = getattr(f, "__name__", "f")
        g.__wrapped_np__ = f
        return g

    def ufunc_disp(f):
        class U:
            __name__ = f.__name__
            reduce = staticmethod(lambda *a, **k: f.reduce(*[lift(x) if isinstance(x, (list, tuple)) and arr.any_sym(x) else x for x in a], **k))
            accumulate = staticmethod(f.accumulate)
            outer = staticmethod(f.outer)
            at = staticmethod(f.at)
            nin, nout = f.nin, f.nout
            def __call__(self, *a, **k):
                a = [lift(x) if isinstance(x, (list, tuple)) and (arr.any_sym(x) or _has_sa(x)) else x for x in a]
                return f(*a, **k)
        return U()
    for n in dir(np):
        if n in over or n.startswith("__"): continue
        try: v = getattr(np, n)
        except AttributeError: continue
        if isinstance(v, np.ufunc): v = ufunc_disp(v)
        elif callable(v) and not isinstance(v, type) and (v in arr.HANDLED or hasattr(v, "_implementation") or n in ("concatenate", "where", "copyto", "dot", "vdot", "inner", "can_cast", "result_type", "putmask", "bincount", "ravel_multi_index", "unravel_index", "min_scalar_type")):
            v = dispatching(v)
        setattr(m, n, v)
    for n, v in over.items(): setattr(m, n, v)
    lin = types.ModuleType("numpy.linalg")
    for n in dir(np.linalg):
        v = getattr(np.linalg, n)
        if not n.startswith("__"): setattr(lin, n, dispatching(v) if callable(v) and not isinstance(v, type) else v)
    m.linalg = lin

    def getattr_(n):
        return getattr(np, n)       # raises the real error for names numpy does not have (np.float, ...)
    m.__getattr__ = getattr_
    # names numpy's module __getattr__ rejects must stay rejected
    for n in ("float", "int", "bool", "object", "complex", "str"):
        if n in m.__dict__: del m.__dict__[n]
    return m


def _has_sa(x):
    for e in x:
        if isinstance(e, SymArray): return True
        if isinstance(e, (list, tuple)) and _has_sa(e): return True
    return False


# ---------------------------------------------------------------- math proxy
def math_proxy():
    m = types.ModuleType("math")
    for n in dir(math):
        if not n.startswith("__"): setattr(m, n, getattr(math, n))
    def g(name, f):
        real = getattr(math, name)
        setattr(m, name, lambda *a: f(*[norm(x) for x in a]) if any(is_sym(x) for x in a) else real(*a))
    for name, f in dict(sqrt=lambda a: sym.n_sqrt(a), sin=sym.n_sin, cos=sym.n_cos, tan=sym.n_tan, atan=sym.n_atan, atan2=sym.n_atan2, exp=sym.n_exp, log=lambda a, *b: sym.n_log(a),
                        hypot=sym.n_hypot, fabs=sym.n_abs, floor=sym.n_floor, ceil=arr._ceil, trunc=sym.n_trunc, radians=lambda a: sym.n_mul(a, arr.K_DEG),
                        degrees=lambda a: sym.n_mul(a, arr.K_RAD), isnan=lambda a: False, isfinite=lambda a: True, isinf=lambda a: False,
                        pow=sym.n_pow, fmod=arr._fmod, copysign=arr._copysign,
                        isclose=lambda a, b: sym.n_le(sym.n_abs(sym.n_sub(a, b)), sym.n_mul(1e-9, sym.n_max(sym.n_abs(a), sym.n_abs(b))))).items():
        g(name, f)
    return m


# ---------------------------------------------------------------- builtins the source is rewritten to call
BIT0 = 0xF0000


def bitchar(b):
    if isinstance(b, bool): return "1" if b else "0"
    k = len(W.strs)
    c = chr(BIT0 + k)
    W.strs[c] = b
    return c


def bitstr(x, width):
    bs = list(sym.getbits(x))
    bs += [False] * (width - len(bs))
    return "".join(bitchar(b if isinstance(b, bool) else b) for b in reversed(bs))


class BinDigits:
    """bin(x)[2:] of a symbolic non-negative integer (length not yet decided)."""
    def __init__(self, x): self.x = x
    def zfill(self, w):
        mx = len(sym.getbits(self.x))
        if mx <= w: return bitstr(self.x, w)
        return self.fix().zfill(w)
    def rjust(self, w, c=" "): return self.zfill(w) if c == "0" else self.fix().rjust(w, c)
    def fix(self):
        n = max(self.x.bit_length() if isinstance(self.x, SNum) else int(self.x).bit_length(), 1)
        return bitstr(self.x, n)[-n:]
    def __str__(self): return self.fix()
    def __len__(self): return len(self.fix())
    def __getitem__(self, i): return self.fix()[i]
    def __add__(self, o): return self.fix() + o
    def __radd__(self, o): return o + self.fix()
    def __iter__(self): return iter(self.fix())
    def __getattr__(self, n): return getattr(self.fix(), n)


class BinStr(BinDigits):
    def fix(self): return "0b" + BinDigits.fix(self)
    def zfill(self, w): return self.fix().zfill(w)
    def __getitem__(self, i):
        if isinstance(i, slice) and i.start == 2 and i.stop is None and i.step is None: return BinDigits(self.x)
        return self.fix()[i]
    def replace(self, a, b, *c):
        if a == "0b" and b == "": return BinDigits(self.x)
        return self.fix().replace(a, b, *c)
    def removeprefix(self, p): return BinDigits(self.x) if p == "0b" else self.fix().removeprefix(p)
    def lstrip(self, c=None): return self.fix().lstrip(c)


def z_bin(x):
    if isinstance(x, SNum): return BinStr(x) if bool(sym.n_le(0, x)) else "-" + z_bin(sym.n_neg(x)).fix()
    return bin(x)


def z_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SNum): return sym.n_trunc(x)
        if isinstance(x, SBool): return x.num()
        if isinstance(x, SymArray):
            if x.size != 1: raise TypeError("only length-1 arrays can be converted to Python scalars")
            return z_int(x.raw().reshape(-1)[0])
    if a and isinstance(a[0], (str, BinDigits)):
        s = str(a[0])
        if any(c in W.strs for c in s):
            base = a[1] if len(a) > 1 else k.get("base", 10)
            if s.startswith(("0b",)): s = s[2:]
            if base not in (2, 0): raise Unsupported("int() of symbolic digits in base other than 2")
            bits = []
            for c in reversed(s):
                if c in W.strs: bits.append(W.strs[c])
                elif c in "01": bits.append(c == "1")
                elif c == "_": continue
                else: raise ValueError(f"invalid literal for int() with base {base}")
            return sym.frombits(bits)
    return int(*a, **k)


def z_float(*a):
    if a:
        x = a[0]
        if isinstance(x, SNum): return SNum(sym.rt(x), False)
        if isinstance(x, SBool): return SNum(sym.rt(x.num()), False)
        if isinstance(x, SymArray) and x.size == 1: return z_float(x.raw().reshape(-1)[0])
    return float(*a)


def z_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (np.ndarray, arr.Masked)): return NdProxy
        if isinstance(x, SNum): return int if x.i else float
        if isinstance(x, SBool): return bool
    return type(*a)


def z_isinstance(o, c):
    if isinstance(o, (SNum, SBool)):
        cs = c if isinstance(c, tuple) else (c,)
        rep = True if isinstance(o, SBool) else 1 if o.i else 1.0
        rep2 = np.bool_(True) if isinstance(o, SBool) else np.int64(1) if o.i else np.float64(1)
        for q in cs:
            if isinstance(q, tuple):
                if z_isinstance(o, q): return True
            elif isinstance(rep, q) or isinstance(rep2, q) or q is SNum: return True
        return False
    if isinstance(o, arr.Masked): o = o.full
    if isinstance(o, SymBytes):
        cs = c if isinstance(c, tuple) else (c,)
        return any(q in (bytes, SymBytes) for q in cs)
    return isinstance(o, c)


def z_npscalar(name, *a, **k):
    t = getattr(np, name)
    if a:
        x = a[0]
        if isinstance(x, (SNum, SBool)): return arr.cast_elem(x, None, np.dtype(t))
        if isinstance(x, SymArray): return arr.cast_array(x, np.dtype(t)) if x.ndim else arr.cast_elem(x.raw()[()], None, np.dtype(t))
    return t(*a, **k)


def z_round(x, nd=None):
    if isinstance(x, SNum): return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def z_bytes(*a):
    if a and isinstance(a[0], SymBytes): return a[0]
    if a and isinstance(a[0], SymArray): return arr.to_bytes(a[0])
    if a and isinstance(a[0], (list, tuple)) and arr.any_sym(a[0]): return SymBytes(list(a[0]))
    return bytes(*a)


def z_from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, SymArray): b = arr.to_bytes(b)
    if isinstance(b, (SymBytes, list, tuple)):
        e = list(b)
        if byteorder == "big": e = e[::-1]
        bits = []
        for x in e:
            q = list(sym.getbits(x))
            bits += q + [False] * (8 - len(q))
        if signed: raise Unsupported("signed from_bytes")
        return sym.frombits(bits)
    return int.from_bytes(b, byteorder, signed=signed)


def z_divmod(a, b):
    if is_sym(a) or is_sym(b): return a // b, a % b
    return divmod(a, b)


def z_print(*a, **k): return None


def z_sum(it, start=0):
    xs = list(it)
    if any(is_sym(x) for x in xs) and all(isinstance(x, (SNum, SBool, int, float, np.generic)) for x in xs) and isinstance(start, (int, float)):
        return arr.nsum([norm(x) for x in xs] + ([start] if start else []))
    return sum(xs, start)


def z_join(sep, it):
    return sep.join([str(x) if isinstance(x, BinDigits) else x for x in it])


def z_min(*a, **k): return _mm(min, a, k, sym.n_min)
def z_max(*a, **k): return _mm(max, a, k, sym.n_max)


def _mm(f, a, k, op):
    if not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and any(is_sym(x) for x in xs) and all(isinstance(x, (SNum, int, float, np.generic)) for x in xs):
            v = norm(xs[0])
            for x in xs[1:]: v = op(v, norm(x))
            return v
        return f(xs)
    return f(*a, **k)
