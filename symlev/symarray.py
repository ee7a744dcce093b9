"""A numpy duck array whose elements are symbolic scalars.

The real momlevel code, and the real xarray / xgcm code under it, run on these
arrays unchanged: xarray dispatches through __array_ufunc__ and
__array_function__.  `activate()` additionally patches the few numpy entry
points that do not dispatch (np.asarray and friends)."""
import functools
import math
import sys
from fractions import Fraction

import numpy as np

from . import num as N
from . import terms as T
from .num import Num, Unsupported, lift
from .terms import B, TRUE, FALSE, band, bor, bnot, tob

F8 = np.dtype("float64")
BO = np.dtype("bool")
I8 = np.dtype("int64")


def is_sym(x):
    return isinstance(x, (SymArray, Num, B))


def _elem(x, kind):
    """python / numpy scalar -> element of a `kind` array"""
    if kind == "b":
        b = tob(x)
        if b is not None:
            return b
        n = lift(x)
        if n is None:
            raise Unsupported(f"bool element from {type(x)}")
        return bor(n.nan, n.inf, bnot(T.beq(n.p, T.P0)))
    if isinstance(x, Num):
        return x
    n = lift(x)
    if n is None:
        raise Unsupported(f"numeric element from {type(x)}")
    return n


def obj(x):
    """object ndarray (elements Num/B/python) of anything array-like"""
    if isinstance(x, SymArray):
        return x.a
    if isinstance(x, (Num, B)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    d = getattr(x, "_sym_data_", None)
    if hasattr(x, "variable") and hasattr(x, "dims"):     # DataArray
        return obj(x.data)
    if hasattr(x, "dims") and hasattr(x, "_data"):
        return obj(x.data)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return obj(_build(x))
    r = np.empty((), dtype=object)
    r[()] = x.item() if isinstance(x, np.generic) else x
    return r


def kind_of(x):
    if isinstance(x, SymArray):
        return x.dtype.kind
    if isinstance(x, B):
        return "b"
    if isinstance(x, Num):
        return "f"
    if hasattr(x, "dtype"):
        k = x.dtype.kind
        if k == "O":
            return _okind(np.asarray(x, dtype=object))
        return k
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, (float, Fraction)):
        return "f"
    if isinstance(x, (list, tuple)):
        ks = {kind_of(v) for v in x}
        for k in "Mmf":
            if k in ks:
                return k
        if "i" in ks:
            return "i"
        return "b" if ks == {"b"} else "O"
    return "O"


def _okind(o):
    ks = set()
    for v in o.ravel():
        if isinstance(v, B) or isinstance(v, (bool, np.bool_)):
            ks.add("b")
        elif isinstance(v, (int, np.integer)):
            ks.add("i")
        elif isinstance(v, (Num, float, np.floating, Fraction)):
            ks.add("f")
        else:
            return "O"
    if ks == {"b"}:
        return "b"
    if ks == {"i"}:
        return "i"
    return "f" if ks else "O"


def wrap(o, dtype=None, concretize=True):
    """object ndarray -> SymArray (or a concrete bool ndarray)"""
    if not isinstance(o, np.ndarray):
        r = np.empty((), dtype=object)
        r[()] = o
        o = r
    if dtype is None:
        k = _okind(o)
        if k == "O":
            if o.size == 0:
                k = "f"
            else:
                return o
        dtype = {"b": BO, "i": I8, "f": F8}[k]
    dtype = np.dtype(dtype)
    k = "b" if dtype.kind == "b" else "f"
    out = np.empty(o.shape, dtype=object)
    of, nf = o.ravel(), []
    for v in of:
        nf.append(_elem(v, k))
    if nf:
        tmp = np.empty(len(nf), dtype=object)
        for i, v in enumerate(nf):
            tmp[i] = v
        out = tmp.reshape(o.shape)
    if k == "b" and concretize and all(v.kind == "const" for v in nf):
        return np.array([v.args[0] for v in nf], dtype=bool).reshape(o.shape)
    return SymArray(out, dtype)


def emap(f, *arrs):
    """elementwise over broadcast object arrays"""
    if len(arrs) == 1:
        a = arrs[0]
        out = np.empty(a.shape, dtype=object)
        of = out.reshape(-1) if out.flags.c_contiguous else None
        for i, v in enumerate(a.ravel()):
            of[i] = f(v)
        return out
    bs = np.broadcast_arrays(*arrs, subok=False)
    out = np.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    flats = [b.ravel() for b in bs]
    for i in range(of.size):
        of[i] = f(*[fl[i] for fl in flats])
    return out


def result_dtype(*xs):
    k = [kind_of(x) for x in xs]
    if any(q in "Mm" for q in k):
        raise Unsupported("datetime arithmetic with symbolic data")
    if any(q == "f" for q in k):
        # single precision arrays stay single precision next to scalars (numpy 1 promotion)
        ds = [x.dtype for x in xs if isinstance(x, (SymArray, np.ndarray)) and x.ndim and x.dtype.kind in "fiub"]
        r = np.result_type(*ds) if ds else F8
        return r if r.kind == "f" else F8
    if any(q in "iu" for q in k):
        return I8
    return BO


def float_dtype(*xs):
    r = result_dtype(*xs)
    return r if r.kind == "f" else F8


def reduced(o, a, dtype=None):
    """result of a floating point reduction of `a`"""
    r = wrap(o, float_dtype(a))
    return r.astype(dtype) if dtype is not None and dtype is not np._NoValue else r


# ------------------------------------------------------------------ ufuncs
def _isnan(x):
    n = lift(x)
    return n.nan


def _isinf(x):
    n = lift(x)
    return band(n.inf, bnot(n.nan))


def _isfinite(x):
    n = lift(x)
    return band(bnot(n.nan), bnot(n.inf))


def _tb(x):
    return _elem(x, "b")


PRED = {"isnan": _isnan, "isinf": _isinf, "isfinite": _isfinite,
        "signbit": lambda x: T.blt(lift(x).p, T.P0)}
LOGIC = {
    "logical_and": lambda a, b: band(_tb(a), _tb(b)),
    "logical_or": lambda a, b: bor(_tb(a), _tb(b)),
    "logical_xor": lambda a, b: _tb(a) ^ _tb(b),
}
BITS = {"bitwise_and": "logical_and", "bitwise_or": "logical_or", "bitwise_xor": "logical_xor"}


def _num(x):
    n = lift(x)
    if n is None:
        raise Unsupported(f"arithmetic on {type(x).__name__}")
    return n


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    for x in inputs:
        if hasattr(x, "variable") and hasattr(x, "dims") or type(x).__module__.startswith(("pandas", "dask")):
            return NotImplemented
        if isinstance(x, np.ndarray) and x.dtype.kind in "Mm":
            raise Unsupported("datetime arithmetic with symbolic data")
    if method == "__call__":
        where = kw.pop("where", True)
        kw.pop("casting", None)
        dt = kw.pop("dtype", None)
        kw.pop("order", None)
        kw.pop("subok", None)
        if kw:
            raise Unsupported(f"{name} with {sorted(kw)}")
        r = _ucall(name, inputs)
        if dt is not None and not isinstance(r, tuple):
            r = r.astype(dt)
        if where is not True:
            if out is None:
                raise Unsupported("ufunc where= without out=")
            o = out[0] if isinstance(out, tuple) else out
            r = sym_where(where, r, o)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if not isinstance(o, SymArray):
                raise Unsupported("out= a concrete array")
            o.a[...] = obj(r)
            return o
        return r
    if method == "reduce":
        return ureduce(name, inputs[0], **kw)
    if method == "accumulate":
        return uaccum(name, inputs[0], **kw)
    if method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        a2 = a.reshape(a.shape + (1,) * b.ndim)
        return _ucall(name, (SymArray.of(a2, inputs[0]), SymArray.of(b, inputs[1])))
    raise Unsupported(f"ufunc {name}.{method}")


def _ucall(name, inputs):
    arrs = [obj(x) for x in inputs]
    if name in PRED:
        return wrap(emap(PRED[name], *arrs), BO)
    if name in LOGIC or name in BITS:
        if name in BITS:
            if any(kind_of(x) != "b" for x in inputs):
                raise Unsupported(f"{name} on integers")
            name = BITS[name]
        return wrap(emap(LOGIC[name], *arrs), BO)
    if name == "logical_not" or name == "invert":
        if name == "invert" and kind_of(inputs[0]) != "b":
            raise Unsupported("invert of integers")
        return wrap(emap(lambda v: bnot(_tb(v)), *arrs), BO)
    if name in N.CMP:
        f = N.CMP[name]
        if all(kind_of(x) == "b" for x in inputs) and name in ("equal", "not_equal"):
            def f2(a, b):
                r = bnot(_tb(a) ^ _tb(b))
                return r if name == "equal" else bnot(r)
            return wrap(emap(f2, *arrs), BO)
        return wrap(emap(lambda a, b: f(_num(a), _num(b)), *arrs), BO)
    if name in N.UN:
        f = N.UN[name]
        dt = result_dtype(*inputs)
        if name not in ("negative", "positive", "absolute", "square", "sign", "conjugate"):
            dt = float_dtype(*inputs)
        if dt == BO:
            dt = I8
        return wrap(emap(lambda a: f(_num(a)), *arrs), dt)
    if name in N.BIN:
        if name in ("add", "multiply", "maximum", "minimum") and all(kind_of(x) == "b" for x in inputs):
            return wrap(emap(LOGIC["logical_or" if name in ("add", "maximum") else "logical_and"], *arrs), BO)
        f = N.BIN[name]
        dt = (float_dtype if name in ("divide", "true_divide", "arctan2", "hypot", "float_power") else result_dtype)(*inputs)
        if dt == BO:
            dt = I8
        return wrap(emap(lambda a, b: f(_num(a), _num(b)), *arrs), dt)
    if name in ("copysign",):
        def cs(a, b):
            m = N.absolute(_num(a))
            return N.ite(T.blt(_num(b).p, T.P0), N.neg(m), m)
        return wrap(emap(cs, *arrs), F8)
    raise Unsupported(f"ufunc {name}")


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    return tuple(int(a) % nd for a in axis)


def reduce_obj(o, axis, keepdims, f):
    """apply f(list of elements) over `axis` (None / int / tuple)"""
    nd = o.ndim
    ax = _axes(axis, nd)
    keep = [i for i in range(nd) if i not in ax]
    t = o.transpose(keep + list(ax)) if nd else o
    kshape = tuple(o.shape[i] for i in keep)
    n = 1
    for i in ax:
        n *= o.shape[i]
    t = t.reshape(kshape + (n,)) if nd else t.reshape((1,))
    out = np.empty(kshape, dtype=object)
    if nd == 0:
        out[()] = f(list(t))
    else:
        for idx in np.ndindex(*kshape):
            out[idx] = f(list(t[idx]))
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else o.shape[i] for i in range(nd)))
    return out


def _fold(f, init=None):
    def g(xs):
        if not xs:
            if init is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return init
        return functools.reduce(f, xs)
    return g


def sum_list(xs):
    # wide sums built in one pass
    xs = [_num(x) for x in xs]
    if not xs:
        return N.ZERO
    if all(x.inf is FALSE for x in xs):
        t = {}
        for x in xs:
            for m, c in x.p.t.items():
                v = t.get(m)
                t[m] = c if v is None else v + c
        t = {m: c for m, c in t.items() if c != 0}
        r = T.Poly(t)
        if 1 < len(xs) <= 64 and len(t) > 1:
            k = T.Poly({})
            lo = hi = T.ZERO
            for x in xs:
                l, h = x.p.iv()
                lo, hi = T._xadd_l(lo, l), T._xadd_h(hi, h)
            k._iv = (lo, hi)
            T._from(r, "+", k, T.P0)
        return Num(r, bor(*[x.nan for x in xs]))
    return functools.reduce(N.add, xs)


def prod_list(xs):
    return functools.reduce(N.mul, [_num(x) for x in xs], N.ONE)


def ureduce(name, a, axis=0, dtype=None, keepdims=False, initial=None, where=True, out=None, **kw):
    o = obj(a)
    k = kind_of(a)
    if initial is np._NoValue:
        initial = None
    if initial is not None:
        raise Unsupported("reduction with initial=")
    if keepdims is np._NoValue:
        keepdims = False
    if where is not True and where is not np._NoValue:
        fill = {"add": 0.0, "multiply": 1.0, "logical_or": False, "logical_and": True}.get(name)
        if fill is None:
            raise Unsupported(f"{name}.reduce where=")
        o = obj(sym_where(where, a, fill))
    if name == "add":
        r = wrap(reduce_obj(o, axis, keepdims, sum_list), I8 if k in "biu" else float_dtype(a))
        return r if dtype is None or dtype is np._NoValue else r.astype(dtype)
    if name == "multiply":
        r = wrap(reduce_obj(o, axis, keepdims, prod_list), I8 if k in "biu" else float_dtype(a))
        return r if dtype is None or dtype is np._NoValue else r.astype(dtype)
    if name in ("maximum", "minimum", "fmax", "fmin"):
        f = N.BIN[name]
        return wrap(reduce_obj(o, axis, keepdims, lambda xs: functools.reduce(f, map(_num, xs))), a.dtype)
    if name in ("logical_or", "logical_and"):
        f = bor if name == "logical_or" else band
        return wrap(reduce_obj(o, axis, keepdims, lambda xs: f(*[_tb(x) for x in xs])), BO)
    if name in BITS:
        return ureduce(BITS[name], a, axis, dtype, keepdims)
    raise Unsupported(f"{name}.reduce")


def uaccum(name, a, axis=0, dtype=None, out=None):
    f = N.BIN.get(name)
    if f is None:
        raise Unsupported(f"{name}.accumulate")
    o = obj(a)
    t = np.moveaxis(o, axis, 0)
    r = np.empty(t.shape, dtype=object)
    for idx in np.ndindex(*t.shape[1:]):
        acc = None
        for i in range(t.shape[0]):
            v = _num(t[(i,) + idx])
            acc = v if acc is None else f(acc, v)
            r[(i,) + idx] = acc
    return wrap(np.moveaxis(r, 0, axis), float_dtype(a) if kind_of(a) == "f" else I8)


# ---------------------------------------------------------- numpy functions
FUNCS = {}


def implements(*fs):
    def d(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return d


def sym_where(c, x, y):
    co, xo, yo = obj(c), obj(x), obj(y)
    kx, ky = kind_of(x), kind_of(y)
    if kx in "Mm" or ky in "Mm":
        # concrete datetimes chosen by a (forked) condition
        cc = np.array([bool(_tb(v)) for v in co.ravel()]).reshape(co.shape)
        return np.where(cc, x, y)
    if kx == "b" and ky == "b":
        return wrap(emap(lambda c, a, b: T.bite(_tb(c), _tb(a), _tb(b)), co, xo, yo), BO)
    dt = result_dtype(x, y)
    return wrap(emap(lambda c, a, b: N.ite(_tb(c), _num(a), _num(b)), co, xo, yo), dt)


@implements(np.where)
def _where(condition, x=None, y=None):
    if x is None and y is None:
        return _nonzero(condition)
    return sym_where(condition, x, y)


def conc_bool(a):
    """decide every element (forks)"""
    o = obj(a)
    return np.array([bool(_tb(v)) for v in o.ravel()], dtype=bool).reshape(o.shape)


@implements(np.nonzero)
def _nonzero(a):
    return np.nonzero(conc_bool(a))


@implements(np.argwhere)
def _argwhere(a):
    return np.argwhere(conc_bool(a))


@implements(np.flatnonzero)
def _flatnonzero(a):
    return np.flatnonzero(conc_bool(a))


@implements(np.count_nonzero)
def _count_nonzero(a, axis=None, *, keepdims=False):
    return ureduce("add", SymArray(emap(lambda v: lift(_tb(v)), obj(a)), I8), axis=axis, keepdims=keepdims)


def _kd(keepdims):
    return False if keepdims is np._NoValue else keepdims


@implements(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return ureduce("add", a, axis=axis, dtype=dtype, keepdims=_kd(keepdims), initial=initial, where=where)


@implements(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return ureduce("multiply", a, axis=axis, dtype=dtype, keepdims=_kd(keepdims), initial=initial, where=where)


@implements(np.max, np.amax)
def _max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return ureduce("maximum", a, axis=axis, keepdims=_kd(keepdims), initial=initial)


@implements(np.min, np.amin)
def _min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return ureduce("minimum", a, axis=axis, keepdims=_kd(keepdims), initial=initial)


@implements(np.any)
def _any(a, axis=None, out=None, keepdims=False, *, where=True):
    return ureduce("logical_or", a, axis=axis, keepdims=_kd(keepdims), where=where)


@implements(np.all)
def _all(a, axis=None, out=None, keepdims=False, *, where=True):
    return ureduce("logical_and", a, axis=axis, keepdims=_kd(keepdims), where=where)


@implements(np.cumsum)
def _cumsum(a, axis=None, dtype=None, out=None):
    if axis is None:
        a = SymArray.of(obj(a).ravel(), a)
        axis = 0
    return uaccum("add", a, axis)


@implements(np.cumprod)
def _cumprod(a, axis=None, dtype=None, out=None):
    if axis is None:
        a = SymArray.of(obj(a).ravel(), a)
        axis = 0
    return uaccum("multiply", a, axis)


def _nz(x):
    """missing -> 0"""
    return N.ite(x.nan, N.ZERO, x)


def _cnt(xs):
    return sum_list([lift(bnot(x.nan)) for x in xs])


def nansum_list(xs):
    return sum_list([_nz(_num(x)) for x in xs])


def mean_list(xs):
    return N.div(sum_list(xs), lift(len(xs))) if xs else N.NAN


def _safe_div(s, c, bad):
    """s/c, missing where `bad` (a formula that covers c == 0)"""
    if c.p.is_const():
        if c.p.const() == 0:
            return N.NAN
        r = Num(T.pscale(s.p, 1 / c.p.const()), s.nan, s.inf)
    else:
        r = Num(T.pmul(s.p, T.pinv(c.p)), s.nan, s.inf)
    return Num(r.p, bor(r.nan, bad), r.inf)


def nanmean_list(xs):
    xs = [_num(x) for x in xs]
    alln = band(*[x.nan for x in xs])
    if alln is TRUE:
        return N.NAN
    return _safe_div(nansum_list(xs), _cnt(xs), alln)


def var_list(xs, ddof):
    xs = [_num(x) for x in xs]
    m = mean_list(xs)
    s = sum_list([N.mul(N.sub(x, m), N.sub(x, m)) for x in xs])
    return N.div(s, lift(len(xs) - ddof)) if len(xs) != ddof else N.NAN


def nanvar_list(xs, ddof):
    xs = [_num(x) for x in xs]
    if all(x.nan is FALSE for x in xs):
        return var_list(xs, ddof)
    m = nanmean_list(xs)
    m0 = Num(m.p)
    s = sum_list([_nz(N.mul(N.sub(x, m0), N.sub(x, m0))) for x in xs])
    c = N.sub(_cnt(xs), lift(ddof))
    bad = bor(m.nan, T.ble(c.p, T.P0))
    return _safe_div(s, c, bad)


def _mk(f):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, *, where=True, **kw):
        if where is not True and where is not np._NoValue:
            raise Unsupported("reduction where=")
        return reduced(reduce_obj(obj(a), axis, _kd(keepdims), f), a, dtype)
    return g


FUNCS[np.mean] = _mk(mean_list)
FUNCS[np.nanmean] = _mk(nanmean_list)
FUNCS[np.nansum] = _mk(nansum_list)


@implements(np.var)
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return reduced(reduce_obj(obj(a), axis, _kd(keepdims), lambda xs: var_list(xs, ddof)), a, dtype)


@implements(np.std)
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return reduced(reduce_obj(obj(a), axis, _kd(keepdims), lambda xs: N.sqrt(var_list(xs, ddof))), a, dtype)


@implements(np.nanvar)
def _nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return reduced(reduce_obj(obj(a), axis, _kd(keepdims), lambda xs: nanvar_list(xs, ddof)), a, dtype)


@implements(np.nanstd)
def _nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return reduced(reduce_obj(obj(a), axis, _kd(keepdims), lambda xs: N.sqrt(nanvar_list(xs, ddof))), a, dtype)


@implements(np.nanmax)
def _nanmax(a, axis=None, out=None, keepdims=False, **kw):
    return ureduce("fmax", a, axis=axis, keepdims=_kd(keepdims))


@implements(np.nanmin)
def _nanmin(a, axis=None, out=None, keepdims=False, **kw):
    return ureduce("fmin", a, axis=axis, keepdims=_kd(keepdims))


@implements(np.average)
def _average(a, axis=None, weights=None, returned=False, *, keepdims=False):
    if weights is None:
        return np.mean(a, axis=axis)
    w = obj(weights)
    ao = obj(a)
    if w.shape != ao.shape:
        w = np.broadcast_to(w, (ao.ndim - 1) * (1,) + w.shape)
        w = np.swapaxes(w, -1, axis)
    A, W = SymArray.of(ao, a), wrap(np.broadcast_to(w, ao.shape), F8)
    return np.sum(A * W, axis=axis) / np.sum(W, axis=axis)


def _argpick(xs, better):
    best = 0
    for i in range(1, len(xs)):
        if bool(better(_num(xs[i]), _num(xs[best]))):
            best = i
    return best


def _arg(a, axis, better, skipna):
    o = obj(a)
    if axis is None:
        o = o.ravel()
        axis = 0
    t = np.moveaxis(o, axis, -1)
    out = np.empty(t.shape[:-1], dtype=np.int64)
    for idx in np.ndindex(*t.shape[:-1]):
        xs = list(t[idx])
        if skipna:
            ok = [i for i, x in enumerate(xs) if not bool(_num(x).nan)]
            if not ok:
                raise ValueError("All-NaN slice encountered")
        else:
            bad = [i for i, x in enumerate(xs) if bool(_num(x).nan)]
            ok = bad[:1] or list(range(len(xs)))
        out[idx] = ok[_argpick([xs[i] for i in ok], better)]
    return out if out.ndim else np.int64(out)


@implements(np.argmin)
def _argmin(a, axis=None, out=None, **kw):
    return _arg(a, axis, N.lt, False)


@implements(np.argmax)
def _argmax(a, axis=None, out=None, **kw):
    return _arg(a, axis, N.gt, False)


@implements(np.nanargmin)
def _nanargmin(a, axis=None, out=None, **kw):
    return _arg(a, axis, N.lt, True)


@implements(np.nanargmax)
def _nanargmax(a, axis=None, out=None, **kw):
    return _arg(a, axis, N.gt, True)


@implements(np.argsort)
def _argsort(a, axis=-1, kind=None, order=None):
    o = np.moveaxis(obj(a), axis, -1)
    out = np.empty(o.shape, dtype=np.int64)
    key = functools.cmp_to_key(lambda u, v: -1 if bool(N.lt(_num(u[1]), _num(v[1]))) else (1 if bool(N.lt(_num(v[1]), _num(u[1]))) else 0))
    for idx in np.ndindex(*o.shape[:-1]):
        xs = list(enumerate(o[idx]))
        good = [u for u in xs if not bool(_num(u[1]).nan)]
        bad = [u for u in xs if u not in good]
        out[idx] = [i for i, _ in sorted(good, key=key) + bad]
    return np.moveaxis(out, -1, axis)


@implements(np.sort)
def _sort(a, axis=-1, kind=None, order=None):
    # compare-exchange network: no forks
    o = np.moveaxis(obj(a), axis, -1).copy()
    n = o.shape[-1]
    for idx in np.ndindex(*o.shape[:-1]):
        xs = [_num(x) for x in o[idx]]
        if any(x.nan is not FALSE for x in xs):
            raise Unsupported("sort of possibly missing values")
        for i in range(n):
            for j in range(n - 1 - i):
                xs[j], xs[j + 1] = N.minimum(xs[j], xs[j + 1]), N.maximum(xs[j], xs[j + 1])
        for i, x in enumerate(xs):
            o[idx + (i,)] = x
    return wrap(np.moveaxis(o, -1, axis), F8)


@implements(np.median)
def _median(a, axis=None, **kw):
    o = obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    s = np.moveaxis(obj(_sort(SymArray.of(o, a), axis)), axis, -1)
    n = s.shape[-1]
    if n % 2:
        return wrap(s[..., n // 2], F8)
    return (wrap(s[..., n // 2 - 1], F8) + wrap(s[..., n // 2], F8)) / 2


@implements(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, **kw):
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


@implements(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    return sym_where(np.isnan(x), nan, x)


@implements(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = _num(x), _num(y)
        r = N.le(N.absolute(N.sub(x, y)), N.add(lift(atol), N.mul(lift(rtol), N.absolute(y))))
        r = band(r, bnot(x.inf), bnot(y.inf))
        r = bor(r, N.eq(x, y))
        if equal_nan:
            r = bor(r, band(x.nan, y.nan))
        return r
    return wrap(emap(f, obj(a), obj(b)), BO)


@implements(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol, equal_nan)))


@implements(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    x, y = obj(a), obj(b)
    if x.shape != y.shape:
        return False
    if x is y:
        return bool(ureduce("logical_and", wrap(emap(lambda u: bnot(_num(u).nan), x), BO), axis=None)) if not equal_nan else True
    return bool(np.all(SymArray.of(x, a) == SymArray.of(y, b)))


@implements(np.real)
def _real(v):
    return v


@implements(np.shape)
def _shape(a):
    return obj(a).shape


@implements(np.ndim)
def _ndim(a):
    return obj(a).ndim


@implements(np.size)
def _size(a, axis=None):
    return obj(a).size if axis is None else obj(a).shape[axis]


@implements(np.result_type)
def _result_type(*xs):
    return np.result_type(*[x.dtype if isinstance(x, SymArray) else (F8 if isinstance(x, Num) else BO if isinstance(x, B) else x) for x in xs])


@implements(np.can_cast)
def _can_cast(f, t, casting="safe"):
    return np.can_cast(getattr(f, "dtype", f), t, casting)


@implements(np.iscomplexobj)
def _isc(x):
    return False


@implements(np.isrealobj)
def _isr(x):
    return True


@implements(np.full_like)
def _full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    shape = a.shape if shape is None else shape
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    dt = np.dtype(dtype) if dtype is not None else a.dtype
    if not is_sym(fill_value) and dt.kind in "bi" and kind_of(fill_value) in "bif":
        return _full(shape, np.array(fill_value).astype(dt), dtype=dt)
    o = np.empty(shape, dtype=object)
    o[...] = np.broadcast_to(obj(fill_value), shape)
    return wrap(o, dt if dt.kind in "fbi" else F8).astype(dt)


@implements(np.zeros_like, np.empty_like)
def _zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    return _full_like(a, 0, dtype=dtype, shape=shape)


@implements(np.ones_like)
def _ones_like(a, dtype=None, order="K", subok=True, shape=None):
    return _full_like(a, 1, dtype=dtype, shape=shape)


@implements(np.copy)
def _copy(a, order="K", subok=False):
    return a.copy()


@implements(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    if not isinstance(dst, SymArray):
        raise Unsupported("copyto a concrete array")
    dst.a[...] = obj(sym_where(where, src, dst)) if where is not True else obj(wrap(np.broadcast_to(obj(src), dst.shape), dst.dtype))


@implements(np.putmask)
def _putmask(a, mask, values):
    a[mask] = values


@implements(np.round, np.around)
def _round(a, decimals=0, out=None):
    s = 10.0**decimals
    return np.rint(a * s) / s


@implements(np.select)
def _select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = sym_where(c, x, r)
    return r


@implements(np.piecewise)
def _piecewise(x, condlist, funclist, *args, **kw):
    raise Unsupported("piecewise")


@implements(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xpo = [_num(v) for v in obj(xp).ravel()]
    fpo = [_num(v) for v in obj(fp).ravel()]

    def f(v):
        v = _num(v)
        r = fpo[-1] if right is None else _num(right)
        r = N.ite(N.eq(v, xpo[-1]), fpo[-1], r)
        for i in range(len(xpo) - 2, -1, -1):
            sl = N.div(N.sub(fpo[i + 1], fpo[i]), N.sub(xpo[i + 1], xpo[i]))
            seg = N.add(fpo[i], N.mul(sl, N.sub(v, xpo[i])))
            r = N.ite(N.lt(v, xpo[i + 1]), seg, r)
        r = N.ite(N.lt(v, xpo[0]), fpo[0] if left is None else _num(left), r)
        return Num(r.p, bor(r.nan, v.nan), r.inf)
    return wrap(emap(f, obj(x)), F8)


@implements(np.gradient)
def _gradient(f, *varargs, axis=None, edge_order=1):
    o = obj(f)
    N_ = o.ndim
    axes = tuple(range(N_)) if axis is None else _axes(axis, N_)
    n = len(varargs)
    if n == 0:
        dx = [1.0] * len(axes)
    elif n == 1 and np.ndim(varargs[0]) == 0:
        dx = list(varargs) * len(axes)
    else:
        dx = list(varargs)
    outs = []
    A = SymArray.of(o, f)
    for ax, d in zip(axes, dx):
        a = np.moveaxis(A, ax, 0)
        m = a.shape[0]
        res = []
        if np.ndim(d) == 0:
            h = [d] * (m - 1)
        else:
            h = [d[i + 1] - d[i] for i in range(m - 1)]
        uniform = np.ndim(d) == 0
        for i in range(m):
            if 0 < i < m - 1:
                if uniform:
                    res.append((a[i + 1] - a[i - 1]) / (2.0 * d))
                else:
                    h1, h2 = h[i - 1], h[i]
                    ca = -h2 / (h1 * (h1 + h2))
                    cb = (h2 - h1) / (h1 * h2)
                    cc = h1 / (h2 * (h1 + h2))
                    res.append(ca * a[i - 1] + cb * a[i] + cc * a[i + 1])
            elif edge_order == 1:
                res.append((a[1] - a[0]) / h[0] if i == 0 else (a[m - 1] - a[m - 2]) / h[-1])
            else:
                if i == 0:
                    h1, h2 = h[0], h[1]
                    res.append(-(2.0 * h1 + h2) / (h1 * (h1 + h2)) * a[0] + (h1 + h2) / (h1 * h2) * a[1] - h1 / (h2 * (h1 + h2)) * a[2])
                else:
                    h1, h2 = h[-2], h[-1]
                    res.append(h2 / (h1 * (h1 + h2)) * a[m - 3] - (h2 + h1) / (h1 * h2) * a[m - 2] + (2.0 * h2 + h1) / (h2 * (h1 + h2)) * a[m - 1])
        outs.append(np.moveaxis(np.stack([as_sym(r) for r in res], 0), 0, ax))
    return outs[0] if len(outs) == 1 else outs


@implements(np.einsum)
def _einsum(*operands, out=None, optimize=False, **kw):
    sub = operands[0]
    ops = [emap(_num, obj(x)) for x in operands[1:]]
    dt = result_dtype(*operands[1:])
    return wrap(_einsum_obj(sub, ops), I8 if dt == BO else dt)


def _einsum_obj(sub, ops):
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, outs = sub.split("->")
    else:
        ins = sub
        letters = sorted({c for c in ins if c.isalpha() and ins.count(c) == 1})
        outs = ("..." if "..." in ins else "") + "".join(letters)
    terms_ = ins.split(",")
    ell = 0
    for t, o in zip(terms_, ops):
        if "..." in t:
            ell = max(ell, o.ndim - len(t.replace("...", "")))
    el = "".join(chr(0x3B1 + i) for i in range(ell))
    sizes = {}
    tt = []
    for t, o in zip(terms_, ops):
        if "..." in t:
            k = o.ndim - len(t.replace("...", ""))
            t = t.replace("...", el[ell - k:] if k else "")
        tt.append(t)
        for c, s in zip(t, o.shape):
            sizes[c] = max(sizes.get(c, 1), s)
    outs = outs.replace("...", el)
    sumc = [c for c in sizes if c not in outs]
    res = np.empty(tuple(sizes[c] for c in outs), dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(outs, oi))
        acc = []
        for si in np.ndindex(*[sizes[c] for c in sumc]):
            env.update(zip(sumc, si))
            v = N.ONE
            for t, o in zip(tt, ops):
                v = N.mul(v, o[tuple(env[c] if o.shape[j] > 1 else 0 for j, c in enumerate(t))])
            acc.append(v)
        res[oi] = sum_list(acc)
    return res


@implements(np.outer)
def _outer(a, b, out=None):
    x, y = obj(a).ravel(), obj(b).ravel()
    return SymArray.of(x, a).reshape(-1, 1) * SymArray.of(y, b).reshape(1, -1)


@implements(np.ptp)
def _ptp(a, axis=None, out=None, keepdims=False):
    return np.max(a, axis=axis, keepdims=_kd(keepdims)) - np.min(a, axis=axis, keepdims=_kd(keepdims))


@implements(np.nancumsum)
def _nancumsum(a, axis=None, dtype=None, out=None):
    return np.cumsum(np.where(np.isnan(a), 0.0, a), axis=axis)


@implements(np.ediff1d)
def _ediff1d(a, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        raise Unsupported("ediff1d with ends")
    return np.diff(SymArray.of(obj(a).ravel(), a))


@implements(np.trace)
def _trace(a, *args, **kw):
    return np.sum(np.diagonal(a, *args, **kw), axis=-1)


@implements(np.vander)
def _vander(x, N=None, increasing=False):
    n = len(x) if N is None else N
    cols = [x ** k for k in range(n)]
    return np.stack(cols if increasing else cols[::-1], axis=-1)


@implements(np.convolve)
def _convolve(a, v, mode="full"):
    x, y = [_num(q) for q in obj(a)], [_num(q) for q in obj(v)]
    if len(y) > len(x):
        x, y = y, x
    n, m = len(x), len(y)
    full = [sum_list([N.mul(x[i], y[k - i]) for i in range(max(0, k - m + 1), min(n, k + 1))]) for k in range(n + m - 1)]
    full = full if mode == "full" else full[(m - 1) // 2:(m - 1) // 2 + n] if mode == "same" else full[m - 1:n]
    o = np.empty(len(full), dtype=object)
    o[:] = full
    return wrap(o, float_dtype(a, v))


@implements(np.tensordot)
def _tensordot(a, b, axes=2):
    x, y = emap(_num, obj(a)), emap(_num, obj(b))
    if isinstance(axes, (int, np.integer)):
        ax, bx = list(range(x.ndim - axes, x.ndim)), list(range(axes))
    else:
        ax, bx = ([q] if isinstance(q, (int, np.integer)) else list(q) for q in axes)
    ax, bx = [q % x.ndim for q in ax], [q % y.ndim for q in bx]
    la = [chr(97 + i) for i in range(x.ndim)]
    lb = [chr(97 + x.ndim + i) for i in range(y.ndim)]
    for i, j in zip(ax, bx):
        lb[j] = la[i]
    out = [q for i, q in enumerate(la) if i not in ax] + [q for i, q in enumerate(lb) if i not in bx]
    return wrap(_einsum_obj(f"{''.join(la)},{''.join(lb)}->{''.join(out)}", [x, y]), float_dtype(a, b))


@implements(np.dot, np.matmul, np.inner, np.vdot)
def _dot(a, b, *args, **kw):
    x, y = emap(_num, obj(a)), emap(_num, obj(b))
    if args or kw:
        raise Unsupported("dot with options")
    if x.ndim > 2 and y.ndim in (1, 2):
        return np.tensordot(a, b, axes=([-1], [0]))
    if x.ndim == 0 or y.ndim == 0:
        return SymArray.of(x, a) * SymArray.of(y, b)
    if x.ndim == 1 and y.ndim == 1:
        return wrap(_einsum_obj("i,i->", [x, y]), float_dtype(a, b))
    if x.ndim == 2 and y.ndim == 1:
        return wrap(_einsum_obj("ij,j->i", [x, y]), float_dtype(a, b))
    if x.ndim == 1 and y.ndim == 2:
        return wrap(_einsum_obj("i,ij->j", [x, y]), float_dtype(a, b))
    if x.ndim == 2 and y.ndim == 2:
        return wrap(_einsum_obj("ij,jk->ik", [x, y]), float_dtype(a, b))
    raise Unsupported("dot of high-dimensional arrays")


def _frac_matrix(a):
    o = obj(a)
    out = []
    for row in o:
        r = []
        for v in row:
            n = _num(v)
            if not (n.is_const() and n.is_plain()):
                raise Unsupported("least squares with a symbolic design matrix")
            r.append(n.p.const())
        out.append(r)
    return out


def _solve_frac(A, Bm):
    """exact Gauss-Jordan: A (n x n) X = B (n x m); None if singular"""
    n = len(A)
    M = [list(A[i]) + list(Bm[i]) for i in range(n)]
    for c in range(n):
        piv = max(range(c, n), key=lambda r: abs(M[r][c]))
        if M[piv][c] == 0:
            return None
        M[c], M[piv] = M[piv], M[c]
        d = M[c][c]
        M[c] = [v / d for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def pinv_matrix(A):
    """Moore-Penrose solution operator of a concrete matrix (list of Fractions)"""
    fl = np.array([[float(v) for v in r] for r in A])
    n, k = len(A), len(A[0])
    rank = np.linalg.matrix_rank(fl) if fl.size else 0
    if n >= k and rank == k:
        AtA = [[sum(A[r][i] * A[r][j] for r in range(n)) for j in range(k)] for i in range(k)]
        At = [[A[r][i] for r in range(n)] for i in range(k)]
        S = _solve_frac(AtA, At)
        if S is not None:
            return S, rank
    P = np.linalg.pinv(fl)
    return [[Fraction(v) for v in r] for r in P.tolist()], rank


@implements(np.linalg.lstsq)
def _lstsq(a, b, rcond="warn"):
    A = _frac_matrix(a)
    S, rank = pinv_matrix(A)
    bo = emap(_num, obj(b))
    one = bo.ndim == 1
    if one:
        bo = bo[:, None]
    k, n = len(S), len(A)
    x = np.empty((k, bo.shape[1]), dtype=object)
    res = np.empty((bo.shape[1],), dtype=object)
    for j in range(bo.shape[1]):
        nan = bor(*[v.nan for v in bo[:, j]]) if n else FALSE
        if any(v.inf is not FALSE for v in bo[:, j]):
            raise Unsupported("least squares of infinite values")
        for i in range(k):
            p = T.P0
            for r in range(n):
                p = T.padd(p, T.pscale(bo[r, j].p, S[i][r]))
            x[i, j] = Num(p, nan)
        acc = T.P0
        if n > k and rank == k:
            for r in range(n):
                e = bo[r, j].p
                for i in range(k):
                    e = T.psub(e, T.pscale(x[i, j].p, A[r][i]))
                acc = T.padd(acc, T.pmul(e, e))
        res[j] = Num(acc, nan)
    X = SymArray(x[:, 0] if one else x, F8)
    R = SymArray(res, F8) if (n > k and rank == k) else np.empty((0,))
    fl = np.array([[float(v) for v in r] for r in A])
    sv = np.linalg.svd(fl, compute_uv=False)
    return X, R, rank, sv


@implements(np.linalg.solve)
def _solve(a, b):
    A = _frac_matrix(a)
    n = len(A)
    I = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    inv = _solve_frac(A, I)
    if inv is None:
        raise np.linalg.LinAlgError("Singular matrix")
    M = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            M[i, j] = Num(T.pconst(inv[i][j]))
    return _dot(SymArray(M, F8), b)


@implements(np.linalg.inv)
def _inv(a):
    A = _frac_matrix(a)
    n = len(A)
    I = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    inv = _solve_frac(A, I)
    if inv is None:
        raise np.linalg.LinAlgError("Singular matrix")
    return np.array([[float(v) for v in r] for r in inv])


@implements(np.linalg.pinv)
def _pinv(a, *args, **kw):
    S, _ = pinv_matrix(_frac_matrix(a))
    return np.array([[float(v) for v in r] for r in S])


@implements(np.polyfit)
def _polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    if w is not None or cov:
        raise Unsupported("polyfit weights")
    xs = _frac_matrix([list(obj(x).ravel())])[0]
    A = [[v ** (deg - k) for k in range(deg + 1)] for v in xs]
    M = np.empty((len(A), deg + 1), dtype=object)
    for i, r in enumerate(A):
        for j, v in enumerate(r):
            M[i, j] = Num(T.pconst(v))
    c, res, rank, sv = _lstsq(SymArray(M, F8), y)
    return (c, res, rank, sv, rcond) if full else c


@implements(np.polyval)
def _polyval(p, x):
    r = 0.0
    for i in range(obj(p).shape[0]):
        c = as_sym(obj(p)[i])
        r = r * x + c
    return r


@implements(np.apply_along_axis)
def _aaa(func1d, axis, arr, *args, **kw):
    A = as_sym(arr)
    t = np.moveaxis(A, axis, -1)
    outs = {}
    shp = None
    for idx in np.ndindex(*t.shape[:-1]):
        r = func1d(t[idx], *args, **kw)
        ro = obj(r)
        outs[idx] = ro
        shp = ro.shape
    res = np.empty(t.shape[:-1] + shp, dtype=object)
    for idx, ro in outs.items():
        res[idx] = ro if ro.ndim else ro[()]
    if len(shp) == 0:
        return wrap(res)
    ax = axis % A.ndim
    for _ in range(len(shp)):
        pass
    return wrap(np.moveaxis(res, tuple(range(-len(shp), 0)), tuple(range(ax, ax + len(shp)))))


@implements(np.trapz)
def _trapz(y, x=None, dx=1.0, axis=-1):
    d = dx
    Y = as_sym(y)
    if x is not None:
        X = as_sym(x)
        d = np.diff(X, axis=axis if X.ndim > 1 else -1)
        if X.ndim == 1:
            shape = [1] * Y.ndim
            shape[axis] = d.shape[0]
            d = d.reshape(shape)
    s1 = [slice(None)] * Y.ndim
    s2 = [slice(None)] * Y.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    return (d * (Y[tuple(s1)] + Y[tuple(s2)]) / 2.0).sum(axis)


@implements(np.diff)
def _diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    A = as_sym(a)
    parts = []
    if prepend is not np._NoValue:
        pp = as_sym(prepend)
        if pp.ndim == 0:
            sh = list(A.shape)
            sh[axis] = 1
            pp = np.broadcast_to(pp, tuple(sh))
        parts.append(pp)
    parts.append(A)
    if append is not np._NoValue:
        pp = as_sym(append)
        if pp.ndim == 0:
            sh = list(A.shape)
            sh[axis] = 1
            pp = np.broadcast_to(pp, tuple(sh))
        parts.append(pp)
    if len(parts) > 1:
        A = np.concatenate(parts, axis=axis)
    for _ in range(n):
        s1 = [slice(None)] * A.ndim
        s2 = [slice(None)] * A.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        A = A[tuple(s1)] - A[tuple(s2)]
    return A


@implements(np.isin)
def _isin(element, test_elements, assume_unique=False, invert=False, **kw):
    te = [v for v in obj(test_elements).ravel()]

    def f(v):
        r = bor(*[N.eq(_num(v), _num(w)) for w in te])
        return bnot(r) if invert else r
    return wrap(emap(f, obj(element)), BO)


@implements(np.array2string, np.array_repr, np.array_str)
def _repr(a, *args, **kw):
    return repr(a)


@implements(np.may_share_memory, np.shares_memory)
def _share(a, b, max_work=None):
    return np.may_share_memory(obj(a), obj(b))


def as_sym(x, dtype=None):
    if isinstance(x, SymArray):
        return x if dtype is None else x.astype(dtype)
    return wrap(obj(x), dtype if dtype is not None else {"b": BO, "i": I8, "u": I8}.get(kind_of(x), F8), concretize=False)


_STRUCT = {
    "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "transpose", "moveaxis",
    "reshape", "take", "broadcast_to", "broadcast_arrays", "expand_dims", "squeeze", "roll", "rollaxis",
    "tile", "repeat", "flip", "fliplr", "flipud", "rot90", "split", "array_split", "hsplit", "vsplit",
    "dsplit", "pad", "diagonal", "ravel", "atleast_1d", "atleast_2d", "atleast_3d", "swapaxes", "insert",
    "delete", "append", "take_along_axis", "block", "choose", "compress", "extract", "diag", "tril", "triu",
    "meshgrid", "sliding_window_view", "resize", "trim_zeros", "put_along_axis",
}


def _unwrap_args(x):
    if isinstance(x, (SymArray,)):
        return x.a
    if isinstance(x, list):
        return [_unwrap_args(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(_unwrap_args(v) for v in x)
    if isinstance(x, dict):
        return {k: _unwrap_args(v) for k, v in x.items()}
    return x


def _wrap_out(r, bk):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return wrap(r, bk)
    if isinstance(r, (list, tuple)):
        return type(r)(_wrap_out(v, bk) for v in r)
    if isinstance(r, (Num, B)):
        return wrap(r)
    return r


def _kinds(x, acc):
    if isinstance(x, (SymArray, np.ndarray)):
        acc.add(x.dtype.kind)
    elif isinstance(x, (list, tuple)):
        for v in x:
            _kinds(v, acc)


def array_function(func, types, args, kwargs):
    if any(t.__module__.startswith("dask") for t in types):
        return NotImplemented
    f = FUNCS.get(func)
    if f is not None:
        return f(*args, **kwargs)
    name = getattr(func, "__name__", "?")
    if name in _STRUCT:
        ks = set()
        _kinds(args[:1] if name not in ("where",) else args, ks)
        bk = None
        if ks and ks <= {"b"}:
            bk = BO
        elif ks and ks <= {"b", "i", "u"}:
            bk = I8
        elif ks and ks <= {"b", "i", "u", "f"}:
            bk = F8
        a = _unwrap_args(args)
        k = _unwrap_args(kwargs)
        # object-dtype companions, so that numpy does not try to cast symbols
        if name in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "block", "append", "insert"):
            a = _objify(a)
        r = func(*a, **k)
        return _wrap_out(r, bk)
    impl = getattr(func, "_implementation", None) or getattr(func, "__wrapped__", None)
    if impl is not None and hasattr(impl, "__code__"):
        return impl(*args, **kwargs)
    raise Unsupported(f"numpy function {name}")


def _objify(x):
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "fbiu":
        return x.astype(object)
    if isinstance(x, list):
        return [_objify(v) for v in x]
    if type(x) is tuple:
        return tuple(_objify(v) for v in x)
    return x


# -------------------------------------------------------------------- class
LOOSE = [False]     # hand out object arrays where a plain array is asked for (pandas frames)


class SymArray:
    __array_priority__ = 2000
    __slots__ = ("a", "dtype", "__weakref__")

    def __init__(self, a, dtype=F8):
        self.a = a
        self.dtype = np.dtype(dtype)

    @staticmethod
    def of(o, like):
        """object array with the dtype class of `like`"""
        k = kind_of(like)
        d = like.dtype if k == "f" and getattr(getattr(like, "dtype", None), "kind", "") == "f" else F8
        return wrap(o, {"b": BO, "i": I8, "u": I8}.get(k, d), concretize=False)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        if self.a.size and not all(
            (v.kind == "const") if isinstance(v, B) else v.is_const() for v in self.a.ravel()
        ):
            if dtype == object or (LOOSE[0] and dtype is None):
                return self.a
            if self.dtype.kind == "b":
                # one path per outcome
                o = np.empty(self.shape, dtype=bool)
                for i in np.ndindex(*self.shape):
                    o[i] = bool(self.a[i])
                return o
            raise Unsupported("conversion of symbolic data to a plain array")
        o = np.empty(self.shape, dtype=self.dtype if dtype is None else dtype)
        for i in np.ndindex(*self.shape):
            v = self.a[i]
            o[i] = v.args[0] if isinstance(v, B) else v.concrete()
        return o

    shape = property(lambda s: s.a.shape, lambda s, v: setattr(s, "a", s.a.reshape(v)))
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    nbytes = property(lambda s: s.a.size * 8)
    itemsize = property(lambda s: s.dtype.itemsize)
    real = property(lambda s: s)
    flat = property(lambda s: iter([wrap(v, s.dtype, False) for v in s.a.ravel()]))

    @property
    def T(self):
        return SymArray(self.a.T, self.dtype)

    @property
    def flags(self):
        return self.a.flags

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __hash__(self):
        raise TypeError("unhashable")

    def __repr__(self):
        return f"SymArray({self.shape}, {self.dtype})"

    def __format__(self, spec):
        return format(self.item(), spec) if self.ndim == 0 else repr(self)

    def _key(self, k):
        def one(x):
            if isinstance(x, SymArray):
                if x.dtype.kind == "b":
                    return conc_bool(x)
                return np.asarray(x.__array__()).astype(int)
            if isinstance(x, (Num,)):
                return x.__index__()
            if isinstance(x, B):
                return bool(x)
            if isinstance(x, list) and any(is_sym(v) for v in x):
                return one(as_sym(np.array(x, dtype=object)))
            if isinstance(x, tuple) and False:
                return x
            return x
        if isinstance(k, tuple):
            return tuple(one(x) for x in k)
        return one(k)

    def __getitem__(self, k):
        r = self.a[self._key(k)]
        if isinstance(r, np.ndarray):
            return SymArray(r, self.dtype)
        o = np.empty((), dtype=object)
        o[()] = r
        return SymArray(o, self.dtype)

    def __setitem__(self, k, v):
        knd = "b" if self.dtype.kind == "b" else "f"
        if isinstance(k, SymArray) and k.dtype.kind == "b" and np.ndim(v if not hasattr(v, "dims") else v.data) == 0:
            vv = obj(v)[()]
            m = k.a
            if m.shape != self.a.shape:
                m = m.reshape(m.shape + (1,) * (self.a.ndim - m.ndim))
            r = sym_where(SymArray(np.broadcast_to(m, self.a.shape), BO), wrap(vv, None, False), self)
            self.a[...] = emap(lambda x: _elem(x, knd), obj(r))
            return
        vo = emap(lambda x: _elem(x, knd), obj(v))
        if self.dtype.kind in "iu" and kind_of(v) == "f":
            vo = emap(N.trunc, vo)
        kk = self._key(k)
        if vo.ndim and vo.size == 1 and not isinstance(self.a[kk], np.ndarray):
            vo = vo.reshape(())
        self.a[kk] = vo if vo.ndim else vo[()]

    def item(self, *args):
        if args:
            v = self.a.item(*args)
        else:
            v = self.a.reshape(-1)[0] if self.size == 1 else None
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
        if isinstance(v, B) and v.kind == "const":
            return v.args[0]
        return v

    def tolist(self):
        return self.a.tolist()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(_tb(self.a.reshape(-1)[0]))

    def __float__(self):
        return float(_num(self.item()))

    def __int__(self):
        return int(_num(self.item()))

    def __index__(self):
        return self.item().__index__()

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt == self.dtype:
            return self.copy() if copy else self
        if dt == object:
            return self.a.copy()
        if dt.kind == "f":
            if self.dtype.kind == "b":
                return SymArray(emap(lift, self.a), dt)
            if dt.itemsize < 8 and self.dtype.kind == "f" and self.dtype.itemsize == 8:
                from . import engine
                return SymArray(emap(lambda v: engine.round_rel(v, Fraction(1, 2**24) if dt.itemsize == 4 else Fraction(1, 2**11)), self.a), dt)
            return SymArray(self.a.copy() if copy else self.a, dt)
        if dt.kind in "iu":
            if self.dtype.kind == "b":
                return SymArray(emap(lift, self.a), dt)
            if self.dtype.kind in "iu":
                return SymArray(self.a.copy(), dt)
            return SymArray(emap(lambda v: N.trunc(_num(v)), self.a), dt)
        if dt.kind == "b":
            return wrap(emap(_tb, self.a), BO)
        raise Unsupported(f"astype({dt})")

    def copy(self, order="C"):
        return SymArray(self.a.copy(), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        return self

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return SymArray(self.a.reshape(shape, order=order), self.dtype)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
            return SymArray(self.a.transpose(axes), self.dtype)
        return SymArray(self.a.transpose(*axes), self.dtype)

    def swapaxes(self, a, b):
        return SymArray(self.a.swapaxes(a, b), self.dtype)

    def ravel(self, order="C"):
        return SymArray(self.a.ravel(order), self.dtype)

    def flatten(self, order="C"):
        return SymArray(self.a.flatten(order), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.dtype)

    def take(self, indices, axis=None, out=None, mode="raise"):
        r = self.a.take(self._key(indices), axis=axis, mode=mode)
        return wrap(r, self.dtype, False)

    def repeat(self, repeats, axis=None):
        return SymArray(self.a.repeat(repeats, axis), self.dtype)

    def fill(self, v):
        self[...] = v

    def tobytes(self):
        raise Unsupported("tobytes of symbolic data")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np.sum(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return np.mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return np.min(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False):
        return np.max(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return np.any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return np.all(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **kw):
        return np.prod(self, axis=axis)

    def cumsum(self, axis=None, **kw):
        return np.cumsum(self, axis=axis)

    def argmin(self, axis=None, out=None):
        return np.argmin(self, axis=axis)

    def argmax(self, axis=None, out=None):
        return np.argmax(self, axis=axis)

    def argsort(self, axis=-1, kind=None):
        return np.argsort(self, axis=axis)

    def nonzero(self):
        return np.nonzero(self)

    def clip(self, min=None, max=None, **kw):
        return np.clip(self, min, max)

    def round(self, decimals=0):
        return np.round(self, decimals)

    def dot(self, o):
        return np.dot(self, o)

    def conj(self):
        return self

    conjugate = conj

    def __complex__(self):
        raise Unsupported("complex()")


def _op(uf, swap=False):
    if swap:
        def f(self, o):
            if hasattr(o, "__array_ufunc__") and getattr(o, "__array_ufunc__") is None:
                return NotImplemented
            if hasattr(o, "dims"):
                return NotImplemented
            return uf(o, self)
    else:
        def f(self, o):
            if hasattr(o, "dims") or type(o).__module__.startswith("pandas"):
                return NotImplemented
            return uf(self, o)
    return f


def _iop(uf):
    def f(self, o):
        r = uf(self, o)
        self.a[...] = obj(r) if self.dtype.kind != "b" else emap(_tb, obj(r))
        return self
    return f


for _n, _u in {
    "add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.divide,
    "floordiv": np.floor_divide, "mod": np.remainder, "pow": np.power,
    "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor,
}.items():
    setattr(SymArray, f"__{_n}__", _op(_u))
    setattr(SymArray, f"__r{_n}__", _op(_u, True))
    setattr(SymArray, f"__i{_n}__", _iop(_u))
for _n, _u in {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
               "eq": np.equal, "ne": np.not_equal}.items():
    setattr(SymArray, f"__{_n}__", _op(_u))
SymArray.__matmul__ = lambda s, o: np.dot(s, o)
SymArray.__rmatmul__ = lambda s, o: np.dot(as_sym(o), s)
SymArray.__neg__ = lambda s: np.negative(s)
SymArray.__pos__ = lambda s: s
SymArray.__abs__ = lambda s: np.absolute(s)
SymArray.__invert__ = lambda s: np.invert(s)


# ------------------------------------------------------------------ patches
def _contains(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_contains(v, depth + 1) for v in x)
    if type(x).__name__ in ("DataArray", "Variable", "IndexVariable") and hasattr(x, "dims"):
        return _contains(getattr(x, "variable", x)._data, depth)
    if type(x).__name__ == "PandasIndexingAdapter":
        return x.array.dtype == object and _contains(x.array.values, depth)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size and depth < 4:
        return any(isinstance(v, (Num, B, SymArray)) for v in x.ravel())
    return False


def _build(x):
    """nested sequence with symbols -> object ndarray"""
    if isinstance(x, (list, tuple)):
        parts = [_build(v) for v in x]
        parts = [p if isinstance(p, np.ndarray) else obj(p) for p in parts]
        if not parts:
            return np.empty((0,), dtype=object)
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    return obj(x)


_ORIG = {}


def _caller():
    return sys._getframe(2).f_globals.get("__name__", "")


def _undask(x):
    if type(x).__module__ == "dask.array.core" and hasattr(x, "compute"):
        return x.compute(scheduler="synchronous")
    if type(x) in (list, tuple) and any(type(v).__module__ == "dask.array.core" or type(v) in (list, tuple) for v in x):
        return type(x)(_undask(v) for v in x)
    return x


def _mk_asarray(name):
    orig = getattr(np, name)

    @functools.wraps(orig)
    def patched(a, dtype=None, *args, **kw):
        if not _caller().startswith(("dask", "numpy")):
            a = _undask(a)
        if _contains(a) and not (isinstance(a, np.ndarray) and _caller().startswith(("numpy", "symlev"))):
            if _caller().startswith("pandas"):
                return _pandas_obj(a)
            if type(a).__name__ == "PandasIndexingAdapter":
                return wrap(a.array.values, None, concretize=False)
            o = _build(a)
            d = a if isinstance(a, SymArray) else None
            if d is None and hasattr(a, "dims"):
                d = a.data
            if d is not None and isinstance(d, SymArray):
                r = d.copy() if name == "array" and kw.get("copy", True) else d
            else:
                r = wrap(o, None, concretize=False)
            if dtype is not None and np.dtype(dtype) == object:
                return o
            if dtype is not None and isinstance(r, SymArray):
                r = r.astype(dtype, copy=False)
            nd = kw.get("ndmin", 0)
            while r.ndim < nd:
                r = r[None]
            return r
        if isinstance(kw.get("like"), SymArray):
            kw = {k: v for k, v in kw.items() if k != "like"}
        if dtype is None:
            return orig(a, *args, **kw)
        return orig(a, dtype, *args, **kw)
    return orig, patched


def _pandas_obj(a):
    o = _build(a)
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        v = o[i]
        if isinstance(v, B):
            v = bool(v)
        elif isinstance(v, Num):
            if v.nan is not FALSE:
                v = float("nan") if bool(v.nan) else Num(v.p, FALSE, v.inf)
            if isinstance(v, Num) and v.is_const():
                v = v.concrete()
        out[i] = v
    return out


def _full(shape, fill, dtype=None):
    shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
    o = np.empty(shape, dtype=object)
    fo = obj(fill)
    o[...] = np.broadcast_to(fo, shape)
    dt = np.dtype(dtype) if dtype is not None else {"b": BO, "i": I8, "u": I8}.get(kind_of(fill), F8)
    return wrap(o, dt, concretize=False)


def _mk_creator(name):
    orig = getattr(np, name)

    @functools.wraps(orig)
    def patched(shape, *args, **kw):
        c = _caller()
        if c.startswith("momlevel") or c == "xarray.core.nputils":
            if name == "full":
                fill = args[0] if args else kw.get("fill_value")
                rest = args[1:]
            else:
                fill = {"empty": float("nan"), "zeros": 0.0, "ones": 1.0}[name]
                rest = args
            dt = rest[0] if rest else kw.get("dtype")
            if is_sym(fill) or np.dtype(dt if dt is not None else getattr(fill, "dtype", type(fill))).kind == "f":
                return _full(shape, fill, dt)
        return orig(shape, *args, **kw)
    return orig, patched


def _sym_push(array, n=None, axis=-1):
    A = as_sym(array)
    t = np.moveaxis(A.a, axis, 0)
    r = t.copy()
    L = t.shape[0]
    lim = L if n is None else n
    for idx in np.ndindex(*t.shape[1:]):
        for i in range(L):
            v = _num(t[(i,) + idx])
            acc = N.NAN
            for j in range(max(0, i - lim), i + 1):
                w = _num(t[(j,) + idx])
                acc = N.ite(w.nan, acc, w)
            r[(i,) + idx] = acc
    return SymArray(np.moveaxis(r, 0, axis), A.dtype)


# float() and int() as the package under test sees them: a symbol stays a symbol
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Num))

    def __call__(cls, x=0.0):
        if isinstance(x, Num):
            return x
        d = getattr(x, "data", x)
        if isinstance(d, SymArray) and d.size == 1:
            return _num(d.item())
        return float(x)


class _Float(float, metaclass=_FloatMeta):
    dtype = np.dtype(float)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if a:
            return int(x, *a)
        d = getattr(x, "data", x)
        if isinstance(d, SymArray) and d.size == 1:
            x = _num(d.item())
        if isinstance(x, Num) and not x.is_const():
            if bool(x.nan):
                raise ValueError("cannot convert float NaN to integer")
            return N.trunc(x)
        return int(x)


class _Int(int, metaclass=_IntMeta):
    dtype = np.dtype(int)


def _package():
    return [m for k, m in list(sys.modules.items()) if m is not None and (k == "momlevel" or k.startswith("momlevel."))]


_active = [0]


def activate():
    if _active[0]:
        _active[0] += 1
        return
    _active[0] = 1
    d = sys.modules.get("dask.array")
    if d is not None:
        d.register_chunk_type(SymArray)
        d.register_chunk_type(Num)
        sys.modules["dask"].config.set(scheduler="synchronous")
    for n in ("array", "asarray", "asanyarray", "ascontiguousarray"):
        orig, p = _mk_asarray(n)
        _ORIG[n] = orig
        setattr(np, n, p)
    for n in ("empty", "zeros", "ones", "full"):
        orig, p = _mk_creator(n)
        _ORIG[n] = orig
        setattr(np, n, p)
    for m in _package():
        for nm, v in (("float", _Float), ("int", _Int)):
            if nm not in m.__dict__:
                m.__dict__[nm] = v
    import xarray.core.duck_array_ops as dao

    _ORIG["dao"] = {}
    for nm in ("push", "_push"):
        f = getattr(dao, nm, None)
        if f is None:
            continue
        _ORIG["dao"][nm] = f

        def g(array, n=None, axis=-1, *args, _f=f, **kw):
            if isinstance(array, SymArray):
                return _sym_push(array, n, axis)
            return _f(array, n, axis, *args, **kw)
        setattr(dao, nm, g)


def deactivate():
    _active[0] -= 1
    if _active[0]:
        return
    for n, f in _ORIG.items():
        if n == "dao":
            import xarray.core.duck_array_ops as dao

            for nm, g in f.items():
                setattr(dao, nm, g)
        else:
            setattr(np, n, f)
    _ORIG.clear()
    for m in _package():
        for nm, v in (("float", _Float), ("int", _Int)):
            if m.__dict__.get(nm) is v:
                del m.__dict__[nm]


class active:
    def __enter__(self):
        activate()

    def __exit__(self, *a):
        deactivate()
