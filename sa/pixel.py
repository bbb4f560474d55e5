"""
The pixelwise abstraction of arrays.

A ``PixV`` stands for an array by one representative pixel: its value is a
number term (or missing), every elementwise operation is an operation on this
number, and a boolean array is a condition on it.  A boolean index splits the
trace into the pixels that it selects and the others, so a property of the
representative pixel on all traces is a property of all pixels.
"""
from fractions import Fraction

from . import terms as T
from . import interp as I
from . import models as M
from . import images as G
from .terms import App, Sym

RANGES = {
    'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535), 'int16': (-32768, 32767),
    'uint32': (0, 2 ** 32 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1), 'int64': (-2 ** 63, 2 ** 63 - 1), 'uint64': (0, 2 ** 64 - 1),
}
FLOATS = ('float16', 'float32', 'float64')
NAN, INF, NINF = 'nan', 'inf', '-inf'


def dt(it, v):
    """(name, kind) of a dtype argument."""
    if isinstance(v, DT):
        return v
    if isinstance(v, PixV):
        return v.dt
    name = v.name.split('.')[-1] if isinstance(v, I.ExtV) else v if isinstance(v, str) else None
    if name in ('bool', 'bool_'):
        return DT('bool', 'b')
    if name == 'float':
        return DT('float64', 'f')
    if name == 'int':
        return DT('int64', 'i')
    if name in RANGES:
        return DT(name, 'u' if name[0] == 'u' else 'i')
    if name in FLOATS:
        return DT(name, 'f')
    if isinstance(v, (Sym, App)):
        return DT(T.keyof(v), 'f')        # an opaque dtype is a floating one (see the scenarios)
    raise I.Unsupported('dtype %r' % (v,))


class DT:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind

    key = property(lambda self: 'dtype:' + self.name)

    def freeze(self):
        return App('dt', (self.name,))

    def abs_getattr(self, it, name):
        if name == 'kind':
            return self.kind
        if name == 'name':
            return self.name
        if name == 'type':
            return self
        if name == 'itemsize':
            raise I.Unsupported('itemsize')
        raise I.Unsupported('dtype attribute ' + name)

    def abs_equal(self, it, other):
        try:
            return dt(it, other).name == self.name
        except I.Unsupported:
            return False

    def abs_is_none(self, it):
        return False

    def abs_truth(self, it):
        return True


class InfoV:
    """numpy.iinfo and numpy.finfo"""

    def __init__(self, d):
        self.d = d

    key = property(lambda self: 'info:' + self.d.name)

    def abs_getattr(self, it, name):
        if self.d.kind in 'iu':
            lo, hi = RANGES[self.d.name]
            v = {'min': lo, 'max': hi, 'kind': self.d.kind, 'dtype': self.d, 'bits': hi.bit_length() + (self.d.kind == 'i')}
        else:
            big = {'float16': 65504, 'float64': 2 ** 1023}.get(self.d.name, 2 ** 127)
            v = {'min': -big, 'max': big, 'kind': self.d.kind, 'dtype': self.d, 'eps': Fraction(1, 2 ** 23)}
        if name in v:
            return v[name]
        raise I.Unsupported('info.' + name)


class PixV(I.Heap):
    is_array = True
    def __init__(self, value, d, masked=False, region=None, ndim=3):
        self.cell = [value]
        self.dt = d
        self.masked = masked
        self.region = region or G.Region('fresh', 'fresh')
        self.ndim = ndim
        self.fresh_id()

    owner = property(lambda self: self.region.owner)
    label = property(lambda self: self.region.label)
    value = property(lambda self: self.cell[0])
    key = property(lambda self: 'pix%d' % self.hid)

    def __repr__(self):
        return '<pixels %s %s>' % (self.dt.name, self.value if isinstance(self.value, (str, bool)) else T.keyof(self.value)[:120])

    def freeze(self):
        return App('pix', (self.value if isinstance(self.value, str) else self.value,))

    def like(self, value, d=None, masked=None):
        return PixV(value, d or self.dt, self.masked if masked is None else masked, None, self.ndim)

    def reduced(self, s, a, k, d):
        """The result s of a reduction, over one axis or all."""
        axis = k.get('axis', a[0] if a else None)
        if axis is None:
            return s
        n = 1 if not isinstance(axis, tuple) else len(axis)
        return PixV(s, d, False, None, self.ndim if k.get('keepdims') is True else self.ndim - n)

    # -- protocol
    def abs_is_none(self, it):
        return False

    def abs_truth(self, it):
        raise I.Unsupported('truth of an array')

    def abs_isinstance(self, it, c):
        if isinstance(c, I.ExtV):
            if c.name.endswith('MaskedArray'):
                return self.masked
            return c.name == 'numpy.ndarray'
        return False

    def abs_hasattr(self, it, name):
        if name in ('mask', 'filled', 'fill_value'):
            return self.masked
        return name in ('dtype', 'shape', 'astype', 'ndim', 'copy', 'clip', '__array__')

    def abs_getattr(self, it, name):
        if name == 'dtype':
            return self.dt
        if name == 'ndim':
            return self.ndim
        if name == 'shape':
            return tuple(T.to_poly(it.sym('n', 'int', lo=1)) for _ in range(self.ndim))
        if name == 'astype':
            def astype(it, a, k):
                r = cast(it, self, dt(it, a[0] if a else k['dtype']))
                copy = k.get('copy', True)
                if copy is False and r.dt.name == self.dt.name:
                    return self
                return r
            return M.bi(name, astype)
        if name == 'copy':
            return M.bi(name, lambda it, a, k: self.like(self.value))
        if name == 'clip':
            return M.bi(name, lambda it, a, k: clip(it, [self] + list(a), k))
        if name == 'round':
            return M.bi(name, lambda it, a, k: FUNCS['round'](it, [self], {}))
        if name == 'fill':
            def fill(it, a, k):
                it.write_check(self, 'arrwrite', 'fill')
                self.cell[0] = scalar(it, a[0])
            return M.bi(name, fill)
        if name == 'data':
            return PixV(self.value, self.dt, False, self.region, self.ndim)
        if name in ('any', 'all'):
            # whether any pixel has it is not decided by one pixel
            v = self.value

            def red(it, a, k):
                s = it.sym(name, 'bool')
                if isinstance(v, (bool, App, Sym)):
                    here = it.truth(v)
                    if name == 'any' and here:
                        s = True
                    if name == 'all' and not here:
                        s = False
                return self.reduced(s, a, k, DT('bool', 'b'))
            return M.bi(name, red)
        if name in ('min', 'max'):
            def extremum(it, a, k):
                # the other pixels are free: anything up to / from this one
                if isinstance(self.value, (str, bool)):
                    raise I.Unsupported('extremum of %s' % self.value)
                s = T.to_poly(it.sym(name, 'int' if self.dt.kind in 'iu' else 'float'))
                it.assume(it.rel('<=' if name == 'min' else '>=', s, self.value))
                return self.reduced(s, a, k, self.dt)
            return M.bi(name, extremum)
        raise I.Unsupported('array attribute ' + name)

    def abs_setattr(self, it, name, v):
        if self.owner != 'fresh':
            it.effect('arrwrite', self, '.' + name)
        raise I.Unsupported('array attribute assignment')

    def abs_getitem(self, it, i):
        if G.full_slice(i) or i is Ellipsis:
            r = PixV(self.value, self.dt, self.masked, self.region, self.ndim)
            r.cell = self.cell
            return r
        if isinstance(i, tuple) and all(G.full_slice(x) or x is Ellipsis or x is None for x in i):
            r = PixV(self.value, self.dt, self.masked, self.region, self.ndim + sum(x is None for x in i))
            r.cell = self.cell
            return r
        if isinstance(i, PixV):
            return PixSel(self, i)
        raise I.Unsupported('index of pixels')

    def abs_setitem(self, it, i, v):
        it.write_check(self, 'arrwrite', '[...] = of an array that is not its own')
        if isinstance(i, PixV):
            if isinstance(v, PixSel):
                if v.sel is not i:
                    raise I.Unsupported('assignment under different masks')
                v = v.img
            if it.truth(i.value):
                self.put(it, v)
        elif G.full_slice(i) or i is Ellipsis:
            self.put(it, v)
        else:
            raise I.Unsupported('index of pixels')

    def put(self, it, v):
        d = self.dt
        if isinstance(v, PixV):
            self.cell[0] = cast(it, v, d).value
            return
        v = scalar(it, v)
        if v == NAN and d.kind != 'f':
            it.raise_('ValueError', 'cannot convert float NaN to integer')
        if not isinstance(v, str) and d.kind in 'iu' and not T.is_int_val(v):
            v = T.rounding('trunc', v)
        self.cell[0] = v

    def abs_inplace(self, it, op, val):
        it.write_check(self, 'arrwrite', 'in place %s' % op)
        r = arith(it, op, self, val)
        if self.dt.kind in 'iu' and r.dt.kind == 'f':
            it.raise_('TypeError', 'cannot cast float to integer in place')
        self.cell[0] = r.value
        return self

    def abs_binop(self, it, op, other, swapped):
        return arith(it, op, other, self) if swapped else arith(it, op, self, other)

    def abs_compare(self, it, op, other):
        a, b = self.value, scalar(it, other)
        if INF in (a, b) or NINF in (a, b):
            rank = lambda v: -1 if v == NINF else 1 if v == INF else 0
            if NAN not in (a, b):
                return self.like(it.rel(op, rank(a), rank(b)), DT('bool', 'b'))
        if a == NAN or b == NAN:
            return self.like(op in ('!=', 'NotEq'), DT('bool', 'b'))
        return self.like(it.rel(op, a, b), DT('bool', 'b'))

    def abs_equal(self, it, other):
        if other is None or isinstance(other, str):
            return False
        return self.abs_compare(it, '==', other)

    def abs_not(self, it):
        v = self.value
        return self.like(not v if isinstance(v, bool) else it.not_(v), DT('bool', 'b'))

    abs_invert = abs_not

    def abs_neg(self, it):
        return self.like(NAN if self.value == NAN else T.neg(self.value))


class PixSel:
    """array[boolean array]"""

    def __init__(self, img, sel):
        self.img, self.sel = img, sel

    key = property(lambda self: 'sel(%s)' % self.img.key)

    def abs_binop(self, it, op, other, swapped):
        o = other.img if isinstance(other, PixSel) else other
        return PixSel(self.img.abs_binop(it, op, o, swapped), self.sel)

    def abs_getattr(self, it, name):
        f = self.img.abs_getattr(it, name)
        if isinstance(f, I.Builtin):
            return M.bi(name, lambda it, a, k: PixSel(f.fn(it, a, k), self.sel))
        return f

    def abs_inplace(self, it, op, val):
        # x[m] op= v  is  x[m] = x[m] op v
        return self.abs_binop(it, op, val, False)


def scalar(it, v):
    if isinstance(v, PixSel):
        v = v.img
    if isinstance(v, PixV):
        return v.value
    if isinstance(v, str):
        return v
    if isinstance(v, float) and v != v:
        return NAN
    if isinstance(v, I.ExtV) and v.name in ('numpy.nan', 'math.nan'):
        return NAN
    return it.asnum(v)


def cast(it, p, d):
    v = p.value
    if d.kind in 'iu':
        if isinstance(v, str):
            v = T.to_poly(it.sym('garbage', 'int'))
        elif isinstance(v, bool):
            v = int(v)
        elif not T.is_int_val(v):
            v = T.rounding('trunc', v)
        if p.dt.name != d.name and p.dt.kind == 'f':
            it.cx.setdefault('casts', []).append((v, d, it.site()))
    elif d.kind == 'f' and isinstance(v, bool):
        v = int(v)
    r = PixV(v, d, p.masked, None, p.ndim)
    return r


def arith(it, op, a, b):
    pa, pb = isinstance(a, PixV), isinstance(b, PixV)
    x, y = scalar(it, a), scalar(it, b)
    ref = a if pa else b
    if isinstance(x, (bool, App)) and isinstance(y, (bool, App)) and op in ('BitAnd', 'BitOr'):
        return ref.like(G.logic('and' if op == 'BitAnd' else 'or', x, y))
    masked = (pa and a.masked) or (pb and b.masked)
    if pa and pb:
        d = a.dt if a.dt.kind == 'f' else b.dt if b.dt.kind == 'f' else a.dt
        if d.kind == 'f' and a.dt.kind == b.dt.kind == 'f' and a.dt.name != b.dt.name:
            d = DT('promoted', 'f')
    else:
        d = ref.dt
        o = y if pa else x
        if d.kind != 'f':
            if op in ('Div', 'TrueDiv', '/') or isinstance(o, str) or not T.is_int_val(o):
                d = DT('float64', 'f')
    if d.kind in 'iu' and d.name not in ('int64', 'uint64'):
        it.cx.setdefault('int arith', []).append((op, it.site()))
    elif d.kind == 'b':
        d = DT('int64', 'i')
    if op in ('Div', 'TrueDiv', '/') and d.kind != 'f':
        d = DT('float64', 'f')
    if x == NAN or y == NAN:
        return PixV(NAN, d, masked, None, ref.ndim)
    if isinstance(x, str) or isinstance(y, str):
        if op in ('Add', 'Sub') and isinstance(x, str) and not isinstance(y, str):
            return PixV(x, d, masked, None, ref.ndim)
        raise I.Unsupported('arithmetic with an infinite value')
    return PixV(it.num_binop(op, x, y), d, masked, None, ref.ndim)


def clip(it, a, k):
    v = a[0]
    lo = k.get('a_min', k.get('min', a[1] if len(a) > 1 else None))
    hi = k.get('a_max', k.get('max', a[2] if len(a) > 2 else None))
    e = v.value
    if e == INF:
        e = e if hi is None else scalar(it, hi)
    elif e == NINF:
        e = e if lo is None else scalar(it, lo)
    elif e != NAN:
        if lo is not None:
            e = it.max(e, scalar(it, lo))
        if hi is not None:
            e = it.min(e, scalar(it, hi))
    out = k.get('out', a[3] if len(a) > 3 else None)
    r = v.like(e)
    return store(it, out, r)


def store(it, out, r):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    it.write_check(out, 'arrwrite', 'out=')
    out.put(it, r)
    return out


FUNCS = {}


def fn(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


@fn('isnan')
def f_isnan(it, a, k):
    v = a[0]
    return v.like(v.value == NAN, DT('bool', 'b'))


@fn('isfinite')
def f_isfinite(it, a, k):
    return a[0].like(not isinstance(a[0].value, str), DT('bool', 'b'))


FUNCS['clip'] = clip


def _round(op):
    def f(it, a, k):
        v = a[0]
        if isinstance(v.value, str):
            return store(it, k.get('out'), v.like(v.value))
        e = T.rounding('floor', T.add(v.value, Fraction(1, 2))) if op == 'round' else T.rounding(op, v.value)
        return store(it, k.get('out'), v.like(e))
    return f


for _n, _o in (('round', 'round'), ('rint', 'round'), ('around', 'round'), ('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc'), ('fix', 'trunc')):
    FUNCS[_n] = _round(_o)


def _bin(op):
    def f(it, a, k):
        out = k.get('out', a[2] if len(a) > 2 else None)
        return store(it, out, arith(it, op, a[0], a[1]))
    return f


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('logical_and', 'BitAnd'), ('logical_or', 'BitOr')):
    FUNCS[_n] = _bin(_o)


@fn('equal')
def f_equal(it, a, k):
    p, o = (a[0], a[1]) if isinstance(a[0], PixV) else (a[1], a[0])
    return p.abs_compare(it, '==', o)


@fn('not_equal')
def f_ne(it, a, k):
    return f_equal(it, a, k).abs_not(it)


def extreme(it, op, x, y):
    if NAN in (x, y):
        return NAN
    win, lose = (INF, NINF) if op == 'max' else (NINF, INF)
    if win in (x, y):
        return win
    if lose in (x, y):
        return y if x == lose else x
    return it.max(x, y) if op == 'max' else it.min(x, y)


@fn('maximum', 'fmax')
def f_max(it, a, k):
    p = a[0] if isinstance(a[0], PixV) else a[1]
    x, y = scalar(it, a[0]), scalar(it, a[1])
    return store(it, k.get('out'), p.like(extreme(it, 'max', x, y)))


@fn('minimum', 'fmin')
def f_min(it, a, k):
    p = a[0] if isinstance(a[0], PixV) else a[1]
    x, y = scalar(it, a[0]), scalar(it, a[1])
    return store(it, k.get('out'), p.like(extreme(it, 'min', x, y)))


@fn('where')
def f_where(it, a, k):
    c, x, y = a
    if not isinstance(c, PixV):
        raise I.Unsupported('where')
    v = x if it.truth(c.value) else y
    o = y if v is x else x
    if isinstance(v, PixV):
        if isinstance(o, PixV) and o.dt.name != v.dt.name:
            if o.dt.kind == 'f' or v.dt.kind == 'f':
                return PixV(v.value, o.dt if o.dt.kind == 'f' else v.dt, False, None, v.ndim)
        elif scalar(it, o) == NAN and v.dt.kind != 'f':
            return PixV(v.value, DT('float64', 'f'), False, None, v.ndim)
        return PixV(v.value, v.dt, False, None, v.ndim)
    s = scalar(it, v)
    d = o.dt if isinstance(o, PixV) else DT('float64', 'f')
    if s == NAN and d.kind != 'f':
        d = DT('float64', 'f')
    return PixV(s, d, False, None, c.ndim)


@fn('copyto')
def f_copyto(it, a, k):
    dst, src = a[0], a[1]
    it.write_check(dst, 'arrwrite', 'copyto')
    w = k.get('where')
    if w is None or it.truth(w.value):
        dst.put(it, src)


@fn('putmask', 'place')
def f_putmask(it, a, k):
    dst, m, src = a[:3]
    it.write_check(dst, 'arrwrite', 'putmask')
    if it.truth(m.value):
        dst.put(it, src)


@fn('asarray', 'asanyarray', 'array', 'ascontiguousarray')
def f_asarray(it, a, k):
    v = a[0]
    d = k.get('dtype', a[1] if len(a) > 1 else None)
    if d is not None and dt(it, d).name != v.dt.name:
        return cast(it, v, dt(it, d))
    return v


@fn('copy')
def f_copy(it, a, k):
    return a[0].like(a[0].value)


@fn('empty_like', 'zeros_like', 'full_like', 'ones_like')
def f_like(it, a, k):
    d = k.get('dtype')
    return a[0].like(T.to_poly(it.sym('garbage')), dt(it, d) if d is not None else a[0].dt)


@fn('full_like')
def f_full(it, a, k):
    d = k.get('dtype', a[2] if len(a) > 2 else None)
    return a[0].like(scalar(it, a[1] if len(a) > 1 else k['fill_value']), dt(it, d) if d is not None else a[0].dt)


@fn('zeros_like')
def f_zeros(it, a, k):
    d = k.get('dtype', a[1] if len(a) > 1 else None)
    return a[0].like(0, dt(it, d) if d is not None else a[0].dt)


@fn('logical_not', 'invert')
def f_not(it, a, k):
    return a[0].abs_not(it)


@fn('nan_to_num')
def f_nan_to_num(it, a, k):
    v = a[0]
    r = v.like(scalar(it, k.get('nan', 0)) if v.value == NAN else v.value)
    return store(it, v if k.get('copy', True) is False else None, r)


PMODELS = {}


def _method(name):
    def f(it, a, k):
        return it.call(a[0].abs_getattr(it, name), list(a[1:]), k)
    return f


for _n in ('any', 'all', 'min', 'max'):
    FUNCS[_n] = _method(_n)
FUNCS['amin'], FUNCS['amax'] = FUNCS['min'], FUNCS['max']


def _wrap(name, f):
    base = G.IMODELS.get('numpy.' + name) or M.MODELS.get('numpy.' + name)

    def g(it, a, k):
        if any(isinstance(x, PixV) for x in list(a) + list(k.values())):
            return f(it, list(a), k)
        if any(isinstance(x, PixSel) for x in a):
            sel = [x.sel for x in a if isinstance(x, PixSel)][0]
            return PixSel(f(it, [x.img if isinstance(x, PixSel) else x for x in a], k), sel)
        if base is None:
            raise I.Unsupported('numpy.' + name)
        return base(it, a, k)
    return g


for _n, _f in FUNCS.items():
    PMODELS['numpy.' + _n] = _wrap(_n, _f)

PMODELS['numpy.iinfo'] = lambda it, a, k: InfoV(dt(it, a[0]))
PMODELS['numpy.finfo'] = lambda it, a, k: InfoV(dt(it, a[0]))
PMODELS['numpy.dtype'] = lambda it, a, k: dt(it, a[0])


def issubdtype(it, a, k):
    d = dt(it, a[0])
    n = a[1].name.split('.')[-1] if isinstance(a[1], I.ExtV) else str(a[1])
    if n == 'integer':
        return d.kind in 'iu'
    if n in ('floating', 'inexact'):
        return d.kind == 'f'
    if n == 'unsignedinteger':
        return d.kind == 'u'
    if n == 'signedinteger':
        return d.kind == 'i'
    raise I.Unsupported('issubdtype')


PMODELS['numpy.issubdtype'] = issubdtype
