"""
The abstract domain of raster files and of the buffers they are read into.

A raster file has a known number of bands and overview levels and symbolic
sizes.  A ``RasterV`` is a buffer with a concrete number of band cells in some
axis order; the content of each cell says which window of which band at which
level it holds.  Views share their cells, so that a read into a view or an
in place comparison is seen through all of them.
"""
from . import terms as T
from . import interp as I
from . import models as M
from . import images as G
from .terms import Sym, App
from .images import DTypeV, dtype_of
from . import dtypes as DT

RMODELS = {}


def rmodel(*names):
    def deco(f):
        for n in names:
            base = G.IMODELS.get(n) or M.MODELS.get(n)

            def g(it, a, k, f=f, base=base, n=n):
                r = f(it, a, k)
                if r is NotImplemented:
                    if base is None:
                        raise I.Unsupported(n)
                    return base(it, a, k)
                return r
            RMODELS[n] = g
        return f
    return deco


class Cell:
    """The memory of one band."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


BOOL = DTypeV(App('dt', ('bool',)), 'b')


class RasterV(I.Heap):
    is_array = True
    def __init__(self, cells, axes, hw, dtype, mask=None, flip=None):
        self.cells = list(cells)
        self.axes = tuple(axes)
        self.h, self.w = hw
        self.dtype = dtype
        self.mask = mask            # None, a RasterV of the same axes
        self.via = ()               # the types that the values were converted from
        self.owner, self.label = 'fresh', 'buffer'
        self.fresh_id()

    key = property(lambda self: 'raster%d' % self.hid)

    def __repr__(self):
        return '<raster %s %s%s>' % (''.join(self.axes), [ctext(c.v) for c in self.cells], ' masked' if self.mask is not None else '')

    def freeze(self):
        return App('raster', (self.key,))

    def dim(self, ax):
        return {'c': len(self.cells), 'y': self.h, 'x': self.w, '1': 1}[ax]

    def make(self, cells, axes=None, hw=None, dtype=None, mask=Ellipsis):
        r = RasterV(cells, self.axes if axes is None else axes, hw or (self.h, self.w), dtype or self.dtype,
                    self.mask if mask is Ellipsis else mask)
        if dtype is None:
            r.via = self.via
        return r

    def map(self, f, dtype=None, mask=Ellipsis):
        return self.make([Cell(f(c.v)) for c in self.cells], dtype=dtype, mask=mask)

    def cast(self, d):
        r = self.map(lambda v: v, dtype=d, mask=self.mask)
        r.via = self.via + (self.dtype,)
        return r

    # -- protocol
    def abs_is_none(self, it):
        return False

    def abs_truth(self, it):
        raise I.Unsupported('truth of an array')

    def abs_isinstance(self, it, c):
        if isinstance(c, I.ExtV):
            if c.name.endswith('MaskedArray'):
                return self.mask is not None
            return c.name == 'numpy.ndarray'
        return False

    def abs_hasattr(self, it, name):
        if name in ('mask', 'filled', 'fill_value'):
            return self.mask is not None
        return name in ('shape', 'dtype', 'ndim', 'astype', 'copy', 'transpose', 'T', 'size', '__array__', '__getitem__')

    def abs_len(self, it):
        return self.dim(self.axes[0])

    def abs_getattr(self, it, name):
        if name == 'shape':
            return tuple(it.canon(self.dim(a)) for a in self.axes)
        if name == 'ndim':
            return len(self.axes)
        if name == 'dtype':
            return self.dtype
        if name == 'T':
            return self.transpose(it, None)
        if name == 'transpose':
            return M.bi(name, lambda it, a, k: self.transpose(it, None if not a or a[0] is None else list(it.iterate(a[0])) if isinstance(a[0], (tuple, I.ListV)) else a))
        if name == 'swapaxes':
            def swap(it, a, k):
                p = list(range(len(self.axes)))
                i, j = (int(T.const_of(x)) % len(p) for x in a)
                p[i], p[j] = p[j], p[i]
                return self.transpose(it, p)
            return M.bi(name, swap)
        if name == 'astype':
            def astype(it, a, k):
                d = dtype_of(it, a[0] if a else k.get('dtype'))
                return self.cast(d)
            return M.bi(name, astype)
        if name == 'copy':
            return M.bi(name, lambda it, a, k: self.map(lambda v: v))
        if name == 'mask':
            if self.mask is None:
                it.no_attr(self, name)
            return self.mask
        if name == 'data':
            return self.make(self.cells, mask=None)
        if name == 'size':
            return T.mul(T.mul(self.h, self.w), len(self.cells))
        if name == 'filled':
            def filled(it, a, k):
                v = a[0] if a else k.get('fill_value')
                return where(it, self.mask, v, self)
            return M.bi(name, filled)
        if name in ('strides', 'flags', 'base', 'nbytes', 'itemsize'):
            return I.AttrV(self.freeze(), name)
        raise I.Unsupported('buffer attribute ' + name)

    def abs_setattr(self, it, name, v):
        if name == 'mask' and isinstance(v, RasterV):
            self.mask = v
            return
        raise I.Unsupported('buffer attribute assignment')

    def transpose(self, it, perm):
        n = len(self.axes)
        if perm is None:
            p = list(range(n))[::-1]
        else:
            p = [int(T.const_of(x)) for x in perm]
            if sorted(x % n for x in p) != list(range(n)):
                it.raise_('ValueError', "axes don't match array")
            p = [x % n for x in p]
        return self.make(self.cells, [self.axes[i] for i in p], mask=None if self.mask is None else self.mask.transpose(it, p))

    def index(self, it, i):
        ix = list(i) if isinstance(i, tuple) else [i]
        if any(x is Ellipsis for x in ix):
            n = sum(1 for x in ix if x is not Ellipsis and x is not None)
            j = [q for q, x in enumerate(ix) if x is Ellipsis][0]
            ix = ix[:j] + [I.SliceV(None, None)] * (len(self.axes) - n) + ix[j + 1:]
        return ix

    def abs_getitem(self, it, i):
        if isinstance(i, RasterV):
            return G.SelV(self, i)
        ix = self.index(it, i)
        axes, cells, hw = [], self.cells, {'y': self.h, 'x': self.w}
        win = {}
        fresh = False
        pos = 0
        for x in ix:
            if x is None:
                axes.append('c' if 'c' not in self.axes and 'c' not in axes else '1')
                continue
            if pos >= len(self.axes):
                it.raise_('IndexError', 'too many indices for array')
            ax = self.axes[pos]
            pos += 1
            if isinstance(x, I.SliceV) and G.full_slice(x):
                axes.append(ax)
            elif ax == 'c' and isinstance(x, I.SliceV):
                b = [None if q is None else int(T.const_of(q)) for q in (x.start, x.stop, x.step)]
                cells = cells[slice(*b)]
                axes.append(ax)
            elif ax == 'c' and isinstance(x, (I.ListV, tuple)):
                cells = [Cell(cells[int(T.const_of(q))].v) for q in it.iterate(x)]
                fresh = True
                axes.append(ax)
            elif ax == 'c' and T.const_of(x) is not None:
                q = int(T.const_of(x))
                if not -len(cells) <= q < len(cells):
                    it.raise_('IndexError', 'index out of bounds')
                cells = [cells[q]]
            elif ax in 'yx' and isinstance(x, I.SliceV) and x.step is None:
                start = 0 if x.start is None else it.asnum(x.start)
                stop = hw[ax] if x.stop is None else it.asnum(x.stop)
                start, stop = G.np_bounds(it, start, stop, hw[ax])
                win[ax] = start
                hw[ax] = it.max(T.sub(stop, start), 0)
                axes.append(ax)
            else:
                raise I.Unsupported('index %r of a buffer' % (x,))
        axes.extend(self.axes[pos:])
        if win:
            cells = [Cell(('win', c.v, win.get('y', 0), win.get('x', 0))) for c in cells]
        mask = None if self.mask is None else self.mask.abs_getitem(it, i)
        r = RasterV(cells, axes, (hw['y'], hw['x']), self.dtype, mask)
        return r

    def abs_setitem(self, it, i, v):
        if isinstance(i, RasterV):
            if i.axes != self.axes and not (len(i.axes) < len(self.axes) and self.axes[:len(i.axes)] == i.axes) or len(i.cells) not in (1, len(self.cells)):
                it.raise_('IndexError', 'boolean index did not match indexed array')
            ms = i.cells if len(i.cells) == len(self.cells) else i.cells * len(self.cells)
            for c, m in zip(self.cells, ms):
                c.v = ('where', m.v, value(v), c.v)
            return
        t = self.abs_getitem(it, i)
        if any(c not in self.cells for c in t.cells):
            raise I.Unsupported('store into a window')
        put(it, t, v)

    def abs_binop(self, it, op, other, swapped):
        if op in ('BitOr', 'BitAnd') and isinstance(other, RasterV):
            return combine(it, op, self, other)
        o = ('const', I.freeze(other)) if not isinstance(other, RasterV) else None
        if o is None:
            raise I.Unsupported('arithmetic of buffers')
        return self.map(lambda v: ('arith', op, v, o) if not swapped else ('arith', op, o, v))

    def abs_inplace(self, it, op, val):
        if op in ('BitOr', 'BitAnd') and isinstance(val, RasterV):
            r = combine(it, op, self, val)
            for c, n in zip(self.cells, r.cells):
                c.v = n.v
            return self
        for c in self.cells:
            c.v = ('arith', op, c.v, ('const', I.freeze(val)))
        return self

    def abs_equal(self, it, other):
        if other is None:
            return False
        return self.map(lambda v: ('eq', v, I.freeze(other)), dtype=BOOL, mask=None)

    def abs_compare(self, it, op, other):
        return self.map(lambda v: ('cmp', op, v, I.freeze(other)), dtype=BOOL, mask=None)

    def abs_invert(self, it):
        return self.map(lambda v: ('not', v))

    def abs_iter(self, it):
        if self.axes[0] == 'c':
            return [self.abs_getitem(it, i) for i in range(len(self.cells))]
        raise I.Unsupported('iteration over rows')


def value(v):
    if isinstance(v, RasterV):
        raise I.Unsupported('array as a fill value')
    return ('fill', I.freeze(v))


def ctext(v):
    if isinstance(v, tuple):
        return '(%s)' % ' '.join(ctext(x) for x in v)
    return str(v)


def sizes_agree(it, a, b):
    """Broadcasting of the pixel axes."""
    for x, y in ((a.h, b.h), (a.w, b.w)):
        if not it.truth(it.rel('==', x, y)):
            it.raise_('ValueError', 'could not broadcast input array')


def put(it, t, v):
    """t[...] = v"""
    if isinstance(v, RasterV):
        sizes_agree(it, t, v)
        ta, va = t.axes, v.axes
        if tuple(x for x in va if x != '1') != tuple(x for x in ta if x != '1')[-len([x for x in va if x != '1']):]:
            raise I.Unsupported('assignment between %s and %s' % (va, ta))
        vc = v.cells if len(v.cells) == len(t.cells) else v.cells * len(t.cells) if len(v.cells) == 1 else None
        if vc is None:
            it.raise_('ValueError', 'could not broadcast input array')
        for c, n in zip(t.cells, [x.v for x in vc]):
            c.v = n
        return
    for c in t.cells:
        c.v = value(v)


def combine(it, op, a, b):
    if a.axes != b.axes or len(a.cells) != len(b.cells):
        raise I.Unsupported('combination of masks')
    if op == 'BitOr':
        def f(x, y):
            return y if x == ('fill', False) else x if y == ('fill', False) else ('or', x, y)
    else:
        def f(x, y):
            return ('and', x, y)
    return a.make([Cell(f(x.v, y.v)) for x, y in zip(a.cells, b.cells)])


def where(it, cond, x, y):
    if not isinstance(cond, RasterV):
        raise I.Unsupported('where')
    shape = next(q for q in (y, x, cond) if isinstance(q, RasterV))
    n = len(shape.cells)

    def cells(q):
        if isinstance(q, RasterV):
            if q.axes != shape.axes:
                raise I.Unsupported('where of different axes')
            return [c.v for c in q.cells] if len(q.cells) == n else [q.cells[0].v] * n
        return [value(q)] * n
    return shape.make([Cell(('where', c, a, b)) for c, a, b in zip(cells(cond), cells(x), cells(y))], mask=None)


# ------------------------------------------------------------------ numpy

def _alloc(name):
    def f(it, a, k):
        sh = a[0] if a else k.get('shape')
        if not isinstance(sh, (tuple, I.ListV)):
            return NotImplemented
        sh = [it.canon(it.asnum(x)) for x in it.iterate(sh)]
        cs = [i for i, x in enumerate(sh) if T.const_of(x) is not None]
        if len(sh) not in (2, 3) or len(sh) - len(cs) != 2:
            return NotImplemented
        axes, hw = [], []
        for i, x in enumerate(sh):
            if i in cs:
                axes.append('c')
            else:
                axes.append('yx'[len(hw)])
                hw.append(x)
        n = int(T.const_of(sh[cs[0]])) if cs else 1
        pos = 2 if name == 'full' else 1
        dt = k.get('dtype', a[pos] if len(a) > pos else None)
        c = {'zeros': ('fill', 0), 'ones': ('fill', 1), 'empty': ('garbage',)}.get(name)
        if name == 'full':
            c = value(k.get('fill_value', a[1] if len(a) > 1 else None))
        d = dtype_of(it, dt)
        if d.kind == 'b' and c in (('fill', 0), ('fill', 1)):
            c = ('fill', bool(c[1]))
        return RasterV([Cell(c) for _ in range(n)], axes, hw, d)
    return f


for _n in ('empty', 'zeros', 'ones', 'full'):
    rmodel('numpy.' + _n)(_alloc(_n))


def _like(name):
    def f(it, a, k):
        v = a[0]
        if not isinstance(v, RasterV):
            return NotImplemented
        pos = 2 if name == 'full' else 1
        dt = k.get('dtype', a[pos] if len(a) > pos else None)
        d = v.dtype if dt is None else dtype_of(it, dt)
        c = {'zeros': ('fill', 0), 'ones': ('fill', 1), 'empty': ('garbage',)}.get(name)
        if name == 'full':
            c = value(k.get('fill_value', a[1] if len(a) > 1 else None))
        if d.kind == 'b' and c in (('fill', 0), ('fill', 1)):
            c = ('fill', bool(c[1]))
        return v.map(lambda x: c, dtype=d, mask=None)
    return f


for _n in ('empty', 'zeros', 'ones', 'full'):
    rmodel('numpy.%s_like' % _n)(_like(_n))


@rmodel('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.ma.asanyarray')
def r_array(it, a, k):
    v = a[0]
    if not isinstance(v, RasterV):
        if isinstance(v, I.ListV) and v.items and all(isinstance(x, RasterV) for x in v.items):
            return r_stack(it, a, {})
        return NotImplemented
    d = k.get('dtype', a[1] if len(a) > 1 else None)
    return v.map(lambda x: x) if d is None else v.cast(dtype_of(it, d))


@rmodel('numpy.equal', 'numpy.not_equal')
def r_equal(it, a, k):
    return NotImplemented


def _equal(it, a, k):
    v, c = a[0], a[1]
    if isinstance(c, RasterV):
        v, c = c, v
    if not isinstance(v, RasterV):
        return NotImplemented
    r = v.abs_equal(it, c)
    out = k.get('out', a[2] if len(a) > 2 else None)
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    put(it, out, r)
    return out


rmodel('numpy.equal')(_equal)


@rmodel('numpy.logical_or', 'numpy.bitwise_or')
def r_or(it, a, k):
    if not isinstance(a[0], RasterV):
        return NotImplemented
    r = combine(it, 'BitOr', a[0], a[1])
    out = k.get('out', a[2] if len(a) > 2 else None)
    if out is None:
        return r
    put(it, out, r)
    return out


@rmodel('numpy.isnan')
def r_isnan(it, a, k):
    if not isinstance(a[0], RasterV):
        return NotImplemented
    return a[0].map(lambda v: ('isnan', v), dtype=BOOL, mask=None)


@rmodel('numpy.where')
def r_where(it, a, k):
    if len(a) == 3 and isinstance(a[0], RasterV):
        return where(it, *a)
    return NotImplemented


@rmodel('numpy.ma.array', 'numpy.ma.MaskedArray', 'numpy.ma.masked_array', 'numpy.ma.masked_where')
def r_ma(it, a, k):
    data = a[0] if a else k.get('data')
    mask = k.get('mask', a[1] if len(a) > 1 else None)
    if isinstance(mask, RasterV) and isinstance(data, RasterV):
        if mask.axes != data.axes or len(mask.cells) != len(data.cells):
            it.raise_('MaskError' if False else 'ValueError', 'Mask and data not compatible')
        return data.make(data.cells, mask=mask)
    if isinstance(data, RasterV) and isinstance(mask, bool):
        return data.make(data.cells, mask=data.map(lambda v: ('fill', mask), dtype=BOOL, mask=None))
    return NotImplemented


@rmodel('numpy.putmask', 'numpy.copyto', 'numpy.place')
def r_putmask(it, a, k):
    if isinstance(a[0], RasterV) and isinstance(a[1], RasterV) and len(a) > 2:
        a[0].abs_setitem(it, a[1], a[2])
        return None
    if isinstance(a[0], RasterV) and isinstance(k.get('where'), RasterV):
        a[0].abs_setitem(it, k['where'], a[1])
        return None
    return NotImplemented


@rmodel('numpy.transpose')
def r_transpose(it, a, k):
    if not isinstance(a[0], RasterV):
        return NotImplemented
    p = k.get('axes', a[1] if len(a) > 1 else None)
    return a[0].transpose(it, None if p is None else list(it.iterate(p)))


@rmodel('numpy.moveaxis', 'numpy.rollaxis', 'numpy.swapaxes')
def r_moveaxis(it, a, k):
    if not isinstance(a[0], RasterV):
        return NotImplemented
    raise I.Unsupported('moveaxis')


def _moveaxis(it, a, k):
    if not isinstance(a[0], RasterV):
        return NotImplemented
    n = len(a[0].axes)
    s = int(T.const_of(k.get('source', a[1] if len(a) > 1 else None))) % n
    d = int(T.const_of(k.get('destination', a[2] if len(a) > 2 else None))) % n
    p = [i for i in range(n) if i != s]
    p.insert(d, s)
    return a[0].transpose(it, p)


rmodel('numpy.moveaxis')(_moveaxis)


@rmodel('numpy.swapaxes')
def r_swapaxes(it, a, k):
    if not isinstance(a[0], RasterV):
        return NotImplemented
    return it.call(a[0].abs_getattr(it, 'swapaxes'), a[1:], k)


def r_stack(it, a, k):
    parts = list(it.iterate(a[0] if a else k['arrays'])) if isinstance(a[0] if a else k.get('arrays'), (I.ListV, tuple)) else None
    if not parts or not all(isinstance(p, RasterV) for p in parts):
        return NotImplemented
    if any('c' in p.axes for p in parts):
        raise I.Unsupported('stack')
    for p in parts[1:]:
        sizes_agree(it, parts[0], p)
        if p.axes != parts[0].axes:
            raise I.Unsupported('stack')
    axis = k.get('axis', a[1] if len(a) > 1 else 0)
    ax = list(parts[0].axes)
    axis = int(T.const_of(axis)) % (len(ax) + 1)
    ax.insert(axis, 'c')
    masks = [p.mask for p in parts]
    return parts[0].make([Cell(p.cells[0].v) for p in parts], ax, mask=None)


rmodel('numpy.stack')(r_stack)


@rmodel('numpy.dstack')
def r_dstack(it, a, k):
    parts = a[0]
    if not isinstance(parts, (I.ListV, tuple)):
        return NotImplemented
    parts = list(it.iterate(parts))
    if not parts or not all(isinstance(p, RasterV) for p in parts):
        return NotImplemented
    cells = []
    for p in parts:
        if p.axes not in (('y', 'x'), ('y', 'x', 'c')):
            raise I.Unsupported('dstack')
        cells.extend(Cell(c.v) for c in p.cells)
    return parts[0].make(cells, ('y', 'x', 'c'), mask=None)


@rmodel('numpy.concatenate')
def r_concatenate(it, a, k):
    parts = a[0]
    if not isinstance(parts, (I.ListV, tuple)):
        return NotImplemented
    parts = list(it.iterate(parts))
    if not parts or not all(isinstance(p, RasterV) for p in parts):
        return NotImplemented
    axis = k.get('axis', a[1] if len(a) > 1 else 0)
    ax = parts[0].axes
    axis = int(T.const_of(axis)) % len(ax)
    if ax[axis] != 'c' or any(p.axes != ax for p in parts):
        raise I.Unsupported('concatenate')
    return parts[0].make([Cell(c.v) for p in parts for c in p.cells], mask=None)


@rmodel('numpy.result_type', 'numpy.promote_types')
def r_result_type(it, a, k):
    ds = [x.dtype if isinstance(x, RasterV) else dtype_of(it, x) for x in a]
    f = any(d.kind == 'f' for d in ds)
    return DTypeV(App('dt', ('promote',) + tuple(sorted((d.term for d in ds), key=T.keyof))), 'f' if f else None)


@rmodel('numpy.tile', 'numpy.repeat')
def r_tile(it, a, k):
    if isinstance(a[0], RasterV):
        raise I.Unsupported('tile')
    return NotImplemented


@rmodel('kwarray.atleast_nd', 'numpy.atleast_3d')
def r_atleast(it, a, k):
    v = a[0]
    if not isinstance(v, RasterV):
        return NotImplemented
    return v if 'c' in v.axes else v.abs_getitem(it, (Ellipsis, None))


# ------------------------------------------------------------------ files

class FileV:
    """What is on disk: bands, levels, sizes, missing data values."""

    def __init__(self, it, nbands, nover, detached='own', faults=0, nodata='mixed', interleave=None):
        self.n, self.nover, self.detached, self.faults = nbands, nover, detached, faults
        self.sizes = []
        for j in range(nover + 1):
            self.sizes.append((T.to_poly(it.sym('H%d' % j, 'int', lo=1)), T.to_poly(it.sym('W%d' % j, 'int', lo=nover - j + 1))))
        for (h0, w0), (h1, w1) in zip(self.sizes, self.sizes[1:]):
            it.assume(it.rel('<=', h1, h0))
            it.assume(it.rel('<', w1, w0))
        if nodata == 'mixed':
            self.nodata = [it.sym('nodata%d' % i, 'int') if i != 1 else None for i in range(nbands)]
        elif nodata == 'none':
            self.nodata = [None] * nbands
        else:
            self.nodata = [it.sym('nodata%d' % i, 'int') for i in range(nbands)]
        self.interleave = interleave
        self.log = []               # reads, opens
        self.code = 5               # the type of the values

    @property
    def dt(self):
        n = DT.GDAL[self.code]
        return DTypeV(App('dt', (n,)), DT.kind(n))

    def fault(self, it):
        """How a read ends: 'ok', 'none', 'raise'."""
        if self.faults <= 0:
            return 'ok'
        r = it.choose(3)
        if r:
            self.faults -= 1
            self.failed = True
        return ('ok', 'none', 'raise')[r]


def meth(name, fn):
    return M.bi(name, fn)


class Named:
    def abs_is_none(self, it):
        return False

    def abs_truth(self, it):
        return True

    def abs_isinstance(self, it, c):
        return False

    def freeze(self):
        return App('handle', (self.key,))


class DatasetV(Named):
    def __init__(self, file, level):
        self.file, self.level = file, level

    key = property(lambda self: 'dataset%d' % self.level)

    def abs_getattr(self, it, name):
        f = self.file
        h, w = f.sizes[self.level]
        if name == 'RasterCount':
            return f.n
        if name == 'RasterXSize':
            return w
        if name == 'RasterYSize':
            return h
        if name == 'GetRasterBand':
            def band(it, a, k):
                i = T.const_of(a[0])
                if i is None:
                    raise I.Unsupported('band %r' % (a[0],))
                if not 1 <= i <= f.n:
                    return None
                return BandV(f, self.level, int(i) - 1)
            return meth(name, band)
        if name == 'GetSubDatasets':
            return meth(name, lambda it, a, k: I.ListV([]))
        if name in ('GetDescription', 'GetProjection'):
            return meth(name, lambda it, a, k: 'description')
        if name == 'GetMetadata':
            def md(it, a, k):
                d = {}
                if f.interleave is None:
                    f.interleave = ('PIXEL', 'BAND', '')[it.choose(3)]
                if f.interleave:
                    d['INTERLEAVE'] = f.interleave
                return I.DictV(d)
            return meth(name, md)
        if name == 'ReadAsArray':
            return meth(name, self.read)
        if name in ('FlushCache',):
            return meth(name, lambda it, a, k: None)
        raise I.Unsupported('dataset attribute ' + name)

    def read(self, it, a, k):
        names = ('xoff', 'yoff', 'xsize', 'ysize', 'buf_obj', 'buf_xsize', 'buf_ysize', 'buf_type', 'resample_alg', 'callback', 'callback_data', 'interleave', 'band_list')
        kw = dict(zip(names, a))
        for n, v in k.items():
            if n not in names or n in kw:
                it.raise_('TypeError', 'ReadAsArray() got an unexpected keyword argument %r' % n)
            kw[n] = v
        bl = kw.get('band_list')
        bands = list(range(1, self.file.n + 1)) if bl is None else [T.const_of(x) for x in it.iterate(bl)]
        if any(b is None for b in bands):
            raise I.Unsupported('band list')
        if any(not 1 <= b <= self.file.n for b in bands):
            it.raise_('RuntimeError', 'band index out of range')
        inter = kw.get('interleave', 'band')
        if self.file.fault(it) != 'ok':
            return fail(it, self.file)
        return read(it, self.file, self.level, [int(b) - 1 for b in bands], kw.get('xoff', 0), kw.get('yoff', 0), kw.get('xsize'), kw.get('ysize'),
                    kw.get('buf_obj'), ('c', 'y', 'x') if inter == 'band' else ('y', 'x', 'c'), kw)


class BandV(Named):
    def __init__(self, file, level, idx):
        self.file, self.level, self.idx = file, level, idx

    key = property(lambda self: 'band%d.%d' % (self.level, self.idx))

    def abs_getattr(self, it, name):
        f = self.file
        h, w = f.sizes[self.level]
        if name == 'XSize':
            return w
        if name == 'YSize':
            return h
        if name == 'DataType':
            return self.file.code
        if name == 'GetNoDataValue':
            return meth(name, lambda it, a, k: f.nodata[self.idx])
        if name == 'GetOverviewCount':
            return meth(name, lambda it, a, k: f.nover if self.level == 0 else 0)
        if name == 'GetOverview':
            def ov(it, a, k):
                j = T.const_of(a[0])
                if j is None:
                    raise I.Unsupported('overview %r' % (a[0],))
                if self.level or not 0 <= j < f.nover:
                    return None
                return BandV(f, int(j) + 1, self.idx)
            return meth(name, ov)
        if name == 'GetDataset':
            def ds(it, a, k):
                if self.level == 0 or f.detached == 'own':
                    return DatasetV(f, self.level)
                return None if f.detached == 'none' else DatasetV(f, 0)
            return meth(name, ds)
        if name in ('GetColorTable', 'GetRasterColorTable', 'GetScale', 'GetOffset'):
            return meth(name, lambda it, a, k: None)
        if name in ('GetBand',):
            return meth(name, lambda it, a, k: self.idx + 1)
        if name in ('GetDescription',):
            return meth(name, lambda it, a, k: 'band')
        if name == 'ReadAsArray':
            return meth(name, self.read)
        raise I.Unsupported('band attribute ' + name)

    def read(self, it, a, k):
        names = ('xoff', 'yoff', 'win_xsize', 'win_ysize', 'buf_xsize', 'buf_ysize', 'buf_type', 'buf_obj', 'resample_alg', 'callback', 'callback_data')
        kw = dict(zip(names, a))
        for n, v in k.items():
            if n not in names or n in kw:
                it.raise_('TypeError', 'ReadAsArray() got an unexpected keyword argument %r' % n)
            kw[n] = v
        if self.file.fault(it) != 'ok':
            return fail(it, self.file)
        return read(it, self.file, self.level, [self.idx], kw.get('xoff', 0), kw.get('yoff', 0), kw.get('win_xsize'), kw.get('win_ysize'),
                    kw.get('buf_obj'), ('y', 'x'), kw)


def fail(it, f):
    if it.chooser.trail and it.chooser.trail[-1][1] == 2:
        it.raise_('RuntimeError', 'read failed', implicit=False)
    return None


def read(it, f, level, bands, x, y, w, h, out, axes, kw):
    H, W = f.sizes[level]
    x, y = it.asnum(x or 0), it.asnum(y or 0)
    w = T.sub(W, x) if w is None else it.asnum(w)
    h = T.sub(H, y) if h is None else it.asnum(h)
    f.log.append(('read', level, tuple(bands), x, y, w, h))
    bad = [('<', x, 0), ('<', y, 0), ('>', T.add(x, w), W), ('>', T.add(y, h), H), ('<', w, 0), ('<', h, 0)]
    for op, p, q in bad:
        if it.truth(it.rel(op, p, q)):
            it.raise_('RuntimeError', 'Access window out of range in RasterIO()')
    if any(kw.get(n) is not None for n in ('buf_xsize', 'buf_ysize', 'buf_type')):
        raise I.Unsupported('resampling read')
    content = [('read', level, b, y, x) for b in bands]
    if out is None:
        if len(bands) == 1:
            axes = ('y', 'x')
        return RasterV([Cell(c) for c in content], axes, (h, w), f.dt)
    if not isinstance(out, RasterV):
        raise I.Unsupported('read into %r' % (out,))
    oax = out.axes
    if len(bands) == 1 and oax == ('y', 'x') or len(bands) > 1 and oax == axes or oax == axes:
        pass
    else:
        it.raise_('ValueError', 'array of the wrong shape')
    if len(out.cells) != len(bands):
        it.raise_('ValueError', 'array should have one entry per band')
    for p, q in ((out.h, h), (out.w, w)):
        if not it.truth(it.rel('==', p, q)):
            content = [('resampled',) + c for c in content]
            break
    for c, v in zip(out.cells, content):
        c.v = v
    return out


@rmodel('osgeo.gdal.Open', 'osgeo.gdal.OpenEx')
def gdal_open(it, a, k):
    f = it.cx['file']
    mode = k.get('eAccess', a[1] if len(a) > 1 else 0)
    f.log.append(('open', I.freeze(a[0]), mode))
    if it.cx.get('unopenable'):
        return None
    return DatasetV(f, 0)


@rmodel('os.path.exists')
def path_exists(it, a, k):
    if 'file' in it.cx:
        return it.cx.get('exists', True)
    return NotImplemented


@rmodel('os.fspath')
def fspath(it, a, k):
    return a[0]


# ------------------------------------------------------------------ rasterio, spectral

class RioV(Named):
    key = 'rasterio dataset'

    def __init__(self, file):
        self.file = file

    def abs_getattr(self, it, name):
        f = self.file
        if name == 'height':
            return f.sizes[0][0]
        if name == 'width':
            return f.sizes[0][1]
        if name == 'shape':
            return f.sizes[0]
        if name == 'count':
            return f.n
        if name == 'dtypes':
            return tuple([DT.GDAL[f.code]] * f.n)
        if name == 'read':
            return meth(name, self.read)
        raise I.Unsupported('rasterio attribute ' + name)

    def read(self, it, a, k):
        f = self.file
        idx = k.get('indexes', a[0] if a else None)
        win = k.get('window')
        if set(k) - {'indexes', 'window', 'boundless'} or k.get('boundless'):
            raise I.Unsupported('rasterio read option')
        single = idx is not None and T.const_of(idx) is not None if not isinstance(idx, (I.ListV, tuple)) else False
        bands = range(1, f.n + 1) if idx is None else [idx] if single else list(it.iterate(idx))
        bands = [T.const_of(b) for b in bands]
        for b in bands:
            if b is None:
                raise I.Unsupported('band')
            if not 1 <= b <= f.n:
                it.raise_('IndexError', 'band index out of range')
        H, W = f.sizes[0]
        if win is None:
            y0, y1, x0, x1 = 0, H, 0, W
        else:
            (y0, y1), (x0, x1) = [[it.asnum(q) for q in it.iterate(p)] for p in it.iterate(win)]
        axes = ('y', 'x') if single else ('c', 'y', 'x')
        return read(it, f, 0, [int(b) - 1 for b in bands], x0, y0, T.sub(x1, x0), T.sub(y1, y0), None, axes, {}) if single or len(bands) != 1 else \
            read1(it, f, int(bands[0]) - 1, x0, y0, T.sub(x1, x0), T.sub(y1, y0))


def read1(it, f, b, x, y, w, h):
    r = read(it, f, 0, [b], x, y, w, h, None, ('y', 'x'), {})
    return RasterV(r.cells, ('c', 'y', 'x'), (r.h, r.w), r.dtype)


@rmodel('rasterio.open')
def rio_open(it, a, k):
    f = it.cx['file']
    f.log.append(('open', I.freeze(a[0]), k.get('mode', a[1] if len(a) > 1 else 'r')))
    return RioV(f)


class SpyV(Named):
    key = 'spectral file'

    def __init__(self, file):
        self.file = file

    def abs_getattr(self, it, name):
        f = self.file
        if name == 'shape':
            return f.sizes[0] + (f.n,)
        if name == 'dtype':
            return f.dt
        if name in ('nrows', 'ncols', 'nbands'):
            return {'nrows': f.sizes[0][0], 'ncols': f.sizes[0][1], 'nbands': f.n}[name]
        if name == 'read_subregion':
            def rs(it, a, k):
                kw = dict(zip(('row_bounds', 'col_bounds', 'bands', 'use_memmap'), a))
                kw.update(k)
                y0, y1 = [it.asnum(q) for q in it.iterate(kw['row_bounds'])]
                x0, x1 = [it.asnum(q) for q in it.iterate(kw['col_bounds'])]
                b = kw.get('bands')
                bands = range(f.n) if b is None else [int(T.const_of(q)) for q in it.iterate(b)]
                for q in bands:
                    if not 0 <= q < f.n:
                        it.raise_('IndexError', 'band out of range')
                r = read(it, f, 0, list(bands), x0, y0, T.sub(x1, x0), T.sub(y1, y0), None, ('y', 'x', 'c'), {})
                return RasterV(r.cells, ('y', 'x', 'c'), (r.h, r.w), r.dtype)
            return meth(name, rs)
        raise I.Unsupported('spectral attribute ' + name)


@rmodel('spectral.envi.open', 'spectral.open_image', 'spectral.io.envi.open')
def spy_open(it, a, k):
    f = it.cx['file']
    f.log.append(('open', I.freeze(a[0]), 'r'))
    return SpyV(f)


@rmodel('kwimage.im_io._gdal_read')
def kw_gdal_read(it, a, k):
    """The reader of kwimage, used when the vendored one fails."""
    ds = k['gdal_dset']
    f = ds.file
    kw = k.get('gdalkw')
    kw = {} if kw is None else kw.d
    lvl = int(T.const_of(k.get('overview') or 0))
    bi = k.get('band_indices')
    bands = range(f.n) if bi is None else [int(T.const_of(q)) for q in it.iterate(bi)]
    if not len(bands):
        it.raise_('IndexError', 'list index out of range')
    if lvl > f.nover:
        it.raise_('ValueError', 'Image has no overview=%d' % lvl)
    nd = k.get('nodata_method')
    single = len(bands) == 1
    r = read(it, f, lvl, list(bands), kw.get('xoff', 0), kw.get('yoff', 0), kw.get('win_xsize'), kw.get('win_ysize'), None, ('y', 'x') if single else ('y', 'x', 'c'), {})
    if nd is not None:
        m = r.make([Cell(('fill', False) if f.nodata[b] is None else ('eq', c.v, f.nodata[b])) for c, b in zip(r.cells, bands)], dtype=BOOL)
        if nd == 'ma':
            r = r.make(r.cells, mask=m)
        elif nd in ('float', 'nan'):
            r = r.make(r.cells, dtype=DTypeV(App('dt', ('promote',)), 'f'))
            r.abs_setitem(it, m, 'nan')
        else:
            it.raise_('KeyError', 'nodata_method')
    return (r, len(bands))


@rmodel('delayed_image.debug_utils.debug_array_event')
def dbg(it, a, k):
    return None
