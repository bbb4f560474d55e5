"""
The abstract domain of pixel arrays.

An ``ImgV`` is an array whose *content* is a term over the arrays it was made
from (which pixels of which source, under which resampling), together with its
shape, its dtype, whether it carries a mask, and who owns its memory.  An
``ElemV`` is an array given by an elementwise formula over its indices.
"""
from fractions import Fraction

from . import terms as T
from . import interp as I
from . import models as M
from .terms import Sym, App, Poly, Aff

IMODELS = {}


def imodel(*names):
    def deco(f):
        for n in names:
            IMODELS[n] = f
        return f
    return deco


class DTypeV:
    """A dtype."""

    def __init__(self, term, kind=None):
        self.term = term
        self.kind = kind

    key = property(lambda self: 'dtype' + T.keyof(self.term))
    kindterm = property(lambda self: App('dtkind', (self.term,), 'str'))

    def freeze(self):
        return self.term

    def abs_getattr(self, it, name):
        if name == 'kind':
            if self.kind is not None:
                return self.kind
            return self.kindterm
        if name == 'type':
            return self
        return I.AttrV(self.term, name)

    def abs_equal(self, it, other):
        o = other.term if isinstance(other, DTypeV) else I.freeze(other)
        if T.keyof(o) == T.keyof(self.term):
            return True
        return App('eqv', tuple(sorted((self.term, o), key=T.keyof)), 'bool')

    def abs_is_none(self, it):
        return False

    def abs_truth(self, it):
        return True


FLOATS = ('numpy.float32', 'numpy.float64', 'numpy.float16', 'builtins.float')
INTS = ('numpy.uint8', 'numpy.uint16', 'numpy.int16', 'numpy.int32', 'numpy.int64', 'builtins.int')


def dtype_of(it, v):
    if isinstance(v, DTypeV):
        return v
    if isinstance(v, I.ExtV):
        n = v.name
        kind = 'f' if n in FLOATS else 'b' if n.endswith('bool') or n.endswith('bool_') else ('u' if 'uint' in n else 'i') if n in INTS else None
        return DTypeV(App('dt', (n,)), kind)
    if isinstance(v, str):
        return DTypeV(App('dt', (v,)), 'f' if v.startswith('float') else None)
    if v is None:
        return DTypeV(App('dt', ('float64',)), 'f')
    return DTypeV(App('dt', (I.freeze(v),)))


class Region:
    """A piece of memory."""
    n = 0

    def __init__(self, owner, label):
        self.owner, self.label = owner, label


class ImgV(I.Heap):
    is_array = True
    def __init__(self, content, shape, dtype, masked=False, region=None, lazy=False, extra=None):
        self.cell = [content]          # views of one array with the same content share it
        self.shape = tuple(shape)
        self.dtype = dtype
        self.masked = masked           # bool or a boolean term
        self.region = region or Region('fresh', 'fresh')
        self.lazy = lazy
        self.extra = extra or {}
        self.fresh_id()

    owner = property(lambda self: self.region.owner)
    label = property(lambda self: self.region.label)

    @property
    def content(self):
        return self.cell[0]

    key = property(lambda self: 'img%d' % self.hid)

    def __repr__(self):
        return '<array %s%s>' % (str(ctext(self.content))[:200], ' masked' if self.masked is True else '')

    def freeze(self):
        return App('img', (ckey(self.content),))

    def like(self, content, **kw):
        d = dict(shape=self.shape, dtype=self.dtype, masked=self.masked, region=None)
        d.update(kw)
        return ImgV(content, **d)

    def is_masked(self, it):
        if not isinstance(self.masked, bool):
            self.masked = it.truth(self.masked)
        return self.masked

    def is_lazy(self, it):
        if not isinstance(self.lazy, bool):
            self.lazy = it.truth(self.lazy)
            if self.lazy:
                self.masked_after = self.masked
        return self.lazy

    # -- protocol
    def abs_is_none(self, it):
        return False

    def abs_truth(self, it):
        raise I.Unsupported('truth of an array')

    def abs_isinstance(self, it, c):
        if isinstance(c, I.ExtV):
            n = c.name
            if n.endswith('MaskedArray'):
                if self.is_lazy(it):
                    return False
                return self.is_masked(it)
            if n == 'numpy.ndarray':
                return not self.is_lazy(it)
            return False
        return False

    def abs_hasattr(self, it, name):
        if name in ('get_overview', 'num_overviews', 'nodata_method', 'get_absolute_overview'):
            return self.is_lazy(it)
        if name in ('mask', 'fill_value', 'filled'):
            if self.is_lazy(it):
                return False
            return self.is_masked(it)
        if name in ('astype', 'ravel', 'reshape', 'copy', 'sum', 'any'):
            return not self.is_lazy(it)
        return name in ('shape', 'dtype', 'ndim', '__array__', '__getitem__')

    def abs_len(self, it):
        return self.shape[0]

    def abs_getattr(self, it, name):
        if name == 'shape':
            return tuple(None if x is None else it.canon(x) for x in self.shape)
        if name == 'ndim':
            return len(self.shape)
        if name == 'dtype':
            return self.dtype
        if name == 'size':
            r = 1
            for x in self.shape:
                r = T.mul(r, x)
            return r
        if name == 'num_overviews':
            return self.extra.setdefault('num_overviews', T.to_poly(it.sym('ref.overviews', 'int', lo=0)))
        if name in ('get_overview', 'get_absolute_overview'):
            def ov(it, a, k):
                o = it.asnum(a[0] if a else k.get('overview'))
                if name == 'get_absolute_overview':
                    o = T.sub(o, self.extra.setdefault('base', T.to_poly(it.sym('ref.base', 'int', lo=0))))
                if it.truth(it.rel('>', o, self.abs_getattr(it, 'num_overviews'))):
                    it.raise_('ValueError', 'Image has no such overview')
                dims = tuple(T.rounding('ceil', T.div(x, T.power(2, o))) for x in self.shape[:2])
                return self.like(('overview', self.content, o), shape=dims + tuple(self.shape[2:]), region=self.region, lazy=True)
            return M.bi(name, ov)
        if name == 'astype':
            return M.bi(name, lambda it, a, k: self.like(('astype', self.content, dtype_of(it, a[0] if a else k.get('dtype')).term),
                                                         dtype=dtype_of(it, a[0] if a else k.get('dtype'))))
        if name == 'copy':
            return M.bi(name, lambda it, a, k: self.like(self.content))
        if name == 'fill_value':
            return App('fill_value', (ckey(self.content),), 'float')
        if name == 'mask':
            return self.like(('mask', self.content), dtype=DTypeV(App('dt', ('bool',)), 'b'), masked=False, region=self.region)
        if name == 'data':
            return self.like(self.content, masked=False, region=self.region)
        if name == 'filled':
            def filled(it, a, k):
                v = a[0] if a else k.get('fill_value')
                return self.like(('where', ('mask', self.content), ('fill', I.freeze(v)), self.content), masked=False)
            return M.bi(name, filled)
        if name == '__array__':
            return M.bi(name, lambda it, a, k: realize(it, self))
        if name in ('view', 'squeeze', 'ravel', 'reshape', 'transpose', 'T', 'item', 'tolist', 'fill', 'sort', 'resize', 'put'):
            raise I.Unsupported('array method ' + name)
        if name in ('any', 'all', 'sum', 'min', 'max', 'mean'):
            return M.bi(name, lambda it, a, k: App('reduce:' + name, (ckey(self.content),), 'any'))
        if name == '__class__':
            return I.ExtV('numpy.ndarray')
        if name == 'num_absolute_overviews':
            return T.add(self.abs_getattr(it, 'num_overviews'), self.extra.setdefault('base', T.to_poly(it.sym('ref.base', 'int', lo=0))))
        if name == 'overview':
            return self.extra.setdefault('base', T.to_poly(it.sym('ref.base', 'int', lo=0)))
        if name in ('nodata_method', 'fpath'):
            return self.extra.get(name, I.AttrV(self.freeze(), name))
        raise I.Unsupported('array attribute ' + name)

    def abs_setattr(self, it, name, v):
        if name in ('nodata_method',):
            self.extra[name] = v
            return
        if self.owner != 'fresh':
            it.effect('arrwrite', self, '.' + name)
        else:
            raise I.Unsupported('array attribute assignment')

    def abs_getitem(self, it, i):
        ix = i if isinstance(i, tuple) else (i,)
        if len(ix) == 1 and isinstance(ix[0], (ElemV, ImgV)):
            return SelV(self, ix[0])
        if isinstance(ix[0], ImgV) and len(ix) == 2 and full_slice(ix[1]):
            return SelV(self, ix[0])
        if isinstance(ix[0], ElemV) and len(ix) == 2 and full_slice(ix[1]) and len(ix[0].shape) == 2:
            return SelV(self, ix[0])
        if len(ix) == 2 and all(isinstance(x, ElemV) for x in ix):
            y, x = ix
            sh = ebroadcast(it, y, x)
            return self.like(('gather', self.content, y, x, (self.shape[1], self.shape[0])), shape=tuple(sh[0]) + tuple(self.shape[2:]))
        if any(isinstance(x, ElemV) for x in ix):
            raise I.Unsupported('index with arrays')
        out = self.content
        shape = []
        region = self.region
        if any(x is Ellipsis for x in ix):
            n = sum(1 for x in ix if x is not Ellipsis and x is not None)
            j = [q for q, x in enumerate(ix) if x is Ellipsis][0]
            ix = ix[:j] + (I.SliceV(None, None),) * (len(self.shape) - n) + ix[j + 1:]
        ax = 0
        offs = [0, 0]
        crop = mirrored = False
        take = None
        for x in ix:
            if x is None:
                if ax < 2:
                    raise I.Unsupported('new axis')
                shape.append(1)
                continue
            if ax >= len(self.shape):
                it.raise_('IndexError', 'too many indices for array')
            d = self.shape[ax]
            if isinstance(x, I.SliceV):
                if x.step is not None and T.const_of(x.step) == -1 and x.start is None and x.stop is None and ax < 2:
                    out = ('mirror', out, ax, d)
                    mirrored = True
                    shape.append(d)
                    ax += 1
                    continue
                if x.step is not None and T.const_of(x.step) != 1:
                    raise I.Unsupported('stepped slice')
                if full_slice(x):
                    shape.append(d)
                elif ax < 2:
                    start = 0 if x.start is None else it.asnum(x.start)
                    stop = d if x.stop is None else it.asnum(x.stop)
                    start, stop = np_bounds(it, start, stop, d)
                    offs[ax] = start
                    crop = True
                    shape.append(it.max(T.sub(stop, start), 0))
                else:
                    take = I.freeze(x)
                    if all(b is None or T.isnum(b) and T.const_of(b) is not None for b in (x.start, x.stop)):
                        start, stop = np_bounds(it, 0 if x.start is None else x.start, d if x.stop is None else x.stop, d)
                        shape.append(it.max(T.sub(stop, start), 0))
                    else:
                        shape.append(T.to_poly(App('len', (take,), 'int')))
            elif ax == 2:
                if isinstance(x, I.ListV) or isinstance(x, (Sym, App)) and x.typ == 'list' or isinstance(x, (M.MapV, M.SymRange)):
                    take = I.freeze(x)
                    n = M.m_len(it, [x], {})
                    shape.append(n)
                    region = None
                elif T.isnum(x) or isinstance(x, Sym) and x.typ == 'int':
                    take = App('one', (I.freeze(x),), 'list')
                else:
                    raise I.Unsupported('channel index %r' % (x,))
            else:
                raise I.Unsupported('index %r of an array' % (x,))
            ax += 1
        shape.extend(self.shape[ax:])
        if crop:
            out = ('crop', out, offs[0], offs[1])
        if take is not None:
            out = ('take', out, take)
        lazy = False
        masked = self.masked
        if self.lazy is not False:
            region = None if self.is_lazy(it) else region
        full = not crop and not mirrored and take is None and len(shape) == len(self.shape)
        r = ImgV(out, shape, self.dtype, masked, region, lazy)
        if full and not self.lazy:
            r.cell = self.cell
        return r

    def abs_setitem(self, it, i, v):
        it.write_check(self, 'arrwrite', '[...] = of an array that is not its own')
        ix = i if isinstance(i, tuple) else (i,)
        if (len(ix) == 1 or len(ix) == 2 and full_slice(ix[1])) and isinstance(ix[0], (ElemV, ImgV)):
            cond = ix[0] if isinstance(ix[0], ElemV) else ix[0].content
            if isinstance(v, SelV):
                if not (v.sel is ix[0] or isinstance(v.sel, ElemV) and isinstance(ix[0], ElemV) and T.keyof(v.sel.expr) == T.keyof(ix[0].expr)):
                    raise I.Unsupported('assignment under different masks')
                new = v.img.content
            elif isinstance(v, ImgV):
                raise I.Unsupported('assignment of an array')
            else:
                new = ('fill', I.freeze(v))
            self.cell[0] = ('where', cond, new, self.content)
            return
        if len(ix) == 3 and full_slice(ix[0]) and full_slice(ix[1]) and isinstance(v, (ImgV,)):
            self.cell[0] = ('setband', self.content, I.freeze(ix[2]), v.content)
            return
        if all(full_slice(x) or x is Ellipsis for x in ix):
            self.cell[0] = v.content if isinstance(v, ImgV) else ('fill', I.freeze(v))
            return
        self.cell[0] = ('edited', self.content)

    def abs_inplace(self, it, op, val):
        it.write_check(self, 'arrwrite', 'in place %s' % op)
        self.cell[0] = ('arith', op, self.content, val.content if isinstance(val, ImgV) else I.freeze(val))
        return self

    def abs_binop(self, it, op, other, swapped):
        if isinstance(other, ElemV):
            raise I.Unsupported('mixed arithmetic')
        o = other.content if isinstance(other, ImgV) else ('const', I.freeze(other))
        a, b = (o, self.content) if swapped else (self.content, o)
        masked = self.masked
        if isinstance(other, ImgV):
            masked = self.is_masked(it) or other.is_masked(it)
        return self.like(('arith', op, a, b), masked=masked, dtype=DTypeV(App('dt', ('arith',))))

    def abs_compare(self, it, op, other):
        o = other.content if isinstance(other, ImgV) else ('const', I.freeze(other))
        return self.like(('cmp', op, self.content, o), masked=self.masked, dtype=DTypeV(App('dt', ('bool',)), 'b'))

    def abs_equal(self, it, other):
        if other is None or isinstance(other, (str, bool)):
            return False
        o = other.content if isinstance(other, ImgV) else ('const', I.freeze(other))
        return self.like(('cmp', '==', self.content, o), masked=self.masked, dtype=DTypeV(App('dt', ('bool',)), 'b'))

    def abs_not(self, it):
        return self.like(('not', self.content))

    def abs_invert(self, it):
        return self.like(('not', self.content))

    def abs_iter(self, it):
        raise I.Unsupported('iteration over an array')


def realize(it, img):
    """np.asanyarray of an array or of a lazy reference."""
    if img.is_lazy(it):
        return ImgV(img.content, img.shape, img.dtype, img.masked, None, False)
    return img


def np_bounds(it, start, stop, d):
    """The bounds of a slice as numpy takes them."""
    def fix(v):
        c = T.const_of(v)
        if c is not None and c >= 0 or it.proves('>=', v, 0):
            pass
        else:
            if it.truth(it.rel('<', v, 0)):
                v = it.max(T.add(v, d), 0)
        return it.min(v, d)
    return fix(start), fix(stop)


def full_slice(x):
    return isinstance(x, I.SliceV) and x.start is None and x.stop is None and x.step is None


class SelV:
    """array[boolean array]"""

    def __init__(self, img, sel):
        self.img, self.sel = img, sel

    key = property(lambda self: 'sel(%s)' % self.img.key)

    def abs_setattr(self, it, name, v):
        raise I.Unsupported('attribute of a selection')


class ElemV:
    is_array = True
    """An array given by a formula of its indices."""

    def __init__(self, shape, axes, expr):
        self.shape = tuple(shape)
        self.axes = tuple(axes)      # the index variable of every axis (None: length 1)
        self.expr = expr             # a number term or a boolean term

    key = property(lambda self: 'elem(%s)' % T.keyof(self.expr))

    def freeze(self):
        return App('elem', (self.expr,))

    def abs_is_none(self, it):
        return False

    def abs_truth(self, it):
        raise I.Unsupported('truth of an array')

    def abs_isinstance(self, it, c):
        return isinstance(c, I.ExtV) and c.name == 'numpy.ndarray'

    def abs_len(self, it):
        return self.shape[0]

    def map(self, f):
        return ElemV(self.shape, self.axes, f(self.expr))

    def abs_getattr(self, it, name):
        if name == 'astype':
            def astype(it, a, k):
                n = a[0].name if isinstance(a[0], I.ExtV) else str(a[0])
                if 'int' in n and T.isnum(self.expr):
                    if T.is_int_val(self.expr):
                        return self
                    return self.map(lambda e: T.rounding('trunc', e))
                return self
            return M.bi(name, astype)
        if name == 'any':
            return M.bi(name, lambda it, a, k: App('anyelem', (self.expr,) + tuple(self.axes), 'bool'))
        if name == 'all':
            return M.bi(name, lambda it, a, k: App('allelem', (self.expr,) + tuple(self.axes), 'bool'))
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return len(self.shape)
        if name == 'size':
            return self.shape[0]
        if name == 'clip':
            return M.bi(name, lambda it, a, k: np_clip(it, [self] + a, k))
        if name == 'copy':
            return M.bi(name, lambda it, a, k: self)
        raise I.Unsupported('array attribute ' + name)

    def abs_getitem(self, it, i):
        ix = i if isinstance(i, tuple) else (i,)
        shape, axes = [], []
        ax = 0
        for x in ix:
            if x is None:
                shape.append(1)
                axes.append(None)
            elif full_slice(x):
                shape.append(self.shape[ax])
                axes.append(self.axes[ax])
                ax += 1
            else:
                raise I.Unsupported('index of an index array')
        shape.extend(self.shape[ax:])
        axes.extend(self.axes[ax:])
        return ElemV(shape, axes, self.expr)

    def lift(self, it, other, f):
        if isinstance(other, ElemV):
            sh, ax, ea, eb = ebroadcast(it, self, other)
            return ElemV(sh, ax, f(ea, eb))
        if isinstance(other, (Sym, App)) and other.typ in ('int', 'float'):
            other = T.to_poly(other)
        if T.isnum(other) or isinstance(other, bool):
            return self.map(lambda e: f(e, other))
        return NotImplemented

    def abs_binop(self, it, op, other, swapped):
        if op in ('BitAnd', 'BitOr'):
            name = 'and' if op == 'BitAnd' else 'or'
            return self.lift(it, other, lambda a, b: logic(name, a, b))
        f = (lambda a, b: it.num_binop(op, b, a)) if swapped else (lambda a, b: it.num_binop(op, a, b))
        return self.lift(it, other, f)

    def abs_compare(self, it, op, other):
        return self.lift(it, other, lambda a, b: it.rel(op, a, b))

    def abs_equal(self, it, other):
        return self.lift(it, other, lambda a, b: it.rel('==', a, b))

    def abs_not(self, it):
        return self.map(lambda e: it.not_(e))

    abs_invert = abs_not

    def abs_neg(self, it):
        return self.map(T.neg)


def logic(op, a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        c, o = (a, b) if isinstance(a, bool) else (b, a)
        if op == 'and':
            return o if c else False
        return True if c else o
    return App(op, (a, b), 'bool')


def ebroadcast(it, a, b):
    n = max(len(a.shape), len(b.shape))
    pad = lambda e: ((1,) * (n - len(e.shape)) + e.shape, (None,) * (n - len(e.axes)) + e.axes)
    (sa, xa), (sb, xb) = pad(a), pad(b)
    shape, axes, env = [], [], {}
    for da, db, va, vb in zip(sa, sb, xa, xb):
        if va is None:
            shape.append(db)
            axes.append(vb)
        elif vb is None:
            shape.append(da)
            axes.append(va)
        else:
            shape.append(da)
            axes.append(va)
            if va != vb:
                env[vb] = T.to_poly(va)
    eb = b.expr
    if env:
        eb = T.subst(eb, env)
    return shape, axes, a.expr, eb


# ------------------------------------------------------------------ contents

def ckey(c):
    return T.keyof(cterm(c))


def cterm(c):
    """A content as a term."""
    if isinstance(c, (list, tuple)) and c and isinstance(c[0], str):
        return App('c:' + c[0], tuple(cterm(x) if isinstance(x, tuple) else I.freeze(x) if not isinstance(x, (int, float, str, bool)) and x is not None else x for x in c[1:]))
    return c


def ctext(c):
    if isinstance(c, tuple) and c and isinstance(c[0], str):
        return '%s(%s)' % (c[0], ', '.join(ctext(x) for x in c[1:]))
    if isinstance(c, ElemV):
        return '[%s]' % T.keyof(c.expr)[:80]
    if isinstance(c, tuple):
        return '(%s)' % ', '.join(ctext(x) for x in c)
    return (T.keyof(c) if isinstance(c, (Sym, App, Poly, Aff)) else str(c))[:120]


# ------------------------------------------------------------------ numpy

def first(it, a, k, name):
    return a[0] if a else k.get(name)


@imodel('numpy.asanyarray', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.ma.asanyarray')
def np_asany(it, a, k):
    raise NotImplementedError       # bound below with the name


def _conv(name):
    base = M.MODELS.get('numpy.' + name)

    def f(it, a, k):
        v = a[0]
        if isinstance(v, ImgV):
            v2 = realize(it, v)
            if name == 'asanyarray':
                return v2
            r = ImgV(v2.content, v2.shape, v2.dtype, False, v2.region if name != 'array' else None)
            if name == 'array' and k.get('copy') is False:
                r.region = v2.region
            if v2.is_masked(it):
                r.cell = [('unmasked', v2.content)]
            else:
                if name != 'array':
                    r.cell = v2.cell
            dt = k.get('dtype', a[1] if len(a) > 1 else None)
            if dt is not None:
                d = dtype_of(it, dt)
                r = r.like(('astype', r.content, d.term), dtype=d)
            return r
        if isinstance(v, ElemV):
            return v
        return (base or M.m_array)(it, a, k)
    return f


for _n in ('asanyarray', 'asarray', 'array', 'ascontiguousarray'):
    IMODELS['numpy.' + _n] = _conv(_n)
IMODELS['numpy.ma.asanyarray'] = _conv('asanyarray')


@imodel('numpy.ma.array', 'numpy.ma.MaskedArray', 'numpy.ma.masked_array', 'numpy.ma.core.MaskedArray')
def np_ma_array(it, a, k):
    data = first(it, a, k, 'data')
    mask = k.get('mask', a[2] if len(a) > 2 else None)
    if not isinstance(data, ImgV):
        raise I.Unsupported('masked array')
    data = realize(it, data)
    if isinstance(mask, ImgV):
        m = mask.content
    elif isinstance(mask, bool):
        m = ('fill', mask)
    else:
        raise I.Unsupported('mask %r' % (mask,))
    dt = dtype_of(it, k['dtype']) if 'dtype' in k else data.dtype
    return ImgV(('masked', data.content, m), data.shape, dt, True, None)


@imodel('numpy.ma.getmaskarray', 'numpy.ma.getmask')
def np_getmask(it, a, k):
    v = a[0]
    if not isinstance(v, ImgV):
        raise I.Unsupported('getmaskarray')
    b = DTypeV(App('dt', ('bool',)), 'b')
    if not v.is_masked(it):
        return v.like(('fill', False), dtype=b, masked=False)
    return v.like(('mask', v.content), dtype=b, masked=False)


def shape_of(it, v):
    if isinstance(v, (tuple, I.ListV)):
        return tuple(it.asnum(x) for x in it.iterate(v))
    return (it.asnum(v),)


@imodel('numpy.full', 'numpy.zeros', 'numpy.ones', 'numpy.empty')
def np_full(it, a, k):
    raise NotImplementedError


def _alloc(name):
    def f(it, a, k):
        sh = shape_of(it, first(it, a, k, 'shape'))
        pos = 2 if name == 'full' else 1
        dt = k.get('dtype', a[pos] if len(a) > pos else None)
        if name == 'full':
            v = k.get('fill_value', a[1] if len(a) > 1 else None)
            c = ('fill', I.freeze(v))
            d = dtype_of(it, dt) if dt is not None else DTypeV(App('dt', ('float64',)), 'f')
        else:
            c = {'zeros': ('fill', 0), 'ones': ('fill', 1), 'empty': ('garbage', it.sym('empty').name)}[name]
            d = dtype_of(it, dt)
        if len(sh) > 1:
            for x in sh[:2]:
                if x is None:
                    it.raise_('TypeError', 'shape of None')
        return ImgV(c, sh, d)
    return f


for _n in ('full', 'zeros', 'ones', 'empty'):
    IMODELS['numpy.' + _n] = _alloc(_n)


def _alloc_like(name):
    def f(it, a, k):
        v = first(it, a, k, 'prototype' if 'prototype' in k else 'a')
        if not isinstance(v, ImgV):
            raise I.Unsupported(name)
        v = realize(it, v)
        d = k.get('dtype')
        pos = 2 if name == 'full' else 1
        if d is None and len(a) > pos:
            d = a[pos]
        if name == 'full':
            c = ('fill', I.freeze(k.get('fill_value', a[1] if len(a) > 1 else None)))
        else:
            c = {'zeros': ('fill', 0), 'ones': ('fill', 1), 'empty': ('garbage', it.sym('empty').name)}[name]
        if v.is_masked(it):
            raise I.Unsupported(name + '_like of a masked array')
        return ImgV(c, v.shape, v.dtype if d is None else dtype_of(it, d))
    return f


for _n in ('full', 'zeros', 'ones', 'empty'):
    IMODELS['numpy.%s_like' % _n] = _alloc_like(_n)


@imodel('numpy.ma.masked_all')
def np_masked_all(it, a, k):
    r = IMODELS['numpy.empty'](it, a, k)
    return ImgV(('masked', r.content, ('fill', True)), r.shape, r.dtype, True, None)


def _concat(name):
    def f(it, a, k):
        parts = list(it.iterate(a[0] if a else k['arrays']))
        axis = k.get('axis', a[1] if len(a) > 1 else (0 if name != 'dstack' else 2))
        if not parts:
            it.raise_('ValueError', 'need at least one array to concatenate')
        if not all(isinstance(p, ImgV) for p in parts):
            raise I.Unsupported('concatenate')
        parts = [realize(it, p) for p in parts]
        ax = T.const_of(axis)
        masked = [p.is_masked(it) for p in parts]
        keep = any(masked) and name == 'ma'
        nd = len(parts[0].shape)
        if any(len(p.shape) != nd for p in parts):
            it.raise_('ValueError', 'all the input array dimensions must match')
        if ax is not None and ax < 0:
            ax += nd
        if ax is None or ax >= nd:
            it.raise_('AxisError' if False else 'ValueError', 'axis out of bounds')
        sh = list(parts[0].shape)
        n = 0
        for p in parts:
            n = T.add(n, p.shape[ax])
        sh[ax] = n
        cs = tuple(p.content for p in parts)
        c = ('cat', ax, cs)
        if any(masked) and not keep:
            c = ('unmasked', c)
        if name == 'ma' and not any(masked):
            pass
        return ImgV(c, sh, parts[0].dtype, True if name == 'ma' and any(masked) else (name == 'ma'), None, extra={'parts': parts})
    return f


IMODELS['numpy.concatenate'] = _concat('np')
IMODELS['numpy.dstack'] = _concat('dstack')
IMODELS['numpy.ma.concatenate'] = _concat('ma')


@imodel('numpy.arange')
def np_arange(it, a, k):
    if len(a) == 1 and not k:
        n = it.asnum(a[0])
        v = it.sym('i', 'int', lo=0)
        return ElemV((n,), (v,), T.to_poly(v))
    raise I.Unsupported('arange')


def _round(op):
    base = M.MODELS.get('numpy.' + op)

    def f(it, a, k):
        if isinstance(a[0], ElemV):
            return a[0].map(lambda e: T.rounding(op if op != 'fix' else 'trunc', e))
        if base is None:
            raise I.Unsupported(op)
        return base(it, a, k)
    return f


for _n in ('floor', 'ceil'):
    IMODELS['numpy.' + _n] = _round(_n)


def _rint(it, a, k):
    if isinstance(a[0], ElemV):
        return a[0].map(lambda e: T.rounding('floor', T.add(e, Fraction(1, 2))))
    c = T.const_of(a[0]) if T.isnum(a[0]) else None
    if c is not None and len(a) == 1 and not k:
        return float(round(c))
    raise I.Unsupported('numpy.round')


IMODELS['numpy.round'] = IMODELS['numpy.rint'] = IMODELS['numpy.around'] = _rint


def np_clip(it, a, k):
    v = a[0]
    if isinstance(v, ElemV):
        lo = k.get('a_min', k.get('min', a[1] if len(a) > 1 else None))
        hi = k.get('a_max', k.get('max', a[2] if len(a) > 2 else None))

        def f(e):
            if lo is not None:
                e = T.minmax('max', [e, it.asnum(lo)])
            if hi is not None:
                e = T.minmax('min', [e, it.asnum(hi)])
            return e
        return v.map(f)
    if isinstance(v, ImgV):
        if k.get('out') is v:
            it.write_check(v, 'arrwrite', 'clip(out=)')
        raise I.Unsupported('clip of an image')
    return M.m_clip(it, a, k)


IMODELS['numpy.clip'] = np_clip


def _emax(op):
    def f(it, a, k):
        if len(a) == 2 and any(isinstance(x, ElemV) for x in a) and not k:
            x, y = a if isinstance(a[0], ElemV) else a[::-1]
            if not isinstance(y, ElemV):
                y = it.asnum(y)
            r = x.lift(it, y, lambda p, q: T.minmax(op, [p, q]))
            if r is not NotImplemented:
                return r
        return M.MODELS['numpy.%simum' % op](it, a, k)
    return f


for _op in ('max', 'min'):
    IMODELS['numpy.%simum' % _op] = _emax(_op)


@imodel('numpy.logical_and', 'numpy.bitwise_and')
def np_and(it, a, k):
    return it.binop('BitAnd', a[0], a[1])


@imodel('numpy.isnan')
def np_isnan(it, a, k):
    if isinstance(a[0], ImgV):
        return a[0].like(('isnan', a[0].content), dtype=DTypeV(App('dt', ('bool',)), 'b'))
    if a[0] == 'nan':
        return True
    return M.m_isnan(it, a, k)


def _ufunc(name, dtype=None):
    base = M.MODELS.get('numpy.' + name)

    def f(it, a, k):
        if a and isinstance(a[0], SelV):
            return SelV(a[0].img.like(('fn', name, a[0].img.content)), a[0].sel)
        if not (a and isinstance(a[0], ImgV)):
            if base is None:
                raise I.Unsupported('numpy.' + name)
            return base(it, a, k)
        out = k.get('out')
        if isinstance(out, ImgV):
            it.write_check(out, 'arrwrite', name + '(out=)')
            out.cell[0] = ('fn', name, a[0].content)
            return out
        img = realize(it, a[0])
        rest = tuple(x.content if isinstance(x, ImgV) else ('const', I.freeze(x)) for x in a[1:])
        return img.like(('fn', name, img.content) + rest, dtype=DTypeV(App('dt', ('bool',)), 'b') if dtype == 'b' else img.dtype)
    return f


for _n in ('isfinite', 'isinf', 'logical_not', 'invert'):
    IMODELS['numpy.' + _n] = _ufunc(_n, 'b')
for _n in ('sqrt', 'exp', 'log', 'square', 'absolute', 'negative', 'nan_to_num', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'rint'):
    IMODELS['numpy.' + _n] = _ufunc(_n)


@imodel('numpy.dtype')
def np_dtype(it, a, k):
    return dtype_of(it, a[0])


@imodel('numpy.result_type', 'numpy.promote_types')
def np_result_type(it, a, k):
    return DTypeV(App('dt', ('promote',) + tuple(I.freeze(x) for x in a)), 'f')


@imodel('numpy.unique')
def np_unique(it, a, k):
    if isinstance(a[0], (ImgV, SelV)):
        return UniqueV()
    raise I.Unsupported('unique')


class UniqueV:
    n = 0
    hid = 0

    def __init__(self):
        UniqueV.n += 1
        self.hid = UniqueV.n

    key = 'unique'

    def abs_getitem(self, it, i):
        return self

    def abs_getattr(self, it, name):
        if name == 'size':
            return T.to_poly(it.sym('unique', 'int', lo=0))
        return M.bi(name, lambda it, a, k: App('unique'))


# ------------------------------------------------------------------ kwimage / kwarray / xarray

@imodel('kwarray.atleast_nd')
def kw_atleast(it, a, k):
    arr = a[0]
    n = T.const_of(k.get('n', a[1] if len(a) > 1 else None))
    front = k.get('front', a[2] if len(a) > 2 else False)
    if not isinstance(arr, ImgV):
        raise I.Unsupported('atleast_nd of %r' % (arr,))
    arr = arr if not arr.is_lazy(it) else realize(it, arr)
    if len(arr.shape) >= n:
        return arr
    if front:
        return ImgV(('axis', arr.content), (1,) * (n - len(arr.shape)) + arr.shape, arr.dtype, arr.masked, arr.region)
    r = ImgV(arr.content, arr.shape + (1,) * (n - len(arr.shape)), arr.dtype, arr.masked, arr.region)
    r.cell = arr.cell
    return r


@imodel('numpy.atleast_3d')
def np_atleast3(it, a, k):
    if isinstance(a[0], ImgV):
        return kw_atleast(it, [a[0], 3], {})
    raise I.Unsupported('atleast_3d')


@imodel('kwimage.num_channels')
def kw_num_channels(it, a, k):
    v = a[0]
    if not isinstance(v, ImgV):
        return T.to_poly(App('numel', (I.freeze(v),), 'int'))
    return v.shape[2] if len(v.shape) == 3 else 1


def dims_arg(it, v):
    if v is None:
        return None
    if isinstance(v, str):
        return v
    return tuple(it.asnum(x) for x in it.iterate(v))


@imodel('kwimage.imresize')
def kw_imresize(it, a, k):
    img = a[0]
    if not isinstance(img, ImgV):
        raise I.Unsupported('imresize')
    scale = k.get('scale', a[1] if len(a) > 1 else None)
    dsize = dims_arg(it, k.get('dsize', a[2] if len(a) > 2 else None))
    if scale is not None or dsize is None or isinstance(dsize, str):
        raise I.Unsupported('imresize without dsize')
    interp = k.get('interpolation')
    w, h = dsize
    if w is None or h is None:
        raise I.Unsupported('imresize with one size')
    c = img.content
    if img.is_masked(it):
        c = ('unmasked', c)
    sh = (h, w) + tuple(img.shape[2:])
    c = ('resize', c, (img.shape[1], img.shape[0]), (w, h), I.freeze(interp))
    r = ImgV(c, sh, img.dtype, False)
    # a trailing dimension of length 1 may be dropped by the resampling
    return r


WARP_ARGS = ('image', 'transform', 'dsize', 'antialias', 'interpolation', 'border_mode', 'border_value',
             'large_warp_dim', 'return_info', 'origin_convention', 'backend')
WARP_DEFAULTS = {'dsize': None, 'antialias': False, 'interpolation': 'linear', 'border_mode': None, 'border_value': 0,
                 'large_warp_dim': None, 'return_info': False, 'origin_convention': 'center', 'backend': 'auto'}


@imodel('numpy.flipud')
def np_flipud(it, a, k):
    return a[0].abs_getitem(it, (I.SliceV(None, None, -1),))


@imodel('numpy.fliplr')
def np_fliplr(it, a, k):
    return a[0].abs_getitem(it, (I.SliceV(None, None), I.SliceV(None, None, -1)))


@imodel('numpy.flip')
def np_flip(it, a, k):
    ax = first(it, a[1:], k, 'axis') if len(a) > 1 or 'axis' in k else None
    if ax not in (0, 1):
        raise I.Unsupported('flip')
    return (np_flipud if ax == 0 else np_fliplr)(it, a[:1], {})


@imodel('kwimage.warp_affine')
def kw_warp_affine(it, a, k):
    p = dict(WARP_DEFAULTS)
    p.update(zip(WARP_ARGS, a))
    p.update(k)
    img = p.pop('image')
    tf = p.pop('transform')
    if not isinstance(img, ImgV):
        raise I.Unsupported('warp_affine')
    img = realize(it, img)
    aff = M.to_aff(it, tf)
    if aff is None:
        raise I.Unsupported('transform %r' % (tf,))
    dsize = dims_arg(it, p['dsize'])
    if dsize is None:
        sh = img.shape
    elif isinstance(dsize, str):
        raise I.Unsupported('dsize ' + dsize)
    else:
        sh = (dsize[1], dsize[0]) + tuple(img.shape[2:])
    if p['return_info']:
        raise I.Unsupported('return_info')
    if p['antialias'] is not False:
        # the library prepares the data by the logarithm of the scales
        sy = M.decompose(it, it.canon(aff)).d['scale'][1]
        if it.truth(p['antialias']) and it.truth(it.rel('<', sy, 0)):
            it.raise_('ValueError', 'kwimage.warp_affine cannot antialias a mirrored transform')
    c = ('warp', img.content, aff, Params({n: I.freeze(v) for n, v in p.items() if n != 'dsize'}), (img.shape[1], img.shape[0]))
    return ImgV(c, sh, img.dtype, img.masked, None, extra={'params': p})


class Params:
    """The parameters of a resampling."""

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(sorted(self.d.items()))

    key = property(lambda self: 'params(%s)' % ','.join('%s=%s' % (k, T.keyof(v)) for k, v in self))

    __str__ = __repr__ = lambda self: self.key


class XrV:
    """An xarray.DataArray."""

    def __init__(self, img, dims, coords):
        self.img, self.dims, self.coords = img, dims, coords

    key = property(lambda self: 'xr(%s)' % self.img.key)

    def abs_getitem(self, it, i):
        if full_slice(i):
            return self
        raise I.Unsupported('index of a DataArray')


@imodel('xarray.DataArray')
def xr_dataarray(it, a, k):
    data = first(it, a, k, 'data')
    if not isinstance(data, ImgV):
        raise I.Unsupported('DataArray')
    dims = k.get('dims', a[2] if len(a) > 2 else None)
    coords = k.get('coords', a[1] if len(a) > 1 else None)
    data = realize(it, data)
    if isinstance(dims, tuple) and len(dims) != len(data.shape):
        it.raise_('ValueError', 'different number of dimensions on data and dims')
    return XrV(data, dims, coords)


@imodel('xarray.where')
def xr_where(it, a, k):
    raise I.Unsupported('xarray.where')


@imodel('re.findall')
def re_findall(it, a, k):
    import re
    if all(isinstance(x, str) for x in a):
        return I.ListV(list(re.findall(a[0], a[1])))
    raise I.Unsupported('findall')


@imodel('numpy.fromiter', 'numpy.take', 'numpy.moveaxis', 'numpy.swapaxes', 'numpy.copyto', 'numpy.put', 'numpy.place',
        'numpy.where', 'numpy.ix_', 'numpy.meshgrid', 'numpy.linspace', 'numpy.indices',
        'numpy.ma.masked_where', 'numpy.ma.filled', 'numpy.pad', 'numpy.expand_dims', 'numpy.putmask')
def np_unsupported(it, a, k):
    for x in list(a) + list(k.values()):
        if isinstance(x, ImgV) and x.owner != 'fresh':
            pass
    raise I.Unsupported('numpy function on an image')


IMODELS['kwimage.__version__'] = '0.12.0'
IMODELS['cv2.__version__'] = '4.12.0'
