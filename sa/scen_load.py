"""
Reading of files: what the lazy references and the file leaves deliver.
"""
from . import terms as T
from . import interp as I
from . import models as M
from . import nodes as N
from . import images as G
from . import raster as R
from .scen import scenario
from .terms import Sym, App

ZL = 'delayed_image.lazy_loaders'
GD = 'delayed_image/lazy_loaders.py:LazyGDalFrameFile'


def prep(it):
    it.models.update(R.RMODELS)
    it.global_overrides[(ZL, '_have_gdal')] = M.bi('_have_gdal', lambda it, a, k: it.cx.get('gdal', True))
    it.global_overrides[(ZL, 'debug_array_event')] = M.bi('debug_array_event', lambda it, a, k: None)
    it.global_overrides[('delayed_image.debug_utils', 'debug_array_event')] = M.bi('debug_array_event', lambda it, a, k: None)


def start(it):
    it.effects = []
    it.frames = []


def setup_file(it, cx, n=None, overview=None, faults=0, nodata='mixed', method=Ellipsis, detached=None):
    n = n or (1, 3)[it.choose(2)]
    nover = 2
    overview = it.choose(3) if overview is None else overview
    if detached is None:
        detached = 'own' if overview == 0 else ('own', 'none', 'base')[it.choose(3)]
    f = R.FileV(it, n, nover, detached, faults, nodata)
    cx['file'] = f
    cx['overview'] = overview
    cx['method'] = (None, 'ma', 'float', 'nan', 'auto')[it.choose(5)] if method is Ellipsis else method
    fast = it.choose(2)
    it.global_overrides[(ZL, 'GDAL_FAST_PATH')] = fast
    it.global_overrides[('delayed_image.constants', 'GDAL_FAST_PATH')] = fast
    return f


def gdal_file(it, cx, **kw):
    f = setup_file(it, cx, **kw)
    cls = it.module_attr(ZL, 'LazyGDalFrameFile')
    ref = it.call(cls, ['image.tif'], {'nodata_method': cx['method'], 'overview': cx['overview']})
    cx['ref'] = ref
    return ref, f


def bounds(it, hi=None, below=False):
    """0 <= a <= b (<= hi)"""
    a, b = it.sym('a', 'int', lo=0), it.sym('b', 'int', lo=0)
    it.assume(it.rel('<=', T.to_poly(a), T.to_poly(b)))
    if hi is not None:
        it.assume(it.rel('<=', T.to_poly(b), hi))
    return T.to_poly(a), T.to_poly(b)


def clip(it, a, b, d):
    a, b = it.min(a, d), it.min(b, d)
    return a, it.max(a, b)


def want(cx, it, level, y, x, bands):
    cx.update(level=level, y=y, x=x, bands=list(bands))


# ------------------------------------------------------------------ obligations

def norm(v):
    if isinstance(v, tuple) and v and v[0] == 'where':
        m = norm(v[1])
        if m == ('fill', False):
            return norm(v[3])
        return ('where', m, v[2], norm(v[3]))
    if isinstance(v, tuple) and v and v[0] == 'or':
        a, b = norm(v[1]), norm(v[2])
        return b if a == ('fill', False) else a if b == ('fill', False) or a == b else ('or', a, b)
    if isinstance(v, tuple) and v and v[0] == 'cmp' and v[1] in ('==', 'Eq'):
        return ('eq', norm(v[2]), v[3])
    if isinstance(v, tuple) and v and v[0] == 'not':
        a = norm(v[1])
        if isinstance(a, tuple) and a[0] == 'not':
            return a[1]
        if isinstance(a, tuple) and a[0] == 'fill' and isinstance(a[1], bool):
            return ('fill', not a[1])
        if isinstance(a, tuple) and a[0] == 'cmp' and a[1] in ('!=', 'NotEq'):
            return ('eq', norm(a[2]), a[3])
        return ('not', a)
    return v


def place(v):
    """(level, band, y, x) of the pixels of a cell."""
    dy, dx = 0, 0
    while isinstance(v, tuple) and v[0] == 'win':
        dy, dx = T.add(dy, v[2]), T.add(dx, v[3])
        v = v[1]
    if isinstance(v, tuple) and v[0] == 'read':
        return v[1], v[2], T.add(v[3], dy), T.add(v[4], dx)
    return None


def number(v):
    try:
        return T.keyof(T.to_poly(v))
    except (ValueError, OverflowError):
        return T.keyof(v)


def check_cell(tr, v, what, level, band, y, x, size):
    p = place(v)
    tr.count('obligations')
    if p is None:
        tr.fail('window', '%s holds %s instead of pixels of the file' % (what, R.ctext(v)[:120]))
        return False
    lv, b, py, px = p
    if lv != level:
        tr.fail('window', '%s is read at overview level %d instead of %d' % (what, lv, level))
        return False
    if b != band:
        tr.fail('band order', '%s is band %d of the file instead of band %d' % (what, b, band))
        return False
    tr.count('discharged')
    return tr.num_eq('window', 'first row of ' + what, py, y) and tr.num_eq('window', 'first column of ' + what, px, x)


def is_nan(v):
    return v == ('fill', 'nan') or isinstance(v, tuple) and v[0] == 'fill' and isinstance(v[1], float) and v[1] != v[1]


def check_values(tr, r, f):
    """No value of the file is lost on the way."""
    src = R.DT.GDAL[f.code]
    tr.count('obligations')
    for d in r.via + (r.dtype,):
        n = R.DT.resolve(d.term)
        if n is None:
            tr.count('undecided')
            return
        if not R.DT.holds(n, src):
            tr.fail('values', '%s values of a file are converted to %s, which does not hold all of them' % (src, n))
            return
    tr.count('discharged')


def check_read(tr, r, f, level, y, x, bands, method):
    it = tr.it
    if not isinstance(r, R.RasterV):
        tr.fail('layout', 'delivers %r instead of an array' % (r,))
        return
    axes = tuple(a for a in r.axes if a != '1') if len(bands) != 1 else r.axes
    if not (axes == ('y', 'x', 'c') or len(bands) == 1 and axes in (('y', 'x'), ('y', 'x', '1'))):
        tr.fail('layout', 'delivers an array with the axes %s instead of rows, columns, bands' % (axes,))
        return
    if not tr.num_eq('layout', 'number of rows', r.h, T.sub(y[1], y[0])) or not tr.num_eq('layout', 'number of columns', r.w, T.sub(x[1], x[0])):
        return
    if len(r.cells) != len(bands):
        tr.fail('band order', 'delivers %d bands instead of %d' % (len(r.cells), len(bands)))
        return
    check_values(tr, r, f)
    if method == 'auto':
        method = 'float'
    for i, (c, b) in enumerate(zip(r.cells, bands)):
        what = 'band %d of the result' % i
        v = norm(c.v)
        nd = f.nodata[b]
        mask = ('fill', False)
        if method in ('float', 'nan') and isinstance(v, tuple) and v[0] == 'where':
            if not is_nan(v[2]):
                tr.fail('missing data', '%s: missing pixels are set to %s' % (what, R.ctext(v[2])))
                return
            mask, v = norm(v[1]), norm(v[3])
            if r.dtype.kind not in ('f', None):
                tr.fail('missing data', 'nan in an array that is not a float array')
        elif method == 'ma' and r.mask is not None:
            if r.mask.axes != r.axes or len(r.mask.cells) != len(r.cells):
                tr.fail('missing data', 'the mask has another layout than the data')
                return
            mask = norm(r.mask.cells[i].v)
        if not check_cell(tr, v, what, level, b, y[0], x[0], None):
            return
        tr.count('obligations')
        if method is None:
            if r.mask is not None:
                tr.fail('missing data', 'a mask that was not asked for')
            continue
        if method == 'ma' and r.mask is None:
            tr.fail('missing data', 'no mask')
            return
        if nd is None:
            if mask != ('fill', False) and mask[0] not in ('eq', 'fill'):
                tr.count('undecided')
            elif mask != ('fill', False):
                tr.fail('missing data', '%s has no missing data but is masked by %s' % (what, R.ctext(mask)[:100]))
            continue
        if mask == ('fill', False):
            tr.fail('missing data', '%s: the missing data is not masked' % what)
            continue
        if mask[0] != 'eq' or place(mask[1]) is None:
            tr.count('undecided')
            continue
        if number(mask[2]) != number(I.freeze(nd)) or place(mask[1])[:2] != (level, b):
            tr.fail('missing data', '%s is masked by %s instead of its own missing data value' % (what, R.ctext(mask)[:100]))
            continue
        tr.count('discharged')
    if method in ('float', 'nan') and any(f.nodata[b] is not None for b in bands) and r.mask is not None:
        tr.fail('missing data', 'a mask that was not asked for')


def chk_read(tr, cx):
    if tr.kind == 'undecided':
        return
    f = cx['file']
    if tr.kind == 'raise':
        if getattr(f, 'failed', False) or cx.get('may_raise'):
            return
        tr.no_raise('fails')
        return
    if cx.get('must_raise'):
        tr.fail('window', 'delivers pixels although the file has no such overview')
        return
    check_read(tr, tr.value, f, cx['level'], cx['y'], cx['x'], cx['bands'], cx['method'])
    for e in f.log:
        if e[0] == 'open':
            tr.count('obligations')
            if e[2] not in (0, 'r') and not (isinstance(e[2], I.ExtV) and e[2].name.endswith('GA_ReadOnly')):
                tr.fail('read only', 'the file is opened with the mode %s' % (e[2],))
    tr.no_writes('read only')


# ------------------------------------------------------------------ indices

def chan_index(it, n):
    """(index or Ellipsis for none, bands)"""
    opts = [(None, range(n)), (I.ListV([0], 'user'), [0])]
    if n > 1:
        opts = [(None, range(n)), (I.ListV([2, 0], 'user'), [2, 0]), (I.ListV([1], 'user'), [1]), (I.SliceV(1, 3), [1, 2]), (I.SliceV(None, 2), [0, 1]), (I.ListV([1, 1, 0], 'user'), [1, 1, 0]), (I.ListV([], 'user'), [])]
    return opts[it.choose(len(opts))]


def file_window(n, level):
    def run(it, cx):
        ref, f = gdal_file(it, cx, n=n, overview=level, detached='own', method=(None, 'ma', 'float')[it.choose(3)])
        H, W = f.sizes[cx['overview']]
        y, x = bounds(it, H), bounds(it, W)
        ci, bands = chan_index(it, f.n)
        want(cx, it, cx['overview'], y, x, bands)
        index = (I.SliceV(*y), I.SliceV(*x)) + (() if ci is None else (ci,))
        start(it)
        return it.getitem(ref, index)
    return run


for _n in (1, 3):
    for _l in (0, 1, 2):
        scenario(['L'], GD + '.__getitem__', chk_read, name='file window %d bands level %d' % (_n, _l), prep=prep, max_paths=4000)(file_window(_n, _l))


@scenario(['L'], GD + '.__getitem__', chk_read, name='file value types', prep=prep, max_paths=4000)
def file_types(it, cx):
    ref, f = gdal_file(it, cx, n=2, overview=0, method=(None, 'ma', 'float')[it.choose(3)])
    f.code = 1 + it.choose(7)
    H, W = f.sizes[0]
    bands = [0, 1] if it.choose(2) else [1]
    want(cx, it, 0, (0, H), (0, W), bands)
    start(it)
    return it.getitem(ref, (I.SliceV(0, H), I.SliceV(0, W), I.ListV(bands, 'user')))


@scenario(['L'], GD + '.__getitem__', chk_read, name='file missing data', prep=prep, max_paths=4000)
def file_nodata(it, cx):
    ref, f = gdal_file(it, cx, overview=0, nodata=('mixed', 'none', 'all')[it.choose(3)])
    y, x = bounds(it, f.sizes[0][0]), (0, f.sizes[0][1])
    want(cx, it, 0, y, x, range(f.n))
    start(it)
    return it.getitem(ref, (I.SliceV(*y), I.SliceV(None, None)))


@scenario(['L'], GD + '.__getitem__', chk_read, name='file window beyond', prep=prep, max_paths=3000)
def file_beyond(it, cx):
    ref, f = gdal_file(it, cx, detached='own', method=None)
    H, W = f.sizes[cx['overview']]
    y, x = bounds(it), bounds(it)
    want(cx, it, cx['overview'], clip(it, *y, H), clip(it, *x, W), range(f.n))
    start(it)
    return it.getitem(ref, (I.SliceV(*y), I.SliceV(*x)))


@scenario(['L'], GD + '.__getitem__', chk_read, name='file index forms', prep=prep, max_paths=3000)
def file_forms(it, cx):
    ref, f = gdal_file(it, cx, detached='own', overview=it.choose(2), method=None)
    H, W = f.sizes[cx['overview']]
    full = I.SliceV(None, None)
    y, x, bands = (0, H), (0, W), range(f.n)
    i = it.choose(9)
    if i == 0:
        index = full
    elif i == 1:
        index = Ellipsis
    elif i == 2:
        y = bounds(it, H)
        index = I.SliceV(*y)
    elif i == 3:
        bands = [f.n - 1]
        index = (Ellipsis, I.ListV([f.n - 1], 'user'))
    elif i == 4:
        y = bounds(it, H)
        index = (I.SliceV(*y), Ellipsis, I.SliceV(0, 1))
        bands = [0]
    elif i == 5:
        y = bounds(it, H)
        y = (y[0], H)
        index = (I.SliceV(y[0], None), full, full)
    elif i == 6:
        k = T.to_poly(it.sym('k', 'int', lo=1))
        it.assume(it.rel('<=', k, W))
        x = (0, T.sub(W, k))
        index = (full, I.SliceV(None, T.neg(k) if hasattr(T, 'neg') else T.sub(0, k)))
    elif i == 7:
        y = bounds(it, H)
        index = I.ListV([I.SliceV(*y), full], 'user') if it.choose(2) else (I.SliceV(*y), full)
    else:
        index = (Ellipsis, I.SliceV(None, 1))
        bands = [0]
    want(cx, it, cx['overview'], y, x, bands)
    start(it)
    return it.getitem(ref, index)


@scenario(['L'], GD + '.__getitem__', chk_read, name='file read fails', prep=prep, max_paths=6000)
def file_faults(it, cx):
    ref, f = gdal_file(it, cx, faults=2, overview=(0, 1)[it.choose(2)], detached='own', method=(None, 'float')[it.choose(2)])
    H, W = f.sizes[cx['overview']]
    y, x = bounds(it, H), (0, W)
    bands = range(f.n)
    want(cx, it, cx['overview'], y, x, bands)
    start(it)
    return it.getitem(ref, (I.SliceV(*y),))


@scenario(['L'], GD + '.__getitem__', chk_read, name='file without overview', prep=prep)
def file_no_overview(it, cx):
    ref, f = gdal_file(it, cx, overview=3, detached='own')
    cx['must_raise'] = cx['may_raise'] = True
    start(it)
    return it.getitem(ref, (I.SliceV(0, 1), I.SliceV(0, 1)))


@scenario(['L'], GD + '.get_overview', chk_read, name='overview of a file', prep=prep)
def file_overview(it, cx):
    ref, f = gdal_file(it, cx, overview=it.choose(2), method='ma')
    if it.choose(2):
        lvl = cx['overview'] + 1
        new = it.call_method(ref, 'get_overview', [1])
    else:
        lvl = it.choose(3)
        new = it.call_method(ref, 'get_absolute_overview', [lvl])
    H, W = f.sizes[lvl]
    y, x = bounds(it, H), (0, W)
    want(cx, it, lvl, y, x, range(f.n))
    start(it)
    return it.getitem(new, (I.SliceV(*y),))


def chk_meta(tr, cx):
    if tr.kind == 'undecided':
        return
    f = cx['file']
    if tr.kind == 'raise':
        if cx['level'] <= f.nover:
            tr.no_raise('fails')
        return
    v = tr.value
    if cx['level'] > f.nover:
        tr.fail('shape of a file', 'reports a shape for an overview that the file does not have')
        return
    shape, nover, ndim = v
    h, w = f.sizes[cx['level']]
    if not isinstance(shape, tuple) or len(shape) != 3:
        tr.fail('shape of a file', 'the shape is %s' % (shape,))
        return
    for a, b, nm in zip(shape, (h, w, f.n), ('height', 'width', 'number of bands')):
        tr.num_eq('shape of a file', 'the ' + nm, a, b)
    tr.num_eq('shape of a file', 'number of remaining overviews', nover, f.nover - cx['level'])
    tr.num_eq('shape of a file', 'number of axes', ndim, 3)
    tr.count('obligations')
    if any(e[0] == 'read' for e in f.log):
        tr.fail('lazy', 'pixels are read to find the shape of the file')


@scenario(['L'], GD + '.shape', chk_meta, name='shape of a file', prep=prep)
def file_shape(it, cx):
    ref, f = gdal_file(it, cx, detached='own', method=None, overview=it.choose(4))
    cx['level'] = cx['overview']
    start(it)
    if it.choose(2):
        lvl = it.choose(4)
        cx['level'] = lvl
        ref = it.call_method(ref, 'get_absolute_overview', [lvl])
    return (it.getattr(ref, 'shape'), it.getattr(ref, 'num_overviews'), it.getattr(ref, 'ndim'))


# ------------------------------------------------------------------ other readers

def other(name):
    def run(it, cx):
        f = setup_file(it, cx, overview=0, method=None, nodata='none', detached='own')
        cls = it.module_attr(ZL, name)
        ref = it.call(cls, ['image.tif'], {})
        H, W = f.sizes[0]
        y, x = bounds(it, H), bounds(it, W)
        ci, bands = chan_index(it, f.n)
        if len(bands) == 0:
            cx['may_raise'] = True
        k = it.choose(3)
        if k == 0:
            index = (I.SliceV(*y), I.SliceV(*x)) + (() if ci is None else (ci,))
        elif k == 1:
            index, x, bands = I.SliceV(*y), (0, W), range(f.n)
        else:
            index, y, x = (I.SliceV(None, None), I.SliceV(None, None)) + (() if ci is None else (ci,)), (0, H), (0, W)
        want(cx, it, 0, y, x, bands)
        start(it)
        return it.getitem(ref, index)
    return run


scenario(['L'], 'delayed_image/lazy_loaders.py:LazyRasterIOFrameFile.__getitem__', chk_read, name='rasterio window', prep=prep)(other('LazyRasterIOFrameFile'))
scenario(['L'], 'delayed_image/lazy_loaders.py:LazySpectralFrameFile.__getitem__', chk_read, name='spectral window', prep=prep)(other('LazySpectralFrameFile'))


def other_shape(name):
    def run(it, cx):
        f = setup_file(it, cx, overview=0, method=None, nodata='none', detached='own')
        f.nover = 0
        cx['level'] = 0
        cls = it.module_attr(ZL, name)
        ref = it.call(cls, ['image.tif'], {})
        start(it)
        return (it.getattr(ref, 'shape'), 0, it.getattr(ref, 'ndim'))
    return run


scenario(['L'], 'delayed_image/lazy_loaders.py:LazyRasterIOFrameFile.shape', chk_meta, name='rasterio shape', prep=prep)(other_shape('LazyRasterIOFrameFile'))
scenario(['L'], 'delayed_image/lazy_loaders.py:LazySpectralFrameFile.shape', chk_meta, name='spectral shape', prep=prep)(other_shape('LazySpectralFrameFile'))


# ------------------------------------------------------------------ file leaves

LF = 'delayed_image.delayed_leafs'
LN = 'delayed_image/delayed_leafs.py:DelayedLoad'


def load_models(it):
    def shape(it, a, k):
        f = it.cx['file']
        f.log.append(('shape', I.freeze(a[0])))
        h, w = f.sizes[0]
        return (h, w) if f.n == 1 and it.choose(2) else (h, w, f.n)

    def imread(it, a, k):
        f = it.cx['file']
        f.log.append(('imread', I.freeze(a[0])))
        h, w = f.sizes[0]
        flat = f.n == 1 and it.choose(2)
        cells = [R.Cell(('read', 0, b, 0, 0)) for b in range(f.n)]
        return R.RasterV(cells, ('y', 'x') if flat else ('y', 'x', 'c'), (h, w), f.dt)
    it.models['kwimage.load_image_shape'] = shape
    it.models['kwimage.im_io.load_image_shape'] = shape
    it.models['kwimage.imread'] = imread
    it.models['warnings.warn'] = lambda it, a, k: None


def prep_load(it):
    prep(it)
    load_models(it)


def make_load(it, cx, **kw):
    cls = it.module_attr(LF, 'DelayedLoad')
    return it.call(cls, ['image.tif'], kw)


def chk_load_meta(tr, cx):
    if not tr.no_raise('fails') or tr.kind != 'return':
        return
    it, f = tr.it, cx['file']
    node = cx['node']
    if tr.value is not node:
        tr.fail('metadata', 'prepare does not return the prepared leaf')
        return
    ds = it.getattr(node, 'dsize')
    H, W = f.sizes[0]
    gw, gh = cx['dsize'] or (None, None)
    w, h = it.unpack(ds, 2) if ds is not None else (None, None)
    tr.num_eq('metadata', 'the width', w, gw if gw is not None and gh is not None else W)
    tr.num_eq('metadata', 'the height', h, gh if gw is not None and gh is not None else H)
    tr.num_eq('metadata', 'the number of bands', it.getattr(node, 'num_channels'), cx['nch'] if cx['nch'] is not None else f.n)
    nov = node.attrs['meta'].d.get('num_overviews')
    if cx['dsize'] is not None and cx['nch'] is not None and cx['nov'] is not None and None not in cx['dsize']:
        tr.same('metadata', 'the number of overviews', nov, cx['nov'])
    elif not (cx['nov'] is not None and T.keyof(nov) == T.keyof(cx['nov'])):
        # a given number is only documented as what is known beforehand, so the file may correct it
        tr.num_eq('metadata', 'the number of overviews', nov, f.nover if cx['gdal'] else 0)
    tr.count('obligations')
    if any(e[0] in ('read', 'imread') for e in f.log):
        tr.fail('lazy', 'pixels are read before the leaf is evaluated')
    for e in f.log:
        if e[0] == 'open' and e[1] != 'image.tif':
            tr.fail('metadata', 'another file is opened: %s' % (e[1],))


@scenario(['L'], LN + '._load_metadata', chk_load_meta, name='load metadata', prep=prep_load)
def load_meta(it, cx):
    cx['gdal'] = bool(it.choose(2))
    f = setup_file(it, cx, overview=0, method=None, nodata='none')
    gw, gh = T.to_poly(it.sym('gw', 'int', lo=1)), T.to_poly(it.sym('gh', 'int', lo=1))
    cx['dsize'] = (None, (gw, gh), (None, None), (gw, None))[it.choose(4)]
    cx['nch'] = (None, 2)[it.choose(2)]
    cx['nov'] = (None, 1)[it.choose(2)]
    kw = {'dsize': cx['dsize'], 'num_overviews': cx['nov']}
    if cx['nch']:
        kw['channels'] = 'a|b'
    node = cx['node'] = make_load(it, cx, **kw)
    start(it)
    return it.call_method(node, 'prepare', [])


def chk_load(tr, cx):
    if tr.kind == 'raise' and not cx['gdal'] and cx['method'] == 'auto':
        tr.count('obligations')
        return
    if not tr.no_raise('fails') or tr.kind != 'return':
        return
    f = cx['file']
    if cx.get('early'):
        tr.fail('lazy', 'pixels are read before the leaf is evaluated')
    method = cx['method'] if cx['gdal'] else None
    check_read(tr, tr.value, f, 0, cx['y'], cx['x'], cx['bands'], method)
    r = tr.value
    if not cx['gdal'] and isinstance(r, R.RasterV) and 'c' not in r.axes and '1' not in r.axes:
        tr.fail('layout', 'delivers an array without a band axis')


@scenario(['L'], LN + '._finalize', chk_load, name='load pixels', prep=prep_load, max_paths=3000)
def load_pixels(it, cx):
    cx['gdal'] = bool(it.choose(2))
    f = setup_file(it, cx, overview=0)
    node = make_load(it, cx, nodata_method=cx['method'])
    start(it)
    k = it.choose(3)
    if k == 1:
        it.call_method(node, 'prepare', [])
    if k == 2 and cx['method'] != 'auto':
        # the method is changed after the file was opened
        it.call_method(node, 'prepare', [])
        cx['method'] = {None: 'float', 'ma': None, 'float': 'ma', 'nan': 'ma'}[cx['method']]
        node.attrs['meta'].d['nodata_method'] = cx['method']
    cx['early'] = any(e[0] in ('read', 'imread') for e in f.log)
    ref = it.call_method(node, '_finalize', [])
    if cx['gdal']:
        cx['early'] = any(e[0] in ('read', 'imread') for e in f.log)
    H, W = f.sizes[0]
    if not cx['gdal']:
        want(cx, it, 0, (0, H), (0, W), range(f.n))
        return ref
    y = bounds(it, H)
    want(cx, it, 0, y, (0, W), range(f.n))
    return it.getitem(ref, (I.SliceV(*y), I.SliceV(None, None)))


def chk_two(tr, cx):
    if not tr.no_raise('fails') or tr.kind != 'return':
        return
    for i, r in enumerate(tr.value):
        check_read(tr, r, cx['file'], 0, cx['y'], cx['x'], cx['bands'], cx['methods'][i])


@scenario(['L'], LN + '._finalize', chk_two, name='two leaves of one file', prep=prep_load)
def load_two(it, cx):
    """Two leaves of one file with different treatment of missing data, with and without the cache of open files."""
    f = setup_file(it, cx, overview=0, method=None)
    if it.choose(2):
        it.global_overrides[(ZL, 'GLOBAL_GDAL_CACHE')] = I.DictV({})
    cx['methods'] = ('ma', 'float') if it.choose(2) else (None, 'ma')
    nodes = [make_load(it, cx, nodata_method=m) for m in cx['methods']]
    start(it)
    refs = []
    order = (0, 1) if it.choose(2) else (1, 0)
    for i in order:
        refs.append((i, it.call_method(nodes[i], '_finalize', [])))
    refs = [r for i, r in sorted(refs, key=lambda q: q[0])]
    H, W = f.sizes[0]
    want(cx, it, 0, (0, H), (0, W), range(f.n))
    return tuple(it.getitem(r, I.SliceV(None, None)) for r in refs)


# ------------------------------------------------------------------ handles

class HandleV(R.Named):
    """An open text file."""
    n = 0

    def __init__(self, it, cx):
        self.cx = cx
        self.closed = False
        HandleV.n += 1
        self.hid = HandleV.n

    key = property(lambda self: 'file handle')

    def lines(self, it):
        if it.choose(2) == 0:
            it.raise_('UnicodeDecodeError', 'invalid start byte', implicit=False)
        return None

    def abs_getattr(self, it, name):
        if name in ('readline', 'read'):
            def rl(it, a, k):
                j = it.choose(4)
                if j == 0:
                    raise I.AbsRaise(UnicodeDecodeError, ('invalid start byte',), it.site())
                if j == 1:
                    raise I.AbsRaise(OSError, ('read failed',), it.site())
                return ('ENVI', 'something else')[j - 2]
            return M.bi(name, rl)
        if name == 'readlines':
            def rls(it, a, k):
                j = it.choose(4)
                if j == 0:
                    raise I.AbsRaise(UnicodeDecodeError, ('invalid start byte',), it.site())
                return I.ListV([['interleave = bsq\n'], ['a = 1\n', 'b = {1,\n'], []][j - 1])
            return M.bi(name, rls)
        if name == 'close':
            def close(it, a, k):
                self.closed = True
            return M.bi(name, close)
        if name == 'closed':
            return self.closed
        if name in ('__enter__', '__exit__'):
            return M.bi(name, lambda it, a, k: self)
        raise I.Unsupported('file attribute ' + name)

    def abs_iter(self, it):
        return list(it.iterate(it.call(self.abs_getattr(it, 'readlines'), [], {})))


def chk_handle(tr, cx):
    if tr.kind == 'undecided':
        return
    managed = [id(e[1]) for e in tr.it.events if e[0] == 'endwith']
    for h in cx.get('handles', ()):
        tr.count('obligations')
        if not h.closed and id(h) not in managed:
            tr.fail('handles', 'the header file stays open when the function ends with %s' % ('an exception' if tr.kind == 'raise' else 'a result'))
        else:
            tr.count('discharged')


def prep_handle(it):
    prep(it)

    def op(it, a, k):
        h = HandleV(it, it.cx)
        it.cx.setdefault('handles', []).append(h)
        return h
    for n in ('builtins.open', 'io.open', 'codecs.open'):
        it.models[n] = op
    it.models['warnings.warn'] = lambda it, a, k: None


@scenario(['L'], 'delayed_image/lazy_loaders.py:_read_envi_header', chk_handle, name='header handles', prep=prep_handle)
def envi_header(it, cx):
    f = it.get_func(ZL, '_read_envi_header')
    start(it)
    return it.call(f, ['image.hdr'], {})
