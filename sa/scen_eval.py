"""
Evaluation of the nodes: what ``_finalize`` of every kind of node delivers,
given what its operand delivers.
"""
import math

from . import terms as T
from . import interp as I
from . import models as M
from . import nodes as N
from . import images as G
from .scen import scenario, Trace
from .terms import Sym, App, Poly, Aff, Undefined, np_mat_inv


# ------------------------------------------------------------------ operands

def src_image(it, node, label=None):
    """The pixels of an operand: lazy or not, masked or not, with two or three axes."""
    label = label or node.label
    if label in it.cx.setdefault('src', {}):
        return it.cx['src'][label]
    w, h = node.dims
    n = it.canon(node.nch) if node.nch is not None else T.to_poly(it.sym(label + '.n', 'int', lo=1))
    shape = (h, w, n)
    lazy = it.sym(label + '.lazy', 'bool') if it.cx.get('lazy', True) else False
    if it.cx.get('flat', True) and it.choose(2) == 1:
        it.assume(it.rel('==', n, 1))
        shape = (h, w)
        lazy = False
    dt = G.DTypeV(Sym(label + '.dtype'))
    img = G.ImgV(('src', label), shape, dt, it.sym(label + '.masked', 'bool'), G.Region('operand', 'the pixels of ' + label), lazy)
    it.cx['src'][label] = img
    return img


def contract_finalize(it, node, a, k):
    it.cx.setdefault('calls', []).append(node)
    return src_image(it, node)


def setup(it):
    it.contracts['_finalize'] = contract_finalize


def root_finalize(it, kind, **meta):
    root = N.make_root(it, kind)
    for k, v in meta.items():
        root.attrs['meta'].d[k] = v
    it.cx['root'] = root
    it.effects = []
    it.frames = []
    f, _ = root.cls.lookup('_finalize')
    return it.call(f, [root], {})


# ------------------------------------------------------------------ pixels

def loc(ev, c, px, py, bands=()):
    """Where the value at a place (corner convention) of some content comes from."""
    op = c[0]
    if op == 'src':
        return ('src', c[1], px, py, bands)
    if op == 'fill':
        return ('fill', c[1])
    if op == 'const':
        return ('fill', c[1])
    if op == 'crop':
        return loc(ev, c[1], px + ev.fl(c[3]), py + ev.fl(c[2]), bands)
    if op == 'mirror':
        n = ev.fl(c[3])
        return loc(ev, c[1], *((px, n - py) if c[2] == 0 else (n - px, py)), bands)
    if op == 'warp':
        m = ev.ev(c[2])
        inv = np_mat_inv(m)
        if inv is None:
            raise Undefined
        q = [inv[i][0] * px + inv[i][1] * py + inv[i][2] for i in (0, 1)]
        w, h = ev.fl(c[4][0]), ev.fl(c[4][1])
        if not (0 <= q[0] <= w and 0 <= q[1] <= h):
            return ('fill', c[3].d['border_value'])
        return loc(ev, c[1], q[0], q[1], bands)
    if op == 'resize':
        (w0, h0), (w1, h1) = c[2], c[3]
        return loc(ev, c[1], px * ev.fl(w0) / ev.fl(w1), py * ev.fl(h0) / ev.fl(h1), bands)
    if op == 'gather':
        y, x = elem(ev, c[2], px, py), elem(ev, c[3], px, py)
        w, h = ev.fl(c[4][0]), ev.fl(c[4][1])
        if not (-w <= x < w and -h <= y < h):
            return ('fails', 'index out of bounds')
        x, y = x % w, y % h
        return loc(ev, c[1], x + .5, y + .5, bands)
    if op == 'where':
        cond = c[1]
        if isinstance(cond, G.ElemV):
            v = elem(ev, cond, px, py)
            return loc(ev, c[2] if v else c[3], px, py, bands)
        return loc(ev, c[3], px, py, bands)
    if op == 'overview':
        s = 2. ** ev.fl(c[2])
        return loc(ev, c[1], px * s, py * s, bands)
    if op == 'take':
        return loc(ev, c[1], px, py, bands + (T.keyof(c[2]),))
    if op in ('astype', 'unmasked', 'masked', 'data', 'axis', 'edited'):
        return loc(ev, c[1], px, py, bands)
    if op == 'dequant':
        return loc(ev, c[1], px, py, bands)
    if op == 'garbage':
        return ('garbage',)
    return ('other', op)


def elem(ev, e, px, py):
    """The value of an index array at a pixel."""
    n = len(e.axes)
    env = {}
    pos = (math.floor(py + 1e-9), math.floor(px + 1e-9))
    for a, v in zip(e.axes[-2:] if n >= 2 else e.axes, pos if n >= 2 else (None,)):
        if a is not None:
            if v is None:
                raise Undefined
            env[a] = v
    return evs(ev, e.expr, env)


def agrees(ev, it, px, py):
    """The facts about all elements of an index array hold at a pixel."""
    for c, v in it.facts:
        if isinstance(c, App) and c.op in ('anyelem', 'allelem') and v == (c.op == 'allelem'):
            e = G.ElemV((1,) * (len(c.args) - 1), c.args[1:], c.args[0])
            if len(e.axes) == 2 and elem(ev, e, px, py) != v:
                return False
    return True


def evs(ev, expr, env):
    sub = T.Evaluator(ev.assign, ev.salt, ev.env)
    sub.default = ev.default
    if hasattr(ev, 'assign'):
        sub.assign = dict(ev.assign)
    for a, v in env.items():
        sub.assign[a] = float(v)
    return sub.ev(expr)


def contents(c, op):
    """All subterms with an operator."""
    out = []
    if isinstance(c, tuple) and c and isinstance(c[0], str):
        if c[0] == op:
            out.append(c)
        for x in c[1:]:
            out.extend(contents(x, op))
    elif isinstance(c, tuple):
        for x in c:
            out.extend(contents(x, op))
    return out


# ------------------------------------------------------------------ obligations

def unknown(tr, img):
    """The result of a library function that has no model."""
    if isinstance(img, (App, Sym, I.AttrV)) and not T.isnum(img) and not (isinstance(img, App) and img.op == 'img'):
        tr.count('undecided')
        return True
    return False


def check_shape(tr, img, dims, n, what='shape'):
    if unknown(tr, img):
        return False
    if not isinstance(img, G.ImgV):
        tr.fail(what, 'does not deliver an array: %r' % (img,))
        return False
    ok = True
    if len(img.shape) != 3:
        tr.count('obligations')
        if n is not None:
            tr.fail(what, 'delivers an array with %d axes' % len(img.shape))
            return False
    for a, b, nm in zip(img.shape, (dims[1], dims[0], n), ('height', 'width', 'number of bands')):
        if b is not None:
            ok = tr.num_eq(what, 'the delivered ' + nm, a, b) and ok
    return ok


def check_pixels(tr, img, node, aff, fills=None, exact=True, slack=None, rule='pixels', label=None):
    """
    Every delivered pixel shows the place of the operand that the transform
    assigns to it; places outside of the operand are filled.
    """
    it = tr.it
    tr.count('obligations')
    label = label or node.label
    n = 0
    for m in tr.models():
        try:
            ev = m.evaluator(it)
            H, W = ev.fl(img.shape[0]), ev.fl(img.shape[1])
            w, h = [ev.fl(x) for x in node.dims]
            mat = ev.ev(it.canon(aff))
            inv = np_mat_inv(mat)
            if inv is None or W < 1 or H < 1:
                continue
            tol = (0., 0.) if exact else slack(ev)
            for x in sorted({0, 1, int(W) // 2, int(W) - 2, int(W) - 1}):
                for y in sorted({0, 1, int(H) // 2, int(H) - 2, int(H) - 1}):
                    if not (0 <= x < W and 0 <= y < H):
                        continue
                    px, py = x + .5, y + .5
                    if not agrees(ev, it, px, py):
                        continue
                    q = [inv[i][0] * px + inv[i][1] * py + inv[i][2] for i in (0, 1)]
                    got = loc(ev, img.content, px, py)
                    for g in contents(img.content, 'gather'):
                        r = loc(ev, g, px, py)
                        if r[0] == 'fails':
                            got = r
                    n += 1
                    bad = None
                    tx, ty = tol[0] + 1e-6, tol[1] + 1e-6
                    if not exact:
                        tx += .5
                        ty += .5
                    inside = tx <= q[0] <= w - tx and ty <= q[1] <= h - ty
                    outside = q[0] < -tx or q[0] > w + tx or q[1] < -ty or q[1] > h + ty
                    if got[0] == 'src':
                        if got[1] != label:
                            bad = 'shows %s instead of %s' % (got[1], label)
                        elif abs(got[2] - q[0]) > tx or abs(got[3] - q[1]) > ty:
                            if outside:
                                bad = 'pixel (%d, %d) shows (%.2f, %.2f) instead of the border' % (x, y, got[2], got[3])
                            else:
                                bad = 'pixel (%d, %d) shows (%.2f, %.2f) instead of (%.2f, %.2f)' % (x, y, got[2], got[3], q[0], q[1])
                        elif outside:
                            bad = 'pixel (%d, %d) outside of the operand is not filled' % (x, y)
                    elif got[0] == 'fill':
                        if inside:
                            bad = 'pixel (%d, %d) is filled instead of showing (%.2f, %.2f)' % (x, y, q[0], q[1])
                        elif fills is not None and not fills(ev, got[1]):
                            bad = 'pixel (%d, %d) is filled with %s' % (x, y, got[1])
                    elif got[0] == 'fails':
                        bad = 'pixel (%d, %d): %s' % (x, y, got[1])
                    elif got[0] == 'garbage':
                        bad = 'pixel (%d, %d) is never written' % (x, y)
                    else:
                        tr.count('undecided')
                        return
                    if bad:
                        tr.report(rule, bad, m, operand=[w, h], canvas=[W, H], transform=str(mat), content=str(G.ctext(img.content)))
                        return
        except Undefined:
            continue
    tr.count('pixels of models', n)
    tr.count('not refuted' if n else 'undecided')


def check_mask(tr, img, srcs, rule='mask'):
    """A masked operand gives a masked result."""
    it = tr.it
    tr.count('obligations')
    flags = [it.decisions.get(T.keyof(s)) if isinstance(s, (Sym, App)) else s for s in srcs]
    if isinstance(img.masked, bool):
        got = img.masked
    else:
        got = it.decisions.get(T.keyof(img.masked))
    if any(f is True for f in flags) and got is False:
        tr.fail(rule, 'the mask of the operand is lost')
        return
    if not isinstance(img.masked, bool) or not flags:
        tr.count('discharged')
        return
    # the mask flag was never looked at: it must still be the one of the operand
    if got is False and any(f is None for f in flags):
        tr.fail(rule, 'the mask of the operand is lost')
        return
    tr.count('discharged')


# ------------------------------------------------------------------ warps

def warp_border(it):
    k = it.choose(4)
    if k == 0:
        return 'auto'
    if k == 1:
        return T.to_poly(it.sym('border', 'float'))
    if k == 2:
        return (T.to_poly(it.sym('border0', 'float')), T.to_poly(it.sym('border1', 'float')))
    return 'reflect'


def run_warp(it, cx):
    if 'border' not in cx:
        cx['border'] = T.to_poly(it.sym('border', 'float'))
    kw = {'border_value': cx['border']}
    nearest = cx['nearest']
    if nearest:
        kw['interpolation'] = 'nearest'
    root = N.make_root(it, 'Warp')
    meta = root.attrs['meta'].d
    meta.update(kw)
    if not nearest:
        it.assume(it.not_(it.equal(meta['interpolation'], 'nearest')))
    cx['root'] = root
    cx['child'] = root.attrs['subdata']
    it.effects = []
    it.frames = []
    f, _ = root.cls.lookup('_finalize')
    return it.call(f, [root], {})


def fills_of(tr):
    cx = tr.it.cx
    b = cx['border']
    src = cx['src'][cx['child'].label]

    def fills(ev, v):
        vals = (v.args[0],) if isinstance(v, App) and v.op == 'repeat' else v if isinstance(v, tuple) else (v,)
        if b == 'auto':
            kind = tr.it.decisions.get(T.keyof(tr.it.equal(src.dtype.kindterm, 'f')))
            if kind:
                return all('nan' in T.keyof(x) for x in vals)
            masked = src.masked if isinstance(src.masked, bool) else tr.it.decisions.get(T.keyof(src.masked))
            if masked:
                return all('fill_value' in T.keyof(x) for x in vals)
            return all(T.const_of(x) == 0 for x in vals if T.isnum(x)) and all(T.isnum(x) for x in vals)
        if isinstance(b, str):
            return vals == (b,)
        want = b if isinstance(b, tuple) else (b,) * len(vals)
        try:
            if any(tr.it.decisions.get(T.keyof(App('isnan', (y,), 'bool'))) for y in want):
                return all('nan' in T.keyof(x) or T.keyof(x) == T.keyof(y) for x, y in zip(vals, want))
            return all(abs(ev.fl(x) - ev.fl(y)) < 1e-6 for x, y in zip(vals, want))
        except Undefined:
            return True
    return fills


def check_warp(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    tr.no_writes('operand writes')
    root, child, img = cx['root'], cx['child'], tr.value
    meta = root.attrs['meta'].d
    if not check_shape(tr, img, root.dims, it.canon(child.nch)):
        return
    aff = it.canon(M.to_aff(it, meta['transform']))
    if cx['nearest']:
        def slack(ev):
            p = T.np_decompose(ev.ev(aff))
            return [.5 / abs(p[s]) + 1. / abs(p[s]) * bool(G and contents(img.content, 'resize')) for s in ('sx', 'sy')]
        check_pixels(tr, img, child, aff, fills_of(tr), False, slack)
    else:
        check_pixels(tr, img, child, aff, fills_of(tr))
    check_mask(tr, img, [cx['src'][child.label].masked])
    for c in contents(img.content, 'warp'):
        p = c[3].d
        tr.same('resampling', 'interpolation', p['interpolation'], meta['interpolation'])
        tr.same('resampling', 'backend', p['backend'], meta['backend'])
        tr.same('resampling', 'the origin convention', p['origin_convention'], 'corner')
        b = p['border_value']
        if cx['border'] == 'auto' or T.isnum(cx['border']):
            n = it.canon(child.nch)
            if isinstance(b, App) and b.op == 'repeat':
                tr.num_eq('resampling', 'the number of border values', b.args[1], it.min(n, 4))
            elif isinstance(b, tuple):
                tr.num_eq('resampling', 'the number of border values', len(b), it.min(n, 4))
        aa = p['antialias']
        want = meta['antialias']
        check_antialias(tr, cx, aa, want, aff)
    for c in contents(img.content, 'resize'):
        tr.same('resampling', 'interpolation', c[4], meta['interpolation'])
    if not cx['nearest']:
        tr.count('obligations')
        if contents(img.content, 'resize') or contents(img.content, 'gather') or len(contents(img.content, 'warp')) != 1:
            tr.fail('resampling', 'an interpolated warp is not one resampling: %s' % G.ctext(img.content)[:200])


def check_antialias(tr, cx, got, want, aff):
    it = tr.it
    tr.count('obligations')
    for m in tr.models():
        try:
            ev = m.evaluator(it)
            g, w = ev.ev(it.canon(got)), ev.ev(it.canon(want))
            p = T.np_decompose(ev.ev(aff))
        except Undefined:
            continue
        if not isinstance(g, bool) or not isinstance(w, bool):
            continue
        down = abs(p['sx']) < 1 - 1e-9 or abs(p['sy']) < 1 - 1e-9
        exp = w and down and not cx['nearest']
        if g != exp:
            tr.report('resampling', 'antialiasing is %s for a %s warp with scale (%g, %g) that asks for %s' % (
                g, 'nearest' if cx['nearest'] else 'interpolated', p['sx'], p['sy'], w), m)
            return
    tr.count('not refuted')


def warp_variant(name, **kw):
    def prep(it):
        setup(it)
        it.cx.update(kw)
        if kw.get('borders'):
            it.cx['border'] = warp_border(it)
    scenario(('E',), 'delayed_image/delayed_nodes.py:DelayedWarp._finalize', check_warp, name=name, prep=prep)(run_warp)


warp_variant('warp', nearest=False, lazy=False)
warp_variant('warp nearest', nearest=True, lazy=False)
warp_variant('warp lazy', nearest=False, flat=False)
warp_variant('warp nearest lazy', nearest=True, flat=False)
warp_variant('warp borders', nearest=False, lazy=False, flat=False, borders=True)
warp_variant('warp nearest borders', nearest=True, lazy=False, flat=False, borders=True)


# ------------------------------------------------------------------ crops

def run_node(kind, **over):
    def run(it, cx):
        root = N.make_root(it, kind)
        cx['root'] = root
        cx['child'] = root.attrs.get('subdata')
        meta = root.attrs['meta'].d
        for k, v in over.items():
            meta[k] = v(it) if callable(v) else v
        it.effects = []
        it.frames = []
        f, _ = root.cls.lookup('_finalize')
        return it.call(f, [root], {})
    return run


def bands_of(c):
    """The band selections on the way to the operand (outermost last)."""
    out = []

    def go(c):
        if isinstance(c, tuple) and c and isinstance(c[0], str):
            if c[0] == 'take':
                go(c[1])
                out.append(c[2])
            elif c[0] in ('where',):
                go(c[3])
            elif c[0] in ('src', 'fill', 'const', 'garbage'):
                pass
            elif len(c) > 1:
                go(c[1])
    go(c)
    return out


def check_bands(tr, img, want, rule='bands'):
    it = tr.it
    tr.count('obligations')
    got = [T.keyof(it.canon(x)) for x in bands_of(img.content) if T.keyof(x) != 'Ellipsis']
    want = [T.keyof(it.canon(I.freeze(x))) for x in want]
    if got != want:
        tr.fail(rule, 'delivers the bands %s instead of %s' % (got, want))
    else:
        tr.count('discharged')


def check_crop(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    tr.no_writes('operand writes')
    root, child, img = cx['root'], cx['child'], tr.value
    if not check_shape(tr, img, root.dims, it.canon(root.nch)):
        return
    sy, sx = list(it.iterate(root.attrs['meta'].d['space_slice']))
    aff = T.aff_translate(T.neg(it.asnum(sx.start)), T.neg(it.asnum(sy.start)))
    check_pixels(tr, img, child, aff)
    idx = root.attrs['meta'].d['chan_idxs']
    check_bands(tr, img, [] if idx is None else [idx])
    check_mask(tr, img, [cx['src'][child.label].masked])


P = 'delayed_image/delayed_nodes.py:'
scenario(('E',), P + 'DelayedCrop._finalize', check_crop, name='crop', prep=setup)(run_node('Crop'))


BANDS = 4
SELECTIONS = [[0], [3], [0, 1], [1, 0], [0, 2], [1, 2, 3], [2, 1, 0], [0, 2, 1], [1, 3, 2], [2, 0, 1], [0, 0, 2], [1, 1], [0, 1, 2, 3],
              [3, 2, 1, 0], [0, 3], [0, 2, 1, 3], [-1], [0, -1]]


def selected(sel, bands):
    """The bands that an index, list or slice takes of a list of bands."""
    if isinstance(sel, App) and sel.op == 'one':
        sel = sel.args[0]
    if isinstance(sel, App) and sel.op == 'slice':
        a = [None if x is None else T.const_of(x) for x in sel.args]
        return bands[slice(*[None if x is None else int(x) for x in a])]
    if isinstance(sel, tuple) and sel and sel[0] == 'list':
        return [bands[int(T.const_of(x))] for x in sel[1:]]
    if T.isnum(sel) and T.const_of(sel) is not None:
        return [bands[int(T.const_of(sel))]]
    return None


def run_crop_bands(it, cx):
    cx['flat'] = False
    root = N.make_root(it, 'Crop')
    child = cx['child'] = root.attrs['subdata']
    cx['root'] = root
    it.assume(it.rel('==', child.nch, BANDS))
    sel = cx['sel'] = SELECTIONS[it.choose(len(SELECTIONS))]
    root.attrs['meta'].d['chan_idxs'] = I.ListV(sel, 'input')
    it.effects = []
    it.frames = []
    f, _ = root.cls.lookup('_finalize')
    return it.call(f, [root], {})


def check_crop_bands(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    tr.no_writes('operand writes')
    root, img, sel = cx['root'], tr.value, cx['sel']
    check_shape(tr, img, root.dims, len(sel))
    bands = list(range(BANDS))
    want = [bands[i] for i in sel]
    for t in bands_of(img.content):
        bands = selected(it.canon(t), bands)
        if bands is None:
            tr.count('undecided')
            return
    tr.count('obligations')
    if bands != want:
        tr.fail('bands', 'the selection %s of %d bands delivers the bands %s' % (sel, BANDS, bands))
    else:
        tr.count('discharged')


scenario(('E',), P + 'DelayedCrop._finalize', check_crop_bands, name='crop bands', prep=setup)(run_crop_bands)


# ------------------------------------------------------------------ overviews

def check_overview(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    tr.no_writes('operand writes')
    root, child, img = cx['root'], cx['child'], tr.value
    if unknown(tr, img):
        return
    if not isinstance(img, G.ImgV):
        tr.fail('shape', 'does not deliver an array: %r' % (img,))
        return
    dims = root.dims
    src = cx['src'][child.label]
    n = it.canon(child.nch)
    if len(img.shape) == 2:
        tr.num_eq('shape', 'the number of bands of an image without a channel axis', n, 1)
        img3 = img.like(img.content, shape=tuple(img.shape) + (1,))
    else:
        img3 = img
    check_shape(tr, img3, dims, n)
    k = it.asnum(root.attrs['meta'].d['overview'])
    lv = contents(img.content, 'overview')
    if lv:
        if len(lv) > 1:
            tr.fail('pixels', 'takes the overview of an overview')
        else:
            tr.num_eq('pixels', 'the level of the overview', lv[0][2], k)
    s = T.div(1, T.power(2, k))

    def slack(ev):
        f = 2. ** ev.fl(k)
        return (f, f)
    check_pixels(tr, img3, child, T.aff_scale(s, s), None, False, slack)
    lazy = src.lazy if isinstance(src.lazy, bool) else it.decisions.get(T.keyof(src.lazy))
    if not lv or not lazy:
        check_mask(tr, img, [src.masked])


scenario(('E',), P + 'DelayedOverview._finalize', check_overview, name='overview', prep=setup)(run_node('Overview'))


# ------------------------------------------------------------------ dequantization

def hook_dequantize(it, args, kwargs):
    names = ('quant_data', 'quantization')
    p = dict(zip(names, args))
    p.update(kwargs)
    img = p['quant_data']
    if not isinstance(img, G.ImgV):
        raise I.Unsupported('dequantize')
    img = G.realize(it, img)
    return img.like(('dequant', img.content, I.freeze(p['quantization'])), dtype=G.DTypeV(App('dt', ('orig',)), 'f'))


def setup_dq(it):
    setup(it)
    it.hooks['dequantize'] = hook_dequantize


def run_dequantize(it, cx):
    root = N.make_root(it, 'Dequantize')
    cx['root'], cx['child'] = root, root.attrs['subdata']
    if it.choose(2) == 1:
        root.attrs['meta'].d['quantization'] = None
    it.effects = []
    it.frames = []
    f, _ = root.cls.lookup('_finalize')
    return it.call(f, [root], {})


def check_dequantize(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    tr.no_writes('operand writes')
    root, child, img = cx['root'], cx['child'], tr.value
    if not check_shape(tr, img, root.dims, it.canon(root.nch)):
        return
    check_pixels(tr, img, child, Aff())
    q = root.attrs['meta'].d['quantization']
    got = [T.keyof(c[2]) for c in contents(img.content, 'dequant')]
    want = [] if q is None else [T.keyof(q)]
    tr.count('obligations')
    if got != want:
        tr.fail('dequantization', 'dequantizes with %s instead of %s' % (got, want))
    check_mask(tr, img, [cx['src'][child.label].masked])


scenario(('E',), P + 'DelayedDequantize._finalize', check_dequantize, name='dequantize', prep=setup_dq)(run_dequantize)


# ------------------------------------------------------------------ concatenation

def run_concat(it, cx):
    n = it.choose(3) + 1
    root = N.make_root(it, 'Concat')
    parts = root.attrs['parts']
    if n == 1:
        parts.items = parts.items[:1]
    elif n == 3:
        p = N.NodeV(it, N.ALL_KINDS, 'input', label='N.p2', dims=root.dims)
        parts.items = list(parts.items) + [p]
    cx['root'], cx['parts'] = root, list(parts.items)
    it.effects = []
    it.frames = []
    f, _ = root.cls.lookup('_finalize')
    return it.call(f, [root], {})


def check_concat(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    tr.no_writes('operand writes')
    root, img = cx['root'], tr.value
    parts = cx['parts']
    if unknown(tr, img):
        return
    if not isinstance(img, G.ImgV):
        tr.fail('shape', 'does not deliver an array: %r' % (img,))
        return
    n = 0
    for p in parts:
        n = T.add(n, p.nch)
    sh = tuple(img.shape) + ((1,) if len(img.shape) == 2 and len(parts) == 1 else ())
    check_shape(tr, img.like(img.content, shape=sh), root.dims, it.canon(n))
    c = img.content
    while c[0] in ('unmasked',):
        c = c[1]
    tr.count('obligations')
    got = [c] if c[0] != 'cat' else list(c[2])
    want = [('src', p.label) for p in parts]
    if got != want or c[0] == 'cat' and c[1] != 2:
        tr.fail('bands', 'delivers %s instead of the bands of %s' % (G.ctext(img.content)[:200], ', '.join(p.label for p in parts)))
    check_mask(tr, img, [cx['src'][p.label].masked for p in parts])


scenario(('E',), P + 'DelayedChannelConcat._finalize', check_concat, name='concat', prep=setup)(run_concat)


# ------------------------------------------------------------------ xarray

def check_xarray(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    tr.no_writes('operand writes')
    root, child, x = cx['root'], cx['child'], tr.value
    if unknown(tr, x):
        return
    if not isinstance(x, G.XrV):
        tr.fail('shape', 'does not deliver a data array: %r' % (x,))
        return
    img = x.img
    check_shape(tr, img, root.dims, it.canon(root.nch))
    check_pixels(tr, img, child, Aff())
    dims = tuple(it.iterate(x.dims)) if isinstance(x.dims, (tuple, I.ListV)) else x.dims
    tr.same('labels', 'the dimensions', dims, ('y', 'x', 'c'))
    co = x.coords
    tr.count('obligations')
    if child.chan is not None:
        got = co.d.get('c') if isinstance(co, I.DictV) else None
        want = it.call(it.getattr(N.ChanV(child.chan.term), 'code_list'), [], {})
        if got is None or T.keyof(I.freeze(got)) != T.keyof(I.freeze(want)):
            tr.fail('labels', 'the bands are labelled %s' % (got,))
    check_mask(tr, img, [cx['src'][child.label].masked])


scenario(('E',), P + 'DelayedAsXarray._finalize', check_xarray, name='xarray', prep=setup)(run_node('AsXarray'))
scenario(('E',), P + 'DelayedAsXarray._finalize', check_xarray, name='xarray unnamed', prep=setup, chan='count')(run_node('AsXarray'))


# ------------------------------------------------------------------ leafs

def run_leaf(cls, args):
    def run(it, cx):
        c = it.module_attr(N.LEAFS, cls)
        w, h, n = [T.to_poly(it.sym(x, 'int', lo=0)) for x in 'whn']
        cx['dims'], cx['n'] = (w, h), n
        it.models['numpy.nan'] = 'nan'
        kw = args(it, cx)
        obj = it.call(c, [], dict(dsize=(w, h), **kw))
        cx['root'] = obj
        if kw.get('channels') is None:
            it.getattr(obj, 'meta').d['num_channels'] = n
        it.effects = []
        it.frames = []
        f, _ = obj.cls.lookup('_finalize')
        return it.call(f, [obj], {})
    return run


def check_nans(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    img = tr.value
    if not check_shape(tr, img, cx['dims'], cx['n']):
        return
    tr.count('obligations')
    c = img.content
    if cx.get('method') == 'ma':
        ok = img.masked is True and c[0] == 'masked' and c[2] == ('fill', True)
    else:
        ok = c[0] == 'fill' and 'nan' in T.keyof(c[1]) and img.masked is False
    if not ok:
        tr.fail('missing data', 'missing data is delivered as %s' % G.ctext(c))
    else:
        tr.count('discharged')


def nodata_args(it, cx):
    m = (None, 'float', 'nan', 'ma')[it.choose(4)]
    cx['method'] = m
    return {'nodata_method': m}


LP = 'delayed_image/delayed_leafs.py:'
scenario(('E',), LP + 'DelayedNans._finalize', check_nans, name='nans')(run_leaf('DelayedNans', lambda it, cx: {}))
scenario(('E',), LP + 'DelayedNodata._finalize', check_nans, name='nodata')(run_leaf('DelayedNodata', nodata_args))


def run_identity(it, cx):
    c = it.module_attr(N.LEAFS, 'DelayedIdentity')
    w, h, n = [T.to_poly(it.sym(x, 'int', lo=0)) for x in 'whn']
    shape = (h, w, n)
    if it.choose(2) == 1:
        it.assume(it.rel('==', n, 1))
        shape = (h, w)
    img = G.ImgV(('src', 'data'), shape, G.DTypeV(Sym('dtype')), it.sym('masked', 'bool'), G.Region('operand', 'the given pixels'))
    cx['img'] = img
    kw = {}
    if it.choose(2) == 1:
        kw['dsize'] = (w, h)
    obj = it.call(c, [img], kw)
    cx['root'] = obj
    cx['meta'] = (it.getattr(obj, 'dsize'), it.getattr(obj, 'num_channels'))
    cx['want'] = ((w, h), n)
    f, _ = obj.cls.lookup('_finalize')
    return it.call(f, [obj], {})


def check_identity(tr, cx):
    it = tr.it
    if not tr.no_raise('evaluates'):
        return
    tr.no_writes('operand writes')
    tr.count('obligations')
    if not isinstance(tr.value, G.ImgV) or tr.value.content != ('src', 'data'):
        tr.fail('pixels', 'the delivered pixels are %s' % G.ctext(getattr(tr.value, 'content', tr.value)))
        return
    (w, h), n = cx['want']
    ds, nc = cx['meta']
    tr.count('obligations')
    if ds is None:
        tr.fail('shape', 'an image in memory has no size')
        return
    gw, gh = list(it.iterate(ds))
    tr.num_eq('shape', 'the advertised width', gw, w)
    tr.num_eq('shape', 'the advertised height', gh, h)
    tr.num_eq('shape', 'the advertised number of bands', nc, n)
    check_mask(tr, tr.value, [cx['img'].masked])


scenario(('E',), LP + 'DelayedIdentity', check_identity, name='identity')(run_identity)
