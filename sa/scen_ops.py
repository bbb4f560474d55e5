"""
Operations: what the methods that build operation graphs deliver, given an
arbitrary image.
"""
from . import terms as T
from . import interp as I
from . import models as M
from . import nodes as N
from .scen import scenario
from .terms import Sym, App, Poly, Aff, Undefined

MIX = 'delayed_image/delayed_nodes.py:ImageOpsMixin.'


def operand(it, kinds=N.ALL_KINDS, label='A', **kw):
    r = N.NodeV(it, kinds, 'input', label=label, **kw)
    return r


def begin(it):
    it.effects = []
    it.frames = []


def den_eq(tr, rule, what, got, want, band_rule='selected bands'):
    """The denotation of a graph is the expected one."""
    it = tr.it
    if not isinstance(got, I.Obj):
        tr.fail(rule, '%s: the result is %r, which is no operation graph' % (what, got))
        return False
    a, b = N.norm(it, N.den(it, got)), N.norm(it, want)
    tr.count('obligations')
    if N.den_key(a) == N.den_key(b):
        tr.count('discharged')
        return True
    la, lb = list(N.den_leaves(a)), list(N.den_leaves(b))
    if [x[:2] if x[0] == 'base' else x for x in la] != [x[:2] if x[0] == 'base' else x for x in lb] or dqs(a) != dqs(b):
        tr.fail(rule, '%s: the result shows %s instead of %s' % (what, N.den_key(a), N.den_key(b)))
        return False
    if N.den_shape(a) != N.den_shape(b):
        tr.fail(band_rule, '%s: the result selects %s instead of %s' % (what, N.den_shape(a), N.den_shape(b)))
        return False
    ok = True
    for x, y in zip(la, lb):
        if x[0] == 'base':
            ok = tr.aff_eq(rule, '%s: the result is transformed differently' % what, x[2], y[2]) and ok
    return ok


def dqs(d):
    tag = d[0]
    if tag == 'dq':
        return [T.keyof(d[1])] + dqs(d[2])
    if tag == 'take':
        return dqs(d[2])
    if tag == 'cat':
        return [dqs(x) for x in d[1]]
    return []


def dims_eq(tr, rule, what, got, want):
    it = tr.it
    ds = it.getattr(got, 'dsize')
    if ds is None:
        tr.fail(rule, '%s: the result has no size' % what)
        return
    for a, b, n in zip(it.iterate(ds), want, ('width', 'height')):
        tr.num_eq(rule, '%s: the %s' % (what, n), a, b)


def well(tr, rule, got):
    """No node of the result contradicts its own canvas."""
    for m, a, b in N.well_formed(tr.it, got):
        tr.num_eq(rule, 'malformed result: ' + m, a, b)


def chan_eq(tr, rule, what, got, chan, nch):
    it = tr.it
    tr.count('obligations')
    c = it.getattr(got, 'channels')
    if (c is None) != (chan is None):
        tr.fail(rule, '%s: the channel names are %s instead of %s' % (what, c, chan))
        return
    if chan is not None and it.equal(c, chan) is not True:
        tr.fail(rule, '%s: the channel names are %s instead of %s' % (what, c, chan))
        return
    n = it.getattr(got, 'num_channels')
    if nch is not None:
        tr.num_eq(rule, '%s: the number of channels' % what, n, nch)


# ------------------------------------------------------------------ crop

def bound(it, name, how):
    if how == 'none':
        return None
    return T.to_poly(it.sym(name, 'int', lo=0))


def window(it, cx, w, h, clipped=True):
    """A window and its canvas coordinates."""
    k = it.choose(4) if clipped else 3
    hows = [('none', 'none'), ('sym', 'none'), ('none', 'sym'), ('sym', 'sym')][k]
    y = I.SliceV(bound(it, 'y0', hows[0]), bound(it, 'y1', hows[1]))
    x = I.SliceV(bound(it, 'x0', hows[0]), bound(it, 'x1', hows[1]))
    for s in (x, y):
        if s.start is not None and s.stop is not None:
            it.assume(it.rel('<=', s.start, s.stop))
    res = []
    for s, d in ((x, w), (y, h)):
        a = it.min(s.start if s.start is not None else 0, d)
        b = it.min(s.stop if s.stop is not None else d, d)
        res.append((a, b))
    return (y, x), res


def indices(it, cx, node):
    k = it.choose(2)
    if k == 0:
        return None
    idx = it.sym('idx', 'list', info='index')
    return idx


def run_crop(it, cx):
    a = operand(it)
    cx['a'] = a
    sl, cx['box'] = window(it, cx, *a.dims)
    idx = indices(it, cx, a) if a.nch is not None else None
    cx['idx'] = idx
    how = cx['how']
    lazy = False
    if how == 'item':
        begin(it)
        return it.getitem(a, sl if idx is None else sl + (idx,))
    if how == 'lazy':
        lazy = True
    begin(it)
    return it.call(it.getattr(a, 'crop'), [sl, idx] if idx is not None else [sl], {'lazy': True} if lazy else {})


def check_crop(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    a, idx = cx['a'], cx['idx']
    (x0, x1), (y0, y1) = cx['box']
    want = N.sp(T.aff_translate(T.neg(x0), T.neg(y0)), None, a.den)
    if idx is not None:
        want = ('take', I.freeze(idx), want)
    got = tr.value
    if not den_eq(tr, 'geometry', 'the window', got, want):
        return
    dims_eq(tr, 'canvas', 'the window', got, (it.max(T.sub(x1, x0), 0), it.max(T.sub(y1, y0), 0)))
    well(tr, 'canvas', got)
    if idx is not None:
        chan = None if a.chan is None else N.ChanV(N.chan_norm(it, App('chtake', (a.chan.term, I.freeze(idx)), 'chan')))
        chan_eq(tr, 'channel names', 'the window', got, chan, N.idx_len(it, I.freeze(idx)))
    else:
        chan_eq(tr, 'channel names', 'the window', got, it.getattr(a, 'channels'), a.nch)


def prep(**kw):
    def f(it):
        it.cx.update(kw)
    return f


for how in ('method', 'lazy', 'item'):
    for chan in ('spec', 'count', 'none'):
        scenario(('P',), MIX + 'crop', check_crop, name='crop %s %s' % (how, chan), prep=prep(how=how), chan=chan)(run_crop)


# ------------------------------------------------------------------ warps

def passed_params(it):
    return N.warp_params(it, 'asked')


def run_warp(it, cx):
    a = operand(it)
    cx['a'] = a
    tf = M.AffineV(T.aff_atom(it.sym('T', 'affine')))
    cx['tf'] = tf
    kw = passed_params(it) if cx.get('params', True) else {}
    cx['kw'] = dict(kw)
    cx['dsize'] = None
    if it.choose(2) == 1:
        d = (T.to_poly(it.sym('W', 'int', lo=1)), T.to_poly(it.sym('H', 'int', lo=1)))
        cx['dsize'] = d
        kw['dsize'] = d
    if cx.get('lazy'):
        kw['lazy'] = True
    begin(it)
    return it.call(it.getattr(a, 'warp'), [tf], kw)


def auto_dsize(ev, mat, w, h):
    import math
    xs = [mat[0][0] * x + mat[0][1] * y + mat[0][2] for x in (0, w) for y in (0, h)]
    ys = [mat[1][0] * x + mat[1][1] * y + mat[1][2] for x in (0, w) for y in (0, h)]
    return max(xs), max(ys)


def check_auto(tr, a, aff, got, rule='canvas'):
    """The default canvas contains all warped data, and nothing more."""
    import math
    it = tr.it
    tr.count('obligations')
    ds = [it.asnum(x) for x in it.iterate(it.getattr(got, 'dsize'))]
    for m in tr.models():
        try:
            ev = m.evaluator(it)
            mx, my = auto_dsize(ev, ev.ev(it.canon(aff)), *[ev.fl(x) for x in a.dims])
            for g, w, n in zip([ev.fl(it.canon(x)) for x in ds], (mx, my), ('width', 'height')):
                if not (w - 1e-6 <= g <= w + 1 + 1e-6):
                    tr.report(rule, 'the default %s is %g for data that ends at %g' % (n, g, w), m)
                    return
        except Undefined:
            continue
    tr.count('not refuted')


def outer_warp(it, v):
    if isinstance(v, I.Obj) and not isinstance(v, N.NodeV) and N.kind_of(v.cls) == 'Warp':
        return v
    return None


def check_params(tr, got, kw, rule='warp parameters'):
    it = tr.it
    wrp = outer_warp(it, got)
    if wrp is None:
        return
    meta = wrp.attrs['meta'].d
    for k, v in kw.items():
        tr.same(rule, k, meta.get(k), v)


def check_warp(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    a, got = cx['a'], tr.value
    aff = it.canon(cx['tf'].aff)
    want = N.sp(aff, None, a.den)
    if got is a:
        # a lazy warp may only be dropped if it changes nothing
        tr.aff_eq('geometry', 'a warp is dropped that moves its data', aff, Aff(), 1e-3)
        if cx['dsize'] is not None:
            dims_eq(tr, 'canvas', 'a warp is dropped that changes the canvas', got, cx['dsize'])
        return
    if not den_eq(tr, 'geometry', 'the warp', got, want):
        return
    if cx['dsize'] is not None:
        dims_eq(tr, 'canvas', 'the warp', got, cx['dsize'])
    else:
        check_auto(tr, a, aff, got)
    check_params(tr, got, cx['kw'])
    chan_eq(tr, 'channel names', 'the warp', got, it.getattr(a, 'channels'), a.nch)


scenario(('P',), MIX + 'warp', check_warp, name='op warp')(run_warp)


def run_warp_matrix(it, cx):
    """A transform in every quadrant, onto an automatic canvas."""
    a = operand(it)
    cx['a'], cx['dsize'], cx['kw'] = a, None, {}
    ent = []
    for n in 'abtcdu':
        x = T.to_poly(it.sym('m' + n, 'real'))
        if n not in 'tu':
            it.assume(it.rel('>', x, 0))
            if it.choose(2):
                x = T.neg(x)
        ent.append(x)
    mat = M.ArrV((3, 3), ent + [0, 0, 1])
    cx['tf'] = M.AffineV(M.to_aff(it, mat))
    begin(it)
    return it.call(it.getattr(a, 'warp'), [mat], {})


scenario(('P',), MIX + 'warp', check_warp, name='op warp quadrants')(run_warp_matrix)
scenario(('P',), MIX + 'warp', check_warp, name='op warp lazy', prep=prep(lazy=True))(run_warp)


def run_scale(it, cx):
    a = operand(it)
    cx['a'] = a
    k = it.choose(3)
    if k == 0:
        s = T.to_poly(it.sym('s', 'float', lo=0))
        cx['s'] = (s, s)
    else:
        s = cx['s'] = (T.to_poly(it.sym('s0', 'float', lo=0)), T.to_poly(it.sym('s1', 'float', lo=0)))
    for x in cx['s']:
        it.assume(it.rel('>', x, 0))
    kw = passed_params(it)
    cx['kw'] = dict(kw)
    cx['dsize'] = None
    if k == 2:
        d = (T.to_poly(it.sym('W', 'int', lo=1)), T.to_poly(it.sym('H', 'int', lo=1)))
        cx['dsize'] = kw['dsize'] = d
    begin(it)
    return it.call(it.getattr(a, 'scale'), [s], kw)


def check_scale(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    a, got = cx['a'], tr.value
    aff = T.aff_scale(*[it.canon(x) for x in cx['s']])
    if not den_eq(tr, 'geometry', 'the scaling', got, N.sp(aff, None, a.den)):
        return
    if cx['dsize'] is not None:
        dims_eq(tr, 'canvas', 'the scaling', got, cx['dsize'])
    else:
        check_auto(tr, a, aff, got)
    check_params(tr, got, cx['kw'])


scenario(('P',), MIX + 'scale', check_scale, name='op scale')(run_scale)


def run_resize(it, cx):
    a = operand(it)
    cx['a'] = a
    d = (T.to_poly(it.sym('W', 'int', lo=1)), T.to_poly(it.sym('H', 'int', lo=1)))
    kw = passed_params(it)
    cx['kw'] = dict(kw)
    cx['dsize'] = d
    cx['s'] = tuple(T.div(x, y) for x, y in zip(d, a.dims))
    begin(it)
    return it.call(it.getattr(a, 'resize'), [d], kw)


scenario(('P',), MIX + 'resize', check_scale, name='op resize')(run_resize)


# ------------------------------------------------------------------ the other operations

def run_dequantize(it, cx):
    a = operand(it)
    cx['a'] = a
    cx['q'] = it.sym('q', 'quant')
    begin(it)
    return it.call(it.getattr(a, 'dequantize'), [cx['q']], {})


def check_simple(what, want):
    def check(tr, cx):
        it = tr.it
        if not tr.no_raise('rejected'):
            return
        tr.no_writes()
        a, got = cx['a'], tr.value
        if not den_eq(tr, 'geometry', what, got, want(tr, cx)):
            return
        dims = cx['dims'](it) if 'dims' in cx else a.dims
        dims_eq(tr, 'canvas', what, got, dims)
        chan_eq(tr, 'channel names', what, got, it.getattr(a, 'channels'), a.nch)
    return check


scenario(('P',), MIX + 'dequantize', check_simple('the dequantization', lambda tr, cx: ('dq', cx['q'], cx['a'].den)), name='op dequantize')(run_dequantize)


def run_overview(it, cx):
    a = operand(it)
    cx['a'] = a
    k = cx['k'] = T.to_poly(it.sym('level', 'int', lo=0))
    cx['dims'] = lambda it: [T.rounding('ceil', T.div(x, T.power(2, k))) for x in a.dims]
    begin(it)
    return it.call(it.getattr(a, 'get_overview'), [k], {})


def want_overview(tr, cx):
    s = T.div(1, T.power(2, cx['k']))
    return N.sp(T.aff_scale(s, s), None, cx['a'].den)


scenario(('P',), MIX + 'get_overview', check_simple('the overview', want_overview), name='op overview')(run_overview)


def run_xarray(it, cx):
    a = operand(it)
    cx['a'] = a
    begin(it)
    return it.call(it.getattr(a, 'as_xarray'), [], {})


scenario(('P',), MIX + 'as_xarray', check_simple('the xarray view', lambda tr, cx: cx['a'].den), name='op xarray')(run_xarray)


# ------------------------------------------------------------------ padded windows

def run_padded(it, cx):
    a = operand(it)
    cx['a'] = a
    w, h = a.dims
    sl, raw = [], []
    k = it.choose(4)
    p = T.to_poly(it.sym('pad', 'int', lo=0))
    q = T.to_poly(it.sym('pad2', 'int', lo=0))
    pad, pads = [(0, [(0, 0), (0, 0)]), (p, [(p, p), (p, p)]), ((p, q), [(p, p), (q, q)]),
                 (((p, q), (q, p)), [(p, q), (q, p)])][k]
    if k == 2:
        pad = I.ListV([p, q], 'user')
    for nm, d, (p0, p1) in (('y', h, pads[0]), ('x', w, pads[1])):
        s, t = T.to_poly(it.sym(nm + '0', 'int')), T.to_poly(it.sym(nm + '1', 'int'))
        it.assume(it.rel('<=', s, t))
        lo, hi = T.sub(s, p0), T.add(t, p1)
        # the window shows some data
        it.assume(it.rel('<', lo, d))
        it.assume(it.rel('>', hi, 0))
        sl.append(I.SliceV(s, t))
        raw.append((lo, hi))
    idx = indices(it, cx, a)
    cx['idx'], cx['raw'] = idx, raw
    begin(it)
    kw = {'clip': False, 'wrap': False, 'pad': pad}
    if idx is not None:
        kw['chan_idxs'] = idx
    return it.call(it.getattr(a, 'crop'), [tuple(sl)], kw)


def check_padded(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    a, idx, got = cx['a'], cx['idx'], tr.value
    (y0, y1), (x0, x1) = cx['raw']
    want = N.sp(T.aff_translate(T.neg(x0), T.neg(y0)), None, a.den)
    if idx is not None:
        want = ('take', I.freeze(idx), want)
    if not den_eq(tr, 'geometry', 'the padded window', got, want):
        return
    dims_eq(tr, 'canvas', 'the padded window', got, (T.sub(x1, x0), T.sub(y1, y0)))
    well(tr, 'canvas', got)
    visible(tr, a, got)


def visible(tr, a, got):
    """No data of the operand that lies inside of the result is cut off by a window on the way."""
    from .checks_opt import structure_of, dims_of, apply
    it = tr.it
    tr.count('obligations')
    for leaf, above in structure_of(it, got):
        if leaf is not a:
            continue
        for m in tr.models():
            try:
                ev = m.evaluator(it)
                W, H = [ev.fl(it.canon(x)) for x in dims_of(it, got)]
                mats = [(v, ev.ev(it.canon(tf)), [ev.fl(it.canon(x)) for x in dims_of(it, v)]) for v, tf in above]
                tot = mats[-1][1]
                w, h = mats[-1][2]
                for fx in (0.02, .3, .5, .98):
                    for fy in (0.02, .3, .5, .98):
                        p = (fx * w, fy * h)
                        q = apply(tot, p)
                        if not (.01 <= q[0] <= W - .01 and .01 <= q[1] <= H - .01):
                            continue
                        for v, mat, (vw, vh) in mats:
                            inv = T.np_mat_inv(mat)
                            if inv is None:
                                continue
                            r = apply(inv, q)
                            if not (-1e-6 <= r[0] <= vw + 1e-6 and -1e-6 <= r[1] <= vh + 1e-6):
                                tr.report('canvas', 'data at (%g, %g) that lies inside of the result is cut off on the way' % p, m, node=repr(v))
                                return
            except Undefined:
                continue
    tr.count('not refuted')


scenario(('P',), MIX + '_padded_crop', check_padded, name='op padded')(run_padded)


# ------------------------------------------------------------------ reported transforms

def contract_from_leaf(it, node, a, k):
    """The transform that an operand reports."""
    cx = it.cx.setdefault('tfs', {})
    if node.label not in cx:
        cx[node.label] = M.AffineV(T.aff_atom(it.sym('T_' + node.label, 'affine')))
    return cx[node.label]


def from_leaf(it, node, d=0):
    """The transform of a node, through as many of its operands as the code has looked at."""
    from .checks_opt import step
    if node.label in it.cx.get('tfs', {}) or node.cls is None or d > 8:
        return contract_from_leaf(it, node, [], {}).aff
    kind = N.kind_of(node.cls)
    if kind in ('Leaf', 'Nans', 'Identity'):
        return Aff()
    sub = node.attrs.get('subdata')
    if not isinstance(sub, N.NodeV):
        return contract_from_leaf(it, node, [], {}).aff
    return step(it, node, kind).compose(from_leaf(it, sub, d + 1))


def tf_setup(it):
    it.contracts['get_transform_from_leaf'] = contract_from_leaf


def run_from_leaf(kind):
    def run(it, cx):
        root = N.make_root(it, kind)
        root.attrs.get('subdata')
        cx['root'], cx['child'] = root, root.attrs['subdata']
        cx['child'].kinds = tuple(k for k in cx['child'].kinds if k != 'Concat')
        cx['child'].depth = 4         # two operands below the root are looked into, at the most
        begin(it)
        return it.call(it.getattr(root, 'get_transform_from_leaf'), [], {})
    return run


def check_from_leaf(tr, cx):
    from .checks_opt import step
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    root, child = cx['root'], cx['child']
    got = M.to_aff(it, tr.value)
    if got is None:
        tr.fail('reported transform', 'the reported transform is %r' % (tr.value,))
        return
    sub = from_leaf(it, child)
    tr.aff_eq('reported transform', 'the reported transform is not the applied one', got,
              step(it, root, N.kind_of(root.cls)).compose(sub))


for kind in ('Warp', 'Crop', 'Overview', 'Dequantize', 'AsXarray'):
    scenario(('P',), 'delayed_image/delayed_nodes.py:%s._transform_from_subdata' % N.CLASS_OF[kind][1], check_from_leaf,
             name='from leaf ' + kind, prep=tf_setup)(run_from_leaf(kind))


def run_from(it, cx):
    kinds = tuple(k for k in N.ALL_KINDS if k != 'Concat')
    a, b = operand(it, kinds, 'A'), operand(it, kinds, 'B')
    cx['a'], cx['b'] = a, b
    begin(it)
    return it.call(it.getattr(b, 'get_transform_from'), [a], {})


def check_from(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    got = M.to_aff(it, tr.value)
    if got is None:
        tr.fail('reported transform', 'the reported transform is %r' % (tr.value,))
        return
    ta, tb = [from_leaf(it, x) for x in (cx['a'], cx['b'])]
    tr.aff_eq('reported transform', 'the transform between two images', got, tb.compose(ta.inverse()))


scenario(('P',), MIX + 'get_transform_from', check_from, name='transform from', prep=tf_setup)(run_from)


# ------------------------------------------------------------------ undone warps

KEYS = ('offset', 'scale', 'shearx', 'theta')
SUBSETS = [tuple(x for i, x in enumerate(KEYS) if m >> i & 1) for m in range(16)]


def undo_args(it, cx, subsets, plural=''):
    ret = subsets[it.choose(len(subsets))]
    cx['retain'] = ret
    kw = {}
    # either the components to keep, as a set or a list, or the ones to remove
    how = it.choose(3 + (not ret))
    if how == 0:
        kw['retain'] = I.SetV(list(ret), 'user')
    elif how == 1:
        kw['retain'] = I.ListV(list(ret), 'user')
    elif how == 2:
        kw['remove'] = I.ListV([x for x in KEYS if x not in ret], 'user')
    if it.choose(2):
        kw['return_warp' + plural] = True
    if it.choose(2):
        kw['squash_nans'] = True
    cx['kw'] = kw
    return kw


def run_undo(it, cx):
    kinds = tuple(k for k in N.ALL_KINDS if k not in ('Concat', 'Nans'))
    a = operand(it, kinds)
    cx['a'] = a
    kw = undo_args(it, cx, SUBSETS)
    begin(it)
    return it.call(it.getattr(a, 'undo_warp'), [], kw)


def check_undo(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    got, warp = tr.value, None
    if cx['kw'].get('return_warp'):
        pair = list(it.iterate(got))
        if len(pair) != 2:
            tr.fail('reported transform', 'the undone image and its warp were asked for')
            return
        got, warp = pair
    undone(tr, cx, cx['a'], got, warp, [x for x in it.nodes if x.kinds == ('Nans',)])


def undone(tr, cx, a, got, warp, nans):
    """One image and its undone form."""
    it = tr.it
    if warp is not None:
        warp = M.to_aff(it, warp)
    after = nans[0] if nans else got
    base = contract_from_leaf(it, a, [], {}).aff
    p = M.decompose(it, it.canon(base.inverse())).d
    for r in cx['retain']:
        p.pop(r)
    want = M.affine_params(it, **p)
    d = N.norm(it, N.den(it, after))
    if d[0] != 'base':
        tr.count('undecided')
        return
    if d[1] != a.den[1]:
        tr.fail('undone warp', 'the undone form of %s shows %s' % (a.label, d[1]))
        return
    tr.aff_eq('undone warp', 'undoing all but %s applies another transform' % (', '.join(cx['retain']) or 'nothing'),
              d[2].compose(a.den[2].inverse()), want)
    if nans:
        if not cx['kw'].get('squash_nans'):
            return
        dims_eq(tr, 'canvas', 'squashed missing data', got, [it.max(it.min(x, 1), 0) for x in nans[0].dims])
        w, h = [it.canon(x) for x in nans[0].dims]
        want = T.aff_scale(T.div(1, w), T.div(1, h)).compose(it.canon(want))
    if warp is not None:
        tr.aff_eq('reported transform', 'the returned warp is not the applied one', warp, want)


scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedImage.undo_warp', check_undo, name='undo warp', prep=tf_setup)(run_undo)


def run_undos(it, cx):
    c = N.make_root(it, 'Concat')
    cx['parts'] = list(it.iterate(c.attrs['parts']))
    for p in cx['parts']:
        p.kinds = tuple(k for k in p.kinds if k not in ('Concat', 'Nans'))
    kw = undo_args(it, cx, [SUBSETS[0], SUBSETS[2], SUBSETS[9]], 's')
    begin(it)
    return it.call(it.getattr(c, 'undo_warps'), [], kw)


def check_undos(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    got, warps = tr.value, [None, None]
    if cx['kw'].get('return_warps'):
        pair = list(it.iterate(got))
        if len(pair) != 2:
            tr.fail('reported transform', 'the undone images and their warps were asked for')
            return
        got, warps = pair
        warps = list(it.iterate(warps))
    got = list(it.iterate(got))
    n = len(cx['parts'])
    if cx['kw'].get('return_warps') is None:
        warps = [None] * n
    if len(got) != n or len(warps) != n:
        tr.fail('undone warp', '%d images and %d warps for %d images' % (len(got), len(warps), n))
        return
    nans = [x for x in it.nodes if x.kinds == ('Nans',)]
    for a, g, w in zip(cx['parts'], got, warps):
        mine = [x for x in nans if isinstance(x.den, tuple) and x.den[0] == 'base' and x.den[1] == a.den[1]]
        undone(tr, cx, a, g, w, mine)


scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedChannelConcat.undo_warps', check_undos, name='undo warps', prep=tf_setup)(run_undos)


# ------------------------------------------------------------------ channel selections

def chan(*codes):
    return N.ChanV(App('codes', tuple(codes), 'chan'))


def band_list(it, v):
    """The bands of a graph: (image, index) or None for missing data."""
    if isinstance(v, N.NodeV) and v.cls is None:
        return [(v.label, i) for i in range(int(T.const_of(it.canon(v.nch))))]
    kind = N.kind_of(v.cls)
    if kind in ('Leaf', 'Identity'):
        n = T.const_of(it.asnum(it.getattr(v, 'num_channels')))
        return [(getattr(v, 'label', None) or 'leaf', i) for i in range(int(n))]
    if kind == 'Nans':
        n = it.getattr(v, 'num_channels')
        return [None] * int(T.const_of(it.asnum(n)))
    if kind == 'Concat':
        return [x for p in it.iterate(v.attrs['parts']) for x in band_list(it, p)]
    sub = band_list(it, v.attrs['subdata'])
    if kind == 'Crop':
        idx = v.attrs['meta'].d['chan_idxs']
        if idx is not None:
            out = []
            for i in it.iterate(idx):
                k = T.const_of(it.asnum(i))
                if not -len(sub) <= k < len(sub):
                    return ['no band %d of %d' % (k, len(sub))]
                out.append(sub[int(k)])
            return out
    return sub


KINDS1 = tuple(k for k in N.ALL_KINDS if k not in ('Concat', 'Nans'))
CODES = ('a', 'b', 'c', 'd', 'e', 'f')


def build(it, cx, which):
    """An image of six bands; returns it and its bands."""
    dims = (T.to_poly(it.sym('w', 'int', lo=1)), T.to_poly(it.sym('h', 'int', lo=1)))
    named = it.chan_mode == 'spec'
    mk = lambda label, lo, hi: N.NodeV(it, KINDS1, 'input', label=label, dims=dims, nch=hi - lo,
                                       chan=chan(*CODES[lo:hi]) if named else None)
    cc = it.module_attr(N.NODES, 'DelayedChannelConcat')
    if which == 'image':
        r = mk('A', 0, 6)
    elif which == 'concat':
        r = it.call(cc, [I.ListV([mk('A', 0, 2), mk('B', 2, 3), mk('C', 3, 6)])], {})
    elif which == 'shared':
        b = mk('B', 1, 3)
        r = it.call(cc, [I.ListV([mk('A', 0, 1), b, b, mk('C', 5, 6)])], {})
    else:
        inner = it.call(cc, [I.ListV([mk('B', 2, 3), mk('C', 3, 5)])], {})
        r = it.call(cc, [I.ListV([mk('A', 0, 2), inner, mk('D', 5, 6)])], {})
    cx['img'], cx['dims'] = r, dims
    cx['bands'] = band_list(it, r)
    own(it, r, set())
    return r


def requests():
    import itertools
    out = []
    names = CODES + ('x',)
    for n in (1, 2):
        out += [list(x) for x in itertools.permutations(names, n)]
    out += [list(x) for x in itertools.permutations(('a', 'b', 'c', 'd', 'x'), 3)]
    out += [list(CODES), list(reversed(CODES)), ['x', 'y'], ['x', 'a', 'y'], ['a', 'b', 'x', 'y', 'c'], ['b', 'c', 'd'], ['a', 'b', 'c', 'd', 'e'],
            ['d', 'e', 'f', 'a'], ['f', 'x', 'f'][:2], ['c', 'd', 'f'], ['b', 'a', 'd', 'c']]
    return out


def index_requests():
    import itertools
    out = []
    for n in (1, 2):
        out += [list(x) for x in itertools.product(range(-2, 6), repeat=n)]
    out += [list(x) for x in itertools.permutations((0, 1, 2, 3), 3)]
    out += [list(range(6)), list(range(5, -1, -1)), [1, 2, 3], [0, 0, 0], [3, 4, 5], [2, 3], [1, 1, 2]]
    return out


NAMES, IDXS = requests(), index_requests()
SLICES = [(None, None, None), (0, 2, None), (1, None, None), (None, 4, None), (2, 5, None), (None, None, 2), (None, None, -1), (-3, None, None), (3, 1, None)]


def run_take(it, cx):
    img = build(it, cx, cx['which'])
    if cx['how'] == 'names':
        req = NAMES[it.choose(len(NAMES))]
        cx['want'] = [cx['bands'][CODES.index(c)] if c in CODES else None for c in req]
        cx['codes'] = req
        arg = '|'.join(req) if it.choose(2) == 0 else chan(*req)
    elif cx['how'] == 'indices':
        req = IDXS[it.choose(len(IDXS))]
        cx['want'] = [cx['bands'][i] for i in req]
        cx['codes'] = [CODES[i] for i in req]
        arg = I.ListV(list(req), 'user')
    elif cx['how'] == 'int':
        i = it.choose(9) - 3
        cx['want'], cx['codes'], arg = [cx['bands'][i]], [CODES[i]], i
    else:
        sl = SLICES[it.choose(len(SLICES))]
        req = list(range(6))[slice(*sl)]
        cx['want'] = [cx['bands'][i] for i in req]
        cx['codes'] = [CODES[i] for i in req]
        arg = I.SliceV(*sl)
    kw = {}
    cx['policy'] = None
    if cx['how'] == 'names' and it.choose(2) == 1:
        cx['policy'] = kw['missing_channel_policy'] = 'error'
    cx['arg'] = arg
    begin(it)
    if cx.get('item'):
        return it.getitem(img, (I.SliceV(None, None), I.SliceV(None, None), arg))
    return it.call(it.getattr(img, 'take_channels'), [arg], kw)


def check_take(tr, cx):
    it = tr.it
    what = 'the selection of %s' % (cx['arg'],)
    if cx['policy'] == 'error' and None in cx['want']:
        tr.count('obligations')
        if tr.kind == 'return':
            tr.fail('missing channels', '%s is accepted although a channel is missing and the policy is to reject it' % what)
        elif tr.value.implicit:
            tr.fail('missing channels', '%s: fails with %s' % (what, tr.value), construct=None)
        return
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    got = tr.value
    tr.count('obligations')
    bands = band_list(it, got)
    if bands != cx['want']:
        rule = 'missing channels' if None in cx['want'] and [x for x in bands if x] == [x for x in cx['want'] if x] else 'selected bands'
        tr.fail(rule, '%s delivers the bands %s instead of %s' % (what, bands, cx['want']))
        return
    tr.count('discharged')
    if bands:
        dims_eq(tr, 'canvas', what, got, cx['dims'])
        c = it.getattr(got, 'channels')
        named = it.chan_mode == 'spec'
        tr.count('obligations')
        codes = N.codes_of(N.chan_norm(it, c.term)) if isinstance(c, N.ChanV) else None
        if named and (codes is None or list(codes) != cx['codes']):
            tr.fail('channel names', '%s is named %s instead of %s' % (what, c, cx['codes']))
        n = it.getattr(got, 'num_channels')
        tr.num_eq('channel names', what + ': the number of channels', n, len(bands))


for which, cls in (('image', 'DelayedImage'), ('concat', 'DelayedChannelConcat'), ('nested', 'DelayedChannelConcat')):
    for how in ('names', 'indices', 'slices'):
        scenario(('P',), 'delayed_image/delayed_nodes.py:%s.take_channels' % cls, check_take, name='take %s %s' % (which, how),
                 prep=prep(which=which, how=how), max_paths=4000)(run_take)
    scenario(('P',), 'delayed_image/delayed_nodes.py:%s.take_channels' % cls, check_take, name='take unnamed %s' % which,
             prep=prep(which=which, how='indices'), chan='count', max_paths=4000)(run_take)
    for how in ('indices', 'slices', 'int'):
        scenario(('P',), 'delayed_image/delayed_nodes.py:%s.__getitem__' % cls, check_take, name='item %s %s' % (which, how),
                 prep=prep(which=which, how=how, item=True), max_paths=4000)(run_take)


# the same image twice
scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedChannelConcat.take_channels', check_take, name='take unnamed shared',
         prep=prep(which='shared', how='indices'), chan='count', max_paths=4000)(run_take)
scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedChannelConcat.__getitem__', check_take, name='item unnamed shared',
         prep=prep(which='shared', how='slices', item=True), chan='count', max_paths=4000)(run_take)


# ------------------------------------------------------------------ finalize

BASE = 'delayed_image/delayed_base.py:DelayedOperation.'


def run_finalize(it, cx):
    a = operand(it)
    cx['a'] = a
    b = N.NodeV(it, N.ALL_KINDS, 'shared', label='O', d=a.den, dims=a.dims, chan=a.chan, nch=a.nch)
    cx['b'] = b
    log = cx['log'] = []

    def contract(name, res):
        def f(it, node, args, kw):
            log.append((name, node))
            return res(node)
        it.contracts[name] = f
    contract('prepare', lambda n: n)
    contract('optimize', lambda n: b)
    arr = App('pixels', (), 'any')
    img = __import__('sa.images', fromlist=['x'])
    w, h = a.dims
    val = img.ImgV(('src', 'final'), (h, w, a.nch), img.DTypeV(Sym('dt')), it.sym('masked', 'bool'), img.Region('operand', 'the pixels'))
    contract('_finalize', lambda n: val)
    kw = {}
    cx['prepare'] = cx['optimize'] = True
    for n in ('prepare', 'optimize'):
        k = it.choose(3)
        if k:
            cx[n] = kw[n] = (k == 1)
    begin(it)
    return it.call(it.getattr(a, 'finalize'), [], kw)


def check_finalize(tr, cx):
    from . import images as G
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    tr.count('obligations')
    a, b, log = cx['a'], cx['b'], cx['log']
    want = []
    if cx['prepare']:
        want.append(('prepare', a))
    if cx['optimize']:
        want.append(('optimize', a))
    want.append(('_finalize', b if cx['optimize'] else a))
    if [(n, x.label) for n, x in log] != [(n, x.label) for n, x in want]:
        tr.fail('finalize', 'finalize(prepare=%s, optimize=%s) calls %s instead of %s' % (
            cx['prepare'], cx['optimize'], [(n, x.label) for n, x in log], [(n, x.label) for n, x in want]))
        return
    v = tr.value
    if not isinstance(v, G.ImgV) or v.content != ('src', 'final'):
        tr.fail('finalize', 'finalize returns %s instead of the delivered array' % (v,))


scenario(('P',), BASE + 'finalize', check_finalize, name='finalize')(run_finalize)


def run_prepare(kind):
    def run(it, cx):
        root = N.make_root(it, kind)
        log = cx['log'] = []
        it.contracts['prepare'] = lambda it, node, a, k: (log.append(node), node)[1]
        cx['root'] = root
        begin(it)
        f, _ = root.cls.lookup('prepare')
        return it.call(f, [root], {})
    return run


def check_prepare(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.count('obligations')
    root = cx['root']
    kids = [root.attrs['subdata']] if root.attrs.get('subdata') is not None else list(root.attrs['parts'].items)
    if sorted(x.label for x in cx['log']) != sorted(x.label for x in kids) or tr.value is not root:
        tr.fail('finalize', 'prepare reaches %s instead of %s' % ([x.label for x in cx['log']], [x.label for x in kids]))


for kind in ('Warp', 'Crop', 'Overview', 'Dequantize', 'Concat', 'AsXarray'):
    scenario(('P',), BASE + 'prepare', check_prepare, name='prepare ' + kind)(run_prepare(kind))


def run_evaluate(it, cx):
    kinds = tuple(k for k in N.ALL_KINDS if k != 'Concat')
    a = operand(it, kinds)
    cx['a'] = a
    from . import images as G
    w, h = a.dims
    val = G.ImgV(('src', 'final'), (h, w, a.nch), G.DTypeV(Sym('dt')), it.sym('masked', 'bool'), G.Region('operand', 'the pixels'))
    it.contracts['finalize'] = lambda it, node, args, kw: val
    begin(it)
    return it.call(it.getattr(a, 'evaluate'), [], {})


def check_evaluate(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    a, got = cx['a'], tr.value
    tr.count('obligations')
    if not isinstance(got, I.Obj) or N.kind_of(got.cls) != 'Identity':
        tr.fail('finalize', 'evaluate returns %r' % (got,))
        return
    data = got.attrs.get('data') if 'data' in got.attrs else it.getattr(got, 'data')
    if getattr(data, 'content', None) != ('src', 'final'):
        tr.fail('finalize', 'evaluate wraps %r' % (data,))
    dims_eq(tr, 'canvas', 'the evaluated image', got, a.dims)
    chan_eq(tr, 'channel names', 'the evaluated image', got, it.getattr(a, 'channels'), a.nch)


for c in ('spec', 'count'):
    scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedImage.evaluate', check_evaluate, name='evaluate ' + c, chan=c)(run_evaluate)


# ------------------------------------------------------------------ parameters of finalize

PARAMS = [('interpolation', 'nearest'), ('antialias', False), ('border_value', 0), ('backend', 'cv2'), ('noop_eps', 0),
          ('nodata_method', 'ma'), ('nodata_method', None), ('border_value', None)]


def param_graph(it, cx):
    """concat(warp(load), warp(crop(load)), nodata)"""
    mk = lambda mod, cls, *args, **kw: it.call(it.module_attr(mod, cls), list(args), kw)
    dims = lambda n: tuple(T.to_poly(it.sym(n + x, 'int', lo=1)) for x in 'wh')
    t1, t2 = [M.AffineV(T.aff_atom(it.sym(n, 'affine'))) for n in ('T1', 'T2')]
    big = dims('W')
    load = lambda n: mk(N.LEAFS, 'DelayedLoad', n, channels=chan(n), dsize=dims(n), nodata_method='float')
    full = I.SliceV(None, None)
    w1 = mk(N.NODES, 'DelayedWarp', load('a'), t1, dsize=big, interpolation='linear', border_value=7, antialias=True, backend='auto', noop_eps=1e-3)
    w2 = mk(N.NODES, 'DelayedWarp', mk(N.NODES, 'DelayedCrop', load('b'), (full, full)), t2, dsize=big, interpolation='cubic')
    root = mk(N.NODES, 'DelayedChannelConcat', I.ListV([w1, w2]))
    own(it, root, set())
    return root


def metas(it, node):
    """(position, class, parameters) of all operations of a graph"""
    out, todo = [], [((), node)]
    while todo:
        pos, x = todo.pop(0)
        out.append((pos, x.cls.name, dict(it.getattr(x, 'meta').d)))
        kids = list(x.attrs['parts'].items) if isinstance(x.attrs.get('parts'), I.ListV) else [x.attrs['subdata']] if isinstance(x.attrs.get('subdata'), I.Obj) else []
        todo += [(pos + (i,), k) for i, k in enumerate(kids)]
    return out


def run_params(it, cx):
    root = param_graph(it, cx)
    cx['before'] = metas(it, root)
    name, val = PARAMS[it.choose(len(PARAMS))]
    kw = {name: val}
    if it.choose(2):
        kw['interpolation'] = 'lanczos'
    cx['kw'] = kw
    f, _ = root.cls.lookup('_finalize')
    cx['seen'] = []

    def evaluate(it, args, kwargs):
        cx['seen'].append(metas(it, args[0]))
        from . import images as G
        return G.ImgV(('src', 'final'), tuple(it.getattr(root, 'shape')), G.DTypeV(Sym('dt')), it.sym('masked', 'bool'), G.Region('operand', 'the pixels'))
    it.hooks[f.qualname] = evaluate
    cx['steps'], flags = [], {}
    cx['want'] = []
    for n in ('prepare', 'optimize'):
        k = it.choose(3)
        if k:
            flags[n] = k == 1
        if k != 2:
            cx['want'].append(n)
        f, _ = root.cls.lookup(n)

        def step(it, args, kwargs, n=n):
            cx['steps'].append(n)
            return args[0]
        it.hooks[f.qualname] = step
    begin(it)
    return it.call(it.getattr(root, 'finalize'), [], dict(kw, **flags))


def check_finalize_params(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.count('obligations')
    kw = cx['kw']
    if cx['steps'] != cx['want']:
        tr.fail('finalize', 'finalize(%s) does %s instead of %s before the evaluation' % (', '.join('%s=%s' % x for x in kw.items()), cx['steps'], cx['want']))
        return
    if len(cx['seen']) != 1:
        tr.fail('finalize', 'the graph is evaluated %d times' % len(cx['seen']))
        return
    got = {(p, c): m for p, c, m in cx['seen'][0]}
    for pos, cls, old in cx['before']:
        new = got.get((pos, cls))
        if new is None:
            tr.fail('finalize', 'finalize(%s) evaluates a graph without its %s' % (', '.join(kw), cls))
            return
        for k, v in old.items():
            tr.count('obligations')
            w = kw[k] if k in kw else v
            if k not in new or T.keyof(I.freeze(new[k])) != T.keyof(I.freeze(w)):
                tr.fail('finalize', 'finalize(%s): %s of %s is %s instead of %s' % (', '.join('%s=%s' % x for x in kw.items()), k, cls, new.get(k), w))
                return
    tr.count('discharged')


scenario(('P',), BASE + 'finalize', check_finalize_params, name='finalize parameters')(run_params)


# ------------------------------------------------------------------ inspection

def small_graph(it, cx):
    """crop(concat(warp(a), dequantize(overview(b))), c) over opaque leaves"""
    dims = (T.to_poly(it.sym('w', 'int', lo=1)), T.to_poly(it.sym('h', 'int', lo=1)))
    leaf = lambda n: N.NodeV(it, ('Leaf',), 'input', label=n, dims=dims)
    a, b, c = leaf('A'), leaf('B'), leaf('C')
    for x in (a, b, c):
        x.concrete(it)
    mk = lambda cls, *args, **kw: it.call(it.module_attr(N.NODES, cls), list(args), kw)
    t1, t2 = [M.AffineV(T.aff_atom(it.sym(n, 'affine'))) for n in ('T1', 'T2')]
    big = (T.to_poly(it.sym('W', 'int', lo=1)), T.to_poly(it.sym('H', 'int', lo=1)))
    w1 = mk('DelayedWarp', a, t1, dsize=big)
    w2 = mk('DelayedWarp', mk('DelayedDequantize', b, it.sym('q', 'quant')), t2, dsize=big)
    c2 = mk('DelayedWarp', c, t2, dsize=big)
    cat = mk('DelayedChannelConcat', I.ListV([w1, w2]))
    root = mk('DelayedChannelConcat', I.ListV([mk('DelayedWarp', cat, t1, dsize=big), c2]))
    cx['leafs'] = [a, b, c]
    cx['root'] = root
    own(it, root, set())
    return root


def own(it, v, seen):
    """Everything reachable belongs to the user."""
    if isinstance(v, I.Obj):
        if v.hid in seen:
            return
        seen.add(v.hid)
        v.owner = 'input'
        for x in v.attrs.values():
            own(it, x, seen)
    elif isinstance(v, (I.ListV, I.DictV)):
        v.owner = 'input'
        for x in (v.items if isinstance(v, I.ListV) else v.d.values()):
            own(it, x, seen)


def run_leafs(it, cx):
    root = small_graph(it, cx)
    begin(it)
    return I.ListV(list(it.iterate(it.call(it.getattr(root, cx['what']), [], {}))))


def check_leafs(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes('inspection writes')
    tr.count('obligations')
    got = list(tr.value.items)
    if cx['what'] == '_traverse':
        want = N_reach(it, cx['root'])
        nodes = [list(it.iterate(x))[1] for x in got]
        if sorted(x.hid for x in nodes) != sorted(x.hid for x in want):
            tr.fail('inspection', 'the traversal visits %d nodes instead of %d' % (len(nodes), len(want)))
        for x in got:
            p, n = list(it.iterate(x))
            if p is None:
                if n is not cx['root']:
                    tr.fail('inspection', 'a node without a parent is visited')
            elif n not in kids(it, p):
                tr.fail('inspection', 'the traversal reports a wrong parent')
        return
    if cx['what'] == 'leafs':
        if sorted(x.hid for x in got) != sorted(x.hid for x in cx['leafs']):
            tr.fail('inspection', 'the leafs are %s instead of %s' % (got, cx['leafs']))
        return
    pairs = [list(it.iterate(x)) for x in got]
    if sorted(p[0].hid for p in pairs) != sorted(x.hid for x in cx['leafs']):
        tr.fail('inspection', 'the leaf paths start at %s instead of %s' % ([p[0] for p in pairs], cx['leafs']))
        return
    want = {x[1].name: x[2] for x in N.den_leaves(N.norm(it, N.den(it, cx['root'])))}
    for leaf, part in pairs:
        d = N.norm(it, N.den(it, part))
        while d[0] in ('dq', 'take'):
            d = d[2]
        if d[0] != 'base' or d[1].name not in want:
            tr.fail('inspection', 'the path of %s shows %s' % (leaf, N.den_key(d)))
            return
        if d[1] != leaf.base:
            tr.fail('inspection', 'the path of %s shows another image' % (leaf,))
            return
        tr.aff_eq('reported transform', 'the path of %s is transformed differently' % (leaf,), d[2], want[d[1].name])


def kids(it, v):
    if isinstance(v.attrs.get('parts'), I.ListV):
        return list(v.attrs['parts'].items)
    s = v.attrs.get('subdata')
    return [] if s is None else [s]


def N_reach(it, root):
    out = [root]
    for x in kids(it, root):
        out.extend(N_reach(it, x))
    return out


for what in ('leafs', '_leaf_paths', '_traverse'):
    scenario(('P',), BASE + what, check_leafs, name='inspect ' + what, prep=prep(what=what))(run_leafs)


def run_from_concat(it, cx):
    root = small_graph(it, cx)
    dims = (T.to_poly(it.sym('w3', 'int', lo=1)), T.to_poly(it.sym('h3', 'int', lo=1)))
    t3 = M.AffineV(T.aff_atom(it.sym('T3', 'affine')))
    mk = lambda cls, *args, **kw: it.call(it.module_attr(N.NODES, cls), list(args), kw)
    a = cx['leafs'][it.choose(3)]
    a.concrete(it)
    src = mk('DelayedWarp', a, t3, dsize=dims)
    own(it, src, set())
    cx['src'], cx['leaf'], cx['swap'] = src, a, it.choose(2)
    begin(it)
    x, y = (src, root) if cx['swap'] else (root, src)
    return it.call(it.getattr(x, 'get_transform_from'), [y], {})


def check_from_concat(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes('inspection writes')
    got = M.to_aff(it, tr.value)
    if got is None:
        tr.fail('reported transform', 'the reported transform is %r' % (tr.value,))
        return
    leaf = cx['leaf']
    tf = lambda v: [x[2] for x in N.den_leaves(N.norm(it, N.den(it, v))) if x[0] == 'base' and x[1] == leaf.base][0]
    a, b = tf(cx['root']), tf(cx['src'])
    if cx['swap']:
        a, b = b, a
    tr.aff_eq('reported transform', 'the transform between two images', got, a.compose(b.inverse()))


scenario(('P',), MIX + 'get_transform_from', check_from_concat, name='transform from concat')(run_from_concat)


def run_nesting(it, cx):
    root = small_graph(it, cx)
    begin(it)
    return it.call(it.getattr(root, cx['what']), [], {})


def check_nesting(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes('inspection writes')
    tr.count('obligations')
    root, v = cx['root'], tr.value
    if cx['what'] == 'as_graph' and isinstance(v, M.GraphV):
        objs = {n: d.d.get('obj') for n, d in v.nodes.d.items()}
        want = N_reach(it, root)
        if sorted(x.hid for x in objs.values()) != sorted(x.hid for x in want):
            tr.fail('inspection', 'the graph has %d nodes instead of %d' % (len(objs), len(want)))
        elif len(v.edges) != len(want) - 1 or not all(any(objs[n] is x for x in kids(it, objs[p])) for p, n in v.edges):
            tr.fail('inspection', 'the graph connects other nodes than the operations')
    if cx['what'] == 'nesting':
        def same(d, node):
            if not isinstance(d, I.DictV) or d.d.get('type') != node.cls.name:
                return False
            sub = d.d.get('children')
            sub = list(it.iterate(sub)) if sub is not None else []
            ks = kids(it, node)
            return len(sub) == len(ks) and all(same(x, y) for x, y in zip(sub, ks))
        if not same(v, root):
            tr.fail('inspection', 'the nesting does not have the structure of the graph')


for what in ('nesting', '__repr__', '__str__', 'as_graph'):
    scenario(('P',), BASE + what, check_nesting, name='inspect ' + what, prep=prep(what=what))(run_nesting)


# -- what an operation reports about itself

def run_reports(kind):
    def run(it, cx):
        mk = lambda cls, *args, **kw: it.call(it.module_attr(N.NODES, cls), list(args), kw)
        a = operand(it, label='A')
        cx['a'] = a
        dims = list(a.dims)
        nch = lambda: it.getattr(a, 'num_channels')
        cx['nch'], cx['chan'] = nch, lambda: it.getattr(a, 'channels')
        cx['nov'] = lambda: it.getattr(a, 'num_overviews')
        if kind == 'Warp':
            dims = [T.to_poly(it.sym('W', 'int', lo=1)), T.to_poly(it.sym('H', 'int', lo=1))]
            r = mk('DelayedWarp', a, M.AffineV(T.aff_atom(it.sym('T', 'affine'))), dsize=tuple(dims))
        elif kind == 'Crop':
            sl = []
            for nm, d in (('y', dims[1]), ('x', dims[0])):
                s, t = T.to_poly(it.sym(nm + '0', 'int', lo=0)), T.to_poly(it.sym(nm + '1', 'int', lo=0))
                it.assume(it.rel('<=', s, t))
                it.assume(it.rel('<=', t, d))
                sl.append((s, t))
            dims = [T.sub(t, s) for s, t in reversed(sl)]
            idx = indices(it, cx, a)
            kw = {}
            if idx is not None:
                kw['chan_idxs'] = idx
                cx['nch'] = cx['chan'] = None
            r = mk('DelayedCrop', a, tuple(I.SliceV(s, t) for s, t in sl), **kw)
        elif kind == 'Dequantize':
            a.kinds = tuple(k for k in a.kinds if k not in ('Dequantize', 'Concat', 'Warp'))
            r = mk('DelayedDequantize', a, it.sym('q', 'quant'))
        elif kind == 'Overview':
            k = T.to_poly(it.sym('level', 'int', lo=0))
            s = T.div(1, T.power(2, k))
            dims = [T.rounding('ceil', T.mul(s, x)) for x in dims]
            def nov(k=k):
                o = it.getattr(a, 'num_overviews')
                if o is None:
                    return None
                return T.sub(o, k) if it.truth(it.rel('>', o, k)) else 0
            cx['nov'] = nov
            r = mk('DelayedOverview', a, k)
        elif kind == 'AsXarray':
            r = mk('DelayedAsXarray', a)
        else:
            b = operand(it, label='B', dims=tuple(dims))
            r = mk('DelayedChannelConcat', I.ListV([a, b]))
            cx['nov'] = None
            cx['nch'] = cx['chan'] = None
            cx['parts'] = [a, b]
        cx['kind'], cx['dims'] = kind, dims
        begin(it)
        cx['r'] = r
        out = []
        for name in ('shape', 'dsize', 'num_channels', 'channels', 'num_overviews'):
            out.append(it.getattr(r, name))
        return tuple(out)
    return run


def same_report(tr, what, got, want):
    if want is None or got is None:
        tr.count('obligations')
        if (want is None) != (got is None):
            tr.fail('inspection', '%s: %r instead of %r' % (what, got, want))
        else:
            tr.count('discharged')
        return
    tr.num_eq('inspection', what, got, want)


def check_reports(tr, cx):
    it = tr.it
    if not tr.no_raise('rejected'):
        return
    tr.no_writes('inspection writes')
    shape, dsize, nch, chan, nov = tr.value
    h, w, c = it.iterate(shape)
    gw, gh = it.iterate(dsize)
    for what, g, x in (('the reported height', h, cx['dims'][1]), ('the reported width', w, cx['dims'][0]),
                       ('the height of the reported size', gh, cx['dims'][1]), ('the width of the reported size', gw, cx['dims'][0])):
        same_report(tr, what, g, x)
    same_report(tr, 'the number of bands in the reported shape', c, nch)
    if cx['nch'] is not None:
        same_report(tr, 'the reported number of bands', nch, cx['nch']())
    if cx['chan'] is not None:
        want = cx['chan']()
        tr.count('obligations')
        if (want is None) != (chan is None) or want is not None and it.equal(chan, want) is not True:
            tr.fail('inspection', 'the reported channels are %r instead of %r' % (chan, want))
        else:
            tr.count('discharged')
    if cx['nov'] is not None:
        same_report(tr, 'the reported number of overviews', nov, cx['nov']())
    elif cx.get('parts'):
        ns = [it.getattr(x, 'num_overviews') for x in cx['parts']]
        if None in ns:
            same_report(tr, 'the reported number of overviews', nov, ns[0] if ns[0] is ns[1] else None)
        elif it.truth(it.rel('==', *ns)):
            same_report(tr, 'the reported number of overviews', nov, ns[0])
        elif nov is not None:
            tr.fail('inspection', 'the reported number of overviews of parts with different numbers: %r' % (nov,))
        if nch is not None:
            ks = [it.getattr(x, 'num_channels') for x in cx['parts']]
            if None not in ks:
                same_report(tr, 'the reported number of bands', nch, T.add(*ks))


for kind in ('Warp', 'Crop', 'Dequantize', 'Overview', 'AsXarray', 'Concat'):
    scenario(('P',), 'delayed_image/delayed_nodes.py:%s' % N.CLASS_OF[kind][1], check_reports, name='reports ' + kind)(run_reports(kind))


# -- the crop by coordinates

def run_coordinate(it, cx):
    a = operand(it)
    cx['a'] = a
    x0, y0 = [T.to_poly(it.sym(n, 'real')) for n in ('x0', 'y0')]
    w, h = [T.to_poly(it.sym(n, 'int', lo=1)) for n in ('bw', 'bh')]
    x1, y1 = T.add(x0, w), T.add(y0, h)
    cx['box'] = (x0, y0, x1, y1)
    cx['kw'] = {'interpolation': 'linear'}
    begin(it)
    box = M.BoxesV(M.ArrV((4,), [x0, y0, x1, y1]), single=True)
    return it.call(it.getattr(a, '_coordinate_crop'), [box], {} if it.choose(2) else {'lazy': True})


def check_coordinate(tr, cx):
    if not tr.no_raise('rejected'):
        return
    tr.no_writes()
    a, got = cx['a'], tr.value
    x0, y0, x1, y1 = cx['box']
    want = N.sp(T.aff_translate(T.neg(x0), T.neg(y0)), None, a.den)
    if den_eq(tr, 'geometry', 'the coordinate window', got, want):
        dims_eq(tr, 'canvas', 'the coordinate window', got, (T.sub(x1, x0), T.sub(y1, y0)))
        well(tr, 'canvas', got)
        check_params(tr, got, cx['kw'])


scenario(('P',), MIX + '_coordinate_crop', check_coordinate, name='op coordinate crop')(run_coordinate)


# -- requests without an answer

def must_refuse(tr, what):
    """No value is delivered."""
    tr.count('obligations')
    if tr.kind == 'return':
        tr.fail('refused', '%s is accepted and delivers %r' % (what, tr.value), construct=None)
    elif tr.kind == 'raise':
        tr.count('discharged')


def check_refused(tr, cx):
    tr.no_writes('refused')
    if cx.get('equal') and tr.kind == 'return':
        for what, x, y in cx['equal']():
            tr.num_eq('refused', what, x, y)
    elif not cx.get('equal'):
        must_refuse(tr, cx['what'])


def run_sizes(it, cx):
    n = 2 + it.choose(2)
    parts = [operand(it, label=x) for x in 'ABC'[:n]]
    cx['equal'] = lambda: [('parts of different %ss are concatenated' % nm, p.dims[i], parts[0].dims[i])
                           for p in parts[1:] for i, nm in enumerate(('width', 'height'))]
    begin(it)
    return it.call(it.module_attr(N.NODES, 'DelayedChannelConcat'), [I.ListV(parts, 'user')], {})


def run_nameless(it, cx):
    img = build(it, cx, ('image', 'concat', 'nested')[it.choose(3)])
    req = (['a'], ['a', 'b'], ['x'], ['c', 'x', 'a'])[it.choose(4)]
    cx['what'] = 'a selection by the names %s from an image without names' % (req,)
    kw = {}
    k = it.choose(3)
    if k:
        kw['missing_channel_policy'] = (None, 'error', 'return_nan')[k]
    arg = '|'.join(req) if it.choose(2) == 0 else chan(*req)
    begin(it)
    return it.call(it.getattr(img, 'take_channels'), [arg], kw)


def run_policy(it, cx):
    img = build(it, cx, ('concat', 'nested', 'shared')[it.choose(3)])
    req = (['a'], ['b', 'a'], ['x'], ['c', 'x', 'a'])[it.choose(4)]
    pol = ('nan', 'raise', 'ignore', '', None)[it.choose(5)]
    cx['what'] = 'a selection with the unknown policy %r' % (pol,)
    begin(it)
    return it.call(it.getattr(img, 'take_channels'), ['|'.join(req)], {'missing_channel_policy': pol})


def run_exclusive(plural):
    def run(it, cx):
        kinds = ('Concat',) if plural else tuple(k for k in N.ALL_KINDS if k not in ('Concat', 'Nans'))
        a = operand(it, kinds)
        sets = [(), ('scale',), ('offset', 'theta'), KEYS]
        rem, ret = sets[it.choose(4)], sets[it.choose(4)]
        kw = {'remove': I.ListV(list(rem), 'user'), 'retain': (I.ListV if it.choose(2) else I.SetV)(list(ret), 'user')}
        cx['what'] = 'to remove %s and retain %s' % (list(rem), list(ret))
        for n in ('return_warp' + plural, 'squash_nans'):
            if it.choose(2):
                kw[n] = True
        begin(it)
        return it.call(it.getattr(a, 'undo_warp' + plural), [], kw)
    return run


def run_item(it, cx):
    k = it.choose(2)
    if k:
        img = operand(it, tuple(x for x in N.ALL_KINDS if x != 'Concat'))
    else:
        img = build(it, cx, 'concat')
    s = lambda: I.SliceV(0, 4)
    item = [lambda: s(), lambda: 3, lambda: I.ListV([s(), s()], 'user'), lambda: I.ListV([0, 1], 'user'), lambda: (s(),), lambda: (),
            lambda: (s(), s(), I.ListV([0], 'user'), s()), lambda: (s(), s(), s(), s(), s())][it.choose(8)]()
    cx['what'] = 'the item %r' % (item,)
    begin(it)
    return it.getitem(img, item)


def run_clip(it, cx):
    """Padding or an unclipped window need both switches off."""
    a = operand(it)
    s = [T.to_poly(it.sym(n, 'int', lo=0)) for n in ('y0', 'y1', 'x0', 'x1')]
    it.assume(it.rel('<=', s[0], s[1]))
    it.assume(it.rel('<=', s[2], s[3]))
    p = T.to_poly(it.sym('pad', 'int', lo=1))
    pad = [None, 0, p, (p, p), ((p, 0), (0, p))][it.choose(5)]
    clip, wrap = [(True, True), (True, False), (False, True)][it.choose(3)]
    cx['what'] = 'a window with clip=%s, wrap=%s, pad=%s' % (clip, wrap, pad)
    if clip and wrap and pad in (None, 0):
        # an ordinary window
        cx['equal'] = lambda: []
    kw = {'clip': clip, 'wrap': wrap}
    if pad is not None:
        kw['pad'] = pad
    begin(it)
    return it.call(it.getattr(a, 'crop'), [(I.SliceV(*s[:2]), I.SliceV(*s[2:]))], kw)


def run_validate(it, cx):
    a = operand(it)
    b = N.NodeV(it, N.ALL_KINDS, 'shared', label='O', d=a.den, chan=a.chan, nch=a.nch)
    img = __import__('sa.images', fromlist=['x'])
    fw, fh, fc = [T.to_poly(it.sym(n, 'int', lo=1)) for n in ('fw', 'fh', 'fc')]
    val = img.ImgV(('src', 'final'), (fh, fw, fc), img.DTypeV(Sym('dt')), it.sym('masked', 'bool'), img.Region('operand', 'the pixels'))
    it.contracts['optimize'] = lambda it, n, x, k: b
    it.contracts['_finalize'] = lambda it, n, x, k: val
    w, h = a.dims

    def equal():
        yield 'an array of another width is validated', fw, w
        yield 'an array of another height is validated', fh, h
        yield 'an array with another number of bands is validated', fc, it.getattr(a, 'num_channels')
        if tuple(a.kinds) != ('Concat',):
            yield 'an optimized graph of another width is validated', b.dims[0], w
            yield 'an optimized graph of another height is validated', b.dims[1], h
    cx['equal'] = equal
    begin(it)
    return it.call(it.getattr(a, '_validate'), [], {})


def check_validate(tr, cx):
    it = tr.it
    check_refused(tr, cx)
    if tr.kind == 'raise':
        tr.count('obligations')
        for m in tr.models():
            try:
                ev = m.evaluator(it)
                if all(abs(ev.fl(it.canon(it.asnum(x))) - ev.fl(it.canon(it.asnum(y)))) < 1e-9 for _, x, y in cx['equal']()):
                    tr.report('refused', 'an array of the advertised shape is not validated', m)
                    return
            except (Undefined, TypeError):
                continue
        tr.count('not refuted')


scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedChannelConcat.__init__', check_refused, name='refuse sizes')(run_sizes)
scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedChannelConcat.take_channels', check_refused, name='refuse policy')(run_policy)
scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedImage.take_channels', check_refused, name='refuse names', chan='count')(run_nameless)
scenario(('P',), 'delayed_image/delayed_nodes.py:_rectify_retain', check_refused, name='refuse exclusive')(run_exclusive(''))
scenario(('P',), 'delayed_image/delayed_nodes.py:_rectify_retain', check_refused, name='refuse exclusives')(run_exclusive('s'))
scenario(('P',), 'delayed_image/delayed_nodes.py:ImageOpsMixin.__getitem__', check_refused, name='refuse item')(run_item)
scenario(('P',), MIX + 'crop', check_refused, name='refuse padding')(run_clip)
scenario(('P',), 'delayed_image/delayed_nodes.py:DelayedImage._validate', check_validate, name='refuse validate')(run_validate)
