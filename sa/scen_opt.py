"""
Whole optimizations of small graphs with known bands.

Here no descendant is replaced by its contract: the rewrites are followed
through the whole graph.  The shapes and band selections are concrete, sizes,
windows, levels, transforms and quantizations are symbols.
"""
from . import terms as T
from . import interp as I
from . import models as M
from . import nodes as N
from .scen import scenario
from .scen_ops import own, begin, chan, dims_eq, chan_eq, well
from .checks_opt import step
from .terms import Aff, Sym


def prep(it):
    for kind in ('Warp', 'Crop', 'Dequantize', 'Overview', 'Concat', 'AsXarray'):
        it.hooks.pop(N.CLASS_OF[kind][1] + '.optimize', None)


class Build:
    """A small language of graphs."""

    def __init__(self, it, cx):
        self.it, self.cx, self.n = it, cx, 0

    def mk(self, cls, *args, **kw):
        return self.it.call(self.it.module_attr(N.NODES, cls), list(args), kw)

    def num(self, name, lo=1):
        self.n += 1
        return T.to_poly(self.it.sym('%s%d' % (name, self.n), 'int', lo=lo))

    def leaf(self, codes, dims=None, kind='Leaf'):
        it = self.it
        named = it.chan_mode == 'spec'
        r = N.NodeV(it, (kind,), 'input', label='L' + codes, dims=dims or (self.num('w'), self.num('h')), nch=len(codes),
                    chan=chan(*codes) if named else None)
        r.concrete(it)
        return r

    def crop(self, x, idx=None):
        it = self.it
        w, h = [it.asnum(v) for v in it.iterate(it.getattr(x, 'dsize'))]
        sl = []
        for d in (h, w):
            a, n = self.num('c', 0), self.num('n')
            it.assume(it.rel('<=', T.add(a, n), d))
            sl.append(I.SliceV(a, T.add(a, n)))
        return self.mk('DelayedCrop', x, tuple(sl), I.ListV(list(idx)) if idx is not None else None)

    def take(self, x, idx):
        return self.mk('DelayedCrop', x, None, I.ListV(list(idx)))

    def warp(self, x, dims=None):
        self.n += 1
        t = M.AffineV(T.aff_atom(self.it.sym('T%d' % self.n, 'affine')))
        return self.mk('DelayedWarp', x, t, dsize=dims or (self.num('W'), self.num('H')), interpolation='linear')

    def known(self, x, k):
        """A warp by a representative transform."""
        sc, tr = T.aff_scale, T.aff_translate
        t = [lambda: tr(T.div(7, 2), -3),
             lambda: sc(T.div(1, 4), T.div(1, 4)),
             lambda: sc(T.div(1, 4), T.div(1, 2)).compose(tr(8, 4)),
             lambda: tr(1, T.div(5, 2)).compose(sc(3, 2)),
             lambda: sc(1, -1)][k]()
        return self.mk('DelayedWarp', x, M.AffineV(t), dsize=(self.num('W'), self.num('H')), interpolation='linear')

    def over(self, x):
        return self.mk('DelayedOverview', x, self.num('k', 0))

    def dq(self, x):
        self.n += 1
        return self.mk('DelayedDequantize', x, self.it.sym('q%d' % self.n, 'quant'))

    def cat(self, *parts):
        return self.mk('DelayedChannelConcat', I.ListV(list(parts)))


GRAPHS = {
    'crop crop': lambda b: b.crop(b.crop(b.leaf('abc'), [2, 0, 1]), [1, 0]),
    'crop crop twice': lambda b: b.crop(b.crop(b.leaf('abc'), [0, 1, 2]), [2, 2]),
    'take take take': lambda b: b.take(b.take(b.take(b.leaf('abcd'), [3, 1, 2]), [2, 0]), [1]),
    'crop overview crop': lambda b: b.crop(b.over(b.crop(b.leaf('abc'), [1, 2])), [1]),
    'overview crop': lambda b: b.over(b.crop(b.leaf('abc'), [2, 0])),
    'dequantize crop': lambda b: b.dq(b.crop(b.leaf('abc'), [2, 0])),
    'crop dequantize crop': lambda b: b.crop(b.dq(b.crop(b.leaf('abc'), [2, 0])), [1]),
    'crop dequantize overview': lambda b: b.crop(b.dq(b.over(b.leaf('abc'))), [2, 0]),
    'warp crop': lambda b: b.warp(b.crop(b.leaf('abc'), [2, 0])),
    'crop warp take': lambda b: b.crop(b.warp(b.take(b.leaf('abc'), [2, 0])), [1, 0]),
    'warp dequantize take': lambda b: b.warp(b.dq(b.take(b.leaf('abc'), [1]))),
    'take warp warp': lambda b: b.take(b.warp(b.warp(b.leaf('abc'))), [2, 1]),
    'concat': lambda b: (lambda d: b.cat(b.warp(b.take(b.leaf('ab'), [1, 0]), d), b.warp(b.dq(b.leaf('cd')), d)))((b.num('W'), b.num('H'))),
    'take concat': lambda b: (lambda d: b.take(b.cat(b.warp(b.leaf('ab'), d), b.leaf('cd', d)), [3, 1, 2]))((b.num('W'), b.num('H'))),
    'crop concat': lambda b: (lambda d: b.crop(b.cat(b.leaf('ab', d), b.leaf('cd', d)), [2, 0]))((b.num('W'), b.num('H'))),
    'crop concat all': lambda b: (lambda d: b.crop(b.cat(b.leaf('ab', d), b.dq(b.leaf('cd', d)))))((b.num('W'), b.num('H'))),
    'take nested concat': lambda b: (lambda d: b.take(b.cat(b.leaf('a', d), b.cat(b.leaf('bc', d), b.take(b.leaf('de', d), [1, 0]))), [4, 0, 3, 1]))((b.num('W'), b.num('H'))),
    'take shared concat': lambda b: (lambda d: (lambda s: b.take(b.cat(s, b.take(s, [1, 0]), s), [3, 0, 4]))(b.leaf('ab', d)))((b.num('W'), b.num('H'))),
    'warp concat': lambda b: (lambda d: b.warp(b.cat(b.leaf('ab', d), b.take(b.leaf('cd', d), [1]))))((b.num('W'), b.num('H'))),
    'overview concat': lambda b: (lambda d: b.over(b.cat(b.leaf('a', d), b.dq(b.leaf('b', d)))))((b.num('W'), b.num('H'))),
    'dequantize concat': lambda b: (lambda d: b.dq(b.cat(b.leaf('a', d), b.take(b.leaf('bc', d), [1]))))((b.num('W'), b.num('H'))),
    'nodata concat': lambda b: (lambda d: b.take(b.cat(b.leaf('a', d), b.leaf('bc', d, 'Nans')), [2, 0]))((b.num('W'), b.num('H'))),
    'shared warp': lambda b: (lambda s: b.cat(s, b.take(s, [1]), b.dq(s)))(b.warp(b.crop(b.leaf('ab')))),
}
for _k in range(5):
    GRAPHS['take warp %d' % _k] = lambda b, k=_k: b.take(b.known(b.crop(b.leaf('abc'), [2, 0]), k), [1])
    GRAPHS['crop warp %d' % _k] = lambda b, k=_k: b.crop(b.known(b.leaf('abc'), k), [2, 0])
    GRAPHS['warp over %d' % _k] = lambda b, k=_k: b.known(b.dq(b.crop(b.over(b.leaf('abc')), [2, 0])), k)
    GRAPHS['concat warp %d' % _k] = lambda b, k=_k: b.known(b.cat(*(lambda d: (b.leaf('a', d), b.dq(b.leaf('bc', d))))((b.num('W'), b.num('H')))), k)



def view(it, v, cx):
    """One entry per band: (image, index, transform, dequantizations)."""
    kind = N.kind_of(v.cls)
    if kind is None:
        raise I.Unsupported('node class')
    if kind == 'Nans':
        n = T.const_of(it.asnum(it.getattr(v, 'num_channels')))
        return [('nodata', None, None, ())] * int(n)
    if kind in ('Leaf', 'Identity'):
        n = T.const_of(it.asnum(it.getattr(v, 'num_channels')))
        return [(getattr(v, 'label', None) or 'other', i, Aff(), ()) for i in range(int(n))]
    if kind == 'Concat':
        return [x for p in it.iterate(v.attrs['parts']) for x in view(it, p, cx)]
    sub = view(it, v.attrs['subdata'], cx)
    meta = v.attrs['meta'].d
    if kind == 'Dequantize':
        q = T.keyof(it.canon(I.freeze(meta['quantization'])))
        return [x if x[1] is None else x[:3] + (x[3] + (q,),) for x in sub]
    if kind == 'Crop' and meta['chan_idxs'] is not None:
        out = []
        for i in it.iterate(meta['chan_idxs']):
            k = T.const_of(it.asnum(i))
            out.append(sub[int(k)] if -len(sub) <= k < len(sub) else ('no band', k, None, ()))
        sub = out
    t = step(it, v, kind)
    return [x if x[2] is None else x[:2] + (t.compose(x[2]), x[3]) for x in sub]


def run(it, cx):
    b = Build(it, cx)
    g = GRAPHS[cx['graph']](b)
    own(it, g, set())
    cx['root'] = g
    cx['view'] = view(it, g, cx)
    cx['dims'] = tuple(it.asnum(x) for x in it.iterate(it.getattr(g, 'dsize')))
    cx['chan'], cx['nch'] = it.getattr(g, 'channels'), it.getattr(g, 'num_channels')
    begin(it)
    return it.call(it.getattr(g, 'optimize'), [], {})


def check(tr, cx):
    it = tr.it
    if not tr.no_raise('whole raises'):
        return
    tr.no_writes('whole writes')
    got = tr.value
    if not isinstance(got, I.Obj):
        tr.fail('whole bands', 'the result is %r' % (got,))
        return
    tr.count('obligations')
    a, b = view(it, got, cx), cx['view']
    if [x[:2] for x in a] != [x[:2] for x in b]:
        tr.fail('whole bands', 'the optimized graph delivers the bands %s instead of %s' % ([x[:2] for x in a], [x[:2] for x in b]))
        return
    if [x[3] for x in a] != [x[3] for x in b]:
        tr.fail('whole quantization', 'the bands are dequantized by %s instead of %s' % ([x[3] for x in a], [x[3] for x in b]))
        return
    seen = set()
    for x, y in zip(a, b):
        if x[2] is not None and (x[2].key, y[2].key) not in seen:
            seen.add((x[2].key, y[2].key))
            if not tr.aff_eq('whole geometry', 'band %s of %s is transformed differently' % (x[1], x[0]), x[2], y[2]):
                break
    chan_eq(tr, 'whole bands', 'the optimized graph', got, cx['chan'], cx['nch'])
    dims_eq(tr, 'whole canvas', 'the optimized graph', got, cx['dims'])
    well(tr, 'whole canvas', got)


def setting(name):
    def f(it):
        prep(it)
        it.cx['graph'] = name
    return f


for name in GRAPHS:
    for mode in ('spec', 'count'):
        if mode == 'spec' or 'warp' not in name:
            scenario(('B',), 'delayed_image/delayed_nodes.py: optimize', check, name='%s (%s)' % (name, mode), prep=setting(name), chan=mode, max_paths=60)(run)
