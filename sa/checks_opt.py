"""
Obligations on the traces of ``optimize``.

Every trace is compared with the denotation of its input: geometry, canvas,
channels, resampling parameters, quantization, visible region, memo table,
writes and exceptions.
"""
import os

from . import terms as T
from . import interp as I
from . import nodes as N
from . import sample
from .terms import Sym, App, Poly, Aff, Undefined

PROPS = ('geometry', 'canvas', 'writes', 'params', 'channels', 'quant', 'raises', 'memo', 'visible', 'detail')


DEBUG = bool(os.environ.get('SA_DEBUG'))


class Finding:
    def __init__(self, rule, construct, message, site=None, detail=None):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.site = site
        self.detail = detail or {}

    @property
    def key(self):
        return '%s %s' % (self.rule, self.construct)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def mats_close(a, b):
    return all(close(x, y) for r, s in zip(a, b) for x, y in zip(r, s))


def show(v, depth=0):
    """A readable rendering of an operation graph."""
    if isinstance(v, N.NodeV):
        return repr(v)
    if isinstance(v, I.Obj):
        kind = N.kind_of(v.cls)
        meta = v.attrs.get('meta')
        m = {}
        if isinstance(meta, I.DictV):
            for k in ('transform', 'dsize', 'space_slice', 'chan_idxs', 'overview', 'quantization'):
                if k in meta.d:
                    m[k] = str(meta.d[k])[:160]
        kids = []
        if v.attrs.get('subdata') is not None:
            kids = [v.attrs['subdata']]
        elif isinstance(v.attrs.get('parts'), I.ListV):
            kids = v.attrs['parts'].items
        return {'node': v.cls.name, 'built_at': site_text(getattr(v, 'site', None)), 'meta': m,
                'below': [show(x, depth + 1) for x in kids] if depth < 8 else '...'}
    return repr(v)


def site_text(site):
    if not site:
        return None
    return '%s:%s:%s' % (site[0], site[2], site[1]) if isinstance(site, tuple) and len(site) == 3 else str(site)


def chain_of(it, v, tf=None, acc=None):
    """
    The image leaves of a graph with the canvases above them:
    [(leaf, [(node, transform of the node into the root)])]
    """
    tf = Aff() if tf is None else tf
    acc = [] if acc is None else acc
    here = acc + [(v, tf)]
    if isinstance(v, N.NodeV) and (v.cls is None or v.source is not None and v.owner == 'shared'):
        src = v.source
        if src is not None and not isinstance(src, N.NodeV):
            return chain_of(it, src, tf, here)
        if src is not None and src.cls is not None:
            return chain_of(it, src, tf, here)
        return [(v, here)]
    kind = N.kind_of(v.cls)
    if kind in ('Leaf', 'Nans', 'Identity', None):
        return [(v, here)]
    if kind == 'Concat':
        out = []
        for p in it.iterate(v.attrs['parts']):
            out.extend(chain_of(it, p, tf, here))
        return out
    sub = v.attrs['subdata']
    if isinstance(v, N.NodeV) and kind in ('Leaf', 'Nans'):
        return [(v, here)]
    return chain_of(it, sub, tf.compose(step(it, v, kind)), here)


def structure_of(it, v, tf=None, acc=None):
    """As chain_of, through the structure found in an optimized node itself."""
    tf = Aff() if tf is None else tf
    acc = [] if acc is None else acc
    here = acc + [(v, tf)]
    if v.cls is None:
        return [(v, here)]
    kind = N.kind_of(v.cls)
    if kind in ('Leaf', 'Nans', 'Identity', None):
        return [(v, here)]
    if kind == 'Concat':
        out = []
        for p in it.iterate(v.attrs['parts']):
            out.extend(structure_of(it, p, tf, here))
        return out
    return structure_of(it, v.attrs['subdata'], tf.compose(step(it, v, kind)), here)


def step(it, v, kind):
    """The transform of the data of a node into the node."""
    meta = v.attrs['meta']
    if kind == 'Warp':
        aff = N.M.to_aff(it, meta.d['transform'])
        if aff is None:
            raise I.Unsupported('transform')
        return aff
    if kind == 'Overview':
        s = T.div(1, T.power(2, it.asnum(meta.d['overview'])))
        return T.aff_scale(s, s)
    if kind == 'Crop':
        sl = meta.d['space_slice']
        if sl is not None:
            sy, sx = list(it.iterate(sl))[0:2]
            y0 = 0 if sy.start is None else it.asnum(sy.start)
            x0 = 0 if sx.start is None else it.asnum(sx.start)
            return T.aff_translate(T.neg(x0), T.neg(y0))
    return Aff()


def dims_of(it, v):
    return [it.asnum(x) for x in it.iterate(it.getattr(v, 'dsize'))]


def apply(m, p):
    return (m[0][0] * p[0] + m[0][1] * p[1] + m[0][2], m[1][0] * p[0] + m[1][1] * p[1] + m[1][2])


class PathCheck:
    """The obligations of one trace."""

    def __init__(self, rep):
        self.rep = rep
        self.it = rep.it
        self.root = rep.root
        self.value = rep.value
        self.findings = []
        self.counts = {}
        self.models_ = None
        self.near_ = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def construct(self):
        """The construct that a finding of this trace is attributed to."""
        for s in self.sites():
            return s
        return 'optimize of %s' % N.kind_of(self.root.cls)

    def sites(self):
        """Where the fresh nodes of the result were built."""
        out = []
        todo = [self.value]
        seen = set()
        while todo:
            v = todo.pop(0)
            if not isinstance(v, I.Obj) or v.hid in seen:
                continue
            seen.add(v.hid)
            if not isinstance(v, N.NodeV):
                s = site_text(getattr(v, 'site', None))
                if s and v.owner == 'fresh':
                    out.append(s)
            src = getattr(v, 'source', None)
            if src is not None:
                todo.append(src)
            if v.attrs.get('subdata') is not None:
                todo.append(v.attrs['subdata'])
            if isinstance(v.attrs.get('parts'), I.ListV):
                todo.extend(v.attrs['parts'].items)
        return out

    def models(self):
        if self.models_ is None:
            it = self.it
            pool = list(sample.models(it))
            n = 0
            for i in range(20):
                if len(pool) >= 4:
                    break
                m = sample.Model('c%d' % i)
                if m.fits(it):
                    pool.append(m)
            self.models_ = pool
            if not pool:
                self.count('traces without a model')
        return self.models_

    def near(self):
        """Members of the state close to the known ones."""
        if self.near_ is None:
            self.near_ = list(sample.roomy(self.it)) + list(sample.neighbours(self.it, self.models(), 24))
            self.count('further models', len(self.near_))
        return self.near_

    def detail(self, model=None, **kw):
        it = self.it
        d = {
            'root': show(self.root), 'result': show(self.value) if self.rep.kind == 'return' else str(self.value),
            'rewrites': self.rep.rewrites,
            'trail': [c for _, c in it.chooser.trail],
            'facts': ['%s%s' % ('' if v else 'not ', str(c)[:240]) for c, v in it.facts[:60]],
            'equalities': ['%s := %s' % (a, str(b)[:200]) for a, b in list(it.subst.items())[:40]],
        }
        if model is not None:
            d['model'] = {k: str(v) for k, v in sorted(model.values.items())}
        d.update({k: v if isinstance(v, (str, int, float, list, dict)) else str(v) for k, v in kw.items()})
        return d

    def report(self, rule, message, model=None, construct=None, **kw):
        self.findings.append(Finding(rule, construct or self.construct(), message, construct or self.construct(), self.detail(model, **kw)))

    # -- obligations
    def run(self, rules):
        rep = self.rep
        it = self.it
        if rep.kind == 'undecided':
            self.count('undecided')
            return self
        din = N.norm(it, self.root.den)
        self.din = din
        if 'writes' in rules:
            self.check_writes()
        if rep.kind == 'raise':
            self.count('raise')
            if 'raises' in rules:
                self.check_raise()
            return self
        self.count('return')
        if 'raises' in rules:
            self.count('raises: discharged')
        if not isinstance(self.value, N.NodeV) and (not isinstance(self.value, I.Obj) or N.kind_of(self.value.cls) is None):
            if 'raises' in rules:
                m = self.models()
                if m:
                    self.report('result', 'optimize returns %r, which is no operation graph' % (self.value,), m[0])
            return self
        try:
            self.dout = N.norm(it, N.den(it, self.value))
        except (I.Unsupported, I.AbsRaise, I.PathLimit) as ex:
            self.count('undecided')
            return self
        for rule in rules:
            f = getattr(self, 'check_' + rule, None)
            if f is not None and rule not in ('writes', 'raises'):
                try:
                    f()
                except (I.Unsupported, I.AbsRaise, I.PathLimit, Undefined):
                    self.count(rule + ': undecided')
                except Exception as ex:
                    if DEBUG:
                        raise
                    self.count(rule + ': undecided (%s)' % type(ex).__name__)
        return self

    def num_eq(self, rule, what, a, b, construct=None):
        """a == b in every member of the state"""
        it = self.it
        a, b = it.asnum(a), it.asnum(b)
        c = it.mkcond('==', T.sub(it.canon(a), it.canon(b)))
        if c is True:
            self.count(rule + ': discharged')
            return True
        if it.implied(c) is True:
            self.count(rule + ': discharged')
            return True
        for m in self.models() + self.near():
            try:
                ev = m.evaluator(it)
                x, y = ev.ev(it.canon(a)), ev.ev(it.canon(b))
            except Undefined:
                continue
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not close(x, y):
                self.report(rule, '%s: %g instead of %g' % (what, x, y), m, construct, computed=a, expected=b)
                return False
        self.count(rule + ': not refuted')
        return True

    def check_geometry(self):
        it = self.it
        if N.den_key(self.din) == N.den_key(self.dout):
            self.count('geometry: discharged')
            return
        if N.den_shape(self.din) != N.den_shape(self.dout):
            a = [x for x in N.den_leaves(self.din)]
            b = [x for x in N.den_leaves(self.dout)]
            if [x[0] for x in a] != [x[0] for x in b] or [x[1].name for x in a if x[0] == 'base'] != [x[1].name for x in b if x[0] == 'base']:
                if self.structural_known():
                    for m in self.models():
                        self.report('geometry', 'the result shows other images than the graph it replaces', m,
                                    input=N.den_key(self.din), output=N.den_key(self.dout))
                        return
                self.count('geometry: not refuted')
                return
        for x, y in zip(N.den_leaves(self.din), N.den_leaves(self.dout)):
            if x[0] != 'base' or y[0] != 'base' or x[2].key == y[2].key:
                continue
            for m in self.models() + self.near():
                try:
                    ev = m.evaluator(it)
                    p, q = ev.ev(x[2]), ev.ev(y[2])
                except Undefined:
                    continue
                if not mats_close(p, q):
                    self.report('geometry', 'the result is transformed differently from the graph it replaces', m,
                                image=x[1].name, expected=str(p), computed=str(q))
                    return
        self.count('geometry: not refuted')

    def structural_known(self):
        return True

    def check_canvas(self):
        it = self.it
        din = dims_of(it, self.root)
        dout = dims_of(it, self.value)
        self.count('canvas: obligations', 2)
        for a, b, n in zip(dout, din, ('width', 'height')):
            if not self.num_eq('canvas', 'the result has another %s' % n, a, b):
                return
        fr = [('malformed result: ' + m, a, b) for m, a, b in N.well_formed(it, self.value)]
        fr += [('malformed graph handed to optimize: ' + m, a, b) for m, a, b in it.malformed]
        self.count('canvas: obligations', len(fr))
        for m, a, b in fr:
            if not self.num_eq('canvas', m, a, b):
                return

    def check_writes(self):
        it = self.it
        bad = []
        for kind, obj, detail, site in it.effects:
            if getattr(obj, 'owner', 'fresh') == 'fresh':
                continue
            if obj is getattr(it, 'ctx', None) or getattr(obj, 'ctx_owned', False):
                continue
            if str(detail) == '_opt_logs' or '_opt_logs' in str(detail):
                continue
            bad.append((kind, obj, detail, site))
        self.count('writes: stores examined', len(it.effects))
        for kind, obj, detail, site in bad[:1]:
            for m in self.models():
                self.report('writes', '%s of %s on a node that belongs to the input (%s)' % (kind, detail, getattr(obj, 'label', None) or type(obj).__name__), m,
                            construct=site_text(site))
                return

    def check_params(self):
        it = self.it
        # the parameters of the outermost warps of the input
        known = []
        v = self.root
        above = None
        while True:
            kind = N.kind_of(v.cls) if v.cls is not None else None
            if kind == 'Warp':
                known = N.param_key(it, v.attrs['meta'])
                break
            if kind in ('Crop', 'Dequantize', 'AsXarray', 'Overview'):
                v = v.attrs['subdata']
                # rewrites see the operand after it was optimized
                o = it.opt_memo.get(getattr(v, 'hid', None))
                if isinstance(o, N.NodeV) and o.cls is not None:
                    v = o
                continue
            return
        fresh = []
        todo = [self.value]
        while todo:
            x = todo.pop()
            if not isinstance(x, I.Obj):
                continue
            if isinstance(x, N.NodeV):
                if x.source is not None and not isinstance(x.source, N.NodeV):
                    todo.append(x.source)
                elif x.cls is not None and x.attrs.get('subdata') is not None:
                    todo.append(x.attrs['subdata'])
                continue
            kind = N.kind_of(x.cls)
            if kind == 'Warp' and x.owner == 'fresh':
                fresh.append(x)
                continue
            if kind == 'Overview':
                pass
            if x.attrs.get('subdata') is not None:
                todo.append(x.attrs['subdata'])
            if isinstance(x.attrs.get('parts'), I.ListV):
                todo.extend(x.attrs['parts'].items)
        for x in fresh:
            got = N.param_key(it, x.attrs['meta'])
            for name, a, b in zip(N.ALGO, known, got):
                self.count('params: obligations')
                if a == b:
                    self.count('params: discharged')
                    continue
                for m in self.models():
                    self.report('params', 'a rewritten warp has another %s' % name, m, construct=site_text(getattr(x, 'site', None)),
                                expected=a, computed=b)
                    return

    def check_channels(self):
        it = self.it
        self.count('channels: obligations', 2)
        a, b = N.den_shape(self.din), N.den_shape(self.dout)
        strip = lambda s: s
        if takes(self.din) != takes(self.dout):
            for m in self.models():
                self.report('channels', 'the result selects other bands', m, input=N.den_key(self.din), output=N.den_key(self.dout))
                return
        ca, cb = it.getattr(self.root, 'channels'), it.getattr(self.value, 'channels')
        eq = it.equal(ca, cb) if not (ca is None and cb is None) else True
        if eq is not True:
            known = eq is False or (isinstance(eq, App) and eq.op == 'eqv')
            for m in self.models():
                if known:
                    self.report('channels', 'the result advertises other channels', m, expected=ca, computed=cb)
                    return
        na, nb = it.getattr(self.root, 'num_channels'), it.getattr(self.value, 'num_channels')
        if na is None or nb is None:
            if (na is None) != (nb is None):
                for m in self.models():
                    self.report('channels', 'the number of channels of the result is %s' % ('unknown' if nb is None else 'known'), m,
                                expected=na, computed=nb)
                    return
            self.count('channels: discharged')
            return
        self.num_eq('channels', 'the number of channels of the result', nb, na)

    def check_quant(self):
        it = self.it
        self.count('quant: obligations')
        a, b = dqs(self.din), dqs(self.dout)
        if a != b:
            for m in self.models():
                self.report('quant', 'values are dequantized %s' % ('differently' if len(a) == len(b) else 'once too often' if len(b) > len(a) else 'not at all'),
                            m, input=N.den_key(self.din), output=N.den_key(self.dout))
                return
        # resampling of quantized values
        for leaf, above in structure_of(it, self.value):
            seen = None
            for v, _ in above:
                kind = N.kind_of(v.cls) if v.cls is not None else None
                if kind == 'Dequantize':
                    seen = v
                elif kind == 'Warp' and seen is not None:
                    for m in self.models():
                        self.report('quant', 'quantized values are resampled below a dequantization', m)
                        return
        self.count('quant: discharged')

    def check_raise(self):
        it = self.it
        ex = self.value
        double = N.dq_depth(self.din) >= 2 or (N.kind_of(self.root.cls) == 'Dequantize' and any(
            isinstance(r, N.NodeV) and r.source is not None and r.kinds == ('Dequantize',) for r in it.opt_memo.values()))
        if double and not ex.implicit:
            self.count('raises: rejected double dequantization')
            return
        for m in self.models():
            self.report('raises', 'optimize fails with %s' % (ex,), m, construct=site_text(ex.site))
            return
        self.count('raises: no witness')

    def check_memo(self):
        it = self.it
        ctx = it.ctx
        self.count('memo: obligations')
        for node, c, site in it.opt_calls:
            self.count('memo: obligations')
            if c is not ctx:
                for m in self.models():
                    self.report('memo', 'a descendant is optimized outside of the shared context', m, construct=site_text(site))
                    return
            self.count('memo: discharged')
        memo = it.getattr(ctx, 'memo')
        if isinstance(memo, I.DictV):
            vals = list(memo.d.values())
            hit = any(v is self.value for v in vals)
            self.count('memo: discharged')
            if not hit:
                for m in self.models():
                    self.report('memo', 'the result is not recorded for shared occurrences of the node', m,
                                construct='optimize of %s' % self.root.cls.name)
                    return

    def check_visible(self):
        it = self.it
        if N.den_shape(self.din) != N.den_shape(self.dout):
            return
        ins = chain_of(it, self.root)
        outs = chain_of(it, self.value)
        self.count('visible: obligations')
        a = [x for x in N.den_leaves(self.din)]
        # constraints: what an optimized descendant shows
        # (not what a graph that the rewrite has built may show: that one has to
        # show the pixels itself)
        refined = [r for r in it.opt_memo.values() if isinstance(r, N.NodeV) and isinstance(r.source, N.NodeV) and r.cls is not None]
        seen = set()
        cons = []
        for r in refined:
            if r.hid in seen:
                continue
            seen.add(r.hid)
            d = N.norm(it, r.den)
            leaves = list(N.den_leaves(d))
            cons.append((r, leaves, structure_of(it, r)))
        if len(outs) not in (1, len(a)) or any(x[0] != 'base' for x in a):
            self.count('visible: undecided')
            return
        in_struct = []
        for leaf, above in ins:
            in_struct.append((leaf, above))
        self.shown = 0
        pool = list(self.models())
        near = iter(self.near())
        for i in range(len(pool) + 80):
            if i < len(pool):
                m = pool[i]
            elif not pool:
                break
            else:
                m = next(near, None)
                if m is None:
                    # the models so far show too little of the images
                    if self.shown >= 3:
                        break
                    m = sample.Model('v%d' % i)
                    if not m.fits(it):
                        continue
            try:
                bad = self.visible_in(m, ins, outs, a, cons)
            except Undefined:
                continue
            if bad:
                p, q, node, dims = bad
                self.report('visible', 'the rewritten graph no longer shows a pixel that the graph shows', m,
                            pixel=str(p), position=str(q), cut_by='%s built at %s' % (node.cls.name if node.cls else node, site_text(getattr(node, 'site', None))), canvas=str(dims))
                return
        self.count('visible: not refuted' if self.shown else 'visible: nothing shown by any model')

    def visible_in(self, m, ins, outs, leaves, cons):
        it = self.it
        ev = m.evaluator(it)
        num = lambda v: ev.ev(it.canon(v))
        w, h = [num(x) for x in dims_of(it, self.root)]
        if w < 1 or h < 1:
            return None
        xs = sorted({0, int(w // 3), int(w // 2), int(2 * w // 3), int(w - 1)})
        ys = sorted({0, int(h // 3), int(h // 2), int(2 * h // 3), int(h - 1)})
        shows = False
        prep = lambda above: [(v, T.np_mat_inv(ev.ev(it.canon(tf))), [num(x) for x in dims_of(it, v)]) for v, tf in above]
        for i, leaf in enumerate(leaves):
            if i >= len(outs) and len(outs) != 1 or i >= len(ins) and len(ins) != 1:
                return None
            pin = prep(ins[i if i < len(ins) else 0][1])
            pout = prep(outs[i if i < len(outs) else 0][1])
            pc = []
            for r, ls, st in cons:
                same = [j for j, l in enumerate(ls) if l[0] == 'base' and leaf[0] == 'base' and l[1] is leaf[1]]
                if not same or len(st) <= same[0]:
                    continue
                j = same[0]
                # root -> base -> r
                to_r = T.np_mat_mul(ev.ev(it.canon(ls[j][2])), T.np_mat_inv(ev.ev(it.canon(leaf[2]))))
                pc.append((to_r, prep(st[j][1])))
            for x in xs:
                for y in ys:
                    p = (float(x), float(y))
                    if not all(inside(apply(t, p), d, 0) for _, t, d in pin):
                        continue
                    if not all(all(inside(apply(t, apply(to_r, p)), d, 0) for _, t, d in ch) for to_r, ch in pc):
                        continue
                    if not shows:
                        shows = True
                        self.shown += 1
                    for v, t, d in pout:
                        q = apply(t, p)
                        scale = max(1., abs(t[0][0]) + abs(t[0][1]), abs(t[1][0]) + abs(t[1][1]))
                        if not inside(q, d, scale + .01):
                            return p, q, v, d
        return None


    def levels(self, v, through):
        """
        [(leaf, overview levels above the leaf, transform of the leaf)] of a
        graph, through what its optimized operands look like.
        """
        it = self.it
        out = []

        def go(v, tf, k):
            if isinstance(v, N.NodeV) and v.source is not None and not isinstance(v.source, N.NodeV) and not through:
                return go(v.source, tf, k)
            if through and v is not self.root:
                v = it.opt_memo.get(v.hid, v)
            if v.cls is None:
                return out.append((v, k, tf))
            kind = N.kind_of(v.cls)
            if kind in ('Leaf', 'Nans', 'Identity', None):
                return out.append((v, k, tf))
            if kind == 'Concat':
                for p in it.iterate(v.attrs['parts']):
                    go(p, tf, k)
                return
            if kind == 'Overview':
                k = T.add(k, it.asnum(v.attrs['meta'].d['overview']))
            go(v.attrs['subdata'], tf.compose(step(it, v, kind)), k)
        go(v, Aff(), 0)
        return out

    def check_detail(self):
        """No new overview where an axis is not shrunk that much."""
        it = self.it
        ins = {}
        for leaf, k, tf in self.levels(self.root, True):
            ins.setdefault(leaf.hid, []).append(k)
        self.count('detail: obligations')
        known = False
        for leaf, k, tf in self.levels(self.value, False):
            k0 = ins.get(leaf.hid)
            if k0 is None:
                continue
            known = True
            for m in self.models() + self.near():
                try:
                    ev = m.evaluator(it)
                    a, b = ev.ev(it.canon(k)), max(ev.ev(it.canon(x)) for x in k0)
                    if a <= b + .5:
                        continue
                    p = T.np_decompose(ev.ev(it.canon(tf)))
                except Undefined:
                    continue
                s = max(abs(p['sx']), abs(p['sy']))
                if s * 2 ** a > 1 + 1e-6:
                    self.report('detail', 'the result reads an overview that is coarser than the graph shows it', m,
                                level=a, requested=b, scale=[p['sx'], p['sy']])
                    return
        self.count('detail: not refuted' if known else 'detail: other images')


def inside(p, dims, slack):
    return -slack - 1e-6 <= p[0] <= dims[0] - 1 + slack + 1e-6 and -slack - 1e-6 <= p[1] <= dims[1] - 1 + slack + 1e-6


def takes(d):
    """The band selections above every leaf."""
    out = []

    def go(d, acc):
        if d[0] in ('base', 'nans'):
            out.append((d[1].name if d[0] == 'base' else 'nans', tuple(acc)))
        elif d[0] == 'take':
            go(d[2], acc + [T.keyof(d[1])])
        elif d[0] == 'dq':
            go(d[2], acc)
        else:
            for x in d[1]:
                go(x, acc)
    go(d, [])
    return out


def dqs(d):
    out = []

    def go(d, acc):
        if d[0] in ('base', 'nans'):
            out.append(tuple(acc))
        elif d[0] == 'dq':
            go(d[2], acc + [T.keyof(d[1])])
        elif d[0] == 'take':
            go(d[2], acc)
        else:
            for x in d[1]:
                go(x, acc)
    go(d, [])
    return out


# ------------------------------------------------------------------ exploration

def merge(counts, other):
    for k, v in other.items():
        counts[k] = counts.get(k, 0) + v


_state = {}


def _prefixes(job):
    from . import graph
    make, run = graph.root_runner(_state['program'], _state['mods'], *job)
    return job, I.prefixes(make, run, 7)


def _task(t):
    import time
    from . import graph
    job, prefix = t
    counts, findings, samples, undecided = {}, {}, [], {}
    visited, rewrites = set(), set()
    for rep in graph.explore_root(_state['program'], _state['mods'], job, prefix, max_paths=_state['max_paths'], deadline=_state['deadline']):
        if rep is None:
            merge(counts, {'subtrees cut off by the budget': 1})
            continue
        merge(counts, {'traces': 1, 'branches refuted for lack of a model': len(rep.it.unwitnessed), 'decisions': len(rep.it.chooser.trail)})
        pc = PathCheck(rep)
        try:
            pc.run(_state['rules'])
        except (I.Unsupported, I.AbsRaise, I.PathLimit, Undefined) as ex:
            merge(counts, {'undecided': 1})
        except Exception as ex:
            if DEBUG:
                raise
            merge(counts, {'undecided': 1})
            undecided['internal: %r' % (ex,)] = 1
        merge(counts, pc.counts)
        if rep.kind == 'undecided':
            k = str(rep.value)[:200]
            undecided[k] = undecided.get(k, 0) + 1
        visited.update(rep.it.visited)
        rewrites.update(rep.rewrites)
        for f in pc.findings:
            findings.setdefault(f.key, (f, job))
        if not samples and rep.kind == 'return':
            samples.append({'root': show(rep.root), 'result': show(rep.value), 'rewrites': rep.rewrites, 'facts': len(rep.it.facts)})
    return job, counts, list(findings.values()), samples, undecided, visited, rewrites


def explore_all(program, rules, jobs, budget=420, max_paths=3000):
    """All traces of the jobs, on all cores; merged counts and findings."""
    import time
    import multiprocessing as mp
    from . import graph
    _state.update(program=program, mods=graph.load_modules(program), rules=rules, max_paths=max_paths, deadline=time.time() + budget)
    per_job = {}
    findings, samples, undecided, visited, rewrites = {}, [], {}, set(), set()
    with mp.Pool(min(8, mp.cpu_count() or 1)) as pool:
        tasks = []
        for job, qs in pool.imap_unordered(_prefixes, jobs):
            tasks.extend((job, q) for q in qs)
        for job, c, fs, smp, und, vis, rw in pool.imap_unordered(_task, tasks):
            merge(per_job.setdefault('/'.join(map(str, job)), {}), c)
            for f, j in fs:
                findings.setdefault(f.key, (f, j))
            if len(samples) < 3:
                samples.extend(smp)
            merge(undecided, und)
            visited |= vis
            rewrites |= rw
    return {'per_root': per_job, 'findings': [f for f, j in findings.values()], 'samples': samples[:3],
            'undecided': undecided, 'visited': visited, 'rewrites': rewrites}
