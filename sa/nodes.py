"""
The abstract domain of operation graphs.

A node of the graph is an ``NodeV``: its kind is unknown until the analysed
code asks for it, its canvas and channels are value numbers.  The *denotation*
of a node is a function of its opaque descendants only::

    ('base', b, T, P)   the image b under the transform T, P the resampling
                        parameters of the outermost warp (None if unknown)
    ('nans',)           no data
    ('take', idx, D)    a selection of bands
    ('cat', (D, ...))   a concatenation of bands
    ('dq', q, D)        a dequantization

in a normal form with the transforms innermost and the selections outermost.
``optimize`` of a descendant is replaced by its contract: an arbitrary node
with the same denotation, canvas and channels.
"""
from . import terms as T
from . import interp as I
from . import models as M
from .terms import Sym, App, Poly, Aff

NODES = 'delayed_image.delayed_nodes'
LEAFS = 'delayed_image.delayed_leafs'
BASE = 'delayed_image.delayed_base'

CLASS_OF = {
    'Warp': (NODES, 'DelayedWarp'), 'Crop': (NODES, 'DelayedCrop'),
    'Dequantize': (NODES, 'DelayedDequantize'), 'Overview': (NODES, 'DelayedOverview'),
    'Concat': (NODES, 'DelayedChannelConcat'), 'Nans': (LEAFS, 'DelayedNans'),
    'Leaf': (LEAFS, 'DelayedLoad'), 'AsXarray': (NODES, 'DelayedAsXarray'),
    'Identity': (LEAFS, 'DelayedIdentity'),
}
UNARY = ('Warp', 'Crop', 'Dequantize', 'Overview')
ALL_KINDS = ('Leaf', 'Overview', 'Crop', 'Warp', 'Dequantize', 'Nans', 'Concat')
# what the optimizer may leave below a node (an inductive assumption, the
# roots of all results are compared with it)
NORMAL = {
    'Warp': ('Leaf', 'Overview', 'Crop', 'Dequantize'),
    'Crop': ('Leaf', 'Overview', 'Warp'),
    'Dequantize': ('Leaf', 'Overview', 'Crop', 'Nans'),
    'Overview': ('Leaf', 'Nans'),
    'Concat': ALL_KINDS,
}
ALGO = ('interpolation', 'antialias', 'border_value', 'noop_eps', 'backend')


def kind_of(cls):
    for c in cls.mro():
        if isinstance(c, I.ClassV):
            for k, (m, n) in CLASS_OF.items():
                if c.name == n:
                    return k
    return None


# ------------------------------------------------------------------ channels

class ChanV:
    """A channel spec as a term."""

    def __init__(self, term):
        self.term = term

    key = property(lambda self: 'Chan' + T.keyof(self.term))

    def __repr__(self):
        return self.key

    def freeze(self):
        return self.term

    def abs_truth(self, it):
        return True

    def abs_is_none(self, it):
        return False

    def abs_equal(self, it, other):
        if other is None:
            return False
        if isinstance(other, ChanV):
            a, b = chan_norm(it, self.term), chan_norm(it, other.term)
            if T.keyof(a) == T.keyof(b):
                return True
            if codes_of(a) is not None and codes_of(b) is not None:
                return False
            a, b = sorted((a, b), key=T.keyof)
            return App('eqv', (a, b), 'bool')
        return False

    def abs_isinstance(self, it, c):
        return isinstance(c, ChanClassV)

    def abs_getitem(self, it, i):
        return ChanV(chan_norm(it, App('chtake', (self.term, I.freeze(i)), 'chan')))

    def abs_len(self, it):
        return numel(it, self.term)

    def abs_getattr(self, it, name):
        if name == 'normalize':
            return M.bi(name, lambda it, a, k: ChanV(chan_norm(it, App('chnorm', (self.term,), 'chan'))))
        if name in ('numel',):
            return M.bi(name, lambda it, a, k: numel(it, self.term))
        if name in ('concise', 'fuse', 'copy'):
            return M.bi(name, lambda it, a, k: ChanV(chan_norm(it, App('ch' + name, (self.term,), 'chan'))))
        known = codes_of(chan_norm(it, self.term))
        if known is not None and name in ('as_list', 'to_list', 'code_list', 'as_oset', 'to_oset', 'as_set', 'to_set'):
            mk = I.ListV if 'list' in name else (lambda c: I.SetV(c, ordered='oset' in name))
            return M.bi(name, lambda it, a, k: mk(list(known)))
        if known is not None and name == 'spec':
            return '|'.join(known)
        if name in ('as_list', 'to_list', 'code_list', 'as_oset', 'to_oset', 'as_set', 'to_set'):
            return M.bi(name, lambda it, a, k: App('ch:' + name, (chan_norm(it, self.term),), 'list'))
        if name == 'spec':
            return App('chspec', (self.term,), 'str')
        return I.AttrV(self.term, name)


class ChanClassV:
    """The class FusedChannelSpec."""
    key = 'class:FusedChannelSpec'

    def abs_call(self, it, args, kwargs):
        if args and isinstance(args[0], (I.ListV, tuple)):
            c = args[0].items if isinstance(args[0], I.ListV) else args[0]
            if all(isinstance(x, str) for x in c):
                return ChanV(App('codes', tuple(c), 'chan'))
        return ChanV(App('chcodes', tuple(I.freeze(a) for a in args), 'chan'))

    def abs_instancecheck(self, it, v):
        return isinstance(v, ChanV)

    def abs_getattr(self, it, name):
        if name == 'coerce':
            return M.bi(name, self.coerce)
        if name == 'concat':
            return M.bi(name, self.concat)
        if name == '__name__':
            return 'FusedChannelSpec'
        raise I.Unsupported('FusedChannelSpec.' + name)

    @staticmethod
    def coerce(it, a, k):
        v = a[0]
        if isinstance(v, ChanV):
            return v
        if v is None:
            it.raise_('TypeError', 'cannot coerce None')
        if isinstance(v, str):
            return ChanV(App('codes', tuple(v.split('|')), 'chan'))
        if isinstance(v, (I.ListV, tuple)):
            return ChanClassV().abs_call(it, [v], {})
        return ChanV(App('chcoerce', (I.freeze(v),), 'chan'))

    @staticmethod
    def concat(it, a, k):
        parts = list(it.iterate(a[0]))
        for p in parts:
            if not isinstance(p, ChanV):
                raise I.Unsupported('concat of %r' % (p,))
        if len(parts) == 1:
            return ChanV(chan_norm(it, parts[0].term))
        return ChanV(chan_norm(it, App('chcat', tuple(p.term for p in parts), 'chan')))


def codes_of(t):
    """The names of a channel spec that is known."""
    return t.args if isinstance(t, App) and t.op == 'codes' else None


def chan_norm(it, t):
    t = it.canon(t)
    if not isinstance(t, App):
        return t
    if t.op == 'chcat':
        sub = [codes_of(chan_norm(it, x)) for x in t.args]
        if all(x is not None for x in sub):
            return App('codes', sum(sub, ()), 'chan')
    if t.op == 'chtake':
        c, idx = codes_of(chan_norm(it, t.args[0])), idx_norm(it, t.args[1])
        if c is not None and isinstance(idx, tuple) and idx and idx[0] == 'list':
            ks = [T.const_of(x) for x in idx[1:]]
            if all(k is not None for k in ks):
                if all(-len(c) <= k < len(c) for k in ks):
                    return App('codes', tuple(c[int(k)] for k in ks), 'chan')
                it.raise_('IndexError', 'no such channel')
    if t.op in ('chnorm', 'chconcise', 'chcopy'):
        return chan_norm(it, t.args[0])
    if t.op == 'chcat':
        flat = []
        for x in t.args:
            x = chan_norm(it, x)
            flat.extend(x.args if isinstance(x, App) and x.op == 'chcat' else [x])
        for pat, tgt in getattr(it, 'chan_alias', []):
            pat = tuple(chan_norm(it, p) for p in pat)
            n = len(pat)
            for i in range(len(flat) - n + 1):
                if [T.keyof(x) for x in flat[i:i + n]] == [T.keyof(x) for x in pat]:
                    tn = chan_norm(it, tgt)
                    flat[i:i + n] = tn.args if isinstance(tn, App) and tn.op == 'chcat' else [tn]
                    break
        return flat[0] if len(flat) == 1 else App('chcat', tuple(flat), 'chan')
    if t.op == 'chtake':
        c, idx = chan_norm(it, t.args[0]), idx_norm(it, t.args[1])
        if isinstance(c, App) and c.op == 'chtake':
            return App('chtake', (c.args[0], take_terms(it, c.args[1], idx)), 'chan')
        return App('chtake', (c, idx), 'chan')
    return t


def idx_norm(it, idx):
    """Flatten selections of selections."""
    idx = it.canon(idx)
    if isinstance(idx, App) and idx.op == 'take':
        a, b = idx.args
        return take_terms(it, idx_norm(it, a), idx_norm(it, b))
    if isinstance(idx, App) and idx.op == 'map':
        elt, seq = idx.args
        if isinstance(elt, Sym) and elt.name == 'elt':
            return idx_norm(it, seq)
        at = elt.single_atom() if isinstance(elt, Poly) else None
        if at is not None and isinstance(at, Sym) and at.name == 'elt':
            return idx_norm(it, seq)
    if isinstance(idx, App) and idx.op in ('list', 'tuple') and len(idx.args) == 1:
        return idx_norm(it, idx.args[0])
    return idx


def take_terms(it, a, b):
    """[a[j] for j in b]"""
    fa = a.args if isinstance(a, App) and a.op == 'takes' else (a,)
    fb = b.args if isinstance(b, App) and b.op == 'takes' else (b,)
    return App('takes', fa + fb, 'list')


def numel(it, t):
    t = chan_norm(it, t)
    if isinstance(t, Sym) and isinstance(t.info, tuple) and t.info[0] == 'numel':
        return it.canon(t.info[1])
    if isinstance(t, App):
        if t.op == 'codes':
            return len(t.args)
        if t.op == 'chtake':
            return idx_len(it, t.args[1])
        if t.op == 'chcat':
            r = 0
            for x in t.args:
                r = T.add(r, numel(it, x))
            return r
    return T.to_poly(App('numel', (t,), 'int'))


def idx_len(it, idx):
    idx = idx_norm(it, idx)
    if isinstance(idx, App) and idx.op == 'takes':
        return idx_len(it, idx.args[-1])
    if isinstance(idx, tuple) and idx and idx[0] == 'list':
        return len(idx) - 1
    return T.to_poly(App('len', (idx,), 'int'))


# ------------------------------------------------------------------ denotations

def sp(tf, params, d):
    """d under a transform."""
    tag = d[0]
    if tag == 'base':
        return ('base', d[1], tf.compose(d[2]), params if params is not None else d[3])
    if tag == 'nans':
        return d
    if tag == 'take':
        return ('take', d[1], sp(tf, params, d[2]))
    if tag == 'cat':
        return ('cat', tuple(sp(tf, params, x) for x in d[1]))
    if tag == 'dq':
        return ('dq', d[1], sp(tf, params, d[2]))
    raise KeyError(tag)


def norm(it, d):
    """The normal form of a denotation under what is known on the trace."""
    tag = d[0]
    if tag == 'base':
        _, b, tf, p = d
        tf = it.canon(tf)
        if b in it.env:
            return norm(it, sp(tf, p, it.env[b]))
        return ('base', b, tf, p)
    if tag == 'nans':
        return d
    if tag == 'take':
        inner = norm(it, d[2])
        idx = idx_norm(it, d[1])
        if inner[0] == 'take':
            return norm(it, ('take', take_terms(it, inner[1], idx), inner[2])) if inner[2][0] != 'take' else inner
        if inner[0] == 'nans':
            return inner
        return ('take', idx, inner)
    if tag == 'dq':
        inner = norm(it, d[2])
        q = it.canon(d[1])
        if inner[0] == 'take':
            return ('take', inner[1], norm(it, ('dq', q, inner[2])))
        if inner[0] == 'cat':
            return ('cat', tuple(norm(it, ('dq', q, x)) for x in inner[1]))
        return ('dq', q, inner)
    if tag == 'cat':
        parts = []
        for x in d[1]:
            x = norm(it, x)
            if x[0] == 'cat':
                parts.extend(x[1])
            else:
                parts.append(x)
        if len(parts) == 1:
            return parts[0]
        for pat, target in it.alias:
            hit = match_alias(it, parts, pat)
            if hit is not None:
                i, tf, p = hit
                t = norm(it, sp(tf, p, target))
                parts[i:i + len(pat)] = list(t[1]) if t[0] == 'cat' else [t]
                if len(parts) == 1:
                    return parts[0]
        return ('cat', tuple(parts))
    raise KeyError(tag)


def match_alias(it, parts, pat):
    """parts[i:i+n] is the pattern, all under one transform."""
    n = len(pat)
    for i in range(len(parts) - n + 1):
        tf = None
        par = None
        dqs = None
        ok = True
        for d, b in zip(parts[i:i + n], pat):
            if d[0] != 'base' or d[1] != b:
                ok = False
                break
            if tf is None:
                tf, par = d[2], d[3]
            elif tf != d[2] or par != d[3]:
                ok = False
                break
        if ok and tf is not None:
            return i, tf, par
    return None


def den_key(d):
    """Identity of a normal form, without the resampling parameters."""
    tag = d[0]
    if tag == 'base':
        return 'base(%s,%s)' % (d[1].name, d[2].key)
    if tag == 'nans':
        return 'nans'
    if tag == 'take':
        return 'take(%s,%s)' % (T.keyof(d[1]), den_key(d[2]))
    if tag == 'cat':
        return 'cat(%s)' % ','.join(den_key(x) for x in d[1])
    if tag == 'dq':
        return 'dq(%s,%s)' % (T.keyof(d[1]), den_key(d[2]))


def den_leaves(d):
    tag = d[0]
    if tag in ('base', 'nans'):
        yield d
    elif tag in ('take', 'dq'):
        yield from den_leaves(d[2])
    elif tag == 'cat':
        for x in d[1]:
            yield from den_leaves(x)


def den_shape(d):
    """The structure without transforms."""
    tag = d[0]
    if tag == 'base':
        return d[1].name
    if tag == 'nans':
        return 'nans'
    if tag == 'take':
        return 'take(%s,%s)' % (T.keyof(d[1]), den_shape(d[2]))
    if tag == 'cat':
        return 'cat(%s)' % ','.join(den_shape(x) for x in d[1])
    if tag == 'dq':
        return 'dq(%s,%s)' % (T.keyof(d[1]), den_shape(d[2]))


def dq_depth(d):
    tag = d[0]
    if tag in ('base', 'nans'):
        return 0
    if tag == 'dq':
        return 1 + dq_depth(d[2])
    if tag == 'take':
        return dq_depth(d[2])
    return max([dq_depth(x) for x in d[1]] or [0])


def param_key(it, meta):
    return tuple(T.keyof(it.canon(I.freeze(meta.d.get(k)))) for k in ALGO)


def den(it, v):
    """The denotation of a node value, read from its parameters."""
    if isinstance(v, NodeV):
        return v.den
    if not isinstance(v, I.Obj):
        raise I.Unsupported('not a node: %r' % (v,))
    kind = kind_of(v.cls)
    meta = v.attrs.get('meta')
    if kind in ('Leaf', 'Identity'):
        b = it.leaf_bases.setdefault(v.hid, None) or Sym('leaf%d' % v.hid)
        it.leaf_bases[v.hid] = b
        return ('base', b, Aff(), None)
    if kind == 'Nans':
        return ('nans',)
    if kind == 'Concat':
        return ('cat', tuple(den(it, p) for p in it.iterate(v.attrs['parts'])))
    if kind is None:
        raise I.Unsupported('unknown node class ' + v.cls.name)
    sub = v.attrs.get('subdata')
    if sub is None:
        raise I.Unsupported('node without data')
    d = den(it, sub)
    if kind == 'AsXarray':
        return d
    if kind == 'Warp':
        tf = meta.d['transform']
        aff = M.to_aff(it, tf)
        if aff is None:
            raise I.Unsupported('transform %r' % (tf,))
        return sp(aff, param_key(it, meta), d)
    if kind == 'Overview':
        s = T.div(1, T.power(2, it.asnum(meta.d['overview'])))
        return sp(T.aff_scale(s, s), None, d)
    if kind == 'Crop':
        sl = meta.d['space_slice']
        if sl is not None:
            sy, sx = list(it.iterate(sl))[0:2]
            y0 = 0 if sy.start is None else it.asnum(sy.start)
            x0 = 0 if sx.start is None else it.asnum(sx.start)
            d = sp(T.aff_translate(T.neg(x0), T.neg(y0)), None, d)
        idx = meta.d['chan_idxs']
        if idx is not None:
            d = ('take', I.freeze(idx), d)
        return d
    if kind == 'Dequantize':
        q = meta.d['quantization']
        if q is None:
            return d
        return ('dq', I.freeze(q), d)
    raise I.Unsupported('node class ' + v.cls.name)


# ------------------------------------------------------------------ nodes

class NodeV(I.Obj):
    """A node of unknown kind."""

    def __init__(self, it, kinds=ALL_KINDS, owner='input', d=None, dims=None, chan=None, nch=None,
                 depth=0, optimized=False, label=None, nov=Ellipsis):
        I.Obj.__init__(self, None, owner)
        self.kinds = tuple(kinds)
        self.base = None
        self.optimized = optimized
        self.depth = depth
        self.orig = None
        self.source = None
        self.distinct = set()
        self.mirror = None
        self.results = {}
        self.nov_cell = nov
        self.label = label or it.sym('node').name
        if d is None:
            self.base = Sym(self.label + '.img')
            d = ('base', self.base, Aff(), None)
        self.den = d
        if dims is None:
            dims = (T.to_poly(it.sym(self.label + '.w', 'int', lo=it.min_dim)), T.to_poly(it.sym(self.label + '.h', 'int', lo=it.min_dim)))
        self.dims = dims
        if chan is None and nch is None:
            mode = it.chan_mode
            if mode != 'none':
                nch = T.to_poly(it.sym(self.label + '.n', 'int', lo=1))
            if mode == 'spec':
                chan = ChanV(it.sym(self.label + '.c', 'chan', info=('numel', nch)))
        self.chan = chan
        self.nch = nch
        it.nodes.append(self)

    def __repr__(self):
        return '<%s %s>' % (self.cls.name if self.cls else '|'.join(self.kinds), self.label)

    @property
    def key(self):
        return 'node:' + self.label

    # -- classes
    def class_(self, it, kind):
        return it.module_attr(*CLASS_OF[kind])

    def narrow(self, it, pred):
        """Decide a predicate of the kind."""
        if self.cls is not None:
            return pred(self.cls)
        yes = [k for k in self.kinds if pred(self.class_(it, k))]
        no = [k for k in self.kinds if k not in yes]
        if yes and no:
            if it.choose(2) == 0:
                self.kinds = tuple(yes)
                return True
            self.kinds = tuple(no)
            return False
        return bool(yes)

    def abs_isinstance(self, it, c):
        if isinstance(c, I.ClassV):
            return self.narrow(it, lambda k: k.subclass_of(c))
        if isinstance(c, I.ExtV):
            return c.name == 'builtins.object'
        return False

    def abs_hasattr(self, it, name):
        if name in ('dsize', 'channels', 'num_channels', 'shape', 'num_overviews', 'meta', '_opt_logs'):
            return True
        if name == 'subdata':
            return self.narrow(it, lambda c: kind_of(c) != 'Concat')
        if name == 'parts':
            return self.narrow(it, lambda c: kind_of(c) == 'Concat')
        return self.narrow(it, lambda c: c.lookup(name)[1] is not None or name in slots_of(c))

    def abs_type(self, it):
        self.concrete(it)
        return self.cls

    def abs_concrete(self, it):
        self.concrete(it)
        return self

    def abs_is(self, it, other):
        if self is other:
            return True
        if not isinstance(other, NodeV):
            return False
        if self.mirror is other or other.mirror is self:
            return True
        if self.orig is other or other.orig is self:
            if id(other) in self.distinct or (self.cls is not None and other.cls is not None):
                return False
            if it.choose(2) == 1:
                self.distinct.add(id(other))
                other.distinct.add(id(self))
                return False
            ks = tuple(k for k in self.kinds if k in other.kinds)
            self.kinds = other.kinds = ks or self.kinds
            self.mirror, other.mirror = other, self
            for a, b in ((self, other), (other, self)):
                if a.cls is not None:
                    b.cls, b.attrs = a.cls, a.attrs
            return True
        return False

    def concrete(self, it):
        if self.cls is None:
            k = self.kinds[0] if len(self.kinds) == 1 else self.kinds[it.choose(len(self.kinds))]
            self.kinds = (k,)
            self.refine(it, k)

    # -- attributes
    def abs_getattr(self, it, name):
        if name == 'dsize':
            return tuple(it.canon(x) for x in self.dims)
        if name == 'shape':
            w, h = self.dims
            return (it.canon(h), it.canon(w), self.numch(it))
        if name == 'channels':
            return None if self.chan is None else ChanV(chan_norm(it, self.chan.term))
        if name == 'num_channels':
            return self.numch(it)
        c = it.contracts.get(name)
        if c is not None and self is not it.root_node:
            return M.bi(name, lambda it, a, k: c(it, self, a, k))
        if name == 'optimize':
            return M.bi('optimize', lambda it, a, k: contract_optimize(it, self, a, k))
        if name == 'num_overviews' and self.cls is None:
            return self.overviews(it)
        if name == '_opt_logs' and self.cls is None:
            return I.ListV([])
        if self.cls is None:
            if name == '__class__':
                self.concrete(it)
                return self.cls
            groups = {}
            for k in self.kinds:
                c = self.class_(it, k)
                v, owner = c.lookup(name)
                if owner is None or isinstance(v, I.PropV):
                    groups.setdefault(k, []).append((k, v))
                else:
                    groups.setdefault(id(v), []).append((k, v))
            gl = list(groups.values())
            g = gl[0] if len(gl) == 1 else gl[it.choose(len(gl))]
            self.kinds = tuple(k for k, _ in g)
            v = g[0][1]
            if v is not None and not isinstance(v, I.PropV):
                return it.bind_attr(v, self)
            self.concrete(it)
        if name == 'take_channels' and self.cls is not None and kind_of(self.cls) == 'Concat':
            return M.bi(name, lambda it, a, k: contract_take(it, self, a, k))
        if name == 'num_overviews' and kind_of(self.cls) in ('Leaf', 'Nans'):
            return self.overviews(it)
        return NotImplemented

    def abs_setattr(self, it, name, v):
        if self.cls is None:
            self.concrete(it)
        return NotImplemented

    def numch(self, it):
        if self.nch is None:
            return None
        return it.canon(self.nch)

    def overviews(self, it):
        cell = self.nov_cell
        if isinstance(cell, NovCell):
            return cell.get(it)
        if cell is Ellipsis:
            if self.kinds == ('Nans',):
                self.nov_cell = None
            elif it.choose(2) == 1:
                self.nov_cell = None
            else:
                self.nov_cell = T.to_poly(it.sym(self.label + '.o', 'int', lo=0))
            return self.overviews(it)
        return None if cell is None else it.canon(cell)

    # -- refinement
    def refine(self, it, kind):
        if self.depth > 5:
            raise I.Unsupported('refinement depth')
        cls = self.class_(it, kind)
        w, h = [it.canon(x) for x in self.dims]
        below = NORMAL[kind] if self.optimized and kind in NORMAL else ALL_KINDS
        if kind == 'Dequantize':
            below = tuple(k for k in below if k != 'Dequantize')
        mk = lambda **kw: NodeV(it, kw.pop('kinds', below), self.owner, depth=self.depth + 1, optimized=self.optimized,
                                label='%s.%s' % (self.label, kw.pop('suffix', 's')), **kw)
        tmp = I.Obj(cls)
        init = lambda *a, **k: it.call(it._getattr(tmp, '__init__'), list(a), k)
        struct = None
        it.in_refine += 1
        try:
            if kind in ('Leaf', 'Nans'):
                ch = self.chan if self.chan is not None else None
                if kind == 'Leaf':
                    init(App('fpath', (Sym(self.label),), 'str'), dsize=(w, h), channels=ch)
                else:
                    init(dsize=(w, h), channels=ch)
                tmp.attrs['meta'].d['num_channels'] = self.numch(it)
                if kind == 'Nans':
                    struct = ('nans',)
            elif kind == 'Concat':
                parts = []
                c2 = n2 = None
                cell = self.nov_cell
                if cell is Ellipsis:
                    cell = NovCell(self)
                for i in range(2):
                    p = mk(dims=(w, h), suffix='p%d' % i, nov=cell)
                    parts.append(p)
                if cell.__class__ is NovCell:
                    cell.owner_ = None
                    self.nov_cell = cell
                if self.nch is not None and parts[0].nch is not None:
                    self.tie(it, parts[1].nch, T.sub(self.nch, parts[0].nch), 1)
                elif (self.nch is None) != (parts[0].nch is None):
                    raise I.Unsupported('channel knowledge')
                if (self.chan is None) != (parts[0].chan is None):
                    if self.chan is None:
                        for p in parts:
                            p.chan = None
                    else:
                        raise I.Unsupported('channel knowledge')
                elif self.chan is not None:
                    ct = chan_norm(it, self.chan.term)
                    pts = tuple(p.chan.term for p in parts)
                    if isinstance(ct, Sym):
                        it.set_subst(ct, App('chcat', pts, 'chan'))
                    else:
                        it.chan_alias.append((pts, ct))
                init(I.ListV(parts), dsize=(w, h))
                struct = ('cat', tuple(p.den for p in parts))
            elif kind == 'Dequantize':
                c = mk(dims=(w, h), chan=self.chan, nch=self.nch, nov=self.share_nov())
                q = it.sym(self.label + '.q', 'quant')
                init(c, q)
                struct = ('dq', q, c.den)
            elif kind == 'Overview':
                c = mk(chan=self.chan, nch=self.nch)
                k = T.to_poly(it.sym(self.label + '.k', 'int', lo=1 if self.optimized else 0))
                init(c, k)
                dw, dh = tmp.attrs['meta'].d['dsize']
                ex = [T.rounding('ceil', T.div(x, T.power(2, k))) for x in c.dims]
                self.tie(it, w, ex[0], 0)
                self.tie(it, h, ex[1], 0)
                s = T.div(1, T.power(2, k))
                struct = sp(T.aff_scale(s, s), None, c.den)
                if self.nov_cell is not Ellipsis:
                    mine = self.nov_cell.get(it) if isinstance(self.nov_cell, NovCell) else self.nov_cell
                    if mine is None:
                        c.nov_cell = None
                    else:
                        n = T.to_poly(it.sym(c.label + '.o', 'int', lo=0))
                        c.nov_cell = n
                        self.tie(it, mine, it.max(T.sub(n, k), 0), 0)
            elif kind == 'Warp':
                c = mk(chan=self.chan, nch=self.nch, nov=self.share_nov())
                tf = it.sym(self.label + '.T', 'affine')
                params = warp_params(it, self.label)
                init(c, M.AffineV(T.aff_atom(tf)), dsize=(w, h), **params)
                struct = sp(T.aff_atom(tf), param_key(it, tmp.attrs['meta']), c.den)
            elif kind == 'Crop':
                x0 = T.to_poly(it.sym(self.label + '.x0', 'int', lo=0))
                y0 = T.to_poly(it.sym(self.label + '.y0', 'int', lo=0))
                dims = (T.to_poly(it.sym(self.label + '.cw', 'int', lo=it.min_dim)), T.to_poly(it.sym(self.label + '.ch', 'int', lo=it.min_dim)))
                it.assume(it.rel('<=', T.add(x0, w), dims[0]))
                it.assume(it.rel('<=', T.add(y0, h), dims[1]))
                take = it.choose(2) == 1 if self.nch is not None else False
                sl = (I.SliceV(y0, T.add(y0, h)), I.SliceV(x0, T.add(x0, w)))
                if not take:
                    c = mk(dims=dims, chan=self.chan, nch=self.nch, nov=self.share_nov())
                    init(c, sl, None)
                    struct = sp(T.aff_translate(T.neg(x0), T.neg(y0)), None, c.den)
                else:
                    c = mk(dims=dims, nov=self.share_nov())
                    if (c.chan is None) != (self.chan is None):
                        c.chan = None
                        if self.chan is not None:
                            raise I.Unsupported('channel knowledge')
                    idx = it.sym(self.label + '.idx', 'list', info='index')
                    if self.chan is not None:
                        ct = chan_norm(it, self.chan.term)
                        if isinstance(ct, App) and ct.op == 'chtake':
                            # the selection that is already known
                            idx = ct.args[1]
                            c.chan = ChanV(ct.args[0])
                            c.nch = numel(it, ct.args[0])
                        elif not isinstance(ct, Sym):
                            raise I.Unsupported('channel refinement')
                        else:
                            it.set_subst(ct, App('chtake', (c.chan.term, idx), 'chan'))
                    self.tie(it, self.nch, T.to_poly(App('len', (idx,), 'int')), 1)
                    init(c, sl, idx)
                    struct = ('take', idx, sp(T.aff_translate(T.neg(x0), T.neg(y0)), None, c.den))
            else:
                raise I.Unsupported('refine ' + kind)
        finally:
            it.in_refine -= 1
        self.cls = cls
        self.attrs = tmp.attrs
        meta = self.attrs['meta']
        meta.owner = self.owner
        if isinstance(self.attrs.get('parts'), I.ListV):
            self.attrs['parts'].owner = self.owner
        for v in list(meta.d.values()):
            if isinstance(v, (I.ListV, I.DictV)):
                v.owner = self.owner
        if self.mirror is not None:
            self.mirror.cls, self.mirror.attrs = self.cls, self.attrs
        # the structure is the denotation
        if struct is not None:
            self.learn_struct(it, struct)

    def share_nov(self):
        """A cell for the number of overviews shared with the child."""
        if self.nov_cell is Ellipsis:
            self.nov_cell = NovCell(self)
        return self.nov_cell

    def learn_struct(self, it, struct):
        d = self.den
        if d[0] == 'base' and d[1] not in it.env:
            it.env[d[1]] = sp(d[2].inverse(), None, struct)
            return
        nd = norm(it, d)
        if nd[0] == 'base' and nd[1] not in it.env and nd[1] not in [x[1] for x in den_leaves(struct) if x[0] == 'base']:
            it.env[nd[1]] = sp(nd[2].inverse(), None, struct)
            return
        if struct[0] == 'cat' and all(x[0] == 'base' and not x[2].word for x in struct[1]):
            if nd[0] == 'cat' and len(nd[1]) == len(struct[1]):
                for x, y in zip(struct[1], nd[1]):
                    it.env[x[1]] = y
                return
            it.alias.append((tuple(x[1] for x in struct[1]), nd))
            return
        # solve for the image below: struct = sp(T, dq*(base))
        lam, leaf = [], struct
        while leaf[0] in ('dq', 'take'):
            lam.append(leaf)
            leaf = leaf[2]
        if leaf[0] == 'base' and leaf[1] not in it.env:
            rest = nd
            ok = True
            for x in lam:
                if x[0] == rest[0] == 'dq':
                    it_subst_q(it, x[1], rest[1])
                    rest = rest[2]
                elif x[0] == 'dq' and rest[0] == 'take' and rest[2][0] == 'dq':
                    it_subst_q(it, x[1], rest[2][1])
                    rest = ('take', rest[1], rest[2][2])
                elif x[0] == 'dq' and rest[0] == 'cat':
                    ok = False
                elif x[0] == rest[0] == 'take' and T.keyof(idx_norm(it, x[1])) == T.keyof(rest[1]):
                    rest = rest[2]
                else:
                    ok = False
                if not ok:
                    break
            if ok:
                it.env[leaf[1]] = sp(leaf[2].inverse(), None, rest)
                return
        if struct[0] == 'dq' and struct[2][0] == 'base' and struct[2][1] not in it.env:
            takes, rest = [], nd
            while rest[0] == 'take':
                takes.append(rest[1])
                rest = rest[2]
            if rest[0] == 'base' and rest[1] not in it.env:
                inner = ('base', it.sym(self.label + '.raw'), Aff(), None)
                it.env[rest[1]] = sp(rest[2].inverse(), None, ('dq', struct[1], inner))
                for idx in reversed(takes):
                    inner = ('take', idx, inner)
                it.env[struct[2][1]] = sp(struct[2][2].inverse(), None, inner)
                return
        if struct[0] == 'nans':
            # no data: the node must denote no data
            if nd[0] == 'nans':
                return
        raise I.Unsupported('cannot relate the structure of a result')

    def tie(self, it, mine, val, lo):
        """mine == val"""
        mine, val = it.canon(mine), it.canon(val)
        if T.keyof(mine) == T.keyof(val):
            return
        a = mine.single_atom() if isinstance(mine, Poly) else None
        if isinstance(a, Sym) and a not in T.atoms_of(val) and T.is_int_val(val):
            it.set_subst(a, val)
        else:
            c = it.mkcond('==', T.sub(mine, val))
            if c is False:
                raise I.Unsupported('inconsistent refinement')
            if c is not True:
                before = set(it.subst)
                it.decisions[T.keyof(c)] = True
                it.add_fact(c, True)
                for s in set(it.subst) - before:
                    if isinstance(s, Sym) and s.lo is not None:
                        nn = it.rel('>=', it.subst[s], s.lo)
                        it.assume(nn)
            return
        nn = it.rel('>=', val, a.lo if a.lo is not None else lo)
        if nn is False:
            raise I.Unsupported('inconsistent refinement')
        it.assume(nn)


def it_subst_q(it, a, b):
    if isinstance(a, Sym) and a not in it.subst and T.keyof(a) != T.keyof(b):
        it.set_subst(a, b)


class NovCell:
    """The number of overviews of a chain of nodes."""

    def __init__(self, node):
        self.val = Ellipsis
        self.label = node.label

    def get(self, it):
        if self.val is Ellipsis:
            if it.choose(2) == 1:
                self.val = None
            else:
                self.val = T.to_poly(it.sym(self.label + '.o', 'int', lo=0))
        return None if self.val is None else it.canon(self.val)


def slots_of(cls):
    out = set()
    for c in cls.mro():
        if isinstance(c, I.ClassV):
            s = c.ns.get('__slots__')
            if isinstance(s, tuple):
                out.update(x for x in s if isinstance(x, str))
    return out


def warp_params(it, label):
    return {
        'interpolation': it.sym(label + '.interp', 'str'),
        'antialias': it.sym(label + '.anti', 'bool'),
        'border_value': it.sym(label + '.border', 'any'),
        'noop_eps': T.to_poly(it.sym(label + '.eps', 'float', lo=0)),
        'backend': it.sym(label + '.backend', 'str'),
    }


# ------------------------------------------------------------------ contracts

def reach(kinds):
    todo, seen = list(kinds), set()
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(NORMAL.get(x, ()))
    return seen


def contents(it, node):
    """The kinds that may occur in an operation graph."""
    out = set()
    while True:
        kind = kind_of(node.cls) if node.cls is not None else None
        if isinstance(node, NodeV):
            if not node.optimized:
                if kind is None:
                    return set(ALL_KINDS)
            else:
                return out | reach([kind] if kind else node.kinds)
        out.add(kind)
        if kind == 'Concat':
            for p in it.iterate(node.attrs['parts']):
                out |= contents(it, p)
            return out
        sub = node.attrs.get('subdata')
        if sub is None:
            return out
        node = sub


def contract_optimize(it, node, a, k):
    """optimize() of a descendant: some node with the same denotation."""
    ctx = a[0] if a else k.get('ctx')
    it.opt_calls.append((node, ctx, it.site()))
    key = node.hid
    if key in it.opt_memo:
        return it.opt_memo[key]
    cls = node.cls
    kind = kind_of(cls) if cls is not None else None
    if kind in ('Leaf', 'Nans', 'Identity'):
        it.opt_memo[key] = node
        return node
    if isinstance(node, NodeV) and node.optimized and node.owner == 'shared' and cls is None:
        pass
    kinds = ('Concat',) if kind == 'Concat' else ALL_KINDS
    if isinstance(node, NodeV):
        if kind is None:
            kinds = ALL_KINDS
        d, dims, chan, nch = node.den, node.dims, node.chan, node.nch
    else:
        d = den(it, node)
        dims = it.getattr(node, 'dsize')
        if dims is None:
            raise I.Unsupported('node without a size')
        dims = tuple(it.asnum(x) for x in it.iterate(dims))
        chan = it.getattr(node, 'channels')
        nch = it.getattr(node, 'num_channels')
        wf = well_formed(it, node)
        if wf:
            it.malformed.extend(wf)
        it.bases_of_fresh.append(node)
    # no rewrite invents data without values, a concatenation or a quantization
    inside = contents(it, node)
    kinds = tuple(x for x in kinds if x in inside or x not in ('Nans', 'Concat', 'Dequantize'))
    nd = norm(it, d)
    if nd[0] == 'nans' and kind != 'Concat' and kind != 'Dequantize':
        kinds = ('Nans', 'Overview') if kind in ('Overview', None) else ('Nans',)
    elif kind != 'Concat':
        # a denotation without a nans leaf is never optimized to nans
        # unless it stems from an opaque image
        if nd[0] == 'cat':
            kinds = ('Concat',)
        elif nd[0] == 'dq':
            kinds = tuple(x for x in kinds if x not in ('Leaf', 'Overview', 'Crop', 'Nans'))
        elif nd[0] == 'take':
            kinds = tuple(x for x in kinds if x not in ('Leaf', 'Overview', 'Nans'))
            if nd[2][0] == 'dq':
                kinds = tuple(x for x in kinds if x not in ('Crop',))
            elif nd[2][0] == 'cat':
                kinds = ('Concat',)
    r = NodeV(it, kinds, 'shared', d=d, dims=dims, chan=chan, nch=nch, optimized=True, depth=getattr(node, 'depth', 0))
    r.source = node
    if isinstance(node, NodeV):
        r.orig = node
    it.opt_memo[key] = r
    it.opt_memo[r.hid] = r
    return r


def contract_take(it, node, a, k):
    """take_channels(indices) of a concatenation."""
    idx = a[0] if a else k.get('channels')
    if not (isinstance(idx, (Sym, App)) and idx.typ == 'list' or isinstance(idx, M.MapV)):
        return it.call(it.bind_attr(node.cls.lookup('take_channels')[0], node), a, k)
    fi = I.freeze(idx)
    chan = None
    if node.chan is not None:
        chan = ChanV(chan_norm(it, App('chtake', (node.chan.term, fi), 'chan')))
    r = NodeV(it, ('Concat',), 'shared', d=('take', fi, node.den), dims=node.dims, chan=chan,
              nch=idx_len(it, fi), depth=node.depth)
    return r


def well_formed(it, obj, seen=None, path=''):
    """
    Canvas of the fresh nodes of a result: sizes that the node itself
    contradicts.  Returns a list of (message, lhs, rhs).
    """
    out = []
    if seen is None:
        seen = set()
    if isinstance(obj, NodeV) or not isinstance(obj, I.Obj) or obj.hid in seen:
        return out
    seen.add(obj.hid)
    kind = kind_of(obj.cls)
    if kind == 'Concat':
        for p in it.iterate(obj.attrs['parts']):
            ds = it.getattr(p, 'dsize')
            for a, b, n in zip(ds, it.getattr(obj, 'dsize'), 'wh'):
                out.append(('part %s of a concatenation' % n, a, b))
            out.extend(well_formed(it, p, seen))
        return out
    if kind in (None, 'Leaf', 'Nans', 'Identity'):
        return out
    sub = obj.attrs.get('subdata')
    if sub is None:
        return out
    sw, sh = it.getattr(sub, 'dsize')
    w, h = it.getattr(obj, 'dsize')
    if kind in ('Dequantize', 'AsXarray'):
        out.append(('dequantize w', w, sw))
        out.append(('dequantize h', h, sh))
    elif kind == 'Crop':
        sl = obj.attrs['meta'].d['space_slice']
        if sl is not None:
            sy, sx = list(it.iterate(sl))[0:2]
            for s, n, full, nm in ((sx, w, sw, 'w'), (sy, h, sh, 'h')):
                out.append(('crop ' + nm, n, T.sub(it.asnum(s.stop), it.asnum(s.start))))
    elif kind == 'Overview':
        p2 = T.power(2, it.asnum(obj.attrs['meta'].d['overview']))
        out.append(('overview w', w, T.rounding('ceil', T.div(sw, p2))))
        out.append(('overview h', h, T.rounding('ceil', T.div(sh, p2))))
    out.extend(well_formed(it, sub, seen))
    return out


# ------------------------------------------------------------------ set up

def setup(it, chan_mode='spec', trace=0, empty=False):
    it.min_dim = 0 if empty else 1
    it.chan_mode = chan_mode
    it.env = {}
    it.alias = []
    it.chan_alias = []
    it.nodes = []
    it.opt_calls = []
    it.opt_memo = {}
    it.malformed = []
    it.bases_of_fresh = []
    it.leaf_bases = {}
    it.in_refine = 0
    it.root_node = None
    it.root_entered = False
    it.contracts = {}
    cc = ChanClassV()
    for m in (NODES, LEAFS):
        it.global_overrides[(m, 'FusedChannelSpec')] = cc
    it.global_overrides[(NODES, 'TRACE_OPTIMIZE')] = trace
    it.global_overrides[(LEAFS, 'TRACE_OPTIMIZE')] = trace
    for kind in ('Warp', 'Crop', 'Dequantize', 'Overview', 'Concat', 'AsXarray'):
        it.hooks[CLASS_OF[kind][1] + '.optimize'] = optimize_hook


def optimize_hook(it, args, kwargs):
    node = args[0]
    if node is it.root_node and not it.root_entered:
        it.root_entered = True
        return NotImplemented
    return contract_optimize(it, node, args[1:], kwargs)


def make_root(it, kind):
    """An input node of a kind over opaque nodes."""
    r = NodeV(it, (kind,), 'input', label='N')
    if kind == 'AsXarray':
        c = NodeV(it, ALL_KINDS, 'input', label='N.s', dims=r.dims, chan=r.chan, nch=r.nch)
        cls = r.class_(it, kind)
        tmp = I.Obj(cls)
        it.call(it._getattr(tmp, '__init__'), [c], {})
        r.cls, r.attrs = cls, tmp.attrs
        r.attrs['meta'].owner = 'input'
        it.env[r.base] = c.den
    else:
        r.refine(it, kind)
    it.root_node = r
    return r
