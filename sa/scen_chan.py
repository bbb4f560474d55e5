"""
Channel specifications.

The names of bands are symbols: a name is a character outside of every
alphabet that the package looks at, so a string is a word over symbols and
separators.  Splitting, joining, formatting and comparing such words is exact
for every choice of distinct names; nothing looks into a symbol.
"""
from . import interp as I
from . import models as M
from .scen import scenario

CP = 'delayed_image.channel_spec'
CF = 'delayed_image/channel_spec.py:'
A, B, C, D, E, F = (chr(0xe000 + i) for i in range(6))
ALIAS = {'rgb': ['r', 'g', 'b'], 'rgba': ['r', 'g', 'b', 'a'], 'dxdy': ['dx', 'dy'], 'fxfy': ['fx', 'fy']}
QUIET = M.bi('warn', lambda it, a, k: None)


def expand1(code):
    """The bands that a code stands for."""
    if code in ALIAS:
        return list(ALIAS[code])
    if ':' in code:
        root, _, rest = code.partition('.' if '.' in code else ':')
        if '.' in code:
            args = [int(x) if x else None for x in rest.split(':')]
        else:
            args = [0, int(rest)]
        start, stop = args[0] or 0, args[1]
        return ['%s.%d' % (root, i) for i in range(start, stop, args[2] if len(args) > 2 else 1)]
    return [code]


def expand(codes):
    return [x for c in codes for x in expand1(c)]


def ordered(xs):
    return list(dict.fromkeys(xs))


def pick(it, pool, n, lo=0):
    """Up to n codes without repeated bands."""
    out = []
    for _ in range(n):
        rest = [c for c in pool if not set(expand1(c)) & set(expand(out))]
        j = it.choose(len(rest) + (1 if len(out) >= lo else 0))
        if j >= len(rest):
            break
        out.append(rest[j])
    return out


def prep(it):
    it.global_overrides[(CP, 'warnings')] = Warn()


class Warn:
    key = 'module:warnings'

    def abs_getattr(self, it, name):
        return QUIET


def fused(it, codes):
    return it.call(it.module_attr(CP, 'FusedChannelSpec'), [I.ListV(list(codes))], {})


def spec(it, streams):
    """A channel spec with several streams."""
    return it.call(it.module_attr(CP, 'ChannelSpec'), [','.join('|'.join(s) for s in streams)], {})


def py(it, v):
    """A Python value of an interpreted one."""
    if isinstance(v, I.Obj) and v.cls.name == 'FusedChannelSpec':
        return ('fused', py(it, it.getattr(v, 'parsed')))
    if isinstance(v, I.Obj) and v.cls.name == 'ChannelSpec':
        return ('spec', [s.split('|') for s in it.getattr(v, 'spec').split(',') if s])
    if isinstance(v, I.ListV):
        return [py(it, x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(py(it, x) for x in v)
    if isinstance(v, I.DictV):
        return {py(it, k): py(it, x) for k, x in v.d.items()}
    if isinstance(v, I.SetV):
        return ('oset', [py(it, x) for x in v.d]) if v.ordered else {py(it, x) for x in v.d}
    if isinstance(v, I.SliceV):
        return ('slice', py(it, v.start), py(it, v.stop))
    if isinstance(v, PartV):
        return v.parts
    if v is None or v is Ellipsis or isinstance(v, (str, bool, int, float)):
        return v
    c = I.T.const_of(v) if I.T.isnum(v) else None
    if c is not None:
        return c
    raise I.Unsupported('result %r' % (v,))


def names(v):
    """Readable names."""
    s = repr(v)
    for i in range(6):
        s = s.replace(repr(chr(0xe000 + i))[1:-1], 'name%d' % i).replace(chr(0xe000 + i), 'name%d' % i)
    return s


class Got:
    """Collects the answers of the questions that a scenario asks."""

    def __init__(self, it):
        self.it, self.rows = it, []

    def ask(self, what, f, want, fn, kind=lambda got: ''):
        """``kind`` tells apart the ways in which an answer can be wrong."""
        it = self.it
        try:
            got = py(it, f())
        except I.AbsRaise as ex:
            got = ('raises', str(ex))
        self.rows.append((what, got, want, fn, kind))


def check_rows(rule):
    def check(tr, cx):
        if not tr.no_raise(rule):
            return
        for what, got, want, fn, kind in tr.value.rows:
            tr.count('obligations')
            ok = got == want
            if want is RAISES:
                ok = isinstance(got, tuple) and len(got) == 2 and got[0] == 'raises'
            if ok:
                tr.count('discharged')
            else:
                tr.report(rule, '%s: %s instead of %s' % (fn, names(got)[:120], 'an error' if want is RAISES else names(want)[:120]),
                          construct=CF + fn + kind(got), question=names(what)[:400])
                return
    return check


RAISES = object()
POOL = [A, B, 'rgb', C + '.0:2', C + '.3', D + ':2', 'dxdy', E + '.1:5:2']


def call(it, obj, name, *args, **kw):
    return it.call(it.getattr(obj, name), list(args), kw)


# ------------------------------------------------------------------ one spec

def run_normalize(it, cx):
    codes = pick(it, POOL, 3)
    g = Got(it)
    want = expand(codes)
    q = 'of %s' % codes
    mk = lambda: fused(it, codes)
    g.ask('normalize ' + q, lambda: call(it, mk(), 'normalize'), ('fused', want), 'FusedChannelSpec.normalize')
    g.ask('normalize twice ' + q, lambda: call(it, call(it, mk(), 'normalize'), 'normalize'), ('fused', want), 'FusedChannelSpec.normalize')
    g.ask('numel ' + q, lambda: call(it, mk(), 'numel'), len(want), 'FusedChannelSpec.numel')
    g.ask('numel of the normalized ' + q, lambda: call(it, call(it, mk(), 'normalize'), 'numel'), len(want), 'FusedChannelSpec.numel')
    g.ask('sizes ' + q, lambda: call(it, mk(), 'sizes'), [len(expand1(c)) for c in codes], 'FusedChannelSpec.sizes')
    g.ask('as_list ' + q, lambda: call(it, mk(), 'as_list'), want, 'FusedChannelSpec.as_list')
    g.ask('to_list ' + q, lambda: call(it, mk(), 'to_list'), want, 'FusedChannelSpec.as_list')
    g.ask('as_oset ' + q, lambda: call(it, mk(), 'as_oset'), ('oset', want), 'FusedChannelSpec.as_oset')
    g.ask('as_set ' + q, lambda: call(it, mk(), 'as_set'), set(want), 'FusedChannelSpec.as_set')
    g.ask('code_list ' + q, lambda: call(it, mk(), 'code_list'), list(codes), 'FusedChannelSpec.code_list')
    g.ask('spec ' + q, lambda: it.getattr(mk(), 'spec'), '|'.join(codes), 'FusedChannelSpec.spec')
    g.ask('length of the normalized ' + q, lambda: M.m_len(it, [call(it, mk(), 'normalize')], {}), len(want), 'FusedChannelSpec.__len__')
    g.ask('streams ' + q, lambda: call(it, mk(), 'streams'), [('fused', list(codes))], 'FusedChannelSpec.streams')
    g.ask('split ' + q, lambda: call(it, mk(), 'split'), ('spec', [[c] for c in want]), 'FusedChannelSpec.split')

    for bad in (C + '.1:', C + '.:', A + '.' + B + '.0:2'):
        g.ask('normalize of %s' % bad, lambda bad=bad: call(it, fused(it, codes + [bad]), 'normalize'), RAISES, '_parse_concise_slice_syntax')
    g.ask('normalize of a range from the first band', lambda: call(it, fused(it, codes + [F + '.:2']), 'normalize'), ('fused', want + [F + '.0', F + '.1']), '_parse_concise_slice_syntax')

    def untouched():
        s = mk()
        for m in ('normalize', 'numel', 'sizes', 'as_list', 'as_oset', 'as_set', 'concise'):
            call(it, s, m)
        return s
    g.ask('codes after inspection ' + q, untouched, ('fused', list(codes)), 'FusedChannelSpec.normalize')
    return g


scenario(('C',), CF + 'FusedChannelSpec.normalize', check_rows('channels normal'), name='channels normalize', prep=prep, max_paths=3000)(run_normalize)

RUNS = [A, C + '.0', C + '.1', C + '.2', C + '.5', D + '.1', D + '.2', 'rgb']


def run_concise(it, cx):
    codes = pick(it, RUNS, 4, 1)
    g = Got(it)
    g.ask('normalize of concise of %s' % codes, lambda: call(it, call(it, fused(it, codes), 'concise'), 'normalize'), ('fused', expand(codes)), 'FusedChannelSpec.concise')
    runs = [c for j, c in enumerate(expand(codes)) if not (j and '.' in c and expand(codes)[j - 1] == '%s.%d' % (c.split('.')[0], int(c.split('.')[1]) - 1))]
    g.ask('number of codes of concise of %s' % codes, lambda: len(it.getattr(call(it, fused(it, codes), 'concise'), 'parsed').items), len(runs), 'FusedChannelSpec.concise')
    g.ask('numel of concise of %s' % codes, lambda: call(it, call(it, fused(it, codes), 'concise'), 'numel'), len(expand(codes)), 'FusedChannelSpec.concise')
    g.ask('concise of several streams %s' % codes, lambda: call(it, call(it, spec(it, [codes[:2], codes[2:]]), 'concise'), 'normalize'),
          ('spec', [expand(c) for c in (codes[:2], codes[2:]) if c]), 'ChannelSpec.concise')
    return g


scenario(('C',), CF + 'FusedChannelSpec.concise', check_rows('channels normal'), name='channels concise', prep=prep, max_paths=4000)(run_concise)


# ------------------------------------------------------------------ two specs

def run_algebra(it, cx):
    xs = pick(it, [A, B, 'rgb', C + '.0:2'], 2)
    ys = pick(it, [B, A, D, 'g', C + '.1', 'rgb'], 2)
    g = Got(it)
    ex, ey = expand(xs), expand(ys)
    q = ' of %s and %s' % (xs, ys)
    mk = lambda: (fused(it, xs), fused(it, ys))
    for name, want in (('union', ordered(ex + ey)), ('intersection', [c for c in ex if c in ey]), ('difference', [c for c in ex if c not in ey])):
        def f(name=name):
            a, b = mk()
            return call(it, a, name, b)
        g.ask(name + q, f, ('fused', want), 'FusedChannelSpec.' + name)

        def h(name=name):
            a, b = mk()
            call(it, a, name, b)
            return (a, b)
        if name != 'union':
            g.ask(name + ' with a set of bands' + q, lambda name=name: call(it, fused(it, xs), name, I.SetV(list(ey))), ('fused', want), 'FusedChannelSpec.' + name)
        g.ask('operands after ' + name + q, h, (('fused', xs), ('fused', ys)), 'FusedChannelSpec.' + name)
    for name, want in (('issubset', set(ex) <= set(ey)), ('issuperset', set(ex) >= set(ey))):
        def f(name=name):
            a, b = mk()
            return it.truth(call(it, a, name, b))
        g.ask(name + q, f, want, 'FusedChannelSpec.' + name)
    for op, name, want in (('BitOr', '__or__', ordered(ex + ey)), ('BitAnd', '__and__', [c for c in ex if c in ey]), ('Sub', '__sub__', [c for c in ex if c not in ey])):
        def f(op=op):
            a, b = mk()
            return it.binop(op, a, b)
        g.ask(name + q, f, ('fused', want), 'BaseChannelSpec.' + name)
    g.ask('==' + q, lambda: it.truth(it.equal(*mk())), xs == ys, 'FusedChannelSpec.__eq__')
    cls = it.module_attr(CP, 'FusedChannelSpec')
    g.ask('concat' + q, lambda: it.call(it.getattr(cls, 'concat'), [I.ListV(list(mk()))], {}), ('fused', xs + ys), 'FusedChannelSpec.concat')
    for c in [A, B, 'r', C + '.1']:
        g.ask('%s in normalized %s' % (c, xs), lambda c=c: it.truth(it.contains(call(it, fused(it, xs), 'normalize'), c)), c in ex, 'FusedChannelSpec.__contains__')
    return g


scenario(('C',), CF + 'FusedChannelSpec', check_rows('channels algebra'), name='channels algebra', prep=prep, max_paths=2000)(run_algebra)


def run_index(it, cx):
    xs = pick(it, [A, 'rgb', C + '.0:2'], 3, 1)
    ex = expand(xs)
    g = Got(it)
    for i in list(range(len(ex))) + [-1]:
        g.ask('%s[%d]' % (xs, i), lambda i=i: it.getitem(fused(it, xs), i), ex[i], 'FusedChannelSpec.__getitem__')
    for s in (slice(None, None), slice(1, None), slice(0, 2), slice(-2, None)):
        g.ask('%s[%s]' % (xs, s), lambda s=s: it.getitem(fused(it, xs), I.SliceV(s.start, s.stop)), ('fused', ex[s]), 'FusedChannelSpec.__getitem__')
    for idx in ([0], [len(ex) - 1, 0], []):
        g.ask('%s[%s]' % (xs, idx), lambda idx=idx: it.getitem(fused(it, xs), I.ListV(list(idx))), ('fused', [ex[i] for i in idx]), 'FusedChannelSpec.__getitem__')
    return g


scenario(('C',), CF + 'FusedChannelSpec.__getitem__', check_rows('channels algebra'), name='channels index', prep=prep)(run_index)


# ------------------------------------------------------------------ coercion

def run_coerce(it, cx):
    xs = pick(it, [A, 'rgb', C + '.0:2', D], 3)
    g = Got(it)
    cls, mcls = it.module_attr(CP, 'FusedChannelSpec'), it.module_attr(CP, 'ChannelSpec')
    co = lambda v, c=cls: it.call(it.getattr(c, 'coerce'), [v], {})
    text = '|'.join(xs)
    FC, MC = 'FusedChannelSpec.coerce', 'ChannelSpec.coerce'
    g.ask('coerce of the text of %s' % xs, lambda: co(text), ('fused', xs), FC)
    g.ask('coerce of the list %s' % xs, lambda: co(I.ListV(list(xs))), ('fused', xs), FC)
    g.ask('coerce twice of %s' % xs, lambda: (co(text), co(text)), (('fused', xs), ('fused', xs)), FC)

    def after():
        a = co(text)
        for m in ('normalize', 'concise', 'numel'):
            call(it, a, m)
        call(it, a, 'union', fused(it, [B]))
        call(it, a, 'difference', fused(it, [A]))
        return co(text)
    g.ask('coerce after the use of an equal spec %s' % xs, after, ('fused', xs), FC)

    def same():
        a = fused(it, xs)
        return co(a)
    g.ask('coerce of the fused spec %s' % xs, same, ('fused', xs), FC)
    g.ask('parse of %s' % xs, lambda: it.call(it.getattr(cls, 'parse'), [text], {}), ('fused', xs), 'FusedChannelSpec.parse')
    for n in (0, 1, 3):
        g.ask('coerce of %d' % n, lambda n=n: co(n), ('fused', ['u%d' % i for i in range(n)]), FC)
        g.ask('coerce of %d, twice' % n, lambda n=n: (co(n), co(n))[1], ('fused', ['u%d' % i for i in range(n)]), FC)
        g.ask('coerce of %d to a channel spec' % n, lambda n=n: co(n, mcls), ('spec', [['u%d' % i for i in range(n)]] if n else []), MC)
    g.ask('coerce of None', lambda: co(None), RAISES, FC)
    g.ask('coerce of None to a channel spec', lambda: co(None, mcls), RAISES, MC)
    if xs:
        g.ask('coerce of the channel spec %s' % xs, lambda: co(spec(it, [xs])), ('fused', xs), FC)
        g.ask('coerce of two streams', lambda: co(spec(it, [xs, [E]])), RAISES, FC)
    g.ask('coerce of the fused spec %s to a channel spec' % xs, lambda: co(fused(it, xs), mcls), ('spec', [xs] if xs else []), MC)
    g.ask('coerce of the text of %s to a channel spec' % xs, lambda: co(text, mcls), ('spec', [xs] if xs else []), MC)
    g.ask('parsed streams of the fused spec %s' % xs, lambda: call(it, co(fused(it, xs), mcls), 'parse'), {text: ('fused', xs)}, MC)
    return g


scenario(('C',), CF + 'FusedChannelSpec.coerce', check_rows('channels coerce'), name='channels coerce', prep=prep)(run_coerce)


# ------------------------------------------------------------------ streams

def streams_of(it):
    shapes = [[1], [2], [1, 1], [2, 1], [1, 1, 1]]
    shape = shapes[it.choose(len(shapes))]
    pool = [A, 'rgb', C + '.0:2', D]
    out, used = [], []
    for n in shape:
        s = []
        for _ in range(n):
            rest = [c for c in pool if c not in used]
            c = rest[it.choose(len(rest))]
            used.append(c)
            s.append(c)
        out.append(s)
    return out


def run_streams(it, cx):
    ss = streams_of(it)
    g = Got(it)
    mk = lambda: spec(it, ss)
    texts = ['|'.join(s) for s in ss]
    q = ' of %s' % ss
    K = 'ChannelSpec.'
    norm = [expand(s) for s in ss]
    g.ask('streams' + q, lambda: call(it, mk(), 'streams'), [('fused', s) for s in ss], K + 'streams')
    g.ask('parse' + q, lambda: call(it, mk(), 'parse'), dict(zip(texts, [('fused', s) for s in ss])), K + 'parse')
    g.ask('normalize' + q, lambda: call(it, mk(), 'normalize'), ('spec', norm), K + 'normalize')
    g.ask('streams of normalize' + q, lambda: call(it, call(it, mk(), 'normalize'), 'streams'), [('fused', s) for s in norm], K + 'normalize')
    g.ask('parsed of normalize' + q, lambda: call(it, call(it, mk(), 'normalize'), 'parse'), {'|'.join(s): ('fused', s) for s in norm}, K + 'normalize')
    g.ask('fuse' + q, lambda: call(it, mk(), 'fuse'), ('fused', [c for s in ss for c in s]), K + 'fuse')
    g.ask('numel' + q, lambda: call(it, mk(), 'numel'), sum(len(s) for s in norm), K + 'numel')
    g.ask('sizes' + q, lambda: call(it, mk(), 'sizes'), dict(zip(texts, [len(s) for s in norm])), K + 'sizes')
    g.ask('split' + q, lambda: call(it, mk(), 'split'), ('spec', [[c] for s in norm for c in s]), K + 'split')
    g.ask('unchanged' + q, lambda: (lambda s: [call(it, s, m) for m in ('normalize', 'concise', 'numel', 'parse', 'sizes', 'fuse')] and s)(mk()), ('spec', ss), K + 'normalize')
    sl = lambda i, j, ax: tuple([('slice', None, None)] * ax + [('slice', i, j)])
    want = {}
    for t, s in zip(texts, ss):
        i = 0
        for c in s:
            n = len(expand1(c))
            want[c] = (t, i, i + n)
            i += n
    g.ask('decode' + q, lambda: call(it, mk(), 'decode', I.DictV({t: PartV([(t, None)]) for t in texts})),
          {c: [(t, sl(i, j, 1))] for c, (t, i, j) in want.items()}, K + 'decode')
    g.ask('code_list' + q, lambda: call(it, mk(), 'code_list'), RAISES if len(ss) > 1 else ('fused', ss[0]), K + 'code_list')
    for ax in (0, 2):
        g.ask('component_indices' + q, lambda ax=ax: call(it, mk(), 'component_indices', axis=ax), {c: (t, sl(i, j, ax)) for c, (t, i, j) in want.items()}, K + 'component_indices')
        g.ask('decode' + q, lambda ax=ax: call(it, mk(), 'decode', I.DictV({t: PartV([(t, None)]) for t in texts}), axis=ax),
              {c: [(t, sl(i, j, ax))] for c, (t, i, j) in want.items()}, K + 'decode')
    for other in ([A], ['g', C + '.1'], [D, 'rgb']):
        eo = expand(other)
        o = '|'.join(other)
        keep = lambda f: [s for s in ([c for c in n if f(c)] for n in norm) if s]
        g.ask('difference' + q + ' and %s' % other, lambda o=o: call(it, mk(), 'difference', o), ('spec', keep(lambda c: c not in eo)), K + 'difference')
        g.ask('intersection' + q + ' and %s' % other, lambda o=o: call(it, mk(), 'intersection', o), ('spec', keep(lambda c: c in eo)), K + 'intersection')
        g.ask('difference' + q + ' and the fused %s' % other, lambda other=other: call(it, mk(), 'difference', fused(it, other)), ('spec', keep(lambda c: c not in eo)), K + 'difference')
        g.ask('intersection' + q + ' and the fused %s' % other, lambda other=other: call(it, mk(), 'intersection', fused(it, other)), ('spec', keep(lambda c: c in eo)), K + 'intersection')
    for c in (A, 'r', C + '.1', 'rgb', E):
        g.ask('%s in' % c + q, lambda c=c: it.truth(it.contains(mk(), c)), any(c in s for s in norm), K + '__contains__')
    g.ask('union' + q, lambda: call(it, mk(), 'union', E + '|' + F + ':2'), ('spec', norm + [[E, F + '.0', F + '.1']]), K + 'union')
    return g


scenario(('C',), CF + 'ChannelSpec', check_rows('channels streams'), name='channels streams', prep=prep, max_paths=1000)(run_streams)


class PartV:
    """An array; the selections that lead to it."""

    def __init__(self, parts):
        self.parts = parts

    key = property(lambda self: 'part%r' % (self.parts,))

    def abs_getitem(self, it, i):
        i = py(it, i)
        (t, was), = self.parts
        if was is not None:
            raise I.Unsupported('second selection')
        return PartV([(t, i)])


def run_encode(it, cx):
    """Arrays by item are put together to the arrays of the streams."""
    ss = streams_of(it)
    mode = it.choose(2)
    axis = (0, 2)[it.choose(2)]
    codes = [c for s in ss for c in s]
    if mode == 0 and any(len(expand1(c)) > 1 for c in codes):
        return Got(it)           # this mode takes single bands only
    # how the given arrays hold the codes
    groups = [lambda: [[c] for c in codes], lambda: [[c] for c in codes[::-1]], lambda: [codes], lambda: [codes[::-1]],
              lambda: [codes[1:] + [E], codes[:1]],
              lambda: [codes[:1] + codes[2:], [E] + codes[1:2]]][it.choose(6)]()
    texts = ['|'.join(x) for x in groups if x]
    items = I.DictV({t: PartV([(t, None)]) for t in texts})
    g = Got(it)

    class Impl:
        key = 'arrayapi'

        def abs_getattr(self, it, name):
            if name == 'cat':
                def cat(it, a, k):
                    ax = k.get('axis', a[1] if len(a) > 1 else 0)
                    if ax != axis:
                        raise I.Unsupported('axis')
                    return PartV([p for x in it.iterate(a[0]) for p in x.parts])
                return M.bi(name, cat)
            raise I.Unsupported('ArrayAPI.' + name)
    it.models['kwarray.ArrayAPI.coerce'] = lambda it, a, k: Impl()

    def f():
        r = call(it, spec(it, ss), 'encode', items, axis=axis, **({} if mode else {'mode': 0}))
        out = {}
        for key, v in r.d.items():
            flat = []
            for t, sel in v.parts:
                bands = expand(t.split('|'))
                n = len(bands)
                if sel is None:
                    i, j = 0, n
                else:
                    if len(sel) != axis + 1 or any(x != ('slice', None, None) for x in sel[:-1]):
                        return 'a selection of another axis'
                    i, j = sel[-1][1] or 0, n if sel[-1][2] is None else sel[-1][2]
                flat += bands[i:j]
            out[key] = '|'.join(flat)
        return I.DictV(out)
    g.ask('encode of %s from %s' % (ss, texts), f, {'|'.join(s): '|'.join(expand(s)) for s in ss}, 'ChannelSpec.encode')
    return g


scenario(('C',), CF + 'ChannelSpec.encode', check_rows('channels streams'), name='channels encode', prep=prep, max_paths=3000)(run_encode)


# ------------------------------------------------------------------ fusing, parts

def run_late(it, cx):
    xs = pick(it, [A, 'rgb'], 2)
    ys = pick(it, [B, C + '.0:2'], 2)
    g = Got(it)
    mk = lambda v: fused(it, v)
    want = [s for s in (xs, ys) if s]
    as_streams = lambda v: I.ListV([I.ListV(list(it.iterate(it.getattr(s, 'parsed')))) for s in it.iterate(call(it, v, 'streams')) if it.truth(it.getattr(s, 'spec'))])
    g.ask('late_fuse of %s and %s' % (xs, ys), lambda: as_streams(call(it, mk(xs), 'late_fuse', mk(ys))), want, 'BaseChannelSpec.late_fuse')
    g.ask('%s + %s' % (xs, ys), lambda: as_streams(it.binop('Add', mk(xs), mk(ys))), want, 'BaseChannelSpec.__add__')
    g.ask('0 + %s' % xs, lambda: as_streams(it.binop('Add', 0, mk(xs))), [xs] if xs else [], 'BaseChannelSpec.__radd__')
    both = [xs, [D]] if xs else [[D]]
    g.ask('late_fuse of %s and %s' % (both, ys), lambda: as_streams(call(it, spec(it, both), 'late_fuse', mk(ys))), both + ([ys] if ys else []), 'BaseChannelSpec.late_fuse')
    g.ask('%s + %s' % (ys, both), lambda: as_streams(it.binop('Add', mk(ys), spec(it, both))), ([ys] if ys else []) + both, 'BaseChannelSpec.__add__')
    if ys:
        g.ask('late_fuse of %s and the text of %s' % (xs, ys), lambda: as_streams(it.call(it.getattr(it.module_attr(CP, 'ChannelSpec'), 'coerce'), [call(it, mk(xs), 'late_fuse', '|'.join(ys))], {})), want, 'BaseChannelSpec.late_fuse',
              lambda got: ' of a text fails' if 'TypeError(can only concatenate' in str(got) else ' of a text')
    return g


scenario(('C',), CF + 'BaseChannelSpec.late_fuse', check_rows('channels streams'), name='channels late', prep=prep)(run_late)


def run_parts(it, cx):
    xs = pick(it, [A, 'rgb', C + '.0:2', D + ':3'], 2, 1)
    g = Got(it)
    def offsets(size):
        out, i = {}, 0
        for c in xs:
            out[c] = (('slice', None, None), ('slice', i, i + size(c)))
            i += size(c)
        return out
    want = offsets(lambda c: len(expand1(c)))
    single = offsets(lambda c: 1 if ':' in c else len(expand1(c)))
    g.ask('component_indices of %s' % xs, lambda: call(it, fused(it, xs), 'component_indices', axis=1), want,
          'FusedChannelSpec.component_indices', lambda got: ' counts a range as one band' if got == single else '')
    return g


scenario(('C',), CF + 'FusedChannelSpec.component_indices', check_rows('channels parts'), name='channels parts', prep=prep)(run_parts)


def run_subseq(it, cx):
    xs = pick(it, [A, B, C, D], 4)
    ys = pick(it, [A, B, C, D], 3)
    g = Got(it)
    f = it.module_attr(CP, 'subsequence_index')
    os_ = lambda v: I.SetV(list(v), ordered=True)
    at = [i for i in range(len(xs)) if xs[i:i + len(ys)] == ys]
    want = ('slice', 0, 0) if not ys else ('slice', at[0], at[0] + len(ys)) if at else None
    g.ask('subsequence_index of %s in %s' % (ys, xs), lambda: it.call(f, [os_(xs), os_(ys)], {}), want, 'subsequence_index')
    return g


scenario(('C',), CF + 'subsequence_index', check_rows('channels parts'), name='channels subsequence', prep=prep, max_paths=4000)(run_subseq)
