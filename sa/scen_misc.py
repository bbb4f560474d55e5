"""
Helpers: quantization.
"""
from . import terms as T
from . import interp as I
from . import models as M
from . import images as G
from . import pixel as P
from .scen import scenario
from .terms import Sym, App

HP = 'delayed_image.helpers'
HF = 'delayed_image/helpers.py:'
QUIET = M.bi('debug_array_event', lambda it, a, k: None)


def prep(it):
    it.models.update(P.PMODELS)
    for m in (HP, 'delayed_image.debug_utils'):
        it.global_overrides[(m, 'debug_array_event')] = QUIET
    for m in (HP, 'delayed_image.constants'):
        it.global_overrides[(m, 'DEBUG_ARRAY_EVENTS')] = it.choose(2)


def start(it):
    it.effects = []
    it.frames = []


def num(it, name, typ='float', **kw):
    return T.to_poly(it.sym(name, typ, **kw))


# ------------------------------------------------------------------ dequantize

def run_dequantize(it, cx):
    it.cx = cx
    name = ('int16', 'uint8', 'float32')[it.choose(3)]
    kind = {'i': 'int', 'u': 'int', 'f': 'float'}[name[0]]
    d = P.dt(it, name)
    q = {}
    full = it.choose(3)          # all options, none, some
    if full == 0:
        q['orig_dtype'] = it.sym('orig_dtype', 'str')
    if full in (0, 2):
        q['orig_min'] = num(it, 'orig_min')
        q['quant_min'] = num(it, 'quant_min', 'int', lo=0)
    if full == 0:
        q['orig_max'] = num(it, 'orig_max')
    qmin = q.get('quant_min', 0)
    span = it.choose(3)          # none, ascending, descending codes
    if span == 0:
        q['quant_max'] = qmin
    else:
        q['quant_max'] = (T.add if span == 1 else T.sub)(qmin, num(it, 'span', 'int', lo=1))
    pick = it.choose(6)
    x = num(it, 'q', kind, lo=P.RANGES[name][0] if kind == 'int' else 0)
    if kind == 'int':
        it.assume(it.rel('<=', x, P.RANGES[name][1]))
    if name == 'int16':
        it.assume(it.rel(('<', '>=')[it.choose(2)], x, 0))
    missing = False
    if pick == 1:
        q['nodata'] = None
    elif pick == 2:
        q['nodata'] = x
        missing = True
    elif pick == 3:
        nd = num(it, 'nodata', 'int', lo=0)
        if kind == 'int':
            it.assume(it.rel('<=', nd, P.RANGES[name][1]))
        it.assume(it.not_(it.rel('==', x, nd)))
        q['nodata'] = nd
    elif pick == 4:
        q['nodata'] = {'int16': 40000, 'uint8': -9999, 'float32': -1}[name]
    elif pick == 5:
        if name == 'int16':
            it.assume(it.rel('>', x, -32768))
        q['nodata'] = {'int16': -32768, 'uint8': 256, 'float32': 2 ** 20}[name]
        if kind == 'float':
            it.assume(it.rel('<', x, 2 ** 20))
    masked = it.choose(2) == 1
    data = P.PixV(x, d, masked, G.Region('user', 'the quantized data'))
    quant = I.DictV(dict(q), owner='user', label='the quantization')
    cx.update(q=q, x=x, missing=missing, masked=masked, data=data, kind=kind)
    start(it)
    f = it.module_attr(HP, 'dequantize')
    return it.call(f, [data, quant], {})


def check_dequantize(tr, cx):
    it = tr.it
    if not tr.no_raise('decoding'):
        return
    tr.no_writes('decoding writes')
    r, q, x = tr.value, cx['q'], cx['x']
    tr.count('obligations')
    if not isinstance(r, P.PixV):
        tr.fail('decoding', 'does not return an array: %r' % (r,))
        return
    for op, site in cx.get('int arith', ()):
        if cx['data'].dt.kind in 'iu':
            tr.fail('decoding', 'calculates in the integer type of the quantized data, where the result overflows', construct='%s:%s' % (site[0], site[1]))
            return
    if cx['missing']:
        if r.value != P.NAN:
            tr.fail('decoding', 'a pixel with the missing data code is decoded as %s' % T.keyof(r.value)[:80])
        else:
            tr.count('discharged')
    elif isinstance(r.value, str):
        tr.fail('decoding', 'a pixel without the missing data code becomes %s' % r.value)
    else:
        lo, hi = q.get('orig_min', 0), q.get('orig_max', 1)
        a, b = q.get('quant_min', 0), q['quant_max']
        span = T.sub(b, a)
        want = lo if T.const_of(span) == 0 else T.add(lo, T.div(T.mul(T.sub(x, a), T.sub(hi, lo)), span))
        tr.num_eq('decoding', 'the value of a pixel', r.value, want)
    dt = q.get('orig_dtype', 'float32')
    want = dt if isinstance(dt, str) else T.keyof(dt)
    tr.count('obligations')
    if r.dt.name != want:
        tr.fail('decoding', 'delivers the type %s instead of %s' % (r.dt.name, want))
    if cx['masked'] and not r.masked:
        tr.fail('decoding', 'the mask of the quantized data is lost')


scenario(('M', 'E'), HF + 'dequantize', check_dequantize, name='decode', prep=prep, max_paths=6000)(run_dequantize)


# ------------------------------------------------------------------ quantize

def run_quantize(it, cx):
    it.cx = cx
    kw = {}
    name = ('int16', 'uint8', 'uint16', 'int8', 'int32', None)[it.choose(6)]
    if name is None:
        name, lo, hi = 'int16', 0, 1
    else:
        kw['quantize_dtype'] = I.ExtV('numpy.' + name)
        lo = num(it, 'old_min')
        hi = T.add(lo, num(it, 'extent', lo=1))
        kw['old_min'], kw['old_max'] = lo, hi
    pick = it.choose(7)
    if pick == 0:
        x = P.NAN
    elif pick in (5, 6):
        x = 'inf' if pick == 5 else '-inf'
    elif pick == 4:
        x = None
    else:
        x = num(it, 'x')
        if pick == 1:
            it.assume(it.rel('<=', x, lo))
        elif pick == 2:
            it.assume(it.rel('>=', x, hi))
        else:
            it.assume(it.rel('<=', lo, x))
            it.assume(it.rel('<=', x, hi))
    data = None if x is None else P.PixV(x, P.DT('float32', 'f'), False, G.Region('user', 'the given image'))
    cx.update(lo=lo, hi=hi, x=x, name=name, pick=pick)
    start(it)
    f = it.module_attr(HP, 'quantize_float01')
    return it.call(f, [data], kw)


def check_quantize(tr, cx):
    it = tr.it
    if not tr.no_raise('encoding'):
        return
    tr.no_writes('encoding writes')
    r = tr.value
    tr.count('obligations')
    if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[1], I.DictV):
        tr.fail('encoding', 'does not return an array and its quantization: %r' % (r,))
        return
    r, q = r[0], r[1].d
    a, b, nd = (it.asnum(q.get(n)) if q.get(n) is not None else None for n in ('quant_min', 'quant_max', 'nodata'))
    tr.num_eq('encoding', 'orig_min of the quantization', q.get('orig_min', 0), cx['lo'])
    tr.num_eq('encoding', 'orig_max of the quantization', q.get('orig_max', 1), cx['hi'])
    if a is None:
        a = 0
    ca, cb, cn = T.const_of(a), None if b is None else T.const_of(b), None if nd is None else T.const_of(nd)
    tr.count('obligations')
    if ca is None or cb is None or cn is None:
        if b is None or nd is None:
            tr.fail('encoding', 'the quantization has no quant_max or nodata')
        else:
            tr.count('undecided')
        return
    lo, hi = P.RANGES[cx['name']]
    if not (lo <= ca < cb <= hi):
        tr.fail('encoding', 'the codes %s to %s do not fit into %s' % (ca, cb, cx['name']))
        return
    if not (lo <= cn <= hi) or ca <= cn <= cb:
        tr.fail('encoding', 'the missing data code %s is a code of data (%s to %s) or does not fit into %s' % (cn, ca, cb, cx['name']))
        return
    if cx['x'] is None:
        if r is not None:
            tr.fail('encoding', 'delivers data although none was given')
        return
    if not isinstance(r, P.PixV):
        tr.fail('encoding', 'does not return an array: %r' % (r,))
        return
    if r.dt.name != cx['name']:
        tr.fail('encoding', 'delivers the type %s instead of %s' % (r.dt.name, cx['name']))
    if cx['pick'] == 0:
        tr.num_eq('encoding', 'the code of a missing value', r.value, cn)
        return
    if r.value == P.NAN:
        tr.fail('encoding', 'a value is encoded as missing')
        return
    if isinstance(r.value, str):
        tr.count('undecided')
        return
    if cx['pick'] in (1, 2, 5, 6):
        tr.num_eq('encoding', 'the code of a value at or beyond the end of the range', r.value, ca if cx['pick'] in (1, 6) else cb)
        return
    x = cx['x']
    # decoding the code gives the value back, up to one step
    step = T.div(T.sub(cx['hi'], cx['lo']), cb - ca)
    back = T.add(cx['lo'], T.mul(T.sub(r.value, ca), step))
    tr.count('obligations')
    for m in tr.models():
        try:
            ev = m.evaluator(it)
            e = (ev.ev(it.canon(back)) - ev.ev(it.canon(x))) / ev.ev(it.canon(step))
        except T.Undefined:
            continue
        if abs(e) > 1 + 1e-6:
            tr.report('encoding', 'decoding the code of a value is off by %.3g steps' % e, m)
            return
    tr.count('not refuted')


scenario(('M',), HF + 'quantize_float01', check_quantize, name='encode', prep=prep, max_paths=3000)(run_quantize)
