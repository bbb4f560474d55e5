"""
Abstract semantics of the builtins and of the external libraries.

Only documented behaviour of the libraries is modelled: numpy on small arrays
of numbers, the affine transforms and boxes of kwimage, slice embedding of
kwarray and the dictionary helpers of ubelt.
"""
from fractions import Fraction

from . import terms as T
from . import interp as I
from .terms import Sym, App, Poly, Aff

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def bi(name, fn):
    return I.BuiltinV(name, fn)


def num(it, v):
    """A number term of a value."""
    if isinstance(v, (Sym, App)):
        return T.to_poly(v)
    if T.isnum(v):
        return v
    if isinstance(v, ArrV) and v.size() == 1:
        return v.flat()[0]
    if isinstance(v, I.AttrV):
        return T.to_poly(v.term)
    if v is None:
        it.raise_('TypeError', 'a number is required, not NoneType')
    raise I.Unsupported('number from %r' % (v,))


# ------------------------------------------------------------------ builtins

def class_of(it, v):
    """('is', cls) test helper: the python type a value surely has, or None."""
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, Fraction):
        return 'int' if v.denominator == 1 else 'float'
    if isinstance(v, Poly):
        return 'int' if v.is_int() else 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, I.ListV):
        return 'list'
    if isinstance(v, I.DictV):
        return 'dict'
    if isinstance(v, I.SetV):
        return 'oset' if v.ordered else 'set'
    if isinstance(v, I.SliceV):
        return 'slice'
    if v is None:
        return 'NoneType'
    if isinstance(v, (Sym, App)) and v.typ in ('int', 'float', 'str', 'bool', 'list', 'tuple'):
        if isinstance(v, Sym) and v.nullable:
            return None
        return v.typ
    return None


NUMERIC_ABC = {'numbers.Number', 'numbers.Real', 'numbers.Integral', 'numpy.floating', 'numpy.integer', 'numpy.number'}


@model('builtins.isinstance')
def m_isinstance(it, a, k):
    v, c = a
    v = it.unlazy(v)
    if isinstance(c, tuple):
        for x in c:
            if it.truth(m_isinstance(it, [v, x], {})):
                return True
        return False
    if hasattr(v, 'abs_isinstance'):
        r = v.abs_isinstance(it, c)
        if r is not NotImplemented:
            return r
    if hasattr(c, 'abs_instancecheck'):
        return c.abs_instancecheck(it, v)
    if isinstance(v, Sym) and v.nullable and it.is_none(v):
        v = None
    if isinstance(c, I.ClassV):
        if isinstance(v, I.Obj):
            return v.cls.subclass_of(c)
        if isinstance(v, I.ExcV):
            return it.exc_subclass(v.exc, c)
        if isinstance(v, App) and v.op in ('call', 'item') or isinstance(v, I.AttrV):
            return App('isinstance', (I.freeze(v), c.name), 'bool')
        return False
    if isinstance(c, type):
        if isinstance(v, I.ExcV):
            return it.exc_subclass(v.exc, c)
        return False
    if isinstance(c, I.ExtV):
        n = c.name
        t = class_of(it, v)
        short = n.split('.')[-1]
        if n.startswith('builtins.'):
            if short == 'object':
                return True
            if t is not None:
                return t == short or (t == 'bool' and short == 'int')
            if isinstance(v, (Sym, App)) and v.typ == 'any':
                return App('isinstance', (v, n), 'bool')
            return False
        if n in ('collections.abc.Iterable', 'typing.Iterable', 'collections.abc.Sequence', 'typing.Sequence'):
            if t is not None:
                return t in ('str', 'tuple', 'list', 'bytes') or (short == 'Iterable' and t in ('dict', 'set', 'oset'))
            return isinstance(v, (I.IterV, I.RangeV))
        if n in ('collections.abc.Mapping', 'typing.Mapping', 'collections.abc.MutableMapping'):
            return t == 'dict'
        if n in NUMERIC_ABC:
            if t is not None:
                if short in ('Integral',):
                    return t in ('int', 'bool')
                if short in ('integer', 'floating', 'number'):
                    return False
                return t in ('int', 'float', 'bool')
        if n == 'ubelt.oset' or n.endswith('OrderedSet'):
            return t == 'oset'
        if t is not None or isinstance(v, (I.Obj, I.FuncV, I.ClassV)):
            if isinstance(v, I.Obj) and any(b == c for b in v.cls.mro() if isinstance(b, I.ExtV)):
                return True
            return False
        return App('isinstance', (I.freeze(v), n), 'bool')
    if isinstance(c, (App, I.AttrV)):
        return App('isinstance', (I.freeze(v), I.freeze(c)), 'bool')
    raise I.Unsupported('isinstance %r' % (c,))


@model('builtins.issubclass')
def m_issubclass(it, a, k):
    c, d = a
    ds = d if isinstance(d, tuple) else (d,)
    if isinstance(c, I.ClassV):
        return any(x in c.mro() for x in ds)
    return App('issubclass', (I.freeze(c), I.freeze(d)), 'bool')


# attributes that no array, transform or box has
FOREIGN = ('mask', 'filled', 'channels', 'dsize', 'optimize', 'finalize', 'subdata', 'parts', 'meta', 'keys', 'items', 'get', 'append', 'nesting')


def library_attr(it, o, name):
    if name in FOREIGN:
        return it.no_attr(o, name)
    raise I.Unsupported('%s.%s' % (type(o).__name__, name))


@model('builtins.hasattr')
def m_hasattr(it, a, k):
    o, n = a
    if hasattr(o, 'abs_hasattr'):
        r = o.abs_hasattr(it, n)
        if r is not NotImplemented:
            return r
    if isinstance(o, I.AttrV) or isinstance(o, (Sym, App)) and o.typ == 'any':
        return App('hasattr', (I.freeze(o), n), 'bool')
    if isinstance(n, str):
        if T.isnum(o):
            return hasattr(int if T.is_int_val(o) else float, n)
        for c, t in ((I.ListV, list), (I.DictV, dict), (tuple, tuple), (str, str), (I.SetV, set), (I.SliceV, slice)):
            if isinstance(o, c) and hasattr(t, n):
                return True
        if isinstance(o, (ArrV, AffineV, BoxesV, PolygonV)) and n not in FOREIGN:
            try:
                it.getattr(o, n)
                return True
            except (I.AbsRaise, I.Unsupported):
                return App('hasattr', (I.freeze(o), n), 'bool')
    try:
        it.getattr(o, n)
        return True
    except I.AbsRaise as ex:
        if ex.exc is AttributeError:
            return False
        raise


@model('builtins.getattr')
def m_getattr(it, a, k):
    if len(a) == 3:
        o = a[0]
        if isinstance(o, I.AttrV) or isinstance(o, (Sym, App)) and o.typ == 'any':
            if not it.truth(App('hasattr', (I.freeze(o), a[1]), 'bool')):
                return a[2]
        return it.getattr(o, a[1], a[2])
    return it.getattr(a[0], a[1])


@model('builtins.setattr')
def m_setattr(it, a, k):
    it.setattr(*a)


@model('builtins.len')
def m_len(it, a, k):
    v = a[0]
    if hasattr(v, 'abs_len'):
        return v.abs_len(it)
    if symbolic(v):
        raise I.Unsupported('length of a symbolic name')
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, (I.ListV, I.IterV)):
        return len(v.items)
    if isinstance(v, (I.DictV, I.SetV)):
        return len(v.d)
    if isinstance(v, I.RangeV):
        cs = [T.const_of(x) for x in (v.start, v.stop, v.step)]
        if all(isinstance(c, int) for c in cs) and cs[2]:
            return len(range(*cs))
        return it.max(T.sub(v.stop, v.start), 0) if v.step == 1 else T.to_poly(App('len', (I.freeze(v),), 'int'))
    if isinstance(v, I.Obj):
        f, c = v.cls.lookup('__len__')
        if f is not None:
            return it.call(I.BoundV(f, v), [], {})
    if v is None or T.isnum(v):
        it.raise_('TypeError', 'object has no len()')
    if isinstance(v, (Sym, App)):
        if isinstance(v, App) and v.op == 'take':
            return m_len(it, [v.args[1]], {})
        if isinstance(v, App) and v.op in ('sorted', 'reversed'):
            return m_len(it, [v.args[0]], {})
        return T.to_poly(App('len', (v,), 'int'))
    if isinstance(v, I.AttrV):
        return T.to_poly(App('len', (v.term,), 'int'))
    it.raise_('TypeError', 'object has no len()')


def concrete(v):
    """A Python value of a known value (or LookupError)."""
    if v is None or isinstance(v, (str, bool, int, float, bytes)):
        return v
    if isinstance(v, (Poly, Fraction)):
        c = T.const_of(v)
        if c is not None:
            return c
    if isinstance(v, tuple):
        return tuple(concrete(x) for x in v)
    if isinstance(v, I.ListV):
        return [concrete(x) for x in v.items]
    raise LookupError


def less(it, a, b):
    """a < b of two sort keys; undecided comparisons split the trace."""
    try:
        return concrete(a) < concrete(b)
    except LookupError:
        pass
    except TypeError as ex:
        it.raise_('TypeError', str(ex))
    if isinstance(a, (tuple, I.ListV)) and isinstance(b, (tuple, I.ListV)):
        xs, ys = list(it.iterate(a)), list(it.iterate(b))
        for x, y in zip(xs, ys):
            if less(it, x, y):
                return True
            if less(it, y, x):
                return False
        return len(xs) < len(ys)
    if isinstance(a, I.Obj) or isinstance(b, I.Obj):
        return it.truth(it.compare('Lt', a, b))
    a, b = it.asnum(a), it.asnum(b)
    if T.isnum(a) and T.isnum(b):
        return it.truth(it.rel('<', a, b))
    raise I.Unsupported('order')


def _minmax(op):
    def f(it, a, k):
        items = list(it.iterate(a[0])) if len(a) == 1 else a
        if k.get('key') is not None and items:
            best = items[0]
            if len(items) > 1:
                bk = it.call(k['key'], [best], {})
                for x in items[1:]:
                    xk = it.call(k['key'], [x], {})
                    if less(it, xk, bk) if op == 'min' else less(it, bk, xk):
                        best, bk = x, xk
            return best
        if not items:
            if 'default' in k:
                return k['default']
            it.raise_('ValueError', op + '() of an empty sequence')
        if any(isinstance(x, (I.Obj, tuple, I.ListV)) for x in items):
            best = items[0]
            for x in items[1:]:
                if less(it, x, best) if op == 'min' else less(it, best, x):
                    best = x
            return best
        if all(isinstance(x, str) for x in items):
            return min(items) if op == 'min' else max(items)
        for x in items:
            if x is None or isinstance(x, Sym) and x.nullable and it.is_none(x):
                it.raise_('TypeError', "'<' not supported with NoneType")
        items = [it.asnum(x) for x in items]
        for x in items:
            if not T.isnum(x):
                return App(op, tuple(I.freeze(x) for x in items))
        return it.min(*items) if op == 'min' else it.max(*items)
    return f


MODELS['builtins.min'] = _minmax('min')
MODELS['builtins.max'] = _minmax('max')


def ext_call(it, name, args, kwargs=None):
    return App('ext:' + name, tuple(I.freeze(x) for x in args) + I.freeze_kw(kwargs or {}))


@model('builtins.int')
def m_int(it, a, k):
    if not a:
        return 0
    v = it.asnum(a[0])
    if isinstance(v, ArrV):
        v = num(it, v)
    if isinstance(v, bool):
        return int(v)
    if T.isnum(v):
        if T.special(v):
            it.raise_('ValueError', 'cannot convert float nan to integer')
        return T.rounding('trunc', v) if not _nonneg(it, v) else T.rounding('floor', v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            it.raise_('ValueError', 'invalid literal for int')
    if v is None or isinstance(v, (tuple, I.ListV, I.DictV)):
        it.raise_('TypeError', 'int() argument')
    if isinstance(v, Sym) and v.nullable and it.is_none(v):
        it.raise_('TypeError', 'int() argument None')
    if isinstance(v, (Sym, App)):
        return T.to_poly(App('toint', (v,), 'int'))
    if isinstance(v, I.AttrV):
        return T.to_poly(App('toint', (v.term,), 'int'))
    raise I.Unsupported('int(%r)' % (v,))


def _nonneg(it, v):
    return T.const_of(v) is None and not T.is_int_val(v) and it.proves('>=', v, 0)


@model('builtins.float', 'numpy.float64', 'numpy.float32')
def m_float(it, a, k):
    v = it.asnum(a[0]) if a else 0
    if isinstance(v, ArrV):
        v = num(it, v)
    if T.isnum(v):
        return v
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            it.raise_('ValueError', 'could not convert string to float')
    if v is None or isinstance(v, (tuple, I.ListV, I.DictV)):
        it.raise_('TypeError', 'float() argument')
    if isinstance(v, Sym) and v.nullable and it.is_none(v):
        it.raise_('TypeError', 'float() argument None')
    return T.to_poly(App('tofloat', (I.freeze(v),), 'float'))


@model('builtins.abs', 'numpy.abs', 'math.fabs')
def m_abs(it, a, k):
    v = it.asnum(a[0])
    if isinstance(v, ArrV):
        return v.map(lambda x: m_abs(it, [x], {}))
    if not T.isnum(v):
        v = num(it, v)
    c = T.const_of(v)
    if c is not None:
        return abs(c)
    if it.proves('>=', v, 0):
        return v
    if it.proves('<=', v, 0):
        return T.neg(v)
    p = T.to_poly(v)
    lead = sorted(p.terms, key=T.monokey)[0]
    if p.terms[lead] < 0:
        v = T.neg(v)
    return T.to_poly(App('abs', (v,), 'int' if T.is_int_val(v) else 'float'))


@model('builtins.bool')
def m_bool(it, a, k):
    if not a:
        return False
    v = a[0]
    if isinstance(v, (Sym, App)) and v.typ == 'bool':
        return v
    return it.truth(v)


@model('builtins.str')
def m_str(it, a, k):
    return it.to_str(a[0]) if a else ''


@model('builtins.repr', 'builtins.format', 'builtins.ascii')
def m_repr(it, a, k):
    if len(a) == 1 and isinstance(a[0], str):
        return repr(a[0])
    return App('repr', tuple(I.freeze(x) for x in a), 'str')


@model('builtins.id', 'builtins.hash')
def m_id(it, a, k):
    v = a[0]
    if isinstance(v, I.Heap):
        return T.to_poly(App('id', (v.key,), 'int'))
    return T.to_poly(App('id', (I.freeze(v),), 'int'))


@model('builtins.print')
def m_print(it, a, k):
    it.events.append(('print', it.site()))


@model('builtins.zip')
def m_zip(it, a, k):
    if not a:
        return I.IterV([])
    return I.IterV(list(zip(*[list(it.iterate(x)) for x in a])))


@model('itertools.zip_longest')
def m_zip_longest(it, a, k):
    import itertools
    return I.IterV(list(itertools.zip_longest(*[list(it.iterate(x)) for x in a], fillvalue=k.get('fillvalue'))))


@model('itertools.chain')
def m_chain(it, a, k):
    out = []
    for x in a:
        out.extend(it.iterate(x))
    return I.IterV(out)


@model('itertools.chain.from_iterable')
def m_chain_from(it, a, k):
    out = []
    for x in it.iterate(a[0]):
        out.extend(it.iterate(x))
    return I.IterV(out)


@model('itertools.product')
def m_product(it, a, k):
    import itertools
    return I.IterV(list(itertools.product(*[list(it.iterate(x)) for x in a])))


@model('itertools.pairwise')
def m_pairwise(it, a, k):
    xs = list(it.iterate(a[0]))
    return I.IterV(list(zip(xs, xs[1:])))


@model('builtins.enumerate')
def m_enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    return I.IterV([(i + start, x) for i, x in enumerate(it.iterate(a[0]))])


@model('builtins.reversed')
def m_reversed(it, a, k):
    if isinstance(a[0], (Sym, App)) and a[0].typ == 'list':
        return App('reversed', (a[0],), 'list')
    return I.IterV(list(it.iterate(a[0]))[::-1])


@model('builtins.iter')
def m_iter(it, a, k):
    if isinstance(a[0], I.IterV):
        return a[0]
    return I.IterV(list(it.iterate(a[0])))


@model('builtins.next')
def m_next(it, a, k):
    v = a[0]
    if isinstance(v, I.IterV):
        if v.pos < len(v.items):
            v.pos += 1
            return v.items[v.pos - 1]
        if len(a) > 1:
            return a[1]
        it.raise_('StopIteration')
    if hasattr(v, 'abs_next'):
        return v.abs_next(it)
    raise I.Unsupported('next')


class CountV:
    """itertools.count"""
    key = 'count'

    def __init__(self, start, step):
        self.pos, self.step = start, step

    def abs_next(self, it):
        r = self.pos
        self.pos = T.add(r, self.step)
        return r


@model('itertools.count')
def m_count(it, a, k):
    return CountV(a[0] if a else k.get('start', 0), a[1] if len(a) > 1 else k.get('step', 1))


class GraphV:
    """networkx.DiGraph"""
    key = 'digraph'

    def __init__(self):
        self.nodes = I.DictV({})
        self.edges = []

    def abs_truth(self, it):
        return bool(self.nodes.d)

    def abs_is_none(self, it):
        return False

    def abs_len(self, it):
        return len(self.nodes.d)

    def abs_getattr(self, it, name):
        if name == 'nodes':
            return NodesV(self)
        if name == 'add_node':
            def add(it, a, k):
                self.nodes.d.setdefault(I.freeze(a[0]), I.DictV({})).d.update(k)
            return bi(name, add)
        if name == 'add_edge':
            def edge(it, a, k):
                self.edges.append((I.freeze(a[0]), I.freeze(a[1])))
            return bi(name, edge)
        raise I.Unsupported('DiGraph.' + name)


class NodesV:
    key = 'digraph.nodes'

    def __init__(self, g):
        self.g = g

    def abs_len(self, it):
        return len(self.g.nodes.d)

    def abs_getitem(self, it, i):
        return it.getitem(self.g.nodes, I.freeze(i))

    def abs_iter(self, it):
        return iter(list(self.g.nodes.d))

    def abs_call(self, it, a, k):
        if k.get('data'):
            return I.ListV([(n, d) for n, d in self.g.nodes.d.items()])
        return I.ListV(list(self.g.nodes.d))


MODELS['networkx.DiGraph'] = lambda it, a, k: GraphV()


@model('builtins.any')
def m_any(it, a, k):
    if isinstance(a[0], ArrV):
        return m_any(it, [I.ListV(a[0].flat())], k)
    if hasattr(a[0], 'abs_any'):
        return a[0].abs_any(it)
    for x in it.iterate(a[0]):
        if it.truth(x):
            return True
    return False


@model('builtins.all')
def m_all(it, a, k):
    if isinstance(a[0], ArrV):
        return m_all(it, [I.ListV(a[0].flat())], k)
    if hasattr(a[0], 'abs_all'):
        return a[0].abs_all(it)
    for x in it.iterate(a[0]):
        if not it.truth(x):
            return False
    return True


@model('builtins.sum')
def m_sum(it, a, k):
    v = a[1] if len(a) > 1 else k.get('start', 0)
    if hasattr(a[0], 'abs_generic') and not isinstance(a[0], (ArrV,)):
        g = a[0].abs_generic(it)
        if g is not None:
            return T.to_poly(App('sum', (I.freeze(a[0]),), 'int'))
    for x in it.iterate(a[0]):
        v = it.binop('Add', v, x)
    return v


@model('builtins.list')
def m_list(it, a, k):
    if not a:
        return I.ListV([])
    if isinstance(a[0], (Sym, App)) and not (isinstance(a[0], Sym) and a[0].nullable):
        return a[0] if a[0].typ == 'list' else App('tolist', (a[0],), 'list')
    if hasattr(a[0], 'abs_tolist'):
        return a[0].abs_tolist(it)
    return I.ListV(list(it.iterate(a[0])))


@model('builtins.tuple')
def m_tuple(it, a, k):
    if not a:
        return ()
    if isinstance(a[0], (Sym, App)) and not (isinstance(a[0], Sym) and a[0].nullable):
        return a[0] if a[0].typ == 'tuple' else App('totuple', (a[0],), 'tuple')
    if hasattr(a[0], 'abs_tolist'):
        return a[0].abs_tolist(it)
    return tuple(it.iterate(a[0]))


@model('builtins.set', 'builtins.frozenset')
def m_set(it, a, k):
    if not a:
        return I.SetV()
    return I.SetV(list(it.iterate(a[0])))


@model('ubelt.oset', 'ubelt.OrderedSet')
def m_oset(it, a, k):
    return I.SetV(list(it.iterate(a[0])) if a and a[0] is not None else [], ordered=True)


@model('builtins.dict', 'ubelt.odict', 'collections.OrderedDict', 'ubelt.udict', 'ubelt.UDict')
def m_dict(it, a, k):
    d = I.DictV()
    if a:
        if isinstance(a[0], I.DictV):
            d.d.update(a[0].d)
        elif a[0] is None:
            it.raise_('TypeError', 'NoneType is not iterable')
        elif isinstance(a[0], I.Obj) and a[0].cls.lookup('keys')[0] is not None:
            for x in it.iterate(it.call(it.getattr(a[0], 'keys'), [], {})):
                d.d[it.hashable(x)] = it.getitem(a[0], x)
        else:
            for x in it.iterate(a[0]):
                kk, v = list(it.iterate(x))
                d.d[it.hashable(kk)] = v
    d.d.update(k)
    return d


@model('collections.defaultdict')
def m_defaultdict(it, a, k):
    return DefaultDictV(a[0] if a else None)


class DefaultDictV(I.DictV):
    def __init__(self, factory):
        super().__init__()
        self.factory = factory

    def abs_getitem(self, it, i):
        if i not in self.d:
            self.d[i] = it.call(self.factory, [], {})
        return self.d[i]


@model('builtins.range')
def m_range(it, a, k):
    a = [it.asnum(x) for x in a]
    for x in a:
        if x is None:
            it.raise_('TypeError', 'NoneType cannot be interpreted as an integer')
    if len(a) == 1:
        return mk_range(0, a[0], 1)
    return mk_range(a[0], a[1], a[2] if len(a) > 2 else 1)


def mk_range(a, b, s):
    if all(T.isnum(x) and T.const_of(x) is not None for x in (a, b, s)):
        return I.RangeV(a, b, s)
    return SymRange(a, b, s)


class SymRange:
    typ = 'list'
    op = 'range'

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    key = property(lambda self: 'range(%s,%s,%s)' % (T.keyof(self.a), T.keyof(self.b), T.keyof(self.s)))

    def freeze(self):
        return App('range', (I.freeze(self.a), I.freeze(self.b), I.freeze(self.s)), 'list')

    def abs_tolist(self, it):
        return self.freeze()

    def abs_len(self, it):
        return T.to_poly(App('len', (self.freeze(),), 'int'))


@model('builtins.sorted')
def m_sorted(it, a, k):
    if isinstance(a[0], (Sym, App)) and a[0].typ == 'list':
        return App('sorted', (a[0],) + I.freeze_kw(k), "list")
    xs = list(it.iterate(a[0]))
    key = k.get('key')
    keys = xs if key is None else [it.call(key, [x], {}) for x in xs]
    rev = it.truth(k.get('reverse', False))
    if len(xs) <= 1:
        return I.ListV(xs)
    try:
        ks = [concrete(x) for x in keys]
    except LookupError:
        ks = None
    if ks is not None:
        try:
            return I.ListV([xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev)])
        except TypeError as ex:
            it.raise_('TypeError', str(ex))
    if len(xs) <= 4:
        out = []
        for x, q in zip(xs, keys):
            pos = len(out)
            while pos and (less(it, out[pos - 1][1], q) if rev else less(it, q, out[pos - 1][1])):
                pos -= 1
            out.insert(pos, (x, q))
        return I.ListV([x for x, _ in out])
    raise I.Unsupported('sorted')


@model('builtins.map')
def m_map(it, a, k):
    f = a[0]
    if isinstance(a[1], I.Heap) or isinstance(a[1], (tuple, str)) or not hasattr(a[1], 'abs_generic'):
        if isinstance(f, I.ExtV) and f.name in MODELS:
            fn = MODELS[f.name]
            return I.IterV([fn(it, list(x), {}) for x in zip(*[list(it.iterate(y)) for y in a[1:]])])
        return I.IterV([it.call(f, list(x), {}) for x in zip(*[list(it.iterate(y)) for y in a[1:]])])
    g = a[1].abs_generic(it)
    if g is None:
        return I.IterV([it.call(f, [x], {}) for x in it.iterate(a[1])])
    return MapV(I.freeze(it.call(f, [g], {})), a[1])


@model('builtins.filter')
def m_filter(it, a, k):
    f, xs = a
    return I.IterV([x for x in it.iterate(xs) if it.truth(x if f is None else it.call(f, [x], {}))])


class MapV:
    """[f(x) for x in xs] over an abstract sequence."""
    typ = 'list'

    def __init__(self, term, seq):
        self.term = term
        self.seq = seq

    @property
    def key(self):
        return 'map(%s,%s)' % (T.keyof(self.term), T.keyof(I.freeze(self.seq)))

    def freeze(self):
        return App('map', (self.term, I.freeze(self.seq)), 'list')

    def abs_len(self, it):
        return m_len(it, [self.seq], {})

    def abs_tolist(self, it):
        return self

    def abs_any(self, it):
        return it.decide(App('any', (self.freeze(),), 'bool'))

    def abs_all(self, it):
        return it.decide(App('all', (self.freeze(),), 'bool'))


@model('builtins.slice')
def m_slice(it, a, k):
    if len(a) == 1:
        return I.SliceV(None, a[0])
    return I.SliceV(*a)


@model('builtins.type')
def m_type(it, a, k):
    v = a[0]
    if hasattr(v, 'abs_type'):
        return v.abs_type(it)
    if isinstance(v, I.Obj):
        return v.cls
    if isinstance(v, I.ExcV):
        return v.exc
    t = class_of(it, v)
    if t in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'slice', 'bytes'):
        return I.ExtV('builtins.' + t)
    return App('type', (I.freeze(v),))


@model('builtins.callable')
def m_callable(it, a, k):
    v = a[0]
    if isinstance(v, (I.FuncV, I.BoundV, I.BuiltinV, I.ClassV, I.ExtV, I.StaticV, type)) or hasattr(v, 'abs_call'):
        return True
    if isinstance(v, I.Obj):
        return v.cls.lookup('__call__')[0] is not None
    if isinstance(v, (Sym, App)) and v.typ == 'any':
        return App('callable', (v,), 'bool')
    return False


@model('builtins.round')
def m_round(it, a, k):
    v = num(it, a[0])
    c = T.const_of(v)
    nd = a[1] if len(a) > 1 else k.get('ndigits')
    if c is not None and nd is None:
        return round(c)
    if c is not None and isinstance(nd, int):
        return round(float(c), nd)
    return T.to_poly(App('round', (v,) + tuple(I.freeze(x) for x in a[1:]), 'int' if len(a) == 1 else 'float'))


@model('builtins.divmod')
def m_divmod(it, a, k):
    return (it.num_binop('FloorDiv', num(it, a[0]), num(it, a[1])), it.num_binop('Mod', num(it, a[0]), num(it, a[1])))


@model('builtins.pow')
def m_pow(it, a, k):
    return T.power(num(it, a[0]), num(it, a[1]))


@model('builtins.ord')
def m_ord(it, a, k):
    return ord(a[0])


@model('builtins.object')
def m_object(it, a, k):
    return App('object', (it.sym('object').name,))


MODELS['builtins.Ellipsis'] = Ellipsis
MODELS['builtins.NotImplemented'] = NotImplemented
MODELS['builtins.__debug__'] = True


@model('typing.cast')
def m_cast(it, a, k):
    return a[1]


MODELS['typing.TYPE_CHECKING'] = False


@model('copy.copy')
def m_copy(it, a, k):
    v = a[0]
    if isinstance(v, I.Obj):
        if hasattr(v, 'abs_concrete'):
            v = v.abs_concrete(it)
        new = I.Obj(v.cls, label=None)
        new.attrs = dict(v.attrs)
        new.origin = v
        return new
    if isinstance(v, I.ListV):
        return I.ListV(v.items)
    if isinstance(v, I.DictV):
        return I.DictV(v.d)
    if isinstance(v, I.SetV):
        return I.SetV(list(v.d), ordered=v.ordered)
    if hasattr(v, 'abs_copy'):
        return v.abs_copy(it)
    return v


@model('copy.deepcopy')
def m_deepcopy(it, a, k):
    memo = {}

    def rec(v):
        if isinstance(v, I.Obj):
            if id(v) in memo:
                return memo[id(v)]
            if hasattr(v, 'abs_concrete'):
                v = v.abs_concrete(it)
            new = I.Obj(v.cls)
            memo[id(v)] = new
            new.attrs = {n: rec(x) for n, x in v.attrs.items()}
            return new
        if isinstance(v, I.ListV):
            return I.ListV([rec(x) for x in v.items])
        if isinstance(v, I.DictV):
            return I.DictV({n: rec(x) for n, x in v.d.items()})
        if isinstance(v, tuple):
            return tuple(rec(x) for x in v)
        return m_copy(it, [v], {})
    return rec(a[0])


# ------------------------------------------------------------------ math

def _math(op, typ='float'):
    def f(it, a, k):
        v = a[0]
        if isinstance(v, ArrV):
            return v.map(lambda x: f(it, [x], {}))
        v = num(it, it.asnum(v))
        if op in ('floor', 'ceil', 'trunc'):
            return T.rounding(op, v)
        c = T.const_of(v)
        if c is not None:
            import math
            try:
                if op == 'sqrt':
                    r = math.sqrt(c)
                    return int(r) if r == int(r) else r
                r = getattr(math, op)(c)
                return int(r) if r == int(r) else r
            except ValueError:
                it.raise_('ValueError', 'math domain error')
        if op == 'log2':
            # log2(c * 2**k) == log2(c) + k
            p = T.to_poly(v)
            if len(p.terms) == 1:
                (m, cc), = p.terms.items()
                tot, rest = 0, []
                for x, e in m:
                    if isinstance(x, App) and x.op == 'pow' and T.const_of(x.args[0]) == 2:
                        tot = T.add(tot, T.mul(e, x.args[1]))
                    else:
                        rest.append((x, e))
                import math
                lc = math.log2(cc) if cc > 0 else None
                if lc is not None and lc == int(lc) and (tot != 0 or lc):
                    if not rest:
                        return T.add(tot, int(lc))
                    return T.add(T.add(tot, int(lc)), T.to_poly(App('log2', (T.simp(Poly({tuple(rest): Fraction(1)})),), 'float')))
        if op == 'sqrt':
            # sqrt(x**2) with a positive x
            p = T.to_poly(v)
            if len(p.terms) == 1:
                (m, cc), = p.terms.items()
                r = Fraction(cc).limit_denominator(10**12)
                import math
                n, d = math.isqrt(abs(r.numerator)), math.isqrt(r.denominator)
                if n * n == r.numerator and d * d == r.denominator and all(e % 2 == 0 for _, e in m):
                    out = Fraction(n, d)
                    for x, e in m:
                        out = T.mul(out, T.power(m_abs(it, [T.to_poly(x)], {}), e // 2))
                    return out
        return T.to_poly(App(op, (v,), typ))
    return f


for _n in ('sqrt', 'sin', 'cos', 'log2', 'log', 'exp', 'tan'):
    MODELS['math.' + _n] = MODELS['numpy.' + _n] = _math(_n)
for _n in ('floor', 'ceil', 'trunc'):
    MODELS['math.' + _n] = MODELS['numpy.' + _n] = _math(_n)


@model('math.atan2', 'numpy.arctan2')
def m_atan2(it, a, k):
    y, x = [num(it, v) for v in a]
    cy, cx = T.const_of(y), T.const_of(x)
    if cy == 0 and (cx is not None and cx > 0 or cx is None and it.proves('>', x, 0)):
        return 0
    if cy is not None and cx is not None:
        import math
        return math.atan2(cy, cx)
    return T.to_poly(App('atan2', (y, x), 'float'))


@model('math.hypot', 'numpy.hypot')
def m_hypot(it, a, k):
    x, y = [num(it, v) for v in a]
    return MODELS['math.sqrt'](it, [T.add(T.mul(x, x), T.mul(y, y))], {})


@model('math.isnan', 'numpy.isnan')
def m_isnan(it, a, k):
    v = a[0]
    if isinstance(v, ArrV):
        return v.map(lambda x: m_isnan(it, [x], {}))
    if isinstance(v, float):
        return v != v
    if T.isnum(v) and T.const_of(v) is not None:
        return False
    if hasattr(v, 'abs_ufunc'):
        return v.abs_ufunc(it, 'isnan', [])
    return App('isnan', (I.freeze(v),), 'bool')


@model('math.isfinite', 'numpy.isfinite')
def m_isfinite(it, a, k):
    v = a[0]
    if T.isnum(v) and T.const_of(v) is not None:
        return not T.special(v)
    if hasattr(v, 'abs_ufunc'):
        return v.abs_ufunc(it, 'isfinite', [])
    return App('isfinite', (I.freeze(v),), 'bool')


@model('math.isclose')
def m_mathisclose(it, a, k):
    x, y = num(it, a[0]), num(it, a[1])
    cx, cy = T.const_of(x), T.const_of(y)
    if cx is not None and cy is not None:
        import math
        return math.isclose(cx, cy, **{n: float(T.const_of(num(it, v))) for n, v in k.items()})
    return it.rel('==', x, y)


MODELS['math.pi'] = 3.141592653589793
MODELS['math.inf'] = MODELS['numpy.inf'] = float('inf')
MODELS['math.nan'] = MODELS['numpy.nan'] = MODELS['numpy.NaN'] = float('nan')
MODELS['numpy.newaxis'] = None


# ------------------------------------------------------------------ small arrays

class ArrV(I.Heap):
    """A small numpy array of numbers; views share the storage."""

    def __init__(self, shape, store, idx=None, owner='fresh'):
        self.shape = tuple(shape)
        self.store = store
        self.idx = list(range(len(store))) if idx is None else idx
        self.owner = owner
        self.fresh_id()

    key = property(lambda self: 'arr%s%s' % (self.shape, [T.keyof(x) for x in self.flat()]))

    def freeze(self):
        return App('arr', (self.shape, tuple(self.flat())))

    def flat(self):
        return [self.store[i] for i in self.idx]

    def size(self):
        return len(self.idx)

    def map(self, f):
        return ArrV(self.shape, [f(x) for x in self.flat()])

    def abs_truth(self, it):
        if self.size() == 1:
            return it.truth(self.flat()[0])
        it.raise_('ValueError', 'The truth value of an array is ambiguous')

    def abs_len(self, it):
        if not self.shape:
            it.raise_('TypeError', 'len() of unsized object')
        return self.shape[0]

    def abs_iter(self, it):
        for i in range(self.shape[0]):
            yield self.abs_getitem(it, i)

    def abs_tolist(self, it):
        return self.nested(True)

    def nested(self, aslist=True):
        def rec(shape, xs):
            if not shape:
                return xs[0]
            n = len(xs) // shape[0] if shape[0] else 0
            parts = [rec(shape[1:], xs[i * n:(i + 1) * n]) for i in range(shape[0])]
            return I.ListV(parts) if aslist else tuple(parts)
        return rec(self.shape, self.flat())

    def abs_getitem(self, it, i):
        r = self.view(it, i)
        if isinstance(r, ArrV) and r.shape == ():
            return r.flat()[0]
        return r

    def view(self, it, i):
        ix = i if isinstance(i, tuple) else (i,)
        if Ellipsis in [x for x in ix if x is Ellipsis]:
            n = sum(1 for x in ix if x is not Ellipsis and x is not None)
            out = []
            for x in ix:
                if x is Ellipsis:
                    out.extend([I.SliceV(None, None)] * (len(self.shape) - n))
                else:
                    out.append(x)
            ix = tuple(out)
        dims = []      # per output: list of offsets
        shape = []
        strides = []
        s = 1
        for d in reversed(self.shape):
            strides.insert(0, s)
            s *= d
        ax = 0
        sel = []
        for x in ix:
            if x is None:
                sel.append(('new',))
                continue
            if ax >= len(self.shape):
                it.raise_('IndexError', 'too many indices')
            if isinstance(x, I.SliceV):
                c = [None if y is None else T.const_of(it.asnum(y)) for y in (x.start, x.stop, x.step)]
                if any(y is not None and z is None for y, z in zip((x.start, x.stop, x.step), c)):
                    raise I.Unsupported('symbolic index of an array')
                sel.append(('many', list(range(self.shape[ax]))[slice(*c)]))
            elif isinstance(x, I.ListV):
                sel.append(('many', [T.const_of(y) for y in x.items]))
            elif T.isnum(x) and T.const_of(x) is not None:
                c = int(T.const_of(x))
                if not -self.shape[ax] <= c < self.shape[ax]:
                    it.raise_('IndexError', 'index %d is out of bounds' % c)
                sel.append(('one', c % self.shape[ax]))
            else:
                raise I.Unsupported('index %r of an array' % (x,))
            ax += 1
        while ax < len(self.shape):
            sel.append(('many', list(range(self.shape[ax]))))
            ax += 1
        pos = [0]
        a = 0
        for x in sel:
            if x[0] == 'new':
                shape.append(1)
                continue
            if x[0] == 'one':
                pos = [p + x[1] * strides[a] for p in pos]
            else:
                pos = [p + y * strides[a] for p in pos for y in x[1]]
                shape.append(len(x[1]))
            a += 1
        return ArrV(shape, self.store, [self.idx[p] for p in pos], self.owner)

    def abs_setitem(self, it, i, v):
        it.write_check(self, 'arrwrite', '[...] =')
        t = self.view(it, i)
        vals = broadcast(it, v, t.shape)
        for j, x in zip(t.idx, vals):
            self.store[j] = x

    def abs_binop(self, it, op, other, swapped):
        if op == 'MatMult':
            o = as_array(it, other)
            if o is None:
                return NotImplemented
            return matmul(it, o, self) if swapped else matmul(it, self, o)
        o = as_array(it, other)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swapped else (self, o)
        shape = bshape(it, a.shape, b.shape)
        xs, ys = broadcast(it, a, shape), broadcast(it, b, shape)
        return ArrV(shape, [it.binop(op, x, y) for x, y in zip(xs, ys)])

    def abs_inplace(self, it, op, val):
        it.write_check(self, 'arrwrite', 'in place %s' % op)
        vals = broadcast(it, val, self.shape)
        new = [it.binop(op, x, y) for x, y in zip(self.flat(), vals)]
        for j, x in zip(self.idx, new):
            self.store[j] = x
        return self

    def abs_compare(self, it, op, other):
        vals = broadcast(it, other, self.shape)
        return ArrV(self.shape, [it.rel(op, x, y) for x, y in zip(self.flat(), vals)])

    def abs_equal(self, it, other):
        o = as_array(it, other)
        if o is None:
            return NotImplemented
        shape = bshape(it, self.shape, o.shape)
        xs, ys = broadcast(it, self, shape), broadcast(it, o, shape)
        r = ArrV(shape, [it.equal(x, y) for x, y in zip(xs, ys)])
        return r.flat()[0] if shape == () or r.size() == 1 else r

    def abs_neg(self, it):
        return self.map(T.neg)

    def abs_isinstance(self, it, c):
        if isinstance(c, I.ExtV):
            return c.name == 'numpy.ndarray'
        return False

    def reduce(self, it, op, axis):
        if axis is None:
            if op in ('max', 'min'):
                return it.max(*self.flat()) if op == 'max' else it.min(*self.flat())
            t = 0
            for x in self.flat():
                t = T.add(t, x)
            return t
        axis = axis % len(self.shape)
        shape = self.shape[:axis] + self.shape[axis + 1:]
        outer = 1
        for d in self.shape[:axis]:
            outer *= d
        inner = 1
        for d in self.shape[axis + 1:]:
            inner *= d
        n = self.shape[axis]
        fl = self.flat()
        out = []
        for o in range(outer):
            for i in range(inner):
                xs = [fl[(o * n + j) * inner + i] for j in range(n)]
                if op == 'max':
                    out.append(it.max(*xs))
                elif op == 'min':
                    out.append(it.min(*xs))
                else:
                    t = 0
                    for x in xs:
                        t = T.add(t, x)
                    out.append(t)
        return ArrV(shape, out) if shape else out[0]

    def abs_getattr(self, it, name):
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return len(self.shape)
        if name == 'size':
            return self.size()
        if name == 'T':
            if len(self.shape) == 2:
                r, c = self.shape
                return ArrV((c, r), self.store, [self.idx[i * c + j] for j in range(c) for i in range(r)], self.owner)
            return self
        if name in ('ravel', 'flatten'):
            return bi(name, lambda it, a, k: ArrV((self.size(),), self.store, list(self.idx), self.owner)
                      if name == 'ravel' else ArrV((self.size(),), self.flat()))
        if name == 'reshape':
            def reshape(it, a, k):
                sh = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
                n = 1
                for d in sh:
                    if d != -1:
                        n *= d
                sh = tuple(self.size() // n if d == -1 else d for d in sh)
                return ArrV(sh, self.store, list(self.idx), self.owner)
            return bi(name, reshape)
        if name in ('max', 'min', 'sum'):
            return bi(name, lambda it, a, k: self.reduce(it, name, a[0] if a else k.get('axis')))
        if name == 'astype':
            def astype(it, a, k):
                d = a[0]
                n = d.name.split('.')[-1] if isinstance(d, I.ExtV) else str(d)
                if n.startswith(('int', 'uint')):
                    return self.map(lambda x: m_int(it, [x], {}))
                return self.map(lambda x: x)
            return bi(name, astype)
        if name == 'copy':
            return bi(name, lambda it, a, k: self.map(lambda x: x))
        if name == 'tolist':
            return bi(name, lambda it, a, k: self.nested(True))
        if name == 'item':
            return bi(name, lambda it, a, k: self.flat()[0])
        if name == 'any':
            return bi(name, lambda it, a, k: m_any(it, [I.ListV(self.flat())], {}))
        if name == 'all':
            return bi(name, lambda it, a, k: m_all(it, [I.ListV(self.flat())], {}))
        if name == 'clip':
            return bi(name, lambda it, a, k: clip(it, self, *a, **k))
        if name == 'dtype':
            return App('attr:dtype', (self.freeze(),))
        return library_attr(it, self, name)


def as_array(it, v, force=False):
    if isinstance(v, ArrV):
        return v
    if isinstance(v, MatV):
        return v.array()
    if isinstance(v, AffineV):
        return MatV(v.aff).array()
    if T.isnum(v):
        return ArrV((), [v])
    if isinstance(v, (Sym, App)) and v.typ in ('int', 'float'):
        return ArrV((), [T.to_poly(v)])
    if isinstance(v, (Sym, App)) and v.typ == 'bool':
        return ArrV((), [v])
    if isinstance(v, (tuple, I.ListV)):
        items = list(v) if isinstance(v, tuple) else v.items
        parts = [as_array(it, x) for x in items]
        if any(p is None for p in parts):
            return None
        if not parts:
            return ArrV((0,), [])
        if any(p.shape != parts[0].shape for p in parts):
            return None
        store = [x for p in parts for x in p.flat()]
        return ArrV((len(parts),) + parts[0].shape, store)
    return None


def bshape(it, a, b):
    out = []
    a, b = list(a), list(b)
    n = max(len(a), len(b))
    a = [1] * (n - len(a)) + a
    b = [1] * (n - len(b)) + b
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            it.raise_('ValueError', 'operands could not be broadcast together')
        out.append(max(x, y) if x and y else 0)
    return tuple(out)


def broadcast(it, v, shape):
    a = as_array(it, v)
    if a is None:
        raise I.Unsupported('broadcast of %r' % (v,))
    sa = [1] * (len(shape) - len(a.shape)) + list(a.shape)
    if len(sa) > len(shape):
        if all(d == 1 for d in sa[:len(sa) - len(shape)]):
            sa = sa[len(sa) - len(shape):]
        else:
            it.raise_('ValueError', 'could not broadcast input array')
    for x, y in zip(sa, shape):
        if x != y and x != 1:
            it.raise_('ValueError', 'could not broadcast input array')
    fl = a.flat()
    strides = []
    s = 1
    for d in reversed(sa):
        strides.insert(0, 0 if d == 1 else s)
        s *= d
    out = []

    def rec(ax, off):
        if ax == len(shape):
            out.append(fl[off])
            return
        for i in range(shape[ax]):
            rec(ax + 1, off + i * strides[ax])
    rec(0, 0)
    return out


def matmul(it, a, b):
    sa, sb = a.shape, b.shape
    A = a if len(sa) == 2 else ArrV((1,) + sa, a.flat())
    B = b if len(sb) == 2 else ArrV(sb + (1,), b.flat())
    if len(A.shape) != 2 or len(B.shape) != 2 or A.shape[1] != B.shape[0]:
        it.raise_('ValueError', 'matmul: mismatch in core dimension')
    fa, fb = A.flat(), B.flat()
    r, n, c = A.shape[0], A.shape[1], B.shape[1]
    out = []
    for i in range(r):
        for j in range(c):
            t = 0
            for x in range(n):
                t = T.add(t, T.mul(fa[i * n + x], fb[x * c + j]))
            out.append(t)
    shape = (r, c)
    if len(sa) == 1:
        shape = shape[1:]
    if len(sb) == 1:
        shape = shape[:-1]
    return ArrV(shape, out) if shape else out[0]


def clip(it, a, lo=None, hi=None, out=None, **kw):
    arr = as_array(it, a)
    if arr is None:
        if hasattr(a, 'abs_ufunc'):
            if out is not None:
                it.write_check(out, 'arrwrite', 'numpy.clip(out=)')
            return a.abs_ufunc(it, 'clip', [lo, hi])
        return App('ext:numpy.clip', (I.freeze(a), I.freeze(lo), I.freeze(hi)))

    def one(x):
        if lo is not None:
            x = it.max(x, lo)
        if hi is not None:
            x = it.min(x, hi)
        return x
    vals = [one(x) for x in arr.flat()]
    if out is not None:
        it.write_check(out, 'arrwrite', 'numpy.clip(out=)')
        for j, x in zip(out.idx, vals):
            out.store[j] = x
        return out
    r = ArrV(arr.shape, vals)
    return r.flat()[0] if r.shape == () else r


@model('numpy.clip')
def m_clip(it, a, k):
    return clip(it, *a, **k)


@model('numpy.array', 'numpy.asarray', 'numpy.asanyarray')
def m_array(it, a, k):
    v = a[0]
    if isinstance(v, MatV):
        return v
    if isinstance(v, AffineV):
        return MatV(v.aff)
    if hasattr(v, 'abs_asarray'):
        return v.abs_asarray(it)
    if isinstance(v, ArrV):
        return v
    r = as_array(it, v)
    if r is None:
        if isinstance(v, (tuple, I.ListV)):
            for x in (v if isinstance(v, tuple) else v.items):
                if x is None or isinstance(x, Sym) and x.nullable and it.is_none(x):
                    raise I.Unsupported('array of None')
        return App('ext:numpy.array', (I.freeze(v),))
    return r


@model('numpy.eye', 'numpy.identity')
def m_eye(it, a, k):
    if a and T.const_of(a[0]) == 3:
        return MatV(Aff())
    return App('ext:numpy.eye', tuple(I.freeze(x) for x in a))


@model('numpy.diag')
def m_diag(it, a, k):
    v = as_array(it, a[0])
    if v is not None and v.shape == (3,):
        f = v.flat()
        return ArrV((3, 3), [f[0], 0, 0, 0, f[1], 0, 0, 0, f[2]])
    return App('ext:numpy.diag', tuple(I.freeze(x) for x in a))


class CloseV:
    """Elementwise isclose of two arrays, waiting for all()."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    key = property(lambda self: 'isclose(%s,%s)' % (T.keyof(self.a), T.keyof(self.b)))

    def all_(self, it):
        return all_close(it, self.a, self.b)

    def abs_all(self, it):
        return self.all_(it)

    def abs_getattr(self, it, name):
        if name == 'all':
            return bi('all', lambda it, a, k: self.all_(it))
        return library_attr(it, self, name)


def to_aff(it, v):
    """The transform of a 3x3 matrix value, or None."""
    if isinstance(v, AffineV):
        return v.aff
    if isinstance(v, MatV):
        return v.aff
    if isinstance(v, ArrV) and v.shape == (3, 3):
        f = v.flat()
        if [T.const_of(x) for x in f[6:]] == [0, 0, 1]:
            # the elements of one symbolic word
            words = {}
            ok = True
            for n, x in enumerate(f[:6]):
                at = x.single_atom() if isinstance(x, Poly) else None
                if isinstance(at, App) and at.op == 'melem' and (at.args[1], at.args[2]) == (n // 3, n % 3):
                    words[at.args[0].key] = at.args[0]
                else:
                    ok = False
            if ok and len(words) == 1:
                return list(words.values())[0]
            return T.aff_matrix(tuple(f[:6]))
    if isinstance(v, ArrV) and v.shape == (2, 3):
        return to_aff(it, ArrV((3, 3), v.flat() + [0, 0, 1]))
    return None


def all_close(it, a, b):
    x, y = to_aff(it, a), to_aff(it, b)
    if x is not None and y is not None:
        return aff_close(it, x.inverse().compose(y))
    xs, ys = as_array(it, a), as_array(it, b)
    if xs is not None and ys is not None:
        shape = bshape(it, xs.shape, ys.shape)
        for p, q in zip(broadcast(it, xs, shape), broadcast(it, ys, shape)):
            if not it.truth(it.rel('==', p, q)):
                return False
        return True
    return App('allclose', (I.freeze(a), I.freeze(b)), 'bool')


def aff_close(it, aff, loose=False):
    aff = it.canon(aff)
    if not aff.word:
        return True
    m = aff.single_matrix()
    if m is not None:
        cs = [T.const_of(x) for x in m]
        if all(c is not None for c in cs):
            return all(abs(c - i) < 1e-8 for c, i in zip(cs, T.ID6))
        for x, i in zip(m, T.ID6):
            if it.proves('<', x, i) or it.proves('>', x, i):
                # strictly different; close only within the tolerance
                if not loose:
                    return False
    return App('aff_identity', (aff,), 'bool')


@model('numpy.isclose')
def m_isclose(it, a, k):
    x, y = a[0], a[1]
    if to_aff(it, x) is not None or to_aff(it, y) is not None:
        return CloseV(x, y)
    xs, ys = as_array(it, x), as_array(it, y)
    if xs is not None and ys is not None:
        if xs.shape == () and ys.shape == ():
            u, v = xs.flat()[0], ys.flat()[0]
            cu, cv = T.const_of(u), T.const_of(v)
            if cu is not None and cv is not None and not isinstance(cu, bool):
                cu, cv = float(cu), float(cv)
                return cu == cv or abs(cu - cv) <= float(k.get('atol', 1e-8)) + float(k.get('rtol', 1e-5)) * abs(cv)
            return it.rel('==', xs.flat()[0], ys.flat()[0])
        return CloseV(x, y)
    return App('isclose', (I.freeze(x), I.freeze(y)), 'bool')


@model('numpy.allclose', 'numpy.array_equal')
def m_allclose(it, a, k):
    return all_close(it, a[0], a[1])


@model('numpy.all')
def m_npall(it, a, k):
    v = a[0]
    if hasattr(v, 'abs_all'):
        return v.abs_all(it)
    if isinstance(v, (ArrV, I.ListV, tuple)):
        return m_all(it, [v], {})
    if isinstance(v, (bool, App, Sym)):
        return v
    raise I.Unsupported('np.all')


@model('numpy.any')
def m_npany(it, a, k):
    v = a[0]
    if isinstance(v, (ArrV, I.ListV, tuple)):
        return m_any(it, [v], {})
    if hasattr(v, 'abs_any'):
        return v.abs_any(it)
    return v


@model('numpy.maximum', 'numpy.minimum')
def m_maximum(it, a, k):
    raise I.Unsupported('numpy.maximum')


def _elementwise(op):
    def f(it, a, k):
        x, y = as_array(it, a[0]), as_array(it, a[1])
        if x is None or y is None:
            raise I.Unsupported('numpy.' + op)
        shape = bshape(it, x.shape, y.shape)
        r = ArrV(shape, [(it.max if op == 'max' else it.min)(p, q)
                         for p, q in zip(broadcast(it, x, shape), broadcast(it, y, shape))])
        return r.flat()[0] if shape == () else r
    return f


MODELS['numpy.maximum'] = _elementwise('max')
MODELS['numpy.minimum'] = _elementwise('min')


# ------------------------------------------------------------------ affine transforms

class AffineV:
    """A kwimage.Affine (never mutated by the package)."""

    def __init__(self, aff):
        self.aff = aff

    @property
    def key(self):
        return 'Affine' + self.aff.key

    def freeze(self):
        return self.aff

    def abs_truth(self, it):
        return True

    def abs_isinstance(self, it, c):
        if isinstance(c, I.ExtV):
            return c.name.split('.')[-1] in ('Affine', 'Matrix', 'Transform', 'Linear', 'Projective')
        return False

    def abs_equal(self, it, other):
        if isinstance(other, AffineV):
            return aff_close(it, self.aff.inverse().compose(other.aff))
        return False

    def abs_binop(self, it, op, other, swapped):
        if op != 'MatMult':
            return NotImplemented
        if isinstance(other, AffineV):
            o = other.aff
        else:
            o = to_aff(it, other)
            if o is None:
                return NotImplemented
        r = o.compose(self.aff) if swapped else self.aff.compose(o)
        return AffineV(r) if isinstance(other, AffineV) or not swapped else MatV(r)

    def abs_getattr(self, it, name):
        aff = it.canon(self.aff)
        if name == 'matrix':
            return MatV(aff)
        if name in ('inv',):
            return bi('inv', lambda it, a, k: AffineV(it.canon(self.aff).inverse()))
        if name == '__array__':
            return bi('__array__', lambda it, a, k: MatV(it.canon(self.aff)))
        if name == 'decompose':
            return bi('decompose', lambda it, a, k: decompose(it, it.canon(self.aff)))
        if name == 'concise':
            def concise(it, a, k):
                d = decompose(it, it.canon(self.aff))
                d.d['type'] = 'affine'
                return d
            return bi('concise', concise)
        if name == 'isclose_identity':
            return bi(name, lambda it, a, k: aff_close(it, it.canon(self.aff), True))
        if name == 'det':
            def det(it, a, k):
                aff = it.canon(self.aff)
                e = [aff.elem(i, j) for i in range(2) for j in range(2)]
                return T.sub(T.mul(e[0], e[3]), T.mul(e[1], e[2]))
            return bi(name, det)
        if name == '__class__':
            return I.ExtV('kwimage.Affine')
        if name in ('rationalize', 'copy'):
            return bi(name, lambda it, a, k: self)
        if name == 'shape':
            return (3, 3)
        return I.AttrV(aff, name)


def decompose(it, aff):
    g = lambda n: T.decomp(n, aff)
    return I.DictV({'offset': (g('tx'), g('ty')), 'scale': (g('sx'), g('sy')),
                    'shearx': g('shearx'), 'theta': g('theta')})


class MatV:
    """The 3x3 numpy matrix of a transform."""

    def __init__(self, aff):
        self.aff = aff

    key = property(lambda self: 'Mat' + self.aff.key)

    def freeze(self):
        return self.aff

    def array(self):
        return ArrV((3, 3), [x for r in self.aff.rows() for x in r])

    def abs_is_none(self, it):
        return False

    def abs_binop(self, it, op, other, swapped):
        if op == 'MatMult':
            if isinstance(other, AffineV):
                o = other.aff
                return AffineV(o.compose(self.aff)) if swapped else MatV(self.aff.compose(o))
            if isinstance(other, MatV):
                return MatV(other.aff.compose(self.aff) if swapped else self.aff.compose(other.aff))
            o = to_aff(it, other)
            if o is not None and other.shape == (3, 3):
                return MatV(o.compose(self.aff) if swapped else self.aff.compose(o))
            o = as_array(it, other)
            if o is None:
                return NotImplemented
            return matmul(it, o, self.array()) if swapped else matmul(it, self.array(), o)
        return self.array().abs_binop(it, op, other, swapped)

    def abs_getitem(self, it, i):
        return MatV(it.canon(self.aff)).array().abs_getitem(it, i)

    def abs_iter(self, it):
        yield from MatV(it.canon(self.aff)).array().abs_iter(it)

    def abs_equal(self, it, other):
        return self.array().abs_equal(it, other)

    def abs_isinstance(self, it, c):
        return isinstance(c, I.ExtV) and c.name == 'numpy.ndarray'

    def abs_len(self, it):
        return 3

    def abs_getattr(self, it, name):
        if name in ('copy', 'astype'):
            return bi(name, lambda it, a, k: self)
        return MatV(it.canon(self.aff)).array().abs_getattr(it, name)


def pair(it, v, default):
    if v is None:
        return default
    if isinstance(v, ArrV):
        f = v.flat()
        return (f[0], f[0]) if len(f) == 1 else (f[0], f[1])
    if isinstance(v, (tuple, I.ListV)):
        f = list(v) if isinstance(v, tuple) else v.items
        if len(f) == 1:
            f = f * 2
        return (num(it, f[0]), num(it, f[1]))
    v = num(it, v)
    return (v, v)


def same_atom(x, op):
    x = x.single_atom() if isinstance(x, Poly) else None
    if isinstance(x, App) and x.op == op:
        return x.args[0]
    return None


def affine_params(it, scale=None, offset=None, theta=None, shearx=None, **kw):
    sx, sy = pair(it, scale, (1, 1))
    tx, ty = pair(it, offset, (0, 0))
    th = 0 if theta is None else num(it, theta)
    sh = 0 if shearx is None else num(it, shearx)
    if kw.get('about') is not None:
        raise I.Unsupported('affine about')
    if T.const_of(th) == 0 and T.const_of(sh) == 0:
        return T.aff_matrix((sx, 0, tx, 0, sy, ty))
    # the parameters of one transform give that transform
    src = [same_atom(v, 'dec_' + n) for v, n in ((sx, 'sx'), (sy, 'sy'), (th, 'theta'), (sh, 'shearx'))]
    if all(s is not None and s == src[0] for s in src):
        a = src[0]
        if T.keyof(tx) == T.keyof(a.elem(0, 2)) and T.keyof(ty) == T.keyof(a.elem(1, 2)):
            return a
    return T.aff_atom(App('aff_params', (sx, sy, th, sh, tx, ty), 'affine'))


@model('kwimage.Affine.affine')
def m_affine(it, a, k):
    if a:
        names = ['scale', 'offset', 'theta', 'shearx', 'about']
        k = dict(zip(names, a), **k)
    return AffineV(affine_params(it, **{n: v for n, v in k.items() if n in ('scale', 'offset', 'theta', 'shearx', 'about')}))


@model('kwimage.Affine.scale')
def m_aff_scale(it, a, k):
    v = a[0] if a else k.get('scale')
    if v is None:
        raise I.Unsupported('scale')
    sx, sy = pair(it, v, (1, 1))
    return AffineV(T.aff_scale(sx, sy))


@model('kwimage.Affine.translate')
def m_aff_translate(it, a, k):
    v = a[0] if a else k.get('offset')
    tx, ty = pair(it, v, (0, 0))
    return AffineV(T.aff_translate(tx, ty))


@model('kwimage.Affine.eye')
def m_aff_eye(it, a, k):
    return AffineV(Aff())


@model('kwimage.Affine.coerce', 'kwimage.Affine')
def m_aff_coerce(it, a, k):
    v = a[0] if a else None
    if not a and k:
        if 'matrix' in k:
            v = k['matrix']
        else:
            return m_affine(it, [], k)
    if v is None:
        return AffineV(Aff())
    if isinstance(v, AffineV):
        return v
    m = to_aff(it, v)
    if m is not None:
        return AffineV(m)
    if isinstance(v, I.DictV):
        if 'matrix' in v.d:
            return m_aff_coerce(it, [v.d['matrix']], {})
        bad = [x for x in v.d if x not in ('scale', 'offset', 'theta', 'shearx', 'type', 'about', 'shear')]
        if bad:
            raise I.Unsupported('affine params %s' % bad)
        return AffineV(affine_params(it, **{n: x for n, x in v.d.items() if n in ('scale', 'offset', 'theta', 'shearx', 'about')}))
    if isinstance(v, (Sym, App)):
        if isinstance(v, Sym) and v.nullable and it.is_none(v):
            return AffineV(Aff())
        return AffineV(T.aff_atom(v))
    raise I.Unsupported('Affine.coerce(%r)' % (v,))


# ------------------------------------------------------------------ boxes

class BoxesV(I.Heap):
    """Boxes / a Box in ltrb format; ``arr`` is the shared storage."""

    fmt = 'ltrb'

    def __init__(self, arr, single=False, fmt=None):
        self.arr = arr
        self.single = single
        if fmt is not None:
            self.fmt = fmt
        self.fresh_id()

    def col(self, i):
        return self.arr.flat()[i]

    def abs_len(self, it):
        return 1

    def out(self, v):
        return v if self.single else ArrV((1, 1), [v])

    def abs_getattr(self, it, name):
        x0, y0, x1, y1 = self.arr.flat()
        if name == 'data':
            if self.fmt == 'xywh':
                return ArrV(self.arr.shape, [x0, y0, T.sub(x1, x0), T.sub(y1, y0)])
            if self.fmt != 'ltrb':
                raise I.Unsupported('data of a box in an unknown format')
            return self.arr
        if name == 'width':
            return self.out(T.sub(x1, x0))
        if name == 'height':
            return self.out(T.sub(y1, y0))
        if name in ('tl_x', 'tl_y', 'br_x', 'br_y'):
            return self.out({'tl_x': x0, 'tl_y': y0, 'br_x': x1, 'br_y': y1}[name])
        if name == 'area':
            return self.out(T.mul(T.sub(x1, x0), T.sub(y1, y0)))
        if name == 'format':
            if self.fmt == '?':
                raise I.Unsupported('format of a box in an unknown format')
            return self.fmt
        if self.fmt != 'ltrb' and name not in ('to_ltrb', 'to_slices', 'to_slice', 'to_polygons', 'to_polygon',
                                               'warp', 'scale', 'translate'):
            raise I.Unsupported('Boxes.%s of a box in %s format' % (name, self.fmt))
        if name == 'dsize' and self.single:
            return (T.sub(x1, x0), T.sub(y1, y0))
        if name == 'to_ltrb':
            def to_ltrb(it, a, k):
                copy = a[0] if a else k.get('copy', True)
                return BoxesV(ArrV(self.arr.shape, self.arr.flat()), self.single) if copy or self.fmt != 'ltrb' else self
            return bi(name, to_ltrb)
        if name == 'quantize':
            def quantize(it, a, k):
                inplace = a[0] if a else k.get('inplace', False)
                vals = [T.rounding('floor', x0), T.rounding('floor', y0), T.rounding('ceil', x1), T.rounding('ceil', y1)]
                arr = ArrV(self.arr.shape, vals)
                if inplace:
                    self.arr = arr
                    return self
                return BoxesV(arr, self.single)
            return bi(name, quantize)
        if name == 'clip':
            def clipb(it, a, k):
                lim = dict(zip(('x_min', 'y_min', 'x_max', 'y_max'), a))
                lim.update({n: v for n, v in k.items() if n != 'inplace'})
                inplace = k.get('inplace', a[4] if len(a) > 4 else False)
                def c(v, lo, hi):
                    if lo is not None:
                        v = it.max(v, lo)
                    if hi is not None:
                        v = it.min(v, hi)
                    return v
                vals = [c(x0, lim.get('x_min'), lim.get('x_max')), c(y0, lim.get('y_min'), lim.get('y_max')),
                        c(x1, lim.get('x_min'), lim.get('x_max')), c(y1, lim.get('y_min'), lim.get('y_max'))]
                if inplace:
                    for j, v in zip(self.arr.idx, vals):
                        self.arr.store[j] = v
                    return self
                return BoxesV(ArrV(self.arr.shape, vals), self.single)
            return bi(name, clipb)
        if name == 'to_slices':
            return bi(name, lambda it, a, k: I.ListV([(I.SliceV(y0, y1), I.SliceV(x0, x1))]))
        if name == 'to_slice':
            return bi(name, lambda it, a, k: (I.SliceV(y0, y1), I.SliceV(x0, x1)))
        if name == 'to_polygons':
            return bi(name, lambda it, a, k: I.ListV([PolygonV([(x0, y0), (x0, y1), (x1, y1), (x1, y0)])]))
        if name == 'to_polygon':
            return bi(name, lambda it, a, k: PolygonV([(x0, y0), (x0, y1), (x1, y1), (x1, y0)]))
        if name in ('warp', 'scale', 'translate', 'pad', 'resize', 'intersection', 'bounding_box'):
            if name == 'warp':
                def warp(it, a, k):
                    p = PolygonV([(x0, y0), (x0, y1), (x1, y1), (x1, y0)]).warp(it, a[0])
                    b = p.box(it, self.arr.shape, self.single)
                    b.fmt = 'ltrb' if self.fmt == 'ltrb' else '?'
                    return b
                return bi(name, warp)
            if name in ('scale', 'translate'):
                def st(it, a, k):
                    u, v = pair(it, a[0], None)
                    f = T.mul if name == 'scale' else T.add
                    return BoxesV(ArrV(self.arr.shape, [f(x0, u), f(y0, v), f(x1, u), f(y1, v)]), self.single, self.fmt)
                return bi(name, st)
            raise I.Unsupported('Boxes.' + name)
        return library_attr(it, self, name)

    def abs_getitem(self, it, i):
        return self


class PolygonV:
    def __init__(self, pts):
        self.pts = pts

    key = property(lambda self: 'poly%s' % (tuple(T.keyof(x) for p in self.pts for x in p),))

    def warp(self, it, tf):
        aff = to_aff(it, tf)
        if aff is None:
            raise I.Unsupported('polygon warp')
        aff = it.canon(aff)
        e = [[aff.elem(i, j) for j in range(3)] for i in range(2)]
        f = lambda r, p: T.add(T.add(T.mul(r[0], p[0]), T.mul(r[1], p[1])), r[2])
        return PolygonV([(f(e[0], p), f(e[1], p)) for p in self.pts])

    def box(self, it, shape=(4,), single=True):
        xs = [p[0] for p in self.pts]
        ys = [p[1] for p in self.pts]
        return BoxesV(ArrV(shape, [it.min(*xs), it.min(*ys), it.max(*xs), it.max(*ys)]), single)

    def abs_getattr(self, it, name):
        if name == 'warp':
            return bi(name, lambda it, a, k: self.warp(it, a[0]))
        if name in ('box', 'bounding_box'):
            return bi(name, lambda it, a, k: self.box(it))
        if name == 'to_boxes':
            return bi(name, lambda it, a, k: self.box(it, (1, 4), False))
        if name == 'exterior':
            return self
        if name == 'data':
            return ArrV((len(self.pts), 2), [x for p in self.pts for x in p])
        if name == 'scale':
            def sc(it, a, k):
                u, v = pair(it, a[0], None)
                return PolygonV([(T.mul(p[0], u), T.mul(p[1], v)) for p in self.pts])
            return bi(name, sc)
        if name == 'translate':
            def tr(it, a, k):
                u, v = pair(it, a[0], None)
                return PolygonV([(T.add(p[0], u), T.add(p[1], v)) for p in self.pts])
            return bi(name, tr)
        return library_attr(it, self, name)


@model('kwimage.Boxes.from_slice', 'kwimage.Box.from_slice')
def m_from_slice(it, a, k):
    names = ['slices', 'shape', 'clip', 'endpoint', 'wrap']
    kw = dict(zip(names, a))
    kw.update(k)
    sl, shape = kw.get('slices'), kw.get('shape')
    doclip, wrap = kw.get('clip', True), kw.get('wrap', False)
    if sl is None:
        sl = (I.SliceV(None, None), I.SliceV(None, None))
    sl = unslice(it, sl)
    h = w = None
    if shape is not None:
        h, w = list(it.iterate(shape))[0:2]
    ends = []
    for s, n in ((sl[0], h), (sl[1], w)):
        a0 = 0 if s.start is None else it.asnum(s.start)
        b0 = it.asnum(s.stop)
        if isinstance(a0, Sym) and a0.nullable or isinstance(b0, Sym) and b0.nullable:
            a0, b0 = sl_bound(it, a0, 0), sl_bound(it, b0, n)
        if b0 is None:
            if n is None:
                raise I.AbsRaise(Exception, ('shape required for unbounded slices',), it.site(), True)
            b0 = n
        if wrap:
            if it.truth(it.rel('<', b0, 0)):
                b0 = T.add(n, b0)
            if it.truth(it.rel('<', a0, 0)):
                a0 = T.add(n, a0)
        if doclip:
            a0 = it.max(a0, 0)
        if doclip:
            b0 = it.max(a0, b0)
        elif it.truth(it.rel('>', a0, b0)):
            it.raise_('ValueError', 'Invalid slice')
        if doclip and n is not None:
            a0 = it.max(it.min(a0, n), 0)
            b0 = it.max(it.min(b0, n), 0)
        ends.append((a0, b0))
    (y0, y1), (x0, x1) = ends
    return BoxesV(ArrV((1, 4), [x0, y0, x1, y1]))


def sl_bound(it, v, default):
    if isinstance(v, Sym) and v.nullable:
        return default if it.is_none(v) else T.to_poly(v)
    return v


def unslice(it, sl):
    out = []
    if isinstance(sl, I.SliceV):
        sl = (sl,)
    for s in it.iterate(sl):
        if not isinstance(s, I.SliceV):
            raise I.Unsupported('slice %r' % (s,))
        out.append(s)
    while len(out) < 2:
        out.append(I.SliceV(None, None))
    return out


@model('kwimage.Boxes')
def m_boxes(it, a, k):
    fmt = a[1] if len(a) > 1 else k.get('format')
    arr = as_array(it, a[0])
    if arr is None or arr.size() != 4:
        raise I.Unsupported('Boxes')
    f = arr.flat()
    if fmt == 'ltrb':
        return BoxesV(arr if arr.shape == (1, 4) else ArrV((1, 4), f))
    if fmt == 'xywh':
        return BoxesV(ArrV((1, 4), [f[0], f[1], T.add(f[0], f[2]), T.add(f[1], f[3])]), fmt='xywh')
    raise I.Unsupported('Boxes ' + str(fmt))


@model('kwarray.embed_slice')
def m_embed_slice(it, a, k):
    names = ['slices', 'data_dims', 'pad']
    kw = dict(zip(names, a))
    kw.update(k)
    sls = list(it.iterate(kw['slices']))
    dims = [it.asnum(x) for x in it.iterate(kw['data_dims'])]
    pad = kw.get('pad')
    n = len(dims)
    if len(sls) != n:
        it.raise_('ValueError', 'slices and data_dims must have the same length')
    if pad is None:
        pads = [(0, 0)] * n
    elif T.isnum(pad) or isinstance(pad, (Sym, App)):
        p = num(it, pad)
        pads = [(p, p)] * n
    else:
        pads = []
        for p in it.iterate(pad):
            if T.isnum(p) or isinstance(p, (Sym, App)):
                pads.append((num(it, p),) * 2)
            else:
                pads.append(tuple(num(it, q) for q in it.iterate(p)))
    out, extra = [], []
    for s, d, (p0, p1) in zip(sls, dims, pads):
        lo = sl_bound(it, 0 if s.start is None else it.asnum(s.start), 0)
        hi = sl_bound(it, d if s.stop is None else it.asnum(s.stop), d)
        if it.truth(it.rel('>', lo, hi)):
            it.raise_('ValueError', 'd_low > d_high')
        rl, rh = T.sub(lo, p0), T.add(hi, p1)
        sl_lo = it.min(d, it.max(0, rl))
        sl_hi = it.min(d, it.max(0, rh))
        ld, hd = T.sub(sl_lo, rl), T.sub(rh, sl_hi)
        el = it.max(0, T.add(ld, it.min(0, hd)))
        eh = it.max(0, T.add(hd, it.min(0, ld)))
        out.append(I.SliceV(sl_lo, sl_hi))
        extra.append((el, eh))
    return (tuple(out), I.ListV(extra))


@model('kwarray.FlatIndexer')
def m_flatindexer(it, a, k):
    return FlatIndexerV([num(it, x) for x in it.iterate(a[0])])


class FlatIndexerV:
    def __init__(self, lens):
        self.lens = lens

    key = property(lambda self: 'flatindexer%s' % (tuple(T.keyof(x) for x in self.lens),))

    def abs_getattr(self, it, name):
        if name == 'unravel':
            def unravel(it, a, k):
                idx = num(it, a[0])
                base = 0
                if it.truth(it.rel('<', idx, 0)):
                    raise I.Unsupported('negative flat index')
                for i, n in enumerate(self.lens):
                    nxt = T.add(base, n)
                    if it.truth(it.rel('<', idx, nxt)):
                        return (i, T.sub(idx, base))
                    base = nxt
                it.raise_('IndexError', 'flat index is out of bounds')
            return bi(name, unravel)
        if name == 'ravel':
            def ravel(it, a, k):
                o = T.const_of(a[0])
                base = 0
                for n in self.lens[:int(o)]:
                    base = T.add(base, n)
                return T.add(base, num(it, a[1]))
            return bi(name, ravel)
        return library_attr(it, self, name)


# ------------------------------------------------------------------ ubelt

@model('ubelt.dict_isect', 'ubelt.dict_subset')
def m_dict_isect(it, a, k):
    d, keys = a[0], a[1]
    if not isinstance(d, I.DictV):
        raise I.Unsupported('dict_isect')
    want = list(it.iterate(keys))
    if isinstance(keys, (I.DictV, I.SetV)):
        return I.DictV({n: v for n, v in d.d.items() if n in want})
    return I.DictV({n: v for n, v in d.d.items() if n in want})


@model('ubelt.dict_diff')
def m_dict_diff(it, a, k):
    keys = set()
    for x in a[1:]:
        keys.update(it.iterate(x))
    return I.DictV({n: v for n, v in a[0].d.items() if n not in keys})


@model('ubelt.dict_union')
def m_dict_union(it, a, k):
    out = I.DictV()
    for x in a:
        out.d.update(x.d)
    return out


@model('ubelt.compatible')
def m_compatible(it, a, k):
    d, f = a[0], a[1]
    while isinstance(f, (I.BoundV, I.StaticV)):
        f = f.func if isinstance(f, I.BoundV) else f.f
    if not isinstance(f, I.FuncV):
        raise I.Unsupported('compatible')
    args = f.node.args
    names = [x.arg for x in args.posonlyargs + args.args + args.kwonlyargs]
    if args.kwarg is not None:
        return I.DictV(dict(d.d))
    return I.DictV({n: v for n, v in d.d.items() if n in names})


@model('ubelt.take')
def m_take(it, a, k):
    d, idx = a[0], a[1]
    if isinstance(d, I.DictV):
        if len(a) > 2 or 'default' in k:
            df = a[2] if len(a) > 2 else k['default']
            return I.IterV([d.d.get(x, df) for x in it.iterate(idx)])
        return I.IterV([it.getitem(d, x) for x in it.iterate(idx)])
    if isinstance(idx, (Sym, App)) or isinstance(d, (Sym, App)):
        return App('take', (I.freeze(d), I.freeze(idx)), 'list')
    return I.IterV([it.getitem(d, x) for x in it.iterate(idx)])


@model('ubelt.iter_window')
def m_iter_window(it, a, k):
    n = a[1] if len(a) > 1 else k.get('size', 2)
    xs = list(it.iterate(a[0]))
    return I.IterV([tuple(xs[i:i + n]) for i in range(len(xs) - n + 1)])


@model('ubelt.flatten')
def m_flatten(it, a, k):
    return m_chain_from(it, a, k)


@model('ubelt.allsame')
def m_allsame(it, a, k):
    xs = list(it.iterate(a[0]))
    for x in xs[1:]:
        if not it.truth(it.equal(xs[0], x)):
            return False
    return True


@model('ubelt.unique')
def m_unique(it, a, k):
    return I.IterV(list(dict.fromkeys(it.iterate(a[0]))))


@model('ubelt.peek')
def m_peek(it, a, k):
    for x in it.iterate(a[0]):
        return x
    it.raise_('StopIteration')


@model('ubelt.iterable')
def m_iterable(it, a, k):
    v = a[0]
    if isinstance(v, Sym) and v.nullable and it.is_none(v):
        return False
    if isinstance(v, (tuple, I.ListV, I.DictV, I.SetV, I.IterV, I.RangeV, SymRange, MapV)):
        return True
    if isinstance(v, ArrV):
        return v.shape != ()
    if isinstance(v, str):
        return bool(k.get('strok', False))
    if v is None or T.isnum(v):
        return False
    if isinstance(v, (Sym, App)):
        if v.typ in ('list', 'tuple'):
            return True
        if v.typ in ('int', 'float', 'bool', 'str'):
            return False
        return App('iterable', (v,), 'bool')
    if hasattr(v, 'abs_iter'):
        return True
    return False


@model('ubelt.paragraph', 'ubelt.codeblock', 'ubelt.urepr', 'ubelt.repr2', 'textwrap.dedent', 'ubelt.indent', 'ubelt.color_text')
def m_text(it, a, k):
    return App('text', (), 'str')


@model('ubelt.Path')
def m_path(it, a, k):
    return App('ext:ubelt.Path', tuple(I.freeze(x) for x in a))


@model('ubelt.cmd')
def m_cmd(it, a, k):
    return App('ext:ubelt.cmd', tuple(I.freeze(x) for x in a))


@model('warnings.warn')
def m_warn(it, a, k):
    it.events.append(('warn', it.site()))


@model('sys.modules')
def _sysmodules(it, a, k):
    return None


MODELS['sys.modules'] = App('sys.modules')


@model('os.environ.get')
def m_environ_get(it, a, k):
    return App('environ', tuple(I.freeze(x) for x in a), 'str')


@model('os.getenv')
def m_getenv(it, a, k):
    return App('environ', tuple(I.freeze(x) for x in a), 'str')


# ------------------------------------------------------------------ methods of values

def value_method(it, o, name):
    if isinstance(o, Sym) and o.nullable and not it.is_none(o) and o.typ == 'any':
        return None
    if isinstance(o, I.ListV):
        f = LIST.get(name)
    elif isinstance(o, tuple):
        if isinstance(o, NTupleV):
            r = ntuple_attr(it, o, name)
            if r is not None:
                return r
        f = TUPLE.get(name)
    elif isinstance(o, I.DictV):
        f = DICT.get(name)
    elif isinstance(o, I.SetV):
        f = SET.get(name)
    elif isinstance(o, str):
        f = str_method(name)
    elif isinstance(o, I.SliceV):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        if name == 'indices':
            def indices(it, a, k):
                n = num(it, a[0])
                vals = [T.const_of(x) if T.isnum(x) else None if x is not None else x for x in (o.start, o.stop, o.step)]
                cn = T.const_of(n)
                raw = (o.start, o.stop, o.step)
                if cn is not None and all(x is None or T.isnum(x) and T.const_of(x) is not None for x in raw):
                    s = slice(*[None if x is None else T.const_of(x) for x in raw])
                    return tuple(s.indices(cn))
                return tuple(T.to_poly(App('slice_' + w, (I.freeze(o), n), 'int')) for w in ('start', 'stop', 'step'))
            return bi('indices', indices)
        f = None
    elif isinstance(o, Poly) or isinstance(o, (int, float, Fraction)):
        if name == 'is_integer':
            return bi(name, lambda it, a, k: T.is_int_val(o) if T.const_of(o) is not None else App('is_integer', (I.freeze(o),), 'bool'))
        if name in ('real', 'numerator'):
            return o
        if name == 'ravel':
            return bi(name, lambda it, a, k: ArrV((1,), [o]))
        if name in ('item', 'tolist'):
            return bi(name, lambda it, a, k: o)
        if name == 'astype':
            return bi(name, lambda it, a, k: o)
        f = None
    elif isinstance(o, I.IterV):
        f = None
    elif isinstance(o, App) and o.op == 'sys.modules':
        f = None
    elif isinstance(o, (App, Sym)) and o.typ == 'str':
        f = SYMSTR.get(name)
    else:
        return None
    if f is None:
        return None
    return I.BoundV(I.BuiltinV(name, f), o)


def _lw(kind):
    return kind


def l_append(it, a, k):
    it.write_check(a[0], 'write', '.append')
    a[0].items.append(a[1])


def l_extend(it, a, k):
    it.write_check(a[0], 'write', '.extend')
    if isinstance(a[1], (App, Sym, I.AttrV)):
        a[0].items.append(App('splat', (I.freeze(a[1]),)))
        return
    a[0].items.extend(list(it.iterate(a[1])))


def l_insert(it, a, k):
    it.write_check(a[0], 'write', '.insert')
    a[0].items.insert(int(T.const_of(a[1])), a[2])


def l_pop(it, a, k):
    it.write_check(a[0], 'write', '.pop')
    try:
        return a[0].items.pop(*[int(T.const_of(x)) for x in a[1:]])
    except IndexError:
        it.raise_('IndexError', 'pop from empty list')


def l_index(it, a, k):
    items = a[0].items if isinstance(a[0], I.ListV) else a[0]
    for i, x in enumerate(items):
        if it.truth(it.equal(x, a[1])):
            return i
    it.raise_('ValueError', 'not in list')


def l_reverse(it, a, k):
    it.write_check(a[0], 'write', '.reverse')
    a[0].items.reverse()


def l_clear(it, a, k):
    it.write_check(a[0], 'write', '.clear')
    a[0].items.clear()


def l_remove(it, a, k):
    it.write_check(a[0], 'write', '.remove')
    del a[0].items[l_index(it, a, k)]


def l_sort(it, a, k):
    it.write_check(a[0], 'write', '.sort')
    a[0].items = m_sorted(it, [a[0]], k).items


LIST = {
    'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'index': l_index,
    'reverse': l_reverse, 'clear': l_clear, 'remove': l_remove, 'sort': l_sort,
    'copy': lambda it, a, k: I.ListV(a[0].items),
    'count': lambda it, a, k: sum(1 for x in a[0].items if it.truth(it.equal(x, a[1]))),
}
TUPLE = {'index': l_index, 'count': lambda it, a, k: sum(1 for x in a[0] if it.truth(it.equal(x, a[1])))}


def d_find(it, d, key):
    if isinstance(key, (Sym, App)) and key not in d.d:
        for x in d.d:
            if it.truth(it.equal(key, x)):
                return x
        return None
    try:
        return key if key in d.d else None
    except TypeError:
        it.raise_('TypeError', 'unhashable')


_MISS = object()


def d_get(it, a, k):
    d = a[0]
    x = d_find(it, d, a[1])
    if x is not None:
        return d.d[x]
    return a[2] if len(a) > 2 else k.get('default')


def d_pop(it, a, k):
    d = a[0]
    it.write_check(d, 'write', '.pop(%s)' % (a[1],))
    x = d_find(it, d, a[1])
    if x is not None:
        return d.d.pop(x)
    if len(a) > 2:
        return a[2]
    it.raise_('KeyError', a[1])


def d_update(it, a, k):
    d = a[0]
    it.write_check(d, 'write', '.update')
    if len(a) > 1:
        if isinstance(a[1], I.DictV):
            d.d.update(a[1].d)
        else:
            for x in it.iterate(a[1]):
                kk, v = list(it.iterate(x))
                d.d[kk] = v
    d.d.update(k)


def d_setdefault(it, a, k):
    d = a[0]
    x = d_find(it, d, a[1])
    if x is None:
        it.write_check(d, 'write', '.setdefault')
        d.d[a[1]] = a[2] if len(a) > 2 else None
        x = a[1]
    return d.d[x]


def d_clear(it, a, k):
    it.write_check(a[0], 'write', '.clear')
    a[0].d.clear()


DICT = {
    'get': d_get, 'pop': d_pop, 'update': d_update, 'setdefault': d_setdefault, 'clear': d_clear,
    'keys': lambda it, a, k: I.SetV(list(a[0].d), ordered=True),
    'values': lambda it, a, k: I.ListV(list(a[0].d.values())),
    'items': lambda it, a, k: I.ListV(list(a[0].d.items())),
    'copy': lambda it, a, k: I.DictV(a[0].d),
    'union': lambda it, a, k: m_dict_union(it, a, k),
    'peek_key': lambda it, a, k: m_peek(it, a, k),
    'peek_value': lambda it, a, k: list(a[0].d.values())[0],
}


def s_add(it, a, k):
    it.write_check(a[0], 'write', '.add')
    a[0].d[it.hashable(a[1])] = None


def s_update(it, a, k):
    it.write_check(a[0], 'write', '.update')
    for x in a[1:]:
        for y in it.iterate(x):
            a[0].d[y] = None


def s_discard(it, a, k):
    it.write_check(a[0], 'write', '.discard')
    a[0].d.pop(a[1], None)


def s_index(it, a, k):
    for i, x in enumerate(a[0].d):
        if it.truth(it.equal(x, a[1])):
            return i
    it.raise_('KeyError', a[1])


def _sop(op):
    def f(it, a, k):
        r = a[0]
        for x in a[1:]:
            if not isinstance(x, (I.SetV, I.DictV)):
                x = I.SetV(list(it.iterate(x)))
            r = it.binop(op, r, x)
        return r
    return f


SET = {
    'add': s_add, 'update': s_update, 'discard': s_discard, 'index': s_index,
    'remove': s_discard, 'union': _sop('BitOr'), 'intersection': _sop('BitAnd'),
    'difference': _sop('Sub'), 'copy': lambda it, a, k: I.SetV(list(a[0].d), ordered=a[0].ordered),
    'issubset': lambda it, a, k: it.compare('LtE', a[0], a[1]),
    'issuperset': lambda it, a, k: it.compare('GtE', a[0], a[1]),
    'pop': lambda it, a, k: a[0].d.popitem()[0],
    'append': s_add,
    'symmetric_difference': _sop('BitXor'),
    'isdisjoint': lambda it, a, k: not any(it.contains(a[0], x) for x in it.iterate(a[1])),
}


def s_setop(op):
    def f(it, a, k):
        it.write_check(a[0], 'write', '.%s=' % op)
        a[0].d = _sop(op)(it, a, k).d
    return f


SET.update(difference_update=s_setop('Sub'), intersection_update=s_setop('BitAnd'), symmetric_difference_update=s_setop('BitXor'))


def d_popitem(it, a, k):
    it.write_check(a[0], 'write', '.popitem')
    if not a[0].d:
        it.raise_('KeyError', 'empty')
    last = a[1] if len(a) > 1 else k.get('last', True)
    key = list(a[0].d)[-1 if it.truth(last) else 0]
    return (key, a[0].d.pop(key))


def d_move_to_end(it, a, k):
    it.write_check(a[0], 'write', '.move_to_end')
    last = a[2] if len(a) > 2 else k.get('last', True)
    v = a[0].d.pop(a[1])
    if it.truth(last):
        a[0].d[a[1]] = v
    else:
        rest = dict(a[0].d)
        a[0].d.clear()
        a[0].d[a[1]] = v
        a[0].d.update(rest)


DICT.update({
    'sorted_keys': lambda it, a, k: I.DictV({n: a[0].d[n] for n in m_sorted(it, [I.ListV(list(a[0].d))], k).items}),
    'popitem': d_popitem, 'move_to_end': d_move_to_end,
    'map_values': lambda it, a, k: I.DictV({n: it.call(a[1], [v], {}) for n, v in a[0].d.items()}),
    'map_keys': lambda it, a, k: I.DictV({it.hashable(it.call(a[1], [n], {})): v for n, v in a[0].d.items()}),
    'subdict': lambda it, a, k: I.DictV({n: it.getitem(a[0], n) for n in it.iterate(a[1])}),
    'take': lambda it, a, k: m_take(it, a, k),
    'intersection': lambda it, a, k: m_dict_isect(it, a, k),
    'difference': lambda it, a, k: m_dict_diff(it, a, k),
    '__contains__': lambda it, a, k: it.contains(a[0], a[1]),
    '__getitem__': lambda it, a, k: it.getitem(a[0], a[1]),
    '__setitem__': lambda it, a, k: it.setitem(a[0], a[1], a[2]),
})
for _t in (LIST, TUPLE):
    _t['__getitem__'] = lambda it, a, k: it.getitem(a[0], a[1])
    _t['__len__'] = lambda it, a, k: m_len(it, a, k)
    _t['__contains__'] = lambda it, a, k: it.contains(a[0], a[1])
LIST.update({
    'popleft': lambda it, a, k: l_pop(it, [a[0], 0], k),
    'appendleft': lambda it, a, k: l_insert(it, [a[0], 0, a[1]], k),
})


# ------------------------------------------------------------------ the standard library

class PartialV:
    """functools.partial"""
    key = 'partial'

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, tuple(args), dict(kwargs)

    def freeze(self):
        return App('partial', (I.freeze(self.f),) + tuple(I.freeze(x) for x in self.args) + I.freeze_kw(self.kwargs))

    def abs_call(self, it, a, k):
        return it.call(self.f, list(self.args) + list(a), {**self.kwargs, **k})

    def abs_truth(self, it):
        return True

    def abs_is_none(self, it):
        return False

    def abs_getattr(self, it, name):
        if name in ('func', 'args', 'keywords'):
            return {'func': self.f, 'args': self.args, 'keywords': I.DictV(self.kwargs)}[name]
        raise I.Unsupported('partial.' + name)


MODELS['functools.partial'] = lambda it, a, k: PartialV(a[0], a[1:], k)


@model('functools.reduce')
def m_reduce(it, a, k):
    xs = list(it.iterate(a[1]))
    if len(a) > 2:
        acc = a[2]
    elif xs:
        acc = xs.pop(0)
    else:
        it.raise_('TypeError', 'reduce() of empty iterable with no initial value')
    for x in xs:
        acc = it.call(a[0], [acc, x], {})
    return acc


class SuppressV:
    """contextlib.suppress and nullcontext"""
    key = 'context'

    def __init__(self, excs, value=None):
        self.excs, self.value = excs, value

    def freeze(self):
        return App('context')

    def abs_enter(self, it):
        return self.value

    def abs_exit(self, it, ex):
        return ex is not None and any(it.exc_subclass(ex.exc, c) for c in self.excs)


MODELS['contextlib.suppress'] = lambda it, a, k: SuppressV(a)
MODELS['contextlib.nullcontext'] = lambda it, a, k: SuppressV([], a[0] if a else None)


def _op(name):
    def f(it, a, k):
        return it.binop(name, a[0], a[1])
    return f


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('and_', 'BitAnd'),
               ('or_', 'BitOr'), ('xor', 'BitXor'), ('pow', 'Pow'), ('matmul', 'MatMult')):
    MODELS['operator.' + _n] = _op(_o)
for _n, _o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('is_', 'Is'), ('is_not', 'IsNot')):
    MODELS['operator.' + _n] = (lambda o: lambda it, a, k: it.compare(o, a[0], a[1]))(_o)
MODELS['operator.not_'] = lambda it, a, k: not it.truth(a[0])
MODELS['operator.truth'] = lambda it, a, k: it.truth(a[0])
MODELS['operator.neg'] = lambda it, a, k: T.neg(num(it, a[0]))
MODELS['operator.contains'] = lambda it, a, k: it.contains(a[0], a[1])
MODELS['operator.getitem'] = lambda it, a, k: it.getitem(a[0], a[1])
MODELS['operator.concat'] = _op('Add')


@model('operator.itemgetter')
def m_itemgetter(it, a, k):
    if len(a) == 1:
        return bi('itemgetter', lambda it, b, k: it.getitem(b[0], a[0]))
    return bi('itemgetter', lambda it, b, k: tuple(it.getitem(b[0], x) for x in a))


@model('operator.attrgetter')
def m_attrgetter(it, a, k):
    def get(it, o, path):
        for n in path.split('.'):
            o = it.getattr(o, n)
        return o
    if len(a) == 1:
        return bi('attrgetter', lambda it, b, k: get(it, b[0], a[0]))
    return bi('attrgetter', lambda it, b, k: tuple(get(it, b[0], x) for x in a))


@model('operator.methodcaller')
def m_methodcaller(it, a, k):
    return bi('methodcaller', lambda it, b, kk: it.call(it.getattr(b[0], a[0]), list(a[1:]), k))


def _combi(name):
    def f(it, a, k):
        import itertools
        args = [list(it.iterate(a[0]))] + [int(concrete(x)) for x in a[1:]]
        return I.IterV(list(getattr(itertools, name)(*args)))
    return f


for _n in ('combinations', 'permutations', 'combinations_with_replacement'):
    MODELS['itertools.' + _n] = _combi(_n)


@model('itertools.accumulate')
def m_accumulate(it, a, k):
    xs = list(it.iterate(a[0]))
    f = a[1] if len(a) > 1 else k.get('func')
    if k.get('initial') is not None:
        xs.insert(0, k['initial'])
    out = []
    for x in xs:
        out.append(x if not out else it.call(f, [out[-1], x], {}) if f is not None else it.binop('Add', out[-1], x))
    return I.IterV(out)


@model('itertools.islice')
def m_islice(it, a, k):
    import itertools
    if hasattr(a[0], 'abs_next'):
        raise I.Unsupported('islice')
    return I.IterV(list(itertools.islice(list(it.iterate(a[0])), *[None if x is None else int(concrete(x)) for x in a[1:]])))


@model('itertools.starmap')
def m_starmap(it, a, k):
    return I.IterV([it.call(a[0], list(it.iterate(x)), {}) for x in it.iterate(a[1])])


@model('itertools.takewhile')
def m_takewhile(it, a, k):
    out = []
    for x in it.iterate(a[1]):
        if not it.truth(it.call(a[0], [x], {})):
            break
        out.append(x)
    return I.IterV(out)


@model('itertools.dropwhile')
def m_dropwhile(it, a, k):
    out, on = [], False
    for x in it.iterate(a[1]):
        on = on or not it.truth(it.call(a[0], [x], {}))
        if on:
            out.append(x)
    return I.IterV(out)


@model('itertools.filterfalse')
def m_filterfalse(it, a, k):
    return I.IterV([x for x in it.iterate(a[1]) if not it.truth(x if a[0] is None else it.call(a[0], [x], {}))])


@model('itertools.compress')
def m_compress(it, a, k):
    return I.IterV([x for x, y in zip(it.iterate(a[0]), it.iterate(a[1])) if it.truth(y)])


@model('itertools.repeat')
def m_repeat(it, a, k):
    n = a[1] if len(a) > 1 else k.get('times')
    if n is None or T.const_of(n) is None:
        raise I.Unsupported('repeat')
    return I.IterV([a[0]] * int(T.const_of(n)))


@model('itertools.tee')
def m_tee(it, a, k):
    xs = list(it.iterate(a[0]))
    return tuple(I.IterV(list(xs)) for _ in range(a[1] if len(a) > 1 else 2))


@model('itertools.groupby')
def m_groupby(it, a, k):
    f = a[1] if len(a) > 1 else k.get('key')
    out = []
    for x in it.iterate(a[0]):
        q = x if f is None else it.call(f, [x], {})
        if out and it.truth(it.equal(out[-1][0], q)):
            out[-1][1].items.append(x)
        else:
            out.append((q, I.IterV([x])))
    return I.IterV(out)


@model('ubelt.map_values', 'ubelt.map_vals')
def m_map_values(it, a, k):
    return I.DictV({n: it.call(a[0], [v], {}) for n, v in a[1].d.items()})


@model('ubelt.map_keys')
def m_map_keys(it, a, k):
    return I.DictV({it.hashable(it.call(a[0], [n], {})): v for n, v in a[1].d.items()})


@model('ubelt.dzip')
def m_dzip(it, a, k):
    xs, ys = list(it.iterate(a[0])), list(it.iterate(a[1]))
    if len(ys) == 1:
        ys = ys * len(xs)
    if len(xs) != len(ys):
        it.raise_('ValueError', 'dzip')
    return I.DictV(dict(zip(map(it.hashable, xs), ys)))


@model('ubelt.argmax', 'ubelt.argmin')
def m_argmax(it, a, k):
    raise I.Unsupported('argmax')


@model('ubelt.chunks')
def m_chunks(it, a, k):
    n = a[1] if len(a) > 1 else k.get('chunksize')
    if not isinstance(n, int):
        raise I.Unsupported('chunks')
    xs = list(it.iterate(a[0]))
    return I.IterV([I.ListV(xs[i:i + n]) for i in range(0, len(xs), n)])


@model('ubelt.group_items')
def m_group_items(it, a, k):
    d = I.DictV()
    for x in it.iterate(a[0]):
        d.d.setdefault(it.hashable(it.call(a[1], [x], {})), I.ListV([])).items.append(x)
    return d


@model('ubelt.invert_dict')
def m_invert(it, a, k):
    return I.DictV({it.hashable(v): n for n, v in a[0].d.items()})


MODELS['ubelt.identity'] = lambda it, a, k: a[0] if a else None


@model('collections.deque')
def m_deque(it, a, k):
    if k.get('maxlen') is not None or len(a) > 1:
        raise I.Unsupported('deque')
    return I.ListV(list(it.iterate(a[0])) if a else [])


@model('collections.Counter')
def m_counter(it, a, k):
    d = DefaultDictV(I.BuiltinV('zero', lambda it, a, k: 0))
    for x in it.iterate(a[0]) if a else ():
        q = it.hashable(x)
        d.d[q] = d.d.get(q, 0) + 1
    return d


@model('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys', 'ubelt.odict.fromkeys')
def m_fromkeys(it, a, k):
    return I.DictV({it.hashable(x): a[1] if len(a) > 1 else None for x in it.iterate(a[0])})


class NTupleV(tuple):
    """An instance of a named tuple."""
    fields = ()
    cls = None


class NTupleCls:
    def __init__(self, name, fields, defaults=()):
        self.name, self.fields, self.defaults = name, fields, defaults
        self.key = 'namedtuple:' + name

    def freeze(self):
        return App('namedtuple', (self.name,))

    def abs_call(self, it, a, k):
        vals = list(a)
        for i, f in enumerate(self.fields[len(vals):], len(vals)):
            j = i - (len(self.fields) - len(self.defaults))
            if f in k:
                vals.append(k[f])
            elif j >= 0:
                vals.append(self.defaults[j])
            else:
                it.raise_('TypeError', 'missing argument ' + f)
        if len(vals) > len(self.fields) or any(f not in self.fields for f in k):
            it.raise_('TypeError', 'unexpected argument')
        return self.make(vals)

    def make(self, vals):
        t = NTupleV(vals)
        t.fields, t.cls = self.fields, self
        return t

    def abs_getattr(self, it, name):
        if name == '_fields':
            return tuple(self.fields)
        if name == '__name__':
            return self.name
        if name == '_make':
            return bi(name, lambda it, a, k: self.make(list(it.iterate(a[0]))))
        raise I.Unsupported('namedtuple.' + name)

    def abs_instancecheck(self, it, v):
        return isinstance(v, NTupleV) and v.cls is self

    def abs_truth(self, it):
        return True

    def abs_is_none(self, it):
        return False


@model('collections.namedtuple')
def m_namedtuple(it, a, k):
    f = a[1] if len(a) > 1 else k['field_names']
    f = f.replace(',', ' ').split() if isinstance(f, str) else list(it.iterate(f))
    return NTupleCls(a[0], f, list(it.iterate(k['defaults'])) if k.get('defaults') is not None else ())


def ntuple_attr(it, o, name):
    if name in o.fields:
        return o[o.fields.index(name)]
    if name == '_fields':
        return tuple(o.fields)
    if name == '_asdict':
        return bi(name, lambda it, a, k: I.DictV(dict(zip(o.fields, o))))
    if name == '_replace':
        return bi(name, lambda it, a, k: o.cls.make([k.get(f, v) for f, v in zip(o.fields, o)]))
    return None


@model('math.prod', 'numpy.prod')
def m_prod(it, a, k):
    if k.get('axis') is not None or len(a) > 1 or hasattr(a[0], 'abs_ufunc'):
        raise I.Unsupported('prod')
    r = num(it, k.get('start', 1))
    for x in it.iterate(a[0]):
        if isinstance(x, ArrV):
            raise I.Unsupported('prod')
        r = T.mul(r, num(it, x))
    return r


@model('math.copysign', 'numpy.copysign')
def m_copysign(it, a, k):
    x, y = num(it, a[0]), num(it, a[1])
    r = m_abs(it, [x], {})
    return r if not it.truth(it.rel('<', y, 0)) else T.neg(r)


@model('math.radians', 'numpy.radians', 'numpy.deg2rad')
def m_radians(it, a, k):
    return T.mul(num(it, a[0]), Fraction(3.141592653589793) / 180)


@model('math.degrees', 'numpy.degrees', 'numpy.rad2deg')
def m_degrees(it, a, k):
    return T.div(num(it, a[0]), Fraction(3.141592653589793) / 180)


def fold(name):
    """A pure library function of known values."""
    import importlib
    mod, _, fn = name.rpartition('.')
    f = getattr(importlib.import_module(mod), fn)

    def g(it, a, k):
        try:
            args = [concrete(x) for x in a]
            kw = {n: concrete(v) for n, v in k.items()}
        except LookupError:
            return ext_call(it, name, a, k)
        try:
            r = f(*args, **kw)
        except Exception as ex:
            it.raise_(type(ex).__name__ if type(ex).__name__ in I.BUILTIN_EXC else 'ValueError', str(ex))
        return r
    return g


for _n in ('math.gcd', 'math.lcm', 'math.isqrt', 'os.path.join', 'os.path.splitext', 'os.path.basename', 'os.path.dirname', 'os.path.normpath',
           'builtins.chr', 'builtins.hex', 'builtins.bin', 'builtins.oct'):
    MODELS[_n] = fold(_n)


# methods that do not look into a symbolic name (a private character)
OPAQUE_STR = {'split', 'rsplit', 'partition', 'rpartition', 'join', 'format', 'replace', 'startswith', 'endswith', 'count',
              'strip', 'lstrip', 'rstrip', 'splitlines', 'removeprefix', 'removesuffix', '__contains__', '__eq__'}


def symbolic(s):
    return isinstance(s, str) and not s.isascii() and any('\ue000' <= c <= '\uf8ff' for c in s)


def str_method(name):
    if not hasattr(str, name):
        return None

    def f(it, a, k):
        args = []
        if name not in OPAQUE_STR and symbolic(a[0]):
            raise I.Unsupported('str.%s of a symbolic name' % name)
        for x in a[1:]:
            if isinstance(x, (I.ListV, I.IterV)):
                xs = list(it.iterate(x))
                if not all(isinstance(y, str) for y in xs):
                    return App('strm:' + name, (a[0],) + tuple(I.freeze(y) for y in xs), 'str')
                args.append(xs)
            elif isinstance(x, (str, int)) or x is None:
                args.append(x)
            elif isinstance(x, (tuple, I.SetV)):
                xs = list(it.iterate(x))
                if not all(isinstance(y, str) for y in xs):
                    return App('strm:' + name, (a[0],) + tuple(I.freeze(y) for y in xs), 'str')
                args.append(tuple(xs))
            else:
                typ = 'bool' if name in ('startswith', 'endswith', 'isdigit') else 'str'
                return App('strm:' + name, (a[0],) + tuple(I.freeze(y) for y in a[1:]), typ)
        if name == 'format':
            if not all(isinstance(x, (str, int)) for x in list(a[1:]) + list(k.values())):
                return App('fmt', (a[0],) + tuple(I.freeze(x) for x in a[1:]), 'str')
        try:
            r = getattr(a[0], name)(*args, **k)
        except (ValueError, IndexError, KeyError, TypeError) as ex:
            it.raise_(type(ex).__name__, str(ex))
        if isinstance(r, list):
            return I.ListV(r)
        return r
    return f


def _symstr(name, typ='str'):
    def f(it, a, k):
        return App('strm:' + name, tuple(I.freeze(x) for x in a), typ)
    return f


SYMSTR = {n: _symstr(n) for n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'format', 'replace', 'join')}
SYMSTR.update({n: _symstr(n, 'bool') for n in ('startswith', 'endswith', 'isdigit')})
SYMSTR['split'] = _symstr('split', 'list')
