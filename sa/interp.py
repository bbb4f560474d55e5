"""
A trace partitioned abstract interpreter for the Python subset of the package.

The interpreter walks the syntax tree of the functions of /repo over abstract
values (see terms.py); the code itself is never imported or run.  A branch on a
condition the facts of the trace do not decide splits the trace.  The traces
are enumerated by replaying a prefix of branch decisions, so the abstract heap
can be made of ordinary mutable objects.
"""
import ast
import builtins
import time
from fractions import Fraction

from . import terms as T
from .terms import Sym, App, Poly, Aff


class Unsupported(Exception):
    """The abstract semantics has no meaning for a construct."""


class PathLimit(Exception):
    pass


class AbsRaise(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, exc, args=(), site=None, implicit=False, value=None):
        self.exc = exc              # a class: python builtin exception or ClassV
        self.eargs = args
        self.site = site
        self.implicit = implicit    # not written as a raise statement
        self.value = value

    @property
    def name(self):
        return getattr(self.exc, '__name__', None) or getattr(self.exc, 'name', str(self.exc))

    def __str__(self):
        return '%s(%s)' % (self.name, ', '.join(str(a) for a in self.eargs))


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ values

class Heap:
    """Base of mutable abstract objects."""
    owner = 'fresh'
    _n = 0

    def fresh_id(self):
        Heap._n += 1
        self.hid = Heap._n

    @property
    def key(self):
        return '#%d' % self.hid

    def __repr__(self):
        return '<%s#%d>' % (type(self).__name__, self.hid)


class ListV(Heap):
    def __init__(self, items, owner='fresh'):
        self.items = list(items)
        self.owner = owner
        self.fresh_id()

    def __repr__(self):
        return 'List%r' % (self.items,)


class DictV(Heap):
    def __init__(self, d=None, owner='fresh', label=None):
        self.d = dict(d or {})
        self.owner = owner
        self.label = label
        self.fresh_id()

    def __repr__(self):
        return 'Dict%r' % (self.d,)


class SetV(Heap):
    def __init__(self, items=(), owner='fresh', ordered=False):
        self.d = dict.fromkeys(items)
        self.owner = owner
        self.ordered = ordered
        self.fresh_id()

    def __repr__(self):
        return 'Set%r' % (list(self.d),)


class RepV:
    """(item,) * count"""

    def __init__(self, item, count, kind='tuple'):
        self.item, self.count, self.kind = item, count, kind

    key = property(lambda self: 'repeat(%s,%s)' % (T.keyof(freeze(self.item)), T.keyof(self.count)))

    def freeze(self):
        return App('repeat', (freeze(self.item), self.count), 'tuple')

    def abs_len(self, it):
        return it.max(self.count, 0)

    def abs_truth(self, it):
        return it.rel('>', self.count, 0)

    def abs_is_none(self, it):
        return False

    def abs_isinstance(self, it, c):
        return isinstance(c, ExtV) and c.name.split('.')[-1] in (self.kind, 'object', 'Iterable', 'Sequence')

    def abs_iter(self, it):
        i = 0
        while it.truth(it.rel('<', i, self.count)):
            yield self.item
            i += 1
            if i > 6:
                raise Unsupported('iteration over a repetition')

    def abs_getitem(self, it, i):
        if isinstance(i, SliceV) and i.start in (None, 0) and i.step is None:
            if i.stop is None:
                return self
            return RepV(self.item, it.min(self.count, it.asnum(i.stop)), self.kind)
        if T.const_of(i) is not None and T.const_of(i) >= 0:
            if not it.truth(it.rel('>', self.count, i)):
                it.raise_('IndexError', 'index out of range')
            return self.item
        raise Unsupported('index of a repetition')


class SliceV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step

    @property
    def key(self):
        return 'slice(%s,%s,%s)' % (T.keyof(self.start), T.keyof(self.stop), T.keyof(self.step))

    def const(self):
        """The Python slice, if all bounds are known."""
        vs = [None if x is None else T.const_of(x) if T.isnum(x) else Ellipsis for x in (self.start, self.stop, self.step)]
        if any(x is Ellipsis or x is None and y is not None for x, y in zip(vs, (self.start, self.stop, self.step))):
            return None
        return slice(*[None if x is None else int(x) for x in vs])

    def __eq__(self, other):
        return isinstance(other, SliceV) and self.key == other.key

    def __hash__(self):
        return hash(self.key)

    def freeze(self):
        return App('slice', tuple(freeze(x) for x in (self.start, self.stop, self.step)), 'slice')

    def __repr__(self):
        return 'slice(%r,%r)' % (self.start, self.stop)


class RangeV:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    @property
    def key(self):
        return 'range(%s,%s,%s)' % (T.keyof(self.start), T.keyof(self.stop), T.keyof(self.step))


class IterV(Heap):
    def __init__(self, items):
        self.items = list(items)
        self.pos = 0
        self.fresh_id()


class Obj(Heap):
    """An instance of an analysed class."""

    def __init__(self, cls, owner='fresh', label=None):
        self.cls = cls
        self.attrs = {}
        self.owner = owner
        self.label = label
        self.fresh_id()

    def __repr__(self):
        return '<%s %s>' % (self.cls.name, self.label or '#%d' % self.hid)


class ClassV:
    def __init__(self, name, bases, ns, module, node, interp):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self._mro = None

    @property
    def key(self):
        return 'class:' + self.name

    def mro(self):
        if self._mro is None:
            seqs = [b.mro() if isinstance(b, ClassV) else [b] for b in self.bases]
            seqs = [list(s) for s in seqs] + [list(self.bases)]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    while c in s:
                        s.remove(c)
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name], c
        return None, None

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return 'class %s' % self.name


class FuncV:
    def __init__(self, node, env, module, defaults, kwdefaults, qualname, owner_class=None):
        self.node = node
        self.env = env
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qualname = qualname
        self.owner_class = owner_class

    @property
    def key(self):
        return 'func:' + self.qualname

    def __repr__(self):
        return 'func %s' % self.qualname


class PropV:
    def __init__(self, fget, fset=None, memo=False):
        self.fget, self.fset, self.memo = fget, fset, memo


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMethodV:
    def __init__(self, f):
        self.f = f


class BoundV:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    @property
    def key(self):
        return 'bound:%s:%s' % (T.keyof(self.func), T.keyof(self.self_))


class BuiltinV:
    """A function modelled in Python: fn(interp, args, kwargs)"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    @property
    def key(self):
        return 'builtin:' + self.name

    def __repr__(self):
        return 'builtin %s' % self.name


class ExtV:
    """A name of an external library."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    @property
    def key(self):
        return 'ext:' + self.name

    def __eq__(self, other):
        return isinstance(other, ExtV) and other.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'ext %s' % self.name


class ModuleV:
    def __init__(self, name):
        self.name = name

    @property
    def key(self):
        return 'module:' + self.name


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ExcV:
    """An exception instance."""

    def __init__(self, exc, args):
        self.exc, self.args = exc, args

    key = property(lambda self: 'exc:%s' % getattr(self.exc, 'name', self.exc))


class Env:
    def __init__(self, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.nonlocals = set()
        self.globals_ = set()


class Frame:
    __slots__ = ('func', 'self_', 'line', 'yields', 'path', 'handling')

    def __init__(self, func, self_, path):
        self.func = func
        self.self_ = self_
        self.line = 0
        self.yields = None
        self.path = path
        self.handling = None


BUILTIN_EXC = {n: c for n, c in vars(builtins).items()
               if isinstance(c, type) and issubclass(c, BaseException)}


def freeze(v):
    """A hashable value number of any value."""
    if isinstance(v, ListV):
        return ('list',) + tuple(freeze(x) for x in v.items)
    if isinstance(v, DictV):
        return ('dict',) + tuple((freeze(k), freeze(x)) for k, x in sorted(v.d.items(), key=lambda t: T.keyof(t[0])))
    if isinstance(v, SetV):
        return ('set',) + tuple(sorted((freeze(k) for k in v.d), key=T.keyof))
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if hasattr(v, 'freeze'):
        return v.freeze()
    if isinstance(v, (Sym, App, Poly, Aff, str, int, float, Fraction, bool, type(None))):
        return v
    if hasattr(v, 'key'):
        return App('ref', (v.key,))
    return App('ref', (repr(v),))


class Chooser:
    def __init__(self, prefix=(), caches=None):
        self.prefix = list(prefix)
        self.trail = []
        # proofs made on the shared part of consecutive traces
        self.caches = [] if caches is None else caches

    @property
    def cache(self):
        n = len(self.trail)
        while len(self.caches) <= n:
            self.caches.append({})
        return self.caches[n]

    def choose(self, n):
        i = len(self.trail)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trail.append((n, c))
        return c


def next_prefix(trail, base=0):
    trail = list(trail)
    while len(trail) > base:
        n, c = trail.pop()
        if c + 1 < n:
            return [t[1] for t in trail] + [c + 1]
    return None


class Interp:
    MAX_STEPS = 60000
    MAX_DEPTH = 60

    def __init__(self, program, chooser=None, modules=None):
        from . import models as M
        self.program = program
        self.models = M.MODELS
        self.M = M
        self.chooser = chooser or Chooser()
        self.modules = {} if modules is None else modules
        self.frames = []
        self.facts = []          # (bool term, truth)
        self.decisions = {}
        self.subst = {}
        self.effects = []
        self.events = []
        self.unknown = []        # constructs without a meaning on this trace
        self.steps = 0
        self.counts = {}
        self.hooks = {}          # qualified function name -> fn(interp, args, kwargs)
        self.global_overrides = {}   # (module, name) -> value
        self.visited = set()
        self.ext_calls = 0
        self.assumed = []
        self.positive = set()
        self.entail_cache = {}
        self.near_zero = {}
        self.nonzero = set()
        self.version = 0
        self.cons_version = self.ax_version = -1
        self.entail_stamp = None
        self.sign_cache = {}
        self.model_stamp = None
        self.unwitnessed = []
        self.model_pool = []
        self.model_seed = 0
        self.queries = 0
        self.canon_version = -1
        self.canon_memo = {}

    # ------------------------------------------------------------ utilities
    def sym(self, base, typ='any', **kw):
        n = self.counts.get(base, 0)
        self.counts[base] = n + 1
        s = Sym('%s%s' % (base, n if n else ''), typ, **kw)
        return s

    def num(self, base, typ='int', **kw):
        return T.to_poly(self.sym(base, typ, **kw))

    def site(self):
        for fr in reversed(self.frames):
            if fr.path is not None:
                return (fr.path, fr.func, fr.line)
        return ('?', '?', 0)

    def build_site(self):
        """The rewrite that is active, else the innermost frame."""
        for fr in reversed(self.frames):
            if fr.path is not None and '_opt' in (fr.func or ''):
                return (fr.path, fr.func, fr.line)
        return self.site()

    def site_str(self):
        p, f, l = self.site()
        return '%s:%s:%s' % (p, l, f)

    def note_unknown(self, what):
        self.unknown.append('%s at %s' % (what, self.site_str()))

    def raise_(self, name, *args, implicit=True):
        raise AbsRaise(BUILTIN_EXC[name], args, self.site(), implicit)

    def effect(self, kind, obj, detail=''):
        self.effects.append((kind, obj, detail, self.site()))

    def write_check(self, obj, kind, detail=''):
        if getattr(obj, 'owner', 'fresh') != 'fresh':
            self.effect(kind, obj, detail)

    def choose(self, n):
        return self.chooser.choose(n)

    # ------------------------------------------------------------ facts
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, (ListV, IterV)):
            return bool(v.items)
        if isinstance(v, (DictV, SetV)):
            return bool(v.d)
        if isinstance(v, Poly):
            return not self.truth(self.rel('==', v, 0))
        if isinstance(v, (Sym, App)):
            if isinstance(v, Sym) and v.nullable and self.is_none(v):
                return False
            if v.typ in ('bool', 'any', 'str', 'chan', 'list'):
                return self.decide(v if v.typ == 'bool' else App('truthy', (v,), 'bool'))
            if v.typ in ('int', 'float', 'num'):
                return not self.truth(self.rel('==', T.to_poly(v), 0))
            return True
        if hasattr(v, 'abs_truth'):
            return v.abs_truth(self)
        if isinstance(v, Obj):
            for dunder in ('__bool__', '__len__'):
                f, c = v.cls.lookup(dunder)
                if f is not None:
                    return self.truth(self.call(BoundV(f, v), [], {}))
            return True
        return True

    def decide(self, cond):
        """Resolve a boolean term, splitting the trace if it is undecided."""
        if isinstance(cond, bool):
            return cond
        want = True
        while isinstance(cond, App) and cond.op == 'not':
            cond = cond.args[0]
            want = not want
        if self.subst:
            c2 = self.canon(cond)
            if isinstance(c2, App) and c2.op == 'cond':
                c2 = self.mkcond(*c2.args)
            if isinstance(c2, bool):
                return c2 == want
            cond = c2
        key = T.keyof(cond)
        if key in self.decisions:
            return self.decisions[key] == want
        known = self.implied(cond)
        if known is None:
            known = self.witnessed(cond, key)
            if known is None:
                known = self.choose(2) == 0
            self.add_fact(cond, known)
        self.decisions[key] = known
        return known == want

    def witnessed(self, cond, key):
        """
        The only value of a numeric condition that a model of the facts
        takes; None if both are taken (or nothing is known).  A branch without
        a model cannot lead to a report, it is not explored.
        """
        if not (isinstance(cond, App) and cond.op == 'cond' and cond.args[0] != '=='):
            return None
        from . import sample
        shared = self.chooser.cache
        skey = ('witness', key, len(self.facts), self.version)
        if skey not in shared:
            if not sample.models(self):
                r = None
            else:
                t, f = sample.witness(self, cond, True), sample.witness(self, cond, False)
                r = None if t == f else t
            shared[skey] = r
        r = shared[skey]
        if r is not None:
            self.unwitnessed.append((key, not r, self.site()))
        return r

    def assume(self, v):
        """Add a condition to the facts of the trace."""
        if isinstance(v, bool) or v is None:
            return bool(v)
        want = True
        cond = v
        while isinstance(cond, App) and cond.op == 'not':
            cond = cond.args[0]
            want = not want
        if not isinstance(cond, (App, Sym)):
            return True
        key = T.keyof(cond)
        if key in self.decisions:
            return self.decisions[key] == want
        known = self.implied(cond)
        if known is not None:
            return known == want
        self.decisions[key] = want
        self.add_fact(cond, want)
        return True

    def add_fact(self, cond, val):
        if val and isinstance(cond, App) and cond.op == 'and':
            for c in cond.args:
                want = True
                c = self.canon(c)
                while isinstance(c, App) and c.op == 'not':
                    c, want = c.args[0], not want
                if isinstance(c, App) and c.op == 'cond':
                    c = self.mkcond(*c.args)
                if not isinstance(c, bool):
                    self.decisions[T.keyof(c)] = want
                    self.add_fact(c, want)
            return
        self.facts.append((cond, val))
        if val and isinstance(cond, App) and cond.op == 'cond' and cond.args[0] == '==':
            self.learn_equal(cond.args[1])
        if val and isinstance(cond, App) and cond.op == 'cond' and cond.args[0] == '<':
            p = cond.args[1]
            a = T.neg(p)
            a = a.single_atom() if isinstance(a, Poly) else None
            if a is not None:
                self.positive.add(T.keyof(a))
            self.learn_near_zero(p)
        if val and isinstance(cond, App) and cond.op == 'eqv':
            a, b = cond.args
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and x not in self.subst and x not in T.atoms_of(y):
                    self.set_subst(x, y)
                    break
        hook = getattr(cond, 'op', None)
        if val and hook == 'aff_identity':
            self.learn_identity(cond.args[0])

    def learn_near_zero(self, p):
        """
        abs(theta) < eps and abs(shear) < eps: the transform is axis aligned,
        its symbol is replaced by a matrix of a scale and an offset.
        """
        p = T.to_poly(p)
        k = p.terms.get((), 0)
        rest = [m for m in p.terms if m != ()]
        if len(rest) != 1 or len(rest[0]) != 1 or rest[0][0][1] != 1 or not -Fraction(1, 100) < k < 0:
            return
        a = rest[0][0][0]
        if not (isinstance(a, App) and a.op == 'abs'):
            return
        x = a.args[0].single_atom() if isinstance(a.args[0], Poly) else None
        if not (isinstance(x, App) and x.op in ('dec_theta', 'dec_shearx')):
            return
        aff = x.args[0]
        seen = self.near_zero.setdefault(aff.key, set())
        seen.add(x.op)
        if len(seen) == 2:
            sx = T.to_poly(self.sym('sx', 'float', lo=Fraction(1, 10**9)))
            sy, tx, ty = [T.to_poly(self.sym(n, 'float')) for n in ('sy', 'tx', 'ty')]
            # transforms are invertible
            self.nonzero.update((T.keyof(sx.single_atom()), T.keyof(sy.single_atom())))
            diag = T.aff_matrix((sx, 0, tx, 0, sy, ty))
            for i, f in enumerate(aff.word):
                if f[0] == 'A' and sum(1 for g in aff.word if g[0] == 'A' and g[1] == f[1]) == 1:
                    val = Aff(aff.word[:i]).inverse().compose(diag).compose(Aff(aff.word[i + 1:]).inverse())
                    if f[2] == -1:
                        val = val.inverse()
                    if f[1] not in T.atoms_of(val):
                        self.set_subst(f[1], val)
                        return

    def set_subst(self, atom, val):
        env = {atom: val}
        self.subst = {k: T.subst(x, env) for k, x in self.subst.items()}
        self.subst[atom] = val
        self.version += 1

    def learn_equal(self, poly):
        """poly == 0: solve for a symbol, or rewrite a monomial to an int atom."""
        p = T.to_poly(poly)
        cands = []
        for m, c in p.terms.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                rest = T.simp(Poly({k: v for k, v in p.terms.items() if k != m}))
                if a in T.atoms_of(rest):
                    continue
                val = T.div(T.neg(rest), c)
                if isinstance(a, Sym):
                    cands.append((0 if not isinstance(val, Poly) or not T.is_int_val(val) else 1, a.name, a, val))
        if cands:
            cands.sort(key=lambda t: t[:2])
            # an integer symbol may only be replaced by an integer
            for _, _, a, val in cands:
                if a.typ != 'int' or T.is_int_val(val):
                    self.set_subst(a, val)
                    return
        # an integer rounding of x equals x: rewrite the monomials of x
        for m, c in p.terms.items():
            if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], App) and m[0][0].op in ('floor', 'ceil'):
                rest = {k: v for k, v in p.terms.items() if k != m}
                if len(rest) == 1:
                    (m2, c2), = rest.items()
                    if m2 != ():
                        self.subst[m2] = T.mul(-c / c2, T.to_poly(m[0][0]))
                        self.version += 1
                        return

    def learn_identity(self, aff):
        """aff is (close to) the identity: solve for a symbolic factor."""
        for i, f in enumerate(aff.word):
            if f[0] == 'A' and sum(1 for g in aff.word if g[0] == 'A' and g[1] == f[1]) == 1:
                left, right = Aff(aff.word[:i]), Aff(aff.word[i + 1:])
                val = left.inverse().compose(right.inverse())
                if f[2] == -1:
                    val = val.inverse()
                if f[1] not in T.atoms_of(val):
                    self.set_subst(f[1], val)
                    return
        m = aff.single_matrix()
        if m is not None:
            for x, y in zip(m, T.ID6):
                d = T.sub(x, y)
                if isinstance(d, Poly):
                    self.learn_equal(d)

    def canon(self, v):
        if not self.subst:
            return v
        if self.canon_version != self.version:
            self.canon_memo = {}
            self.canon_version = self.version
        return T.subst(v, self.subst, self.canon_memo)

    def mkcond(self, rel, p):
        p = self.canon(p)
        c = T.const_of(p)
        if c is not None:
            if T.special(c):
                return App('cond', (rel, c), 'bool')
            return {'==': c == 0, '<': c < 0, '<=': c <= 0}[rel]
        q = T.to_poly(p)
        if rel == '==' and len(q.terms) == 1 and self.nonzero:
            (m, _), = q.terms.items()
            if all(T.keyof(a) in self.nonzero for a, _ in m):
                return False
        lead = sorted(q.terms, key=T.monokey)[-1]
        s = abs(q.terms[lead]) if rel != '==' else q.terms[lead]
        q = T.div(q, s)
        return App('cond', (rel, q), 'bool')

    def rel(self, op, a, b):
        """A relation between two numbers as a boolean or a term."""
        if T.special(a) or T.special(b):
            ca, cb = T.const_of(a), T.const_of(b)
            if ca is not None and cb is not None:
                return {'==': ca == cb, '!=': ca != cb, '<': ca < cb, '<=': ca <= cb,
                        '>': ca > cb, '>=': ca >= cb}[op]
            sp = a if T.special(a) else b
            if sp != sp:
                return op == '!='
            if op == '==':
                return False
            if op == '!=':
                return True
            pos = (b if T.special(b) else a)
            if T.special(b):
                lt = b > 0
            else:
                lt = a < 0
            return lt if op in ('<', '<=') else not lt
        if op == '==':
            return self.mkcond('==', T.sub(a, b))
        if op == '!=':
            return self.not_(self.mkcond('==', T.sub(a, b)))
        if op == '<':
            return self.mkcond('<', T.sub(a, b))
        if op == '<=':
            return self.mkcond('<=', T.sub(a, b))
        if op == '>':
            return self.mkcond('<', T.sub(b, a))
        if op == '>=':
            return self.mkcond('<=', T.sub(b, a))
        raise Unsupported(op)

    @staticmethod
    def not_(c):
        if isinstance(c, bool):
            return not c
        if isinstance(c, App) and c.op == 'not':
            return c.args[0]
        return App('not', (c,), 'bool')

    def implied(self, cond):
        """True / False if the facts decide the condition, else None."""
        if isinstance(cond, App) and cond.op == 'and':
            rs = []
            for c in cond.args:
                want = True
                c = self.canon(c)
                while isinstance(c, App) and c.op == 'not':
                    c, want = c.args[0], not want
                if isinstance(c, App) and c.op == 'cond':
                    c = self.mkcond(*c.args)
                r = c if isinstance(c, bool) else self.decisions.get(T.keyof(c))
                if r is None and not isinstance(c, bool):
                    r = self.implied(c)
                rs.append(None if r is None else r == want)
            return False if False in rs else None if None in rs else True
        if isinstance(cond, App) and cond.op == 'cond':
            from .linear import entails
            rel, p = cond.args
            if T.special(p):
                return None
            if rel == '==':
                if entails(self, '<', p) or entails(self, '<', T.neg(p)):
                    return False
                if entails(self, '<=', p) and entails(self, '<=', T.neg(p)):
                    return True
                return None
            if entails(self, rel, p):
                return True
            if entails(self, '<=' if rel == '<' else '<', T.neg(p)):
                return False
        return None

    def proves(self, op, a, b):
        c = self.rel(op, a, b)
        if isinstance(c, bool):
            return c
        neg = False
        while isinstance(c, App) and c.op == 'not':
            c = c.args[0]
            neg = not neg
        key = T.keyof(c)
        if key in self.decisions:
            return self.decisions[key] != neg
        r = self.implied(c)
        return r is not None and (r != neg)

    def min(self, *args):
        return self._minmax('min', args)

    def max(self, *args):
        return self._minmax('max', args)

    def _minmax(self, op, args):
        args = [self.canon(a) for a in args]
        keep = []
        for a in args:
            dominated = False
            for b in list(keep):
                if self.proves('<=' if op == 'min' else '>=', b, a):
                    dominated = True
                    break
                if self.proves('<=' if op == 'min' else '>=', a, b):
                    keep.remove(b)
            if not dominated:
                keep.append(a)
        return T.minmax(op, keep)

    def is_none(self, v):
        """Decide whether a value is None."""
        if v is None:
            return True
        if isinstance(v, Sym) and v.nullable:
            return self.decide(App('isnone', (v,), 'bool'))
        if isinstance(v, App) and v.typ == 'any' and v.op.startswith(('ext:', 'call', 'attr', 'item')):
            return self.decide(App('isnone', (v,), 'bool'))
        return False

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.modules:
            src = self.program.modules.get(name)
            if src is None:
                return None
            env = Env(module=name)
            env.vars['__name__'] = name
            env.vars['__file__'] = src.path
            self.modules[name] = env
            fr = Frame('<module>', None, self.program.relpath(src.path))
            self.frames.append(fr)
            try:
                for stmt in src.tree.body:
                    try:
                        self.exec(stmt, env)
                    except Unsupported:
                        for n in assigned_names(stmt):
                            env.vars.setdefault(n, App('unknown:%s.%s' % (name, n)))
                    except AbsRaise as ex:
                        for n in assigned_names(stmt):
                            env.vars.setdefault(n, App('unknown:%s.%s' % (name, n)))
            finally:
                self.frames.pop()
        return self.modules[name]

    def module_attr(self, modname, attr):
        if (modname, attr) in self.global_overrides:
            return self.global_overrides[(modname, attr)]
        full = modname + '.' + attr
        env = self.module(modname)
        if env is not None and attr in env.vars:
            return self.unlazy(env.vars[attr])
        if full in self.program.modules:
            return ModuleV(full)
        raise AbsRaise(AttributeError, ('module %s has no attribute %s' % (modname, attr),), self.site(), True)

    def unlazy(self, v):
        if isinstance(v, LazyImport):
            if v.attr is None:
                return ModuleV(v.module) if v.module in self.program.modules else self.ext(v.module)
            if v.module in self.program.modules:
                return self.module_attr(v.module, v.attr)
            return self.ext(v.module + '.' + v.attr)
        return v

    def ext(self, name):
        name = canonical_ext(name)
        m = self.models.get(name)
        if m is not None and not callable(m):
            return m
        return ExtV(name)

    def get_func(self, modname, qual):
        """The value of e.g. ('delayed_image.delayed_nodes', 'DelayedWarp.optimize')"""
        v = None
        parts = qual.split('.')
        v = self.module_attr(modname, parts[0])
        for p in parts[1:]:
            f, c = v.lookup(p)
            if f is None:
                raise KeyError(qual)
            v = f
        return v

    # ------------------------------------------------------------ names
    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                if e.module is not None and (e.module, name) in self.global_overrides:
                    return self.global_overrides[(e.module, name)]
                v = e.vars[name]
                if isinstance(v, LazyImport):
                    v = self.unlazy(v)
                return v
            e = e.parent
        if name in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset',
                    'object', 'type', 'slice', 'complex', 'bytes', 'memoryview', 'bytearray'):
            return ExtV('builtins.' + name)
        m = self.models.get('builtins.' + name)
        if m is not None:
            return BuiltinV(name, m) if callable(m) else m
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        if hasattr(builtins, name):
            return ExtV('builtins.' + name)
        raise AbsRaise(NameError, (name,), self.site(), True)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for stmt in body:
            self.exec(stmt, env)

    def exec(self, node, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise PathLimit('too many steps')
        if self.frames:
            self.frames[-1].line = node.lineno
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(node).__name__)
        return m(node, env)

    def s_Expr(self, node, env):
        if isinstance(node.value, ast.Constant):
            return
        self.eval(node.value, env)

    def s_Pass(self, node, env):
        pass

    def s_Assign(self, node, env):
        v = self.eval(node.value, env)
        for t in node.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, node, env):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, env), env)

    def s_AugAssign(self, node, env):
        t = node.target
        op = type(node.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            new = self.inplace(op, cur, self.eval(node.value, env))
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(node.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.eval(node.value, env)))
        else:
            raise Unsupported('augassign')

    def inplace(self, op, cur, val):
        if isinstance(cur, ListV) and op == 'Add':
            self.write_check(cur, 'write', 'list +=')
            cur.items.extend(self.iterate(val))
            return cur
        if isinstance(cur, (SetV, DictV)) and op == 'BitOr':
            self.write_check(cur, 'write', '|=')
            if isinstance(cur, SetV):
                for x in self.iterate(val):
                    cur.d[x] = None
            else:
                cur.d.update(val.d)
            return cur
        if hasattr(cur, 'abs_inplace'):
            return cur.abs_inplace(self, op, val)
        if isinstance(cur, Obj) and op in DUNDER:
            g, c = cur.cls.lookup('__i%s__' % DUNDER[op])
            if g is not None:
                return self.call(BoundV(g, cur), [val], {})
        return self.binop(op, cur, val)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                e = e or env
            elif t.id in env.globals_:
                e = env
                while e.parent is not None:
                    e = e.parent
                self.effect('global', t.id, 'global assignment')
            e.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n_hint = len(t.elts) if not star else None
            items = self.unpack(v, n_hint)
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, ListV(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
            else:
                if len(items) != len(t.elts):
                    self.raise_('ValueError', 'unpack %d into %d' % (len(items), len(t.elts)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assign target')

    def unpack(self, v, n):
        if isinstance(v, (Sym, App)) and n is not None and v.typ in ('any', 'tuple'):
            return [App('item', (v, i)) for i in range(n)]
        return list(self.iterate(v))

    def s_If(self, node, env):
        if self.truth(self.eval(node.test, env)):
            self.exec_block(node.body, env)
        else:
            self.exec_block(node.orelse, env)

    def s_Return(self, node, env):
        raise _Return(None if node.value is None else self.eval(node.value, env))

    def s_For(self, node, env):
        it = self.eval(node.iter, env)
        broke = False
        for x in self.iterate(it):
            self.assign(node.target, x, env)
            try:
                self.exec_block(node.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.exec_block(node.orelse, env)

    def s_While(self, node, env):
        n = 0
        while True:
            if not self.truth(self.eval(node.test, env)):
                self.exec_block(node.orelse, env)
                break
            n += 1
            if n > 40:
                raise PathLimit('loop')
            try:
                self.exec_block(node.body, env)
            except _Break:
                break
            except _Continue:
                continue

    def s_Match(self, node, env):
        v = self.eval(node.subject, env)
        for case in node.cases:
            if self.matches(case.pattern, v, env) and (case.guard is None or self.truth(self.eval(case.guard, env))):
                self.exec_block(case.body, env)
                return

    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.equal(v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_none(v) if p.value is None else v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name is not None:
                self.assign(ast.Name(p.name), v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, ListV)):
                if v is None or isinstance(v, (str, DictV, SetV, Obj)) or T.isnum(v):
                    return False
                raise Unsupported('match of a sequence')
            items = list(self.iterate(v))
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(items) == len(p.patterns) and all(self.matches(q, x, env) for q, x in zip(p.patterns, items))
            k = star[0]
            after = len(p.patterns) - k - 1
            if len(items) < k + after:
                return False
            if not all(self.matches(q, x, env) for q, x in zip(p.patterns[:k], items)):
                return False
            if p.patterns[k].name:
                self.assign(ast.Name(p.patterns[k].name), ListV(items[k:len(items) - after]), env)
            return all(self.matches(q, x, env) for q, x in zip(p.patterns[k + 1:], items[len(items) - after:]))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, DictV):
                return False
            rest = dict(v.d)
            for ke, q in zip(p.keys, p.patterns):
                key = self.eval(ke, env)
                if key not in v.d:
                    return False
                rest.pop(key)
                if not self.matches(q, v.d[key], env):
                    return False
            if p.rest:
                self.assign(ast.Name(p.rest), DictV(rest), env)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.truth(self.M.m_isinstance(self, [v, c], {})):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and isinstance(c, ExtV) and c.name.startswith('builtins.'):
                    if not self.matches(p.patterns[0], v, env):
                        return False
                else:
                    raise Unsupported('class pattern')
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                x = self.getattr(v, n, None)
                if not self.matches(q, x, env):
                    return False
            return True
        raise Unsupported('pattern ' + type(p).__name__)

    def s_Break(self, node, env):
        raise _Break

    def s_Continue(self, node, env):
        raise _Continue

    def s_Raise(self, node, env):
        if node.exc is None:
            h = self.frames[-1].handling
            if h is not None:
                raise h
            raise Unsupported('bare raise')
        v = self.eval(node.exc, env)
        if isinstance(v, ExcV):
            raise AbsRaise(v.exc, v.args, self.site(), False, v)
        if isinstance(v, (type, ClassV)):
            raise AbsRaise(v, (), self.site(), False)
        if isinstance(v, Obj):
            raise AbsRaise(v.cls, (), self.site(), False, v)
        raise AbsRaise(Exception, (v,), self.site(), False)

    def s_Assert(self, node, env):
        v = self.eval(node.test, env)
        if isinstance(v, Poly):
            v = self.not_(self.rel('==', v, 0))
        if isinstance(v, (Sym, App)):
            cond = v if v.typ == 'bool' else App('truthy', (v,), 'bool')
            neg = False
            c = cond
            while isinstance(c, App) and c.op == 'not':
                c, neg = c.args[0], not neg
            key = T.keyof(c)
            known = self.decisions.get(key)
            if known is None:
                known = self.implied(c)
            if known is not None:
                ok = known != neg
            else:
                self.assumed.append((cond, self.site()))
                self.assume(cond)
                ok = True
        else:
            ok = self.truth(v)
        if not ok:
            raise AbsRaise(AssertionError, (ast.unparse(node.test),), self.site(), True)

    def s_FunctionDef(self, node, env):
        env.vars[node.name] = self.make_function(node, env)

    def s_ClassDef(self, node, env):
        bases = []
        for b in node.bases:
            try:
                v = self.eval(b, env)
            except AbsRaise:
                v = App('unknown')
            if isinstance(v, type):
                v = v
            bases.append(v)
        cenv = Env(parent=env)
        module = self._module_of(env)
        cls = ClassV(node.name, [b for b in bases if isinstance(b, (ClassV, ExtV, type, App))], cenv.vars, module, node, self)
        cenv.vars['__qualname__'] = node.name
        prev = getattr(self, '_cls', None)
        self._cls = cls
        try:
            for stmt in node.body:
                try:
                    self.exec(stmt, cenv)
                except Unsupported:
                    for n in assigned_names(stmt):
                        cenv.vars.setdefault(n, App('unknown:' + n))
        finally:
            self._cls = prev
        cenv.parent_is_class = True
        v = cls
        for dec in reversed(node.decorator_list):
            d = self.eval(dec, env)
            nm = getattr(d, 'name', '')
            if nm.endswith(('total_ordering', 'final')):
                continue
            cls.ns['__decorated__'] = nm
        if any(isinstance(b, ExtV) and b.name == 'typing.NamedTuple' for b in cls.bases):
            fields = [x.target.id for x in node.body if isinstance(x, ast.AnnAssign)]
            if not any(isinstance(x, ast.FunctionDef) for x in node.body):
                env.vars[node.name] = self.M.NTupleCls(node.name, fields, [cls.ns[f] for f in fields if f in cls.ns])
                return
        if any(isinstance(b, ExtV) and b.name in ('enum.Enum', 'enum.Flag') for b in cls.bases):
            for stmt in node.body:
                if isinstance(stmt, ast.Assign) and isinstance(stmt.targets[0], ast.Name):
                    n = stmt.targets[0].id
                    m = Obj(cls, 'fresh', n)
                    m.attrs.update(value=cls.ns[n], name=n)
                    cls.ns[n] = m
        env.vars[node.name] = v

    def _module_of(self, env):
        e = env
        while e.parent is not None:
            e = e.parent
        return e.module

    def s_Import(self, node, env):
        for a in node.names:
            if a.asname:
                env.vars[a.asname] = LazyImport(a.name, None)
            else:
                top = a.name.split('.')[0]
                env.vars[top] = LazyImport(top, None)

    def s_ImportFrom(self, node, env):
        mod = node.module or ''
        if node.level:
            base = self._module_of(env).split('.')
            src = self.program.modules.get('.'.join(base))
            is_pkg = src is not None and src.path.endswith('__init__.py')
            drop = node.level - (1 if is_pkg else 0)
            if drop:
                base = base[:-drop]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod == '__future__':
            return
        for a in node.names:
            if a.name == '*':
                raise Unsupported('star import')
            if mod in self.program.modules and mod + '.' + a.name in self.program.modules:
                env.vars[a.asname or a.name] = LazyImport(mod + '.' + a.name, None)
            else:
                env.vars[a.asname or a.name] = LazyImport(mod, a.name)

    def s_Global(self, node, env):
        env.globals_.update(node.names)

    def s_Nonlocal(self, node, env):
        env.nonlocals.update(node.names)

    def s_Delete(self, node, env):
        for t in node.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                i = self.eval(t.slice, env)
                if isinstance(o, DictV):
                    self.write_check(o, 'write', 'del')
                    if i not in o.d:
                        self.raise_('KeyError', i)
                    del o.d[i]
                elif isinstance(o, ListV) and isinstance(i, int):
                    self.write_check(o, 'write', 'del')
                    del o.items[i]
                elif isinstance(o, ListV) and isinstance(i, SliceV) and i.const() is not None:
                    self.write_check(o, 'write', 'del')
                    del o.items[i.const()]
                else:
                    raise Unsupported('del item')
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj):
                    self.write_check(o, 'write', 'del .' + t.attr)
                    o.attrs.pop(t.attr, None)
                else:
                    raise Unsupported('del attr')

    def s_With(self, node, env):
        ctxs = []
        for item in node.items:
            c = self.eval(item.context_expr, env)
            self.events.append(('with', c, self.site()))
            ctxs.append(c)
            v = c
            if hasattr(c, 'abs_enter'):
                v = c.abs_enter(self)
            if isinstance(c, Obj) and c.cls.lookup('__enter__')[0] is not None:
                v = self.call_method(c, '__enter__', [])
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        try:
            self.exec_block(node.body, env)
        except AbsRaise as ex:
            for c in reversed(ctxs):
                self.events.append(('endwith', c, self.site()))
                if self.leave(c, ex):
                    ex = None
            if ex is not None:
                raise ex
        except BaseException:
            for c in reversed(ctxs):
                self.events.append(('endwith', c, self.site()))
                self.leave(c, None)
            raise
        else:
            for c in reversed(ctxs):
                self.events.append(('endwith', c, self.site()))
                self.leave(c, None)

    def leave(self, c, ex):
        """__exit__ of a context; whether it swallows the exception."""
        if hasattr(c, 'abs_exit'):
            return c.abs_exit(self, ex)
        if isinstance(c, Obj) and c.cls.lookup('__exit__')[0] is not None:
            args = [None, None, None] if ex is None else [ex.exc, ex.value or ExcV(ex.exc, ex.eargs), App('traceback')]
            return self.truth(self.call_method(c, '__exit__', args))
        return False

    def s_Try(self, node, env):
        try:
            try:
                self.exec_block(node.body, env)
            except AbsRaise as ex:
                for h in node.handlers:
                    if self.exc_matches(ex, h, env):
                        if h.name:
                            env.vars[h.name] = ex.value or ExcV(ex.exc, ex.eargs)
                        fr = self.frames[-1]
                        prev = fr.handling
                        fr.handling = ex
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            fr.handling = prev
                        break
                else:
                    raise
            else:
                self.exec_block(node.orelse, env)
        finally:
            if node.finalbody:
                self.exec_block(node.finalbody, env)

    def exc_matches(self, ex, handler, env):
        if handler.type is None:
            return True
        t = self.eval(handler.type, env)
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if self.exc_subclass(ex.exc, c):
                return True
        return False

    def exc_subclass(self, e, c):
        if isinstance(e, ClassV):
            if isinstance(c, ClassV):
                return e.subclass_of(c)
            for b in e.mro():
                if isinstance(b, type) and isinstance(c, type) and issubclass(b, c):
                    return True
            return False
        if isinstance(e, type) and isinstance(c, type):
            return issubclass(e, c)
        if isinstance(e, ExtV):
            if isinstance(c, ExtV):
                return c == e
            return c in (Exception, BaseException)
        return False

    # ------------------------------------------------------------ functions
    def make_function(self, node, env):
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwdefaults = [None if d is None else self.eval(d, env) for d in node.args.kw_defaults]
        cls = getattr(self, '_cls', None)
        in_class = cls is not None and env.vars is cls.ns
        qual = (cls.name + '.' if in_class else '') + getattr(node, 'name', '<lambda>')
        fenv = env.parent if in_class else env
        f = FuncV(node, fenv, self._module_of(env), defaults, kwdefaults, qual, cls if in_class else None)
        v = f
        for dec in reversed(getattr(node, 'decorator_list', [])):
            v = self.decorate(dec, v, env)
        return v

    def decorate(self, dec, v, env):
        if isinstance(dec, ast.Name) and dec.id in ('property', 'staticmethod', 'classmethod'):
            return {'property': PropV, 'staticmethod': StaticV, 'classmethod': ClassMethodV}[dec.id](v)
        if isinstance(dec, ast.Attribute) and dec.attr in ('setter', 'getter', 'deleter') and isinstance(dec.value, ast.Name):
            cur = env.vars.get(dec.value.id)
            if isinstance(cur, PropV):
                if dec.attr == 'setter':
                    return PropV(cur.fget, v, cur.memo)
                return cur
        text = ast.unparse(dec)
        base = text.split('(')[0].split('.')[-1]
        if base in ('memoize_property', 'cached_property'):
            return PropV(v, None, True)
        if base in ('abstractproperty',):
            return PropV(v)
        if base in ('memoize_method', 'memoize', 'cache', 'lru_cache', 'abstractmethod', 'wraps', 'override', 'profile'):
            return v
        if base == 'contextmanager' and isinstance(v, FuncV):
            return BuiltinV(v.qualname, lambda it, a, k: GenContext(it, v, a, k))
        d = None
        try:
            d = self.eval(dec, env)
        except AbsRaise:
            pass
        if isinstance(d, FuncV):
            return self.call(d, [v], {})
        if isinstance(d, (ExtV, App)):
            nm = getattr(d, 'name', getattr(d, 'op', ''))
            if 'cache' in nm or 'memoize' in nm:
                return v
        return App('decorated:' + text)

    def call(self, f, args, kwargs):
        f = self.unlazy(f)
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise PathLimit('too many steps')
        if isinstance(f, BoundV):
            if isinstance(f.func, (BuiltinV,)):
                return f.func.fn(self, [f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kwargs)
        if isinstance(f, BuiltinV):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcV(f, tuple(args))
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, (App, Sym)):
            return App('call', (f,) + tuple(freeze(a) for a in args) + freeze_kw(kwargs))
        if hasattr(f, 'abs_call'):
            return f.abs_call(self, args, kwargs)
        if f is None:
            self.raise_('TypeError', 'NoneType is not callable')
        if isinstance(f, Obj):
            g, c = f.cls.lookup('__call__')
            if g is not None:
                return self.call(g, [f] + list(args), kwargs)
        raise Unsupported('call of %r' % (f,))

    def call_ext(self, f, args, kwargs):
        self.ext_calls += 1
        m = self.models.get(f.name)
        if m is not None and callable(m):
            return m(self, list(args), dict(kwargs))
        if f.name.startswith(('numpy.', 'kwimage.', 'kwarray.', 'cv2.')):
            arrays = [x for x in list(args) + list(kwargs.values()) if getattr(x, 'is_array', False)]
            if arrays:
                r = self.array_function(f.name, list(args), dict(kwargs))
                if r is not NotImplemented:
                    return r
        self.events.append(('ext', f.name, tuple(args), dict(kwargs), self.site()))
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, Heap) and not f.name.startswith(('typing.', 'builtins.')):
                self.note_unknown('call of %s' % f.name)
                break
        if 'out' in kwargs and hasattr(kwargs['out'], 'owner'):
            self.write_check(kwargs['out'], 'arrwrite', f.name + '(out=)')
        return App('ext:' + f.name, tuple(freeze(a) for a in args) + freeze_kw(kwargs))

    def array_function(self, name, args, kwargs):
        """A function of numpy that is an attribute or method of its array."""
        last = name.rsplit('.', 1)[1]
        arr = args[0] if args and getattr(args[0], 'is_array', False) else kwargs.get('a')
        if arr is not None and getattr(arr, 'is_array', False):
            rest = args[1:] if args and args[0] is arr else args
            kw = {k: v for k, v in kwargs.items() if v is not arr}
            if name.startswith('numpy.'):
                if last in ('isMaskedArray', 'isMA', 'isarray'):
                    return arr.abs_isinstance(self, ExtV('numpy.ma.MaskedArray'))
                if last in ('ndim', 'shape', 'size'):
                    return arr.abs_getattr(self, last)
                last = {'amin': 'min', 'amax': 'max'}.get(last, last)
                if last in ('ravel', 'reshape', 'squeeze', 'transpose', 'copy', 'sum', 'min', 'max', 'any', 'all', 'mean', 'astype', 'clip', 'flatten', 'swapaxes'):
                    return self.call(arr.abs_getattr(self, last), rest, kw)
        if last in ('unique', 'histogram', 'bincount', 'array_repr', 'array2string', 'array_str'):
            return NotImplemented             # used in messages
        raise Unsupported('call of %s with an array' % name)

    def instantiate(self, cls, args, kwargs):
        hook = self.hooks.get(cls.name)
        if hook is not None:
            r = hook(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in cls.mro()):
            return ExcV(cls, tuple(args))
        obj = Obj(cls)
        obj.site = self.build_site()
        init, owner = cls.lookup('__init__')
        if init is not None:
            self.call(BoundV(init, obj), args, kwargs)
        elif str(cls.ns.get('__decorated__', '')).endswith('dataclass'):
            self.init_dataclass(cls, obj, args, kwargs)
        elif args or kwargs:
            if '__decorated__' in cls.ns:
                raise Unsupported('decorated class')
            ext = [b for b in cls.mro() if isinstance(b, ExtV) and b.name != 'builtins.object']
            if not ext:
                self.raise_('TypeError', cls.name + '() takes no arguments')
        return obj

    def init_dataclass(self, cls, obj, args, kwargs):
        args, kwargs = list(args), dict(kwargs)
        for c in reversed([c for c in cls.mro() if isinstance(c, ClassV)]):
            for stmt in c.node.body:
                if not isinstance(stmt, ast.AnnAssign) or not isinstance(stmt.target, ast.Name):
                    continue
                n = stmt.target.id
                if 'ClassVar' in ast.unparse(stmt.annotation):
                    continue
                if args:
                    v = args.pop(0)
                elif n in kwargs:
                    v = kwargs.pop(n)
                elif n in c.ns:
                    v = c.ns[n]
                    if isinstance(v, App) and v.op.startswith('ext:dataclasses.field'):
                        raise Unsupported('dataclass field')
                else:
                    self.raise_('TypeError', '%s() misses %s' % (cls.name, n))
                obj.attrs[n] = v
        if args or kwargs:
            self.raise_('TypeError', '%s() takes fewer arguments' % cls.name)
        if cls.lookup('__post_init__')[0] is not None:
            self.call_method(obj, '__post_init__', [])

    def bind(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(params) and a.vararg is None:
            self.raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (f.qualname, len(params), len(args)))
        for p, v in zip(params, args):
            vals[p] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(params):])
        kwnames = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in kwnames:
                if k in vals:
                    self.raise_('TypeError', '%s() got multiple values for argument %r' % (f.qualname, k))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_('TypeError', '%s() got an unexpected keyword argument %r' % (f.qualname, k))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV(extra)
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in vals:
                j = i - (len(params) - nd)
                if j < 0:
                    self.raise_('TypeError', '%s() missing argument %r' % (f.qualname, p))
                vals[p] = f.defaults[j]
        for p, d, dn in zip(kwnames, f.kwdefaults, a.kw_defaults):
            if p not in vals:
                if dn is None:
                    self.raise_('TypeError', '%s() missing keyword argument %r' % (f.qualname, p))
                vals[p] = d
        return vals

    def call_func(self, f, args, kwargs):
        qual = (f.module or '') + ':' + f.qualname
        hook = self.hooks.get(qual) or self.hooks.get(f.qualname)
        if hook is not None:
            r = hook(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if len(self.frames) > self.MAX_DEPTH:
            raise PathLimit('recursion')
        self.visited.add(qual)
        vals = self.bind(f, args, kwargs)
        env = Env(parent=f.env)
        env.vars.update(vals)
        src = self.program.modules.get(f.module)
        fr = Frame(f.qualname, args[0] if args else None, self.program.relpath(src.path) if src else None)
        fr.line = f.node.lineno
        env.vars['__class_cell__'] = f.owner_class
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if is_generator(f.node):
                fr.yields = []
                try:
                    self.exec_block(f.node.body, env)
                except _Return:
                    pass
                return IterV(fr.yields)
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                return r.value
            return None
        finally:
            self.frames.pop()

    def call_method(self, obj, name, args, kwargs=None):
        return self.call(self.getattr(obj, name), args, kwargs or {})

    # ------------------------------------------------------------ expressions
    def eval(self, node, env):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(node).__name__)
        return m(node, env)

    def e_Constant(self, node, env):
        return node.value

    def e_Name(self, node, env):
        return self.lookup(env, node.id)

    def e_Attribute(self, node, env):
        return self.getattr(self.eval(node.value, env), node.attr)

    def e_Tuple(self, node, env):
        return tuple(self.eval_elts(node.elts, env))

    def e_List(self, node, env):
        return ListV(self.eval_elts(node.elts, env))

    def e_Set(self, node, env):
        return SetV(self.eval_elts(node.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, node, env):
        d = DictV()
        for k, v in zip(node.keys, node.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, DictV):
                    raise Unsupported('dict unpack')
                d.d.update(src.d)
            else:
                kk = self.eval(k, env)
                d.d[self.hashable(kk)] = self.eval(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, (ListV, DictV, SetV)):
            self.raise_('TypeError', 'unhashable type')
        return k

    def e_Slice(self, node, env):
        f = lambda n: None if n is None else self.eval(n, env)
        return SliceV(f(node.lower), f(node.upper), f(node.step))

    def e_Subscript(self, node, env):
        return self.getitem(self.eval(node.value, env), self.eval(node.slice, env))

    def e_Starred(self, node, env):
        raise Unsupported('starred')

    def e_IfExp(self, node, env):
        if self.truth(self.eval(node.test, env)):
            return self.eval(node.body, env)
        return self.eval(node.orelse, env)

    def e_BoolOp(self, node, env):
        isand = isinstance(node.op, ast.And)
        v = None
        for e in node.values:
            v = self.eval(e, env)
            if e is node.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (App, Sym, Poly)) else False
            if not isand and t:
                return v if not (isinstance(v, (App, Sym)) and v.typ == 'bool') else True
        return v

    def e_UnaryOp(self, node, env):
        v = self.eval(node.operand, env)
        if isinstance(node.op, ast.Not):
            if isinstance(v, (App, Sym)) and v.typ == 'bool':
                return self.not_(v)
            return not self.truth(v)
        if isinstance(node.op, ast.USub):
            if T.isnum(v):
                return T.neg(v)
            if hasattr(v, 'abs_neg'):
                return v.abs_neg(self)
            if isinstance(v, (App, Sym)):
                return T.neg(T.to_poly(v)) if v.typ in ('int', 'float') else App('neg', (v,))
        if isinstance(v, Obj):
            g, c = v.cls.lookup({'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(node.op).__name__])
            if g is not None:
                return self.call(BoundV(g, v), [], {})
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert):
            if isinstance(v, (App, Sym)) and v.typ == 'bool':
                return self.not_(v)
            if hasattr(v, 'abs_invert'):
                return v.abs_invert(self)
            if isinstance(v, int):
                return ~v
            return App('invert', (freeze(v),))
        raise Unsupported('unary')

    def e_BinOp(self, node, env):
        a = self.eval(node.left, env)
        b = self.eval(node.right, env)
        return self.binop(type(node.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, (Sym, App)) and a.typ in ('int', 'float') and not isinstance(a, Poly):
            a = T.to_poly(a)
        if isinstance(b, (Sym, App)) and b.typ in ('int', 'float'):
            b = T.to_poly(b)
        if isinstance(a, (Sym, App)) and a.typ == 'bool' and T.isnum(b):
            a = int(self.truth(a))
        if isinstance(b, (Sym, App)) and b.typ == 'bool' and T.isnum(a):
            b = int(self.truth(b))
        if T.isnum(a) and T.isnum(b):
            return self.num_binop(op, a, b)
        if hasattr(a, 'abs_binop'):
            r = a.abs_binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if hasattr(b, 'abs_binop'):
            r = b.abs_binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if op == 'Add':
            if isinstance(a, ListV) and isinstance(b, ListV):
                return ListV(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, str) and isinstance(b, str):
                return a + b
        if op == 'Mult':
            if isinstance(a, ListV) and isinstance(b, int):
                return ListV(a.items * b)
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
            if isinstance(b, ListV) and isinstance(a, int):
                return ListV(b.items * a)
            if isinstance(b, tuple) and isinstance(a, int):
                return b * a
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(a, (tuple, ListV)) and isinstance(b, Poly):
                items = a if isinstance(a, tuple) else a.items
                if items and all(T.keyof(x) == T.keyof(items[0]) for x in items):
                    return RepV(items[0], b, 'tuple' if isinstance(a, tuple) else 'list')
        if op == 'Mod' and isinstance(a, str):
            try:
                return a % b
            except Exception:
                return App('fmt', (a, freeze(b)), 'str')
        if isinstance(a, SetV) and isinstance(b, (SetV, DictV)):
            if op == 'Sub':
                return SetV([x for x in a.d if not self.contains(b, x)], ordered=a.ordered)
            if op == 'BitAnd':
                return SetV([x for x in a.d if self.contains(b, x)], ordered=a.ordered)
            if op == 'BitOr':
                return SetV(list(a.d) + list(b.d), ordered=a.ordered)
            if op == 'BitXor':
                return SetV([x for x in a.d if not self.contains(b, x)] + [x for x in b.d if not self.contains(a, x)], ordered=a.ordered)
        if isinstance(a, DictV) and isinstance(b, DictV):
            if op == 'BitOr':
                return DictV({**a.d, **b.d})
            if op == 'BitAnd':
                return DictV({k: v for k, v in a.d.items() if k in b.d})
        if isinstance(a, DictV) and isinstance(b, (SetV, ListV)) and op == 'BitAnd':
            return DictV({k: v for k, v in a.d.items() if self.contains(b, k)})
        if isinstance(a, DictV) and isinstance(b, (DictV, SetV, ListV)) and op == 'Sub':
            return DictV({k: v for k, v in a.d.items() if not self.contains(b, k)})
        if isinstance(a, Obj):
            name = DUNDER.get(op)
            g, c = a.cls.lookup('__%s__' % name) if name else (None, None)
            if g is not None:
                return self.call(BoundV(g, a), [b], {})
        if isinstance(b, Obj):
            name = DUNDER.get(op)
            g, c = b.cls.lookup('__r%s__' % name) if name else (None, None)
            if g is not None:
                return self.call(BoundV(g, b), [a], {})
        if a is None or b is None:
            self.raise_('TypeError', 'unsupported operand %s: None' % op)
        if op == 'Add' and any(isinstance(x, str) and (isinstance(y, (ClassV, FuncV)) or isinstance(y, ExtV) and y.name.startswith('builtins.'))
                               for x, y in ((a, b), (b, a))):
            self.raise_('TypeError', 'can only concatenate str to str')
        if isinstance(a, Sym) and a.nullable and self.is_none(a):
            self.raise_('TypeError', 'unsupported operand %s: None' % op)
        if isinstance(b, Sym) and b.nullable and self.is_none(b):
            self.raise_('TypeError', 'unsupported operand %s: None' % op)
        if isinstance(a, (str, tuple, ListV, DictV)) and T.isnum(b) or T.isnum(a) and isinstance(b, (str, tuple, ListV, DictV)):
            self.raise_('TypeError', 'unsupported operand types')
        return App('op:' + op, (freeze(a), freeze(b)), 'str' if isinstance(a, str) or isinstance(b, str) else 'any')

    def num_binop(self, op, a, b):
        ca, cb = T.const_of(a), T.const_of(b)
        if op == 'Add':
            return T.add(a, b)
        if op == 'Sub':
            return T.sub(a, b)
        if op == 'Mult':
            return T.mul(a, b)
        if op == 'Div':
            if cb == 0:
                self.raise_('ZeroDivisionError')
            return T.div(a, b)
        if op == 'Pow':
            return T.power(a, b)
        if op == 'FloorDiv':
            if cb == 0:
                self.raise_('ZeroDivisionError')
            if ca is not None and cb is not None:
                return ca // cb
            return T.rounding('floor', T.div(a, b))
        if op == 'Mod':
            if ca is not None and cb is not None:
                return ca % cb
            return T.to_poly(App('mod', (a, b), 'int' if T.is_int_val(a) and T.is_int_val(b) else 'float'))
        if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, bool) and isinstance(b, bool):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
        if ca is not None and cb is not None and isinstance(ca, int) and isinstance(cb, int):
            return {'BitAnd': ca & cb, 'BitOr': ca | cb, 'BitXor': ca ^ cb,
                    'LShift': ca << cb if op == 'LShift' else 0, 'RShift': ca >> cb if op == 'RShift' else 0}[op]
        if op == 'LShift':
            return T.mul(a, T.power(2, b))
        if op == 'RShift':
            return T.rounding('floor', T.div(a, T.power(2, b)))
        return T.to_poly(App('op:' + op, (a, b), 'float'))

    def e_Compare(self, node, env):
        left = self.eval(node.left, env)
        last = None
        for i, (op, rn) in enumerate(zip(node.ops, node.comparators)):
            right = self.eval(rn, env)
            last = self.compare(type(op).__name__, left, right)
            if i < len(node.ops) - 1:
                if not self.truth(last):
                    return False
            left = right
        return last

    def compare(self, op, a, b):
        if op == 'Is':
            return self.is_same(a, b)
        if op == 'IsNot':
            return self.negv(self.is_same(a, b))
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return self.negv(self.contains(b, a))
        if op == 'Eq':
            return self.equal(a, b)
        if op == 'NotEq':
            return self.negv(self.equal(a, b))
        sym = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
        a, b = self.asnum(a), self.asnum(b)
        if T.isnum(a) and T.isnum(b):
            return self.rel(sym, a, b)
        for x, y, s in ((a, b, sym), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[sym])):
            if hasattr(x, 'abs_compare'):
                r = x.abs_compare(self, s, y)
                if r is not NotImplemented:
                    return r
        if isinstance(a, ListV) and isinstance(b, ListV):
            a, b = tuple(a.items), tuple(b.items)
        for x, y, s in ((a, b, op), (b, a, {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}[op])):
            if isinstance(x, Obj):
                g, c = x.cls.lookup({'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[s])
                if g is not None:
                    return self.call(BoundV(g, x), [y], {})
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if self.truth(self.equal(x, y)):
                    continue
                return self.compare(op, x, y)
            return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b), '>=': len(a) >= len(b)}[sym]
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[sym]
        if a is None or b is None:
            self.raise_('TypeError', "'%s' not supported with NoneType" % sym)
        for x in (a, b):
            if isinstance(x, Sym) and x.nullable and self.is_none(x):
                self.raise_('TypeError', "'%s' not supported with NoneType" % sym)
        if isinstance(a, SetV) and isinstance(b, SetV):
            sub = all(x in b.d for x in a.d)
            sup = all(x in a.d for x in b.d)
            return {'<': sub and not sup, '<=': sub, '>': sup and not sub, '>=': sup}[sym]
        return App('cmp:' + sym, (freeze(a), freeze(b)), 'bool')

    def negv(self, v):
        if isinstance(v, (App, Sym)):
            return self.not_(v)
        if hasattr(v, 'abs_not'):
            return v.abs_not(self)
        return not self.truth(v)

    def asnum(self, v):
        if isinstance(v, (Sym, App)) and v.typ in ('int', 'float'):
            return T.to_poly(v)
        return v

    def is_same(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, Sym) and x.nullable:
                return App('isnone', (x,), 'bool')
            if isinstance(x, App) and x.typ == 'any' and x.op.startswith(('ext:', 'call', 'attr', 'item', 'meta')):
                return App('isnone', (x,), 'bool')
            if hasattr(x, 'abs_is_none'):
                return x.abs_is_none(self)
            return False
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, (str, int)) or isinstance(b, (str, int)):
            if isinstance(a, (Sym, App, Poly)) or isinstance(b, (Sym, App, Poly)):
                return self.equal(a, b)
            return type(a) is type(b) and a == b
        if isinstance(a, (Sym, App)) and isinstance(b, (Sym, App)):
            return True if a == b else App('eqv', (a, b), 'bool')
        if isinstance(a, (ExtV, SliceV, tuple)):
            return a == b
        if hasattr(a, 'abs_is'):
            return a.abs_is(self, b)
        return a is b

    def equal(self, a, b):
        a, b = self.asnum(a), self.asnum(b)
        if a is b and not isinstance(a, float):
            return True
        if T.isnum(a) and T.isnum(b):
            return self.rel('==', a, b)
        for x, y in ((a, b), (b, a)):
            if hasattr(x, 'abs_equal'):
                r = x.abs_equal(self, y)
                if r is not NotImplemented:
                    return r
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListV) and isinstance(b, ListV):
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            if len(xs) != len(ys):
                return False
            cs = []
            for x, y in zip(xs, ys):
                c = self.equal(x, y)
                c = c if isinstance(c, (bool, App)) else self.truth(c)
                if c is False:
                    return False
                if c is not True:
                    cs.append(c)
            if not cs:
                return True
            if len(cs) == 1:
                return cs[0]
            return App('and', tuple(cs), 'bool')
        if isinstance(a, DictV) and isinstance(b, DictV):
            if set(a.d) != set(b.d):
                return False
            return all(self.truth(self.equal(a.d[k], b.d[k])) for k in a.d)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return list(a.d) == list(b.d) if a.ordered and b.ordered else set(a.d) == set(b.d)
        if isinstance(a, (str, type(None), bool)) and isinstance(b, (str, type(None), bool)):
            return a == b
        if isinstance(a, Obj):
            g, c = a.cls.lookup('__eq__')
            if g is not None:
                return self.call(BoundV(g, a), [b], {})
            if isinstance(b, Obj) and a.cls is b.cls and str(a.cls.ns.get('__decorated__', '')).endswith('dataclass'):
                return self.equal(DictV(a.attrs), DictV(b.attrs))
            if not isinstance(b, (App, Sym)):
                return a is b
        if isinstance(b, Obj) and not isinstance(a, (App, Sym)):
            g, c = b.cls.lookup('__eq__')
            if g is not None:
                return self.call(BoundV(g, b), [a], {})
            return False
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return self.equal((a.start, a.stop, a.step), (b.start, b.stop, b.step))
        if isinstance(a, (Sym, App)) or isinstance(b, (Sym, App)):
            s, o = (a, b) if isinstance(a, (Sym, App)) else (b, a)
            if o is None:
                return self.is_same(s, None)
            if isinstance(s, Sym) and s.typ in ('str', 'int', 'float') and not isinstance(o, (str, Sym, App)) and not T.isnum(o):
                return False
            if s.typ == 'str' and T.isnum(o):
                return False
            fa, fb = freeze(a), freeze(b)
            if T.keyof(fa) == T.keyof(fb):
                return True
            ka, kb = sorted((fa, fb), key=T.keyof)
            return App('eqv', (ka, kb), 'bool')
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            return a == b
        if isinstance(a, Poly) or isinstance(b, Poly):
            return False
        return a == b

    def contains(self, coll, x):
        if hasattr(coll, 'abs_contains'):
            return coll.abs_contains(self, x)
        if isinstance(coll, (DictV, SetV)):
            if isinstance(x, (Sym, App, Poly)):
                if x in coll.d:
                    return True
                for k in coll.d:
                    if isinstance(k, (str, int, Sym, App, Poly)) and self.truth(self.equal(x, k)):
                        return True
                return False
            try:
                return x in coll.d
            except TypeError:
                self.raise_('TypeError', 'unhashable')
        if isinstance(coll, (ListV, tuple, IterV)):
            items = coll if isinstance(coll, tuple) else coll.items
            for y in items:
                if self.truth(self.equal(x, y)):
                    return True
            return False
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, Obj):
            g, c = coll.cls.lookup('__contains__')
            if g is not None:
                return self.call(BoundV(g, coll), [x], {})
        if coll is None:
            self.raise_('TypeError', "argument of type 'NoneType' is not iterable")
        return App('in', (freeze(x), freeze(coll)), 'bool')

    def e_Call(self, node, env):
        # zero argument super
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            e = env
            while e is not None and '__class_cell__' not in e.vars:
                e = e.parent
            cls = e.vars['__class_cell__'] if e else None
            if cls is None:
                raise Unsupported('super')
            return SuperV(self.frames[-1].self_, cls)
        line = node.lineno
        f = self.eval(node.func, env)
        args = self.eval_elts(node.args, env)
        kwargs = {}
        for kw in node.keywords:
            v = self.eval(kw.value, env)
            if kw.arg is None:
                if isinstance(v, DictV):
                    for k, x in v.d.items():
                        if k in kwargs:
                            self.raise_('TypeError', 'multiple values for keyword %r' % (k,))
                        kwargs[k] = x
                elif v is None:
                    self.raise_('TypeError', 'argument after ** must be a mapping')
                else:
                    raise Unsupported('** of %r' % (v,))
            else:
                if kw.arg in kwargs:
                    self.raise_('TypeError', 'multiple values for keyword %r' % kw.arg)
                kwargs[kw.arg] = v
        self.frames[-1].line = line
        return self.call(f, args, kwargs)

    def e_Lambda(self, node, env):
        return self.make_function(node, env)

    def comp(self, generators, env, emit):
        def rec(i, e):
            if i == len(generators):
                emit(e)
                return
            g = generators[i]
            for x in self.iterate(self.eval(g.iter, e)):
                self.assign(g.target, x, e)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    rec(i + 1, e)
        ce = Env(parent=env)
        # super() and class cells are found through the parent chain
        rec(0, ce)

    def e_ListComp(self, node, env):
        out = []
        if len(node.generators) == 1 and not node.generators[0].ifs:
            it = self.eval(node.generators[0].iter, env)
            g = self.generic_iter(it)
            if g is not None:
                ce = Env(parent=env)
                self.assign(node.generators[0].target, g, ce)
                return self.M.MapV(freeze(self.eval(node.elt, ce)), it)
            ce = Env(parent=env)
            for x in self.iterate(it):
                self.assign(node.generators[0].target, x, ce)
                out.append(self.eval(node.elt, ce))
            return ListV(out)
        self.comp(node.generators, env, lambda e: out.append(self.eval(node.elt, e)))
        return ListV(out)

    def e_GeneratorExp(self, node, env):
        v = self.e_ListComp(node, env)
        return IterV(v.items) if isinstance(v, ListV) else v

    def e_SetComp(self, node, env):
        out = []
        self.comp(node.generators, env, lambda e: out.append(self.eval(node.elt, e)))
        return SetV(out)

    def e_DictComp(self, node, env):
        out = DictV()

        def emit(e):
            out.d[self.hashable(self.eval(node.key, e))] = self.eval(node.value, e)
        self.comp(node.generators, env, emit)
        return out

    def e_JoinedStr(self, node, env):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = self.e_JoinedStr(v.format_spec, env) if v.format_spec is not None else ''
                if isinstance(spec, str) and (spec or v.conversion in (114, 97)) and isinstance(x, (str, int, float)):
                    if v.conversion in (114, 97):
                        x = repr(x)
                    try:
                        parts.append(format(x, spec))
                    except (ValueError, TypeError) as ex:
                        self.raise_(type(ex).__name__, str(ex))
                    continue
                parts.append(self.to_str(x))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return App('fmt', tuple(freeze(p) for p in parts), 'str')

    def e_FormattedValue(self, node, env):
        return self.to_str(self.eval(node.value, env))

    def to_str(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, (int, bool, type(None))):
            return str(x)
        return App('str', (freeze(x),), 'str')

    def e_NamedExpr(self, node, env):
        v = self.eval(node.value, env)
        self.assign(node.target, v, env)
        return v

    def e_Yield(self, node, env):
        v = None if node.value is None else self.eval(node.value, env)
        fr = self.frames[-1]
        if fr.yields is None:
            raise Unsupported('yield')
        fr.yields.append(v)
        if len(fr.yields) > 200:
            raise PathLimit('generator')
        return None

    def e_YieldFrom(self, node, env):
        for v in self.iterate(self.eval(node.value, env)):
            self.frames[-1].yields.append(v)
        return None

    # ------------------------------------------------------------ iteration
    def generic_iter(self, v):
        if hasattr(v, 'abs_generic'):
            return v.abs_generic(self)
        return None

    def iterate(self, v):
        if isinstance(v, ListV):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, IterV):
            while v.pos < len(v.items):
                x = v.items[v.pos]
                v.pos += 1
                yield x
            return
        if isinstance(v, tuple):
            yield from v
            return
        if isinstance(v, (DictV, SetV)):
            yield from list(v.d)
            return
        if isinstance(v, str):
            yield from v
            return
        if isinstance(v, RangeV):
            a, b, s = (T.const_of(x) for x in (v.start, v.stop, v.step))
            if None in (a, b, s):
                raise Unsupported('symbolic range')
            if len(range(a, b, s)) > 500:
                raise PathLimit('range')
            yield from range(a, b, s)
            return
        if hasattr(v, 'abs_iter'):
            yield from v.abs_iter(self)
            return
        if isinstance(v, Obj):
            g, c = v.cls.lookup('__iter__')
            if g is not None:
                yield from self.iterate(self.call(BoundV(g, v), [], {}))
                return
            g, c = v.cls.lookup('__getitem__')
            if g is not None:
                i = 0
                while True:
                    try:
                        x = self.call(BoundV(g, v), [i], {})
                    except AbsRaise as ex:
                        if ex.exc is IndexError:
                            return
                        raise
                    yield x
                    i += 1
                    if i > 200:
                        raise PathLimit('iteration')
        if v is None or T.isnum(v):
            self.raise_('TypeError', 'not iterable')
        if isinstance(v, Sym) and v.nullable and self.is_none(v):
            self.raise_('TypeError', 'NoneType is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=Ellipsis):
        o = self.unlazy(o)
        try:
            return self._getattr(o, name)
        except AbsRaise as ex:
            if default is not Ellipsis and ex.exc is AttributeError:
                return default
            raise

    def no_attr(self, o, name):
        tn = type_name(o)
        raise AbsRaise(AttributeError, ('%r object has no attribute %r' % (tn, name),), self.site(), True)

    def _getattr(self, o, name):
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else (o.obj.mro() if isinstance(o.obj, ClassV) else [])
            start = mro.index(o.cls) + 1 if o.cls in mro else 0
            for c in mro[start:]:
                if isinstance(c, ClassV) and name in c.ns:
                    return self.bind_attr(c.ns[name], o.obj)
            if name == '__init__':
                return BuiltinV('object.__init__', lambda it, a, k: None)
            return BoundV(BuiltinV('super.' + name, lambda it, a, k: App('supercall:' + name, tuple(freeze(x) for x in a))), o.obj)
        if hasattr(o, 'abs_getattr'):
            r = o.abs_getattr(self, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, Obj):
            return self.obj_getattr(o, name)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro())
            v, c = o.lookup(name)
            if c is not None:
                v = self.unlazy(v)
                if isinstance(v, ClassMethodV):
                    return BoundV(v.f, o)
                if isinstance(v, StaticV):
                    return v.f
                return v
            if name == '__init__':
                return BuiltinV('object.__init__', lambda it, a, k: None)
            return self.no_attr(o, name)
        if isinstance(o, ModuleV):
            return self.module_attr(o.name, name)
        if isinstance(o, ExtV):
            return self.ext(o.name + '.' + name)
        if isinstance(o, SliceV) and name in SliceV.__slots__:
            return getattr(o, name)
        m = self.M.value_method(self, o, name)
        if m is not None:
            return m
        if o is None:
            self.no_attr(o, name)
        if isinstance(o, Sym) and o.nullable and self.is_none(o):
            self.no_attr(None, name)
        if isinstance(o, (App, Sym)):
            if o.typ in ('int', 'float', 'bool', 'str'):
                pass
            return AttrV(o, name)
        if isinstance(o, FuncV):
            if name == '__name__':
                return o.qualname.split('.')[-1]
            if name == '__doc__':
                return App('doc')
        if isinstance(o, type) and name == '__name__':
            return o.__name__
        for c, t in ((ListV, list), (DictV, dict), (SetV, set), (tuple, tuple), (str, str), (SliceV, slice), (IterV, type(x for x in ''))):
            if isinstance(o, c) and (hasattr(t, name) or c is DictV and name in UDICT or c is SetV and o.ordered and name in OSET):
                raise Unsupported('%s.%s' % (t.__name__, name))
        if T.isnum(o) and not isinstance(o, bool) and hasattr(float, name):
            raise Unsupported('number.%s' % name)
        if isinstance(o, ExcV):
            if name == 'args':
                return o.args
            return App('attr:' + name, (o.key,))
        self.no_attr(o, name)

    def bind_attr(self, v, obj):
        if isinstance(v, (FuncV, BuiltinV)):
            return BoundV(v, obj)
        if isinstance(v, PropV):
            return self.call(BoundV(v.fget, obj), [], {})
        if isinstance(v, ClassMethodV):
            return BoundV(v.f, obj.cls if isinstance(obj, Obj) else obj)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, LazyImport):
            return self.unlazy(v)
        return v

    def obj_getattr(self, o, name):
        if name == '__class__':
            return o.cls
        v, c = o.cls.lookup(name)
        if isinstance(v, PropV):
            if v.memo:
                mk = '__memo__' + name
                if mk not in o.attrs:
                    o.attrs[mk] = self.call(BoundV(v.fget, o), [], {})
                return o.attrs[mk]
            return self.call(BoundV(v.fget, o), [], {})
        if name in o.attrs:
            return o.attrs[name]
        if c is not None:
            return self.bind_attr(v, o)
        if name == '__dict__':
            return DictV(o.attrs)
        g, c = o.cls.lookup('__getattr__')
        if g is not None:
            return self.call(BoundV(g, o), [name], {})
        ext = [b for b in o.cls.mro() if isinstance(b, (ExtV, App))]
        for b in ext:
            m = self.models.get(getattr(b, 'name', '') + '.' + name)
            if m is not None and callable(m):
                return BoundV(BuiltinV(name, m), o)
        if ext and any(getattr(b, 'name', '') not in ('builtins.object', 'ubelt.NiceRepr') for b in ext):
            return AttrV(App('ref', (o.key,)), name)
        self.no_attr(o, name)

    def setattr(self, o, name, v):
        if hasattr(o, 'abs_setattr'):
            r = o.abs_setattr(self, name, v)
            if r is not NotImplemented:
                return
        if isinstance(o, Obj):
            d, c = o.cls.lookup(name)
            if isinstance(d, PropV):
                if d.fset is None:
                    if d.memo:
                        o.attrs['__memo__' + name] = v
                        return
                    raise AbsRaise(AttributeError, ('cannot set %s' % name,), self.site(), True)
                self.call(BoundV(d.fset, o), [v], {})
                return
            self.write_check(o, 'write', '.' + name)
            o.attrs[name] = v
            return
        if isinstance(o, ClassV):
            self.effect('classwrite', o, name)
            o.ns[name] = v
            return
        if o is None:
            self.no_attr(o, name)
        if isinstance(o, (App, Sym)):
            self.effect('write', o, '.' + name)
            return
        if isinstance(o, (ExtV, ModuleV)):
            self.effect('modwrite', o, name)
            return
        raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        if hasattr(o, 'abs_getitem'):
            return o.abs_getitem(self, i)
        if isinstance(o, DictV):
            if isinstance(i, (Sym, App)) and i not in o.d:
                for k in o.d:
                    if self.truth(self.equal(i, k)):
                        return o.d[k]
                self.raise_('KeyError', i)
            try:
                if i in o.d:
                    return o.d[i]
            except TypeError:
                self.raise_('TypeError', 'unhashable')
            self.raise_('KeyError', i)
        if isinstance(o, (ListV, tuple, str)):
            items = o.items if isinstance(o, ListV) else o
            if isinstance(i, SliceV):
                s = [T.const_of(x) if x is not None else None for x in (i.start, i.stop, i.step)]
                if any(x is not None and y is None for x, y in zip((i.start, i.stop, i.step), s)):
                    return App('item', (freeze(o), freeze(i)))
                r = items[slice(*s)]
                return ListV(r) if isinstance(o, ListV) else r
            c = T.const_of(i) if T.isnum(i) else None
            if c is not None:
                try:
                    return items[int(c)]
                except IndexError:
                    self.raise_('IndexError', i)
            if isinstance(i, (Poly, App, Sym)):
                return App('item', (freeze(o), freeze(i)))
            self.raise_('TypeError', 'bad index %r' % (i,))
        if isinstance(o, SetV) and o.ordered and isinstance(i, SliceV):
            c = i.const()
            if c is not None:
                return SetV(list(o.d)[c], ordered=True)
        if isinstance(o, SetV) and o.ordered and T.isnum(i):
            c = T.const_of(i)
            if c is not None:
                try:
                    return list(o.d)[int(c)]
                except IndexError:
                    self.raise_('IndexError', i)
        if isinstance(o, IterV):
            self.raise_('TypeError', 'not subscriptable')
        if isinstance(o, RangeV):
            if T.isnum(i):
                return T.add(o.start, T.mul(i, o.step))
        if isinstance(o, Obj):
            if o.cls is None:
                return self.call(self.getattr(o, '__getitem__'), [i], {})
            g, c = o.cls.lookup('__getitem__')
            if g is not None:
                return self.call(BoundV(g, o), [i], {})
        if isinstance(o, ClassV):
            g, c = o.lookup('__class_getitem__')
            return o
        if isinstance(o, ExtV):
            return o
        if o is None or T.isnum(o):
            self.raise_('TypeError', '%s is not subscriptable' % type_name(o))
        if isinstance(o, Sym) and o.nullable and self.is_none(o):
            self.raise_('TypeError', 'NoneType is not subscriptable')
        if isinstance(o, AttrV):
            o = o.term
        if isinstance(o, (App, Sym)):
            return App('item', (o, freeze(i)))
        if isinstance(o, type):
            return o
        raise Unsupported('getitem on %r' % (o,))

    def setitem(self, o, i, v):
        if hasattr(o, 'abs_setitem'):
            return o.abs_setitem(self, i, v)
        if isinstance(o, DictV):
            self.write_check(o, 'write', '[%s]' % (i,))
            o.d[self.hashable(i)] = v
            return
        if isinstance(o, ListV):
            self.write_check(o, 'write', '[%s]' % (i,))
            if isinstance(i, int):
                try:
                    o.items[i] = v
                except IndexError:
                    self.raise_('IndexError')
                return
            if isinstance(i, SliceV) and i.const() is not None:
                o.items[i.const()] = list(self.iterate(v))
                return
        if isinstance(o, Obj):
            g, c = o.cls.lookup('__setitem__')
            if g is not None:
                self.call(BoundV(g, o), [i, v], {})
                return
        if isinstance(o, (App, Sym)):
            self.effect('arrwrite', o, '[...]')
            return
        if o is None or isinstance(o, tuple):
            self.raise_('TypeError', 'item assignment')
        raise Unsupported('setitem on %r' % (o,))


class AttrV:
    """An attribute of an unknown value; may be called."""

    def __init__(self, base, name):
        self.base, self.name = base, name
        self.term = App('attr:' + name, (base,))
        self.typ = 'any'
        self.op = self.term.op
        self.args = self.term.args

    @property
    def key(self):
        return self.term.key

    def freeze(self):
        return self.term

    def abs_call(self, it, args, kwargs):
        it.events.append(('method', self.base, self.name, tuple(args), dict(kwargs), it.site()))
        return App('call:' + self.name, (self.base,) + tuple(freeze(a) for a in args) + freeze_kw(kwargs))

    def abs_getattr(self, it, name):
        return AttrV(self.term, name)

    def abs_getitem(self, it, i):
        return App('item', (self.term, freeze(i)))

    def abs_truth(self, it):
        return it.truth(self.term)

    def abs_equal(self, it, other):
        return it.equal(self.term, other.term if isinstance(other, AttrV) else other)

    def abs_is_none(self, it):
        return App('isnone', (self.term,), 'bool')

    def abs_binop(self, it, op, other, swapped):
        return it.binop(op, other, self.term) if swapped else it.binop(op, self.term, other)

    def abs_compare(self, it, op, other):
        return App('cmp:' + op, (self.term, freeze(other)), 'bool')


class GenContext:
    """A context manager made of a generator with one top-level yield, perhaps in a try."""
    key = 'gencontext'

    def __init__(self, it, func, args, kwargs):
        self.env = Env(parent=func.env)
        self.env.vars.update(it.bind(func, args, kwargs))
        self.func = func
        body = list(func.node.body)
        self.stack = []         # (statements after, try)
        while True:
            at = [i for i, x in enumerate(body) if is_yield(x) or isinstance(x, ast.Try) and any(map(has_yield, x.body)) or isinstance(x, ast.With) and any(map(has_yield, x.body))]
            if len(at) != 1 or sum(map(has_yield, body)) != 1 or isinstance(body[at[0]], ast.With):
                raise Unsupported('context manager')
            x = body[at[0]]
            self.stack.append((body[:at[0]], body[at[0] + 1:], x))
            if is_yield(x):
                break
            body = list(x.body)

    def freeze(self):
        return App('context')

    def abs_enter(self, it):
        for pre, post, x in self.stack:
            it.exec_block(pre, self.env)
        y = self.stack[-1][2]
        e = y.value
        v = e.value if isinstance(e, ast.Yield) else None
        return None if v is None else it.eval(v, self.env)

    def abs_exit(self, it, ex):
        for pre, post, x in reversed(self.stack):
            try:
                if isinstance(x, ast.Try):
                    try:
                        if ex is not None:
                            for h in x.handlers:
                                if it.exc_matches(ex, h, self.env):
                                    fr = it.frames[-1]
                                    prev, fr.handling = fr.handling, ex
                                    try:
                                        it.exec_block(h.body, self.env)
                                    finally:
                                        fr.handling = prev
                                    ex = None
                                    break
                        else:
                            it.exec_block(x.orelse, self.env)
                    finally:
                        it.exec_block(x.finalbody, self.env)
                if ex is None:
                    it.exec_block(post, self.env)
            except _Return:
                return True
        return ex is None


def is_yield(x):
    return isinstance(x, ast.Expr) and isinstance(x.value, ast.Yield)


def has_yield(x):
    return any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x))


class LazyImport:
    def __init__(self, module, attr):
        self.module, self.attr = module, attr

    key = property(lambda self: 'import:%s.%s' % (self.module, self.attr))


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul',
          'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Mod': 'mod', 'Pow': 'pow',
          'FloorDiv': 'floordiv'}


def freeze_kw(kwargs):
    return tuple((k, freeze(v)) for k, v in sorted(kwargs.items()))


_GEN_CACHE = {}


def is_generator(node):
    r = _GEN_CACHE.get(id(node))
    if r is None:
        r = (any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)), node)
        _GEN_CACHE[id(node)] = r
    return r[0]


def walk_own(node):
    """Nodes of a function without those of nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def assigned_names(stmt):
    out = []
    for n in ast.walk(stmt):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
    return out


ALIASES = {'np': 'numpy', 'ub': 'ubelt'}


UDICT = ('map_keys', 'map_values', 'invert', 'sorted_keys', 'sorted_values', 'subdict', 'take', 'peek_key', 'peek_value', 'peek_item',
         'union', 'intersection', 'difference', 'symmetric_difference', 'move_to_end', 'walk', 'to_dict', 'default_factory')
OSET = ('append', 'index', 'update', 'get_loc', 'items')


def canonical_ext(name):
    return name


def type_name(o):
    if o is None:
        return 'NoneType'
    if isinstance(o, Obj):
        return o.cls.name
    if isinstance(o, ListV):
        return 'list'
    if isinstance(o, DictV):
        return 'dict'
    if isinstance(o, Poly):
        return 'number'
    return type(o).__name__


def explore(make_interp, run, max_paths=400, prefix=(), deadline=None):
    """
    Enumerate the traces of ``run(interp)`` that begin with the decisions
    ``prefix``; yields (interp, outcome) with outcome one of
    ('return', value), ('raise', AbsRaise), ('undecided', msg),
    ('truncated', n).
    """
    base = len(prefix)
    prefix = list(prefix)
    n = 0
    caches = []
    while prefix is not None:
        del caches[len(prefix):]
        ch = Chooser(prefix, caches)
        it = make_interp(ch)
        it.deadline = deadline
        try:
            out = ('return', run(it))
        except AbsRaise as ex:
            out = ('raise', ex)
        except (Unsupported, PathLimit) as ex:
            out = ('undecided', '%s at %s' % (ex, it.site_str() if it.frames else getattr(it, 'last_site', '?')))
        except RecursionError:
            out = ('undecided', 'recursion')
        except Exception as ex:     # a construct outside of the models
            out = ('undecided', 'internal: %s: %s at %s' % (type(ex).__name__, ex, it.site_str() if it.frames else '?'))
        n += 1
        yield it, out
        prefix = next_prefix(ch.trail, base)
        if prefix is not None and (n >= max_paths or deadline is not None and time.time() > deadline):
            yield it, ('truncated', n)
            return


def prefixes(make_interp, run, depth):
    """The decision prefixes of a length (or of shorter complete traces)."""
    out = []
    prefix = []
    while prefix is not None:
        ch = Chooser(prefix)
        it = make_interp(ch)
        try:
            run(it)
        except Exception:
            pass
        cut = ch.trail[:depth]
        out.append([c for _, c in cut])
        prefix = next_prefix(cut)
    return out
