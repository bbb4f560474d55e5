"""
Members of the concretization of an abstract state.

The facts of a trace are constraints over value numbers.  A *model* assigns
concrete numbers to the value numbers such that all facts hold.  Models are
used in two ways: a condition that is false in a model cannot be proved (the
proof is not attempted), and a mismatch between two abstract results is only
reported together with a model in which they differ; a mismatch without a model
may be an artifact of the abstraction and stays silent.
"""
import random
from fractions import Fraction

from . import terms as T
from .terms import Sym, App, Poly, Aff, Evaluator, Undefined

POOL = 5
TRIES = 14


def gen_affine(r):
    k = r.randrange(11)
    if k == 9:
        return ((r.choice([.5, 1., 2.]), r.choice([.2, -.3, .5]), r.choice([0., 1.5])), (0., r.choice([.5, 1., 2.]), r.choice([0., -1.5])), (0., 0., 1.))
    if k == 10:
        return ((r.choice([.2, .5, 1., -1., -2.]), 0., r.choice([0., 6., 9.5])), (0., r.choice([-.25, -.5, -1., -2.]), r.choice([0., 8., 12.])), (0., 0., 1.))
    if k == 0:
        return ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))
    if k == 1:
        return ((1., 0., float(r.randrange(-5, 9))), (0., 1., float(r.randrange(-5, 9))), (0., 0., 1.))
    if k == 2:
        s = .5 ** r.randrange(1, 4)
        return ((s, 0., 0.), (0., s, 0.), (0., 0., 1.))
    if k == 3:
        sx, sy = [r.choice([.1, .2, .25, .3, .4, .45]) for _ in 'xy']
        return ((sx, 0., r.choice([0., 1.3, -2.])), (0., sy, r.choice([0., .7, -3.])), (0., 0., 1.))
    if k == 4:
        sx, sy = [r.choice([1.5, 2., 3., 2.7, 5.]) for _ in 'xy']
        return ((sx, 0., r.choice([0., 1.3, -2.])), (0., sy, r.choice([0., .7, -3.])), (0., 0., 1.))
    if k == 5:
        sx, sy = [r.choice([.7, 1., 1.2, .9, 3., .3]) for _ in 'xy']
        return ((sx, 0., r.uniform(-3, 5)), (0., sy, r.uniform(-3, 5)), (0., 0., 1.))
    import math
    t = r.uniform(-1.4, 1.4)
    f = r.choice([.2, .4, .8, 1., 1.5, 3.])
    sx, sy = f * r.uniform(.7, 1.3), f * r.uniform(.7, 1.3)
    sh = r.choice([0., 0., r.uniform(-.3, .3)])
    c, s = math.cos(t), math.sin(t)
    return ((c * sx, c * sh * sy - s * sy, r.uniform(-4, 6)), (s * sx, s * sh * sy + c * sy, r.uniform(-4, 6)), (0., 0., 1.))


def vary_affine(m):
    """Scaled and moved variants."""
    (a, b, c), (d, e, f), last = m
    out = []
    for s in (.25, .5, 2., 4.):
        out.append(((a * s, b * s, c), (d * s, e * s, f), last))
    for s, t in ((.3, 1.), (1., .3), (3., 1.), (1., 3.)):
        out.append(((a * s, b * t, c), (d * s, e * t, f), last))
    out.append(((a, b, 0.), (d, e, 0.), last))
    out.append(((a, b, c + 5.), (d, e, f), last))
    out.append(((a, b, c), (d, e, f + 5.), last))
    return out


def gen_roomy(r, sym):
    """Windows well inside of large images."""
    tail = sym.name.rsplit('.', 1)[-1].rstrip('0123456789')
    if sym.typ == 'int':
        if tail in ('x0', 'y0'):
            return r.choice([0, 2, 5, 12, 30, 70])
        if tail in ('w', 'h'):
            return max(sym.lo or 0, r.choice([5, 11, 24, 40, 90, 200]))
        if tail in ('cw', 'ch'):
            return max(sym.lo or 0, r.choice([60, 120, 300]))
    if sym.typ == 'float':
        if tail in ('sx', 'sy'):
            return r.choice([.3, .5, .8, 1., 1.5, 2., 3.5])
        if tail in ('tx', 'ty'):
            return r.choice([0., .5, -3.3, -9., 2.2])
    return None


def gen(seed, sym):
    r = random.Random('%s/%s' % (seed, sym.name))
    if sym.gen is not None:
        return sym.gen(r)
    lo = sym.lo
    if isinstance(seed, str) and seed.startswith('roomy'):
        v = gen_roomy(r, sym)
        if v is not None:
            return v
    if sym.typ == 'int':
        tail = sym.name.rsplit('.', 1)[-1].rstrip('0123456789')
        if tail in ('k', 'o'):
            return (lo or 0) + r.choice([0, 0, 1, 1, 2, 3])
        if tail in ('w', 'h', 'cw', 'ch'):
            return (lo or 0) + r.choice([0, 1, 2, 4, 6, 7, 11, 15, 20, 31, 47])
        return (lo if lo is not None else -6) + r.choice([0, 0, 1, 1, 2, 3, 5, 8, 9])
    if sym.typ == 'float':
        tail = sym.name.rsplit('.', 1)[-1].rstrip('0123456789')
        if tail == 'eps':
            return 1e-6
        if tail in ('sy', 'ty') and random.Random('%s/flip' % seed).randrange(5) == 0:
            # a mirrored image, moved back onto the canvas
            return r.choice([-1., -.5, -2.] if tail == 'sy' else [3., 7.5, 12., 24.])
        if tail in ('sx', 'sy'):
            return r.choice([.2, .25, .4, .5, .7, 1., 1.3, 2., 3.])
        if tail in ('tx', 'ty'):
            return r.choice([0., 0., .5, 1.3, 3., -1., -2.6, -7., 9.5, 16.])
        v = r.choice([0., .5, 1., 1.7, 2., 4., 9.5])
        return float(lo) + v if lo is not None else v - r.choice([0, 0, 3])
    if sym.typ == 'bool':
        return r.random() < .5
    if sym.typ == 'affine':
        return gen_affine(r)
    return 'v%d' % r.randrange(10 ** 6)


INTERPRETED = {'floor', 'ceil', 'trunc', 'recip', 'min', 'max', 'abs', 'pow', 'log2', 'sqrt', 'sin', 'cos', 'atan2', 'floordiv', 'mod',
               'melem', 'round', 'not', 'and', 'truthy', 'isnone', 'aff_identity', 'aff_params', 'ite', 'cond', 'eqv', 'or'}


def free(c):
    """A predicate without an interpretation: any value is possible."""
    if c.op in ('eqv', 'truthy', 'isnone'):
        return any(isinstance(a, App) and a.op not in INTERPRETED and not a.op.startswith('dec_') for a in c.args)
    return c.op not in INTERPRETED and not c.op.startswith('dec_')


class Model:
    def __init__(self, seed, values=None):
        self.seed = seed
        self.values = dict(values or {})
        self.syms = {}
        self.ev = None
        self.version = -1

    def default(self, sym):
        self.syms[sym.name] = sym
        if sym.name not in self.values:
            self.values[sym.name] = gen(self.seed, sym)
        return self.values[sym.name]

    def evaluator(self, it):
        if self.ev is None or self.version != it.version:
            self.ev = Evaluator({}, self.seed, it.subst)
            self.ev.default = self.default
            self.version = it.version
        return self.ev

    def set(self, sym, val):
        self.values[sym.name] = val
        self.ev = None

    def holds(self, it, cond, val):
        try:
            return bool(self.evaluator(it).ev(cond)) == val
        except Undefined:
            return False

    def violated(self, it, constraints):
        """The index of the first constraint that does not hold (None: all hold)."""
        try:
            ev = self.evaluator(it)
            for cond, val in constraints:
                if isinstance(cond, App) and free(cond):
                    ev.memo[cond.key] = val
            for i, (cond, val) in enumerate(constraints):
                if isinstance(cond, Sym) and val is None:
                    v = ev.ev(cond)
                    if isinstance(v, bool) or not isinstance(v, (int, float)):
                        return i
                    if cond.typ == 'int' and abs(v - round(v)) > 1e-7 or cond.lo is not None and v < cond.lo - 1e-9:
                        return i
                elif bool(ev.ev(cond)) != val:
                    return i
        except Undefined:
            return -1
        return None

    def fits(self, it, rounds=10):
        """All facts hold, perhaps after a local search."""
        cons = [(s, None) for s in it.subst if isinstance(s, Sym) and s.typ in ('int', 'float')]
        cons += it.facts
        bad = self.violated(it, cons)
        for round_ in range(rounds):
            if bad is None:
                return True
            if bad == -1:
                return False
            nxt = self.repair(it, cons, bad, round_)
            if nxt is False:
                return False
            bad = nxt
        return False

    def repair(self, it, cons, bad, round_):
        """Move one value number such that the first violated constraint holds."""
        cond = cons[bad][0]
        syms = sorted((a for a in free_syms(it, cond) if a not in it.subst), key=lambda a: a.name)
        r = random.Random('%s/%s/%s' % (self.seed, bad, round_))
        moves = []
        for a in syms:
            old = self.default(a)
            if a.typ == 'int':
                for d in (1, 2, 4, 9, 20, 50, -1, -2, -4, -9):
                    if a.lo is None or old + d >= a.lo:
                        moves.append((a, old + d))
                if a.lo is not None and old != a.lo:
                    moves.append((a, a.lo))
            elif a.typ == 'affine':
                for _ in range(5):
                    moves.append((a, gen_affine(r)))
                if isinstance(old, tuple):
                    moves.extend((a, v) for v in vary_affine(old))
            elif a.typ == 'float':
                for _ in range(3):
                    v = gen(r.random(), a)
                    moves.append((a, v))
            elif a.typ == 'bool':
                moves.append((a, not old))
            elif isinstance(cond, App) and cond.op == 'eqv':
                moves.extend((a, x) for x in cond.args if isinstance(x, str))
                moves.append((a, 'w%d' % r.randrange(10 ** 6)))
        r.shuffle(moves)
        for a, v in moves[:24]:
            old = self.values.get(a.name)
            self.set(a, v)
            now = self.violated(it, cons)
            if now is None or now > bad:
                return now
            self.set(a, old)
        return False


def free_syms(it, v, seen=None):
    """The free value numbers of a term."""
    out = {}
    todo = [it.canon(v)]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, Sym):
            if x in it.subst and x.name not in seen:
                seen.add(x.name)
                todo.append(it.subst[x])
            out[x] = None
        elif isinstance(x, App):
            if x.key not in seen:
                seen.add(x.key)
                todo.extend(x.args)
        elif isinstance(x, Poly):
            for m in x.terms:
                for a, e in m:
                    todo.append(a)
        elif isinstance(x, Aff):
            for f in x.word:
                if f[0] == 'A':
                    todo.append(f[1])
                else:
                    todo.extend(f[1])
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def models(it, want=POOL, tries=TRIES):
    """Some models of the facts of the trace (possibly none)."""
    stamp = (len(it.facts), it.version)
    if it.model_stamp == stamp:
        return it.model_pool
    shared = it.chooser.cache
    key = ('models', stamp)
    if key in shared:
        pool = [Model(s, v) for s, v in shared[key]]
    else:
        pool = [m for m in it.model_pool if m.fits(it)]
        if len(pool) < 2:
            for i in range(tries):
                m = Model(it.model_seed + i)
                if m.fits(it):
                    pool.append(m)
                    if len(pool) >= want:
                        break
            it.model_seed += tries
        shared[key] = [(m.seed, dict(m.values)) for m in pool]
    it.model_pool = pool
    it.model_stamp = stamp
    return pool


def neighbours(it, pool, n=40, rounds=1):
    """More models: members that differ from a known one in a few value numbers."""
    pool = [m for m in pool if m.syms or m.fits(it, 0)]
    for i in range(n if pool else 0):
        base = pool[i % len(pool)]
        r = random.Random('near/%s/%d' % (base.seed, i))
        m = Model('near%d' % i, base.values)
        for c in r.sample(sorted(base.syms), min(len(base.syms), r.choice((1, 1, 2, 3)))):
            sym = base.syms[c]
            if sym in it.subst:
                continue
            if sym.typ == 'int' and i % 2:
                m.set(sym, max(sym.lo if sym.lo is not None else -60, base.values[c] + r.choice((-40, -7, 5, 12, 30, 80))))
            else:
                m.set(sym, gen('near/%s/%d' % (base.seed, i), sym))
        if m.fits(it, rounds):
            yield m


def roomy(it, n=24, rounds=4):
    for i in range(n):
        m = Model('roomy%d' % i)
        if m.fits(it, rounds):
            yield m


def refuted(it, cond):
    """Some model makes the condition false."""
    for m in models(it):
        if m.holds(it, cond, False):
            return True
    return False


def witness(it, cond, val, tries=24):
    """Is there a model of the facts in which the condition has the value?"""
    pool = models(it)
    for m in pool:
        if m.holds(it, cond, val):
            return True
    n = len(it.facts)
    it.facts.append((cond, val))
    try:
        for m in pool:
            c = Model('%s+' % m.seed, m.values)
            if c.fits(it):
                return True
        for i in range(tries):
            c = Model('w%d' % i)
            if c.fits(it):
                return True
    finally:
        del it.facts[n:]
    return False
