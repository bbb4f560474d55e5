"""
Value numbers.

Every value the abstract interpreter cannot resolve to a constant is a *term*:
a symbol, an uninterpreted application of an operator to terms, or a Laurent
polynomial with rational coefficients over such atoms.  Polynomials are kept in
a canonical form, so two values with the same value number are equal for every
input.  Affine transforms are words of factors (symbolic transforms and 2x3
term matrices), reduced in the free group.

``evaluate`` gives a term a numeric meaning under an assignment of its symbols.
It is used for one thing: a mismatch of value numbers is only reported if an
assignment, consistent with the facts of the path, separates the two terms
(random interpretation, Gulwani & Necula 2003).  No code of the repository is
run.
"""
from fractions import Fraction
import hashlib
import math


class Sym:
    """A symbolic input."""
    __slots__ = ('name', 'typ', 'lo', 'gen', 'nullable', 'info')

    def __init__(self, name, typ='any', lo=None, gen=None, nullable=False, info=None):
        self.name = name
        self.typ = typ
        self.lo = lo
        self.gen = gen
        self.nullable = nullable
        self.info = info

    def __repr__(self):
        return self.name

    key = property(lambda self: self.name)


class App:
    """An uninterpreted (or numerically interpreted) operator application."""
    __slots__ = ('op', 'args', 'typ', '_key', '_hash')

    def __init__(self, op, args=(), typ='any'):
        self.op = op
        self.args = tuple(args)
        self.typ = typ
        self._key = None
        self._hash = None

    @property
    def key(self):
        if self._key is None:
            self._key = '%s(%s)' % (self.op, ','.join(keyof(a) for a in self.args))
        return self._key

    def __eq__(self, other):
        return isinstance(other, App) and self.key == other.key

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def __repr__(self):
        return self.key


def keyof(v):
    if isinstance(v, (Sym, App, Poly, Aff)):
        return v.key
    if isinstance(v, tuple):
        return '(' + ','.join(keyof(x) for x in v) + ')'
    k = getattr(v, 'key', None)
    if isinstance(k, str):
        return k
    if isinstance(v, Fraction) and v.denominator == 1:
        return str(v.numerator)
    return repr(v)


def atom_is_int(a):
    if isinstance(a, Sym):
        return a.typ == 'int'
    if isinstance(a, App):
        return a.typ == 'int'
    return False


POSITIVE_OPS = {'dec_sx'}


def atom_positive(a):
    if isinstance(a, Sym):
        return a.lo is not None and a.lo > 0
    if isinstance(a, App):
        if a.op == 'pow':
            b = a.args[0]
            return isinstance(b, (int, Fraction)) and b > 0
        return a.op in POSITIVE_OPS
    return False


class Poly:
    """A Laurent polynomial; ``terms`` maps a monomial to its coefficient."""
    __slots__ = ('terms', '_key')

    def __init__(self, terms):
        self.terms = terms
        self._key = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for mono in sorted(self.terms, key=monokey):
                parts.append('%s*%s' % (self.terms[mono], monokey(mono)))
            self._key = '{' + ' + '.join(parts) + '}'
        return self._key

    def __eq__(self, other):
        return isinstance(other, Poly) and self.terms == other.terms

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(frozenset(self.terms.items()))

    def __repr__(self):
        parts = []
        for mono in sorted(self.terms, key=monokey):
            c = self.terms[mono]
            m = '*'.join('%s%s' % (keyof(a), '' if e == 1 else '^%d' % e) for a, e in mono)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(m)
            else:
                parts.append('%s*%s' % (c, m))
        return '(' + ' + '.join(parts) + ')'

    def single_atom(self):
        if len(self.terms) == 1:
            (mono, c), = self.terms.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return mono[0][0]
        return None

    def is_int(self):
        for mono, c in self.terms.items():
            if Fraction(c).denominator != 1:
                return False
            for a, e in mono:
                if e < 0 or not atom_is_int(a):
                    return False
        return True


def monokey(mono):
    return '*'.join('%s^%d' % (keyof(a), e) for a, e in mono)


NUMBER = (int, float, Fraction)


def isnum(v):
    return isinstance(v, Poly) or (isinstance(v, NUMBER) and not isinstance(v, bool)) or isinstance(v, bool)


def special(v):
    return isinstance(v, float) and (math.isnan(v) or math.isinf(v))


def to_poly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, Fraction)):
        return Poly({(): Fraction(v)} if v != 0 else {})
    if isinstance(v, float):
        f = Fraction(v)
        return Poly({(): f} if f else {})
    return Poly({((v, 1),): Fraction(1)})


def simp(p):
    """Unwrap constant polynomials."""
    if isinstance(p, Poly):
        if not p.terms:
            return 0
        if len(p.terms) == 1 and () in p.terms:
            c = p.terms[()]
            return int(c) if c.denominator == 1 else c
    return p


def mul_mono(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    items = [(a, e) for a, e in d.items() if e != 0]
    items.sort(key=lambda t: keyof(t[0]))
    return tuple(items)


def numeric_ok(*vs):
    return all(not special(v) for v in vs)


def add(a, b):
    if not numeric_ok(a, b):
        if isinstance(a, float) and isinstance(b, float):
            return a + b
        return special_op('add', a, b)
    pa, pb = to_poly(a), to_poly(b)
    t = dict(pa.terms)
    for m, c in pb.terms.items():
        n = t.get(m, 0) + c
        if n == 0:
            t.pop(m, None)
        else:
            t[m] = n
    return simp(Poly(t))


def special_op(op, a, b):
    return to_poly(App('f_' + op, (a, b), 'float'))


def neg(a):
    if special(a):
        return -a
    return simp(Poly({m: -c for m, c in to_poly(a).terms.items()}))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if not numeric_ok(a, b):
        return special_op('mul', a, b)
    pa, pb = to_poly(a), to_poly(b)
    t = {}
    for m1, c1 in pa.terms.items():
        for m2, c2 in pb.terms.items():
            m = mul_mono(m1, m2)
            n = t.get(m, 0) + c1 * c2
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = n
    return simp(Poly(t))


def inv(b):
    pb = to_poly(b)
    if not pb.terms:
        raise ZeroDivisionError
    if len(pb.terms) == 1:
        (m, c), = pb.terms.items()
        return simp(Poly({tuple((a, -e) for a, e in m): 1 / c}))
    # normalise by the leading coefficient
    lead = sorted(pb.terms, key=monokey)[0]
    c = pb.terms[lead]
    q = Poly({m: v / c for m, v in pb.terms.items()})
    return mul(Fraction(1) / c, to_poly(App('recip', (q,), 'float')))


def div(a, b):
    if not numeric_ok(a, b):
        return special_op('div', a, b)
    pa, pb = to_poly(a), to_poly(b)
    if pb.terms and len(pa.terms) == len(pb.terms) and len(pb.terms) > 1:
        lead = sorted(pb.terms, key=monokey)[0]
        if lead in pa.terms:
            r = pa.terms[lead] / pb.terms[lead]
            if all(m in pa.terms and pa.terms[m] == r * c for m, c in pb.terms.items()):
                return simp(to_poly(r))
    return mul(a, inv(b))


def is_int_val(v):
    if isinstance(v, bool) or isinstance(v, int):
        return True
    if isinstance(v, Fraction):
        return v.denominator == 1
    if isinstance(v, float):
        return not special(v) and v == int(v)
    if isinstance(v, Poly):
        return v.is_int()
    return False


def const_of(v):
    """The Python number of a constant value or None."""
    v = simp(v) if isinstance(v, Poly) else v
    if isinstance(v, NUMBER):
        return v
    return None


def split_int(p):
    """Split a polynomial in its integer valued part and the rest."""
    p = to_poly(p)
    ip, rp = {}, {}
    for m, c in p.terms.items():
        if Poly({m: c}).is_int():
            ip[m] = c
        else:
            rp[m] = c
    return Poly(ip), Poly(rp)


def rounding(op, v):
    """floor / ceil / int (truncation) as canonical terms."""
    c = const_of(v)
    if c is not None:
        if special(c):
            return c
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[op]
        return f(c)
    if is_int_val(v):
        return v
    if op == 'trunc':
        return to_poly(App('trunc', (v,), 'int'))
    ip, rp = split_int(v)
    if not rp.terms:
        return simp(ip)
    if op == 'ceil' and len(rp.terms) == 1:
        # ceil(ceil(x) / 2**k) == ceil(x / 2**k)
        (m, c), = rp.terms.items()
        inner = [a for a, e in m if isinstance(a, App) and a.op == 'ceil' and e == 1]
        if len(inner) == 1 and Fraction(c).numerator == 1:
            rest = [(a, e) for a, e in m if a != inner[0]]
            if all(e < 0 and isinstance(a, App) and a.op == 'pow' and atom_is_int(a) for a, e in rest):
                return add(simp(ip), rounding('ceil', mul(inner[0].args[0], Poly({tuple(rest): c}))))
    return add(simp(ip), to_poly(App(op, (simp(rp),), 'int')))


def power(base, expo):
    cb, ce = const_of(base), const_of(expo)
    if cb is not None and ce is not None:
        if ce == int(ce) and not special(cb):
            return simp(to_poly(Fraction(cb) ** int(ce)))
        return float(cb) ** float(ce)
    if ce is not None and ce == int(ce):
        r = 1
        for _ in range(abs(int(ce))):
            r = mul(r, base)
        return div(1, r) if ce < 0 else r
    if cb is not None and is_int_val(expo):
        # c ** (a + b) == c**a * c**b
        r = 1
        for m, c in to_poly(expo).terms.items():
            if m == ():
                r = mul(r, power(base, int(c)))
            else:
                atom = App('pow', (cb, simp(Poly({m: Fraction(1)}))), 'int' if nonneg_mono(m) and is_int_val(cb) else 'float')
                r = mul(r, power(to_poly(atom), int(c)))
        return r
    return to_poly(App('pow', (base, expo), 'float'))


def nonneg_mono(m):
    for a, e in m:
        if isinstance(a, Sym) and a.lo is not None and a.lo >= 0:
            continue
        if isinstance(a, App) and a.op in ('nn',):
            continue
        return False
    return True


# ---------------------------------------------------------------- affine

ID6 = (1, 0, 0, 0, 1, 0)


def mat_mul(a, b):
    (a1, a2, a3, a4, a5, a6), (b1, b2, b3, b4, b5, b6) = a, b
    return (
        add(mul(a1, b1), mul(a2, b4)), add(mul(a1, b2), mul(a2, b5)),
        add(add(mul(a1, b3), mul(a2, b6)), a3),
        add(mul(a4, b1), mul(a5, b4)), add(mul(a4, b2), mul(a5, b5)),
        add(add(mul(a4, b3), mul(a5, b6)), a6),
    )


def mat_inv(m):
    a, b, c, d, e, f = m
    if const_of(b) == 0 and const_of(d) == 0:
        ia, ie = div(1, a), div(1, e)
        return (ia, 0, neg(mul(ia, c)), 0, ie, neg(mul(ie, f)))
    det = sub(mul(a, e), mul(b, d))
    idet = div(1, det)
    na, nb, nd, ne = mul(e, idet), neg(mul(b, idet)), neg(mul(d, idet)), mul(a, idet)
    nc = neg(add(mul(na, c), mul(nb, f)))
    nf = neg(add(mul(nd, c), mul(ne, f)))
    return (na, nb, nc, nd, ne, nf)


def mat_key(m):
    return '[' + ','.join(keyof(x) for x in m) + ']'


class Aff:
    """A transform: a reduced word of ('A', atom, +-1) and ('M', six terms)."""
    __slots__ = ('word', '_key')

    def __init__(self, word=()):
        self.word = reduce_word(word)
        self._key = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for f in self.word:
                if f[0] == 'A':
                    parts.append('%s%s' % (keyof(f[1]), '' if f[2] == 1 else '^-1'))
                else:
                    parts.append(mat_key(f[1]))
            self._key = '<' + '.'.join(parts) + '>'
        return self._key

    def __eq__(self, other):
        return isinstance(other, Aff) and self.key == other.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    def compose(self, other):
        return Aff(self.word + other.word)

    def inverse(self):
        out = []
        for f in reversed(self.word):
            if f[0] == 'A':
                out.append(('A', f[1], -f[2]))
            else:
                out.append(('M', mat_inv(f[1])))
        return Aff(out)

    def single_matrix(self):
        if not self.word:
            return ID6
        if len(self.word) == 1 and self.word[0][0] == 'M':
            return self.word[0][1]
        return None

    def elem(self, i, j):
        m = self.single_matrix()
        if i == 2:
            return 1 if j == 2 else 0
        if m is not None:
            return m[i * 3 + j]
        return to_poly(App('melem', (self, i, j), 'float'))

    def rows(self):
        return [[self.elem(i, j) for j in range(3)] for i in range(3)]

    def offset(self):
        return (self.elem(0, 2), self.elem(1, 2))


def is_identity6(m):
    return all(const_of(x) is not None and const_of(x) == y for x, y in zip(m, ID6))


def reduce_word(word):
    out = []
    for f in word:
        if f[0] == 'M':
            if is_identity6(f[1]):
                continue
            if out and out[-1][0] == 'M':
                m = mat_mul(out.pop()[1], f[1])
                if not is_identity6(m):
                    out.append(('M', m))
                continue
        elif out and out[-1][0] == 'A' and out[-1][1] == f[1] and out[-1][2] == -f[2]:
            out.pop()
            # the removal may bring two matrices together
            continue
        out.append(f)
        while len(out) >= 2 and out[-1][0] == 'M' and out[-2][0] == 'M':
            b, a = out.pop(), out.pop()
            m = mat_mul(a[1], b[1])
            if not is_identity6(m):
                out.append(('M', m))
    # a removal may expose further reductions
    out = tuple(out)
    if len(out) < len(tuple(word)):
        again = reduce_word(out)
        return again
    return out


def aff_matrix(m):
    return Aff((('M', tuple(m)),))


def aff_scale(sx, sy):
    return aff_matrix((sx, 0, 0, 0, sy, 0))


def aff_translate(tx, ty):
    return aff_matrix((1, 0, tx, 0, 1, ty))


def aff_atom(a):
    return Aff((('A', a, 1),))


# ---------------------------------------------------------------- substitution

def subst(v, env, memo=None):
    """Replace atoms by terms (env: atom -> term)."""
    if not env:
        return v
    if memo is None:
        memo = {}
    return _subst(v, env, memo)


def _subst(v, env, memo):
    if isinstance(v, (int, float, Fraction, str, bool, type(None))):
        return v
    if isinstance(v, Sym):
        return env.get(v, v)
    if isinstance(v, App):
        if v in env:
            return env[v]
        k = id(v)
        if k in memo:
            return memo[k][1]
        new_args = tuple(_subst(a, env, memo) for a in v.args)
        r = v if all(x is y for x, y in zip(new_args, v.args)) else rebuild(v, new_args)
        if isinstance(r, App) and r in env:
            r = env[r]
        memo[k] = (v, r)
        return r
    if isinstance(v, Poly):
        k = id(v)
        if k in memo:
            return memo[k][1]
        changed = False
        acc = 0
        for m, c in v.terms.items():
            t = c
            hit = env.get(m)
            if hit is not None:
                changed = True
                acc = add(acc, mul(c, hit))
                continue
            for a, e in m:
                na = _subst(a, env, memo)
                if na is not a:
                    changed = True
                t = mul(t, power(na if isnum(na) else to_poly(na), e))
            acc = add(acc, t)
        r = acc if changed else v
        memo[k] = (v, r)
        return r
    if isinstance(v, Aff):
        word = []
        changed = False
        for f in v.word:
            if f[0] == 'A':
                na = _subst(f[1], env, memo)
                if na is not f[1]:
                    changed = True
                    if not isinstance(na, Aff):
                        na = aff_atom(na)
                    if f[2] == -1:
                        na = na.inverse()
                    word.extend(na.word)
                else:
                    word.append(f)
            else:
                nm = tuple(_subst(x, env, memo) for x in f[1])
                changed = changed or any(x is not y for x, y in zip(nm, f[1]))
                word.append(('M', nm))
        return Aff(word) if changed else v
    if isinstance(v, tuple):
        return tuple(_subst(x, env, memo) for x in v)
    return v


def rebuild(app, args):
    op = app.op
    if op in ('floor', 'ceil', 'trunc'):
        return rounding(op, args[0])
    if op == 'recip':
        return inv(args[0])
    if op == 'pow':
        return power(*args)
    if op == 'melem':
        return args[0].elem(args[1], args[2])
    if op in ('min', 'max'):
        return minmax(op, args)
    if op == 'abs':
        c = const_of(args[0])
        return abs(c) if c is not None else App(op, args, app.typ)
    if op.startswith('dec_'):
        return decomp(op[4:], args[0])
    return App(op, args, app.typ)


def decomp(what, aff):
    """Parameters of a transform."""
    m = aff.single_matrix()
    if what in ('tx', 'ty'):
        return aff.elem(0 if what == 'tx' else 1, 2)
    if m is not None and const_of(m[1]) == 0 and const_of(m[3]) == 0:
        # an axis aligned matrix with a positive x scale
        def pos(x):
            c = const_of(x)
            if c is not None:
                return c > 0
            p = to_poly(x)
            return all(cc > 0 and all(atom_positive(a) for a, _ in mm) for mm, cc in p.terms.items())
        if pos(m[0]):
            return {'sx': m[0], 'sy': m[4], 'theta': 0, 'shearx': 0}[what]
    return to_poly(App('dec_' + what, (aff,), 'float'))


def minmax(op, args):
    args = list(args)
    flat = []
    for a in args:
        at = a.single_atom() if isinstance(a, Poly) else None
        if isinstance(at, App) and at.op == op:
            flat.extend(at.args)
        else:
            flat.append(a)
    consts = [const_of(a) for a in flat if const_of(a) is not None]
    rest = []
    for a in flat:
        if const_of(a) is None and a not in rest:
            rest.append(a)
    if consts:
        c = min(consts) if op == 'min' else max(consts)
        if not rest:
            return c
        rest.append(c)
    if len(rest) == 1:
        return rest[0]
    rest.sort(key=keyof)
    typ = 'int' if all(is_int_val(a) for a in rest) else 'float'
    return to_poly(App(op, tuple(rest), typ))


def atoms_of(v, out=None):
    """All symbols and applications inside of a value."""
    if out is None:
        out = {}
    if isinstance(v, Sym):
        out[v] = True
    elif isinstance(v, App):
        if v not in out:
            out[v] = True
            for a in v.args:
                atoms_of(a, out)
    elif isinstance(v, Poly):
        for m in v.terms:
            for a, _ in m:
                atoms_of(a, out)
    elif isinstance(v, Aff):
        for f in v.word:
            if f[0] == 'A':
                atoms_of(f[1], out)
            else:
                for x in f[1]:
                    atoms_of(x, out)
    elif isinstance(v, tuple):
        for x in v:
            atoms_of(x, out)
    return out


# ---------------------------------------------------------------- evaluation

class Undefined(Exception):
    """The term has no value under this assignment (division by zero, ...)"""


def hfloat(*key):
    h = hashlib.sha1(repr(key).encode()).digest()
    return int.from_bytes(h[:6], 'big') / 2 ** 48


def np_mat_mul(a, b):
    return tuple(
        tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3))
        for i in range(3))


def np_mat_inv(m):
    (a, b, c), (d, e, f) = m[0], m[1]
    det = a * e - b * d
    if abs(det) < 1e-12:
        raise Undefined
    ia, ib, id_, ie = e / det, -b / det, -d / det, a / det
    return ((ia, ib, -(ia * c + ib * f)), (id_, ie, -(id_ * c + ie * f)), (0., 0., 1.))


def np_decompose(m):
    (a11, a12, tx), (a21, a22, ty) = m[0], m[1]
    sx = math.hypot(a11, a21)
    theta = math.atan2(a21, a11)
    s, c = math.sin(theta), math.cos(theta)
    msy = a12 * c + a22 * s
    if abs(c) < abs(s):
        sy = (msy * c - a12) / s
    else:
        sy = (a22 - msy * s) / c
    if sy == 0:
        raise Undefined
    return {'sx': sx, 'sy': sy, 'theta': theta, 'shearx': msy / sy, 'tx': tx, 'ty': ty}


class Evaluator:
    def __init__(self, assign, salt=0, subst_env=None):
        self.assign = assign
        self.memo = {}
        self.salt = salt
        self.env = subst_env or {}

    def ev(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, Fraction):
            return float(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Sym):
            if v in self.env:
                return self.ev(self.env[v])
            if v not in self.assign:
                self.assign[v] = self.default(v)
            return self.assign[v]
        if isinstance(v, Poly):
            tot = 0.0
            for m, c in v.terms.items():
                t = float(c)
                for a, e in m:
                    x = self.ev(a)
                    if isinstance(x, bool) or not isinstance(x, (int, float)):
                        x = hfloat('coerce', x) if not isinstance(x, bool) else int(x)
                    if e < 0 and x == 0:
                        raise Undefined
                    try:
                        t *= x ** e
                    except OverflowError:
                        raise Undefined
                tot += t
            return tot
        if isinstance(v, Aff):
            m = ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))
            for f in v.word:
                if f[0] == 'A':
                    x = self.ev(f[1])
                    if not isinstance(x, tuple):
                        x = self.random_matrix(x)
                    if f[2] == -1:
                        x = np_mat_inv(x)
                else:
                    e = [self.fl(y) for y in f[1]]
                    x = ((e[0], e[1], e[2]), (e[3], e[4], e[5]), (0., 0., 1.))
                m = np_mat_mul(m, x)
            return m
        if isinstance(v, App):
            k = v.key
            if k not in self.memo:
                self.memo[k] = self.app(v)
            return self.memo[k]
        if isinstance(v, tuple):
            return tuple(self.ev(x) for x in v)
        return keyof(v)

    def fl(self, v):
        x = self.ev(v)
        if isinstance(x, (int, float)):
            return float(x)
        return hfloat('fl', repr(x))

    def random_matrix(self, x):
        r = [hfloat('mat', i, repr(x), self.salt) for i in range(6)]
        return ((.5 + r[0], .3 * r[1], 9 * r[2] - 4), (.3 * r[3], .5 + r[4], 9 * r[5] - 4), (0., 0., 1.))

    def default(self, v):
        r = hfloat('sym', v.name, self.salt)
        if v.typ == 'int':
            return int(r * 20) + (v.lo or 0)
        if v.typ == 'float':
            return r * 20 - 5 if v.lo is None else v.lo + r * 20
        if v.typ == 'bool':
            return r < .5
        if v.typ == 'affine':
            return self.random_matrix(v.name)
        return 'v%d' % int(r * 1e6)

    def app(self, v):
        op = v.op
        a = [self.ev(x) for x in v.args]
        try:
            if op == 'floor':
                return float(math.floor(a[0] + 1e-9))
            if op == 'ceil':
                return float(math.ceil(a[0] - 1e-9))
            if op == 'trunc':
                return float(math.trunc(a[0] + (1e-9 if a[0] > 0 else -1e-9)))
            if op == 'recip':
                if abs(a[0]) < 1e-12:
                    raise Undefined
                return 1 / a[0]
            if op == 'min':
                return min(a)
            if op == 'max':
                return max(a)
            if op == 'abs':
                return abs(a[0])
            if op == 'pow':
                return float(a[0]) ** a[1]
            if op == 'log2':
                if a[0] <= 0:
                    raise Undefined
                return math.log2(a[0])
            if op == 'sqrt':
                return math.sqrt(a[0])
            if op == 'sin':
                return math.sin(a[0])
            if op == 'cos':
                return math.cos(a[0])
            if op == 'atan2':
                return math.atan2(a[0], a[1])
            if op == 'floordiv':
                return math.floor(a[0] / a[1])
            if op == 'mod':
                return a[0] % a[1]
            if op == 'melem':
                return a[0][int(a[1])][int(a[2])]
            if op.startswith('dec_'):
                return np_decompose(a[0])[op[4:]]
            if op == 'round':
                return float(round(a[0]))
            if op == 'not':
                return not a[0]
            if op == 'and':
                return all(a)
            if op == 'truthy':
                return bool(a[0]) if not isinstance(a[0], str) else hfloat('truthy', a[0], self.salt) < .5
            if op == 'isnone':
                return a[0] is None
            if op == 'aff_identity':
                m = a[0]
                return close(m, ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), 1e-7)
            if op == 'aff_params':
                sx, sy, th, sh, tx, ty = a
                c_, s_ = math.cos(th), math.sin(th)
                return ((c_ * sx, c_ * sh * sy - s_ * sy, tx), (s_ * sx, s_ * sh * sy + c_ * sy, ty), (0., 0., 1.))
            if op == 'ite':
                return a[1] if a[0] else a[2]
            if op == 'cond':
                rel, p = a
                return self.rel(rel, p)
            if op == 'eqv':
                return a[0] == a[1]
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            raise Undefined
        r = hfloat('app', op, repr(self.rnd(a)), self.salt)
        if v.typ == 'int':
            return int(r * 12) + (op in ('len', 'numel'))
        if v.typ == 'float':
            return r * 20 - 5
        if v.typ == 'bool':
            return r < .5
        if v.typ == 'affine':
            return self.random_matrix(v.key)
        return 'v%d' % int(r * 1e9)

    def rnd(self, a):
        if isinstance(a, (list, tuple)):
            return tuple(self.rnd(x) for x in a)
        if isinstance(a, float):
            return round(a, 6) + 0.0
        if isinstance(a, int) and not isinstance(a, bool):
            return round(float(a), 6)
        return a

    def rel(self, rel, p):
        if isinstance(p, bool):
            p = int(p)
        if not isinstance(p, (int, float)):
            p = hfloat('rel', repr(p)) - .5
        if rel == '==':
            return abs(p) < 1e-9
        if rel == '!=':
            return abs(p) >= 1e-9
        if rel == '<':
            return p < -1e-12
        if rel == '<=':
            return p <= 1e-9
        raise KeyError(rel)


def close(x, y, tol=1e-6):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(close(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return abs(x - y) <= tol * (1 + max(abs(x), abs(y)))
    return x == y
