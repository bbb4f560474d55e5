"""
The linear inequality domain.

``entails(interp, rel, p)`` decides if the facts of a trace imply ``p < 0`` or
``p <= 0`` by Fourier-Motzkin elimination over the monomials of the terms.  A
negative answer means unknown.
"""
from fractions import Fraction

from . import terms as T
from .terms import Sym, App, Poly

MAX_CONS = 70
MAX_VARS = 16


def atom_sign_positive(it, a):
    if T.atom_positive(a):
        return True
    return T.keyof(a) in it.positive


def cons_of(it, cond, val):
    """Constraints (poly, strict) meaning poly < 0 or poly <= 0."""
    if isinstance(cond, App) and cond.op == 'not':
        return cons_of(it, cond.args[0], not val)
    if not (isinstance(cond, App) and cond.op == 'cond'):
        return []
    rel, p = cond.args
    if T.special(p):
        return []
    p = it.canon(p)
    if T.special(p):
        return []
    if rel == '<':
        return [(p, True)] if val else [(T.neg(p), False)]
    if rel == '<=':
        return [(p, False)] if val else [(T.neg(p), True)]
    if rel == '==' and val:
        return [(p, False), (T.neg(p), False)]
    return []


def axioms(it, atom, depth):
    out = []
    x = T.to_poly(atom)
    if isinstance(atom, Sym):
        if atom.lo is not None:
            out.append((T.sub(atom.lo, x), False))
        return out
    if not isinstance(atom, App):
        return out
    op = atom.op
    if op == 'floor':
        out.append((T.sub(x, atom.args[0]), False))
        out.append((T.sub(T.sub(atom.args[0], 1), x), True))
    elif op == 'ceil':
        out.append((T.sub(atom.args[0], x), False))
        out.append((T.sub(T.sub(x, 1), atom.args[0]), True))
    elif op == 'trunc':
        out.append((T.sub(T.sub(atom.args[0], 1), x), True))
        out.append((T.sub(T.sub(x, 1), atom.args[0]), True))
    elif op == 'min':
        for a in atom.args:
            out.append((T.sub(x, a), False))
    elif op == 'max':
        for a in atom.args:
            out.append((T.sub(a, x), False))
    elif op == 'pow':
        b, e = atom.args
        cb = T.const_of(b)
        if cb is not None and cb > 1:
            out.append((T.neg(x), True))
            if isinstance(e, Poly) and signs(it, T.neg(e))[1]:
                out.append((T.sub(1, x), False))
    elif op == 'abs':
        out.append((T.neg(x), False))
        out.append((T.sub(atom.args[0], x), False))
        out.append((T.sub(T.neg(atom.args[0]), x), False))
    elif op in ('len', 'numel'):
        out.append((T.neg(x), False))
    if T.atom_positive(atom):
        out.append((T.neg(x), True))
    return out


def positive_cofactors(it, p):
    """Positive monomials that divide a monomial of p."""
    out = []
    for m in T.to_poly(p).terms:
        pos = tuple((a, e) for a, e in m if atom_sign_positive(it, a))
        if pos and pos not in out:
            out.append(pos)
        for f in pos:
            if (f,) not in out:
                out.append((f,))
    return out


def monos(p):
    return [m for m in T.to_poly(p).terms if m != ()]


def normalise(p, strict):
    """-> (dict monomial -> coefficient, constant, strict), with integers tightened."""
    p = T.to_poly(p)
    d = {m: c for m, c in p.terms.items() if m != ()}
    k = p.terms.get((), Fraction(0))
    if not d:
        return d, k, strict
    # scale to coprime integer coefficients
    den = 1
    for c in d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    num = 0
    for c in d.values():
        num = gcd(num, abs(int(c * den)))
    s = Fraction(den, num or 1)
    d = {m: c * s for m, c in d.items()}
    k = k * s
    if all(Poly({m: c}).is_int() for m, c in d.items()):
        # sum < -k  with integer sum
        if strict:
            b = -k
            lim = b - 1 if b.denominator == 1 else Fraction(b.numerator // b.denominator)
        else:
            lim = Fraction((-k).numerator // (-k).denominator)
        k = -lim
        strict = False
    return d, Fraction(k), strict


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def infeasible(cons):
    """Fourier-Motzkin; True if the constraints have no solution."""
    work = []
    seen = set()

    def push(c, into):
        d, k, strict = c
        if not d:
            return k > 0 or (strict and k == 0)
        key = (tuple(sorted(((T.monokey(m), v) for m, v in d.items()))), k, strict)
        if key in seen:
            return False
        seen.add(key)
        into.append(c)
        return False

    for p, s in cons:
        if push(normalise(p, s), work):
            return True
    while True:
        occ = {}
        for d, k, s in work:
            for m, c in d.items():
                pos, neg = occ.get(m, (0, 0))
                occ[m] = (pos + 1, neg) if c > 0 else (pos, neg + 1)
        if not occ:
            return False
        # drop one sided variables
        one = [m for m, (a, b) in occ.items() if a == 0 or b == 0]
        if one:
            one = set(one)
            work = [c for c in work if not any(m in one for m in c[0])]
            continue
        m = min(occ, key=lambda x: (occ[x][0] * occ[x][1], T.monokey(x)))
        ups = [c for c in work if c[0].get(m, 0) > 0]
        los = [c for c in work if c[0].get(m, 0) < 0]
        rest = [c for c in work if m not in c[0]]
        if len(rest) + len(ups) * len(los) > MAX_CONS * 2:
            return False
        for d1, k1, s1 in ups:
            a = d1[m]
            for d2, k2, s2 in los:
                b = -d2[m]
                d = {}
                for x, c in d1.items():
                    d[x] = d.get(x, 0) + c * b
                for x, c in d2.items():
                    d[x] = d.get(x, 0) + c * a
                d = {x: c for x, c in d.items() if c != 0}
                k = k1 * b + k2 * a
                p = Poly({**d, **({(): k} if k else {})})
                if push(normalise(p, s1 or s2), rest):
                    return True
        work = rest


def entails(it, rel, p, splits=1):
    c = T.const_of(p)
    if c is not None:
        if T.special(c):
            return False
        return c < 0 if rel == '<' else c <= 0
    p = it.canon(p)
    if T.const_of(p) is not None:
        return entails(it, rel, p)
    stamp = (len(it.facts), it.version)
    if it.entail_stamp != stamp:
        it.entail_stamp = stamp
        # a proof stays a proof
        it.entail_cache = {k: v for k, v in it.entail_cache.items() if v}
    key = (rel, T.keyof(p))
    if key in it.entail_cache:
        return it.entail_cache[key]
    shared = it.chooser.cache
    skey = (rel, key[1], stamp)
    if skey in shared:
        r = shared[skey]
    else:
        it.entail_cache[key] = False       # recursion guard
        r = prove(it, rel, p)
        shared[skey] = r
    it.entail_cache[key] = r
    return r


def atom_sign(it, a, depth=4):
    """2: positive, 1: not negative, 0: unknown"""
    if atom_sign_positive(it, a):
        return 2
    if isinstance(a, Sym):
        return 1 if a.lo is not None and a.lo >= 0 else 0
    if not isinstance(a, App) or depth == 0:
        return 0
    if a.op in ('abs', 'len', 'numel'):
        return 1
    if a.op in ('min', 'max', 'ceil', 'floor', 'trunc'):
        k = (T.keyof(a), len(it.facts))
        hit = it.sign_cache.get(k)
        if hit is None:
            rs = [poly_sign(it, x, depth - 1) for x in a.args]
            if a.op == 'min':
                hit = min(rs)
            elif a.op == 'max':
                hit = max(rs)
            elif a.op == 'ceil':
                hit = rs[0]
            else:
                hit = min(rs[0], 1)
            it.sign_cache[k] = hit
        return hit
    return 0


def poly_sign(it, p, depth=4):
    """2: positive, 1: not negative, 0: unknown"""
    c = T.const_of(p)
    if c is not None:
        if T.special(c):
            return 0
        return 2 if c > 0 else 1 if c == 0 else 0
    strict = False
    for m, c in T.to_poly(p).terms.items():
        if c < 0:
            return 0
        pos = True
        for a, e in m:
            s = atom_sign(it, a, depth)
            if s == 2:
                continue
            pos = False
            if isinstance(e, int) and e % 2 == 0:
                continue
            if s == 0 or e < 0:
                return 0
        strict = strict or pos
    return 2 if strict else 1


def signs(it, p):
    """Quick test: (can be proved < 0, can be proved <= 0) from the signs of the atoms."""
    s = poly_sign(it, T.neg(p))
    return s == 2, s >= 1


def weight(p):
    """Size of a term."""
    return len(T.keyof(p))


def fact_constraints(it):
    """The constraints of the facts in canonical form: [(poly, strict, monos)]"""
    if it.cons_version != it.version:
        it.cons_version = it.version
        it.cons_list = []
        it.cons_upto = 0
    while it.cons_upto < len(it.facts):
        cond, val = it.facts[it.cons_upto]
        it.cons_upto += 1
        for q, s in cons_of(it, cond, val):
            if T.const_of(q) is not None:
                continue
            if len(T.to_poly(q).terms) > 10:
                continue
            it.cons_list.append((q, s, monos(q)))
    return it.cons_list


def atom_axioms(it, a):
    if it.ax_version != it.version:
        it.ax_version = it.version
        it.ax_cache = {}
    k = T.keyof(a)
    if k not in it.ax_cache:
        it.ax_cache[k] = ()
        it.ax_cache[k] = tuple((q, s, monos(q)) for q, s in axioms(it, a, False) if len(T.to_poly(q).terms) <= 10)
    return it.ax_cache[k]


LEAVES = 12


def prove(it, rel, p):
    st, nst = signs(it, p)
    if st or (nst and rel == '<='):
        return True
    from .sample import refuted
    if refuted(it, App('cond', (rel, p), 'bool')):
        return False
    budget = [LEAVES]
    return by_cases(it, rel, p, 3, budget)


def by_cases(it, rel, p, depth, budget):
    """p (rel) 0 by cases over the minima subtracted and the maxima added."""
    c = T.const_of(p)
    if c is not None:
        return not T.special(c) and (c < 0 if rel == '<' else c <= 0)
    st, nst = signs(it, p)
    if st or (nst and rel == '<='):
        return True
    if depth:
        p = T.to_poly(p)
        for m in sorted(p.terms, key=T.monokey):
            c = p.terms[m]
            for a, e in m:
                if e != 1 or not isinstance(a, App) or a.op not in ('min', 'max') or len(a.args) > 3:
                    continue
                if (a.op == 'min') != (c < 0):
                    continue
                if any(b is not a and atom_sign(it, b) == 0 for b, f in m):
                    continue
                for arm in a.args:
                    q = T.subst(p, {a: arm if T.isnum(arm) else T.to_poly(arm)})
                    if not by_cases(it, rel, q, depth - 1, budget):
                        return False
                return True
    if budget[0] <= 0:
        return False
    budget[0] -= 1
    return _entails(it, rel, p)


def _entails(it, rel, p):
    it.queries += 1
    st, nst = signs(it, p)
    if st or (nst and rel == '<='):
        return True
    if len(T.to_poly(p).terms) > 12:
        return False
    goal = (T.neg(p), rel == '<=')          # the negation of the goal
    facts = fact_constraints(it)
    cons = [goal]
    relevant = set(monos(p))
    used = set()
    done_atoms = set()
    cof = positive_cofactors(it, p)[:4]
    have = {T.keyof(goal[0])}
    full = False

    def add(q, s, ms):
        k = T.keyof(q)
        if k in have:
            return
        have.add(k)
        cons.append((q, s))
        fresh.update(ms)

    frontier = set(relevant)
    for rounds in range(4):
        fresh = set()
        for m in sorted(frontier, key=T.monokey):
            mp = Poly({m: Fraction(-1)})
            st, nst = signs(it, mp)
            if st or nst:
                add(mp, st, [m])
            for a, e in m:
                k = T.keyof(a)
                if k in done_atoms:
                    continue
                done_atoms.add(k)
                for q, s, ms in atom_axioms(it, a):
                    add(q, s, ms)
                    if rounds == 0:
                        for f in cof:
                            q2 = T.mul(q, Poly({f: Fraction(1)}))
                            add(q2, s, monos(q2))
        base_atoms = {a for m in relevant for a, _ in m} if cof and rounds <= 1 else ()
        for i, (q, s, ms) in enumerate(facts):
            if i not in used and any(m in relevant for m in ms):
                used.add(i)
                add(q, s, ms)
            if base_atoms and any(a in base_atoms for m in ms for a, _ in m):
                for f in cof:
                    q2 = T.mul(q, Poly({f: Fraction(1)}))
                    add(q2, s, monos(q2))
        if len(cons) > MAX_CONS or len(relevant | fresh) > MAX_VARS:
            full = True
        if infeasible(cons[:MAX_CONS]):
            return True
        frontier = fresh - relevant
        relevant |= fresh
        if full or not frontier:
            break
    return False
