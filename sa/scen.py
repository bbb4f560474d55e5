"""
Scenarios: a function of the package under abstract inputs.

A scenario builds an abstract input, interprets a function of the package on
all traces and states obligations on what every trace returns.
"""
import os

from . import terms as T
from . import interp as I
from . import models as M
from . import nodes as N
from . import images as G
from . import sample
from . import graph
from .checks_opt import Finding, show, site_text, close, mats_close, DEBUG
from .terms import Sym, App, Poly, Aff, Undefined

SCENARIOS = []


class Scenario:
    def __init__(self, name, props, run, check, where, chan='spec', empty=False, max_paths=1500, prep=None):
        self.name, self.props, self.run, self.check, self.where = name, props, run, check, where
        self.chan, self.empty, self.max_paths, self.prep = chan, empty, max_paths, prep


def scenario(props, where, check, **kw):
    """Register a scenario; the decorated function runs the code."""
    def deco(f):
        SCENARIOS.append(Scenario(kw.pop('name', f.__name__), props, f, check, where, **kw))
        return f
    return deco


class Trace:
    """One trace of a scenario and its obligations."""

    def __init__(self, sc, it, out, prop):
        self.sc, self.it, self.prop = sc, it, prop
        self.kind, self.value = out
        self.findings = []
        self.counts = {}
        self.models_ = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def models(self):
        if self.models_ is None:
            it = self.it
            pool = list(sample.models(it))
            for i in range(40):
                if len(pool) >= 10:
                    break
                m = sample.Model('c%d' % i)
                if m.fits(it):
                    pool.append(m)
            self.models_ = pool
            if not pool:
                self.count('traces without a model')
        return self.models_

    def decided(self, cond):
        """The truth of a condition on this trace (None: open)."""
        if isinstance(cond, bool):
            return cond
        want = True
        while isinstance(cond, App) and cond.op == 'not':
            cond, want = cond.args[0], not want
        cond = self.it.canon(cond)
        if isinstance(cond, bool):
            return cond == want
        v = self.it.decisions.get(T.keyof(cond))
        if v is None:
            v = self.it.implied(cond)
        return None if v is None else v == want

    def detail(self, model=None, **kw):
        it = self.it
        v = self.value
        d = {'scenario': self.sc.name, 'outcome': self.kind,
             'result': show(v) if self.kind == 'return' and isinstance(v, I.Obj) else str(v)[:2000],
             'facts': ['%s%s' % ('' if x else 'not ', str(c)[:240]) for c, x in it.facts[:60]],
             'equalities': ['%s := %s' % (a, str(b)[:200]) for a, b in list(it.subst.items())[:40]]}
        if model is not None:
            d['model'] = {k: str(x) for k, x in sorted(model.values.items())}
        d.update({k: x if isinstance(x, (str, int, float, list, dict)) else str(x) for k, x in kw.items()})
        return d

    def report(self, rule, message, model=None, construct=None, **kw):
        self.findings.append(Finding(rule, construct or self.sc.where, message, construct or self.sc.where, self.detail(model, **kw)))

    def witness(self):
        """A model of the trace: the trace is reported only with one."""
        ms = self.models()
        return ms[0] if ms else None

    def fail(self, rule, message, construct=None, **kw):
        m = self.witness()
        if m is not None:
            self.report(rule, message, m, construct, **kw)
        else:
            self.count(rule + ': no witness')

    def num_eq(self, rule, what, a, b, tol=1e-6):
        it = self.it
        self.count('obligations')
        if a is None or b is None:
            if a is None and b is None:
                self.count('discharged')
                return True
            self.fail(rule, '%s: %s instead of %s' % (what, a, b))
            return False
        a, b = it.asnum(a), it.asnum(b)
        if not (T.isnum(a) and T.isnum(b)):
            self.count('undecided')
            return True
        c = it.mkcond('==', T.sub(it.canon(a), it.canon(b)))
        if c is True:
            self.count('discharged')
            return True
        for m in self.models():
            try:
                ev = m.evaluator(it)
                x, y = ev.ev(it.canon(a)), ev.ev(it.canon(b))
            except Undefined:
                continue
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not close(x, y, tol):
                self.report(rule, '%s: %g instead of %g' % (what, x, y), m, computed=a, expected=b)
                return False
        self.count('not refuted')
        return True

    def aff_eq(self, rule, what, a, b, tol=1e-6):
        """Two transforms agree in every member of the state."""
        it = self.it
        self.count('obligations')
        a, b = it.canon(a), it.canon(b)
        if a.key == b.key:
            self.count('discharged')
            return True
        for m in self.models():
            try:
                ev = m.evaluator(it)
                x, y = ev.ev(a), ev.ev(b)
            except Undefined:
                continue
            if not mats_close(x, y):
                self.report(rule, '%s' % what, m, computed=str(x), expected=str(y))
                return False
        self.count('not refuted')
        return True

    def same(self, rule, what, got, want):
        """A parameter is handed on."""
        it = self.it
        self.count('obligations')
        a, b = it.canon(I.freeze(got)), it.canon(I.freeze(want))
        if T.keyof(a) == T.keyof(b):
            self.count('discharged')
            return True
        if T.isnum(a) and T.isnum(b) and not isinstance(a, bool) and not isinstance(b, bool):
            return self.num_eq(rule, what, a, b)
        if self.decided(it.equal(a, b) if plain(a) and plain(b) else False) is True:
            self.count('discharged')
            return True
        if plain(a) and plain(b):
            self.fail(rule, '%s: %s instead of %s' % (what, T.keyof(a)[:80], T.keyof(b)[:80]))
            return False
        self.count('undecided')
        return True

    def no_raise(self, rule='raises'):
        """The trace must not fail."""
        if self.kind == 'raise':
            self.count('obligations')
            self.fail(rule, 'fails with %s' % (self.value,), construct=site_text(self.value.site))
            return False
        return self.kind == 'return'

    def no_writes(self, rule='writes', allow=()):
        for kind, obj, detail, site in self.it.effects:
            if getattr(obj, 'owner', 'fresh') == 'fresh':
                continue
            if '_opt_logs' in str(detail) or any(x in str(detail) for x in allow):
                continue
            self.fail(rule, '%s of %s (%s)' % (kind, detail, getattr(obj, 'label', None) or type(obj).__name__), construct=site_text(site))
            return False
        self.count('obligations')
        self.count('discharged')
        return True


def plain(v):
    """A value whose inequality with another plain value means a difference."""
    if v is None or isinstance(v, (bool, str, int, float)) or isinstance(v, (Sym, Poly)):
        return True
    if isinstance(v, tuple):
        return all(plain(x) for x in v)
    return False


# ------------------------------------------------------------------ the runner

def base_models():
    m = dict(M.MODELS)
    m.update(G.IMODELS)
    return m


_state = {}


def runner(program, mods, sc):
    def make(ch):
        it = I.Interp(program, ch, mods)
        N.setup(it, sc.chan, 0, sc.empty)
        it.models = base_models()
        it.cx = {}
        if sc.prep:
            sc.prep(it)
        return it

    def run(it):
        return sc.run(it, it.cx)
    return make, run


def run_scenario(sc, prop, max_paths=None, deadline=None):
    make, run = runner(_state['program'], _state['mods'], sc)
    counts, findings, samples, undecided, visited = {}, {}, [], {}, set()
    for it, out in I.explore(make, run, max_paths or sc.max_paths, (), deadline):
        if out[0] == 'truncated':
            counts['truncated'] = 1
            break
        counts['traces'] = counts.get('traces', 0) + 1
        counts[out[0]] = counts.get(out[0], 0) + 1
        visited.update(it.visited)
        if out[0] == 'undecided':
            k = str(out[1])[:200]
            undecided[k] = undecided.get(k, 0) + 1
            continue
        tr = Trace(sc, it, out, prop)
        try:
            sc.check(tr, it.cx)
        except (I.Unsupported, I.AbsRaise, I.PathLimit, Undefined) as ex:
            counts['check undecided'] = counts.get('check undecided', 0) + 1
            undecided['check: %s' % (str(ex)[:160],)] = undecided.get('check: %s' % (str(ex)[:160],), 0) + 1
        except Exception as ex:
            if DEBUG:
                raise
            counts['check undecided'] = counts.get('check undecided', 0) + 1
            undecided['check: %r' % (ex,)] = 1
        for k, v in tr.counts.items():
            counts[k] = counts.get(k, 0) + v
        for f in tr.findings:
            findings.setdefault(f.key, f)
        if not samples and out[0] == 'return':
            samples.append({'scenario': sc.name, 'result': str(out[1])[:400], 'facts': len(it.facts)})
    return counts, list(findings.values()), samples, undecided, visited


def _task(args):
    i, prop = args
    import time
    sc = SCENARIOS[i]
    return sc.name, run_scenario(sc, prop, sc.max_paths * _state.get('deep', 1), deadline=_state.get('deadline'))


def load():
    from . import scen_eval, scen_ops, scen_load, scen_misc, scen_opt, scen_chan      # noqa: F401


def check_all(program, prop, tier='quick', rules=None, budget=500):
    import time
    import multiprocessing as mp
    load()
    _state.update(program=program, mods=graph.load_modules(program), deadline=time.time() + budget,
                  deep=8 if tier == 'thorough' else 1)
    todo = [(i, prop) for i, s in enumerate(SCENARIOS) if prop in s.props]
    per, findings, samples, undecided, visited = {}, {}, [], {}, set()
    with mp.Pool(min(8, mp.cpu_count() or 1)) as pool:
        for name, (c, fs, smp, und, vis) in pool.imap_unordered(_task, todo):
            per[name] = c
            for f in fs:
                if rules is None or f.rule in rules:
                    findings.setdefault(f.key, f)
            if len(samples) < 5:
                samples.extend(smp)
            for k, v in und.items():
                undecided['%s: %s' % (name, k)] = v
            visited |= vis
    return {'per': per, 'findings': list(findings.values()), 'samples': samples[:5], 'undecided': undecided, 'visited': visited}
