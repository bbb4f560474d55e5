"""Exploration of the graph rewriting: one report per trace of ``optimize``."""
from . import terms as T
from . import interp as I
from . import models as M
from . import nodes as N
from .terms import Sym, App, Poly, Aff

ROOTS = ('Warp', 'Crop', 'Dequantize', 'Overview', 'Concat', 'AsXarray')


def load_modules(program):
    """Interpret the module bodies once, with the default environment."""
    mods = {}
    it = I.Interp(program, modules=mods)
    it.models = dict(it.models)
    default = lambda it, a, k: a[1] if len(a) > 1 else k.get('default')
    it.models['os.environ.get'] = default
    it.models['os.getenv'] = default
    for n in sorted(program.modules):
        if '.util' in n or 'demo' in n or n.endswith('__main__') or 'rtree' in n or 'lark' in n:
            continue
        try:
            it.module(n)
        except (I.Unsupported, I.PathLimit, I.AbsRaise):
            pass
    return mods


class PathReport:
    def __init__(self, it, out, root):
        self.it = it
        self.kind, self.value = out
        self.root = root

    @property
    def rewrites(self):
        return sorted(q.split(':')[1] for q in self.it.visited if '_opt_' in q or '_optimized' in q)


def root_runner(program, mods, kind, chan_mode='spec', trace=0, empty=False):
    def make(ch):
        it = I.Interp(program, ch, mods)
        N.setup(it, chan_mode, trace, empty)
        return it

    def run(it):
        root = N.make_root(it, kind)
        it.frames = []
        ctxcls = it.module_attr(N.BASE, 'OptimizeContext')
        ctx = it.call(ctxcls, [], {})
        it.ctx = ctx
        it.effects = []
        f, _ = root.cls.lookup('optimize')
        return it.call(f, [root, ctx], {})
    return make, run


def explore_root(program, mods, job, prefix=(), max_paths=4000, deadline=None):
    make, run = root_runner(program, mods, *job)
    for it, out in I.explore(make, run, max_paths, prefix, deadline):
        if out[0] == 'truncated':
            yield None
            return
        yield PathReport(it, out, it.root_node)
