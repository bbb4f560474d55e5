"""The checks of the properties."""
from .program import Program


def opt_check(rules, roots=None, modes=None, thorough_modes=None, expl='', whole=None):
    def run(program, tier, seed):
        from . import checks_opt, graph
        jobs = []
        for k in roots or graph.ROOTS:
            for mode in (modes or [('spec', 0, False)]):
                jobs.append((k,) + mode)
        if tier == 'thorough':
            for k in roots or graph.ROOTS:
                for mode in thorough_modes or [('count', 0, False), ('none', 0, False), ('spec', 1, False), ('spec', 0, True)]:
                    if (k,) + mode not in jobs:
                        jobs.append((k,) + mode)
        r = checks_opt.explore_all(program, rules, jobs, budget=420 if tier != 'thorough' else 3000)
        total = {}
        for c in r['per_root'].values():
            checks_opt.merge(total, c)
        if whole:
            from . import scen
            w = scen.check_all(program, 'B', tier, [whole], budget=240 if tier != 'thorough' else 2000)
            r['findings'] = r['findings'] + w['findings']
            r['undecided'] = dict(r['undecided'], **w['undecided'])
            r['visited'] |= w['visited']
            wt = {}
            for c in w['per'].values():
                checks_opt.merge(wt, c)
        cov = {
            'explanation': 'abstract interpretation of optimize() over opaque operation graphs: every trace of the rewriting of '
                           'each root node kind is enumerated and its result compared with the denotation of the input. ' + expl,
            'totals': total, 'per_root': r['per_root'], 'rewrites_analysed': sorted(r['rewrites']),
            'functions_analysed': len(r['visited']), 'undecided': r['undecided'], 'samples': r['samples'],
        }
        if whole:
            cov['whole_graphs'] = {'explanation': 'optimize() followed through small graphs with concrete shapes and band lists and without contracts', 'totals': wt, 'graphs': len(w['per'])}
        broken = []
        if not total.get('return'):
            broken.append('no trace of optimize could be followed')
        return {'findings': r['findings'], 'coverage': cov, 'broken': broken, 'assumptions': OPT_ASSUMPTIONS}
    return run


def scen_check(group, rules, expl=''):
    def run(program, tier, seed):
        from . import scen
        r = scen.check_all(program, group, tier, rules, budget=420 if tier != 'thorough' else 3000)
        total = {}
        for c in r['per'].values():
            for k, v in c.items():
                total[k] = total.get(k, 0) + v
        cov = {
            'explanation': 'abstract interpretation of the functions of each scenario over opaque operands: every trace is enumerated and '
                           'its result compared with the expected denotation. ' + expl,
            'rules': list(rules), 'totals': total, 'per_scenario': r['per'],
            'functions_analysed': len(r['visited']), 'functions': sorted(str(x) for x in r['visited'])[:200],
            'undecided': r['undecided'], 'samples': r['samples'],
        }
        broken = []
        if not total.get('return') and not total.get('raise'):
            broken.append('no trace could be followed')
        return {'findings': r['findings'], 'coverage': cov, 'broken': broken, 'assumptions': SCEN_ASSUMPTIONS}
    return run


def lint_check(name, expl, assumptions):
    def run(program, tier, seed):
        from . import lints
        findings, counts = getattr(lints, name)(program)
        return {'findings': list({f.key + f.message: f for f in findings}.values()), 'broken': [], 'assumptions': assumptions,
                'coverage': {'explanation': expl, 'totals': counts, 'modules': sorted(program.modules)}}
    return run


SCEN_ASSUMPTIONS = [
    'the operands deliver what they advertise (induction over the height of the graph)',
    'the library models (sa/models.py, sa/images.py: kwimage, cv2, numpy, kwarray, ubelt, gdal) match the libraries',
    'a violation needs a member of the abstract state of its trace; a trace whose state has no sampled member is not judged (counted in totals)',
    'the value numbers range over the reals; rounding of floats is not modelled',
]

OPT_ASSUMPTIONS = [
    'optimize() of a descendant satisfies the same property (induction over the height of the graph); the descendant is replaced by its contract',
    'the library models (sa/models.py: kwimage.Affine, Boxes, Polygon; kwarray; ubelt; numpy scalars) match the libraries',
    'a branch without a member of its abstract state among the sampled ones is not followed (counted in totals)',
    'the value numbers range over the reals; rounding of floats is not modelled',
]

CHECKS = {
    'G01': opt_check(['geometry'], whole='whole geometry', expl='Obligation: for every image leaf, the composed transform of the result equals the composed transform of the input (value numbering; refutation needs a model of all facts of the trace).'),
    'G02': opt_check(['canvas'], whole='whole canvas', expl='Obligation: the result has the canvas of the input, and no node built on the way contradicts its own canvas (linear entailment over the facts of the trace).'),
    'G03': opt_check(['visible'], roots=('Warp', 'Crop', 'Overview'), expl='Obligation: a position of the canvas that lies inside of all canvases of the input chain lies inside of all canvases of the result chain, up to one pixel.'),
    'G04': opt_check(['params'], roots=('Warp', 'Crop', 'Dequantize', 'Overview', 'AsXarray'), expl='Obligation: every warp that a rewrite of a known warp builds carries its interpolation, antialias, border value, tolerance and backend.'),
    'G05': opt_check(['channels'], modes=[('spec', 0, False)], whole='whole bands', expl='Obligation: band selections above every leaf, channel spec and number of channels are those of the input.'),
    'G06': opt_check(['quant'], whole='whole quantization', expl='Obligation: every leaf is dequantized exactly as in the input and no resampling takes place below a dequantization.'),
    'G07': opt_check(['writes', 'memo'], whole='whole writes', expl='Obligation: no store into a node, metadata dictionary or list that belongs to the input graph; all descendants are optimized in the shared context and the result is recorded there.'),
    'G09': opt_check(['detail'], roots=('Warp', 'Crop', 'Overview', 'Dequantize'), expl='Obligation: on no path from the result to an image lie more overview levels than in the input unless every axis of the composed transform is shrunk by at least this much.'),
    'G08': opt_check(['raises'], whole='whole raises', expl='Obligation: no trace of a well formed graph ends in an exception (implicit or explicit), except for the documented rejection of a double dequantization.'),
    'O01': scen_check('P', ['geometry', 'canvas', 'warp parameters'], 'Obligation: the graph that an operation returns denotes the requested operation on the operand, on the requested canvas, with the requested resampling parameters.'),
    'O02': scen_check('P', ['selected bands', 'missing channels', 'channel names'], 'Obligation: a channel selection delivers exactly the requested bands in the requested order, missing data for missing channels, and the requested names.'),
    'O03': scen_check('P', ['reported transform', 'undone warp'], 'Obligation: reported transforms are the ones that the graph applies, an undone warp applies exactly the inverse without the retained components.'),
    'O04': scen_check('P', ['writes', 'rejected', 'inspection writes', 'inspection'], 'Obligation: building and inspecting graphs never stores into existing nodes, never fails for well formed arguments, and visits each operation exactly once.'),
    'O05': scen_check('P', ['finalize'], 'Obligation: finalize prepares, optimizes and evaluates in this order, each only if asked for.'),
    'O06': scen_check('P', ['refused'], 'Obligation: every trace of a request without an answer ends in an exception; a returned value needs that the sizes agree.'),
    'L01': scen_check('L', ['window', 'band order', 'layout', 'values'], 'Obligation: every cell of the delivered buffer holds the requested window of the requested band at the requested overview level, in a type that holds every value of the file; library calls to GDAL, rasterio, spectral and numpy are models over a file with symbolic sizes.'),
    'L02': scen_check('L', ['missing data'], 'Obligation: each delivered band is masked, or set to nan in a float array, exactly where it equals the missing data value of its own band.'),
    'L03': scen_check('L', ['shape of a file', 'metadata', 'lazy', 'read only', 'fails', 'handles'], 'Obligation: sizes come from the right level and leaf metadata given by the user is kept; no pixels are read early, files are opened for reading and closed, readers fail only if the library does.'),
    'Q01': scen_check('M', ['decoding', 'decoding writes', 'encoding', 'encoding writes'], 'Obligation: the representative pixel is decoded or encoded as the quantization declares; arrays are abstracted to one pixel, boolean indices split the trace.'),
    'C01': scen_check('C', ['channels normal', 'channels algebra', 'channels coerce'], 'Obligation: every answer about a specification is the one for the ordered set of bands that its codes stand for; band names are opaque symbols.'),
    'C02': scen_check('C', ['channels streams', 'channels parts'], 'Obligation: streams are kept apart and complete, every code gets exactly its own bands of the arrays; arrays are opaque and remember selections.'),
    'D01': lint_check('diagnostics', 'Every statement under a test of a diagnostic switch (module constants of constants.py, local DEBUG flags, DEBUG environment variables) is classified by its effects: '
                      'only logs may be stored to, no control may leave, no name may flow out.', ['names of switches contain TRACE, DEBUG or VERBOSE', 'printing and formatting of a graph has no effect on it (O04)']),
    'D02': lint_check('imports', 'Every import statement that runs while a module of the package is loaded, also in functions called at that time, is resolved against the standard library and requirements/runtime.txt.', ['requirements/runtime.txt lists the required packages']),
    'D03': lint_check('caches', 'For every memoised function: all attributes that its value transitively depends on, and all stores to these attributes in the package; a store must be part of the construction of an object, of '
                      'the computation of the value, or fill an attribute that starts as None on demand; no user of a cached value changes it in place.', ['attributes are told apart by name and family of classes']),
    'E01': scen_check('E', ['pixels', 'resampling'], 'Obligation: each pixel that a node delivers shows the place of its operand that the transform of the node assigns to it, or the border; the resampling parameters reach the library call.'),
    'E02': scen_check('E', ['shape', 'bands', 'labels'], 'Obligation: height, width, number and order of bands and the labels of the delivered array are those that the node advertises.'),
    'E03': scen_check('E', ['mask', 'dequantization', 'missing data', 'decoding'], 'Obligation: the mask of an operand is a mask of the result, dequantization uses the quantization of the node, missing data is delivered as missing.'),
    'E04': scen_check('E', ['evaluates', 'operand writes', 'decoding writes'], 'Obligation: no store into the pixels or metadata of an operand, and no trace ends in an exception.'),
}


def run(prop, repo, tier, seed):
    program = Program(repo)
    return CHECKS[prop](program, tier, seed)
