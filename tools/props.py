"""The properties; `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from this file."""
N = 'delayed_image/delayed_nodes.py'
L = 'delayed_image/delayed_leafs.py'
B = 'delayed_image/delayed_base.py'
H = 'delayed_image/helpers.py'
Z = 'delayed_image/lazy_loaders.py'
C = 'delayed_image/channel_spec.py'
S = 'delayed_image/sensorchan_spec.py'

GRAPHS = ('programs', 'every graph of delayed operations (any nesting of crop, warp, overview, dequantize, channel concatenation, '
          'missing data and leaves) with any transforms, windows, sizes and channel selections')
WHY_GRAPH = ('the rewriting is a fixed point of pairwise swaps whose interaction depends on the nesting and on real-valued transforms and '
             'integer windows; a test samples a few nestings with a few numbers and compares resampled pixels with a tolerance')
ABSINT = 'static analysis: trace-partitioned abstract interpretation with value numbering and linear entailment'

PROPS = [
    dict(id='G01', title='Optimizing a graph never moves its content',
         statement='For every graph, the optimized graph maps every source image to exactly the same place as the original graph: the composition '
                   'of all its crops, warps and overviews is the same affine map for each source image, and the same source images appear in the same order.',
         over=['programs', 'inputs'], qtext=GRAPHS[1], why=WHY_GRAPH, files=[N, H, L],
         mech=[('fuse two warps', N + ':DelayedWarp._opt_fuse_warps'), ('swap crop and warp', N + ':DelayedCrop._opt_warp_after_crop, ' + H + ':_swap_warp_after_crop'),
               ('overview swaps', N + ':DelayedOverview._opt_crop_after_overview, _opt_warp_after_overview'), ('absorb or split off an overview', N + ':DelayedWarp._opt_absorb_overview, _opt_split_warp_overview')],
         observe='finalize(optimize=True) against finalize(optimize=False)', tech=ABSINT,
         note='all traces of optimize() for each root kind over opaque descendants; inductive over the height of the graph; real arithmetic'),
    dict(id='G02', title='Optimizing a graph never changes the size of its canvas',
         statement='For every graph, the optimized graph has the same width and height as the original, and every node that a rewrite introduces has a size '
                   'that agrees with its own window, overview level or operands.',
         over=['programs', 'inputs'], qtext=GRAPHS[1], why=WHY_GRAPH, files=[N, H, L],
         mech=[('sizes of rewritten nodes', N + ':DelayedCrop.__init__, DelayedWarp.__init__, DelayedOverview.__init__'), ('missing data', L + ':DelayedNans._optimized_crop, _optimized_warp')],
         observe='dsize and shape of optimize()', tech=ABSINT, note='sizes are linear terms over the sizes of opaque nodes; entailment by Fourier-Motzkin over the facts of each trace'),
    dict(id='G03', title='Optimizing a graph never cuts off visible data',
         statement='A place of the canvas that shows source data in the original graph, because it lies inside of every intermediate canvas, '
                   'still lies inside of every intermediate canvas of the optimized graph, up to one pixel at an edge.',
         over=['programs', 'inputs'], qtext=GRAPHS[1], why='windows that are pushed through a transform must be padded for every scale, rotation, offset and image border; '
         'a window that is too small only shows at particular combinations', files=[N, H],
         mech=[('window pushed below a warp', N + ':DelayedCrop._opt_warp_after_crop'), ('window pushed below an overview', H + ':_swap_crop_after_warp'), ('fused windows', N + ':DelayedCrop._opt_fuse_crops')],
         observe='finalize(optimize=True) against finalize(optimize=False)', tech=ABSINT,
         note='containment of canvases is refuted at sampled members of the abstract state of each trace; not a proof of containment'),
    dict(id='G04', title='Optimization keeps the resampling parameters of every warp',
         statement='Whenever a warp is rewritten, fused with another warp, moved across a crop, overview or dequantization, the resulting outer warp keeps the interpolation, '
                   'antialiasing, border value, tolerance and backend that were requested for the outer warp.',
         over=['programs', 'configurations'], qtext=GRAPHS[1] + ', any resampling parameters', why='each rewrite copies the parameters by hand; a lost one silently falls back to its default and only shows for non default values in one particular nesting',
         files=[N], mech=[('parameters copied by a rewrite', N + ':DelayedWarp._algo_keys and the _opt_* methods')], observe='meta of the nodes of optimize()', tech=ABSINT,
         note='parameters are opaque value numbers; a default that replaces one is a different value'),
    dict(id='G05', title='Optimization keeps the selected bands and the channel names',
         statement='For every graph, the optimized graph selects the same bands of the same sources in the same order, and advertises the same channel names and number of channels as the original.',
         over=['programs', 'inputs'], qtext=GRAPHS[1], why='band selections are pushed through fusions, concatenations and missing data by index arithmetic; a test only samples a few selections',
         files=[N, L, C], mech=[('selection through fused crops', N + ':DelayedCrop._opt_fuse_crops'), ('selection through a concatenation', N + ':DelayedCrop.optimize, DelayedChannelConcat.take_channels'), ('missing data', L + ':DelayedNans._optimized_crop')],
         observe='channels, num_channels of optimize()', tech=ABSINT, note='selections are opaque index lists; composition of selections is normalised'),
    dict(id='G06', title='Values are dequantized exactly once and before any resampling',
         statement='In the optimized graph every source image is dequantized with the same parameters and the same number of times as in the original graph, and no warp resamples '
                   'values that are still quantized.',
         over=['programs'], qtext=GRAPHS[1], why='the position of the dequantization relative to every other operation is decided by the rewriting; one wrong order mixes nodata codes into data and no shape or type changes',
         files=[N], mech=[('dequantization below a warp', N + ':DelayedDequantize.optimize, _opt_dequant_before_other'), ('crop and overview below a dequantization', N + ':_opt_dequant_after_crop, _opt_dequant_after_overview')],
         observe='finalize() of a quantized image', tech=ABSINT, note='dequantizations are opaque operators on the leaves'),
    dict(id='G07', title='Optimization leaves the given graph untouched and shares its work',
         statement='Optimizing or finalizing never modifies a node, parameter table or list of the graph that the user holds or that another part of the graph shares; all occurrences of '
                   'a shared node are optimized through one table and give the same result.',
         over=['programs', 'histories'], qtext=GRAPHS[1] + ', with nodes shared between several consumers and graphs optimized repeatedly', why='aliasing between the original, the rewritten and the memoised nodes depends on which rewrites fire; tests look at one consumer of a fresh graph',
         files=[N, B, L], mech=[('shallow copies before rewriting', N + ':optimize methods (copy.copy(self))'), ('memo table', B + ':OptimizeContext')], observe='meta of the original nodes after optimize()', tech=ABSINT + '; effect analysis of stores by ownership',
         note='every store of every trace is classified by the owner of the written object'),
    dict(id='G08', title='Every well formed graph can be optimized',
         statement='Optimizing a well formed graph never raises an exception, whatever the nesting, sizes, transforms, channel knowledge and number of overviews; only a second dequantization of the same data is rejected.',
         over=['programs', 'inputs'], qtext=GRAPHS[1], why='the failing combinations need a particular nesting together with particular numeric conditions', files=[N, L, H],
         mech=[('the rewriting', N + ':optimize methods')], observe='optimize()', tech=ABSINT, note='implicit exceptions (attribute, key, type, index, assertion) and raise statements on every trace'),
    dict(id='G09', title='Optimization never loses detail that the graph shows',
         statement='The optimized graph reads no source image at a coarser overview level than the original graph does, unless the composed transform shrinks every axis of this image by at least that factor.',
         over=['programs', 'inputs'], qtext=GRAPHS[1], why='an overview that replaces a part of a warp is only harmless for uniform shrinking; anisotropic, rotated and mirrored transforms each need their own condition and look plausible when blurred', files=[N],
         mech=[('overviews split off a warp', N + ':DelayedWarp._opt_split_warp_overview'), ('overviews absorbed by a warp', N + ':DelayedWarp._opt_absorb_overview')],
         observe='the overview nodes of optimize()', tech=ABSINT, note='levels and transforms are terms; the comparison is refuted at sampled members of the abstract state of each trace; not a proof'),
    dict(id='E01', title='Every delivered pixel shows the place its operation assigns to it',
         statement='Evaluating a warp, crop, overview, dequantization, concatenation or xarray view delivers at every pixel the place of its operand that the transform or window of the node '
                   'assigns to it; places outside of the operand show the requested border; the requested interpolation, antialiasing, border and backend are the ones that are used.',
         over=['inputs', 'configurations'], qtext='every transform, window, level, canvas size, data type, number of bands and resampling parameter', why='special cases for nearest, pure scale, '
         'integer translation and border values are chosen by numeric conditions on the transform and canvas; a test with a few transforms only takes a few of them', files=[N, H],
         mech=[('resampling', N + ':DelayedWarp._finalize'), ('simulated overviews', N + ':DelayedOverview._finalize'), ('windows', N + ':DelayedCrop._finalize')],
         observe='finalize(optimize=False)', tech=ABSINT, note='pixel arrays are symbolic contents; the place shown at sampled pixels of sampled members of each trace is compared with the transform; nearest lookups up to one source pixel'),
    dict(id='E02', title='A delivered array has the advertised shape, bands and labels',
         statement='Evaluating a node delivers an array with the height, width, number of bands and band order that the node advertises before it is evaluated; the xarray view labels its dimensions y, x, c and names its bands.',
         over=['inputs'], qtext='every node kind, operand size, number of bands and channel selection', why='sizes and bands are computed twice, once for the metadata and once for the pixels; a mismatch needs a particular size or selection',
         files=[N, L], mech=[('evaluation', N + ':_finalize of each node'), ('advertised metadata', N + ':DelayedImage.shape, dsize, num_channels')], observe='finalize(optimize=False).shape against shape', tech=ABSINT,
         note='shapes are symbolic terms; numpy axis rules are modelled'),
    dict(id='E03', title='Masks, missing data and quantization survive evaluation',
         statement='A masked operand gives a masked result through every operation, a dequantization uses exactly the quantization of its node, and a missing data leaf delivers only missing data.',
         over=['inputs', 'configurations'], qtext='every node kind over masked and unmasked operands, lazy or in memory, with two or three axes', why='cv2 and numpy functions silently drop masks; only the combination of a masked operand with one branch shows it',
         files=[N, L, H], mech=[('masks', N + ':_finalize of each node'), ('missing data', L + ':DelayedNodata._finalize, DelayedNans._finalize')], observe='finalize() of masked data', tech=ABSINT,
         note='the mask is a flag of the abstract array that each library model propagates or drops as the library does'),
    dict(id='E04', title='Evaluating a well formed node succeeds and never modifies its operands',
         statement='Evaluating a node never writes into the pixels or metadata of its operand, which may be an array that the user gave or that another node shares, and never raises an exception when its operands can be evaluated.',
         over=['inputs', 'histories'], qtext='every node kind, operand and parameter; operands shared between nodes and evaluated repeatedly', why='whether an intermediate array is a view of the operand or a fresh copy depends on the branch; a write into a view only shows when the operand is used again',
         files=[N, L], mech=[('in place edits', N + ':DelayedWarp._finalize, DelayedOverview._finalize')], observe='finalize() twice', tech=ABSINT + '; alias regions of arrays',
         note='each array has a region; views share the region of their base; stores into an operand region are violations'),
    dict(id='O01', title='An operation builds exactly the requested view of its operand',
         statement='crop, warp, scale, resize, get_overview, dequantize, as_xarray, padded crops and the item syntax return a graph that shows the operand through exactly the requested '
                   'window, transform, level and canvas size, with the requested interpolation, antialiasing, border value, tolerance and backend.',
         over=['inputs', 'configurations'], qtext='every operand (any size, channels, transform), window (also outside, empty, open or negative), transform, canvas size and resampling parameter',
         why='each operation has shortcuts for identities, known sizes and lazy rewriting which are chosen by numeric conditions; the tests only take some of them', files=[N],
         mech=[('operations', N + ':ImageOpsMixin.crop, warp, scale, resize, dequantize, get_overview'), ('padding', N + ':ImageOpsMixin._padded_crop'), ('item syntax', N + ':ImageOpsMixin.__getitem__')],
         observe='the graph that an operation returns', tech=ABSINT, note='all traces of each operation over an opaque operand; linear terms over its size; refutation at sampled members'),
    dict(id='O02', title='A channel selection delivers exactly the requested bands',
         statement='Selecting channels by name, index, slice or channel specification from an image or a (nested) concatenation returns exactly these bands in the requested order and with the requested names; '
                   'channels that no operand has follow the missing channel policy: missing data under this name, or an error.',
         over=['inputs', 'configurations'], qtext='every operand or nesting of concatenations, every selection by names, indices or slices, also repeated, reordered and missing channels, and both missing channel policies',
         why='the selection is split into segments per operand by index arithmetic with special cases for the first, last and missing segments; tests take a few selections', files=[N, C],
         mech=[('selection', N + ':ImageOpsMixin.take_channels, DelayedChannelConcat.take_channels'), ('segments', N + ':_InnerAccumSegment')], observe='take_channels(...).channels and finalize()', tech=ABSINT,
         note='concrete small selections over opaque operands with known channel codes or numbers of bands; the number of bands is bounded (see DESIGN.md)'),
    dict(id='O03', title='Reported transforms are the ones that the graph applies',
         statement='get_transform_from, get_transform_from_leaf and the transforms of undone warps equal the composition of all crops, warps and overviews between the two nodes; '
                   'undo_warp and undo_warps return views whose leaf transform is undone, except for the components that were asked to be retained, and the warps that lead back.',
         over=['programs', 'inputs'], qtext='every chain of operations over every leaf, every transform and every choice of retained components', why='compositions in the wrong order or a forgotten offset agree for the pure scales which tests use',
         files=[N, B], mech=[('reported transforms', N + ':DelayedImage.get_transform_from_leaf, DelayedChannelConcat.get_transform_from'), ('undone warps', N + ':DelayedChannelConcat.undo_warps, DelayedImage.undo_warp')],
         observe='get_transform_from(...), undo_warps(...)', tech=ABSINT, note='transforms are value numbered words over affine atoms; inductive over the operand'),
    dict(id='O04', title='Building and inspecting a graph never modifies it and does not fail',
         statement='No operation, preparation or inspection (nesting, repr, as_graph, leafs, paths, shapes) stores into an existing node, its metadata or the arguments of the caller, or fails for a well formed graph and arguments; '
                   'inspection visits every operation exactly once and every path from the root to a leaf, and an operation reports the size, bands and number of overviews that follow from its operands.',
         over=['programs', 'inputs', 'histories'], qtext='every graph, also with shared nodes, and every operation on it', why='a shared parameter table only shows when the original node is used again after the operation', files=[N, B],
         mech=[('graph traversal', B + ':DelayedOperation._traverse, leafs, as_graph, nesting'), ('preparation', B + ':DelayedOperation.prepare')], observe='the operand after the operation', tech=ABSINT + '; effect analysis of stores by ownership',
         note='every store of every trace is classified by the owner of the written object'),
    dict(id='O05', title='finalize prepares, optimizes and evaluates exactly as asked',
         statement='finalize prepares the graph once, optimizes it only if this is asked for, evaluates the prepared and optimized graph exactly once, and returns the evaluated array of that graph with the requested parameters.',
         over=['programs', 'configurations'], qtext='every graph and every choice of prepare, optimize and extra parameters', why='evaluating the unprepared or unoptimized graph gives nearly the same pixels for most graphs', files=[B, N],
         mech=[('evaluation', B + ':DelayedOperation.finalize')], observe='finalize(prepare=..., optimize=...)', tech=ABSINT, note='prepare, optimize and _finalize of the operand are opaque events; their order and operands are checked on every trace'),
    dict(id='O06', title='Requests without an answer are refused',
         statement='Concatenating images of different sizes, selecting bands by name from an image without names or under an unknown policy for missing channels, both removing and retaining warp components, padding a clipped or wrapped window, '
                   'and items that are no tuple of two or three parts raise an error, and deliver no image instead; _validate succeeds exactly if the delivered array has the advertised shape.',
         over=['inputs', 'configurations'], qtext='every image, every number and size of parts, and every such request', why='a check of only some parts, or one that depends on the truth of an empty list, passes all tests that refuse one typical request', files=[N],
         mech=[('sizes', N + ':DelayedChannelConcat.__init__'), ('names', N + ':DelayedImage.take_channels'), ('policies', N + ':DelayedChannelConcat.take_channels'), ('components', N + ':_rectify_retain'), ('items', N + ':ImageOpsMixin.__getitem__')],
         observe='the exception that the operation raises', tech=ABSINT, note='concatenations of two and three parts with arbitrary sizes'),
    dict(id='L01', title='Reading a window of a file delivers exactly these pixels',
         statement='Indexing a lazy image file delivers exactly the requested rows, columns and bands, in the requested order, as an array of rows, columns and bands, at exactly the overview level of the reference, in an element type that holds every value of the file; '
                   'windows beyond the edge are clipped; when the fast read fails, the fallback delivers the same; a failing read never delivers other pixels.',
         over=['inputs', 'fault_sequences'], qtext='every file (any size, bands, overviews, drivers without overview datasets), window, band selection, overview level, reader (GDAL, rasterio, spectral) and failing read', why='windows, axis orders and one-based band '
         'numbers are converted by hand for five library entry points; the fallback paths only run when a read fails', files=[Z],
         mech=[('windows', Z + ':LazyGDalFrameFile.__getitem__, _rectify_slice_dim'), ('fast read', Z + ':LazyGDalFrameFile._dataset_read_as_array'), ('fallback', Z + ':LazyGDalFrameFile._compat_gdal_read, _gdal_read_kwimage_compatible')],
         observe='LazyGDalFrameFile[...]', tech=ABSINT + ' over buffers with band cells', note='files with 1 or 3 bands and two overviews, symbolic sizes and windows; up to two failing reads'),
    dict(id='L02', title='Missing data of a file is masked band by band',
         statement='With nodata_method ma, float, nan or auto, each delivered band is masked, or set to nan in a float array, exactly where it equals the missing data value of its own band, whatever bands and overview are selected; '
                   'without it no pixel is changed or masked.',
         over=['inputs', 'configurations'], qtext='every file with any missing data value per band, window, band selection, overview level and treatment of missing data', why='the value of another band only differs for files with different missing data values and reordered selections', files=[Z, L],
         mech=[('masks', Z + ':LazyGDalFrameFile._dataset_read_as_array, _gdal_read_kwimage_compatible'), ('requested treatment', L + ':DelayedLoad._finalize, _load_reference')],
         observe='finalize() of a DelayedLoad', tech=ABSINT + ' over buffers with band cells', note='missing data values are symbols, or absent, per band'),
    dict(id='L03', title='File metadata is right, lazy and leaves the file alone',
         statement='A file leaf and a lazy reference advertise the width, height, bands and remaining overviews of the file at their level, unless the user gave other metadata; they read no pixels before they are evaluated, '
                   'open files for reading only, close text headers on every path, and fail only if the file or the library does.',
         over=['inputs', 'fault_sequences', 'histories'], qtext='every file, level, given metadata, availability of gdal, order of preparation and evaluation, and failing read', why='a swapped size only shows for images that are not square, an open handle only when a read fails', files=[L, Z],
         mech=[('metadata', L + ':DelayedLoad._load_metadata'), ('sizes', Z + ':LazyGDalFrameFile.shape'), ('header files', Z + ':_read_envi_header')], observe='shape, dsize, num_overviews of a prepared DelayedLoad', tech=ABSINT + '; typestate of handles',
         note='the text parser of headers is not decided'),
    dict(id='Q01', title='Quantized values are decoded exactly as declared',
         statement='dequantize maps quant_min to orig_min and quant_max to orig_max and is affine between and beyond them, with the documented defaults, in the declared type; exactly the pixels with the missing data code become nan; '
                   'quantize_float01 returns codes within the range and type that it declares, clips values to the given range, keeps missing data codes apart from data, and decoding its result gives each value back up to one step; neither writes into the given array.',
         over=['inputs', 'configurations'], qtext='every pixel value, also infinite and missing, every data type and every declared quantization, complete or not', why='a wrong default, a missing data code that collides with data or an overflow only shows for particular pixels and options',
         files=[H], mech=[('decoding', H + ':dequantize'), ('encoding', H + ':quantize_float01'), ('missing data codes', H + ':_scalar_is_representable_in_dtype')],
         observe='dequantize(data, quantization), quantize_float01(data, ...)', tech=ABSINT + '; arrays abstracted to a representative pixel', note='real arithmetic: rounding of floats is not modelled'),
    dict(id='C01', title='A channel specification stands for its sequence of bands',
         statement='Normalizing a fused channel specification replaces every alias and range, in place, by the bands that it stands for and changes nothing else; numel, sizes, indexing, membership, union, intersection, difference and subset tests are those of this ordered set of bands; '
                   'a concise form stands for the same bands; a specification made from a text, list, number or other specification has exactly these codes, however often and after whatever use of an equal one; no operation changes its operands.',
         over=['inputs', 'histories'], qtext='every specification with distinct bands, of names, aliases, items and ranges in every order', why='orders, overlaps and adjacent ranges have many combinations, and a memoised specification is shared between callers',
         files=[C], mech=[('normal form', C + ':FusedChannelSpec.normalize'), ('ordered sets', C + ':FusedChannelSpec.union, intersection, difference'), ('concise form', C + ':FusedChannelSpec.concise'), ('memo', C + ':FusedChannelSpec._memo')],
         observe='FusedChannelSpec.coerce(x), its methods and operators', tech=ABSINT + ' with opaque symbolic band names', note='specifications of up to four codes; range bounds are small constants, names are opaque symbols'),
    dict(id='C02', title='The streams of a channel specification stay apart and complete',
         statement='A channel specification with several streams normalizes, selects, counts, splits and fuses stream by stream and keeps their order; encode puts together, and decode and component_indices take apart, exactly the bands of every code, whatever arrays hold them and on whatever axis; late fusion keeps all streams of both specifications.',
         over=['inputs'], qtext='every specification of several streams and every grouping of the bands in arrays', why='a merged pair of adjacent selections or a wrong offset only shows for particular groupings and ranges',
         files=[C], mech=[('streams', C + ':ChannelSpec'), ('offsets', C + ':ChannelSpec.component_indices'), ('selections', C + ':_cached_single_fused_mapping'), ('late fusion', C + ':BaseChannelSpec.late_fuse')],
         observe='ChannelSpec(x).encode(items), decode(arrays), component_indices(), a + b', tech=ABSINT + ' with opaque symbolic band names', note='up to three streams and three codes; arrays are opaque and remember the selections'),
    dict(id='D01', title='Diagnostic switches never change results',
         statement='Turning a tracing or debugging switch on or off changes nothing but log output: the code under such a switch stores into nothing but logs, defines nothing that other code uses, and does not change the flow of control.',
         over=['configurations', 'programs'], qtext='every setting of the diagnostic switches and every execution', why='the switches are off in the tests; code under them never runs there, and code that was moved under them by accident is missing only for some graphs',
         files=[N, L, Z, H, B], mech=[('switches', 'delayed_image/constants.py'), ('array events', 'delayed_image/debug_utils.py:debug_array_event')], observe='results with TRACE_OPTIMIZE or DELAYED_IMAGE_DEBUG_SEGFAULT set',
         tech='static analysis: effect and data flow analysis over the syntax tree', note='every statement under a switch'),
    dict(id='D02', title='The package loads with its required packages only',
         statement='Importing the package, and any of its modules, needs only the standard library and the packages that it declares as required; gdal, rasterio, spectral and all other optional packages are only imported where they are used or where their absence is handled.',
         over=['configurations'], qtext='every installation with any set of optional packages', why='the test environment has all optional packages installed', files=[Z, N, L, B],
         mech=[('optional packages', Z + ':_import_gdal, _have_gdal')], observe='import delayed_image without the optional packages', tech='static analysis: effect analysis of module loading over the syntax tree', note='xarray, lark and others count as required because requirements/runtime.txt lists them'),
    dict(id='D03', title='Cached answers never go stale',
         statement='Every memoised function or property depends only on its arguments and on attributes that never change after construction, apart from those the computation itself fills; this includes values that a function keeps in an attribute of its object to return them again. Nothing that was read from a file is kept for the life of the process, and nobody changes a cached list, set or dictionary in place.',
         over=['histories'], qtext='every order of calls, attribute stores and copies', why='a stale value needs a store between two reads of the same property on the same object or on a copy', files=[Z, N, L, C],
         mech=[('cached properties', Z + ':LazyGDalFrameFile.shape, _read_ds, _read_bands'), ('cached normal forms', C + ':FusedChannelSpec.as_set')], observe='a property read twice around other calls',
         tech='static analysis: interprocedural dependence and store analysis over the syntax tree', note='dependences of all overriding methods are followed'),
]

NOT_APPLICABLE = [
    dict(id='N01', title='Optimized graphs deliver numerically close pixels',
         statement='The pixels of an optimized graph differ from those of the original graph by no more than the interpolation error of the sampled data.',
         over=['programs', 'inputs'], qtext=GRAPHS[1] + ', any pixel values', why='the error depends on the data, the kernels and the rounding', files=[N],
         mech=[('resampling', N + ':DelayedWarp._finalize')], observe='finalize(optimize=True) against finalize(optimize=False)',
         reason='the pixel values are computed in the binaries of cv2 and gdal in floating point; no static argument over the sources of the package bounds them. What is decidable of it (same place, canvas, parameters, bands, detail) is G01-G09 and E01.'),
    dict(id='N02', title='Optimization terminates and does not make evaluation slower',
         statement='Optimizing any graph ends, and evaluating the result costs no more time than evaluating the original graph.',
         over=['programs'], qtext=GRAPHS[1], why='the cost depends on block layouts and on the fixed point of all rewrites', files=[N],
         mech=[('the rewriting', N + ':optimize methods')], observe='run time of finalize()',
         reason='run time is a runtime quantity of drivers and libraries; termination needs a ranking of the rewrite loop over real valued scales, beyond the domains at hand.'),
    dict(id='N03', title='Printing and parsing channel specifications are inverse',
         statement='Parsing the printed form of any sensor channel specification gives an equal specification.',
         over=['programs', 'inputs'], qtext='every specification of the grammar', why='unbounded nesting of sensors, streams and ranges', files=[S, C],
         mech=[('grammar', S + ':SENSOR_CHAN_GRAMMAR')], observe='SensorChanSpec.coerce(str(spec)) == spec',
         reason='the grammar is a string that the lark library compiles and interprets at run time; deciding the round trip means executing this parser. The use of parsed selections is covered by O02 and G05.'),
    dict(id='N04', title='Reading a window costs memory and input in proportion to it',
         statement='Evaluating a small crop of a large file reads and allocates in proportion to the crop at the matching overview.',
         over=['inputs'], qtext='every file and crop', why='depends on block sizes, compression and caches', files=[Z],
         mech=[('windows', Z + ':LazyGDalFrameFile.__getitem__')], observe='bytes read by finalize()',
         reason='bytes and time are spent in the drivers; their block layout and caches are not visible in the sources. That exactly the window is requested from the driver is L01, that the window reaches the file is G03/G09.'),
]
