"""Single source of properties.jsonl (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 'delayed_image/delayed_nodes.py'
L = 'delayed_image/delayed_leafs.py'
B = 'delayed_image/delayed_base.py'
Z = 'delayed_image/lazy_loaders.py'
Hh = 'delayed_image/helpers.py'
CS = 'delayed_image/channel_spec.py'
SC = 'delayed_image/sensorchan_spec.py'
NT = 'delayed_image/util/util_network_text.py'

OUT = []


def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech],
               'hook_needed': None}
    if observe:
        anchors['observe_at'] = list(observe)
    if state:
        anchors['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    OUT.append({'id': id, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why, 'anchors': anchors})


P('C01', 'Optimizing never changes the declared size or channels of an image',
  'For any pipeline of crops, padded crops, warps, resizes, overviews, channel selections, dequantization and channel '
  'concatenation, the optimized pipeline declares exactly the width, height, number of channels, channel names and '
  'channel order of the original. Optimizing any valid pipeline terminates without an error.',
  ['programs', 'inputs'], 'every sequence of public image operations over every kind of leaf and operation argument',
  'tests optimize a few hand written pipelines; rewrites interact, so only whole sequences expose a lost size or channel',
  [N, L], [('per node optimize methods and their pairwise rewrites', N + ': optimize, _opt_*'),
           ('leafs that absorb operations', L + ': _optimized_crop, _optimized_warp')],
  ['dsize, channels, num_channels, shape before and after optimize()'])

P('C02', 'Optimizing never changes what is shown where',
  'For any pipeline over an image, every pixel of the optimized result that both describe as having content shows the '
  'same location of the source image, in the same channel, as the mathematical composition of the requested operations, '
  'up to the sub-pixel tolerance of resampling. Content must not disappear and must not come from another place.',
  ['programs', 'inputs'], 'every sequence of public image operations, leaf kind, file with or without overviews, resampling mode',
  'tests compare a few pipelines with loose tolerances; offsets of one pixel or swapped operations appear only in combinations',
  [N, Hh, L], [('fusing warps, absorbing and splitting overviews', N + ': DelayedWarp._opt_*'),
               ('moving crops below warps', N + ': DelayedCrop._opt_warp_after_crop; ' + Hh + ': _swap_warp_after_crop'),
               ('moving overviews below crops and warps', N + ': DelayedOverview._opt_*; ' + Hh + ': _swap_crop_after_warp')],
  ['values of finalize() against a linear ramp oracle'])

P('C03', 'Operations that move whole pixels are exact, optimized or not',
  'A pipeline of crops, padded crops, whole pixel translations, channel selections, concatenation and dequantization gives '
  'bit for bit the array that plain array indexing gives, with and without optimization, for every data type.',
  ['programs', 'inputs'], 'every sequence of whole pixel operations over every leaf kind and data type',
  'tests sample a few slices; exactness must hold for every order of operations',
  [N, L, Hh], [('crop fusion, crop/dequantize reordering, identity warp removal, concat pushing', N),
               ('padding through a warp', N + ': ImageOpsMixin._padded_crop, DelayedWarp._finalize')],
  ['finalize() arrays'])

P('C04', 'Optimizing is deterministic and reaches a canonical fixed point',
  'Optimizing an already optimized pipeline changes nothing, and optimizing the same pipeline again gives the same result. '
  'Under smooth resampling the result is always in the order concatenation, warp, dequantize, crop, overview, leaf '
  'with at most one of each per channel group, so only the needed part of the file is read.',
  ['programs'], 'every sequence of public image operations and leaf kinds',
  'tests check the structure of a few optimized graphs; a fixed point is a claim about all of them',
  [N], [('recursive optimize with rewrites until no rule applies', N + ': optimize')],
  ['the node types and parameters of the optimized graph'])

P('C05', 'Pipelines are immutable values: results do not depend on history',
  'Finalizing, optimizing, extending, inspecting or dropping any pipeline never changes the declared properties, the graph or the '
  'finalized values of another pipeline sharing nodes with it, of itself, or of the source arrays given by the user. Whatever sequence of '
  'such calls came before, a pipeline finalizes to what a fresh copy of it gives, and an image used several times within one pipeline gives what as many equal images give.',
  ['histories', 'programs'], 'every interleaving of calls on a family of pipelines that share sub-graphs',
  'tests use a pipeline once; sharing between copies shows up only after particular histories',
  [N, L, B, Z], [('copy-on-rewrite of nodes', N + ': copy.copy in optimize'),
                 ('memo of the optimize context', B + ': OptimizeContext'),
                 ('file handle kept by the leaf', L + ': DelayedLoad.lazy_ref')],
  ['nesting(), dsize, channels and finalize() before and after each call'])

P('C06', 'The finalized array has exactly the declared shape',
  'For every pipeline, the finalized array has height, width and number of bands exactly as declared before finalizing, '
  'and an automatically sized canvas is the smallest whole one holding all positive coordinates of the warped image, '
  'with and without optimization, whatever the source format, size parity, and operation arguments.',
  ['programs', 'inputs'], 'every sequence of public image operations over every leaf kind and odd or even sizes',
  'tests check a few shapes; rounding of sizes is input dependent',
  [N, L, Z], [('size bookkeeping in node constructors', N), ('finalization', N + ': _finalize')],
  ['shape versus finalize().shape'])

P('C07', 'Reported transforms to and between nodes describe the real geometry',
  'For every pipeline node the reported transform from its leaf maps leaf coordinates to node coordinates as the composition of the '
  'requested operations, before and after optimizing. For two nodes of pipelines that share a leaf the reported transform between them is that of '
  'one composed with the inverse of the other, along a path to a leaf both have.',
  ['programs', 'inputs'], 'every pair of pipelines over shared, distinct and concatenated leafs',
  'tests check a few chains; the bookkeeping must hold for all',
  [N, B], [('per node transform from its input', N + ': _transform_from_subdata'),
           ('leaf path search', B + ': _leaf_paths; ' + N + ': get_transform_from')],
  ['get_transform_from_leaf, get_transform_from'])

P('C08', 'Crops follow array slicing; unclipped crops pad with the missing value',
  'A crop with any slices (missing or negative bounds, beyond the image, empty, any order of bounds) selects what array slicing selects. '
  'With clipping and wrap-around off, the result has exactly the requested extent, content in place, and nothing but fill outside the image; '
  'extra padding adds exactly the requested border on each side.',
  ['inputs', 'programs'], 'every slice pair and padding over small images, nested twice',
  'tests try a few slices; the boundary cases are many',
  [N, L], [('slice normalization', N + ': ImageOpsMixin.crop, _rectify_slice_dim'),
           ('padded crop', N + ': _padded_crop')],
  ['dsize and finalize()'])

P('C09', 'Channel selection returns the requested channels in the requested order',
  'Selecting channels by name, code string, index list or channel specification, repeatedly and under any nesting of concatenation, crops and warps, '
  'returns exactly the requested channels in order with their own pixels. Unknown channels follow the requested policy: an error, or all-missing '
  'bands under the requested name, in position; present channels are unaffected.',
  ['programs', 'inputs'], 'every selection sequence over concatenations of files, arrays and missing images',
  'tests select a few; runs of present and absent channels are regrouped internally and every grouping matters',
  [N, CS], [('take_channels regrouping', N + ': DelayedChannelConcat.take_channels, DelayedImage.take_channels, _InnerAccumSegment')],
  ['channels, num_channels, finalize() band values'])

P('C10', 'Reading any window of a file equals slicing the fully read file',
  'For every supported format, data type, band count, band selection, overview level and missing data mode, reading a window '
  'returns exactly the values, data type and mask that slicing the whole image returns, and nested windows compose. '
  'Missing data values become not-a-number or masked exactly where the file says so, also with a different value per band.',
  ['inputs', 'configurations'], 'every window and band selection of small files in each format, reader and missing data mode',
  'tests read a few windows of demo images; off by one and band order errors depend on the window',
  [Z, L], [('windowed reads', Z + ': LazyGDalFrameFile.__getitem__, _load_array'),
           ('nodata handling', Z), ('other readers', Z + ': LazySpectralFrameFile, LazyRasterIOFrameFile')],
  ['arrays from lazy frames and DelayedLoad'])

P('C11', 'Dequantization maps every stored value to the documented physical value',
  'Every stored integer dequantizes to the affine image of the quantized range on the original range, the missing value '
  'to not-a-number and nothing else, at any position of a pipeline and with its own settings per channel group. Quantizing and dequantizing '
  'round-trips within one quantization step, and missing stays missing.',
  ['inputs', 'programs'], 'every value of 8 and 16 bit types and every combination of quantization options',
  'tests try a handful of values',
  [Hh, N], [('dequantize / quantize', Hh), ('position of dequantize in optimized graphs', N + ': DelayedDequantize')],
  ['helpers.dequantize, helpers.quantize_float01, finalize()'])

P('C12', 'Pixels without content hold the requested fill, never made-up values',
  'Output pixels outside the image hold exactly the requested border value, or with the default not-a-number for floating point data and zero for '
  'integers, with and without optimization; missing (not-a-number) source pixels stay missing and do not spread '
  'beyond the footprint of the interpolation.',
  ['programs', 'inputs'], 'every sequence of operations that exposes area outside of the image, every border setting and data type',
  'tests look at image interiors',
  [N], [('border handling in warps', N + ': DelayedWarp._finalize'), ('missing images', L)],
  ['finalize() values outside of the image'])

P('C13', 'Requested resampling settings are honoured, also after optimization',
  'The interpolation, antialiasing, border value and backend requested for a warp or resize take effect as requested in the optimized and in the plain '
  'result: under nearest resampling every output pixel is a copy of the correct source pixel and no new value is ever invented, '
  'and both backends agree in geometry.',
  ['programs', 'inputs', 'configurations'], 'every combination of settings over sequences of operations',
  'tests use defaults nearly everywhere; dropped settings are only visible in specific rewrites',
  [N], [('settings carried through rewrites', N + ': _algo_keys, _opt_*'),
        ('nearest fast path', N + ': DelayedWarp._finalize')],
  ['finalize() values, warp settings in the optimized graph'])

P('C14', 'Undoing warps returns native data and exact transforms back',
  'Undoing all warps gives, per band group, the image in the geometry of its own source; undoing some components (scale, offset, theta, shear) applies exactly '
  'those components of the inverse. The reported warp is the one that was applied: it maps the warped image onto the returned part, with matching canvas, content and '
  'transform from the leaf. Parts cover the channels in order; squashing only turns all-missing parts into single pixels.',
  ['programs', 'configurations'], 'every pipeline over single images and (nested) concatenations, every option combination of undoing warps',
  'tests undo a few pipelines without looking at the returned warps',
  [N], [('undo_warp(s)', N + ': DelayedImage.undo_warp, DelayedChannelConcat.undo_warps')],
  ['undone images, their transforms, finalize()'])

P('C15', 'Labelled array export carries the same pixels with the right labels',
  'Exporting a pipeline as a labelled array has dimensions y, x, c, one label per channel in order, and the same values as the plain '
  'finalized array, for every pipeline and channel naming, optimized or not.',
  ['programs', 'inputs'], 'every pipeline and channel naming',
  'tests export one image',
  [N], [('as_xarray', N + ': DelayedAsXarray')], ['coords, dims, values'])

P('C16', 'Channel code algebra obeys list and set semantics',
  'For all channel codes: parsing and printing round-trip, normalization expands ranges to the same list of channels and is idempotent, '
  'concise form denotes the same channels, union, difference and intersection equal ordered list/set operations, and sizes and indexes agree with the expanded list.',
  ['inputs'], 'every channel code built from a small alphabet of names, ranges, steps and lengths',
  'tests use a few example codes; the grammar is combinatorial',
  [CS], [('FusedChannelSpec', CS), ('memoized constructors', CS)], ['public methods of channel specs'])

P('C17', 'Multi-stream channel specs encode, decode and index consistently',
  'For every specification of one or more streams, encoding a dictionary of channel data and decoding it again returns the same data, '
  'the sizes, keys, unique channels and component positions agree with the streams written out, and set operations act stream by stream.',
  ['inputs'], 'every specification of up to three streams over a small alphabet, every axis',
  'tests encode one or two examples',
  [CS], [('ChannelSpec encode/decode', CS)], ['ChannelSpec methods'])

P('C18', 'Sensor-channel expressions denote the same pairs however they are written',
  'Expanding, normalizing, making concise, splitting into streams, joining and selecting by sensor all preserve the denoted '
  'list of (sensor, channel) streams, for every nesting of the grammar; normal form is unique, idempotent and reparses to itself.',
  ['inputs'], 'every expression of the grammar up to a bounded size',
  'tests parse a few expressions',
  [SC], [('grammar and transformers', SC)], ['SensorChanSpec methods'])

P('C19', 'Concurrent use of shared pipelines and specs gives sequential results',
  'When several threads finalize, optimize, extend or inspect pipelines that share nodes or files, or parse channel codes for the first time, '
  'every call returns what it returns when run alone, under every interleaving.',
  ['schedules'], 'all interleavings of two threads up to a preemption bound at source line granularity',
  'tests are single threaded',
  [N, L, Z, CS, SC], [('lazily opened files', L + ': DelayedLoad._load_reference; ' + Z), ('memo tables', CS),
                      ('lazily built grammar', SC)],
  ['return values per thread'])

P('C20', 'Internal caches are transparent',
  'Memoized channel codes, cached parser results and cached file handles never change an answer: after any '
  'sequence of calls or reopening of files, each call answers as a fresh process would (as long as callers do not modify returned objects in place), and bounded caches stay bounded.',
  ['histories', 'inputs'], 'every call sequence up to a depth over colliding keys',
  'tests rarely call twice with colliding keys',
  [CS, SC, Z], [('spec memo', CS), ('file handle cache', Z + ': CacheDict, GLOBAL_GDAL_CACHE'), ('parse cache', SC)],
  ['answers against a fresh process'])

P('C21', 'Graph introspection describes the pipeline exactly',
  'For every pipeline the exported graph has one node per use of an operation or leaf (a shared input appears once per use), with edges from operations to '
  'their inputs, labelled with its parameters; the nested description and the textual rendering list the same nodes with the same parameters, the leaf list has every use of a leaf once, '
  'and there is one path to each, holding the operations between. Describing a pipeline never fails and never changes it.',
  ['programs'], 'every pipeline with sharing and concatenation',
  'tests print a few graphs',
  [B, N], [('introspection', B + ': nesting, as_graph, leafs, _leaf_paths, write_network_text')],
  ['nesting(), as_graph(), leafs()'])

P('C22', 'A failed file read is reported, and never poisons later reads',
  'If opening a file or reading a band fails at any point, the call raises an error rather than returning made-up pixels, and '
  'once the fault is gone the same objects return correct data.',
  ['fault_sequences'], 'a fault at every file library call of a read, for every kind of read, followed by retries',
  'tests never inject read faults',
  [Z, L], [('error checks after each read', Z)], ['exceptions and retried arrays'])

P('C23', 'Text renderings of graphs are complete and parse back to the same graph',
  'The textual rendering of any directed or undirected graph shows every node reachable from the sources exactly once and every edge in the right direction, and parsing the rendering '
  'returns the same graph; a depth or size limit only omits parts and says so.',
  ['inputs'], 'every directed graph up to a few nodes, every choice of sources and rendering options',
  'tests render a few example graphs',
  [NT], [('generate_network_text, parse_network_text', NT)], ['rendered lines'])

P('C24', 'Overview reads use the right pyramid level and never lose resolution',
  'An overview node of a file shows exactly the stored pyramid level, levels compose additively, and optimizing never makes a pipeline '
  'read a coarser level than its coarsest stage needs, nor a finer one than stored when a coarser one suffices (as long as the overview levels it asks for are stored). '
  'Pyramids stored at other factors than consecutive powers of two are ignored from the first odd one on.',
  ['programs', 'inputs'], 'every combination of overviews, scales, reflections and crops over files with recognizable pyramid levels',
  'tests compare images where adjacent levels look alike',
  [N, Z], [('overview rewrites', N + ': DelayedOverview, DelayedWarp._opt_split_warp_overview, _opt_absorb_overview'),
           ('overview reads', Z + ': get_overview')],
  ['which level the finalized values come from'])

P('C25', 'Different ways to write the same request give the same image',
  'A request written in another documented way (slice notation or a crop call, a matrix, parameters or a transform object, one value or one per axis, positional or keyword arguments, '
  'a name or its integer code, positive or negative indexes, defaults left out or spelled out, lazy or not) gives an image with the same declaration, transform and values. All ways to ask for the values '
  '(preparing, optimizing, evaluating or exporting first) agree, settings given when finalizing act as if given to every warp, and leafs made in different ways from the same data are the same.',
  ['programs', 'inputs'], 'every writing of every request on every kind of image, after and before every other operation',
  'tests use one writing of each request',
  [N, L, B], [('operations', N + ': ImageOpsMixin, DelayedWarp, DelayedCrop'), ('finalize', B + ': finalize'), ('leafs', L)],
  ['declared properties and finalized values of both writings'])

P('C26', 'Requests that cannot be met are refused with an error',
  'Asking for channels, windows, canvases, overviews, transform components, interpolations or settings that do not exist, joining images of different sizes, or naming a file that is no image raises an error, '
  'at the latest when the values are asked for, optimized or not, wherever it happens in a pipeline: it never silently gives some image. The refusal leaves the pipeline it was asked of unchanged. '
  'Operations on a file that was not prepared are refused or give what they give on the prepared file.',
  ['programs', 'inputs'], 'every malformed request on every kind of image, before and after every other operation',
  'tests check a few errors, each directly on one image',
  [N, L, B], [('operations', N + ': ImageOpsMixin'), ('concat', N + ': DelayedChannelConcat.__init__'), ('files', L + ': DelayedLoad')],
  ['errors raised', 'declared properties and finalized values afterwards'])

P('C27', 'Nothing is read before values are asked for, and then only what is needed',
  'Building, optimizing, inspecting, labelling and transforming pipelines reads no pixels; preparing reads at most the header, and neither that nor anything else before finalize opens a file whose metadata was given. '
  'Finalizing (optimized) reads only the selected bands, no oftener than they are shown; after crops only the window that is shown, exactly if no operation resamples or pads and up to the reach of the '
  'interpolation otherwise; and if the image is scaled down, a stored pyramid level at least as coarse as the scale allows. (Not so, by design: images warped with nearest interpolation before a crop, overviews that the file does not store, files read without GDAL, which are read whole and once.)',
  ['programs', 'inputs'], 'every sequence of operations on every file',
  'tests compare values, which stay right when too much is read, and time nothing',
  [N, L, Z], [('leaf', L + ': DelayedLoad.prepare, _load_metadata'), ('crops', N + ': DelayedCrop.optimize, _opt_warp_after_crop, _opt_dequant_after_crop'),
           ('pyramid', N + ': DelayedWarp._opt_split_warp_overview, DelayedOverview.optimize'), ('reader', Z + ': LazyGDalFrameFile.__getitem__')],
  ['raster input calls of the GDAL bindings: bands, windows, levels', 'files opened'])

P('C28', 'The type of the values follows from the source and the operations',
  'Finalized values have the type of the source through every crop, padding, resampling, overview and band selection, whatever the order and whether optimized or not; masked sources stay masked. '
  'Reading missing data as NaN promotes with float32 (so doubles and 32 bit integers lose nothing), dequantizing gives its orig_dtype (float32 by default, a float if that is an integer), '
  'a missing channel makes the image float64, and concatenations have the numpy promotion of their parts (where a selection drops a part, the optimized image may have the type of what is left). '
  'Integer images resample to the values of the same image as floats, rounded and limited to the range of the type, and so are border values: they never wrap around.',
  ['inputs', 'programs'], 'every type of source x every sequence of operations, and integer images that use their whole range under every interpolation',
  'tests look at the types of a few leafs, and resample images whose values stay far from the limits of their types',
  [N, L, Z], [('resampling', N + ': DelayedWarp._finalize, DelayedOverview._finalize'), ('dequantize', Hh + ': dequantize'),
              ('nodata', Z + ': _gdal_read_kwimage_compatible'), ('concat', N + ': DelayedChannelConcat._finalize')],
  ['type, mask and values of finalized images'])

P('C29', 'A band is processed like an image that consists of this band alone',
  'What a band of a finalized image shows (values, type, missing pixels, size) depends on no other band: not on how many there are, in which order, what they hold or miss, nor on how they are spread over files and '
  'concatenations. It is what the same operations give on an image made of this band alone, exactly if they only move whole pixels and up to the rounding of positions otherwise, optimized or not, '
  'for every interpolation and border value and any number of bands.',
  ['inputs', 'programs'], 'every kind of source with 2 to 13 bands x interpolation and border settings x every sequence of operations',
  'tests use images of one or three bands that are all alike, and judge them together',
  [N, L, Z], [('resampling', N + ': DelayedWarp._finalize, _finalize_by_parts, _finalize_masked'), ('concat', N + ': DelayedChannelConcat._finalize'),
              ('reader', Z + ': LazyGDalFrameFile.__getitem__, _gdal_read_kwimage_compatible')],
  ['finalized values of every band, compared with an image of that band only'])

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in OUT:
            f.write(json.dumps(p) + '\n')
    print(len(OUT))
