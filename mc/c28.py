"""
C28: the type of the values is the one the source and the operations call for.

A case is [leaf, dtype, op, ...] (operations of mc.pipe).  The reference is a
table over types, not over values:

    crop, pad, resample, overview, band selection   keep the type
    a nodata value that becomes NaN                 numpy promotion with float32
    dequantize                                      its orig_dtype, float32 by default
                                                    (float64 for integers; masked: or float64)
    a channel that is missing                       float64
    concatenation                                   numpy promotion of the parts

and a masked source stays masked.  The integers themselves are judged by the
same operations on the same image as floats: rounded, limited to what the type
can hold, never wrapped around and never cut off early.
"""
import itertools

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

DTYPES = ['uint8', 'int16', 'uint16', 'float32', 'float64']


def texture(dt, kind, w=pipe.W, h=pipe.H):
    """(h, w, 3) of this type that uses its range."""
    yy, xx = np.mgrid[0:h, 0:w]
    dt = np.dtype(dt)
    if dt.kind in 'iu':
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
    if dt.kind not in 'iu':
        lo, hi = 0, 255
    elif dt.itemsize > 2:
        lo, hi = np.iinfo(dt).min // 2, np.iinfo(dt).max // 2
    if kind == 'ramp':
        t = [xx / (w - 1), yy / (h - 1), (xx + yy) / (w + h - 2)]
    elif kind == 'check':
        t = [(xx // 3 + yy // 3) % 2, (xx // 4) % 2, 1 - (yy // 5) % 2]
    else:
        t = [(xx * 37 + yy * 11) % 17 / 16, (xx * 5 + yy * 23) % 13 / 12, (xx * yy) % 7 / 6]
    t = np.stack(t, -1).astype(float)
    out = lo + t * (hi - lo)
    return (np.rint(out) if dt.kind in 'iu' else out % 2 > .5 if dt.kind == 'b' else out).astype(dt)


def tif(dt, kind, nodata=None, overviews=(2, 4, 8)):
    return pipe.fixture(f'c28_{dt}_{kind}_{nodata}_{len(overviews)}.tif',
                        lambda p: pipe.write_tif(p, texture(dt, kind), overviews=overviews, nodata=nodata))


def make(leaf, dt, kind='odd'):
    """-> node, [(dtype, masked) of every band]"""
    from delayed_image import DelayedChannelConcat, DelayedIdentity, DelayedLoad, DelayedNans
    data = texture(dt, kind)
    one = np.dtype(dt)
    if leaf == 'id':
        return DelayedIdentity(data, channels='x|y|z'), [(one, False)] * 3
    if leaf == 'flat':
        return DelayedIdentity(np.ascontiguousarray(data[:, :, 0]), channels='x'), [(one, False)]
    if leaf == 'cog':
        return DelayedLoad(tif(dt, kind), channels='x|y|z').prepare(), [(one, False)] * 3
    if leaf == 'plain':
        return DelayedLoad(tif(dt, kind, overviews=()), channels='x|y|z').prepare(), [(one, False)] * 3
    if leaf == 'unused':
        # the policy without a nodata value in the file: still promised to be able to hold NaN
        node = DelayedLoad(tif(dt, kind), channels='x|y|z', nodata_method='float').prepare()
        return node, [(np.result_type(one, 'float32'), False)] * 3
    if leaf == 'ma':
        # (GDAL hangs when it builds such overviews of 64 bit integers)
        over = () if dt in ('int64', 'uint64') else (2, 4, 8)
        node = DelayedLoad(tif(dt, kind, 3, over), channels='x|y|z', nodata_method='ma').prepare()
        return node, [(one, True)] * 3
    if leaf in ('float', 'auto'):
        node = DelayedLoad(tif(dt, kind, 3), channels='x|y|z', nodata_method=leaf).prepare()
        return node, [(np.result_type(one, 'float32'), False)] * 3
    if leaf == 'maid':
        return DelayedIdentity(np.ma.array(data, mask=data == data[0, 0, 0]), channels='x|y|z'), [(one, True)] * 3
    if leaf == 'nans':
        return DelayedNans((pipe.W, pipe.H), channels='x|y|z'), [(np.dtype('float64'), False)] * 3
    if leaf == 'cat':
        node = DelayedChannelConcat([DelayedIdentity(data[:, :, :1], channels='x'),
                                     DelayedIdentity(data[:, :, 1:].astype('float32'), channels='y|z')])
        return node, [(one, False)] + [(np.dtype('float32'), False)] * 2
    if leaf == 'catsame':
        node = DelayedChannelConcat([DelayedIdentity(data[:, :, :1], channels='x'),
                                     DelayedLoad(tif(dt, kind), channels='x|y|z').prepare()[:, :, 1:]])
        return node, [(one, False)] * 3
    if leaf == 'catsame:':
        return DelayedChannelConcat([DelayedIdentity(data[:, :, :1], channels='x'),
                                     DelayedIdentity(data[:, :, 1:], channels='y|z')]), [(one, False)] * 3
    if leaf == 'catint':
        node = DelayedChannelConcat([DelayedIdentity(data[:, :, :2], channels='x|y'),
                                     DelayedIdentity(texture('uint8', kind)[:, :, 2:], channels='z')])
        return node, [(one, False)] * 2 + [(np.dtype('uint8'), False)]
    if leaf == 'catma':
        node = DelayedChannelConcat([DelayedIdentity(np.ma.array(data, mask=data == data[0, 0, 0])[:, :, :1],
                                                     channels='x'),
                                     DelayedIdentity(data[:, :, 1:], channels='y|z')])
        return node, [(one, True)] + [(one, False)] * 2
    if leaf == 'catnan':
        node = DelayedChannelConcat([DelayedIdentity(data[:, :, :2], channels='x|y'),
                                     DelayedNans((pipe.W, pipe.H), channels='z')])
        return node, [(one, False)] * 2 + [(np.dtype('float64'), False)]
    raise KeyError(leaf)


def promote(bands):
    return np.result_type(*[d for d, _ in bands]), any(m for _, m in bands)


def follow(bands, names, op):
    """The types of the bands after the operation; None is a missing one."""
    op = pipe.OPS[op]
    if op[0] == 'deq':
        return [(np.dtype('float32'), m) for _, m in bands], names
    if op[0] == 'take' and isinstance(op[1], str):
        want = op[1].split('|')
        got = [bands[names.index(c)] if c in names else (np.dtype('float64'), False) for c in want]
        return got, want
    if op[0] == 'take':
        idx = list(range(len(bands)))
        idx = idx[op[1]] if isinstance(op[1], slice) else [idx[i] for i in op[1]]
        return [bands[i] for i in idx], [names[i] for i in idx]
    if op[0] == 'get':
        idx = list(range(len(bands)))
        idx = idx[op[3]] if isinstance(op[3], slice) else [idx[i] for i in np.atleast_1d(op[3])]
        return [bands[i] for i in idx], [names[i] for i in idx]
    return bands, names


# a selection by name may add a missing channel, which makes a concatenation
NAMED = {k for k, o in pipe.OPS.items() if o[0] == 'take' and isinstance(o[1], str)}


def allowed(leaf, bands, names, ops):
    """
    All types the values may have.  Below an unoptimized concatenation a type
    may survive the selection that drops it.
    """
    out = [promote(bands)]
    alive = list(bands)
    for op in ops:
        bands, names = follow(bands, names, op)
        if pipe.OPS[op][0] == 'deq':
            alive = follow(alive, ['?'] * len(alive), op)[0]
        alive += [b for b in bands if b not in alive]
    out = {promote(bands)}
    if leaf.startswith('cat') or NAMED & set(ops):
        # anything between what is left and everything that was there
        for k in range(len(set(alive)) + 1):
            for more in itertools.combinations(sorted(set(alive), key=str), k):
                out.add(promote(list(bands) + list(more)))
    if 'dq' in ops:
        # numpy computes masked arrays with python numbers as float64
        out |= {(np.dtype('float64'), m) for _, m in out if m}
    return out, promote(bands)


def name_of(t):
    return ('masked ' if t[1] else '') + str(t[0])


def run_types(case):
    leaf, dt, *ops = case
    st = pipe.make_leaf('flat' if leaf == 'flat' else 'id')[1]
    node, bands = make(leaf, dt)
    names = ['x', 'y', 'z'][:len(bands)]
    node, st = pipe.build(['id', *ops], leaf=(node, st))
    ok, want = allowed(leaf, bands, names, ops)
    states = []
    for what, f in [('finalize()', lambda: node.finalize()),
                    ('finalize(optimize=False)', lambda: node.finalize(optimize=False)),
                    ('optimize().finalize()', lambda: node.optimize().finalize())]:
        got = f()
        t = (got.dtype, isinstance(got, np.ma.MaskedArray))
        if t not in ok:
            raise Violation(f'{what} of {leaf} ({dt}) is {name_of(t)}, expected {name_of(want)}')
        states.append(core.key(name_of(t), got.shape))
    return Outcome(states, len(ops), 3)


def run_dequantize(case):
    leaf, dt, orig, ops, after = case
    node, bands = make(leaf, dt)
    st = pipe.make_leaf('id')[1]
    node, st = pipe.build(['id', *ops], leaf=(node, st))
    q = {'orig_min': -1., 'orig_max': 3., 'quant_min': 1, 'quant_max': 201, 'nodata': 1}
    if orig is not None:
        q['orig_dtype'] = orig
    node = node.dequantize(q)
    node, st = pipe.build(['id', *after], leaf=(node, st))
    want = np.dtype(orig or 'float32')
    if want.kind != 'f':
        want = np.dtype('float64')      # integers could not hold what is missing
    masked = any(m for _, m in bands)
    states = []
    for what, f in [('finalize()', lambda: node.finalize()),
                    ('finalize(optimize=False)', lambda: node.finalize(optimize=False))]:
        got = f()
        t = (got.dtype, isinstance(got, np.ma.MaskedArray))
        if t != (want, masked) and t != (np.dtype('float64'), True):
            raise Violation(f'{what} of {leaf} ({dt}) dequantized to {orig} is {name_of(t)}, '
                            f'expected {name_of((want, masked))}')
        states.append(core.key(name_of(t), got.shape))
    return Outcome(states, 1 + len(ops) + len(after), 2)


def cases_dequantize(leafs, ops, depth):
    for leaf in leafs:
        for seq in pipe.enumerate_cases(['id'], ops, depth):
            for cut in range(len(seq)):
                for dt in DTYPES:
                    for orig in (None, 'float32', 'float64', 'int16', 'uint8'):
                        yield [leaf, dt, orig, seq[1:1 + cut], seq[1 + cut:]]


def cases_types(leafs, dtypes, ops, depth):
    for leaf in leafs:
        for seq in pipe.enumerate_cases(['flat' if leaf == 'flat' else 'id'], ops, depth):
            if leaf == 'nans' and 'dq' in seq:
                continue
            for dt in dtypes if leaf != 'nans' else ['float64']:
                yield [leaf, dt] + seq[1:]


# ------------------------------------------------------- the integers themselves
def run_values(case):
    from delayed_image import DelayedIdentity, DelayedLoad
    leaf, dt, kind, interp, aa, *ops = case
    kw = dict(interpolation=interp, antialias=bool(aa))
    st0 = pipe.make_leaf('id')[1]
    got = {}
    for t in (dt, 'float32'):
        if leaf == 'id':
            node = DelayedIdentity(texture(dt, kind).astype(t), channels='x|y|z')
        else:
            path = pipe.fixture(f'c28v_{dt}_{kind}_{t}.tif',
                                lambda p: pipe.write_tif(p, texture(dt, kind).astype(t)))
            node = DelayedLoad(path, channels='x|y|z').prepare()
        node, st = pipe.build(['id', *ops], warp_kw=kw, leaf=(node, st0))
        got[t] = node.finalize(), node.finalize(optimize=False)
    lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
    n = 0
    tol = tolerance(dt, kind, interp, ops)
    steps = sum(pipe.OPS[op][0] in RESAMPLES for op in ops)
    for i, what in enumerate(['finalize()', 'finalize(optimize=False)']):
        if i and interp in ('cubic', 'lanczos') and steps > 1:
            continue        # what overshoots is cut off in between
        a, b = got[dt][i], got['float32'][i]
        if a.shape != b.shape:
            raise Violation(f'{what}: shape {a.shape} as {dt}, {b.shape} as float32')
        ok = np.isfinite(b)
        diff = np.where(ok, np.abs(a.astype(float) - np.clip(np.where(ok, b, 0), lo, hi)), 0)
        n += int(ok.sum())
        if diff.max(initial=0) > tol:
            p = np.unravel_index(diff.argmax(), diff.shape)
            raise Violation(f'{what} of {dt}: {a[p]} at {list(map(int, p))}, as floats {b[p]} '
                            f'(tolerance {tol:.3f})')
    return Outcome([core.key(got[dt][0])], 2 * len(ops), n, trivial=not n)


FILL_TFS = {'whole': dict(offset=(6, 6)), 'part': dict(offset=(6.5, 6.25)), 'turn': dict(offset=(12, 6), theta=.3),
            'half': dict(offset=(8, 8), scale=.5), 'flip': dict(offset=(30, 6), scale=(-.7, 1)), 'up': dict(offset=(20, 18), scale=2)}
FILLS = [0, 7, 300, -3, 1.4, 2.6, 70000, -40000, (7, 8, 9), (7, 1.4, 300), (300, 7, 7), (-3, 7, 2.6), (1.4, 8, 9)]


def run_fill(case):
    """Outside of the content is the border value, rounded and limited to the range."""
    from delayed_image import DelayedIdentity, DelayedLoad
    leaf, dt, tf, interp, fill, after = case
    data = texture(dt, 'odd', 12, 12)
    if leaf == 'id':
        node = DelayedIdentity(data, channels='x|y|z')
    else:
        path = pipe.fixture(f'c28f_{dt}.tif', lambda p: pipe.write_tif(p, data))
        node = DelayedLoad(path, channels='x|y|z').prepare()
    fill = tuple(fill) if isinstance(fill, list) else fill
    node = node.warp(FILL_TFS[tf], dsize=(40, 36), border_value=fill, interpolation=interp, antialias=False)
    want = np.broadcast_to(np.asarray(fill, float), (3,))
    lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
    want = np.clip(np.rint(want), lo, hi)
    if after == 'bands':
        node, want = node[:, :, [2, 0]], want[[2, 0]]
    elif after == 'crop':
        node = node[:4, :]
    states = []
    for opt in (True, False):
        got = node.finalize(optimize=opt)
        corner = got[1, 1].astype(float)
        if got.dtype != np.dtype(dt) or not np.array_equal(corner, want):
            raise Violation(f'outside of the image is {corner.tolist()} (optimize={opt}), border_value {fill} as {dt} '
                            f'is {want.tolist()}')
        states.append(core.key(got))
    return Outcome(states, 2, 2)


def cases_fill():
    for leaf, dt, tf, interp in itertools.product(['id', 'cog'], ['uint8', 'int16', 'uint16'], FILL_TFS, INTERPS):
        for fill in FILLS:
            for after in (None, 'bands', 'crop'):
                yield [leaf, dt, tf, interp, list(fill) if isinstance(fill, tuple) else fill, after]


def tolerance(dt, kind, interp, ops):
    """
    Every step rounds.  OpenCV resamples integers linearly on a grid of 1/32
    pixel unless the steps are simple fractions.
    """
    tol = 2 + 1.5 * len(ops)
    if interp in ('linear', 'area') and COARSE & set(ops):
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
        tol += len(ops) * (hi - lo) * (.004 if kind == 'ramp' else .035)
    return tol


TURNS = {'w_rot', 'w_rots', 'w_shear'}
COARSE = TURNS | {'r_a', 'r_b', 'w_third', 'w_aniso', 'w_aniso2', 'w_up'}
RESAMPLES = {'warp', 'resize', 'over', 'pcrop'}


def cases_values(leafs, dtypes, kinds, interps, ops, depth):
    for leaf in leafs:
        for seq in pipe.enumerate_cases(['id'], ops, depth):
            if len(seq) == 1:
                continue
            for dt in dtypes:
                for kind in kinds:
                    for interp in interps:
                        if interp == 'nearest' and TURNS & set(seq):
                            continue        # which neighbour is a matter of rounding
                        for aa in (0, 1):
                            yield [leaf, dt, kind, interp, aa] + seq[1:]


INTERPS = ['nearest', 'linear', 'cubic', 'area', 'lanczos']
# OpenCV cannot resample these
RARE = ['bool', 'int32', 'uint32', 'int64', 'uint64', 'float16', 'complex64']
NOTRESAMPLED = [k for k, o in pipe.OPS.items() if o[0] in ('crop', 'take', 'get')]
VOPS = ['c_mid', 'p_tl', 'w_half', 'w_quart', 'w_dbl', 'w_aniso', 'w_t', 'w_tf', 'w_rot', 'w_shear', 'w_flip', 'w_hd',
        'r_a', 'o1', 't_yx', 'w_id']


def families(tier):
    ct, cv = cases_types, cases_values
    WIDE = list(pipe.OPS)
    INT = ['uint8', 'int16', 'uint16']
    fams = [
        Family('types1', lambda: ct(['id', 'flat', 'cog', 'plain', 'unused', 'ma', 'float', 'auto', 'maid', 'nans', 'cat',
                                     'catsame', 'catint', 'catma', 'catnan'], DTYPES, WIDE, 1), run_types,
               'every kind of source, depth 1'),
        Family('rare2', lambda: ct(['id', 'flat', 'catsame:'], RARE, NOTRESAMPLED, 2), run_types,
               'types that cannot be resampled: crops and bands, depth 2'),
        Family('rarefile2', lambda: ct(['cog', 'plain', 'ma', 'unused'], ['int32', 'uint32', 'int64', 'uint64'], NOTRESAMPLED, 2),
               run_types, 'the same from files'),
        Family('dequantize1', lambda: cases_dequantize(['id', 'cog', 'ma', 'float', 'catsame'], [
            'c_mid', 'p_tl', 'w_half', 'w_rot', 'o1', 't_yx', 'g_one', 'w_idp'], 1), run_dequantize,
               'dequantize to every type, before or after one operation'),
        Family('fills', cases_fill, run_fill, 'every border value x kind of transform x interpolation'),
        Family('types2', lambda: ct(['id', 'cog', 'ma', 'float', 'cat'], ['uint8', 'float64'], WIDE, 2), run_types,
               'depth 2, all ops'),
        Family('values1', lambda: cv(['id', 'cog'], INT, ['ramp', 'check', 'odd'], INTERPS, WIDE, 1), run_values,
               'integers and floats, depth 1, all ops'),
        Family('values2', lambda: cv(['id'], ['uint8', 'int16'], ['check'], ['linear', 'cubic'], VOPS, 2), run_values,
               'integers and floats, depth 2'),
    ]
    if tier == 'thorough':
        fams += [
            Family('dequantize2', lambda: cases_dequantize(['id', 'cog', 'ma', 'float', 'catsame'], [
                'c_mid', 'p_tl', 'w_half', 'w_rot', 'o1', 't_yx', 'g_one', 'w_idp'], 2), run_dequantize,
                   'dequantize to every type, between two operations'),
            Family('types2x', lambda: ct(['id', 'flat', 'cog', 'plain', 'unused', 'ma', 'float', 'auto', 'maid', 'nans',
                                          'cat', 'catsame', 'catint', 'catma', 'catnan'], DTYPES, WIDE, 2), run_types,
                   'every kind of source, depth 2'),
            Family('values2x', lambda: cv(['id', 'cog'], INT, ['ramp', 'check', 'odd'], INTERPS, VOPS, 2), run_values,
                   'integers and floats, depth 2, every interpolation'),
        ]
    return fams
