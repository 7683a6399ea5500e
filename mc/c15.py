"""
C15: labelled array export.

Oracle: the plain finalized array of the same pipeline (built anew), and the
channel list of the reference model.
"""
import itertools

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'


def plain(a):
    """values as the labelled array holds them: masked pixels are missing"""
    if isinstance(a, np.ma.MaskedArray):
        m = np.ma.getmaskarray(a)
        a = a.data
        if m.any() or True:
            # xarray promotes masked integers to floats
            a = np.where(m, np.nan, a.astype(np.result_type(a.dtype, np.float16) if a.dtype.kind in 'ui' else a.dtype))
    return a


def check(x, want, labels, what):
    import xarray as xr
    if not isinstance(x, xr.DataArray):
        raise Violation(f'{what}: gives a {type(x).__name__}')
    if tuple(x.dims) != ('y', 'x', 'c'):
        raise Violation(f'{what}: dimensions {x.dims}')
    if x.shape != want.shape:
        raise Violation(f'{what}: shape {x.shape}, the image is {want.shape}')
    if labels is None:
        if 'c' in x.coords:
            raise Violation(f'{what}: labels {x.coords["c"].values.tolist()} for an image without channel names')
    else:
        if 'c' not in x.coords or x.coords['c'].values.tolist() != labels:
            raise Violation(f'{what}: labels {x.coords["c"].values.tolist() if "c" in x.coords else None}, expected {labels}')
        for i, c in enumerate(labels):
            if labels.count(c) == 1 and not np.array_equal(x.sel(c=c).values, want[:, :, i], equal_nan=want.dtype.kind == 'f'):
                raise Violation(f'{what}: channel {c} by label has other values')
    if set(x.coords) - {'c'}:
        raise Violation(f'{what}: coordinates {list(x.coords)}')
    v = x.values
    if v.dtype != want.dtype:
        raise Violation(f'{what}: data type {v.dtype}, expected {want.dtype}')
    if not np.array_equal(v, want, equal_nan=v.dtype.kind == 'f'):
        raise Violation(f'{what}: values differ in {int((v != want).sum())} places')


def run_pipe(case):
    kw = {}
    node, st = pipe.build(case, kw)
    labels = [c for c, _ in st.chans] if st.named else None
    keys = []
    for opt in (False, True):
        want = pipe.build(case, kw)[0].finalize(optimize=opt)
        keys.append(core.key(want))
        check(node.as_xarray().finalize(optimize=opt), want, labels, f'optimize={opt}')
        check(node.as_xarray().optimize().finalize(optimize=opt), node.optimize().finalize(optimize=opt), labels,
              f'optimized before, optimize={opt}')
        check(node.optimize().as_xarray().finalize(optimize=opt), node.optimize().finalize(optimize=opt), labels,
              f'export of optimized, optimize={opt}')
    x = node.as_xarray()
    for y in (x, x.optimize()):
        if tuple(y.dsize) != tuple(node.dsize) or y.num_channels != node.num_channels:
            raise Violation(f'declared {y.dsize} with {y.num_channels} channels, the image is {node.dsize} with {node.num_channels}')
        got = None if y.channels is None else y.channels.as_list()
        if got != labels:
            raise Violation(f'declared channels {got}, expected {labels}')
    again = node.finalize()
    if core.key(again) != keys[1]:
        raise Violation('exporting changed the image')
    return Outcome(keys, 3 * len(case), 6)


NAMES = ['a', 'b', 'B1', 'r', 'g', 'x.0', 'x.1', 'm.0:3', 'm:2', 'hot.5', 'rgb', 'a b', 'é', '1', 'M']


def names_list(codes):
    from delayed_image import FusedChannelSpec
    out = []
    for c in codes:
        if c == 'rgb':
            out += ['r', 'g', 'b']
        elif c == 'm.0:3':
            out += ['m.0', 'm.1', 'm.2']
        elif c == 'm:2':
            out += ['m.0', 'm.1']
        else:
            out.append(c)
    return out


def run_names(case):
    codes, dtype, ma, ops = case
    from delayed_image import DelayedChannelConcat, DelayedIdentity
    labels = names_list(codes)
    n = len(labels)
    a = (np.arange(5 * 4 * n).reshape(4, 5, n) % 250).astype(dtype)
    if ma:
        a = np.ma.array(a, mask=np.arange(5 * 4 * n).reshape(4, 5, n) % 7 == 3)
    spec = '|'.join(codes)
    if ops == 'split' and n > 1:
        node = DelayedChannelConcat([DelayedIdentity(a[:, :, :1], channels=labels[0]),
                                     DelayedIdentity(a[:, :, 1:], channels='|'.join(labels[1:]))])
    else:
        node = DelayedIdentity(a, channels=spec)
    want = a
    if ops == 'crop':
        node = node.crop((slice(1, 3), slice(0, 4)))
        want = a[1:3, 0:4]
    elif ops == 'rev':
        node = node.take_channels(list(range(n))[::-1])
        want, labels = a[:, :, ::-1], labels[::-1]
    elif ops == 'pick':
        node = node.take_channels(labels[-1])
        want, labels = a[:, :, [labels.index(labels[-1])]], labels[-1:]
    elif ops == 'rep':
        pick = [0, n - 1, 0]
        node = node.take_channels(pick)
        want, labels = a[:, :, pick], [labels[i] for i in pick]
    for opt in (False, True):
        x = node.as_xarray().finalize(optimize=opt)
        w = plain(want)
        if ma:
            # the promoted type is up to xarray
            w = w.astype(x.dtype)
            if x.dtype.kind != 'f':
                raise Violation(f'masked pixels exported as {x.dtype}')
        check(x, w, labels, f'optimize={opt}')
    return Outcome([core.key(labels, dtype, ma, ops)], 2)


def cases_names(depth):
    for n in range(1, depth + 1):
        for codes in itertools.permutations(NAMES, n):
            ls = names_list(codes)
            if len(set(ls)) != len(ls):
                continue
            for dtype in ('uint8', 'float32', 'int16', 'float64') if n < 2 else ('uint8', 'float32'):
                for ma in (0, 1):
                    for ops in ('', 'crop', 'rev', 'pick', 'rep', 'split'):
                        yield [list(codes), dtype, ma, ops]


def families(tier):
    th = tier == 'thorough'
    en = pipe.enumerate_cases
    F = Family
    fams = [
        F('pipe2', lambda: en(['cog', 'id?', 'cat_jag', 'cat_nan', 'nans', 'cat_cat', 'id:5x3', 'flat'], [
            'c_mid', 'c_br', 'p_tl', 'w_half', 'w_rot', 'w_hd', 'o1', 'dq', 't_yx', 't_z', 't_xz', 't_rep', 't_miss', 't_neg', 'g_one'], 2), run_pipe, 'depth 2'),
        F('all1', lambda: en(['plain', 'plain?', 'id', 'cog:31x29', 'cat_ids', 'id:1x1'], list(pipe.OPS), 1), run_pipe, 'depth 1, all ops'),
        F('names', lambda: cases_names(2), run_names, 'lists of up to 2 channel codes'),
    ]
    if th:
        fams += [F('pipe3', lambda: en(['cog', 'cat_jag', 'cat_nan'], [
            'c_mid', 'p_tl', 'w_half', 'w_rot', 'o1', 'dq', 't_yx', 't_z', 't_xz', 't_rep', 't_miss'], 3), run_pipe, 'depth 3'),
            F('names3', lambda: cases_names(3), run_names, 'lists of up to 3 channel codes')]
    return fams
