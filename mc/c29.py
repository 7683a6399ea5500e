"""
C29: a band is processed like an image that consists of this band alone.

A case is [source, bands, dtype, settings, op, ...] (operations of mc.pipe that
do not select channels).  The same operations are built on an image of all
bands and, for every band, on an image made independently from the data of this
band only (its own array, its own file).  Both are finalized with and without
optimization: sizes and types agree, whole pixel operations agree exactly, and
resampled values lie within what the surrounding pixels of the single band
image span (OpenCV rounds positions depending on the number of channels).
"""
import itertools

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

NODATA = 3
SETTINGS = {
    # interpolation, border_value, antialias
    'n': ('nearest', 'auto', True), 'l': ('linear', 'auto', True), 'a': ('area', 'auto', True),
    'c': ('cubic', 'auto', True), 'z': ('lanczos', 'auto', True),
    'n7': ('nearest', 7, False), 'l7': ('linear', 7, False), 'a7': ('area', 7, True),
    'c7': ('cubic', 7, False), 'z7': ('lanczos', 7, True),
    'n0': ('nearest', 0, True), 'l0': ('linear', 0, True), 'c0': ('cubic', 0, True), 'z0': ('lanczos', 0, False),
}


def texture(nc, dt, holes, w=pipe.W, h=pipe.H):
    """(h, w, nc): every band has its own slope; holes of band k are its own."""
    yy, xx = np.mgrid[0:h, 0:w]
    out = np.stack([(1 + k % 3) * xx + (k * 2 % 5) * yy + 10 + k for k in range(nc)], -1).astype(dt)
    hole = np.zeros(out.shape, bool)
    if holes:
        for k in range(nc):
            if k % 4 != 2:          # some bands are complete
                y, x = 2 + k * 3 % 15, 3 + k * 7 % 24
                hole[y:y + 3, x:x + 4, k] = True
    return out, hole


def leaf(source, nc, dt, pick):
    """The image of the bands in ``pick``, as if there were no others."""
    from delayed_image import DelayedChannelConcat, DelayedIdentity, DelayedLoad
    names = '|'.join(f'b{k}' for k in pick)
    data, hole = texture(nc, dt, source not in ('id', 'cog', 'plain', 'cat'))
    data, hole = data[:, :, pick], hole[:, :, pick]
    tag = f'{source}_{nc}_{dt}_' + ('all' if len(pick) == nc else str(pick[0]))
    if source == 'id':
        return DelayedIdentity(np.ascontiguousarray(data), channels=names)
    if source == 'nan':
        data = data.copy()
        data[hole] = np.nan
        return DelayedIdentity(data, channels=names)
    if source == 'ma':
        return DelayedIdentity(np.ma.array(data, mask=hole), channels=names)
    if source in ('cog', 'plain'):
        path = pipe.fixture(f'c29_{tag}.tif', lambda p: pipe.write_tif(
            p, data, overviews=(2, 4, 8) if source == 'cog' else ()))
        return DelayedLoad(path, channels=names).prepare()
    if source in ('fma', 'ffloat', 'nfloat'):
        data = data.copy()
        data[hole] = NODATA
        path = pipe.fixture(f'c29_{tag}.tif', lambda p: pipe.write_tif(
            p, data, overviews=(2, 4, 8) if source != 'nfloat' else (), nodata=NODATA, resampling='NEAREST'))
        return DelayedLoad(path, channels=names, nodata_method='ma' if source == 'fma' else 'float').prepare()
    if source == 'cat':
        if len(pick) == 1:
            return DelayedIdentity(np.ascontiguousarray(data), channels=names)
        parts, todo = [], list(range(len(pick)))
        for size in itertools.cycle([1, 2, 5]):
            take, todo = todo[:size], todo[size:]
            if not take:
                break
            parts.append(DelayedIdentity(data[:, :, take], channels='|'.join(f'b{pick[t]}' for t in take)))
        return DelayedChannelConcat(parts)
    raise KeyError(source)


def build(source, nc, dt, pick, seq, kw):
    st = pipe.make_leaf('id')[1]
    return pipe.build(['id', *seq], warp_kw=kw, leaf=(leaf(source, nc, dt, pick), st))


def span(img, r):
    """Lowest and highest value, and any hole, of the surroundings."""
    p = np.pad(img, r, mode='edge')
    h, w = img.shape
    stack = np.stack([p[y:y + h, x:x + w] for y in range(2 * r + 1) for x in range(2 * r + 1)])
    hole = np.isnan(stack)
    return np.where(hole, np.inf, stack).min(0), np.where(hole, -np.inf, stack).max(0), hole.any(0), hole.all(0)


RESAMPLES = {'warp', 'resize', 'over', 'pcrop'}


def plain(arr):
    if isinstance(arr, np.ma.MaskedArray):
        return np.ma.filled(arr.astype(float), np.nan)
    return arr.astype(float)


def compare(got, want, steps, nearest, slack, what):
    """One band (h, w) against the image of this band alone."""
    if not steps:
        bad = ~((got == want) | (np.isnan(got) & np.isnan(want)))
    else:
        lo, hi, near, _ = span(want, min(steps, 2))
        far_lo, far_hi, _, gone = span(want, min(steps, 2) * 2)
        far_lo, far_hi = np.where(gone, 0, far_lo), np.where(gone, 0, far_hi)
        lo, hi = np.where(np.isfinite(lo), lo, far_lo), np.where(np.isfinite(hi), hi, far_hi)
        # the edge of the content may lie a pixel further out
        missing, slack = np.isnan(got), np.where(np.isnan(want), slack + 8 + (far_hi - far_lo), slack)
        if steps > 1:
            near[[0, -1], :] = near[:, [0, -1]] = True
            slack = slack * 1.5
        with np.errstate(invalid='ignore'):
            jump = np.where(gone, 0, hi - lo) / (2 if nearest else 12)
            bad = np.where(missing, ~near, gone | (got < lo - slack - jump) | (got > hi + slack + jump))
    if bad.any():
        y, x = map(int, np.argwhere(bad)[0])
        raise Violation(f'{what}: (y={y},x={x}) is {got[y, x]}, alone it is {want[y, x]} ({int(bad.sum())} pixels)')


def run(case):
    source, nc, dt, setting, *seq = case
    interp, border, aa = SETTINGS[setting]
    kw = dict(interpolation=interp, border_value=border, antialias=aa)
    every, _ = build(source, nc, dt, list(range(nc)), seq, kw)
    steps = sum(pipe.OPS[op][0] in RESAMPLES for op in seq)
    # lanczos and cubic overshoot next to jumps
    slack = (.6 if np.dtype(dt).kind == 'f' else 1.6) + (len(seq) if interp in ('cubic', 'lanczos') else 0)
    outs = {opt: every.finalize(optimize=opt) for opt in (True, False)}
    states, n = [], 0
    for k in range(nc):
        one, _ = build(source, nc, dt, [k], seq, kw)
        for opt, got in outs.items():
            want = one.finalize(optimize=opt)
            what = f'band {k} of {nc} (optimize={opt})'
            if got.shape[:2] != want.shape[:2] or got.shape[2] != nc:
                raise Violation(f'{what}: shape {got.shape}, alone it is {want.shape}')
            if got.dtype != want.dtype or isinstance(got, np.ma.MaskedArray) != isinstance(want, np.ma.MaskedArray):
                raise Violation(f'{what}: {type(got).__name__} of {got.dtype}, alone it is '
                                f'{type(want).__name__} of {want.dtype}')
            a, b = plain(got[:, :, k]), plain(want[:, :, 0])
            compare(a, b, steps, interp == 'nearest', slack, what)
            n += int(np.isfinite(b).sum())
    for opt, got in outs.items():
        states.append(core.key(plain(got)))
    return Outcome(states, len(seq), 2 + 2 * nc, trivial=not n)


GEO = ['c_mid', 'c_tl', 'p_tl', 'p_br', 'w_half', 'w_dbl', 'w_third', 'w_aniso', 'w_t', 'w_tf', 'w_rot', 'w_shear',
       'w_flip', 'w_hd', 'w_hs', 'w_qo', 'c_br', 'w_idp', 'r_a', 'r_b', 'o1', 'o2']
CORE = ['c_mid', 'p_tl', 'w_half', 'w_dbl', 'w_rot', 'w_tf', 'o1', 'r_a']


def cases(sources, counts, dtypes, settings, ops, depth):
    seqs = [s[1:] for s in pipe.enumerate_cases(['id'], ops, depth)]
    for seq in seqs:
        for source, nc, dt, setting in itertools.product(sources, counts, dtypes, settings):
            if source == 'nan' and np.dtype(dt).kind != 'f':
                continue
            if source in ('ma', 'fma') and seq[:2] == ['r_a', 'r_b']:
                continue        # such a mask is rounded at every size: 1 pixel becomes 5
            yield [source, nc, dt, setting, *seq]


SOURCES = ['id', 'nan', 'ma', 'cog', 'plain', 'fma', 'ffloat', 'nfloat', 'cat']


def families(tier):
    fams = [
        Family('bands1', lambda: cases(SOURCES, [2, 5], ['float32', 'uint8'], SETTINGS, GEO, 1), run, 'depth 1'),
        Family('counts', lambda: cases(['id', 'cog', 'cat'], [3, 4, 6, 9, 13], ['float32', 'uint8'],
                                       ['n', 'l', 'c', 'z7'], CORE, 1), run, 'depth 1, up to 13 bands'),
        Family('bands2', lambda: cases(['nan', 'cog', 'fma', 'cat'], [5], ['float32'], ['n', 'l', 'c7'], CORE, 2), run,
               'depth 2'),
    ]
    if tier == 'thorough':
        fams += [
            Family('bands2x', lambda: cases(SOURCES, [2, 5], ['float32', 'int16'], ['l', 'a', 'c', 'z7', 'l0'],
                                            GEO, 2), run, 'depth 2'),
            # (small holes may fall between the sampled neighbours)
            Family('nearest2x', lambda: cases(['id', 'cog', 'plain', 'cat'], [2, 5], ['float32', 'int16'], ['n', 'n7'],
                                              GEO, 2), run, 'depth 2'),
        ]
    return fams
