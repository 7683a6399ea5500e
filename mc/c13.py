"""
C13: resampling settings are honoured, before and after optimizing.

Oracles: plain numpy for the non-resampling operations, kwimage.warp_affine
called directly with every candidate setting for the one warp (the result has to
be the one of the requested setting), exact index sets for nearest resampling,
and the linear ramps of mc/pipe.py for geometry.
"""
import functools
import itertools

import numpy as np

from mc import c02, pipe
from mc.core import Family, Outcome, Violation, key

LEVEL = 'model_checking'
NW, NH = 64, 48


@functools.lru_cache(None)
def noise(dtype='float32', lo=1, hi=200, w=NW, h=NH, c=3):
    """every neighbourhood looks different; smooth enough to tell kernels apart"""
    idx = np.arange(w * h * c, dtype=np.uint64).reshape(h, w, c)
    v = (idx * np.uint64(2654435761) % np.uint64(2 ** 32)) >> np.uint64(8)
    v = (v ^ (v >> np.uint64(9))) * np.uint64(40503) % np.uint64(65536)
    a = lo + (v.astype(np.float64) / 65536) * (hi - lo)
    a = a.astype(dtype)
    a.flags.writeable = False
    return a


def noise_leaf(kind):
    from delayed_image import DelayedChannelConcat, DelayedIdentity, DelayedLoad
    d = noise()
    if kind == 'id':
        return DelayedIdentity(d, channels='x|y|z')
    if kind == 'file':
        f = pipe.fixture('noise.tif', lambda p: pipe.write_tif(p, d))
        return DelayedLoad(f, channels='x|y|z').prepare()
    if kind == 'cat':
        return DelayedChannelConcat([DelayedIdentity(d[:, :, :2], channels='x|y'), DelayedIdentity(d[:, :, 2:], channels='z')])
    raise KeyError(kind)


WARPS = {
    'half': dict(scale=.5), 'third': dict(scale=.35, offset=(1.3, 2.2)), 'up': dict(scale=1.7),
    'frac': dict(offset=(.4, -.3)), 'rot': dict(theta=.3, offset=(10, -4)), 'rotdown': dict(theta=-.2, scale=.6, offset=(2, 8)),
    'aniso': dict(scale=(.5, 1.4)), 'flip': dict(scale=(-.6, .6), offset=(40, 0)), 'shear': dict(shearx=.2, scale=.8),
}
SETTINGS = [(i, a) for i in ('linear', 'cubic', 'lanczos') for a in (0, 1)]
DQ = {'orig_min': 0., 'orig_max': 2., 'quant_min': 0, 'quant_max': 8, 'nodata': None}
SIDE = {
    'crop': (slice(4, 40), slice(6, 58)), 'pad': (slice(-3, 44), slice(-2, 60)), 'deq': None, 'take': [2, 0], 'name': 'z|x',
}


def side_real(node, op):
    if op in ('crop', 'pad'):
        return node.crop(SIDE[op], clip=op != 'pad', wrap=op != 'pad')
    if op == 'deq':
        return node.dequantize(dict(DQ))
    return node.take_channels(SIDE[op])


def side_ref(a, op):
    if op == 'crop':
        return a[SIDE['crop']]
    if op == 'pad':
        (y, x) = SIDE['pad']
        h, w = a.shape[:2]
        y1, x1 = y.stop, x.stop
        out = np.full((y1 - y.start, x1 - x.start, a.shape[2]), np.nan)
        hh, ww = min(h, y1), min(w, x1)
        out[-y.start:-y.start + hh, -x.start:-x.start + ww] = a[:hh, :ww]
        return out
    if op == 'deq':
        return a * .25
    return a[:, :, [2, 0]]


def ref_warp(a, M, dsize, interp, aa):
    import kwimage
    miss = np.isnan(a)
    a = np.where(miss, 0, a).astype(np.float32)
    sx, sy = kwimage.Affine(M).decompose()['scale']
    aa = bool(aa) and (abs(sx) < 1 or abs(sy) < 1)
    if aa and np.linalg.det(M[:2, :2]) < 0:
        R = np.array([[-1., 0, a.shape[1]], [0, 1, 0], [0, 0, 1]])
        a = np.ascontiguousarray(a[:, ::-1])
        M = M @ R
    out = kwimage.warp_affine(a, M, dsize=dsize, interpolation=interp, antialias=aa, border_value=0,
                              origin_convention='corner')
    return out.reshape(dsize[1], dsize[0], -1).astype(np.float64)


def run_classify(case):
    kind, wname, (interp, aa), before, after = case
    M = pipe.affine(**WARPS[wname])
    node = noise_leaf(kind)
    a = noise().astype(np.float64)
    # everything but the warp
    inside = np.ones(a.shape[:2] + (1,))
    T = np.eye(3)
    try:
        for op in before:
            node = side_real(node, op)
            a = side_ref(a, op)
            inside = side_ref(inside, op) if op in ('crop', 'pad') else inside
        node = node.warp(WARPS[wname], interpolation=interp, antialias=bool(aa))
        w, h = pipe.auto_dsize(M, (a.shape[1], a.shape[0]))
        # how far from the edge of the content
        fe = np.nan_to_num(inside).astype(np.float32)[:, :, 0]
        fe[0] = fe[-1] = 0
        fe[:, 0] = fe[:, -1] = 0
        refs = {s: ref_warp(a, M, (w, h), *s) for s in SETTINGS}
        for op in after:
            node = side_real(node, op)
            refs = {s: side_ref(r, op) for s, r in refs.items()}
    except IndexError:
        return Outcome([], 0, trivial=True)
    n = 0
    for which, opt in (('plain', False), ('optimized', True)):
        got = np.asarray(node.finalize(optimize=opt), dtype=np.float64)
        want = refs[(interp, aa)]
        if got.shape != want.shape:
            raise Violation(f'{which}: shape {got.shape}, expected {want.shape}')
        ok = np.isfinite(got).all(-1)
        # interior of the content: erode by 6 pixels
        m = 6
        core = ok.copy()
        for dy in range(-m, m + 1):
            core &= shift(ok, dy, 0)
        base = core.copy()
        for dx in range(-m, m + 1):
            core &= shift(base, 0, dx)
        if core.sum() < 12:
            continue
        err = {s: np.abs(got - r)[core].mean() for s, r in refs.items()}
        scale = max(1e-9, np.abs(want[core]).mean())
        n += int(core.sum())
        mine = err[(interp, aa)]
        for s, e in err.items():
            differ = np.abs(refs[s] - want)[core].mean()
            if differ > .01 * scale and mine > .5 * e:
                raise Violation(f'{which}: requested {(interp, aa)} but the result is {mine:.3f} from that and '
                                f'{e:.3f} from {s}')
        if mine > .05 * scale:
            raise Violation(f'{which}: {(interp, aa)}: mean error {mine:.3f} of {scale:.3f}')
    return Outcome([key(case)], 2 * (len(before) + len(after) + 1), traces=2, trivial=not n)


# ------------------------------------------------- one warp over overviews
def level(fpath, k):
    """the stored overview, read by GDAL alone"""
    from osgeo import gdal
    ds = gdal.Open(fpath)
    bands = [ds.GetRasterBand(i + 1) for i in range(ds.RasterCount)]
    if k:
        bands = [b.GetOverview(k - 1) for b in bands]
    return np.stack([b.ReadAsArray() for b in bands], -1).astype(np.float64)


def run_levels(case):
    """a strong shrink reads some overview, and resamples it as requested"""
    from delayed_image import DelayedLoad
    res, (scale, offset, theta), (interp, aa), before, after = case
    f = pipe.fixture(f'noise_{res}.tif', lambda p: pipe.write_tif(p, noise(w=256, h=192), overviews=(2, 4), resampling=res))
    node = DelayedLoad(f, channels='x|y|z').prepare()
    T = np.eye(3)
    chans = [0, 1, 2]
    gain = 1.
    kw = dict(scale=tuple(scale), offset=tuple(offset), theta=theta)
    M = pipe.affine(**kw)

    def side(node, op, T, chans, gain):
        node = side_real(node, op)
        if op in ('crop', 'pad'):
            y, x = SIDE[op]
            T = pipe.affine(offset=(-x.start, -y.start)) @ T
        elif op == 'deq':
            gain = gain * .25
        else:
            chans = [chans[2], chans[0]]
        return node, T, chans, gain
    for op in before:
        if op in ('crop', 'pad'):
            # larger windows: enough is left after shrinking
            y, x = SIDE[op] = BIGSIDE[op]
        node, T, chans, gain = side(node, op, T, chans, gain)
    SIDE.update(SMALLSIDE)
    node = node.warp(kw, interpolation=interp, antialias=bool(aa))
    T = M @ T
    for op in after:
        node, T, chans, gain = side(node, op, T, chans, gain)
    got = np.asarray(node.finalize(), dtype=np.float64)
    h, w = got.shape[:2]
    m = 5
    core = np.isfinite(got).all(-1)
    core[:m] = core[-m:] = False
    core[:, :m] = core[:, -m:] = False
    for ax in (0, 1):
        base = core.copy()
        for d in range(-m, m + 1):
            core &= shift(base, d * (ax == 0), d * (ax == 1))
    if core.sum() < 12:
        return Outcome([], 0, trivial=True)
    err = {}
    size = None
    for k in range(3):
        a = level(f, k)[:, :, chans] * gain
        for s in SETTINGS:
            r = ref_warp(a, T @ pipe.affine(scale=2. ** k), (w, h), *s)
            err[s, k] = np.abs(got - r)[core].mean()
            size = np.abs(r)[core].mean()
    mine = min(err[(interp, aa), k] for k in range(3))
    if mine > .04 * size:
        best = min(err, key=err.get)
        raise Violation(f'requested {(interp, aa)}: from that, at any level, the result is {mine:.3f} off (mean {size:.3f}); '
                        f'it is {err[best]:.3f} off {best[0]} at level {best[1]}')
    return Outcome([key(case)], len(before) + len(after) + 1, traces=1)


SMALLSIDE = {k: SIDE[k] for k in ('crop', 'pad')}
BIGSIDE = {'crop': (slice(4, 184), slice(6, 250)), 'pad': (slice(-3, 188), slice(-2, 252))}


def cases_levels(nb, na):
    for res in ('AVERAGE', 'NEAREST'):
        for scale in ((.5, .5), (.3, .3), (.25, .25), (.2, .2), (.2, .35), (.45, .45), (.15, .15)):
            for offset in ((0, 0), (1.3, 2.2)):
                for theta in (0., .3):
                    for s in SETTINGS:
                        for i in range(nb + 1):
                            for before in itertools.permutations(SIDES[:4], i):
                                for j in range(na + 1):
                                    for after in itertools.permutations(SIDES[:1] + SIDES[2:4], j):
                                        ops = before + after
                                        if any(ops.count(o) > 1 for o in ('deq', 'take')) or len(ops) > max(nb, na):
                                            continue
                                        yield [res, [list(scale), list(offset), theta], list(s), list(before), list(after)]


def shift(m, dy, dx):
    out = np.zeros_like(m)
    h, w = m.shape
    out[max(dy, 0):h + min(dy, 0), max(dx, 0):w + min(dx, 0)] = m[max(-dy, 0):h + min(-dy, 0), max(-dx, 0):w + min(-dx, 0)]
    return out


# ------------------------------------------------------------- nearest copies
def ids(w, h, dtype):
    """every pixel has its own value"""
    d = (1 + np.arange(w * h)).reshape(h, w, 1)
    return np.concatenate([d, d + w * h, d + 2 * w * h], 2).astype(dtype)


def ids_leaf(kind, dtype='float32'):
    from delayed_image import DelayedChannelConcat, DelayedIdentity, DelayedLoad
    kind, _, size = kind.partition(':')
    w, h = map(int, size.split('x')) if size else (pipe.W, pipe.H)
    d = ids(w, h, dtype)
    if kind == 'id':
        node = DelayedIdentity(d, channels='x|y|z')
    elif kind == 'file':
        f = pipe.fixture(f'ids_{w}x{h}_{dtype}.tif', lambda p: pipe.write_tif(p, d))
        node = DelayedLoad(f, channels='x|y|z').prepare()
    elif kind == 'ovr':
        f = pipe.fixture(f'ids_ovr_{w}x{h}_{dtype}.tif', lambda p: pipe.write_tif(
            p, d, overviews=(2, 4), resampling='NEAREST'))
        node = DelayedLoad(f, channels='x|y|z').prepare()
    elif kind == 'cat':
        node = DelayedChannelConcat([DelayedIdentity(d[:, :, :2], channels='x|y'), DelayedIdentity(d[:, :, 2:], channels='z')])
    eye = np.eye(3)
    st = pipe.State(eye, (w, h), [('x', 0), ('y', 1), ('z', 2)], [[eye, (w, h), 0.]])
    return node, st, (w, h)


def run_copies(case):
    kind, dtype, ops = case
    node, st, (lw, lh) = ids_leaf(kind, dtype)
    tol = 0.
    kw = {'interpolation': 'nearest'}
    for name in ops:
        s0 = st
        node, st = pipe.apply_op(node, st, name, kw)
        if pipe.OPS[name][0] in {'warp', 'resize', 'over'}:
            tol += .5 * max(pipe.pxsize(s0.T), 1e-9) + .5 * pipe.pxsize(st.T)
    if kind.startswith('ovr'):
        tol += st.coarse        # the pixels of an overview are some of the pixels below
    lx, ly, must = pipe.sample_grid(st, 2 * st.coarse if kind.startswith('ovr') else 0.)
    n = 0
    nwarp = sum(pipe.OPS[o][0] in {'warp', 'resize', 'over'} for o in ops)
    for which, opt in (('plain', False), ('optimized', True)):
        a = np.asarray(node.finalize(optimize=opt))
        if a.dtype != np.dtype(dtype):
            raise Violation(f'{which}: {dtype} becomes {a.dtype}')
        a = a.astype(np.float64)
        for k, (c, src) in enumerate(st.chans):
            v = a[:, :, k] - 1 - src * lw * lh
            fill = np.isnan(v) if np.dtype(dtype).kind == 'f' else a[:, :, k] == 0
            if (must & fill).any():
                raise Violation(f'{which}: pixel (y, x)={np.argwhere(must & fill)[0].tolist()} of {c} lost')
            bad = ~fill & ((v < 0) | (v >= lw * lh) | (v != np.floor(v)))
            if bad.any():
                raise Violation(f'{which}: value {a[:, :, k][bad][0]} of {c} is not a copy of a source pixel of the channel')
            v = np.where(fill, 0, v).astype(int)
            ex = np.abs(v % lw + .5 - lx)
            ey = np.abs(v // lw + .5 - ly)
            far = ~fill & ((ex > tol + .51) | (ey > tol + .51))
            if far.any():
                y, x = np.argwhere(far)[0]
                raise Violation(f'{which}: pixel (y={y}, x={x}) of {c} is a copy of ({v[y, x] % lw}, {v[y, x] // lw}), '
                                f'expected around ({lx[y, x]:.2f}, {ly[y, x]:.2f})')
            n += int((~fill).sum())
    return Outcome([key(np.round(st.T, 6), st.dsize, case[:2])], 2 * len(ops), traces=2, trivial=not n)


def ties(st, eps=.03):
    """pixels between two source pixels, by their centre or by their corner"""
    w, h = st.dsize
    v, u = np.mgrid[0:h, 0:w]
    Ti = np.linalg.inv(st.T)
    out = np.zeros((h, w), bool)
    for d in (0., .5):
        P = np.stack([u + d, v + d, np.ones(u.shape)], 0).reshape(3, -1)
        L = (Ti @ P)[:2].reshape(2, h, w)
        out |= (np.abs(L - np.round(L)) < eps).any(0)
    return out


def run_exact(case):
    """one nearest warp between exact operations: optimizing changes no pixel"""
    kind, dtype, ops = case
    node, st, _ = ids_leaf(kind, dtype)
    for name in ops:
        node, st = pipe.apply_op(node, st, name, {'interpolation': 'nearest'})
    a = np.asarray(node.finalize(optimize=False), dtype=np.float64)
    b = np.asarray(node.finalize(optimize=True), dtype=np.float64)
    if a.shape != b.shape:
        raise Violation(f'shape {a.shape}, optimized {b.shape}')
    fa = np.isnan(a) if np.dtype(dtype).kind == 'f' else a == 0
    fb = np.isnan(b) if np.dtype(dtype).kind == 'f' else b == 0
    differ = ~(fa & fb) & (a != b) & ~ties(st)[:, :, None]
    if differ.any():
        y, x, c = np.argwhere(differ)[0]
        raise Violation(f'pixel (y={y}, x={x}, c={c}) is {a[y, x, c]}, optimized {b[y, x, c]} ({int(differ.sum())} differ)')
    return Outcome([key(a)], 2 * len(ops), traces=2, trivial=not (~fa).any())


# ------------------------------------------------------------------ geometry
REACH = {'linear': 1., 'area': 1., 'cubic': 2.05, 'lanczos': 4.05}


def run_geometry(case):
    kind, interp, aa, backend, ops = case
    kw = {'interpolation': interp, 'antialias': bool(aa), 'backend': backend}
    node, st = pipe.build([kind] + ops, kw)
    base = .1 + .04 * st.coarse if not aa else .12 + .55 * st.coarse * max(1, st.nwarp * .8)
    if interp in ('cubic', 'lanczos'):
        base += .15 * st.coarse * st.nwarp     # the kernels do not sum up to one exactly
    tol = c02.tolerance(st, base)
    edge = 1.01 + (1.6 * st.coarse if st.nover else 0) + REACH[interp]
    soft = (REACH[interp] + (.51 if st.nover else 0)) * st.coarse * max(1, st.nwarp + (2 if st.nover else 0))
    n = c02.check_content(node.finalize(optimize=False), st, tol[0], st.nover == 0 and not aa, 'unoptimized', edge, soft=soft)
    n += c02.check_content(node.finalize(optimize=True), st, tol[1], True, 'optimized', edge, soft=soft)
    return Outcome([key(np.round(st.T, 6), st.dsize, case[:4])], 2 * len(ops), traces=2, trivial=not n)


def run_kept(case):
    """cropping after a warp: no content of the plain result is lost"""
    kind, interp, aa, ops = case
    node, st = pipe.build([kind] + ops, {'interpolation': interp, 'antialias': bool(aa)})
    a = np.asarray(node.finalize(optimize=False))
    b = np.asarray(node.finalize(optimize=True))
    lost = np.isnan(b) & ~np.isnan(a)
    if lost.any():
        raise Violation(f'pixel (y, x, c)={np.argwhere(lost)[0].tolist()} has content, but not when optimized '
                        f'({int(lost.sum())} pixels)')
    return Outcome([key(a)], 2 * len(ops), traces=2, trivial=np.isnan(a).all())


def run_dtype(case):
    """data types are kept, and nothing but the fill leaves the range of the data"""
    dtype, interp, aa, kind, ops = case
    from delayed_image import DelayedChannelConcat, DelayedIdentity, DelayedLoad
    lo, hi = (10, 100)
    d = noise(dtype, lo, hi, pipe.W, pipe.H)
    if kind == 'id':
        leaf = DelayedIdentity(d, channels='x|y|z')
    elif kind == 'file':
        f = pipe.fixture(f'noise_{dtype}.tif', lambda p: pipe.write_tif(p, d))
        leaf = DelayedLoad(f, channels='x|y|z').prepare()
    else:
        leaf = DelayedChannelConcat([DelayedIdentity(d[:, :, :1], channels='x'), DelayedIdentity(d[:, :, 1:], channels='y|z')])
    st = pipe.make_leaf('id')[1]
    node, st = pipe.build(['id'] + ops, {'interpolation': interp, 'antialias': bool(aa)}, leaf=(leaf, st))
    _, _, must = pipe.sample_grid(st)
    over = .12 * (hi - lo) if interp in ('cubic', 'lanczos') else 0
    for which, opt in (('plain', False), ('optimized', True)):
        a = np.asarray(node.finalize(optimize=opt))
        if a.dtype != np.dtype(dtype):
            raise Violation(f'{which}: {dtype} becomes {a.dtype}')
        a = a.astype(np.float64)
        ok = np.isnan(a) if np.dtype(dtype).kind == 'f' else (a >= 0) & (a < lo)
        top = hi + over * 3
        bad = ~ok & ((a > top) | (a < lo - max(over * 3, .01)))
        if np.dtype(dtype).kind != 'f' and over:
            bad &= a > top
        if bad.any():
            raise Violation(f'{which}: invented the value {a[bad][0]}, the data is within {lo} .. {hi}')
    return Outcome([key(case)], 2 * len(ops), traces=2, trivial=not must.any())


def run_override(case):
    """finalize(interpolation=..., antialias=..., border_value=...) overrides every warp"""
    kind, setting, ops = case
    a, _ = pipe.build([kind] + ops, {})
    b, _ = pipe.build([kind] + ops, dict(setting))
    n = 0
    for opt in (False, True):
        x, _ = pipe.build([kind] + ops, {})
        got = np.asarray(x.finalize(optimize=opt, **setting))
        if any(o.startswith('p_') for o in ops) and 'border_value' in setting:
            continue
        want = np.asarray(b.finalize(optimize=opt))
        if not np.array_equal(got, want, equal_nan=True):
            raise Violation(f'finalize({setting}, optimize={opt}) differs from a pipeline built with these settings')
        n += 1
    return Outcome([key(case)], 3 * len(ops), traces=2, trivial=not n)


def run_noop(case):
    """near identity warps vanish only within the requested tolerance"""
    tf, eps, dsize, lazy = case
    from delayed_image import DelayedWarp
    node, st = pipe.make_leaf('id')
    ds = tuple(dsize) if dsize else (pipe.W, pipe.H)
    kw = {'noop_eps': eps} if eps is not None else {}
    x = node.warp(tf, dsize=ds, antialias=False, **kw).optimize()
    M = pipe.affine(**{k: tuple(v) if isinstance(v, list) else v for k, v in tf.items()})
    dev = np.abs(M - np.eye(3)).max()
    gone = not isinstance(x, DelayedWarp)
    if gone and (dev > 3 * (eps or 0) or ds != (pipe.W, pipe.H)):
        raise Violation(f'a warp that differs from the identity by {dev:g} and makes {ds} vanished with noop_eps={eps}')
    if not gone and dev < .3 * (eps or 0) and ds == (pipe.W, pipe.H):
        raise Violation(f'a warp that differs from the identity by {dev:g} was kept with noop_eps={eps}')
    if tuple(x.dsize) != ds:
        raise Violation(f'size {x.dsize}')
    if not gone and dev == 0 and ds == (pipe.W, pipe.H):
        raise Violation('an identity warp was kept')
    a = np.asarray(x.finalize())
    src = pipe.ramp()
    hh, ww = min(ds[1], pipe.H), min(ds[0], pipe.W)
    ok = np.isnan(a[:hh, :ww]) | (np.abs(a[:hh, :ww] - src[:hh, :ww]) <= 200 * dev + 1e-3)
    if not ok.all():
        raise Violation('values changed')
    return Outcome([key(case)], 2)


def seqs(ops, depth):
    return [c[1:] for c in pipe.enumerate_cases(['id'], ops, depth) if no_missing(c[1:])]


def no_missing(ops):
    """a missing channel is always a floating point one, with nan pixels"""
    return all(r is not None for _, r in pipe.model(['id'] + list(ops), pipe.make_leaf('id')[1]).chans)


SIDES = ['crop', 'pad', 'deq', 'take', 'name']


def cases_classify(kinds, nb, na):
    for kind in kinds:
        for wname in WARPS:
            for s in SETTINGS:
                for i in range(nb + 1):
                    for before in itertools.permutations(SIDES, i):
                        for j in range(na + 1):
                            for after in itertools.permutations(SIDES, j):
                                allops = before + after
                                if allops.count('deq') > 1 or ('take' in allops and 'name' in allops):
                                    continue
                                if sum(o in ('take', 'name') for o in allops) > 1 or len(allops) > max(nb, na):
                                    continue
                                yield [kind, wname, list(s), list(before), list(after)]


NGEO = ['c_mid', 'c_neg', 'p_tl', 'p_br', 'w_half', 'w_third', 'w_aniso', 'w_aniso2', 'w_up', 'w_dbl', 'w_t', 'w_tf', 'w_tn', 'w_rot',
        'w_rots', 'w_shear', 'w_flip', 'w_hd', 'w_hs', 'w_dd', 'w_qo', 'w_idp', 'r_a', 'r_b', 't_yx', 't_z']
NWARP = [o for o in NGEO if pipe.OPS[o][0] in {'warp', 'resize'}]
NSIDE = [o for o in NGEO if o not in NWARP]
CROPS = ['c_mid', 'c_tl', 'c_br', 'c_neg', 'p_in', 'p_tl']


def cases_exact(kinds, dtypes, nb, na):
    for kind in kinds:
        for dt in dtypes:
            for b in seqs(NSIDE, nb):
                for w in NWARP:
                    for a in seqs(NSIDE, na):
                        ops = b + [w] + a
                        try:
                            pipe.model(['id'] + ops, pipe.make_leaf('id')[1])
                        except pipe.Skip:
                            continue
                        if no_missing(ops):
                            yield [kind, dt, ops]


def cases_noop():
    for eps in (None, 0, 1e-6, 1e-3, .1):
        for d in (0, 1e-8, 1e-7, 1e-5, 1e-4, 1e-2, .3):
            for tf in ({'scale': 1 + d}, {'offset': [d, 0]}, {'offset': [0, -d]}, {'theta': d}, {'shearx': d}, {'scale': [1, 1 - d]}):
                for ds in (None, [31, 24], [32, 25]):
                    yield [tf, eps, ds, False]


def families(tier):
    th = tier == 'thorough'
    F = Family
    geo = ['c_mid', 'p_tl', 'w_half', 'w_tf', 'w_rot', 'w_hd', 'w_flip', 'o1', 't_yx', 'w_up', 'w_dd', 'w_third', 'w_shear']
    return [
        F('classify', lambda: cases_classify(['id', 'file', 'cat'], 1 if not th else 2, 1 if not th else 2), run_classify,
          'one warp with every setting among other operations'),
        F('levels', lambda: cases_levels(1 if not th else 2, 1 if not th else 2), run_levels,
          'a shrink of a file with overviews, every setting, among other operations'),
        F('copies', lambda: ([k, d, s] for k, d in (('ovr', 'float32'), ('ovr', 'uint16'), ('id', 'float32'), ('id:31x29', 'uint16'), ('file', 'float32'), ('cat', 'float64'))
                             for s in seqs(NGEO, 2 if not th else 3)), run_copies, 'nearest, sequences of 2'),
        F('exact', lambda: cases_exact(['id', 'file', 'cat'], ['float32', 'uint16'], 1 if not th else 2, 1 if not th else 2), run_exact,
          'one nearest warp between exact operations'),
        F('geometry', lambda: ([k, i, a, b, s] for k in ('cog', 'cat_ids') for i, a, b in
                               (('cubic', 0, 'auto'), ('lanczos', 0, 'auto'), ('area', 0, 'auto'), ('linear', 0, 'cv2'), ('linear', 1, 'cv2'),
                                ('cubic', 1, 'auto'))
                               for s in seqs(geo, 2 if not th else 3)), run_geometry, 'wide kernels and backends, sequences of 2'),
        F('kept', lambda: ([k, i, a, [w] + list(c)] for k in ('id', 'cat_ids') for i in ('nearest', 'linear', 'cubic', 'lanczos', 'area')
                           for a in (0, 1) for w in NWARP for n in (1, 2) for c in itertools.permutations(CROPS[:4] if n == 2 else CROPS, n)
                           if valid([w] + list(c))), run_kept, 'a warp, then crops'),
        F('dtype', lambda: ([d, i, a, k, s] for d in ('uint8', 'uint16', 'int16', 'float32', 'float64') for i in ('nearest', 'linear', 'cubic')
                            for a in (0, 1) for k in ('id', 'cat') for s in seqs(['c_mid', 'p_tl', 'w_half', 'w_tf', 'w_rot', 'w_up', 'w_hd', 'w_t'], 2)
                            ), run_dtype, 'data types, sequences of 2'),
        F('override', lambda: ([k, s, o] for k in ('id', 'cat_ids') for s in
                               ({'interpolation': 'nearest'}, {'antialias': False}, {'border_value': 0.}, {'interpolation': 'cubic', 'antialias': False})
                               for o in seqs(['c_mid', 'w_half', 'w_tn', 'w_rot', 'w_hd', 'dq', 't_yx', 'p_tl'], 2)), run_override,
          'settings given when finalizing'),
        F('noop', cases_noop, run_noop, 'near identity transforms'),
    ]


def valid(ops):
    try:
        pipe.model(['id'] + ops, pipe.make_leaf('id')[1])
    except pipe.Skip:
        return False
    return True
