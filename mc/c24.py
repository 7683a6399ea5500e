"""
C24: overview reads use the right pyramid level and never lose resolution.

The files carry, next to the coordinate ramps, a band which is constant on each
stored pyramid level and names the level, so finalized pixels tell which level
they were read from.
"""
import itertools
import json

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

# name -> (width, height, factors, number of usable levels)
FILES = {
    'lv': (64, 48, (2, 4, 8), 3),
    'odd': (67, 45, (2, 4, 8), 3),
    'prime': (97, 53, (2, 4, 8, 16), 4),
    'one': (64, 48, (2,), 1),
    'none': (64, 48, (), 0),
    'gap': (64, 48, (2, 8), 1),
    'four': (64, 48, (4,), 0),
    'three': (64, 48, (3, 9), 0),
    'late': (64, 48, (2, 4, 6), 2),
    'tiny': (5, 3, (2, 4), 2),
}
STEP = 100.


def level_data(w, h, f, rng_seed):
    lw, lh = -(-w // f), -(-h // f)
    d = np.empty((lh, lw, 3), np.float32)
    d[:, :, 0] = STEP * np.log2(f)
    yy, xx = np.mgrid[0:lh, 0:lw]
    d[:, :, 1] = xx + 1000 * f
    d[:, :, 2] = (yy * 7919 + xx * 104729 + f * 31) % 1009
    return d


def make(name, overviews='internal'):
    w, h, factors, usable = FILES[name]

    def mk(p):
        from osgeo import gdal
        pipe.write_tif(p, level_data(w, h, 1, 0), overviews=factors, resampling='NEAREST')
        gdal.UseExceptions()
        if factors:
            ds = gdal.Open(p, gdal.GA_Update)
            for b in range(3):
                band = ds.GetRasterBand(b + 1)
                assert band.GetOverviewCount() == len(factors)
                for i, f in enumerate(factors):
                    o = band.GetOverview(i)
                    o.WriteArray(level_data(w, h, f, 0)[:o.YSize, :o.XSize, b])
            ds.FlushCache()
            ds = None
        gdal.DontUseExceptions()
    return pipe.fixture(f'lvl_{name}.tif', mk)


def leaf(name, chans='l|p|q'):
    from delayed_image import DelayedLoad
    return DelayedLoad(make(name), channels=chans).prepare()


def stored(name, k):
    """level k read by GDAL alone"""
    from osgeo import gdal
    ds = gdal.Open(make(name))
    out = []
    for b in range(3):
        band = ds.GetRasterBand(b + 1)
        out.append((band.GetOverview(k - 1) if k else band).ReadAsArray())
    return np.stack(out, -1)


POST = {
    '': (lambda n: n, lambda a: a),
    'crop': (lambda n: n.crop((slice(1, 4), slice(2, 9))), lambda a: a[1:4, 2:9]),
    'neg': (lambda n: n.crop((slice(-3, None), slice(-5, -1))), lambda a: a[-3:, -5:-1]),
    'take': (lambda n: n.take_channels([2, 0]), lambda a: a[:, :, [2, 0]]),
    'name': (lambda n: n.take_channels('p'), lambda a: a[:, :, [1]]),
    'both': (lambda n: n.crop((slice(1, 4), slice(2, 9)), chan_idxs=[1]), lambda a: a[1:4, 2:9, [1]]),
    'shift': (lambda n: n.warp({'offset': (-2, -1)}, dsize=(4, 3), interpolation='nearest'), lambda a: a[1:4, 2:6]),
}


def run_stored(case):
    """stored levels, exactly; levels compose"""
    name, levels, post, opt = case
    usable = FILES[name][3]
    if post == 'shift' and (name == 'tiny' or sum(levels) > min(usable, 3)):
        return Outcome([], 0, 0, trivial=True)      # too small to stay inside
    n = leaf(name)
    if n.num_overviews != usable:
        raise Violation(f'{n.num_overviews} overviews, {usable} are usable of {FILES[name][2]}')
    total = 0
    for k in levels:
        n = n.get_overview(k)
        total += k
        if n.num_overviews != max(usable - total, 0):
            raise Violation(f'{n.num_overviews} overviews remain after {levels}')
    w, h = FILES[name][:2]
    if tuple(n.dsize) != (-(-w // 2 ** total), -(-h // 2 ** total)):
        raise Violation(f'level {total} of a {w}x{h} file has size {n.dsize}')
    f, g = POST[post]
    got = np.asarray(f(n).finalize(optimize=opt))
    if total <= usable:
        want = g(stored(name, total))
        if got.shape != want.shape:
            raise Violation(f'{levels}{post}: shape {got.shape}, expected {want.shape}')
        if not np.array_equal(got, want):
            raise Violation(f'{levels}{post}: not the stored level {total}: the pixels come from level {np.unique(got[..., 0] / STEP)}')
        return Outcome([core.key(got)], len(levels) + 1, trivial=got.size == 0)
    # more levels than stored: simulated from a stored one, decimated
    n0 = f(n)
    if got.shape != (n0.dsize[1], n0.dsize[0], n0.num_channels):
        raise Violation(f'{levels}{post}: shape {got.shape}, declared {n0.shape}')
    ok = [np.unique(stored(name, k).reshape(-1, 3), axis=0) for k in range(usable + 1)]
    sel = g(np.arange(3)[None, None].repeat(9, 0).repeat(9, 1))[0, 0]
    vals = np.unique(got.reshape(-1, got.shape[2]), axis=0)
    if not any(all((s[:, sel] == v).all(1).any() for v in vals) for s in ok):
        raise Violation(f'{levels}{post}: the simulated overview has values of no stored level: {vals[:3].tolist()}')
    return Outcome([core.key(got)], len(levels) + 1)


def scales(M):
    """how much the finest / coarsest axis shrinks (the scale components)"""
    (a, b), (c, d) = M[:2, :2]
    sx = np.hypot(a, c)
    sy = abs(a * d - b * c) / sx
    return sx, sy


def needs(st, fuzz):
    """the pyramid level which suffices for the resolution of this stage"""
    net = pipe.affine(scale=2. ** st.nover) @ st.T
    return st.nover + max(0, int(np.floor(np.log2(1 / max(scales(net))) + fuzz)))


def bad_level(lv, trail, usable):
    # nothing coarser than the coarsest stage
    asked = max(needs(st, 1e-6) for st in trail)
    if lv > asked:
        return f'level {lv} is read, no stage needs more than level {asked}'
    # the coarsest stored level which suffices, as long as the levels exist
    least = max(0, int(np.floor(np.log2(1 / max(scales(trail[-1].T))) - 1e-6)))
    nover = trail[-1].nover
    if lv < min(least, usable) and (nover == 0 or asked <= usable):
        return f'level {lv} is read although level {min(least, usable)} is stored and suffices'


def run_program(case, warp_kw=None):
    """which level an optimized pipeline reads"""
    name, ops = case[0], case[1:]
    n = leaf(name)
    usable = FILES[name][3]
    st = pipe.State(np.eye(3), FILES[name][:2], [('l', (0, 0, 0)), ('p', (0, 0, 0)), ('q', (0, 0, 0))], [])
    trail = [st]
    for op in ops:
        try:
            n, st = apply(n, st, op, warp_kw or {})
            trail.append(st)
        except pipe.Skip:
            return Outcome([], 0, 0, trivial=True)
    if st.chans[0][0] != 'l':
        return Outcome([], 0, 0, trivial=True)
    opt = n.optimize()
    got = np.asarray(np.ma.filled(np.asanyarray(opt.finalize(optimize=False)), np.nan), dtype=float)[..., 0]
    if st.deq:
        got = got * 4
    read = got[np.isfinite(got)] / STEP
    # borders of fixed value blend with the content
    levels = np.unique(np.round(read, 3))
    if len(levels) == 0:
        return Outcome([], 0, 0, trivial=True)
    if len(levels) > 1 or abs(levels[0] - round(levels[0])) > 1e-2:
        raise Violation(f'the pixels mix pyramid levels: {levels[:8].tolist()}')
    lv = int(round(levels[0]))
    msg = bad_level(lv, trail, usable)
    if msg:
        raise Violation(msg)
    return Outcome([core.key(lv, np.round(st.T, 6), st.dsize)], len(ops) + 1, trivial=lv == 0 and usable > 0)


EXTRA = {
    'q_edge': ('warp', dict(scale=.25), {}),
    's51': ('warp', dict(scale=.51), {}),
    's49': ('warp', dict(scale=.49), {}),
    's26': ('warp', dict(scale=.26), {}),
    's124': ('warp', dict(scale=.124), {}),
    's125': ('warp', dict(scale=.125), {}),
    'an_x': ('warp', dict(scale=(.2, .6)), {}),
    'an_y': ('warp', dict(scale=(.5, .125)), {}),
    'fx': ('warp', dict(scale=(-.5, .5), offset=(32, 0)), {}),
    'fq': ('warp', dict(scale=(.25, -.25), offset=(0, 12)), {}),
    'rq': ('warp', dict(scale=.25, theta=.4, offset=(5, 0)), {}),
    'r8': ('resize', (8, 6)),
    'r16': ('resize', (16, 12)),
    'up4': ('warp', dict(scale=4), {}),
}


def apply(n, st, op, kw):
    if op in EXTRA:
        pipe.OPS[op] = EXTRA[op]
    if pipe.OPS[op][0] == 'over' and st.nover + pipe.OPS[op][1] > 4:
        raise pipe.Skip
    if pipe.OPS[op][0] == 'over':
        keep = st.nover
        st = st.copy()
        st.nover = 0
        n, st = pipe.apply_op(n, st, op, kw)
        st.nover += keep
    else:
        n, st = pipe.apply_op(n, st, op, kw)
    if max(st.dsize) > 300 or min(st.dsize) < 1:
        raise pipe.Skip
    return n, st


def programs(files, ops, depth):
    for d in range(0, depth + 1):
        for f in files:
            for c in itertools.product(ops, repeat=d):
                yield [f, *c]


def run_near(case):
    return run_program(case, {'interpolation': 'nearest'})


def run_concat(case):
    """parts of a concatenation read their own levels"""
    from delayed_image import DelayedChannelConcat
    f1, f2, ops = case
    a, b = leaf(f1, 'l|p|q'), leaf(f2, 'm|r|s')
    n = DelayedChannelConcat([a.take_channels([0]), b.take_channels([0])])
    st = pipe.State(np.eye(3), FILES[f1][:2], [('l', (0, 0, 0)), ('m', (0, 0, 0))], [])
    trail = [st]
    for op in ops:
        try:
            n, st = apply(n, st, op, {})
            trail.append(st)
        except pipe.Skip:
            return Outcome([], 0, 0, trivial=True)
    data = np.asarray(n.finalize(), dtype=float)
    if data.shape != (st.dsize[1], st.dsize[0], 2):
        raise Violation(f'shape {data.shape}, expected {st.dsize}')
    out = []
    if st.deq:
        data = data * 4
    for i, f in enumerate((f1, f2)):
        v = data[..., i][np.isfinite(data[..., i])] / STEP
        lv = np.unique(np.round(v, 3))
        if len(lv) == 0:
            continue
        msg = bad_level(lv[0], trail, FILES[f][3])
        if len(lv) > 1 or msg:
            raise Violation(f'part {i} ({f}) reads levels {lv[:5].tolist()}: {msg}')
        out.append(int(lv[0]))
    return Outcome([core.key(out, ops)], len(ops) + 1)


COMPS = [[0], [1], [2], [3], [4], [1, 1], [1, 2], [2, 1], [0, 1], [1, 0], [1, 1, 1], [2, 2], [1, 3], [3, 1], [5], [2, 3]]
OPS = ['w_half', 'w_quart', 'q_edge', 's51', 's49', 's26', 's124', 's125', 'an_x', 'an_y', 'fx', 'fq', 'rq', 'r8', 'r16', 'up4',
       'w_dbl', 'w_t', 'w_hd', 'w_hs', 'c_mid', 'c_br', 'p_tl', 'o1', 'o2', 'dq', 't_xz', 'w_rots', 't_rep', 't_neg', 'g_sl']
OPS = [o for o in OPS if o != 't_xz']
SHORT = ['w_half', 's49', 's125', 'fq', 'rq', 'up4', 'c_mid', 'p_tl', 'o1', 'o2', 'dq', 'w_hd']


def families(tier):
    fams = [
        Family('stored', lambda: ([f, c, p, o] for f in FILES for c in COMPS for p in POST for o in (False, True)), run_stored,
               'every composition of overviews of every file, cropped or with bands selected, optimized or not'),
        Family('program', lambda: programs(['lv', 'odd', 'prime', 'one', 'gap', 'none'], OPS, 2), run_program,
               'every pair of warps, overviews, crops over six files'),
        Family('nearest', lambda: programs(['lv', 'odd'], OPS, 2), run_near, 'the same with nearest interpolation'),
        Family('concat', lambda: ([a, b, list(c)] for a, b in itertools.permutations(['lv', 'one', 'none', 'gap'], 2)
                                  for d in (0, 1, 2) for c in itertools.product(SHORT, repeat=d)), run_concat,
               'concatenations of files with different pyramids'),
        Family('deep', lambda: programs(['lv', 'odd'], SHORT, 3), run_program, 'depth 3'),
    ]
    if tier == 'thorough':
        fams += [
            Family('program3', lambda: programs(['lv', 'prime', 'one'], OPS, 3), run_program, 'depth 3, all ops'),
            Family('deep4', lambda: programs(['lv', 'odd'], SHORT, 4), run_program, 'depth 4'),
            Family('nearest3', lambda: programs(['lv', 'odd'], SHORT, 3), run_near, 'depth 3'),
            Family('concat3', lambda: ([a, b, list(c)] for a, b in itertools.permutations(['lv', 'one', 'none', 'gap'], 2)
                                       for c in itertools.product(SHORT, repeat=3)), run_concat, 'depth 3'),
        ]
    return fams
