"""C02: optimization never changes what an image shows, nor where."""
import numpy as np

from mc import core, pipe
from mc.core import Violation, Outcome, Family

LEVEL = 'model_checking'
PYRAMID = {'cog', 'cat_jag'}


def check_content(arr, st, tol_leaf, must_finite, what, edge=1.01, soft=0.):
    w, h = st.dsize
    nc = len(st.chans)
    if arr.shape != (h, w, nc):
        raise Violation(f'{what}: shape {arr.shape} but the image is {(h, w, nc)}')
    lx, ly, must = pipe.sample_grid(st, soft)
    exp = pipe.expected(st, lx, ly)
    arr = np.asarray(arr, dtype=np.float64)
    fin = np.isfinite(arr)
    n = 0
    for k, (name, r) in enumerate(st.chans):
        a = arr[..., k]
        f = fin[..., k]
        if r is None:
            if f.any():
                raise Violation(f'{what}: missing channel {name} has data')
            continue
        grad = abs(r[0]) + abs(r[1])
        err = np.abs(a - exp[..., k])
        bad = f & (err > tol_leaf * grad)
        n += int(f.sum())
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation(
                f'{what}: channel {name} pixel (y={y},x={x}) shows {a[y, x]:.3f}, '
                f'content of this place is {exp[y, x, k]:.3f} '
                f'(tolerance {tol_leaf * grad:.3f}, {int(bad.sum())} pixels)')
        if must_finite:
            lost = must & ~f
            if lost.any():
                y, x = np.argwhere(lost)[0]
                raise Violation(
                    f'{what}: channel {name} pixel (y={y},x={x}) lost: the source '
                    f'place ({lx[y, x]:.2f},{ly[y, x]:.2f}) is inside the image '
                    f'({int(lost.sum())} pixels)')
        m = edge
        out = (lx < -m) | (lx > pipe.W + m) | (ly < -m) | (ly > pipe.H + m)
        if (out & f).any():
            y, x = np.argwhere(out & f)[0]
            raise Violation(f'{what}: channel {name} pixel (y={y},x={x}) has data, but '
                            f'its source ({lx[y, x]:.2f},{ly[y, x]:.2f}) is outside the source image')
    return n


def tolerance(st, base):
    """
    Leaf pixel tolerance of the (unoptimized, optimized) result.

    An overview of anything but a stored pyramid is simulated by decimation, so
    it shows the top-left corner of its 2^k blocks, and an odd size is
    stretched: up to 1.5 overview pixels per overview step.  Once optimized
    the overview sits on the leaf (whose size the levels divide) and is exact
    up to half a pixel of the overview.
    """
    if not st.nover:
        return base, base
    nsteps = sum(c.startswith('o') for c in st.chain)
    return base + 1.6 * nsteps * st.coarse, base + .6 * st.coarse


def run_sharp(case):
    """linear interpolation, no antialiasing: sub-pixel exact."""
    node, st = pipe.build(case, {'antialias': False})
    return _run(node, st, tolerance(st, .1 + .04 * st.coarse), st.nover == 0, case)


def run_smooth(case):
    """default parameters (antialiased): sub-pixel of the coarsest canvas."""
    node, st = pipe.build(case)
    base = .12 + .55 * st.coarse * max(1, st.nwarp * .8)
    return _run(node, st, tolerance(st, base), False, case)


def _run(node, st, tols, raw_must, case):
    edge = 1.01 + (1.6 * st.coarse if st.nover else 0)
    n = 0
    raw = node.finalize(optimize=False)
    n += check_content(raw, st, tols[0], raw_must, 'unoptimized', edge)
    opt = node.finalize(optimize=True)
    n += check_content(opt, st, tols[1], True, 'optimized', edge,
                       soft=.51 * st.coarse if st.nover or case[0] in PYRAMID else 0)
    return Outcome([core.key(st.dsize, opt)], len(case), 2, trivial=n == 0)


GEO = ['c_mid', 'c_tl', 'p_tl', 'w_half', 'w_dbl', 'w_third', 'w_aniso', 'w_t',
       'w_tf', 'w_rot', 'w_shear', 'w_flip', 'w_hd', 'w_hs', 'w_dd', 'w_tn',
       'w_qo', 'p_br', 'c_br', 'c_neg', 'c_row', 'w_idp', 'r_a', 'r_b', 'dq',
       't_yx', 't_rep', 't_miss', 't_neg', 'g_neg', 'g_one', 'w_quart', 'w_aniso2', 'w_rots']
OVR = GEO + ['o1', 'o2']


CATS = ['cat_ids', 'cat_jag', 'cat_nan', 'cat_cat']
# one representative of every rewrite, for deeper sequences
CORE = ['c_mid', 'p_tl', 'w_half', 'w_dbl', 'w_qo', 'w_rot', 'w_hd', 't_yx', 'dq', 'o1']
CORE_G = [c for c in CORE if c != 'o1'] + ['w_tf', 'w_aniso', 'c_br']


def families(tier):
    cases = pipe.enumerate_cases
    fams = [
        Family('sharp_id', lambda: cases(['id'], GEO, 2), run_sharp, 'depth 2'),
        Family('sharp_cog', lambda: cases(['cog', 'plain'], OVR, 2), run_sharp, 'depth 2'),
        Family('sharp_cat', lambda: cases(CATS, GEO, 2), run_sharp, 'depth 2'),
        Family('smooth_id', lambda: cases(['id'], GEO, 2), run_smooth, 'depth 2'),
        Family('smooth_cog', lambda: cases(['cog'], OVR, 2), run_smooth, 'depth 2'),
        Family('sharp_deep', lambda: cases(['cog'], CORE, 3), run_sharp, 'depth 3'),
        Family('sharp_deep_cat', lambda: cases(['cat_jag'], CORE_G, 3), run_sharp, 'depth 3'),
    ]
    if tier == 'thorough':
        fams += [
            Family('sharp_id3', lambda: cases(['id'], GEO, 3), run_sharp, 'depth 3'),
            Family('sharp_cog3', lambda: cases(['cog'], OVR, 3), run_sharp, 'depth 3'),
            Family('smooth_cog3', lambda: cases(['cog'], OVR, 3), run_smooth, 'depth 3'),
            Family('sharp_cat3', lambda: cases(CATS, GEO, 3), run_sharp, 'depth 3'),
            Family('sharp_core4', lambda: cases(['cog', 'cat_jag'], CORE, 4), run_sharp, 'depth 4'),
        ]
    return fams
