"""
C14: undoing warps gives the image at its native geometry, and says which warp
was applied.

Oracle: the 3x3 model transform of mc/pipe.py, an independent decomposition of
its inverse, and the linear ramp content.
"""
import numpy as np

from mc import c02, core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'
KEYS = ['offset', 'scale', 'shearx', 'theta']


def decompose(M):
    """M = offset @ rotation @ shear @ scale, scale of x positive"""
    (a, b), (c, d) = M[:2, :2]
    sx = np.hypot(a, c)
    th = np.arctan2(c, a)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    up = R.T @ M[:2, :2]
    sy = up[1, 1]
    return {'scale': (sx, sy), 'theta': th, 'shearx': up[0, 1] / sy, 'offset': tuple(M[:2, 2])}


def want_warp(T, removed):
    inv = np.linalg.inv(T)
    if set(removed) == set(KEYS):
        return inv
    return pipe.affine(**{k: v for k, v in decompose(inv).items() if k in removed})


# the argument pair, and what it removes
VARIANTS = {
    'all': ({}, KEYS),
    'none_kept': ({'retain': []}, KEYS),
    'rm_scale': ({'remove': ['scale']}, ['scale']),
    'keep_rest': ({'retain': ['offset', 'theta', 'shearx']}, ['scale']),
    'keep_offset': ({'retain': ['offset']}, ['scale', 'shearx', 'theta']),
    'rm_linear': ({'remove': ['scale', 'theta', 'shearx']}, ['scale', 'shearx', 'theta']),
    'rm_offset': ({'remove': ['offset']}, ['offset']),
    'rm_theta': ({'remove': ['theta']}, ['theta']),
    'rm_scale_off': ({'remove': ['scale', 'offset']}, ['scale', 'offset']),
    'rm_nothing': ({'remove': []}, []),
    'keep_all': ({'retain': list(KEYS)}, []),
}


def mat(tf):
    import kwimage
    return np.asarray(kwimage.Affine.coerce(tf).matrix if tf is not None else np.eye(3), dtype=float)


def same_warp(got, want, dsize, what):
    got = mat(got)
    w, h = dsize
    P = np.array([[0, w, 0, w], [0, 0, h, h], [1, 1, 1, 1.]])
    d = np.abs((got @ P)[:2] - (want @ P)[:2]).max()
    if d > 1e-3:
        raise Violation(f'{what}: corners are off by {d:.4f}: {np.round(got, 4).tolist()}, expected {np.round(want, 4).tolist()}')


def moved(st, W):
    st = st.copy()
    dsize = pipe.auto_dsize_tol(W, st.dsize)
    pipe._grow(st)
    st.T = W @ st.T
    st.dsize = dsize
    st.walls.append([st.T, dsize, 0.])
    st.nwarp += 1
    st.coarse = max(st.coarse, pipe.pxsize(st.T))
    return st


def check_part(part, st0, W, ret, what, arr=None, pyramid=False, chans=None):
    """part shows what st0 shows, warped by W"""
    st = moved(st0, W)
    if chans is not None:
        st.chans = chans
    if tuple(part.dsize) not in dsizes(W, st0.dsize):
        raise Violation(f'{what}: canvas {part.dsize}, expected {st.dsize}')
    st.dsize = tuple(int(v) for v in part.dsize)
    st.walls[-1][1] = st.dsize
    if ret is not None:
        same_warp(ret, W, st0.dsize, what + ' returned warp')
    base = .12 + .55 * st.coarse * max(1, st.nwarp * .8)
    tol = c02.tolerance(st, base)[1]
    edge = 1.01 + (1.6 * st.coarse if st.nover else 0) + st.coarse
    return c02.check_content(part.finalize(), st, tol, True, what, edge,
                             soft=.51 * st.coarse if st.nover or pyramid else 0)


def dsizes(W, dsize, eps=1e-6):
    """whole extents: round off may lift an exact extent to the next pixel"""
    w, h = dsize
    pts = (W @ np.array([[0, 0, 1], [w, 0, 1], [0, h, 1], [w, h, 1.]]).T)[:2].max(axis=1)
    xs, ys = ({int(np.ceil(v - eps)), int(np.ceil(v + eps))} for v in pts)
    return {(x, y) for x in xs for y in ys}


pipe.auto_dsize_tol = lambda W, d: sorted(dsizes(W, d))[0]


def run_single(case):
    ops, variant, early = case
    kw, removed = VARIANTS[variant]
    node, st = pipe.build(ops)
    if early:
        node = node.optimize()
    W = want_warp(st.T, removed)
    if min(pipe.auto_dsize_tol(W, st.dsize)) < 1:
        return Outcome([], 0, trivial=True)
    if all(r is None for _, r in st.chans):
        return run_missing(case, node, st)
    part, ret = node.undo_warp(return_warp=True, **kw)
    only = node.undo_warp(**kw)
    if tuple(only.shape) != tuple(part.shape):
        raise Violation('return_warp changes the image')
    same_warp(part.get_transform_from_leaf(), W @ st.T, (pipe.W, pipe.H), 'transform from the leaf')
    same_warp(only.get_transform_from_leaf(), W @ st.T, (pipe.W, pipe.H), 'transform from the leaf')
    if set(removed) == set(KEYS):
        same_warp(part.get_transform_from_leaf(), np.eye(3), (pipe.W, pipe.H), 'native geometry')
    n = check_part(part, st, W, ret, 'undone', pyramid=ops[0].startswith('cog'))
    if [c for c in part.channels.as_list()] != [c for c, _ in st.chans]:
        raise Violation(f'channels {part.channels}')
    # with squashing on, only missing images change
    sq, sret = node.undo_warp(return_warp=True, squash_nans=True, **kw)
    if tuple(sq.shape) != tuple(part.shape):
        raise Violation(f'squashing changes the size from {part.shape} to {sq.shape}')
    same_warp(sret, W, st.dsize, 'returned warp, squashing')
    if not np.array_equal(sq.finalize(), part.finalize(), equal_nan=True):
        raise Violation('squashing changes the values')
    return Outcome([core.key(np.round(W @ st.T, 6), part.dsize, variant)], 3 * len(ops), 4, trivial=n == 0)


def run_missing(case, node, st):
    """an all missing image has no native geometry, but keeps its channels"""
    ops, variant, early = case
    kw, _ = VARIANTS[variant]
    w, h = st.dsize
    for squash in (False, True):
        part, ret = node.undo_warp(return_warp=True, squash_nans=squash, **kw)
        if [c for c in part.channels.as_list()] != [c for c, _ in st.chans]:
            raise Violation(f'channels {part.channels}')
        if squash and tuple(part.dsize) != (1, 1):
            raise Violation(f'missing image squashed to {part.shape}')
        a = part.finalize()
        if a.shape != (part.dsize[1], part.dsize[0], len(st.chans)) or not np.isnan(a).all():
            raise Violation(f'a missing image {part.shape} gives {a.shape} with {int((~np.isnan(a)).sum())} values')
        far = (mat(ret) @ np.array([[0, w, 0, w], [0, 0, h, h], [1, 1, 1, 1.]]))[:2].max(axis=1)
        if not squash and not ((far <= np.array(part.dsize) + 1e-6).all() and (far > np.array(part.dsize) - 1 - 1e-6).all()):
            raise Violation(f'the canvas {part.dsize} does not fit the warp, which reaches {far}')
        if squash and far.max() > 1 + 1e-6:
            raise Violation(f'the warp into a single pixel reaches {far}')
    return Outcome([core.key(st.dsize, variant)], 2 * len(ops), 2)


def run_concat(case):
    ops, variant, early, squash = case
    kw, removed = VARIANTS[variant]
    node, st = pipe.build(ops)
    if early:
        node = node.optimize()
    plain = node.undo_warps(squash_nans=squash, **kw)
    parts, warps = node.undo_warps(squash_nans=squash, return_warps=True, **kw)
    flat = flatten(node)
    if not len(plain) == len(parts) == len(warps) == len(flat):
        raise Violation(f'{len(parts)} parts, {len(warps)} warps, {len(plain)} without warps, of {len(flat)}')
    # the parts hold the channels in order
    names = [c for p in parts for c in p.channels.as_list()]
    if names != [c for c, _ in st.chans]:
        raise Violation(f'channels {names}, expected {[c for c, _ in st.chans]}')
    lut = dict(st.chans)
    n = 0
    states = []
    for i, (part, ret, other, orig) in enumerate(zip(parts, warps, plain, flat)):
        if tuple(other.shape) != tuple(part.shape):
            raise Violation('returning warps changes a part')
        chans = [(c, lut[c]) for c in part.channels.as_list()]
        P = part_transform(ops[0], chans) if not all(r is None for _, r in chans) else np.eye(3)
        missing = all(r is None for _, r in chans)
        # this part comes from its own leaf: st.T @ P
        if missing:
            # the geometry of a missing image is lost when optimizing
            if squash:
                if tuple(part.dsize) != (1, 1):
                    raise Violation(f'missing part {i} squashed to {part.dsize}')
                w, h = (1, 1)
                p = mat(ret) @ np.array([st.dsize[0], st.dsize[1], 1.])
                if max(p[:2]) > 1 + 1e-6:
                    raise Violation(f'part {i}: the warp into a single pixel maps the corner to {p}')
            if not np.isnan(part.finalize()).all():
                raise Violation('data in a missing image')
            continue
        leaf_T = st.T @ P
        W = want_warp(leaf_T, removed)
        if min(pipe.auto_dsize_tol(W, st.dsize)) < 1:
            continue
        same_warp(part.get_transform_from_leaf(), W @ leaf_T, (pipe.W, pipe.H), f'part {i} transform from its leaf')
        n += check_part(part, st, W, ret, f'part {i}', pyramid=True, chans=chans)
        states.append(core.key(np.round(W @ leaf_T, 6), part.dsize, variant, i))
    return Outcome(states, 2 * len(ops), 2, trivial=n == 0)


def flatten(node):
    return [q for p in node.parts for q in (flatten(p) if hasattr(p, 'parts') else [p])]


def part_transform(leaf, chans):
    """leaf of the part -> first canvas of the concatenation"""
    if leaf.startswith('cat_jag') and chans and chans[0][0] == 'z':
        return pipe.affine(scale=2)
    return np.eye(3)


GEO = ['c_mid', 'c_br', 'p_tl', 'p_br', 'w_half', 'w_dbl', 'w_third', 'w_aniso', 'w_t', 'w_tf', 'w_tn', 'w_rot', 'w_rots', 'w_shear',
       'w_flip', 'w_hd', 'w_hs', 'w_qo', 'r_a', 'dq', 't_yx', 't_z', 't_rep', 't_miss', 't_neg', 'g_neg', 'g_one']
SOME = ['c_mid', 'p_tl', 'w_half', 'w_dbl', 'w_rot', 'w_rots', 'w_aniso', 'w_tf', 'w_hd', 'w_qo', 'dq', 't_yx']


def flips(T):
    return np.linalg.det(T[:2, :2]) < 0


def cases_single(leafs, ops, depth, variants):
    for c in pipe.enumerate_cases(leafs, ops, depth):
        st = pipe.model(c, pipe.make_leaf(c[0])[1])
        if 't_miss' in c or (not c[0].startswith('nans') and any(r is None for _, r in st.chans)):
            continue        # a missing channel makes it a concatenation
        for v in variants:
            if flips(st.T) and set(VARIANTS[v][1]) not in (set(KEYS), set()):
                continue
            for early in (0, 1):
                yield [c, v, early]


def cases_concat(leafs, ops, depth, variants):
    for c in pipe.enumerate_cases(leafs, ops, depth):
        st = pipe.model(c, pipe.make_leaf(c[0])[1])
        names = [n for n, _ in st.chans]
        if len(set(names)) != len(names):
            continue
        for v in variants:
            if flips(st.T) and set(VARIANTS[v][1]) not in (set(KEYS), set()):
                continue
            for squash in (False, True):
                yield [c, v, 1, squash]
                if len(c) == 1:
                    yield [c, v, 0, squash]


def families(tier):
    th = tier == 'thorough'
    F = Family
    most = ['all', 'rm_scale', 'keep_offset', 'rm_offset', 'rm_theta', 'rm_nothing']
    fams = [
        F('single', lambda: cases_single(['id', 'plain', 'nans'], GEO, 1, list(VARIANTS)), run_single, 'depth 1, every selection of components'),
        F('single2', lambda: cases_single(['id'], GEO, 2, ['all', 'rm_scale', 'keep_offset']), run_single, 'depth 2'),
        F('overviews', lambda: cases_single(['cog'], SOME + ['o1', 'o2'], 2, ['all', 'rm_scale']), run_single, 'depth 2'),
        F('concat', lambda: cases_concat(['cat_ids', 'cat_jag', 'cat_nan', 'cat_cat'], GEO, 1, list(VARIANTS)), run_concat, 'depth 1'),
        F('concat2', lambda: cases_concat(['cat_jag', 'cat_nan'], SOME, 2, ['all', 'rm_scale']), run_concat, 'depth 2'),
    ]
    if th:
        fams += [
            F('single3', lambda: cases_single(['id'], SOME, 3, most), run_single, 'depth 3'),
            F('overviews3', lambda: cases_single(['cog'], SOME + ['o1', 'o2'], 3, ['all', 'rm_scale', 'keep_offset']), run_single, 'depth 3'),
            F('concat3', lambda: cases_concat(['cat_jag', 'cat_nan', 'cat_cat'], SOME, 3, ['all', 'rm_scale', 'keep_offset']), run_concat, 'depth 3'),
        ]
    return fams
