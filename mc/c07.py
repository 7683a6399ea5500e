"""
C07: reported transforms.  Model: the 3x3 matrix product of the requested
operations, tracked next to the real pipeline (mc/pipe.py).
"""
import itertools

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'


def mat(tf):
    m = getattr(tf, 'matrix', tf)
    return np.eye(3) if m is None else np.asarray(m, dtype=np.float64)


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-7 * max(1, np.abs(b).max()))


def eqm(tf, want, what):
    got = mat(tf)
    if not same(got, want):
        raise Violation(f'{what} is {np.round(got, 5).tolist()}, expected {np.round(want, 5).tolist()}')


def has_concat(node):
    return hasattr(node, 'parts') or any(map(has_concat, node.children()))


def shared(a, b):
    la = {id(x) for x in a.leafs()}
    return any(id(x) in la for x in b.leafs())


def relate(dst, src, want, what):
    """want: list of possible relations"""
    got = mat(dst.get_transform_from(src))
    if not any(same(got, w) for w in want):
        raise Violation(f'{what} is {np.round(got, 5).tolist()}, expected one of '
                        f'{[np.round(w, 5).tolist() for w in want]}')


def run_chain(case):
    """every node of one pipeline, before and after optimizing"""
    leaf, st = pipe.make_leaf(case[0])
    nodes, sts = [leaf], [st]
    for name in case[1:]:
        n, st = pipe.apply_op(nodes[-1], sts[-1], name, {})
        nodes.append(n)
        sts.append(st)
    opt = nodes[-1].optimize()
    last = len(nodes) - 1
    T = sts[-1].T
    cat = has_concat(nodes[-1])
    count = 0
    if not cat:
        for n, s in zip(nodes, sts):
            eqm(n.get_transform_from_leaf(), s.T, f'transform of {type(n).__name__} from its leaf')
            count += 1
    if not case[0].startswith('nans'):
        if not has_concat(opt) and not cat:
            eqm(opt.get_transform_from_leaf(), T, 'transform of the optimized pipeline from its leaf')
        if shared(opt, leaf):
            # selecting channels may drop the part with the shared leaf
            relate(opt, nodes[-1], [np.eye(3)], 'from plain to optimized')
            relate(nodes[-1], opt, [np.eye(3)], 'from optimized to plain')
    for n, s in zip(nodes, sts):
        rel = T @ np.linalg.inv(s.T)
        if shared(nodes[-1], n):
            relate(nodes[-1], n, [rel], f'to node {last} from node {nodes.index(n)}')
            relate(n, nodes[-1], [np.linalg.inv(rel)], f'from node {last} to node {nodes.index(n)}')
            count += 2
        if not case[0].startswith('nans') and shared(opt, n):
            relate(opt, n, [rel], 'to the optimized pipeline')
            count += 1
    # points: where the model says leaf points go
    return Outcome([core.key(np.round(T, 6), st.dsize)], count)


def run_pair(case):
    """two pipelines over one leaf object"""
    kind, A, B = case
    leaf = pipe.make_leaf(kind)
    a, sa = pipe.build([kind] + A, leaf=(leaf[0], leaf[1].copy()))
    b, sb = pipe.build([kind] + B, leaf=(leaf[0], leaf[1].copy()))
    rel = sa.T @ np.linalg.inv(sb.T)
    n = 0
    for x in (a, a.optimize()):
        for y in (b, b.optimize()):
            if shared(x, y):
                relate(x, y, [rel], 'relation')
                relate(y, x, [np.linalg.inv(rel)], 'inverse relation')
                n += 2
    return Outcome([core.key(np.round(rel, 6))], n, trivial=not n)


def run_fork(case):
    """a concatenation of two pipelines over one leaf (or two leafs)"""
    kind, A, B, C, sel, two = case
    from delayed_image import DelayedChannelConcat
    leaf, st = pipe.make_leaf(kind)
    leaf2 = pipe.make_leaf(kind)[0] if two else leaf
    a, sa = pipe.build([kind] + A, leaf=(leaf, st.copy()))
    b, sb = pipe.build([kind] + B, leaf=(leaf2, st.copy()))
    w = min(sa.dsize[0], sb.dsize[0])
    h = min(sa.dsize[1], sb.dsize[1])
    a = a.crop((slice(0, h), slice(0, w)))
    b = b.crop((slice(0, h), slice(0, w)))
    a = a.take_channels([0])
    b = b.take_channels([0])
    node = DelayedChannelConcat([a, b])
    cs = pipe.State(np.eye(3), (w, h), [('x', None), ('x', None)], [])
    cs.named = True
    inner = node
    for name in C:
        try:
            node, cs = pipe.apply_op(node, cs, name, {})
        except pipe.Skip:
            return Outcome([], 0, trivial=True)
    if sel is not None:
        node = node.take_channels([sel])
    paths = [sa.T, sb.T]
    n = 0
    for x in (node, node.optimize()):
        # possible relations: along any path to a leaf they share
        for y, ty, oky in ((leaf, [np.eye(3)], [0] if two else [0, 1]),
                           (leaf2, [np.eye(3)], [1] if two else [0, 1]),
                           (a, [sa.T], [0] if two else [0, 1]), (b, [sb.T], [1] if two else [0, 1])):
            # the band selection may or may not have dropped the other part
            use = [i for i in oky if sel in (None, i) or x is node]
            if not shared(x, y):
                if sel is None or sel in oky:
                    raise Violation('the leaf is gone')
                continue
            if two or sel is None or not has_concat(x):
                use = [i for i in use if sel in (None, i)] or use
            want = [cs.T @ paths[i] @ np.linalg.inv(t) for i in use for t in ty]
            relate(x, y, want, 'from part to concatenation')
            relate(y, x, [np.linalg.inv(v) for v in want], 'from concatenation to part')
            n += 2
        if sel is None:
            # both ends are along the same path when the leafs differ
            want = [cs.T] if two else [cs.T @ p @ np.linalg.inv(q) for p in paths for q in paths]
            relate(x, inner, want, 'to the outer from the inner concatenation')
            n += 1
    return Outcome([core.key(np.round(cs.T, 6), A, B)], n, trivial=not n)


def run_coerce(case):
    """every way to write the same transform"""
    import kwimage
    how, k = case
    specs = [dict(scale=.5), dict(scale=(2, .75)), dict(offset=(3, -2)), dict(theta=.4),
             dict(scale=(1.5, .5), offset=(4, 3), theta=-.7, shearx=.3), dict(scale=(-1, 2), offset=(40, 0)), {}]
    kw = specs[k]
    M = pipe.affine(**kw)
    leaf = pipe.make_leaf('id')[0]
    arg = {
        'dict': lambda: dict(kw), 'array': lambda: M.copy(), 
        'affine': lambda: kwimage.Affine(M), 'affine_kw': lambda: kwimage.Affine.affine(**kw),
        'array23': lambda: M[:2].copy(),
        'concise': lambda: kwimage.Affine(M).concise(),
        'json': lambda: kwimage.Affine(M).__json__(),
    }[how]()
    node = leaf.warp(arg, dsize=(30, 20))
    eqm(node.transform, M, f'transform given as {how}')
    eqm(node.get_transform_from_leaf(), M, f'transform given as {how}')
    eqm(node.optimize().get_transform_from_leaf(), M, f'optimized transform given as {how}')
    auto = leaf.warp(arg)
    want = pipe.auto_dsize(M, (pipe.W, pipe.H))
    if min(want) > 0 and tuple(auto.dsize) != want and how != 'concise':
        raise Violation(f'automatic size {auto.dsize}, expected {want}')
    return Outcome([core.key(case)], 4)


def run_scale(case):
    """scale and resize with every kind of argument"""
    how, kind, args = case
    leaf, st = pipe.make_leaf(kind)
    w, h = st.dsize
    if how == 'scale':
        s, dsize = args
        node = leaf.scale(tuple(s) if isinstance(s, list) else s, **({} if dsize is None else {'dsize': tuple(dsize)}))
        M = pipe.affine(scale=s)
        want = tuple(dsize) if dsize else pipe.auto_dsize(M, (w, h))
    else:
        node = leaf.resize(tuple(args))
        want = tuple(args)
        M = pipe.affine(scale=(want[0] / w, want[1] / h))
    eqm(node.get_transform_from_leaf(), M, how)
    eqm(node.optimize().get_transform_from_leaf(), M, 'optimized ' + how)
    if tuple(node.dsize) != want:
        raise Violation(f'{how}: size {node.dsize}, expected {want}')
    return Outcome([core.key(case)], 3)


def cases_scale():
    for kind in ('id', 'cog', 'id:33x21', 'id:7x5'):
        for s in (.5, 2, 1, .3, .25, 3.7, [.5, 2], [1, .1]):
            for d in (None, [9, 11], [40, 30]):
                yield ['scale', kind, [s, d]]
        for d in itertools.product((1, 2, 7, 16, 33, 100), repeat=2):
            yield ['resize', kind, list(d)]


ALL = list(pipe.OPS)
FEW = ['c_mid', 'c_neg', 'p_tl', 'w_half', 'w_aniso', 'w_tf', 'w_rots', 'w_shear', 'w_flip', 'r_a', 'o1', 'o2', 'dq', 't_z', 'w_hs']
MIN = ['c_mid', 'p_tl', 'w_half', 'w_rot', 'w_aniso2', 'o1', 't_yx', 'r_a']


def seqs(kind, ops, depth):
    for case in pipe.enumerate_cases([kind], ops, depth):
        yield case[1:]


def cases_pair(kinds, ops, depth):
    for kind in kinds:
        ss = list(seqs(kind, ops, depth))
        for a in ss:
            for b in ss:
                yield [kind, a, b]


def cases_fork(kinds, ops, after, depth):
    for kind in kinds:
        ss = list(seqs(kind, ops, 1))
        for a in ss:
            for b in ss:
                for n in range(depth + 1):
                    for c in itertools.product(after, repeat=n):
                        for sel in (None, 0, 1):
                            for two in (False, True):
                                yield [kind, a, b, list(c), sel, two]


def families(tier):
    th = tier == 'thorough'
    F = Family
    en = pipe.enumerate_cases
    return [
        F('chain2', lambda: en(['id', 'cog', 'plain', 'cog:31x29', 'nans', 'cat_ids', 'cat_nan', 'id?'], ALL, 2), run_chain,
          'all sequences of 2 of all operations'),
        F('chain3', lambda: en(['cog', 'cog:31x29'], ALL if th else FEW, 3), run_chain, 'sequences of 3 operations'),
        F('chain_cat', lambda: en(['cat_ids', 'cat_cat'], FEW, 3 if th else 2), run_chain, 'over concatenations'),
        F('pair', lambda: cases_pair(['cog', 'id', 'cat_ids'], FEW if th else MIN, 2), run_pair,
          'all pairs of pipelines of up to 2 operations over one leaf'),
        F('fork', lambda: cases_fork(['id', 'cog'], MIN if not th else FEW[:10], MIN[:6], 2 if th else 1), run_fork,
          'concatenations of two pipelines over one or two leafs, then up to 1 (thorough 2) operations, band selection'),
        F('coerce', lambda: ([h, k] for h in ('dict', 'array', 'affine', 'affine_kw', 'concise', 'json')
                             for k in range(7)), run_coerce, '7 transforms in 6 notations'),
        F('scale', cases_scale, run_scale, 'scale and resize arguments'),
    ]
