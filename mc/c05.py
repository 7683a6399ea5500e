"""
C05: pipelines are immutable values.

A system is a chain of pipelines ``n0 <- n1 <- n2 (<- n3)`` plus a fork that
shares ``n1``, built over one leaf.  A history is a sequence of (action, target)
calls on them.  The observed state is the complete object graph (node types,
parameters, identity of inputs, source arrays); it is compared after every
action, and at the end every pipeline is finalized and compared with what the
same pipeline gives in a system nothing was ever called on.
"""
import itertools

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

# operations with settings
pipe.OPS['w_bv'] = ('warp', dict(scale=.5, offset=(2, 1)), {'border_value': 4})
pipe.OPS['w_bs'] = ('warp', dict(theta=.2, offset=(4, 1)), {'border_value': -3, 'interpolation': 'cubic'})


# ------------------------------------------------------------ structure of a graph
def canon(v):
    if isinstance(v, np.ndarray):
        return ['array', core.key(v)]
    if hasattr(v, 'matrix'):
        m = v.matrix
        return ['transform', None if m is None else np.asarray(m, float).tolist()]
    if hasattr(v, 'spec'):
        return ['spec', str(v.spec)]
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [canon(x) for x in v]
    return repr(v)


def inputs(node):
    if hasattr(node, 'parts'):
        return list(node.parts)
    sub = getattr(node, 'subdata', None)
    return [] if sub is None else [sub]


def snap(node, memo=None):
    """complete canonical description of everything reachable from node"""
    memo = {} if memo is None else memo
    if id(node) in memo:
        return ['seen', memo[id(node)]]
    memo[id(node)] = len(memo)
    out = [type(node).__name__, canon(node.meta)]
    data = getattr(node, 'data', None)
    if data is not None:
        out.append(canon(data))
    out.append([snap(c, memo) for c in inputs(node)])
    return out


def nodes_of(node, out=None):
    out = [] if out is None else out
    if not any(node is o for o in out):
        out.append(node)
        for c in inputs(node):
            nodes_of(c, out)
    return out


# ------------------------------------------------------------ actions
def quiet(fn):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def a_inspect(n, o):
    n.nesting()
    list(n.leafs())
    list(getattr(n, '_leaf_paths', list)())
    n.as_graph()
    n.as_graph(fields='all')
    quiet(lambda: n.write_network_text(rich=False))
    repr(n), str(n)
    n.shape, n.dsize, n.channels, n.num_channels, n.num_overviews


def has_concat(n):
    return any(hasattr(m, 'parts') for m in nodes_of(n))


def a_undo(n, o):
    if has_concat(n):
        n = n.optimize()        # concatenation moves to the outside
    for kw in ({}, {'retain': {'offset'}}, {'remove': ['scale']}, {'squash_nans': True}):
        if hasattr(n, 'undo_warps'):
            for part in n.undo_warps(**kw):
                part.finalize()
        else:
            n.undo_warp(**kw).finalize()


def a_where(n, o):
    from delayed_image.delayed_nodes import CoordinateCompatibilityError
    for a, b in ((n, o), (o, n), (n.optimize(), o)):
        try:
            a.get_transform_from(b)
        except (CoordinateCompatibilityError, StopIteration):
            pass                # no shared leaf
    if not has_concat(n):
        n.get_transform_from_leaf()


def a_concat(n, o):
    from delayed_image import DelayedChannelConcat
    if n.dsize == o.dsize:
        c = DelayedChannelConcat([n, o])
        c.finalize()
        c.optimize()
        c.crop((slice(1, 5), slice(0, 4))).optimize()
    DelayedChannelConcat([n, n]).finalize()


def extend(fn):
    def act(n, o):
        m = fn(n)
        m.optimize().optimize()
        m.finalize()
        m.finalize(optimize=False)
    return act


ACTIONS = {
    'F': lambda n, o: n.finalize(),
    'f': lambda n, o: n.finalize(optimize=False),
    'np': lambda n, o: n.finalize(prepare=False),
    'O': lambda n, o: n.optimize().optimize(),
    'OF': lambda n, o: n.optimize().finalize(optimize=False),
    'OC': lambda n, o: n.optimize().crop((slice(1, 6), slice(2, 7))).optimize().finalize(),
    'OW': lambda n, o: n.optimize().warp({'scale': .5}).optimize().finalize(),
    'P': lambda n, o: n.prepare(),
    'I': a_inspect,
    'U': a_undo,
    'T': a_where,
    'K': a_concat,
    'X': lambda n, o: n.as_xarray().finalize(),
    'E': lambda n, o: n.evaluate() if hasattr(n, 'evaluate') else None,
    'xc': extend(lambda n: n.crop((slice(1, -2), slice(2, 11)))),
    'xp': extend(lambda n: n.crop((slice(-2, 7), slice(-1, 9)), clip=False, wrap=False, pad=1)),
    'xw': extend(lambda n: n.warp({'scale': .5, 'offset': (1, 2)}, interpolation='cubic', border_value=3)),
    'xn': extend(lambda n: n.warp({'scale': (2, -1)}, dsize=(30, 20), interpolation='nearest')),
    'xr': extend(lambda n: n.resize((9, 11))),
    'xs': extend(lambda n: n.scale(.3)),
    'xo': extend(lambda n: n.get_overview(1)),
    'xt': extend(lambda n: n.take_channels([1, 0])),
    'xi': extend(lambda n: n[0:5, :, [1]]),
}
# 'dequantize' is only allowed once per pipeline
ACTIONS['xd'] = lambda n, o: None if 'Dequantize' in str(snap(n)) else extend(
    lambda n: n.dequantize({'quant_max': 9, 'nodata': 3}))(n, o)


def system(leaf, ops, fork):
    """-> list of nodes, or Skip"""
    if leaf == 'raw':
        from delayed_image import DelayedLoad
        node = DelayedLoad(pipe.f_cog(), channels='x|y|z', dsize=(pipe.W, pipe.H))
        st = pipe.make_leaf('cog')[1]
    else:
        node, st = pipe.make_leaf(leaf)
    out, sts = [node], [st]
    for name in ops:
        node, st = pipe.apply_op(node, st, name, {})
        out.append(node)
        sts.append(st)
    if fork:
        k = max(len(ops) - 1, 0)
        out.append(pipe.apply_op(out[k], sts[k], fork, {})[0])
    for n in out:
        thaw(n)
    return out, sts


def thaw(n):
    """source arrays are given writable: nothing but politeness protects them"""
    for m in nodes_of(n):
        d = getattr(m, 'data', None)
        if isinstance(d, np.ndarray) and not d.flags.writeable:
            m.data = d.copy()


_FRESH = {}


def fresh(leaf, ops, fork):
    k = (leaf, tuple(ops), fork)
    if k not in _FRESH:
        if len(_FRESH) > 50:
            _FRESH.clear()
        vals = []
        n = len(system(leaf, ops, fork)[0])
        for i in range(n):
            for opt in (True, False):
                vals.append(np.asarray(system(leaf, ops, fork)[0][i].finalize(optimize=opt)).copy())
        _FRESH[k] = vals
    return _FRESH[k]


def run(case):
    leaf, ops, fork, hist = case
    want = fresh(leaf, ops, fork)
    nodes, sts = system(leaf, ops, fork)
    if leaf == 'raw':
        look = lambda n: [list(n.dsize), str(n.channels.spec), n.num_channels]
    else:
        look = snap
    everything = []
    for n in nodes:
        nodes_of(n, everything)
    before = [look(n) for n in nodes]
    meta0 = [n.meta if leaf == 'raw' else canon(n.meta) for n in everything]
    states = [core.key(str(before))]
    for act, ti in hist:
        ti %= len(nodes)
        n, o = nodes[ti], nodes[ti - 1]
        try:
            ACTIONS[act](n, o)
        except IndexError:
            # the action does not apply to this pipeline (a band that is not there)
            if act not in ('xt', 'xi'):
                raise
        after = [look(m) for m in nodes]
        for i, (a, b) in enumerate(zip(before, after)):
            if a != b:
                raise Violation(f'{act} on pipeline {ti} changed pipeline {i}: {diff(a, b)}')
        if leaf != 'raw':
            for m, a in zip(everything, meta0):
                if canon(m.meta) != a:
                    raise Violation(f'{act} on pipeline {ti} changed {type(m).__name__}: {diff(a, canon(m.meta))}')
        states.append(core.key(act, ti, str(after)))
    k = 0
    for i, n in enumerate(nodes):
        for opt in (True, False):
            got = np.asarray(n.finalize(optimize=opt))
            if got.shape != want[k].shape or got.dtype != want[k].dtype or \
                    not np.array_equal(got, want[k], equal_nan=True):
                raise Violation(f'after {hist} pipeline {i} finalizes (optimize={opt}) to something else')
            states.append(core.key(got))
            k += 1
    return Outcome(states, len(hist) + 2 * len(nodes), 1)


def diff(a, b):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return f'{k}: {diff(a.get(k), b.get(k))}'
    return f'{a} -> {b}'[:300]


# ------------------------------------------- one image used twice in one pipeline
def join(leaf, base, f, g, h, share):
    """h(concat(f(n), g(n))), where both n are one object or made twice"""
    from delayed_image import DelayedChannelConcat
    n, st = pipe.build([leaf, *base])
    parts = []
    for ops in (f, g):
        if not share:
            n, st = pipe.build([leaf, *base])
        parts.append(pipe.build([leaf, *ops], leaf=(n, st)))
    w = min(st.dsize[0] for _, st in parts)
    h_ = min(st.dsize[1] for _, st in parts)
    nodes = [p if st.dsize == (w, h_) else p[0:h_, 0:w] for p, st in parts]
    cat = DelayedChannelConcat(nodes)
    if h is None:
        return cat
    return H[h](cat)


H = {
    'crop': lambda c: c[1:, 2:],
    'warp': lambda c: c.warp({'scale': .7, 'offset': (1, 2)}),
    'last': lambda c: c[:, :, [c.num_channels - 1, 0]],
    'dq': lambda c: c.dequantize({'orig_min': 0., 'orig_max': 2., 'quant_min': 0, 'quant_max': 8, 'nodata': None}),
}


def run_shared(case):
    leaf, base, f, g, h = case
    states = []
    got = join(leaf, base, f, g, h, True)
    want = join(leaf, base, f, g, h, False)
    before = snap(got)
    for opt in (True, False):
        a, b = (np.asarray(x.finalize(optimize=opt)) for x in (got, want))
        if a.shape != b.shape:
            raise Violation(f'an image used twice in one pipeline: shape {a.shape}, otherwise {b.shape}')
        if a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=True):
            raise Violation(f'an image used twice in one pipeline gives something else than two equal images '
                            f'(optimize={opt}): {a.shape} {a.dtype} {a.ravel()[:3]} / {b.shape} {b.dtype} {b.ravel()[:3]}')
        states.append(core.key(a))
    if snap(got) != before:
        raise Violation(f'finalize changed the pipeline: {diff(before, snap(got))}')
    return Outcome(states, len(base) + len(f) + len(g) + 1, 2)


def cases_shared(leafs, bases, nb, ops, nf, hs):
    for lf in leafs:
        _, st0 = pipe.make_leaf(lf)
        for d in range(nb + 1):
            for base in itertools.product(bases, repeat=d):
                for df, dg in itertools.product(range(nf + 1), repeat=2):
                    for f in itertools.product(ops, repeat=df):
                        for g in itertools.product(ops, repeat=dg):
                            for h in hs:
                                if h == 'dq' and 'dq' in (*base, *f, *g):
                                    continue
                                if h == 'last' and not f and not g:
                                    # bands of one object are resampled together,
                                    # which OpenCV rounds differently
                                    continue
                                try:
                                    pipe.model([lf, *base, *f], st0)
                                    pipe.model([lf, *base, *g], st0)
                                except pipe.Skip:
                                    continue
                                yield [lf, list(base), list(f), list(g), h]


# ------------------------------------------------------------ enumeration
OPS = ['c_mid', 'c_br', 'p_tl', 'w_half', 'w_hd', 'w_dbl', 'w_rot', 'w_t', 'w_id', 'w_flip', 'r_a', 'o1', 'o0', 'dq',
       't_yx', 't_xz']
FEW = ['c_mid', 'p_tl', 'w_half', 'w_rot', 'o1', 'dq', 't_yx']
OPS2 = ['w_bv', 'c_mid', 'p_tl', 'w_half', 'w_hd', 'w_dbl', 'w_rot', 'w_t', 'w_flip', 'o1', 'dq', 't_yx']
LEAFS = ['id', 'cog', 'cat_jag', 'cat_nan', 'nans', 'raw']


def systems(leafs, ops, n, forks):
    for lf in leafs:
        for seq in itertools.product(ops, repeat=n):
            for fork in forks:
                try:
                    st = pipe.make_leaf('cog' if lf == 'raw' else lf)[1]
                    sts = [st]
                    for o in seq:
                        st = pipe.apply_op(None, st, o, {}, build=False)[1]
                        sts.append(st)
                    if fork:
                        pipe.apply_op(None, sts[max(n - 1, 0)], fork, {}, build=False)
                except pipe.Skip:
                    continue
                if max(max(s.dsize) for s in sts) > 80 or min(min(s.dsize) for s in sts) < 3:
                    continue
                yield [lf, list(seq), fork]


def cases(leafs, ops, n, forks, acts, targets, depth):
    for sys_ in systems(leafs, ops, n, forks):
        for hist in itertools.product(itertools.product(acts, targets), repeat=depth):
            yield sys_ + [[list(h) for h in hist]]


def families(tier):
    th = tier == 'thorough'
    F = Family
    A = list(ACTIONS)
    A2 = ['F', 'f', 'O', 'OC', 'OW', 'U', 'K', 'I', 'xc', 'xp', 'xw', 'xo', 'xt']
    fams = [
        # the last pipeline exercises every node below it
        F('one2', lambda: cases(LEAFS if th else ['cog', 'cat_jag'], OPS if th else OPS2, 2, ['c_mid'], A, [2], 1), run,
          'chains of 2 operations plus a fork, every action on the whole chain'),
        F('one1', lambda: cases(LEAFS, list(pipe.OPS), 1, ['w_half'], A, [0, 1, 2], 1), run,
          'chains of 1 of all operations plus a fork, every action on every pipeline'),
        F('shared', lambda: cases_shared(['cog', 'cat_jag', 'id'] if th else ['cog', 'cat_jag'], OPS2, 1, OPS2, 1,
                                         [None, *H] if th else [None, 'crop']), run_shared,
          'one image used twice in one pipeline, before up to one operation each'),
        F('shared2', lambda: cases_shared(['cog'], ['w_rot', 'c_mid'], 2, FEW, 1, [None, 'warp', 'last']), run_shared,
          'the same below two operations'),
        F('two', lambda: cases(['cog', 'cat_jag'], FEW if th else ['w_half', 'o1'], 2, ['w_rot'],
                               A if th else A2, [2, 3], 2), run,
          'chains of 2 operations plus a fork, every pair of actions on the two pipelines that share a node'),
    ]
    if th:
        fams += [
            F('one3', lambda: cases(LEAFS, FEW + ['w_hd', 't_xz', 'w_dbl'], 3, ['w_half'], A, [3], 1), run,
              'chains of 3 operations plus a fork, every action'),
            F('three', lambda: cases(['cog'], ['w_half', 'o1'], 2, ['c_mid'], A2, [2, 3], 3), run,
              'every triple of actions'),
        ]
    return fams
