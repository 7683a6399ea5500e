"""C04: optimization reaches a fixed point, in the canonical order."""
import json

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'
RANK = {'DelayedChannelConcat': 0, 'DelayedWarp': 1, 'DelayedDequantize': 2,
        'DelayedCrop': 3, 'DelayedOverview': 4}


def plain(obj):
    """A comparable description of a nested graph."""
    if isinstance(obj, dict):
        return {str(k): plain(v) for k, v in obj.items() if k != 'fpath'}
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    if hasattr(obj, 'matrix'):
        return [[round(float(v), 7) + 0. for v in row] for row in obj.matrix]
    if hasattr(obj, 'tolist'):
        return plain(obj.tolist())
    if isinstance(obj, float):
        return round(obj, 7) + 0.
    return str(obj) if not isinstance(obj, (int, type(None))) else obj


def describe(node):
    """[type, meta, children] through the public node attributes."""
    return [type(node).__name__, plain(dict(node.meta)),
            [describe(c) for c in node.children()]]


def paths(desc):
    if not desc[2]:
        yield [desc[0]]
    for c in desc[2]:
        for p in paths(c):
            yield [desc[0]] + p


def check_canonical(desc):
    for p in paths(desc):
        inner = [n for n in p if n in RANK]
        ranks = [RANK[n] for n in inner]
        if ranks != sorted(ranks):
            raise Violation(f'order {" > ".join(p)} is not canonical')
        for a, b in zip(inner, inner[1:]):
            if a == b and a != 'DelayedChannelConcat':
                raise Violation(f'consecutive {a} were not fused: {" > ".join(p)}')


def run(case, **kw):
    node, st = pipe.build(case, kw)
    opt = node.optimize()
    d1 = describe(opt)
    again = opt.optimize()
    d2 = describe(again)
    if d1 != d2:
        raise Violation(f'optimizing twice changes the graph:\n  {json.dumps(d1)[:700]}\n  {json.dumps(d2)[:700]}')
    d3 = describe(node.optimize())
    if d1 != d3:
        raise Violation(f'optimizing the same graph again gives a different result:\n  {json.dumps(d1)[:700]}\n  {json.dumps(d3)[:700]}')
    if kw.get('interpolation') != 'nearest':
        check_canonical(d1)
    return Outcome([core.key(json.dumps(d1))], 3 * len(case))


def run_nearest(case):
    return run(case, interpolation='nearest')


ALL = list(pipe.OPS)
DEEP = ['c_mid', 'c_far', 'p_tl', 'w_half', 'w_hd', 'w_qo', 'w_rot', 'w_idp', 'r_a', 'o1', 'dq',
        't_yx', 't_xz', 'w_dbl']
CATS = ['cat_ids', 'cat_jag', 'cat_nan', 'cat_cat']


def families(tier):
    en = pipe.enumerate_cases
    fams = [
        Family('all2', lambda: en(['id', 'cog', 'nans', 'cog?', 'cog:31x29'] + CATS, ALL, 2), run, 'depth 2, all ops'),
        Family('near2', lambda: en(['cog', 'cat_jag'], ALL, 2), run_nearest, 'depth 2, nearest'),
        Family('deep3', lambda: en(['cog', 'cat_jag'], DEEP, 3), run, 'depth 3'),
    ]
    if tier == 'thorough':
        fams += [
            Family('all3', lambda: en(['id', 'cog', 'cog:31x29', 'cat_jag'], ALL, 3), run, 'depth 3, all ops'),
            Family('deep4', lambda: en(['cog', 'cog:31x29', 'cat_nan'], DEEP, 4), run, 'depth 4'),
        ]
    return fams
