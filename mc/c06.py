"""C06: the finalized array has the shape the image declares."""
import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'


def run(case, **kw):
    node, st = pipe.build(case, kw)
    w, h = st.dsize
    want = (h, w, len(st.chans))
    if tuple(node.shape) != want:
        raise Violation(f'declared shape {node.shape}, expected {want}')
    states = []
    for optimize in (False, True):
        arr = np.asarray(node.finalize(optimize=optimize))
        if arr.shape != want:
            raise Violation(f'finalize(optimize={optimize}) gives shape '
                            f'{arr.shape}, declared {want}')
        states.append(core.key(want, str(arr.dtype)))
    return Outcome(states, 2 * len(case), 2)


def run_nearest(case):
    return run(case, interpolation='nearest')


ALL = list(pipe.OPS)
ODD = ['id:33x21', 'cog:31x29', 'cat_jag:30x22', 'plain:7x5?', 'nans:9x1',
       'cog:1x1', 'id:2x3', 'flat:9x7?']
SOME = ['c_mid', 'c_br', 'c_row', 'p_tl', 'p_br', 'w_half', 'w_third', 'w_hd', 'w_hs',
        'w_idp', 'w_qo', 'w_rot', 'w_aniso', 'w_tf', 'r_a', 'o1', 'o2', 'dq', 't_z', 't_yx', 't_rep', 't_miss', 't_neg', 'g_neg', 'g_one']


def families(tier):
    en = pipe.enumerate_cases
    fams = [
        Family('all2', lambda: en(['cog', 'id?', 'cat_jag', 'nans', 'flat'], ALL, 2), run, 'depth 2, all ops'),
        Family('odd2', lambda: en(ODD, SOME, 2), run, 'depth 2, odd leaf sizes'),
        Family('near2', lambda: en(['cog:31x29', 'id', 'cat_nan'], SOME, 2), run_nearest, 'depth 2, nearest'),
    ]
    if tier == 'thorough':
        fams += [
            Family('all3', lambda: en(['cog', 'cat_nan', 'cog:31x29'], SOME, 3), run, 'depth 3'),
            Family('odd_all2', lambda: en(ODD, ALL, 2), run, 'depth 2, all ops, odd leaf sizes'),
            Family('near3', lambda: en(['cog:31x29'], SOME, 3), run_nearest, 'depth 3, nearest'),
        ]
    return fams
