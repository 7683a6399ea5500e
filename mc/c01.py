"""C01: optimization never changes the declared size, channels or band count."""
from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'


def declared(node):
    ch = node.channels
    return (tuple(node.dsize), None if ch is None else ch.normalize().as_list(),
            node.num_channels, tuple(node.shape))


def check_declared(node, st, what):
    w, h = st.dsize
    names = [n for n, _ in st.chans] if st.named else None
    want = ((w, h), names, len(st.chans), (h, w, len(st.chans)))
    got = declared(node)
    for label, a, b in zip(('size', 'channels', 'number of channels', 'shape'),
                           got, want):
        if a != b:
            raise Violation(f'{what} declares {label} {a}, expected {b}')


def run(case):
    node, st = pipe.build(case)
    check_declared(node, st, 'the pipeline')
    before = declared(node)
    opt = node.optimize()
    check_declared(opt, st, 'the optimized pipeline')
    if declared(node) != before:
        raise Violation(f'optimize changed the original: {before} -> {declared(node)}')
    return Outcome([core.key(before, type(opt).__name__)], len(case))


ALL = list(pipe.OPS)
DEEP = ['c_mid', 'c_far', 'p_tl', 'w_half', 'w_hd', 'w_qo', 'w_rot', 'w_idp', 'r_a', 'o1', 'dq',
        't_yx', 't_xz', 'w_dbl']
CATS = ['cat_ids', 'cat_jag', 'cat_nan', 'cat_cat']
ODD = ['id:33x21', 'cog:31x29', 'plain:7x5', 'nans:9x1', 'cog:1x1', 'id:2x3', 'cat_ids:13x11', 'flat:9x7']


def families(tier):
    en = pipe.enumerate_cases
    fams = [
        Family('all2', lambda: en(['id', 'cog', 'nans', 'id?', 'cog?'] + CATS, ALL, 2), run, 'depth 2, all ops'),
        Family('odd2', lambda: en(ODD, ALL, 2), run, 'depth 2, odd leaf sizes'),
        Family('deep3', lambda: en(['cog', 'cog:31x29', 'cat_jag'], DEEP, 3), run, 'depth 3'),
    ]
    if tier == 'thorough':
        fams += [
            Family('all3', lambda: en(['id', 'cog', 'cog:31x29', 'nans'] + CATS[:2], ALL, 3), run, 'depth 3, all ops'),
            Family('deep4', lambda: en(['cog', 'cog:31x29', 'cat_jag', 'cat_nan'], DEEP, 4), run, 'depth 4'),
        ]
    return fams
