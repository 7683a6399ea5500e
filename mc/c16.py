"""
C16: the algebra of fused channel codes against a model of plain lists.

Model: a code is the list of channel names it stands for (written by hand, not
computed from the syntax); a spec is the concatenation of the lists of its
codes; set operations are ordered list comprehensions.
"""
import itertools
import pickle

from mc import core
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

CODES = {
    'r': ['r'], 'g': ['g'], 'b': ['b'], 'a': ['a'], 'k 9': ['k 9'],
    'rgb': ['r', 'g', 'b'], 'rgba': ['r', 'g', 'b', 'a'],
    'dxdy': ['dx', 'dy'], 'fxfy': ['fx', 'fy'], 'dx': ['dx'], 'fy': ['fy'],
    'm': ['m'], 'm.0': ['m.0'], 'm.1': ['m.1'], 'm.2': ['m.2'], 'm.3': ['m.3'],
    'm.10': ['m.10'], 'm.9': ['m.9'],
    'm:2': ['m.0', 'm.1'], 'm:1': ['m.0'], 'm:0': [],
    'm.1:3': ['m.1', 'm.2'], 'm.0:3': ['m.0', 'm.1', 'm.2'],
    'm:2:4': ['m.2', 'm.3'], 'm.:2': ['m.0', 'm.1'], 'm.2:2': [],
    'm.0:4:2': ['m.0', 'm.2'], 'm.1:6:2': ['m.1', 'm.3', 'm.5'], 'm::5:3': ['m.0', 'm.3'],
    'm.8:11': ['m.8', 'm.9', 'm.10'],
    'mm.1': ['mm.1'], 'mm:2': ['mm.0', 'mm.1'], 'n.2': ['n.2'], 'n.2:4': ['n.2', 'n.3'], 'n.4': ['n.4'],
}
SMALL = ['r', 'rgb', 'rgba', 'b', 'dxdy', 'm', 'm.0', 'm.1', 'm.2', 'm:2', 'm.1:3', 'm.0:4:2', 'm:0', 'n.2', 'n.2:4', 'mm.1']
TINY = ['g', 'rgb', 'm.0', 'm.1', 'm:2', 'n.2', 'm.2:4', 'k']
CODES['m.2:4'] = ['m.2', 'm.3']
CODES['k'] = ['k']
CODES['n.1'] = ['n.1']


def expand(codes):
    return [n for c in codes for n in CODES[c]]


def dedup(seq):
    return list(dict.fromkeys(seq))


def eq(got, want, what):
    if got != want:
        raise Violation(f'{what}: {got!r} but expected {want!r}')


def describe(s):
    return [list(s.parsed), s.spec, s.numel(), list(s.sizes()), list(s.as_list()), list(s.as_oset()), s.as_set()]


def make(codes, how):
    from delayed_image.channel_spec import FusedChannelSpec, ChannelSpec
    spec = '|'.join(codes)
    if how == 'parse':
        return FusedChannelSpec.parse(spec)
    if how == 'coerce':
        return FusedChannelSpec.coerce(spec)
    if how == 'from_spec':
        return FusedChannelSpec.from_spec(spec)
    if how == 'list':
        return FusedChannelSpec.coerce(list(codes))
    if how == 'init':
        return FusedChannelSpec(list(codes))
    if how == 'self':
        return FusedChannelSpec.coerce(FusedChannelSpec(list(codes)))
    if how == 'chan':
        return FusedChannelSpec.coerce(ChannelSpec.coerce(spec))
    if how == 'concat':
        return FusedChannelSpec.concat([FusedChannelSpec([c]) for c in codes])
    if how == 'pickle':
        return pickle.loads(pickle.dumps(FusedChannelSpec(list(codes))))
    raise KeyError(how)


HOWS = ['parse', 'coerce', 'from_spec', 'list', 'init', 'self', 'chan', 'concat', 'pickle']


def check_value(s, codes, what):
    want = expand(codes)
    spec = '|'.join(codes)
    eq(list(s.parsed), list(codes), f'{what}: codes')
    eq(s.spec, spec, f'{what}: printed')
    eq(list(s.code_list()), list(codes), f'{what}: code_list')
    eq(list(s.as_list()), want, f'{what}: as_list')
    eq(list(s.to_list()), want, f'{what}: to_list')
    eq(list(s.as_oset()), dedup(want), f'{what}: as_oset')
    eq(s.as_set(), set(want), f'{what}: as_set')
    eq(s.numel(), len(want), f'{what}: numel')
    eq(list(s.sizes()), [len(CODES[c]) for c in codes], f'{what}: sizes')
    eq(s.unique(), set(codes), f'{what}: unique')
    eq(str(s), f'<FusedChannelSpec({spec})>', f'{what}: str')
    eq(s.__json__(), spec, f'{what}: json')


def LOST(codes):
    """known finding, decided by family component_indices: slices count as one channel"""
    return any(':' in c and len(CODES.get(c, ())) != 1 for c in codes)


def run_one(case):
    how, codes = case
    from delayed_image.channel_spec import ChannelSpec, FusedChannelSpec
    want = expand(codes)
    spec = '|'.join(codes)
    s = make(codes, how)
    if how == 'chan' and not codes:
        codes = []
    check_value(s, codes, how)
    # again, now that everything is memoized
    check_value(s, codes, how + ' again')
    n = s.normalize()
    check_value(s, codes, how + ' after normalize')
    eq(list(n.parsed), want, 'normalize')
    eq(n.spec, '|'.join(want), 'normalize spec')
    eq(n.numel(), len(want), 'normalize numel')
    eq(list(n.sizes()), [1] * len(want), 'normalize sizes')
    eq(len(n), len(want), 'normalize len')
    eq(list(n.normalize().parsed), want, 'normalize twice')
    eq(list(FusedChannelSpec.parse(n.spec).as_list()), want, 'normal form reparsed')
    if n != FusedChannelSpec.parse('|'.join(want)):
        raise Violation('normal form is not equal to its own spec')
    c = s.concise()
    eq(list(c.as_list()), want, f'concise {c.spec!r}')
    eq(c.numel(), len(want), f'concise {c.spec!r} numel')
    eq(c.concise().spec, c.spec, 'concise twice')
    eq(n.concise().spec, c.spec, 'concise of the normal form')
    eq(list(FusedChannelSpec.parse(c.spec).as_list()), want, 'concise reparsed')
    # concise is no longer than any way of writing maximal runs
    runs = 0
    prev = None
    for name in want:
        root, _, i = name.partition('.')
        cur = (root, int(i)) if i else None
        if not (cur and prev and cur == (prev[0], prev[1] + 1)):
            runs += 1
        prev = cur
    eq(len(c.parsed), runs, f'concise {c.spec!r} number of codes')
    check_value(s, codes, how + ' after concise')
    # indexing works on single channels
    for i in range(-len(want), len(want)):
        eq(s[i], want[i], f'item {i}')
    for sl in (slice(None), slice(1, None), slice(None, None, -1), slice(0, -1), slice(1, 3)):
        eq(list(s[sl].as_list()), want[sl], f'slice {sl}')
    idx = list(range(len(want)))[::-1]
    eq(list(s[idx].as_list()), [want[i] for i in idx], 'index list')
    # the iteration protocol
    eq(list(s), want, 'iteration')
    # component positions
    if len(set(codes)) == len(codes):
        for axis in (0, 1, 2):
            comp = s.component_indices(axis=axis)
            eq(list(comp), list(codes), 'component_indices keys')
            p = 0
            for code in codes:
                e = p + len(CODES[code])
                if not LOST(codes):
                    eq(comp[code], tuple([slice(None)] * axis + [slice(p, e)]), f'component_indices[{code!r}]')
                p = e
    # membership is by written code
    for code in list(codes)[:2] + ['zz']:
        eq(code in s, code in codes, f'{code!r} in spec')
    # splitting into streams of one channel
    sp = s.split()
    eq([list(x.as_list()) for x in sp.streams() if x.spec], [[w] for w in want], 'split')
    eq([list(x.as_list()) for x in s.streams()], [want], 'streams')
    eq(list(s.fuse().as_list()), want, 'fuse')
    ch = ChannelSpec.coerce(s)
    eq(ch.spec, spec, 'ChannelSpec.coerce')
    eq(ch.numel(), len(want), 'ChannelSpec.coerce numel')
    # path text
    for maxlen in (None, 8, 12, 128):
        p = s.path_sanitize(maxlen=maxlen)
        if set(p) & set('|<>:?*/'):
            raise Violation(f'path {p!r}')
        if p != make(codes, 'init').path_sanitize(maxlen=maxlen):
            raise Violation('path text is not a function of the spec')
        if p and p[-1] in '. ':
            raise Violation(f'path {p!r} ends in dot or space')
        if maxlen in (None, 128):
            q = spec.replace('|', '_').replace(':', '..')
            eq(p, q, 'path text')
    check_value(s, codes, how + ' at the end')
    # a second coercion sees no trace of what happened to the first one
    check_value(FusedChannelSpec.coerce(spec), codes, 'coerced again')
    check_value(make(codes, 'init'), codes, 'fresh')
    return Outcome([core.key(codes, how)], 20)


def cases_one(codes, depth, hows):
    for d in range(depth + 1):
        for seq in itertools.product(codes, repeat=d):
            for how in hows:
                if how == 'chan' and not seq:
                    continue    # no stream at all: refused
                yield [how, list(seq)]


def run_pair(case):
    from delayed_image.channel_spec import FusedChannelSpec
    A, B, how = case
    a = FusedChannelSpec.coerce('|'.join(A))
    EA, EB = expand(A), expand(B)
    if how == 'spec':
        b = FusedChannelSpec.coerce('|'.join(B))
    elif how == 'set':
        b = set(EB)
    SB = set(EB)
    ops = {
        'difference': (lambda: a.difference(b), [x for x in dedup(EA) if x not in SB]),
        '-': (lambda: a - b, [x for x in dedup(EA) if x not in SB]),
        'intersection': (lambda: a.intersection(b), [x for x in EA if x in SB]),
        '&': (lambda: a & b, [x for x in EA if x in SB]),
    }
    if how != 'set':
        un = dedup(EA + EB)
        ops['union'] = (lambda: a.union(b), un)
        ops['|'] = (lambda: a | b, un)
    for name, (fn, want) in ops.items():
        got = fn()
        gl = list(got.as_list())
        if name in ('intersection', '&') and len(set(EA)) != len(EA):
            gl, want = dedup(gl), dedup(want)
        eq(gl, want, f'{name}')
        eq(got.numel(), len(list(got.parsed)), f'{name} numel')
        eq(got.spec, '|'.join(got.parsed), f'{name} spec')
        eq(list(got.normalize().parsed), list(got.parsed), f'{name} is normal')
        # written out and read back
        eq(list(FusedChannelSpec.parse(got.spec).as_list()), list(got.as_list()), f'{name} reparsed')
    eq(bool(a.issubset(b)), set(EA) <= SB, 'issubset')
    eq(bool(a.issuperset(b)), set(EA) >= SB, 'issuperset')
    if how == 'spec':
        eq(a == b, list(A) == list(B), '==')
        eq(a != b, list(A) != list(B), '!=')
        eq(list(FusedChannelSpec.concat([a, b]).as_list()), EA + EB, 'concat')
        check_value(b, B, 'right operand afterwards')
        # late fusion joins streams
        for name, got in (('late_fuse', a.late_fuse(b)), ('+', a + b), ('sum', sum([a, b]))):
            st = [list(x.as_list()) for x in got.streams()]
            wa, wb = '|'.join(A), '|'.join(B)
            want = [expand(x) for x, t in ((A, wa), (B, wb)) if t] or [[]]
            eq(st, want, name)
    check_value(a, A, 'left operand afterwards')
    return Outcome([core.key(A, B)], 10)


def cases_pair(codes, depth, hows):
    specs = [list(s) for d in range(depth + 1) for s in itertools.product(codes, repeat=d)]
    for a in specs:
        for b in specs:
            for how in hows:
                yield [a, b, how]


def run_slice(case):
    """One slice code: root + text; the list is computed by a python range."""
    from delayed_image.channel_spec import FusedChannelSpec
    sep, start, stop, step = case
    args = [x for x in (start, stop, step) if x is not None]
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
        code = f'q{sep}{args[0]}' if sep == ':' else f'q.:{args[0]}'
    else:
        lo, hi, st = start, stop, step or 1
        code = 'q' + sep + ':'.join(map(str, args))
    s = FusedChannelSpec.parse(code)
    want = [f'q.{i}' for i in range(lo, hi, st)]
    eq(list(s.as_list()), want, code)
    eq(s.numel(), len(want), f'{code} numel')
    eq(list(s.concise().as_list()), want, f'{code} concise')
    eq(s.sizes(), [len(want)], f'{code} sizes')
    if len(want) == 1:
        eq(s.component_indices()[code][-1], slice(0, len(want)), f'{code} component_indices')
    return Outcome([core.key(case)], 3)


def cases_slice(n):
    for sep in '.:':
        for stop in range(0, n + 1):
            yield [sep, None, stop, None]
            for start in range(0, n + 1):
                yield [sep, start, stop, None]
                for step in (1, 2, 3, -1, -2):
                    yield [sep, start, stop, step]


def run_int(case):
    from delayed_image.channel_spec import ChannelSpec, FusedChannelSpec
    n, = case
    want = [f'u{i}' for i in range(n)]
    for _ in range(2):
        eq(list(FusedChannelSpec.coerce(n).as_list()), want, 'coerce int')
        eq(FusedChannelSpec.coerce(n).numel(), n, 'coerce int numel')
        eq(FusedChannelSpec.coerce(n).spec, '|'.join(want), 'coerce int spec')
        eq(ChannelSpec.coerce(n).spec, '|'.join(want), 'ChannelSpec int')
    return Outcome([core.key(case)], 1)


BAD = ['q:', 'q.::', 'q:0.10', 'q.1:', 'q:1:', 'q.a:3', 'q.1:2:3:4', 'q.1.2:3', 'q:x']


# --------------------------------------------- where known findings are reported
def run_compidx(case):
    from delayed_image.channel_spec import FusedChannelSpec
    codes, axis = case
    comp = FusedChannelSpec.coerce('|'.join(codes)).component_indices(axis=axis)
    p = 0
    for code in codes:
        e = p + len(CODES[code])
        eq(comp[code], tuple([slice(None)] * axis + [slice(p, e)]), f'component_indices[{code!r}]')
        p = e
    return Outcome([core.key(case)], 1)


def run_pickle_used(case):
    codes, use = case
    s = make(codes, 'init')
    for name in use:
        getattr(s, name)()
    check_value(pickle.loads(pickle.dumps(s)), codes, f'pickled after {use}')
    return Outcome([core.key(case)], 1)


def run_fuse_str(case):
    from delayed_image.channel_spec import FusedChannelSpec
    A, B = case
    got = FusedChannelSpec.coerce('|'.join(A)).late_fuse('|'.join(B))
    gs = got if isinstance(got, str) else got.spec
    eq(gs, ','.join(x for x in ('|'.join(A), '|'.join(B)) if x), 'late_fuse with a string')
    return Outcome([core.key(case)], 1)


def cases_compidx():
    codes = ['r', 'rgb', 'm.1', 'm:1', 'm:2', 'm.1:3']
    for d in (1, 2, 3):
        for seq in itertools.permutations(codes, d):
            yield [list(seq), 0 if d > 1 else 1]


def cases_pickle_used():
    for codes in (['r'], ['rgb'], ['m:2', 'k']):
        for n in (0, 1, 2):
            for use in itertools.permutations(['normalize', 'as_list', 'as_set', 'numel'], n):
                yield [list(codes), list(use)]


def cases_fuse_str():
    specs = [[], ['r'], ['rgb', 'm:2']]
    for a in specs:
        for b in specs:
            yield [a, b]


def run_bad(case):
    """Malformed slices are refused, wherever they stand."""
    from delayed_image.channel_spec import FusedChannelSpec
    codes, = case
    for fn in ('normalize', 'numel', 'sizes', 'as_list', 'concise'):
        s = FusedChannelSpec.parse('|'.join(codes))
        try:
            got = getattr(s, fn)()
        except ValueError:
            continue
        raise Violation(f'{fn}: {codes} accepted as {got}')
    for junk in (None, 1.5, object()):
        try:
            FusedChannelSpec.coerce(junk)
        except TypeError:
            continue
        raise Violation(f'coerce accepted {junk!r}')
    try:
        from delayed_image.channel_spec import ChannelSpec
        FusedChannelSpec.coerce(ChannelSpec('a,b'))
    except ValueError:
        pass
    else:
        raise Violation('several streams coerced to one')
    return Outcome([core.key(case)], 5)


def cases_bad():
    for b in BAD:
        yield [[b]]
        yield [['a', b]]
        yield [[b, 'rgb']]


def families(tier):
    th = tier == 'thorough'
    F = Family
    fams = [
        F('one', lambda: cases_one(list(CODES), 2, HOWS), run_one,
          f'all sequences of up to 2 of {len(CODES)} codes, nine constructors'),
        F('three', lambda: cases_one(SMALL if th else TINY, 3, ['coerce', 'init']), run_one, 'sequences of up to 3 codes'),
        F('pair', lambda: cases_pair(SMALL if th else TINY, 2, ['spec', 'set']), run_pair,
          'all pairs of specs of up to 2 codes'),
        F('slice', lambda: cases_slice(9 if th else 6), run_slice, 'all slices with bounds in 0..6 (thorough 9), steps -2..3'),
        F('int', lambda: ([n] for n in range(0, 70)), run_int, 'widths 0..69'),
        F('component_indices', cases_compidx, run_compidx, 'up to 3 of 6 codes'),
        F('pickle_used', cases_pickle_used, run_pickle_used, 'three specs, up to 2 calls before'),
        F('fuse_str', cases_fuse_str, run_fuse_str, 'three specs'),
        F('bad', cases_bad, run_bad, 'malformed codes'),
    ]
    if th:
        fams.append(F('four', lambda: cases_one(TINY, 4, ['coerce']), run_one, 'sequences of up to 4 codes'))
        fams.append(F('five', lambda: cases_one(['m.0', 'm.1', 'm.2', 'n.1', 'm:2', 'k', 'rgb'], 5, ['init']), run_one,
                      'sequences of up to 5 codes'))
    return fams
