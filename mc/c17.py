"""C17: multi-stream channel specs against a model of lists of lists of names."""
import itertools
import pickle

import numpy as np

from mc import core
from mc.c16 import CODES, dedup, eq, expand
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

# codes whose channels do not overlap, so a stream never repeats a channel
CODES.setdefault('d', ['d'])
CODES.setdefault('m.4', ['m.4'])


def text(streams):
    return ','.join('|'.join(s) for s in streams)


def make(streams, how):
    from delayed_image.channel_spec import ChannelSpec, FusedChannelSpec
    spec = text(streams)
    if how == 'coerce':
        return ChannelSpec.coerce(spec)
    if how == 'from_spec':
        return ChannelSpec.from_spec(spec)
    if how == 'self':
        return ChannelSpec.coerce(ChannelSpec(spec))
    if how == 'sum':
        return sum([ChannelSpec.coerce('|'.join(s)) for s in streams])
    if how == 'fuse':
        new = FusedChannelSpec.coerce('|'.join(streams[0]))
        for s in streams[1:]:
            new = new + FusedChannelSpec.coerce('|'.join(s))
        return ChannelSpec.coerce(new)
    if how == 'pickle':
        s = ChannelSpec.coerce(spec)
        s.normalize(), s.sizes(), s.unique(), s.streams()[0].as_list()
        return pickle.loads(pickle.dumps(s))
    raise KeyError(how)


HOWS = ['coerce', 'from_spec', 'self', 'sum', 'fuse', 'pickle']


def lists(spec):
    return [list(s.as_list()) for s in spec.streams()]


def check_value(s, streams, what):
    spec = text(streams)
    keys = ['|'.join(x) for x in streams]
    want = [expand(x) for x in streams]
    eq(s.spec, spec, f'{what}: spec')
    eq(s.__json__(), spec, f'{what}: json')
    eq(str(s), f'<ChannelSpec({spec})>', f'{what}: str')
    eq(list(s.keys()), keys, f'{what}: keys')
    eq(lists(s), want, f'{what}: streams')
    eq([x.spec for x in s.streams()], keys, f'{what}: stream specs')
    eq({k: list(v.as_list()) for k, v in s.parse().items()}, dict(zip(keys, want)), f'{what}: parse')
    eq([k for k, v in s.items()], keys, f'{what}: items')
    eq([list(v.parsed) for v in s.values()], [list(x) for x in streams], f'{what}: values')
    eq(s.sizes(), {k: len(w) for k, w in zip(keys, want)}, f'{what}: sizes')
    eq(s.numel(), sum(map(len, want)), f'{what}: numel')
    eq(s.unique(), {n for w in want for n in w}, f'{what}: unique')
    for n in {n for w in want for n in w} | {'zz', 'rgb'}:
        eq(n in s, any(n in w for w in want), f'{what}: {n!r} in spec')
    eq(list(s.fuse().as_list()), [n for w in want for n in w], f'{what}: fuse')
    eq(s.info['spec'], spec, f'{what}: info')
    eq(s.info['unique'], s.unique(), f'{what}: info unique')


def run_one(case):
    how, streams = case
    from delayed_image.channel_spec import ChannelSpec
    s = make(streams, how)
    want = [expand(x) for x in streams]
    check_value(s, streams, how)
    n = s.normalize()
    distinct = len(set(map(tuple, want))) == len(want)
    if distinct:
        eq(lists(n), want, 'normalize')
        eq(n.spec, ','.join('|'.join(w) for w in want), 'normalize spec')
        eq(n.sizes(), {'|'.join(w): len(w) for w in want}, 'normalize sizes')
    else:
        eq(set(map(tuple, lists(n))), set(map(tuple, want)), 'normalize as a set')
    eq(n.normalize().spec, n.spec, 'normalize twice')
    eq(lists(ChannelSpec.coerce(n.spec)), lists(n), 'normal form reparsed')
    c = s.concise()
    if distinct:
        eq(lists(c), want, f'concise {c.spec!r}')
        eq(c.numel(), sum(map(len, want)), f'concise {c.spec!r} numel')
    else:
        eq(set(map(tuple, lists(c))), set(map(tuple, want)), 'concise as a set')
    eq(c.concise().spec, c.spec, 'concise twice')
    eq(n.concise().spec, c.spec, 'concise of normal')
    eq(lists(ChannelSpec.coerce(c.spec)), lists(c), 'concise reparsed')
    sp = s.split()
    eq(lists(sp), [[x] for w in want for x in w], 'split')
    if len(streams) == 1:
        eq(list(s.code_list().parsed), list(streams[0]), 'code_list')
    else:
        try:
            s.code_list()
        except Exception:
            pass
        else:
            raise Violation('code_list of several streams')
    for axis in (0, 1, 2):
        comp = s.component_indices(axis=axis)
        eq(set(comp), {c for x in streams for c in x}, 'component_indices keys')
        for code, (key, index) in comp.items():
            full = expand(key.split('|')) if key else []
            eq(len(index), axis + 1, 'component index rank')
            if any(i != slice(None) for i in index[:-1]):
                raise Violation(f'component_indices {code}: {index}')
            eq(full[index[-1]], CODES[code], f'component_indices {code}: {index}')
            if code not in key.split('|'):
                raise Violation(f'component_indices {code} -> {key}')
    p = s.path_sanitize()
    eq(p, make(streams, 'coerce').path_sanitize(), 'path')
    if len(p) > 128 or set(p) & set('|:<>?*/'):
        raise Violation(f'path {p!r}')
    check_value(s, streams, how + ' at the end')
    check_value(ChannelSpec.coerce(text(streams)), streams, 'coerced again')
    return Outcome([core.key(case)], 20)


# ------------------------------------------------------------ encode/decode
def channel(name, shape, axis):
    import zlib
    rng = zlib.crc32(name.encode()) % 9973
    shp = list(shape)
    shp.insert(axis, 1)
    n = int(np.prod(shp))
    return (np.arange(n, dtype=np.float64) + rng * 100).reshape(shp)


def block(codes, shape, axis):
    names = expand(codes)
    if not names:
        shp = list(shape)
        shp.insert(axis, 0)
        return np.zeros(shp)
    return np.concatenate([channel(n, shape, axis) for n in names], axis=axis)


def run_codec(case):
    streams, groups, axis, mode = case
    from delayed_image.channel_spec import ChannelSpec
    s = ChannelSpec.coerce(text(streams))
    shape = (2, 3)
    item = {'|'.join(g): block(g, shape, axis) for g in groups}
    before = {k: v.copy() for k, v in item.items()}
    results = []
    for _ in range(2):                      # the second call hits the caches
        enc = s.encode(item, axis=axis, mode=mode)
        eq(set(enc), {'|'.join(x) for x in streams}, 'encoded keys')
        for x in streams:
            got = enc['|'.join(x)]
            want = block(x, shape, axis)
            if got.shape != want.shape or not np.array_equal(got, want):
                raise Violation(f'encode stream {x}: got {got.tolist()} expected {want.tolist()}')
        dec = s.decode(enc, axis=axis)
        eq(set(dec), {c for x in streams for c in x}, 'decoded keys')
        for code, got in dec.items():
            want = block([code], shape, axis)
            if got.shape != want.shape or not np.array_equal(got, want):
                raise Violation(f'decode {code}: got {got.tolist()} expected {want.tolist()}')
        again = s.encode(dec, axis=axis, mode=mode)
        for k in enc:
            if not np.array_equal(again[k], enc[k]):
                raise Violation(f'encode(decode(x)) differs for {k}')
        results.append({k: v.tolist() for k, v in enc.items()})
    # indices point at the same data
    for code, (key, index) in s.component_indices(axis=axis).items():
        if not np.array_equal(enc[key][index], block([code], shape, axis)):
            raise Violation(f'component_indices {code} do not select it')
    # a batch is decoded along the next axis
    batch = {k: np.stack([v, v + .5]) for k, v in enc.items()}
    for code, got in s.decode(batch, axis=axis + 1).items():
        w = block([code], shape, axis)
        if not np.array_equal(got, np.stack([w, w + .5])):
            raise Violation(f'decode of a batch: {code}')
    for k, v in before.items():
        if not np.array_equal(item[k], v):
            raise Violation(f'the item was changed: {k}')
    demo = s._demo_item(shape, rng=0)
    eq({k: v.shape for k, v in demo.items()},
       {c: (len(CODES[c]),) + shape for x in streams for c in x}, 'demo item')
    return Outcome([core.key(case)], 6)


def partitions(codes):
    """all ways to group an ordered list of codes into consecutive keys"""
    if not codes:
        yield []
        return
    for i in range(1, len(codes) + 1):
        for rest in partitions(codes[i:]):
            yield [codes[:i]] + rest


def all_streams(codes, maxlen):
    for n in range(1, maxlen + 1):
        for p in itertools.permutations(codes, n):
            names = expand(p)
            if len(set(names)) == len(names):
                yield list(p)


def cases_one(codes, maxlen, nstreams, hows):
    st = list(all_streams(codes, maxlen))
    for n in range(1, nstreams + 1):
        for combo in itertools.permutations(st, n):
            for how in hows:
                yield [how, [list(x) for x in combo]]


def cases_codec(codes, maxlen, nstreams, axes):
    st = list(all_streams(codes, maxlen))
    for n in range(1, nstreams + 1):
        for combo in itertools.permutations(st, n):
            used = dedup([c for x in combo for c in x])
            # the item may hold the codes in any order and grouping
            orders = [used, used[::-1], sorted(used)]
            seen = set()
            for order in orders:
                for groups in partitions(order):
                    k = str(groups)
                    if k in seen:
                        continue
                    seen.add(k)
                    for axis in axes:
                        for mode in (1, 0):
                            if mode == 0 and any(len(x) > 1 or ':' in c for c, x in
                                                 ((c, CODES[c]) for y in combo for c in y)):
                                continue    # known finding, see family mode0
                            yield [[list(x) for x in combo], [list(g) for g in groups], axis, mode]


# --------------------------------------------- where known findings are reported
def cases_mode0():
    for codes in (['rgb'], ['m:1'], ['m.1:3', 'k'], ['dxdy']):
        for axis in (0, 1, 2):
            yield [[codes], [[c] for c in codes], axis, 0]
    yield [[['rgb'], ['k', 'm.1:3']], [['k'], ['m.1:3'], ['rgb']], 0, 0]


def run_fuse_str(case):
    from delayed_image.channel_spec import ChannelSpec
    A, B = case
    got = ChannelSpec.coerce(text(A)).late_fuse(text(B))
    eq(lists(got), [expand(x) for x in A + B], 'late_fuse with a string')
    return Outcome([core.key(case)], 1)


def cases_fuse_str():
    specs = [[['r']], [['rgb', 'm:2']], [['d'], ['k']]]
    for a in specs:
        for b in specs:
            if a != b:
                yield [a, b]


# --------------------------------------------------------------------- sets
def run_pair(case):
    from delayed_image.channel_spec import ChannelSpec
    A, B, how = case
    a = ChannelSpec.coerce(text(A))
    EA, EB = [expand(x) for x in A], [expand(x) for x in B]
    flat = {n for w in EB for n in w}
    if how == 'spec':
        b = ChannelSpec.coerce(text(B))
    elif how == 'str':
        b = text(B)
    elif how == 'set':
        b = set(flat)
    dif = [y for y in ([n for n in w if n not in flat] for w in EA) if y]
    inter = [y for y in ([n for n in w if n in flat] for w in EA) if y]
    checks = [('difference', a.difference(b), dif), ('-', a - b, dif),
              ('intersection', a.intersection(b), inter), ('&', a & b, inter)]
    if how != 'set':
        checks += [('union', a.union(b), EA + EB), ('|', a | b, EA + EB)]
    if how == 'spec':
        checks += [('late_fuse', a.late_fuse(b), EA + EB), ('+', a + b, EA + EB), ('sum', sum([a, b]), EA + EB)]
    for name, got, want in checks:
        gl = [w for w in lists(got) if w]
        if name in ('union', '|'):
            gl, want = dedup(map(tuple, gl)), dedup(map(tuple, want))
        eq(gl, want, name)
        if name not in ('union', '|') and len(set(map(tuple, want))) == len(want):
            eq(got.numel(), sum(map(len, want)), f'{name} numel')
    check_value(a, A, 'left operand afterwards')
    if how == 'spec':
        check_value(b, B, 'right operand afterwards')
    return Outcome([core.key(case)], 8)


def cases_pair(codes, maxlen, nstreams):
    st = list(all_streams(codes, maxlen))
    specs = [[list(x) for x in c] for n in range(1, nstreams + 1)
             for c in itertools.permutations(st, n)
             if len({tuple(expand(x)) for x in c}) == n]
    for a in specs:
        for b in specs:
            for how in ('spec', 'str', 'set'):
                yield [a, b, how]


C1 = ['r', 'rgb', 'd', 'm:2', 'm.1:3', 'dxdy']
C2 = ['rgb', 'd', 'm.1:3', 'm:1', 'k']
C3 = ['rgb', 'd', 'm:2', 'm.2']
CODES.setdefault('m.2', ['m.2'])


def families(tier):
    th = tier == 'thorough'
    F = Family
    return [
        F('mode0', cases_mode0, run_codec, 'encoding with mode 0'),
        F('fuse_str', cases_fuse_str, run_fuse_str, 'pairs of three specs'),
        F('one', lambda: cases_one(C1, 3 if th else 2, 2, HOWS), run_one, 'up to two streams of up to 2 (thorough 3) of 6 codes'),
        F('three', lambda: cases_one(C3, 2, 3, ['coerce', 'sum']), run_one, 'three streams'),
        F('codec', lambda: cases_codec(C2, 3 if th else 2, 2, (0, 1, 2)), run_codec,
          'up to two streams, every consecutive grouping of the item in three orders, three axes, both modes'),
        F('codec3', lambda: cases_codec(C3[:3], 3, 3 if th else 2, (0,)), run_codec, 'longer streams'),
        F('pair', lambda: cases_pair(['r', 'rgb', 'm:2', 'm.1'], 2, 2 if th else 1), run_pair, 'all pairs of specs'),
        F('pair2', lambda: cases_pair(['r', 'rgb', 'm:2', 'd'] if th else ['r', 'rgb', 'd'], 1, 3), run_pair, 'all pairs of specs of single codes'),
    ]
