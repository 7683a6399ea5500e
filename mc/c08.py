"""C08: crops follow array slicing; unclipped crops pad with the missing value."""
import itertools

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'
H, W = 4, 5


def make(kind, named=True):
    from delayed_image import DelayedChannelConcat, DelayedIdentity, DelayedLoad
    yy, xx, cc = np.mgrid[0:H, 0:W, 0:3]
    data = 1. + xx + 10 * yy + 60 * cc
    dt = {'f4': np.float32, 'f8': np.float64, 'u8': np.uint8, 'i16': np.int16}[kind.split('_')[-1]]
    data = data.astype(dt)
    spec = 'x|y|z' if named else None
    if kind.startswith('file'):
        p = pipe.fixture(f'c08_{kind}.tif', lambda p: pipe.write_tif(p, data))
        return DelayedLoad(p, channels=spec).prepare(), data
    if kind.startswith('cat'):
        a = DelayedIdentity(data[:, :, :2], channels='x|y' if named else None)
        b = DelayedIdentity(data[:, :, 2:], channels='z' if named else None)
        return DelayedChannelConcat([a, b]), data
    if kind.startswith('half'):
        # an identity warp in between
        a = DelayedIdentity(data, channels=spec)
        return a.warp({'offset': (0, 0)}, dsize=(W, H)), data
    return DelayedIdentity(data, channels=spec), data


def check(node, want, what):
    shape = tuple(node.shape)
    if shape != want.shape:
        raise Violation(f'{what}: declared shape {shape}, expected {want.shape}')
    if tuple(node.dsize) != want.shape[1::-1]:
        raise Violation(f'{what}: dsize {node.dsize}')
    ks = []
    for opt in (True, False):
        got = node.finalize(optimize=opt)
        if got.shape != want.shape:
            raise Violation(f'{what}: optimize={opt} shape {got.shape}, expected {want.shape}')
        if not np.array_equal(got, want, equal_nan=True):
            raise Violation(f'{what}: optimize={opt} wrong values\n{got.tolist()}\n{want.tolist()}'[:900])
        ks.append(core.key(got))
    return ks


def sl(p):
    return slice(*p)


def run_crops(case):
    """[kind, [ [y, x, chans|None, how], ...]]"""
    kind, ops = case
    node, want = make(kind.rstrip('?'), not kind.endswith('?'))
    for y, x, ch, how in ops:
        cidx = None if ch is None else (sl(ch) if isinstance(ch[0], list) is False and how == 'slice' else list(ch))
        if how == 'item':
            node = node[sl(y), sl(x)] if ch is None else node[sl(y), sl(x), cidx]
        elif how == 'lazy':
            node = node.crop((sl(y), sl(x)), cidx, lazy=True)
        else:
            node = node.crop((sl(y), sl(x)), cidx)
        want = want[sl(y), sl(x)]
        if ch is not None:
            want = want[:, :, cidx]
    return Outcome(check(node, want, 'crop'), 2 * len(ops), 2)


def padded(arr, y, x, pad, fill):
    """The reference: a window on an endless canvas of fill."""
    h, w, c = arr.shape
    if isinstance(pad, int):
        pad = [pad, pad]
    pad = [[p, p] if isinstance(p, int) else p for p in pad]
    y0 = (0 if y[0] is None else y[0]) - pad[0][0]
    y1 = (h if y[1] is None else y[1]) + pad[0][1]
    x0 = (0 if x[0] is None else x[0]) - pad[1][0]
    x1 = (w if x[1] is None else x[1]) + pad[1][1]
    out = np.full((y1 - y0, x1 - x0, c), fill, dtype=arr.dtype)
    a0, a1 = max(y0, 0), min(y1, h)
    b0, b1 = max(x0, 0), min(x1, w)
    if a0 < a1 and b0 < b1:
        out[a0 - y0:a1 - y0, b0 - x0:b1 - x0] = arr[a0:a1, b0:b1]
    return out


def run_padded(case):
    """[kind, [[mode, y, x, pad, chans], ...]]  mode: p = padded, c = plain"""
    kind, ops = case
    node, want = make(kind)
    fill = np.nan if want.dtype.kind == 'f' else 0
    for mode, y, x, pad, ch in ops:
        if mode == 'p':
            pd = pad if isinstance(pad, int) else [tuple(q) if isinstance(q, list) else q for q in pad]
            node = node.crop((sl(y), sl(x)), ch, clip=False, wrap=False, pad=pd)
            want = padded(want, y, x, pad, fill)
        else:
            node = node.crop((sl(y), sl(x)), ch)
            want = want[sl(y), sl(x)]
        if ch is not None:
            want = want[:, :, ch]
    return Outcome(check(node, want, 'padded crop'), 2 * len(ops), 2)


def run_refuse(case):
    """Modes that are documented as not implemented must be refused."""
    kind, clip, wrap, pad = case
    node, _ = make(kind)
    try:
        got = node.crop((slice(0, 2), slice(0, 2)), clip=clip, wrap=wrap, pad=pad)
    except NotImplementedError:
        return Outcome([core.key(case)], 1)
    raise Violation(f'a half unclipped crop was accepted: {got}')


def spans(n, lo=None, hi=None):
    vals = [None] + list(range(-n - 2 if lo is None else lo, (n + 2 if hi is None else hi) + 1))
    return [[a, b] for a in vals for b in vals]


FEW = [[None, None], [1, 3], [-2, None], [0, 50], [3, 3]]


def cases_single(kinds):
    for k in kinds:
        for y in spans(H):
            for x in FEW:
                yield [k, [[y, x, None, 'crop']]]
        for x in spans(W):
            for y in FEW:
                yield [k, [[y, x, None, 'item']]]
        for y, x in itertools.product(FEW, FEW):
            for ch in ([0], [2, 1], [1, 1], [0, 1, 2]):
                for how in ('crop', 'item', 'lazy'):
                    yield [k, [[y, x, ch, how]]]
            for ch in ([0, 2], [1, None], [None, None], [-1, None]):
                yield [k, [[y, x, ch, 'slice']]]
            yield [k, [[y, x, None, 'lazy']]]


def cases_nested(kinds, depth):
    ops = [[[1, None], [None, 3], None, 'crop'], [[None, -1], [1, 99], None, 'item'],
           [[0, 2], [-3, -1], None, 'crop'], [[None, None], [None, None], [2, 0], 'crop'],
           [[1, 2], [2, 3], [0], 'item'], [[-9, 3], [-4, None], None, 'crop'],
           [[2, 2], [0, 3], None, 'crop'], [[None, None], [None, None], None, 'lazy'],
           [[0, 4], [0, 5], None, 'lazy']]
    for k in kinds:
        for d in range(2, depth + 1):
            for seq in itertools.product(ops, repeat=d):
                # band selection must stay in range: simulate
                n = 3
                ok = True
                for o in seq:
                    if o[2] is not None:
                        ok &= max(o[2]) < n
                        n = len(o[2])
                if ok:
                    yield [k, [list(o) for o in seq]]


def ranges(lo, hi):
    return [[a, b] for a in list(range(lo, hi + 1)) + [None] for b in list(range(lo, hi + 1)) + [None]]


def valid(y, n):
    a = 0 if y[0] is None else y[0]
    b = n if y[1] is None else y[1]
    return a < b


def cases_padded(kinds, pads, wide):
    ys = [y for y in ranges(-3, H + 3) if valid(y, H)]
    xs = [[None, None], [-2, 3], [1, 7], [1, 4], [-4, -1], [6, 8], [-1, 6]]
    for k in kinds:
        for pad in pads:
            for y in ys:
                for x in (xs if wide else xs[:3]):
                    yield [k, [['p', y, x, pad, None]]]
            for x in [x for x in ranges(-3, W + 3) if valid(x, W)]:
                yield [k, [['p', [1, 3], x, pad, None]]]


def cases_padded_nested(kinds):
    P = [['p', [-2, 3], [-1, 4], 0, None], ['p', [1, 6], [2, 8], 0, None],
         ['p', [None, None], [None, None], 1, None], ['p', [1, 3], [1, 4], [[1, 0], [0, 2]], None],
         ['p', [0, 2], [1, 3], 0, None], ['p', [-1, 5], [0, 3], 1, [1, 0]], ['p', [5, 7], [0, 3], 0, None],
         ['c', [1, None], [None, -1], 0, None], ['c', [None, None], [1, 3], 0, [1, 0]]]
    for k in kinds:
        for a in P:
            yield [k, [a]]
            for b in P:
                yield [k, [a, b]]
                for c in P[:4] + P[7:8]:
                    yield [k, [a, b, c]]


def in_range(cases):
    for k, ops in cases:
        n = 3
        ok = True
        for o in ops:
            if o[4] is not None:
                ok &= max(o[4]) < n
                n = len(o[4])
        if ok:
            yield [k, ops]


def families(tier):
    th = tier == 'thorough'
    F = Family
    kinds = ['id_f4', 'file_u8', 'cat_f4', 'id_u8?', 'half_f8']
    pads = [0, 1, [[1, 0], [0, 2]], [2, 1]]
    fams = [
        F('single', lambda: cases_single(kinds), run_crops,
          'every y bound pair in -n-2..n+2 and missing x 5 x spans, and vice versa; band selections; three call forms'),
        F('nested', lambda: cases_nested(['id_f4', 'file_u8', 'cat_f4'], 4 if th else 3), run_crops,
          'all sequences of up to 3 (thorough 4) of 9 crops'),
        F('padded', lambda: cases_padded(['id_f4', 'file_f4', 'cat_f4', 'id_u8', 'file_i16'] if th else
                                         ['id_f4', 'file_f4', 'id_u8'], pads, th), run_padded,
          'every unclipped y span in -3..n+3 x spans, four paddings'),
        F('padded_nested', lambda: in_range(cases_padded_nested(
            ['id_f4', 'cat_f4', 'file_i16'] + (['id_f8', 'half_f4', 'id_u8'] if th else []))), run_padded,
          'all sequences of up to three padded and plain crops'),
        F('refused', lambda: [['id_f4', c, w, p] for c in (True, False) for w in (True, False) for p in (0, 1)
                              if (c or w) and (not c or not w or p)], run_refuse, 'documented refusals'),
    ]
    if th:
        fams.append(F('product', lambda: ([k, [[y, x, None, 'crop']]] for k in ('id_f4', 'file_u8')
                                          for y in spans(H) for x in spans(W)), run_crops,
                      'full product of bounds'))
    return fams
