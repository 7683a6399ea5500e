"""C09: channel selection returns the requested channels in order.

Model: an image is a list of (name, plane); plane None is an all-missing band."""
import itertools

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'
H, W = 4, 6
POS = {n: i for i, n in enumerate('abcdefgh')}


def plane(k, dtype=np.float32):
    yy, xx = np.mgrid[0:H, 0:W]
    return (100 * (k + 1) + 10 * yy + xx).astype(dtype)


def stack(ks):
    return np.stack([plane(k) for k in ks], -1)


def make(kind):
    """-> node, [(name, plane)]"""
    from delayed_image import (DelayedChannelConcat, DelayedIdentity,
                               DelayedLoad, DelayedNans)

    def ident(names, ks=None, spec=None):
        ks = ks if ks is not None else [POS[n] for n in names]
        n = DelayedIdentity(stack(ks), channels=spec or '|'.join(names))
        return n, [(a, plane(k)) for a, k in zip(names, ks)]

    def load(names, ks):
        p = pipe.fixture('c09_' + ''.join(map(str, ks)) + '.tif',
                         lambda p: pipe.write_tif(p, stack(ks)))
        n = DelayedLoad(p, channels='|'.join(names)).prepare()
        return n, [(a, plane(k)) for a, k in zip(names, ks)]

    def cat(*xs):
        return DelayedChannelConcat([x[0] for x in xs]), [m for x in xs for m in x[1]]

    if kind == 'leaf':
        return ident('abc')
    if kind == 'file':
        return load('abc', [0, 1, 2])
    if kind == 'cat2':
        return cat(ident('ab'), load('cd', [2, 3]))
    if kind == 'cat3':
        return cat(ident('a'), ident('bc'), ident('d'))
    if kind == 'catcat':
        return cat(cat(ident('a'), ident('b')), ident('cd'))
    if kind == 'catnan':
        return cat(ident('ab'), (DelayedNans((W, H), channels='c'), [('c', None)]), ident('d'))
    if kind == 'cattake':
        n, m = load('abc', [0, 1, 2])
        return cat((n[:, :, [2, 0]], [m[2], m[0]]), ident('d'))
    if kind == 'catwarp':
        n, m = ident('ab')
        return cat((n.warp({'offset': (0, 0)}, dsize=(W, H)), m), ident('c'))
    if kind == 'same':
        # one node appears twice under different selections
        n, m = ident('abc')
        return cat((n[:, :, [0]], [m[0]]), (n[:, :, [2, 1]], [m[2], m[1]]))
    if kind == 'range':
        names = [f'f.{i}' for i in range(4)] + ['a']
        return ident(names, [0, 1, 2, 3, 4], 'f.0:4|a')
    if kind == 'catrange':
        r = make('range')
        return cat(r, ident('d'))
    if kind == 'nans':
        return DelayedNans((W, H), channels='a|b|c'), [(n, None) for n in 'abc']
    if kind == 'anon':
        n = DelayedIdentity(stack([0, 1, 2]))
        return n, [(None, plane(k)) for k in range(3)]
    if kind == 'catanon':
        a = DelayedIdentity(stack([0, 1]))
        b = DelayedIdentity(stack([2]))
        return DelayedChannelConcat([a, b]), [(None, plane(k)) for k in range(3)]
    if kind == 'single':
        return ident('a')
    raise KeyError(kind)


def expand(code):
    """Independent expansion of a code string."""
    out = []
    for part in code.split('|'):
        if ':' in part:
            root, _, rng = part.rpartition('.')
            nums = [int(v) for v in rng.split(':')]
            out += [f'{root}.{i}' for i in range(*nums)]
        else:
            out.append(part)
    return out


def apply_sel(node, model, sel, policy=None):
    from delayed_image import ChannelSpec, FusedChannelSpec
    kw = {} if policy is None else {'missing_channel_policy': policy}
    how, arg = sel
    if how == 'str':
        req = arg
    elif how == 'fused':
        req = FusedChannelSpec.coerce(arg)
    elif how == 'spec':
        req = ChannelSpec.coerce(arg)
    elif how == 'list':
        req = list(arg)
    elif how == 'slice':
        req = slice(*arg)
    elif how == 'lazy':
        req = arg
        kw['lazy'] = True
    elif how == 'idx':
        new = node.crop((slice(None), slice(None)), list(arg))
        return new, [model[i] for i in arg]
    elif how == 'one':
        new = node[:, :, arg]
        return new, [model[arg]]
    elif how == 'sub':
        new = node[:, :, slice(*arg)]
        return new, model[slice(*arg)]
    elif how == 'crop':
        ys, xs = slice(*arg[0]), slice(*arg[1])
        return node.crop((ys, xs)), [(n, None if p is None else p[ys, xs]) for n, p in model]
    elif how == 'pad':
        new = node.crop((slice(-1, 3), slice(0, 4)), clip=False, wrap=False)
        out = []
        for n, p in model:
            if p is not None:
                q = np.full((4, 4), np.nan, p.dtype)
                hh, ww = min(3, p.shape[0]), min(4, p.shape[1])
                q[1:1 + hh, :ww] = p[:hh, :ww]
                p = q
            out.append((n, p))
        return new, out
    else:
        raise KeyError(how)
    if how == 'list':
        return node.take_channels(req, **kw), [model[i] for i in arg]
    if how == 'slice':
        return node.take_channels(req, **kw), model[req]
    first = {}
    for i, (n, _) in enumerate(model):
        first.setdefault(n, i)
    want = []
    for name in expand(arg):
        want.append((name, model[first[name]][1] if name in first else None))
    return node.take_channels(req, **kw), want


def check(node, model, shape_hw, what):
    names = [n for n, _ in model]
    if node.num_channels != len(model):
        raise Violation(f'{what}: num_channels {node.num_channels}, expected {len(model)}')
    if None not in names:
        spec = node.channels
        got = None if spec is None else spec.normalize().as_list()
        if got != names:
            raise Violation(f'{what}: channels {got}, expected {names}')
    want = np.stack([np.full(shape_hw, np.nan) if p is None else p for _, p in model], -1) \
        if model else np.empty(shape_hw + (0,))
    keys = []
    for opt in (True, False):
        got = node.finalize(optimize=opt)
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
            bands = [b if b == b else 'missing' for b in (got[0, 0].tolist() if got.size else [])]
            wb = [b if b == b else 'missing' for b in (want[0, 0].tolist() if want.size else [])]
            raise Violation(f'{what}: optimize={opt} shape {got.shape}/{want.shape} first pixel {bands}, expected {wb}')
        keys.append(core.key(got))
    o = node.optimize()
    if None not in names and names:
        og = o.channels.normalize().as_list() if o.channels is not None else None
        if og != names:
            raise Violation(f'{what}: optimized channels {og}, expected {names}')
    return keys


def run(case):
    kind, sels = case
    node, model = make(kind)
    hw = (H, W)
    for s in sels:
        node, model = apply_sel(node, model, s)
        if s[0] == 'crop':
            hw = (len(range(hw[0])[slice(*s[1][0])]), len(range(hw[1])[slice(*s[1][1])]))
        if s[0] == 'pad':
            hw = (4, 4)
    keys = check(node, model, hw, 'selection')
    return Outcome(keys, 2 * len(sels), 2)


def run_policy(case):
    """policy error: refused exactly when a channel is unknown."""
    kind, sel, policy = case
    node, model = make(kind)
    names = [n for n, _ in model]
    missing = sel[0] not in ('list', 'slice') and any(n not in names for n in expand(sel[1]))
    try:
        new, want = apply_sel(node, model, sel, policy)
    except ValueError:
        if policy == 'error' and missing:
            return Outcome([core.key(case)], 1)
        raise
    except KeyError:
        if policy == 'nonsense':
            return Outcome([core.key(case)], 1)
        raise
    if policy == 'error' and missing:
        raise Violation('unknown channels were accepted')
    if policy == 'nonsense' and missing:
        raise Violation('an unknown policy was accepted')
    return Outcome(check(new, want, (H, W), f'policy {policy}'), 2)


def run_range(case):
    """an index that names no channel is refused, whatever the image is."""
    kind, how, ix = case
    node, model = make(kind)
    try:
        if how == 'list':
            new = node.take_channels(list(ix))
        elif how == 'idx':
            new = node.crop(None, list(ix))
        elif how == 'one':
            new = node[:, :, ix[0]]
        else:
            new = node.crop((slice(0, 2), slice(0, 3)))[:, :, list(ix)]
        got = new.finalize()
    except (IndexError, ValueError):
        return Outcome([core.key(case)], 1)
    raise Violation(f'channel indexes {ix} of an image with {len(model)} channels were accepted: shape {got.shape}')


def cases_range():
    for kind in NAMED + ['anon', 'catanon']:
        n = len(NAMES.get(kind, 'abc'))
        for bad in (n, n + 1, -n - 1, -n - 2, 2 * n, -2 * n - 1, 99, -99):
            for how in ('list', 'idx', 'crop'):
                for rest in ([], [0], [n - 1], [-1]):
                    for ix in ([bad] + rest, rest + [bad]):
                        yield [kind, how, ix]
            yield [kind, 'one', [bad]]


def codes(names, extra, maxlen):
    for k in range(1, maxlen + 1):
        for c in itertools.product(list(names) + list(extra), repeat=k):
            yield '|'.join(c)


NAMED = ['leaf', 'file', 'cat2', 'cat3', 'catcat', 'catnan', 'cattake', 'catwarp', 'same', 'nans', 'single']
NAMES = {'leaf': 'abc', 'file': 'abc', 'cat2': 'abcd', 'cat3': 'abcd', 'catcat': 'abcd', 'catnan': 'abcd',
         'cattake': 'cad', 'catwarp': 'abc', 'same': 'acb', 'nans': 'abc', 'single': 'a'}


def cases_single(maxlen):
    for kind in NAMED:
        for c in codes(NAMES[kind], 'QR', maxlen if len(NAMES[kind]) < 4 else min(maxlen, 3)):
            yield [kind, [['str', c]]]
        n = len(NAMES[kind])
        for k in range(1, 4):
            for ix in itertools.product(range(-n, n), repeat=k):
                yield [kind, [['list', list(ix)]]]
                yield [kind, [['idx', list(ix)]]]
        for i in range(-n, n):
            yield [kind, [['one', i]]]
        for c in codes(NAMES[kind], 'Q', 2):
            for how in ('fused', 'spec', 'lazy'):
                if how != 'lazy' or 'cat' not in kind and kind != 'same':
                    yield [kind, [[how, c]]]
        for s in ([0, 2], [1, None], [None, None], [-1, None], [None, None, -1], [0, None, 2]):
            yield [kind, [['slice', s]]]
            yield [kind, [['sub', s]]]
    for kind in ('anon', 'catanon'):
        for k in range(1, 4):
            for ix in itertools.product(range(-3, 3), repeat=k):
                yield [kind, [['list', list(ix)]]]
                yield [kind, [['idx', list(ix)]]]
        for i in range(-3, 3):
            yield [kind, [['one', i]]]
        for s in ([0, 2], [1, None], [-1, None], [None, None, -1]):
            yield [kind, [['slice', s]]]
            yield [kind, [['sub', s]]]
    for kind in ('range', 'catrange'):
        for c in ('f.0:4', 'f.1:3', 'f.2', 'a|f.0', 'f.3:5', 'f.0:4:2', 'f.2:6|a', 'a|f.0:2|Q', 'f.0:4|a', 'g.0:2|f.1',
                  'f.3|f.0:3', 'd|a|f.1:2'):
            for how in ('str', 'fused', 'spec'):
                yield [kind, [[how, c]]]


def steps(n):
    """Menu of second steps that are valid for n bands."""
    out = [['list', [n - 1]], ['list', list(range(n))[::-1]], ['idx', [0]], ['list', [0] * 2],
           ['idx', [n - 1, 0]], ['list', [0, 0, n - 1]], ['slice', [1, None]] if n > 1 else ['slice', [0, None]],
           ['str', 'a'], ['str', 'Q|a'], ['str', 'b|Q|c'], ['str', 'c|b|a'], ['str', 'Q|R|a|b'],
           ['idx', [-1]], ['one', n - 1], ['list', [-n, -1]], ['sub', [None, None, -1]],
           ['crop', [[1, 3], [2, None]]], ['pad', None]]
    return out


def cases_nested(kinds, depth):
    for kind in kinds:
        n0 = 4 if len(NAMES[kind]) == 4 else len(NAMES[kind])
        level = [([], n0)]
        for d in range(depth):
            nxt = []
            for seq, n in level:
                if n == 0:
                    continue
                for s in steps(n):
                    if s[0] == 'pad' and any(q[0] in ('pad', 'crop') for q in seq):
                        continue
                    if s[0] == 'crop' and any(q[0] == 'crop' for q in seq):
                        continue
                    m = n
                    if s[0] in ('list', 'idx'):
                        m = len(s[1])
                    elif s[0] == 'one':
                        m = 1
                    elif s[0] in ('slice', 'sub'):
                        m = len(range(n)[slice(*s[1])])
                    elif s[0] == 'str':
                        m = len(s[1].split('|'))
                    c = seq + [s]
                    nxt.append((c, m))
                    if d:
                        yield [kind, c]
            level = nxt


def cases_policy():
    for kind in NAMED:
        for c in codes(NAMES[kind][:2], 'QR', 3):
            for p in ('error', 'return_nan', 'nonsense'):
                yield [kind, ['str', c], p]
        for p in ('error', 'return_nan'):
            yield [kind, ['list', [0]], p]


def families(tier):
    th = tier == 'thorough'
    F = Family
    return [
        F('single', lambda: cases_single(4 if th else 3), run,
          'every code over the present names and two absent ones up to length 3 (thorough 4), every index list up to 3'),
        F('nested', lambda: cases_nested(['leaf', 'cat2', 'catnan', 'same'] if not th else NAMED, 3), run,
          'all sequences of up to 3 selections, crops and padding from a menu of 18'),
        F('range', cases_range, run_range, 'indexes outside of the channels, alone and next to valid ones'),
        F('policy', cases_policy, run_policy, 'every policy with present and absent channels'),
    ]
