"""
C25: the same request means the same, however it is written.

A case is [leaf, prefix operations, group, writing, suffix operations].  Every
group is a request; its writings are different ways to state it through the
public interface.  The image of every writing must be the one of the first
writing: same declaration, same transform from the leaf, same finalized values,
with and without optimization, also if more operations follow.
"""
import itertools
import pathlib

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

TFS = {
    'mix': dict(scale=.5, offset=(3, -2), theta=.1),
    'half': dict(scale=.5),
    'shift': dict(offset=(3, -2)),
    'frac': dict(offset=(.5, .25), scale=(1.25, .4)),
    'shear': dict(shearx=.2, theta=-.3, offset=(4, 1)),
}
COMPONENTS = ['offset', 'scale', 'shearx', 'theta']
Q = {'orig_min': 0., 'orig_max': 2., 'quant_min': 0, 'quant_max': 8, 'nodata': None}
NAMES = ['nearest', 'linear', 'cubic', 'area', 'lanczos']


def _tf(name):
    import kwimage
    return kwimage.Affine.affine(**TFS[name])


def _slices(n, y, x):
    """Windows relative to the size of the image."""
    w, h = map(int, n.dsize)
    y0, y1 = y * h // 10, max(y * h // 10 + 1, (y + 6) * h // 10)
    x0, x1 = x * w // 10, max(x * w // 10 + 1, (x + 7) * w // 10)
    return y0, y1, x0, x1, w, h


def writings(group):
    """-> list of (name, function of the node)"""
    import kwimage
    from delayed_image import (ChannelSpec, DelayedChannelConcat,
                               FusedChannelSpec)
    from delayed_image import delayed_nodes as nodes
    kind, _, arg = group.partition(':')
    if kind == 'warp':
        p = TFS[arg]
        A = _tf(arg)
        M = np.asarray(A)
        full = dict(scale=p.get('scale', 1), offset=list(p.get('offset', (0, 0))), theta=p.get('theta', 0),
                    shearx=p.get('shearx', 0))
        return [
            ('affine', lambda n: n.warp(A)),
            ('matrix', lambda n: n.warp(M)),
            ('copy', lambda n: n.warp(kwimage.Affine(M.copy()))),
            ('params', lambda n: n.warp(dict(p))),
            ('all params', lambda n: n.warp(full)),
            ('matrix dict', lambda n: n.warp({'matrix': M})),
            ('json', lambda n: n.warp(A.__json__())),
            ('auto', lambda n: n.warp(A, dsize='auto')),
            ('written canvas', lambda n: n.warp(A, dsize=tuple(map(int, n.warp(A).dsize)))),
            ('positional', lambda n: n.warp(A, 'auto', False)),
            ('lazy', lambda n: n.warp(A, lazy=True)),
            ('lazy canvas', lambda n: n.warp(A, dsize=n.warp(A).dsize, lazy=True)),
            ('defaults', lambda n: n.warp(A, antialias=True, interpolation='linear', border_value='auto', noop_eps=0,
                                          backend='auto')),
        ]
    if kind == 'canvas':
        A = _tf('mix')
        dw, dh = map(int, arg.split('x'))
        return [
            ('tuple', lambda n: n.warp(A, dsize=(dw, dh))),
            ('numpy', lambda n: n.warp(A, dsize=(np.int64(dw), np.int32(dh)))),
            ('positional', lambda n: n.warp(A, (dw, dh))),
            ('lazy', lambda n: n.warp(A, dsize=(dw, dh), lazy=True)),
        ]
    if kind == 'eyecanvas':
        # an identity on another canvas is not a noop
        # (added to the size, which is given if there is no sign)
        def size(n):
            return tuple(int(a) + (int(d) if a[0] in '+-' else 0) for a, d in zip(arg.split('x'), n.dsize))
        return [
            ('explicit', lambda n: n.warp({'offset': (0, 0)}, dsize=size(n))),
            ('lazy', lambda n: n.warp({'offset': (0, 0)}, dsize=size(n), lazy=True)),
            ('lazy none', lambda n: n.warp(None, dsize=size(n), lazy=True)),
            ('lazy eye', lambda n: n.warp(np.eye(3), dsize=size(n), lazy=True)),
            ('none', lambda n: n.warp(None, dsize=size(n))),
            ('scale', lambda n: n.scale(1, dsize=size(n))),
            ('lazy scale', lambda n: n.scale(1, dsize=size(n), lazy=True)),
        ]
    if kind == 'eye':
        out = [('itself', lambda n: n)]
        for nm, t in [('none', None), ('empty', {}), ('matrix', np.eye(3)), ('affine', kwimage.Affine.eye()),
                      ('scale', {'scale': 1}), ('offset', {'offset': (0, 0)})]:
            out += [(nm, lambda n, t=t: n.warp(t)), ('lazy ' + nm, lambda n, t=t: n.warp(t, lazy=True)),
                    ('own canvas ' + nm, lambda n, t=t: n.warp(t, dsize=n.dsize)),
                    ('lazy own canvas ' + nm, lambda n, t=t: n.warp(t, dsize=n.dsize, lazy=True))]
        out += [('scale 1', lambda n: n.scale(1)), ('resize', lambda n: n.resize(n.dsize)),
                ('lazy resize', lambda n: n.resize(n.dsize, lazy=True)),
                ('overview 0', lambda n: n.get_overview(0)),
                ('crop none', lambda n: n.crop(None)), ('lazy crop none', lambda n: n.crop(None, lazy=True)),
                ('crop', lambda n: n[:, :]), ('crop full', lambda n: n[0:n.dsize[1], 0:n.dsize[0]]),
                ('lazy crop', lambda n: n.crop((slice(None), slice(None)), lazy=True)),
                ('lazy crop full', lambda n: n.crop((slice(0, n.dsize[1]), slice(0, n.dsize[0])), lazy=True)),
                ('unclipped', lambda n: n.crop((slice(0, n.dsize[1]), slice(0, n.dsize[0])), clip=False, wrap=False)),
                ('bands', lambda n: n[:, :, :]), ('bands list', lambda n: n[:, :, list(range(n.num_channels))]),
                ('take', lambda n: n.take_channels(list(range(n.num_channels)))),
                ('take slice', lambda n: n.take_channels(slice(None))),
                ('concat of one', lambda n: DelayedChannelConcat([n])),
                ('concat of concat', lambda n: DelayedChannelConcat([DelayedChannelConcat([n])])),
                ('concat with canvas', lambda n: DelayedChannelConcat([n], dsize=n.dsize)),
                ('concat of bands', lambda n: DelayedChannelConcat([n[:, :, [i]] for i in range(n.num_channels)])),
                ]
        return out
    if kind == 'scale':
        s = {'2': 2, 'half': .5, 'aniso': (.5, 1.5)}[arg]
        sx, sy = s if isinstance(s, tuple) else (s, s)
        return [
            ('warp', lambda n: n.warp({'scale': s})),
            ('scale', lambda n: n.scale(s)),
            ('tuple', lambda n: n.scale((sx, sy))),
            ('list', lambda n: n.scale([sx, sy])),
            ('array', lambda n: n.scale(np.array([sx, sy]))),
            ('numpy', lambda n: n.scale((np.float64(sx), np.float64(sy)))),
            ('matrix', lambda n: n.warp(np.diag([sx, sy, 1.]))),
        ]
    if kind == 'resize':
        dw, dh = map(int, arg.split('x'))
        return [
            ('warp', lambda n: n.warp({'scale': (dw / n.dsize[0], dh / n.dsize[1])}, dsize=(dw, dh))),
            ('resize', lambda n: n.resize((dw, dh))),
            ('numpy', lambda n: n.resize((np.int64(dw), np.int64(dh)))),
            ('scale', lambda n: n.scale((dw / n.dsize[0], dh / n.dsize[1]), dsize=(dw, dh))),
            ('keyword', lambda n: n.resize(dsize=(dw, dh), interpolation='linear', antialias=True)),
        ]
    if kind == 'interp':
        name, tf, aa = arg.split(',')
        aa = bool(int(aa))
        code = NAMES.index(name)
        A = _tf(tf)
        out = [
            ('name', lambda n: n.warp(A, interpolation=name, antialias=aa)),
            ('code', lambda n: n.warp(A, interpolation=code, antialias=aa)),
            ('numpy code', lambda n: n.warp(A, interpolation=np.int64(code), antialias=aa)),
            ('antialias int', lambda n: n.warp(A, interpolation=name, antialias=int(aa))),
        ]
        if name == 'linear':
            out.append(('default', lambda n: n.warp(A, antialias=aa)))
        if aa:
            out.append(('default antialias', lambda n: n.warp(A, interpolation=name)))
        return out
    if kind == 'border':
        v = float(arg)
        A = _tf('mix')
        out = [
            ('number', lambda n: n.warp(A, border_value=v)),
            ('numpy', lambda n: n.warp(A, border_value=np.float64(v))),
            ('tuple', lambda n: n.warp(A, border_value=(v,) * n.num_channels)),
            ('list', lambda n: n.warp(A, border_value=[v] * n.num_channels)),
        ]
        if v == int(v):
            out.append(('int', lambda n: n.warp(A, border_value=int(v))))
        return out
    if kind == 'nanborder':
        A = _tf('mix')
        return [
            ('auto', lambda n: n.warp(A)),
            ('nan', lambda n: n.warp(A, border_value=np.nan)),
            ('float nan', lambda n: n.warp(A, border_value=float('nan'))),
            ('tuple', lambda n: n.warp(A, border_value=(np.nan,) * n.num_channels)),
        ]
    if kind == 'crop':
        y, x = map(int, arg.split(','))

        def mk(f):
            return lambda n: f(n, *_slices(n, y, x))

        def neg(a, size):
            return None if a == size else a - size
        return [
            ('crop', mk(lambda n, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d))))),
            ('item', mk(lambda n, a, b, c, d, w, h: n[a:b, c:d])),
            ('list', mk(lambda n, a, b, c, d, w, h: n.crop([slice(a, b), slice(c, d)]))),
            ('keyword', mk(lambda n, a, b, c, d, w, h: n.crop(space_slice=(slice(a, b), slice(c, d)), chan_idxs=None,
                                                            clip=True, wrap=True, pad=0, lazy=False))),
            ('numpy', mk(lambda n, a, b, c, d, w, h: n[np.int64(a):np.int32(b), np.uint8(c):np.int64(d)])),
            ('negative', mk(lambda n, a, b, c, d, w, h: n[a - h:neg(b, h), c - w:neg(d, w)])),
            ('step', mk(lambda n, a, b, c, d, w, h: n[a:b:1, c:d:1])),
            ('lazy', mk(lambda n, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), lazy=True))),
            ('unclipped', mk(lambda n, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), clip=False, wrap=False))),
            ('rows, columns', mk(lambda n, a, b, c, d, w, h: n[a:b, :][:, c:d])),
            ('columns, rows', mk(lambda n, a, b, c, d, w, h: n[:, c:d][a:b, :])),
            ('start, stop', mk(lambda n, a, b, c, d, w, h: n[a:, c:][:b - a, :d - c])),
            ('stop, start', mk(lambda n, a, b, c, d, w, h: n[:b, :d][a:, c:])),
        ]
    if kind == 'pad':
        p = int(arg)

        def mk(f):
            return lambda n: f(n, *_slices(n, 1, 2))
        return [
            ('number', mk(lambda n, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), clip=False, wrap=False, pad=p))),
            ('pairs', mk(lambda n, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), clip=False, wrap=False,
                                                          pad=[(p, p), (p, p)]))),
            ('tuples', mk(lambda n, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), clip=False, wrap=False,
                                                           pad=((p, p), (p, p))))),
            ('per axis', mk(lambda n, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), clip=False, wrap=False,
                                                             pad=[p, p]))),
            ('window', mk(lambda n, a, b, c, d, w, h: n.crop((slice(a - p, b + p), slice(c - p, d + p)), clip=False,
                                                           wrap=False))),
        ]
    if kind == 'bands':
        sel = [int(i) for i in arg.split(',')]

        def mk(f):
            return lambda n: f(n, [i % n.num_channels for i in sel], *_slices(n, 1, 2))

        def neg(n, s):
            return [i - n.num_channels for i in s]
        return [
            ('crop, take', mk(lambda n, s, a, b, c, d, w, h: n[a:b, c:d].take_channels(s))),
            ('take, crop', mk(lambda n, s, a, b, c, d, w, h: n.take_channels(s)[a:b, c:d])),
            ('item', mk(lambda n, s, a, b, c, d, w, h: n[a:b, c:d, s])),
            ('crop', mk(lambda n, s, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), s))),
            ('lazy', mk(lambda n, s, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), s, lazy=True))),
            ('lazy bands', mk(lambda n, s, a, b, c, d, w, h: n.crop(None, s, lazy=True)[a:b, c:d])),
            ('lazy full', mk(lambda n, s, a, b, c, d, w, h: n.crop((slice(None), slice(None)), s, lazy=True)[a:b, c:d])),
            ('bands, crop', mk(lambda n, s, a, b, c, d, w, h: n.crop(None, s)[a:b, c:d])),
            ('unclipped', mk(lambda n, s, a, b, c, d, w, h: n.crop((slice(a, b), slice(c, d)), s, clip=False,
                                                                wrap=False))),
            ('negative', mk(lambda n, s, a, b, c, d, w, h: n[a:b, c:d, neg(n, s)])),
            ('negative take', mk(lambda n, s, a, b, c, d, w, h: n[a:b, c:d].take_channels(neg(n, s)))),
            ('numpy ints', mk(lambda n, s, a, b, c, d, w, h: n[a:b, c:d].take_channels([np.int64(i) for i in s]))),
            ('concat', mk(lambda n, s, a, b, c, d, w, h: DelayedChannelConcat([n[a:b, c:d, [i]] for i in s]))),
            ('concat, crop', mk(lambda n, s, a, b, c, d, w, h: DelayedChannelConcat([n[:, :, i] for i in s])[a:b, c:d])),
            ('one by one', mk(lambda n, s, a, b, c, d, w, h: DelayedChannelConcat([n[a:b, c:d, i] for i in s]))),
        ]
    if kind == 'names':
        def mk(f):
            def g(n):
                cur = n.channels.normalize().as_list()
                if len(set(cur)) < len(cur):
                    raise pipe.Skip('names are repeated')
                return f(n, [cur[int(i) % len(cur)] for i in arg.split(',')], cur)
            return g
        return [
            ('indexes', mk(lambda n, s, cur: n.take_channels([cur.index(c) for c in s]))),
            ('code', mk(lambda n, s, cur: n.take_channels('|'.join(s)))),
            ('fused', mk(lambda n, s, cur: n.take_channels(FusedChannelSpec(s)))),
            ('coerced', mk(lambda n, s, cur: n.take_channels(FusedChannelSpec.coerce('|'.join(s))))),
            ('spec', mk(lambda n, s, cur: n.take_channels(ChannelSpec.coerce('|'.join(s))))),
            ('policy', mk(lambda n, s, cur: n.take_channels('|'.join(s), missing_channel_policy='error'))),
            ('one by one', mk(lambda n, s, cur: DelayedChannelConcat([n.take_channels(c) for c in s]))),
        ]
    if kind == 'dequantize':
        q = Q
        return [
            ('dict', lambda n: n.dequantize(dict(q))),
            ('other order', lambda n: n.dequantize(dict(reversed(list(q.items()))))),
            ('with dtype', lambda n: n.dequantize(dict(q, orig_dtype='float32'))),
        ]
    if kind == 'over':
        lv = int(arg)
        return [
            ('int', lambda n: n.get_overview(lv)),
            ('keyword', lambda n: n.get_overview(overview=lv)),
            ('constructor', lambda n: nodes.DelayedOverview(n, lv)),
        ]
    if kind == 'fullpad':
        p = int(arg)
        full = (slice(None), slice(None))
        kw = dict(clip=False, wrap=False)
        return [
            ('number', lambda n: n.crop((slice(0, n.dsize[1]), slice(0, n.dsize[0])), pad=p, **kw)),
            ('lazy', lambda n: n.crop((slice(0, n.dsize[1]), slice(0, n.dsize[0])), pad=p, lazy=True, **kw)),
            ('open', lambda n: n.crop(full, pad=p, **kw)),
            ('lazy open', lambda n: n.crop(full, pad=p, lazy=True, **kw)),
            ('lazy pairs', lambda n: n.crop(full, pad=[(p, p), (p, p)], lazy=True, **kw)),
            ('lazy bands', lambda n: n.crop(full, list(range(n.num_channels)), pad=p, lazy=True, **kw)),
            ('warp', lambda n: n.warp({'offset': (p, p)}, dsize=(n.dsize[0] + 2 * p, n.dsize[1] + 2 * p))),
        ]
    if kind == 'onepad':
        a, b, c, d = map(int, arg.split(','))
        full = (slice(None), slice(None))
        kw = dict(clip=False, wrap=False)
        return [
            ('pairs', lambda n: n.crop(full, pad=[(a, b), (c, d)], **kw)),
            ('lazy', lambda n: n.crop(full, pad=[(a, b), (c, d)], lazy=True, **kw)),
            ('window', lambda n: n.crop((slice(-a, n.dsize[1] + b), slice(-c, n.dsize[0] + d)), **kw)),
            ('lazy window', lambda n: n.crop((slice(-a, n.dsize[1] + b), slice(-c, n.dsize[0] + d)), lazy=True, **kw)),
            ('warp', lambda n: n.warp({'offset': (c, a)}, dsize=(n.dsize[0] + c + d, n.dsize[1] + a + b))),
        ]
    if kind == 'undo':
        remove = [c for c in arg.split(',') if c]
        retain = [c for c in COMPONENTS if c not in remove]

        def single(f):
            def g(n):
                n = n.optimize()
                if isinstance(n, DelayedChannelConcat):
                    raise pipe.Skip('several leafs')
                return f(n)
            return g
        out = [
            ('remove', single(lambda n: n.undo_warp(remove=remove))),
            ('retain', single(lambda n: n.undo_warp(retain=retain))),
            ('positional', single(lambda n: n.undo_warp(remove))),
            ('positional retain', single(lambda n: n.undo_warp(None, retain))),
            ('set', single(lambda n: n.undo_warp(retain=set(retain)))),
            ('tuple', single(lambda n: n.undo_warp(remove=tuple(remove)))),
            ('other order', single(lambda n: n.undo_warp(remove=remove[::-1]))),
            ('repeated', single(lambda n: n.undo_warp(remove=remove * 2))),
            ('with warp', single(lambda n: n.undo_warp(remove=remove, return_warp=True)[0])),
            ('its warp', single(lambda n: n.warp(n.undo_warp(remove=remove, return_warp=True)[1]).optimize())),
            ('part', single(lambda n: DelayedChannelConcat([n]).undo_warps(remove=remove)[0])),
            ('part with warp', single(lambda n: DelayedChannelConcat([n]).undo_warps(remove=remove, return_warps=True)[0][0])),
            ('part retain', single(lambda n: DelayedChannelConcat([n, n]).undo_warps(retain=retain)[1])),
        ]
        if not retain:
            out += [('all', single(lambda n: n.undo_warp())), ('part all', single(lambda n: DelayedChannelConcat([n]).undo_warps()[0])),
                    ('retain nothing', single(lambda n: n.undo_warp(retain=[])))]
        return out
    if kind == 'new':
        # the classes themselves
        A = _tf('mix')
        return {
            'warp': [('method', lambda n: n.warp(A, interpolation='cubic', border_value=3)),
                     ('class', lambda n: nodes.DelayedWarp(n, A, interpolation='cubic', border_value=3)),
                     ('matrix', lambda n: nodes.DelayedWarp(n, np.asarray(A), 'auto', True, 'cubic', 3)),
                     ('params', lambda n: nodes.DelayedWarp(n, TFS['mix'], interpolation='cubic', border_value=3))],
            'crop': [('method', lambda n: n.crop((slice(2, 5), slice(1, 7)), [1, 0])),
                     ('class', lambda n: nodes.DelayedCrop(n, (slice(2, 5), slice(1, 7)), [1, 0])),
                     ('keywords', lambda n: nodes.DelayedCrop(n, space_slice=(slice(2, 5), slice(1, 7)), chan_idxs=[1, 0]))],
            'bands': [('method', lambda n: n.take_channels([1, 0])),
                      ('class', lambda n: nodes.DelayedCrop(n, None, [1, 0])),
                      ('keywords', lambda n: nodes.DelayedCrop(n, chan_idxs=[1, 0]))],
            'dequantize': [('method', lambda n: n.dequantize(dict(Q))),
                           ('class', lambda n: nodes.DelayedDequantize(n, dict(Q)))],
            'concat': [('one', lambda n: DelayedChannelConcat([n])),
                       ('sized', lambda n: DelayedChannelConcat([n], dsize=n.dsize)),
                       ('tuple', lambda n: DelayedChannelConcat(parts=[n]))],
        }[arg]
    raise KeyError(group)


GROUPS = (['warp:' + t for t in TFS] + ['canvas:20x14', 'canvas:9x31', 'eye', 'eyecanvas:20x14', 'eyecanvas:40x24', 'eyecanvas:+0x+5', 'eyecanvas:+5x+0', 'eyecanvas:+0x-2', 'eyecanvas:-3x+0',
          'scale:2', 'scale:half', 'scale:aniso', 'resize:13x17', 'resize:40x30', 'border:7', 'border:-1.5', 'border:0',
          'nanborder', 'crop:1,2', 'crop:0,0', 'crop:4,3', 'pad:2', 'pad:0', 'bands:2,0', 'bands:1', 'bands:0,1,0',
          'names:2,0', 'names:1', 'dequantize', 'over:1', 'over:2',
          'fullpad:2', 'fullpad:0', 'onepad:2,0,0,0', 'onepad:0,3,0,1', 'onepad:0,0,0,0',
          'undo:', 'undo:scale', 'undo:theta', 'undo:offset,scale', 'undo:scale,theta,shearx', 'undo:offset,scale,shearx,theta',
          'new:warp', 'new:crop', 'new:bands', 'new:dequantize', 'new:concat']
          + [f'interp:{i},{t},{a}' for i in NAMES for t in ('mix', 'half') for a in (0, 1)])


def build(leaf, prefix):
    node, st = pipe.build([leaf] + prefix)
    return node, st


def describe(node):
    dsize = tuple(None if d is None else int(d) for d in node.dsize)
    chans = None if node.channels is None else node.channels.normalize().as_list()
    return dsize, chans, int(node.num_channels)


def observe(node):
    out = {'declared': describe(node)}
    out['plain'] = np.asarray(node.finalize(optimize=False))
    out['optimized'] = np.asarray(node.finalize())
    out['optimized declaration'] = describe(node.optimize())
    if hasattr(node, 'get_transform_from_leaf') and not hasattr(node, 'parts'):
        out['transform'] = None
        try:
            out['transform'] = np.asarray(node.get_transform_from_leaf())
        except AttributeError:
            pass                # below a concatenation there are several leafs
    return out


def compare(ref, got, what, exact=True):
    for k, v in ref.items():
        if k not in got:
            continue
        g = got[k]
        if k in ('plain', 'optimized'):
            if v.shape != g.shape:
                raise Violation(f'{what}: {k} shape {g.shape}, otherwise {v.shape}')
            same = np.array_equal(v, g, equal_nan=True) if exact else close(v, g)
            if not same:
                bad = np.argwhere(~((v == g) | (np.isnan(v) & np.isnan(g))))
                raise Violation(f'{what}: {k} values differ at {bad[0].tolist()} ({len(bad)} of {v.size}): '
                                f'{g[tuple(bad[0])]}, otherwise {v[tuple(bad[0])]}')
        elif k == 'transform':
            if v is not None and g is not None and not np.allclose(v, g, atol=1e-9):
                raise Violation(f'{what}: transform from the leaf {g.tolist()}, otherwise {v.tolist()}')
        elif v != g:
            raise Violation(f'{what}: {k} {g}, otherwise {v}')


def close(a, b):
    """
    Rounding of the transforms may differ.  Where content ends within such a
    rounding of a pixel centre, one of both may have it.
    """
    na, nb = np.isnan(a), np.isnan(b)
    both = ~na & ~nb
    return np.allclose(a[both], b[both], rtol=1e-4, atol=.25) and (na != nb).mean() < .02


_REF = {}


def run(case):
    leaf, prefix, group, suffix = case
    ws = writings(group)
    states = []
    n = 0
    ref = None
    for name, f in ws:
        node, st = build(leaf, prefix)
        if group in ('over:1', 'over:2') and st.nover + int(group[-1]) > 3:
            return Outcome([], 0, 0, trivial=True)
        if group in ('dequantize', 'new:dequantize') and (st.deq or 'dq' in suffix):
            return Outcome([], 0, 0, trivial=True)
        try:
            new = f(node)
        except pipe.Skip:
            return Outcome([], 0, 0, trivial=True)
        for op in suffix:
            new = follow(new, op)
        got = observe(new)
        n += 3
        if ref is None:
            ref = got
            states.append(core.key(got['declared'], got['optimized']))
        else:
            compare(ref, got, f'{group} written as "{name}"', exact=not {group, group.partition(':')[0]} & LOOSE)
    return Outcome(states, n, len(ws) - 1)


# The band groups that are resampled together differ: rounding differs
LOOSE = {'eye', 'bands', 'names', 'new:bands'}


def follow(node, op):
    if op == 'crop':
        w, h = map(int, node.dsize)
        return node[h // 4:, :max(1, 3 * w // 4)]
    if op == 'half':
        return node.warp({'scale': .5})
    if op == 'shift':
        return node.warp({'offset': (2, 1)})
    if op == 'last':
        return node[:, :, [node.num_channels - 1]]
    if op == 'over':
        return node.get_overview(1)
    if op == 'dq':
        return node.dequantize(dict(Q))
    raise KeyError(op)


SUFFIX = ['crop', 'half', 'shift', 'last', 'dq']
PRE = ['c_mid', 'p_tl', 'w_half', 'w_rot', 'w_hd', 't_yx', 'dq', 'o1', 'w_t']


def named(leaf):
    return not leaf.endswith('?')


def cases(leafs, pre_depth, suf_depth, groups=GROUPS):
    pres = [[]]
    for d in range(pre_depth):
        pres += [p + [o] for p in pres if len(p) == d for o in PRE]
    sufs = [[]]
    for d in range(suf_depth):
        sufs += [s + [o] for s in sufs if len(s) == d for o in SUFFIX]
    for leaf in leafs:
        _, st0 = pipe.make_leaf(leaf)
        for p in pres:
            try:
                st = pipe.model([leaf] + p, st0)
            except pipe.Skip:
                continue
            for g in groups:
                if g.startswith('names') and not named(leaf):
                    continue
                for s in sufs:
                    if 'dq' in p + s and ('dequantize' in g or ('dq' in p and 'dq' in s) or s.count('dq') > 1):
                        continue
                    if p.count('dq') > 1:
                        continue
                    if g.startswith('border') and len(st.chans) > 4:
                        continue
                    yield [leaf, p, g, s]


# ------------------------------------------------- ways to ask for the values
def finals(node):
    opt = node.optimize()
    yield 'default', node.finalize()
    yield 'prepared', node.prepare().finalize()
    yield 'no prepare', node.finalize(prepare=False)
    yield 'optimized first', opt.finalize()
    yield 'optimized, plain', opt.finalize(optimize=False)
    yield 'optimized twice', opt.optimize().finalize()
    yield 'explicit', node.finalize(prepare=True, optimize=True)
    yield 'positional', node.finalize(True, True)
    if hasattr(node, 'evaluate'):
        yield 'evaluated', node.evaluate().finalize()
        yield 'evaluated, cropped', node.evaluate()[:, :].finalize()
    yield 'labelled', np.asarray(node.as_xarray().finalize())
    yield 'protected', np.asarray(opt._finalize())


def run_finals(case):
    node, st = pipe.build(case)
    ref = None
    n = 0
    for name, got in finals(node):
        got = np.asarray(got)
        n += 1
        if ref is None:
            ref = got
        elif got.dtype != ref.dtype and name != 'labelled' or got.shape != ref.shape \
                or not np.array_equal(got, ref, equal_nan=True):
            raise Violation(f'finalize as "{name}": {got.dtype}{got.shape}, otherwise {ref.dtype}{ref.shape}'
                            + ('' if got.shape != ref.shape else f'; first values {got.ravel()[:4]} / {ref.ravel()[:4]}'))
    return Outcome([core.key(ref)], n, n - 1)


# -------------------------------- settings given to finalize instead of to warp
OVERRIDES = [
    {'interpolation': 'nearest'}, {'interpolation': 'cubic'}, {'antialias': False}, {'border_value': 5},
    {'backend': 'cv2'}, {'interpolation': 'nearest', 'antialias': False}, {'interpolation': 0},
    {'interpolation': 'linear', 'border_value': -2.5}, {'noop_eps': 1e-3},
]


def run_override(case):
    seq, i = case
    kw = OVERRIDES[i]
    want, _ = pipe.build(seq, kw)
    want = {o: np.asarray(want.finalize(optimize=o)) for o in (True, False)}
    for o in (True, False):
        node, _ = pipe.build(seq)
        got = np.asarray(node.finalize(optimize=o, **kw))
        if got.shape != want[o].shape or not np.array_equal(got, want[o], equal_nan=True):
            raise Violation(f'finalize(optimize={o}, {kw}) differs from the same settings given to the warps')
    return Outcome([core.key(want[True], i)], 4, 2)


def cases_override(leafs, ops, depth):
    for seq in pipe.enumerate_cases(leafs, ops, depth):
        if any(o.startswith(('w_', 'r_')) for o in seq[1:]):
            for i in range(len(OVERRIDES)):
                yield [seq, i]


# ----------------------------------------------------- ways to make the leafs
def leafs(kind):
    from delayed_image import (ChannelSpec, DelayedIdentity, DelayedLoad,
                               DelayedNans, FusedChannelSpec)
    code = 'x|y|z'
    spec = FusedChannelSpec.coerce(code)
    w, h = pipe.W, pipe.H
    if kind in ('plain', 'cog'):
        p = pipe.f_plain() if kind == 'plain' else pipe.f_cog()
        yield 'string', DelayedLoad(p, channels=code).prepare()
        yield 'path', DelayedLoad(pathlib.Path(p), channels=code).prepare()
        yield 'fused', DelayedLoad(p, channels=spec).prepare()
        yield 'positional', DelayedLoad(p, code).prepare()
        yield 'prepared twice', DelayedLoad(p, channels=code).prepare().prepare()
        yield 'known size', DelayedLoad(p, channels=code, dsize=(w, h)).prepare()
        yield 'known levels', DelayedLoad(p, channels=code, dsize=(w, h),
                                          num_overviews=3 if kind == 'cog' else 0).prepare()
        yield 'not prepared', DelayedLoad(p, channels=code, dsize=(w, h), num_overviews=3 if kind == 'cog' else 0)
    elif kind == 'id':
        data = pipe.ramp()
        yield 'string', DelayedIdentity(data, channels=code)
        yield 'fused', DelayedIdentity(data, channels=spec)
        yield 'spec', DelayedIdentity(data, channels=ChannelSpec.coerce(code))
        yield 'positional', DelayedIdentity(data, code, (w, h))
        yield 'size', DelayedIdentity(data, channels=code, dsize=(w, h))
        yield 'fortran', DelayedIdentity(np.asfortranarray(data), channels=code)
        yield 'strided', DelayedIdentity(np.repeat(data, 2, axis=1)[:, ::2], channels=code)
        yield 'reversed', DelayedIdentity(np.ascontiguousarray(data[:, :, ::-1])[:, :, ::-1], channels=code)
        yield 'big endian', DelayedIdentity(data.astype('>f4').astype('<f4'), channels=code)
        ro = data.copy()
        ro.flags.writeable = False
        yield 'read only', DelayedIdentity(ro, channels=code)
    elif kind == 'nans':
        yield 'tuple', DelayedNans((w, h), channels=code)
        yield 'fused', DelayedNans((w, h), channels=spec)
        yield 'keyword', DelayedNans(dsize=(w, h), channels=code)
        yield 'positional', DelayedNans((w, h), code)
    elif kind == 'gray':
        data = pipe.ramp()[:, :, 0]
        yield '3d', DelayedIdentity(data[:, :, None], channels='x')
        yield '2d', DelayedIdentity(data, channels='x')


def run_leafs(case):
    kind, ops, finish = case
    ref = None
    n = 0
    names = ['x'] if kind == 'gray' else ['x', 'y', 'z']
    for name, leaf in leafs(kind):
        st = pipe.State(np.eye(3), (pipe.W, pipe.H), [(c, None) for c in names], [])
        node = leaf
        for op in ops:
            node, st = pipe.apply_op(node, st, op, {})
        got = observe(node)
        n += 1
        if ref is None:
            ref = got
        else:
            compare(ref, got, f'{kind} leaf made as "{name}"')
    return Outcome([core.key(ref['optimized'])], n * (1 + len(ops)), n - 1)


def cases_leafs(ops, depth):
    for kind in ('plain', 'cog', 'id', 'nans', 'gray'):
        for d in range(depth + 1):
            for seq in itertools.product(ops, repeat=d):
                if kind == 'gray' and any(o in ('t_yx', 't_rep', 'g_one') for o in seq):
                    continue
                st = pipe.State(np.eye(3), (pipe.W, pipe.H), [(c, None) for c in ('x' if kind == 'gray' else 'xyz')], [])
                try:
                    for o in seq:
                        _, st = pipe.apply_op(None, st, o, {}, build=False)
                except pipe.Skip:
                    continue
                yield [kind, list(seq), 0]


def families(tier):
    th = tier == 'thorough'
    F = Family
    ops = ['c_mid', 'c_neg', 'p_tl', 'w_half', 'w_rot', 'w_hd', 'w_t', 'r_a', 'o1', 'dq', 't_yx', 't_z', 'g_neg', 't_miss']
    some = ['cog', 'cat_jag', 'id?', 'nans']
    fams = [
        F('writings', lambda: cases(['id', 'cog', 'cat_jag', 'cat_nan', 'nans', 'id?', 'plain:7x5?'], 0, 1), run,
          'every writing of every request on every leaf, alone and before every following operation'),
        F('after', lambda: cases(some, 1, 0), run, 'every writing of every request after every operation'),
        F('finals', lambda: pipe.enumerate_cases(['id', 'cog', 'cat_jag', 'cat_nan', 'nans', 'id?'], ops, 2), run_finals,
          'every way to ask for the values of every pipeline up to depth 2'),
        F('override', lambda: cases_override(['cog', 'cat_cat', 'id?'], ['c_mid', 'w_half', 'w_rot', 'w_hd', 'r_a', 't_yx',
                                                                         'dq', 'o1'], 2), run_override,
          'settings given to finalize, pipelines up to depth 2'),
        F('leafs', lambda: cases_leafs(ops, 1), run_leafs, 'every way to make a leaf, one operation'),
    ]
    if th:
        fams += [
            F('after2', lambda: cases(some, 2, 0), run, 'every writing after every pair of operations'),
            F('between', lambda: cases(['cog', 'cat_jag', 'id'], 1, 1), run, 'one operation before and one after'),
            F('finals3', lambda: pipe.enumerate_cases(['cog', 'cat_jag'], ops, 3), run_finals, 'depth 3'),
            F('leafs2', lambda: cases_leafs(ops, 2), run_leafs, 'every way to make a leaf, two operations'),
        ]
    return fams
