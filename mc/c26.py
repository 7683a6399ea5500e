"""
C26: what cannot be met is refused.

A case is [leaf, prefix operations, request, suffix operations].  The request
is malformed or asks for something that does not exist, so the pipeline must
raise an error: when it is written, or at the latest when its values are asked
for, with and without optimization, and also if valid operations follow.  The
refusal leaves the pipeline it was asked of as it was.
"""
import itertools
import os

import numpy as np

from mc import core, pipe
from mc.c25 import PRE, follow
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

Q = {'orig_min': 0., 'orig_max': 2., 'quant_min': 0, 'quant_max': 8, 'nodata': None}
W = {'scale': .7, 'offset': (2.5, 1.25)}
S = slice(1, 4)


def _without(k):
    return {a: b for a, b in Q.items() if a != k}


# Refused when the request is written, or when the values are asked for.
# name: function of the node
REQUESTS = {
    # channels that do not exist
    'take high': lambda n: n.take_channels([n.num_channels]),
    'take low': lambda n: n.take_channels([-n.num_channels - 1]),
    'take some high': lambda n: n.take_channels([0, n.num_channels]),
    'take some low': lambda n: n.take_channels([-n.num_channels - 1, 0]),
    'take far': lambda n: n.take_channels([1000]),
    'crop bands high': lambda n: n.crop((S, S), [n.num_channels]),
    'crop bands low': lambda n: n.crop((S, S), [0, -n.num_channels - 1]),
    'lazy crop bands high': lambda n: n.crop((S, S), [n.num_channels], lazy=True),
    'only bands high': lambda n: n.crop(None, [n.num_channels]),
    'unclipped bands high': lambda n: n.crop((S, S), [n.num_channels], clip=False, wrap=False),
    'item band high': lambda n: n[:, :, n.num_channels],
    'item band low': lambda n: n[:, :, -n.num_channels - 1],
    'item bands high': lambda n: n[S, S, [0, n.num_channels]],
    'take missing, error': lambda n: n.take_channels('nope', missing_channel_policy='error'),
    'take partly missing, error': lambda n: n.take_channels('x|nope', missing_channel_policy='error'),
    'take missing, bad policy': lambda n: n.take_channels('nope', missing_channel_policy='ignore'),
    'take text of unnamed': lambda n: n.take_channels('x'),
    # windows that cannot be described
    'item row': lambda n: n[0],
    'item pixel': lambda n: n[3, 4],
    'item pixel band': lambda n: n[3, 4, 0],
    'item rows': lambda n: n[(S,)],
    'item four': lambda n: n[S, S, S, S],
    'item empty': lambda n: n[()],
    'item none': lambda n: n[None],
    'item text': lambda n: n['x'],
    'item ellipsis': lambda n: n[..., 0],
    'item list': lambda n: n[[1, 2], S],
    'step rows': lambda n: n[::2, :],
    'step columns': lambda n: n[:, 0:6:3],
    'step bands': lambda n: n[::2, ::2, [0]],
    'step crop': lambda n: n.crop((slice(0, 6, 2), S)),
    'step lazy': lambda n: n.crop((slice(0, 6, 2), S), lazy=True),
    'step unclipped': lambda n: n.crop((slice(0, 6, 2), S), clip=False, wrap=False),
    'reversed rows': lambda n: n[::-1, :],
    'reversed columns': lambda n: n[:, ::-1],
    'crop text': lambda n: n.crop('all'),
    'crop pad, wrapped': lambda n: n.crop((S, S), pad=1),
    'crop pad, clipped': lambda n: n.crop((S, S), pad=1, wrap=False),
    'crop unclipped, wrapped': lambda n: n.crop((S, S), clip=False),
    'crop clipped, unwrapped': lambda n: n.crop((S, S), wrap=False),
    'crop unknown': lambda n: n.crop((S, S), foo=1),
    # warps that cannot be described
    'warp unknown setting': lambda n: n.warp(W, foo=1),
    'warp unknown component': lambda n: n.warp({'zoom': 2}),
    'warp partly unknown': lambda n: n.warp({'scale': 2, 'zoom': 2}),
    'warp text': lambda n: n.warp('foo'),
    'warp number': lambda n: n.warp(2),
    'warp vector': lambda n: n.warp(np.array([1., 2.])),
    'warp small matrix': lambda n: n.warp(np.eye(2)),
    'warp large matrix': lambda n: n.warp(np.eye(4)),
    'warp nan': lambda n: n.warp({'scale': float('nan')}),
    'warp infinite': lambda n: n.warp({'scale': float('inf')}),
    'warp nan offset': lambda n: n.warp({'offset': (float('nan'), 0)}),
    'warp three scales': lambda n: n.warp({'scale': (1, 2, 3)}),
    'warp three offsets': lambda n: n.warp({'offset': (1, 2, 3)}),
    'warp text canvas': lambda n: n.warp(W, dsize='foo'),
    'warp negative canvas': lambda n: n.warp(W, dsize=(-3, 5)),
    'warp negative height': lambda n: n.warp(W, dsize=(3, -5)),
    'warp eye, negative canvas': lambda n: n.warp({}, dsize=(3, -5)),
    'warp lazy, negative canvas': lambda n: n.warp(W, dsize=(3, -5), lazy=True),
    'warp one canvas': lambda n: n.warp(W, dsize=(3,)),
    'warp three canvas': lambda n: n.warp(W, dsize=(3, 4, 5)),
    'warp number canvas': lambda n: n.warp(W, dsize=7),
    'scale text': lambda n: n.scale('foo'),
    'scale three': lambda n: n.scale((1, 2, 3)),
    'scale negative canvas': lambda n: n.scale(2, dsize=(-1, 4)),
    'scale unknown': lambda n: n.scale(2, foo=1),
    'resize negative': lambda n: n.resize((-1, 4)),
    'resize negative height': lambda n: n.resize((4, -1)),
    'resize text': lambda n: n.resize('foo'),
    'resize number': lambda n: n.resize(5),
    'resize one': lambda n: n.resize((5,)),
    'resize three': lambda n: n.resize((5, 6, 7)),
    'resize unknown': lambda n: n.resize((5, 6), foo=1),
    'overview negative': lambda n: n.get_overview(-1),
    'overview very negative': lambda n: n.get_overview(-3),
    'overview text': lambda n: n.get_overview('1'),
    'overview none': lambda n: n.get_overview(None),
    'undo both': lambda n: n.undo_warp(retain=['scale'], remove=['theta']),
    'undo unknown': lambda n: n.undo_warp(remove=['foo']),
    'undo partly unknown': lambda n: n.undo_warp(remove=['scale', 'foo']),
    'retain unknown': lambda n: n.undo_warp(retain=['scale', 'foo']),
    'undo unknown setting': lambda n: n.undo_warp(remove=['scale'], foo=1),
    'undo parts both': lambda n: n.undo_warps(retain=['scale'], remove=['theta']),
    'undo parts unknown': lambda n: n.undo_warps(remove=['foo']),
    'retain parts unknown': lambda n: n.undo_warps(retain=['foo']),
    'dequantize nothing': lambda n: n.dequantize({}),
    'dequantize no high': lambda n: n.dequantize(_without('quant_max')),
    'interpolation text': lambda n: n.warp(W, interpolation='foo'),
    'interpolation number': lambda n: n.warp(W, interpolation=77),
    'five borders': lambda n: n.warp(W, border_value=(1, 2, 3, 4, 5)),
    # joining
    'concat sizes': lambda n: _cat([n, n.resize((n.dsize[0] + 1, n.dsize[1]))]),
    'concat heights': lambda n: _cat([n, n.resize((n.dsize[0], n.dsize[1] + 1))]),
    'concat later sizes': lambda n: _cat([n, n, n[:, :-1]]),
    'concat middle size': lambda n: _cat([n, n[:, :-1], n]),
    'concat middle height': lambda n: _cat([n, n[1:, :], n]),
    'concat middle sizes': lambda n: _cat([n, n.scale(2), n.scale(2), n]),
    'concat alternating': lambda n: _cat([n, n.scale(2), n, n.scale(2)]),
    'concat cropped': lambda n: _cat([n[:, 1:], n]),
    'concat nested sizes': lambda n: _cat([_cat([n]), _cat([n.scale(.5)])]),
    'concat nothing': lambda n: _cat([]),
}


def _cat(parts, dsize=None):
    from delayed_image import DelayedChannelConcat
    return DelayedChannelConcat(parts, dsize=dsize)


def outcome(f):
    """-> None if refused, else what came back"""
    try:
        return f()
    except (KeyboardInterrupt, SystemExit, core.Violation):
        raise
    except Exception:
        return None


def declared(n):
    return (tuple(int(d) for d in n.dsize), None if n.channels is None else n.channels.spec, int(n.num_channels))


def run(case):
    leaf, prefix, name, suffix = case
    f = REQUESTS[name]
    node, _ = pipe.build([leaf] + prefix)
    before = declared(node)
    want = np.asarray(node.finalize())
    new = outcome(lambda: f(node))
    steps = 2
    when = 'written'
    if new is not None:
        when = 'finalized'
        for op in suffix:
            new2 = outcome(lambda: follow(new, op))
            if new2 is None:
                new = None
                when = 'followed'
                break
            new = new2
    if new is not None:
        for o in (True, False):
            steps += 1
            got = outcome(lambda: new.finalize(optimize=o))
            if got is not None:
                raise Violation(f'"{name}" is accepted: finalize(optimize={o}) gives {type(got).__name__}'
                                f'{np.shape(got)}, declared {outcome(lambda: declared(new))}')
    if declared(node) != before:
        raise Violation(f'"{name}" is refused but changes the declaration from {before} to {declared(node)}')
    for o in (True, False):
        got = np.asarray(node.finalize(optimize=o))
        fresh, _ = pipe.build([leaf] + prefix)
        ref = want if o else np.asarray(fresh.finalize(optimize=False))
        if got.shape != ref.shape or not np.array_equal(got, ref, equal_nan=True):
            raise Violation(f'"{name}" is refused but changes the values of the pipeline it was asked of')
        steps += 1
    return Outcome([core.key(when, name, before, got)], steps, 1)


# Seen only when the values are computed
LATE = {'dequantize nothing', 'dequantize no high', 'interpolation text', 'interpolation number', 'five borders'}


def applies(request, leaf):
    if request == 'take text of unnamed':
        return leaf.endswith('?')
    if request in LATE and leaf == 'nans':
        return False            # nothing is resampled
    if request == 'five borders' and leaf.startswith('cat'):
        return False            # every part takes its own
    return True


def cases(leafs, depth, suf):
    pres = [[]]
    for d in range(depth):
        pres += [p + [o] for p in pres if len(p) == d for o in PRE]
    for leaf in leafs:
        _, st0 = pipe.make_leaf(leaf)
        for p in pres:
            try:
                pipe.model([leaf] + p, st0)
            except pipe.Skip:
                continue
            for r in REQUESTS:
                if not applies(r, leaf):
                    continue
                for s in suf:
                    if r in LATE and s and s != ['crop'] or 'dq' in p and 'dq' in s:
                        continue        # later settings or bands win
                    if 'last' in s and leaf.endswith('?'):
                        continue
                    yield [leaf, p, r, s]


# ------------------------------------------------------- files that are no image
def _bad(kind):
    """A path without a readable image."""
    name, _, ext = kind.partition('.')
    if name == 'absent':
        return os.path.join(pipe.workdir(), 'not_there.' + ext)
    if name == 'below':
        return os.path.join(pipe.f_plain(), 'below.' + ext)
    if name == 'folder':
        path = os.path.join(pipe.workdir(), 'folder.' + ext)
        os.makedirs(path, exist_ok=True)
        return path
    content = {'empty': b'', 'text': b'this is not an image\n' * 40, 'magic': b'II*\0', 'head': None}[name]
    if content is None:
        with open(pipe.f_plain(), 'rb') as file:
            content = file.read(6)

    def write(path):
        with open(path, 'wb') as file:
            file.write(content)
    return pipe.fixture(f'bad_{name}.{ext}', write)


BAD = [f'{n}.{e}' for n in ('absent', 'below', 'folder', 'empty', 'text', 'magic', 'head') for e in ('tif', 'png', 'jpg', 'bin')]
USES = ['none', 'crop', 'half', 'last', 'shift', 'dq', 'over', 'concat', 'concat crop']


def run_files(case):
    from delayed_image import DelayedChannelConcat, DelayedIdentity, DelayedLoad
    kind, known, use = case
    fpath = _bad(kind)
    kw = {'channels': 'x|y|z'}
    if known == 'known':
        kw.update(dsize=(pipe.W, pipe.H), num_overviews=1)
    node = DelayedLoad(fpath, **kw)
    steps = 1

    def make():
        n = node
        if known == 'prepared':
            n = n.prepare()
        if use.startswith('concat'):
            n = DelayedChannelConcat([DelayedIdentity(pipe.ramp(), channels='a|b|c'), n], dsize=(pipe.W, pipe.H))
            if use == 'concat crop':
                n = n[2:9, 3:]
        elif use != 'none':
            n = follow(n, use)
        return n
    new = outcome(make)
    if new is not None:
        for o in (True, False):
            steps += 1
            got = outcome(lambda: new.finalize(optimize=o))
            if got is not None:
                raise Violation(f'{kind} ({known}, {use}): finalize(optimize={o}) gives {type(got).__name__}{np.shape(got)}')
    return Outcome([core.key(case, new is None)], steps, 1)


def run_nodata(case):
    """An unknown way to treat missing values."""
    from delayed_image import DelayedLoad
    file, method, ops = case
    fpath = {'cog': pipe.f_cog, 'plain': pipe.f_plain}[file]()
    new = outcome(lambda: DelayedLoad(fpath, channels='x|y|z', nodata_method=method).prepare())
    for op in ops:
        if new is not None:
            new = outcome(lambda: follow(new, op))
    if new is not None:
        for o in (True, False):
            if outcome(lambda: new.finalize(optimize=o)) is not None:
                raise Violation(f'nodata_method={method!r} is accepted by finalize(optimize={o})')
    return Outcome([core.key(case)], 3, 1)


# ------------------------------------------ requests before the size is known
def run_unprepared(case):
    """Refused, or what it would be had the file been prepared."""
    from delayed_image import DelayedLoad
    kind, seq = case
    named = not kind.endswith('?')
    good, st = pipe.make_leaf(kind)
    fpath = good.fpath
    node = DelayedLoad(fpath, channels='x|y|z' if named else None)
    for op in seq:
        good, st2 = pipe.apply_op(good, st, op, {})
        if node is not None:
            node = outcome(lambda: pipe.apply_op(node, st, op, {})[0])
        st = st2
    steps = 1 + len(seq)
    if node is not None:
        for o in (True, False):
            got = outcome(lambda: node.finalize(optimize=o))
            steps += 1
            if got is None:
                continue
            want = np.asarray(good.finalize(optimize=o))
            if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
                raise Violation(f'finalize(optimize={o}) without prepare gives {got.shape}, other values than after prepare: '
                                f'{want.shape}')
    return Outcome([core.key(kind, seq, node is None)], steps, 1)


def cases_unprepared(kinds, depth):
    for c in pipe.enumerate_cases(kinds, list(pipe.OPS), depth):
        yield [c[0], c[1:]]


def families(tier):
    th = tier == 'thorough'
    F = Family
    leafs = ['id', 'cog', 'cat_jag', 'nans', 'id?', 'plain:7x5?', 'flat', 'cat_nan', 'cat_cat']
    fams = [
        F('requests', lambda: cases(leafs, 0, [[], ['crop'], ['half'], ['last'], ['dq']]), run,
          'every request on every leaf, alone and followed by every operation'),
        F('after', lambda: cases(leafs[:5], 1, [[], ['crop']]), run, 'every request after every operation'),
        F('files', lambda: itertools.product(BAD, ['known', 'unknown', 'prepared'], USES), run_files,
          'every kind of unreadable file and every use'),
        F('nodata', lambda: ([f, m, list(ops)] for f in ('cog', 'plain') for m in ('foo', 'none', 3, True)
                             for d in range(3) for ops in itertools.product(['crop', 'half', 'shift', 'last'], repeat=d)),
          run_nodata, 'unknown nodata methods, pipelines up to depth 2'),
        F('unprepared', lambda: cases_unprepared(['cog', 'plain:7x5?'], 2 if not th else 3), run_unprepared,
          'all sequences of operations on a file that was not prepared'),
    ]
    if th:
        fams += [
            F('after2', lambda: cases(leafs[:5], 2, [[]]), run, 'every request after every pair of operations'),
            F('between', lambda: cases(leafs[:5], 1, [['half'], ['shift'], ['last'], ['dq'], ['crop', 'half'], ['half', 'crop']]),
              run, 'every request between operations'),
        ]
    return fams
