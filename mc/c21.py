"""
C21: graph introspection describes the pipeline exactly.

Every description the library gives of a pipeline (exported graph, nested
description, text, traversal, leaf list, leaf paths) is compared with the
pipeline read through nothing but ``subdata`` / ``parts`` / ``meta``.
"""
import collections
import contextlib
import io
import re

import numpy as np

from mc import c04, c23, core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'


def kids(node):
    """The inputs of a node, through its plain attributes"""
    from delayed_image.delayed_base import DelayedOperation
    if hasattr(node, 'parts'):
        return list(node.parts)
    sub = getattr(node, 'subdata', None)
    return [sub] if isinstance(sub, DelayedOperation) else []


def flat(node, out=None, parent=None, path=()):
    """Occurrences of nodes in the pipeline: [node, parent occurrence, path]"""
    out = [] if out is None else out
    me = len(out)
    out.append((node, parent, path + (node,)))
    for c in kids(node):
        flat(c, out, me, path + (node,))
    return out


def meta_text(node):
    return repr(c04.plain(dict(node.meta)))


DROP_ALWAYS = {'num_channels'}
DROP_AUTO = {'jagged', 'border_value', 'antialias', 'interpolation', 'noop_eps'}
NUM = r'-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)'


def label_fields(label):
    """top level key -> text of 'Type k=v,k=v'"""
    name, _, rest = label.partition(' ')
    rest = '' if rest == '{}' else rest
    out = {}
    depth = 0
    item = ''
    for ch in rest + ',':
        depth += (ch in '([{') - (ch in ')]}')
        if ch == ',' and depth == 0:
            if item:
                k, _, v = item.partition('=')
                out[k] = v
            item = ''
        else:
            item += ch
    return name, out


def check_label(node, label, fields):
    name, got = label_fields(label)
    if name != type(node).__name__.replace('Delayed', ''):
        raise Violation(f'label {label!r} of a {type(node).__name__}')
    meta = {k: v for k, v in node.meta.items() if v is not None}
    if 'channels' in meta:
        meta.pop('num_channels', None)
    if fields == 'auto':
        meta = {k: v for k, v in meta.items() if k not in DROP_AUTO}
    if 'fpath' in meta:
        import os
        meta['fname'] = os.path.basename(str(meta.pop('fpath')))
    if set(got) != set(meta):
        raise Violation(f'label {label!r} shows {sorted(got)}, the node has {sorted(meta)}')
    if 'dsize' in meta and [int(v) for v in re.findall(r'-?\d+', got['dsize'].replace('int64', '').replace('int32', ''))] != [int(v) for v in meta['dsize']]:
        raise Violation(f'label {label!r}, canvas {meta["dsize"]}')
    if 'channels' in meta and got['channels'] != meta['channels'].spec:
        raise Violation(f'label {label!r}, channels {meta["channels"]}')
    for k in ('overview', 'num_overviews', 'axis', 'fname', 'interpolation', 'backend', 'antialias'):
        if k in meta and got[k] != str(meta[k]):
            raise Violation(f'label {label!r}, {k} is {meta[k]}')
    if 'chan_idxs' in meta and [int(v) for v in re.findall(r'-?\d+', got['chan_idxs'])] != [int(v) for v in meta['chan_idxs']]:
        raise Violation(f'label {label!r}, bands {meta["chan_idxs"]}')
    if 'transform' in meta:
        same_affine(eval('dict(' + got['transform'].strip('{}') + ')'), meta['transform'], f'label {label!r}')


def same_affine(params, tf, what):
    params = {k: v for k, v in params.items() if k != 'type'}
    got = params.pop('matrix', None)
    got = pipe.affine(**params) if got is None else np.asarray(got)
    want = np.asarray(tf.matrix, dtype=float)
    if np.abs(got - want).max() > 6e-3 * max(1, np.abs(want).max() / 20):
        raise Violation(f'{what} describes {np.round(got, 3).tolist()}, the transform is {np.round(want, 3).tolist()}')


def check_graph(node, occ, fields):
    g = node.as_graph(fields) if fields != 'default' else node.as_graph()
    ids = list(g.nodes)
    if len(ids) != len(occ):
        raise Violation(f'the graph has {len(ids)} nodes, the pipeline {len(occ)}')
    roots = [i for i in ids if g.in_degree(i) == 0]
    if len(roots) != 1 or g.number_of_edges() != len(occ) - 1:
        raise Violation(f'the graph has {len(roots)} roots and {g.number_of_edges()} edges for {len(occ)} nodes')
    seen = set()

    def walk(i, n):
        seen.add(i)
        d = g.nodes[i]
        if d['obj'] is not n:
            raise Violation(f'graph node {i} is {d["obj"]}, expected {n}')
        if d['type'] != type(n).__name__ or not i.startswith(type(n).__name__):
            raise Violation(f'graph node {i} of type {d["type"]}, expected {type(n).__name__}')
        check_label(n, d['label'], 'auto' if fields == 'default' else fields)
        succ = list(g.succ[i])
        below = kids(n)
        if len(succ) != len(below):
            raise Violation(f'graph node {i} has {len(succ)} inputs, expected {len(below)}')
        for a, b in zip(succ, below):
            walk(a, b)
    walk(roots[0], node)
    if len(seen) != len(ids):
        raise Violation('the graph is not connected')
    return g


def check_nesting(item, node):
    if item['type'] != type(node).__name__:
        raise Violation(f'nesting says {item["type"]}, the node is a {type(node).__name__}')
    meta = dict(node.meta)
    if set(item['meta']) != set(meta):
        raise Violation(f'nesting shows {sorted(item["meta"])}, the node has {sorted(meta)}')
    for k, v in meta.items():
        got = item['meta'][k]
        if k == 'transform' and v is not None:
            same_affine(got, v, 'nesting')
        elif k == 'channels' and v is not None:
            if got != v.spec:
                raise Violation(f'nesting shows channels {got}, the node has {v.spec}')
        elif repr(c04.plain(got)) != repr(c04.plain(v)):
            raise Violation(f'nesting shows {k} {got}, the node has {v}')
    below = kids(node)
    got = item.get('children', [])
    if len(got) != len(below):
        raise Violation(f'nesting shows {len(got)} inputs, the node has {len(below)}')
    for a, b in zip(got, below):
        check_nesting(a, b)


def text_of(fn, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn(**kw)
    return buf.getvalue()


def strip(s):
    return re.sub(r'\s+', '', s)


def check_text(node, occ, g, rich):
    for method in ('write_network_text', 'print_graph'):
        for vert in (True, False):
            text = text_of(getattr(node, method), with_labels=False, rich=False, vertical_chains=vert)
            r = c23.Reader(text.splitlines(), 'd', 0)
            if sorted(r.shown) != sorted(g.nodes) or sorted(r.tree) != sorted(g.edges) or r.back or r.more:
                raise Violation(f'the text does not show the graph: {text}')
            lab = text_of(getattr(node, method), rich=False, vertical_chains=vert)
            want = text
            for i in sorted(g.nodes, key=len, reverse=True):
                want = want.replace(i, g.nodes[i]['label'])
            if lab != want:
                raise Violation(f'the labelled text does not show the graph:\n{lab}\n{want}')
            if rich:
                pretty = text_of(getattr(node, method), rich=True, vertical_chains=vert)
                if strip(pretty) != strip(lab):
                    raise Violation(f'the formatted text does not show the same:\n{pretty}\n{lab}')
    text = str(node)
    if type(node).__name__ not in text or type(node).__name__ not in repr(node):
        raise Violation(f'{text} / {node!r} for a {type(node).__name__}')


def check_all(node, rich=False):
    occ = flat(node)
    before = [(id(n), meta_text(n)) for n, _, _ in occ]
    for fields in ('auto', 'all', 'default'):
        g = check_graph(node, occ, fields)
    check_nesting(node.nesting(), node)
    check_text(node, occ, g, rich)
    # the private helpers may come and go
    want = collections.Counter((None if par is None else id(occ[par][0]), id(n)) for n, par, _ in occ)
    pairs = want
    if hasattr(node, '_traverse'):
        pairs = collections.Counter((id(p) if p is not None else None, id(n)) for p, n in node._traverse())
    if pairs != want:
        raise Violation(f'the traversal visits {sum(pairs.values())} pairs, the pipeline has {sum(want.values())}')
    leafs = [(n, path) for n, _, path in occ if not kids(n)]
    for fn in (node.leafs, getattr(node, '_leafs', node.leafs)):
        got = collections.Counter(id(n) for n in fn())
        if got != collections.Counter(id(n) for n, _ in leafs):
            raise Violation(f'{sum(got.values())} leafs are listed, the pipeline has {len(leafs)}')
    got = []
    if not hasattr(node, '_leaf_paths'):
        return unchanged(node, before, occ)
    for leaf, part in node._leaf_paths():
        chain = []
        n = part
        while True:
            chain.append((type(n).__name__, meta_text(n)))
            below = kids(n)
            if len(below) > 1 or hasattr(n, 'parts'):
                raise Violation(f'a path to a leaf contains a {type(n).__name__}')
            if not below:
                break
            n = below[0]
        if n is not leaf:
            raise Violation('a path to a leaf ends somewhere else')
        got.append((id(leaf), tuple(chain)))
    want = [(id(n), tuple((type(p).__name__, meta_text(p)) for p in path if not hasattr(p, 'parts')))
            for n, path in leafs]
    if sorted(got) != sorted(want):
        raise Violation(f'{len(got)} paths to leafs, expected {len(want)}: '
                        f'{[[t for t, _ in c] for _, c in got]} / {[[t for t, _ in c] for _, c in want]}')
    return unchanged(node, before, occ)


def unchanged(node, before, occ):
    after = [(id(n), meta_text(n)) for n, _, _ in flat(node)]
    if after != before:
        raise Violation('describing the pipeline changes it')
    return len(occ)


def run(case):
    node, st = pipe.build(case)
    n = check_all(node)
    opt = node.optimize()
    n += check_all(opt)
    return Outcome([core.key(str(c04.describe(node))), core.key(str(c04.describe(opt)))], n, 2)


# a pipeline as a term: every operation over shared sub-pipelines
def terms(depth):
    """Straight line programs: step i applies an op to earlier results."""
    UN = ['crop', 'warp', 'over', 'take', 'deq', 'xr']

    def rec(prog, n):
        yield prog
        if len(prog) == depth:
            return
        for op in UN:
            yield from rec(prog + [[op, len(prog)]], n)
        for a in range(len(prog) + 1):
            yield from rec(prog + [['cat', a, len(prog)]], n)
            if a < len(prog):
                yield from rec(prog + [['cat', len(prog), a]], n)
        yield from rec(prog + [['nans', len(prog)]], n)
    for leaf in LEAFS:
        for p in sorted(rec([], 0), key=len):
            yield [leaf, p]


def leaf_of(name):
    from delayed_image import DelayedLoad, DelayedIdentity, DelayedNans
    from delayed_image.delayed_leafs import DelayedNodata
    if name == 'unprepared':
        return DelayedLoad(pipe.f_cog(), channels='x|y|z')
    if name == 'markup':
        p = pipe.fixture('im[red]b[0].tif', lambda p: pipe.write_tif(p, pipe.ramp()))
        return DelayedLoad(p, channels='x|y|z').prepare()
    if name == 'bare':
        return DelayedIdentity(pipe.ramp())
    if name == 'nodata':
        return DelayedNodata((pipe.W, pipe.H), channels='x|y|z', nodata_method='ma')
    return pipe.make_leaf(name)[0]


LEAFS = ['cog', 'bare', 'unprepared', 'markup', 'nodata', 'nans']


def run_term(case):
    from delayed_image import DelayedChannelConcat, DelayedNans
    leaf, prog = case
    vals = [leaf_of(leaf)]
    canopt = True
    for op, *args in prog:
        a = vals[args[0]]
        if leaf == 'unprepared' and op in ('crop', 'over', 'nans', 'take'):
            return Outcome([], 0, 0, trivial=True)      # they need the size
        if op == 'crop':
            vals.append(a.crop((slice(1, 7), slice(2, 9))))
        elif op == 'warp':
            vals.append(a.warp({'scale': .5, 'theta': .25, 'offset': (-3.5, 2)}, dsize=(12, 10), interpolation='nearest'))
        elif op == 'over':
            vals.append(a.get_overview(1))
        elif op == 'take':
            vals.append(a.take_channels([1, 0]))
        elif op == 'deq':
            vals.append(a.dequantize(dict(pipe.OPS['dq'][1])))
            canopt = False
        elif op == 'xr':
            vals.append(a.as_xarray())
            canopt = False
        elif op == 'nans':
            vals.append(DelayedChannelConcat([a, DelayedNans(a.dsize, channels='m')]))
        elif op == 'cat':
            b = vals[args[1]]
            if a.dsize != b.dsize:
                return Outcome([], 0, 0, trivial=True)
            vals.append(DelayedChannelConcat([a, b]))
    n = check_all(vals[-1], rich=leaf == 'markup' and len(prog) <= 2)
    if canopt:
        n += check_all(vals[-1].prepare().optimize())
    return Outcome([core.key(str(c04.describe(vals[-1])))], n)


ALL = list(pipe.OPS)
CATS = ['cat_ids', 'cat_jag', 'cat_nan', 'cat_cat']


def families(tier):
    en = pipe.enumerate_cases
    fams = [
        Family('ops', lambda: en(['id', 'cog?', 'plain', 'nans'], ALL, 1), run, 'every op'),
        Family('ops2', lambda: en(['cog'] + CATS, c04.DEEP, 2), run, 'depth 2 over files and concatenations'),
        Family('shared', lambda: terms(2), run_term,
               'every straight line program of up to 2 steps (crop, warp, overview, band selection, dequantize, xarray, '
               'concatenation of any two earlier results or with a missing image) over six kinds of leafs'),
    ]
    if tier == 'thorough':
        fams += [
            Family('ops3', lambda: en(['cog', 'cat_jag', 'cat_nan'], c04.DEEP, 3), run, 'depth 3'),
            Family('shared3', lambda: terms(3), run_term, 'straight line programs of up to 3 steps'),
        ]
    return fams
