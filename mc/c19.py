"""
C19: threads sharing pipelines, files and specs get the sequential results.

Two threads run the real code under the scheduler of mc/sched.py, which decides
at every source line of the library who goes on.  Every schedule with one
preemption at any line, and with two next to any stores, is executed.
"""
import os
import re

import numpy as np

from mc import c10, c20, core, pipe, sched
from mc.core import Family, HarnessError, Outcome, Violation

LEVEL = 'model_checking'


def before_import():
    sched.install_locks()


SCENARIOS = {}


def scenario(func):
    SCENARIOS[func.__name__[2:]] = func
    return func


def arr(x):
    return np.asarray(x[:]) if not isinstance(x, np.ndarray) else x


def data(shape=(6, 7, 2), k=0):
    return (np.arange(int(np.prod(shape))) + 10 * k).reshape(shape).astype(np.float32)


def leaf(channels='a|b', k=0):
    from delayed_image import DelayedIdentity
    return DelayedIdentity(data(k=k), channels=channels)


def load(name, **kw):
    from delayed_image import DelayedLoad
    return DelayedLoad(c10.build_file(name)[0], **kw)


def desc(n):
    return repr(n.nesting())


def text(n):
    lines = []
    n.write_network_text(path=lambda t: lines.append(t), with_labels=True)
    return re.sub(r'at 0x[0-9a-f]+|0x[0-9a-f]+', '@', ''.join(lines))


# every scenario returns two thunks, and thunks to call when both are done
def walk(n):
    yield n
    for x in n.children():
        yield from walk(x)


@scenario
def s_finalize_twice(u):
    n = leaf().crop((slice(1, 5), slice(0, 6))).warp({'scale': .5}, interpolation='nearest', antialias=False)
    f = lambda: n.finalize()      # noqa
    return f, f, [f]


@scenario
def s_optimize_finalize(u):
    n = leaf().warp({'scale': 2}, interpolation='nearest').crop((slice(1, 9), slice(2, 9)))
    return (lambda: n.optimize().finalize()), (lambda: n.finalize()), [lambda: n.finalize(optimize=False)]


@scenario
def s_extend_finalize(u):
    n = leaf().crop((slice(0, 5), slice(1, 7)))
    return (lambda: n.crop((slice(1, 3), slice(0, 3))).take_channels('b').finalize()), (lambda: n.finalize()), [lambda: n.finalize()]


@scenario
def s_inspect_optimize(u):
    n = leaf().crop((slice(0, 5), slice(1, 7))).warp({'scale': .5})
    return (lambda: [desc(n), [type(x).__name__ for x in walk(n)], n.shape, str(n.channels.spec)]), (lambda: desc(n.optimize())), [lambda: desc(n)]


@scenario
def s_concat_take(u):
    from delayed_image import DelayedChannelConcat
    a = leaf('a|b')
    n = DelayedChannelConcat([a, leaf('c|d', 1), a.warp({'offset': (1, 0)}, dsize=(7, 6), interpolation='nearest').take_channels('a')])
    return (lambda: n.take_channels('c|b').finalize()), (lambda: n.crop((slice(1, 4), slice(2, 6))).finalize()), [lambda: n.finalize()]


@scenario
def s_concat_optimize(u):
    from delayed_image import DelayedChannelConcat
    a = leaf('a|b').crop((slice(0, 4), slice(0, 4)))
    n = DelayedChannelConcat([a, a.dequantize({'orig_min': 0., 'orig_max': 1., 'quant_min': 0, 'quant_max': 100, 'nodata': None})])
    return (lambda: n.optimize().finalize()), (lambda: n.optimize().finalize()), [lambda: desc(n)]


@scenario
def s_overview(u):
    from delayed_image import DelayedNodata, DelayedChannelConcat
    n = DelayedChannelConcat([leaf('a|b'), DelayedNodata((7, 6), channels='c')]).get_overview(1)
    return (lambda: n.finalize()), (lambda: n.warp({'scale': 2}, interpolation='nearest').optimize().finalize()), [lambda: n.finalize()]


@scenario
def s_undo(u):
    n = leaf().warp({'scale': .5}).crop((slice(0, 3), slice(0, 3)))
    return (lambda: desc(n.undo_warp(remove=['scale']))), (lambda: np.asarray(n.get_transform_from_leaf().matrix).round(6).tolist()), [lambda: desc(n)]


@scenario
def s_xarray(u):
    n = leaf().crop((slice(0, 3), slice(0, 3)))
    return (lambda: n.as_xarray().finalize().values), (lambda: n.as_xarray().optimize().finalize().values), []


@scenario
def s_graph(u):
    n = leaf().crop((slice(0, 3), slice(0, 3)))
    return (lambda: sorted(d.get('type', '') for _, d in n.as_graph().nodes(data=True))), (lambda: desc(n.optimize())), []


@scenario
def s_meta(u):
    n = leaf().crop((slice(0, 3), slice(0, 3)))
    return (lambda: [n.dsize, n.num_channels, n.channels.spec, n.shape]), (lambda: n[0:2, 0:2, [1]].finalize()), []


# ---- files
def read_scenario(name, f0, f1, prepared=True, **kw):
    def build(u):
        n = load(name, **kw)
        if prepared:
            n.prepare()
        return (lambda: f0(n)), (lambda: f1(n)), [lambda: f0(n), lambda: f1(n)]
    return build


def whole(n):
    return arr(n.finalize())


def cropped(n):
    return n.crop((slice(1, 4), slice(0, 3))).finalize()


def banded(n):
    return n.take_channels([1]).crop((slice(0, 3), slice(2, 5))).finalize()


def ovr(n):
    return arr(n.get_overview(1).finalize())


def prep(n):
    n.prepare()
    return [n.dsize, n.num_channels, n.meta['num_overviews']]


def unprep(n):
    return arr(n.finalize(prepare=False, optimize=False))


FILE_SCENARIOS = {
    'load_load': read_scenario('tif-f4-3', whole, whole),
    'load_crop': read_scenario('tif-i16-3-nd', cropped, banded, nodata_method='ma'),
    'load_float': read_scenario('tif-i16-3-nd', cropped, whole, nodata_method='float'),
    'load_ovr': read_scenario('tif-f4-3-ovr', ovr, cropped),
    'ovr_ovr': read_scenario('tif-f4-3-ovr', ovr, ovr),
    'prep_prep': read_scenario('tif-f4-3-ovr', prep, prep, prepared=False),
    'unprep': read_scenario('tif-f4-3', unprep, unprep, prepared=False),
    'prep_load': read_scenario('tif-f4-3', lambda n: arr(n.prepare().finalize()), lambda n: cropped(n.prepare()), prepared=False),
    'envi': read_scenario('bsq-f4-3', cropped, banded),
}


def lazy_scenario(name, f0, f1, **kw):
    def build(u):
        from delayed_image.lazy_loaders import LazyGDalFrameFile
        f = LazyGDalFrameFile(c10.build_file(name)[0], **kw)
        return (lambda: f0(f)), (lambda: f1(f)), [lambda: f0(f), lambda: f1(f)]
    return build


FILE_SCENARIOS.update({
    'lazy_lazy': lazy_scenario('tif-f4-3', lambda f: f[0:3], lambda f: f[2:, 1:4]),
    'lazy_meta': lazy_scenario('tif-f4-3-ovr', lambda f: [f.shape, f.num_overviews, np.dtype(f.dtype).str], lambda f: f[1:3, :, 1]),
    'lazy_over': lazy_scenario('tif-f4-3-ovr', lambda f: f[0:2], lambda f: f.get_overview(1)[0:2]),
    'lazy_nodata': lazy_scenario('tif-i16-3-nd', lambda f: f[0:2], lambda f: f[1:3, 0:4], nodata_method='ma'),
    'lazy_nodata1': lazy_scenario('tif-u8-1-nd', lambda f: f[0:2], lambda f: f[1:3, 0:4], nodata_method='float'),
})
SCENARIOS.update(FILE_SCENARIOS)


def shared_files(u):
    """two pipelines over one leaf"""
    n = load('tif-i16-3-nd', nodata_method='float').prepare()
    a = n.crop((slice(0, 3), slice(0, 3)))
    b = n.warp({'scale': .5}, interpolation='nearest', antialias=False)
    return (lambda: a.finalize()), (lambda: b.finalize()), [lambda: a.finalize(), lambda: b.finalize()]


FILE_SCENARIOS['shared_leaf'] = SCENARIOS['shared_leaf'] = shared_files


# ---- specs: new names for every schedule, so that everything is a first time
@scenario
def s_coerce_same(u):
    from delayed_image.channel_spec import FusedChannelSpec as FS
    v = f'p{u}|q{u}.0:3'
    f = lambda: [FS.coerce(v).normalize().as_list(), FS.coerce(v).concise().spec, FS.coerce(v).numel()]     # noqa
    return f, f, [f]


@scenario
def s_coerce_other(u):
    from delayed_image.channel_spec import FusedChannelSpec as FS
    f = lambda v: FS.coerce(v).normalize().parsed     # noqa
    return (lambda: f(f'p{u}.0:2|z')), (lambda: f(f'z|p{u}.0:2')), [lambda: f(f'p{u}.0:2|z'), lambda: f(f'z|p{u}.0:2')]


@scenario
def s_spec_shared(u):
    from delayed_image.channel_spec import FusedChannelSpec as FS
    s = FS.coerce(f'p{u}.0:3|q{u}')
    return (lambda: [s.as_list(), s.sizes(), s.as_set() == set(s.as_list())]), (lambda: [s.concise().spec, s.numel(), (s - {f'q{u}'}).parsed]), [lambda: s.normalize().spec]


@scenario
def s_streams(u):
    from delayed_image.channel_spec import ChannelSpec as CS
    v = f'p{u}|q{u},rgb,p{u}.0:2'
    s = CS.coerce(v)
    return (lambda: [s.sizes(), s.normalize().spec]), (lambda: [s.numel(), s.concise().spec, CS.coerce(v).fuse().spec if False else [x.spec for x in s.streams()]]), [lambda: s.spec]


@scenario
def s_encode(u):
    from delayed_image.channel_spec import ChannelSpec as CS
    v = CS.coerce(f'p{u}|q{u}')
    item = {f'q{u}': data((1, 2, 2)), f'p{u}': data((1, 2, 2), 7)}
    f = lambda: list(v.encode(item, axis=0).values())      # noqa
    return f, f, [f]


@scenario
def s_sensor(u):
    from delayed_image.sensorchan_spec import SensorChanSpec as SC
    v = f'(S{u},T):(a|b.0:2,rgb)'
    return (lambda: SC.coerce(v).normalize().spec), (lambda: [SC.coerce(v).concise().spec, [str(x) for x in SC.coerce(v).streams()]]), [lambda: SC.coerce(v).normalize().spec]


@scenario
def s_sensor_cold(u):
    """the grammar is not built yet"""
    from delayed_image import sensorchan_spec as m
    for obj in list(vars(m).values()):
        if hasattr(obj, 'cache_clear'):
            obj.cache_clear()
    f = lambda: m.SensorChanSpec.coerce(f'S{u}:a|b').normalize().spec      # noqa
    return f, f, [f]


@scenario
def s_image_spec(u):
    from delayed_image import DelayedIdentity
    n = DelayedIdentity(data(), channels=f'p{u}|q{u}')
    return (lambda: n.take_channels(f'q{u}').finalize()), (lambda: [n.channels.spec, n.take_channels(f'q{u}|p{u}').finalize()]), []


# ------------------------------------------------------------- exploration
UID = [0]


def fresh(name):
    UID[0] += 1
    u = f'{UID[0]:06d}'
    return u, SCENARIOS[name](u)


def norm(res, u):
    """what a thread got, with the new names taken out"""
    kind, v = res
    return repr((kind, c20.plain(v) if kind == 'returns' else v)).replace(u, '@')


class gdal_points:
    def __init__(self, name):
        self.on = name in FILE_SCENARIOS

    def __enter__(self):
        if self.on:
            self.w = sched.instrument_gdal()
            self.w.__enter__()

    def __exit__(self, *a):
        if self.on:
            self.w.__exit__(*a)


WANT = {}


def setup():
    """the interpreter reports opcodes only once it was asked to"""
    from delayed_image.channel_spec import FusedChannelSpec
    for _ in range(2):
        sched.count(lambda: FusedChannelSpec(['a', 'b']).normalize(), 'store')


def expected(name):
    """each thread alone, and what comes after both ran in turn"""
    if name not in WANT:
        out = []
        for which in (0, 1):
            u, (f0, f1, after) = fresh(name)
            out.append(norm(('returns', (f0, f1)[which]()), u))
        u, (f0, f1, after) = fresh(name)
        f0(), f1()
        out.append([norm(('returns', g()), u) for g in after])
        WANT[name] = out
    return WANT[name]


def counts(name, mode):
    """points of either thread; measured after everything is warmed up"""
    expected(name)
    setup()
    out = []
    with gdal_points(name):
        for which in (0, 1):
            u, th = fresh(name)
            out.append(sched.count(th[which], mode))
    return out


def cases(names, mode, preemptions, stride=1):
    def gen():
        for name in names:
            n = counts(name, mode)
            for first in (0, 1):
                yield [name, mode, first, []]
            for first in (0, 1):
                for a in range(1, n[first] + 1, stride):
                    if preemptions == 1:
                        yield [name, mode, first, [a]]
                    else:
                        for b in range(1, n[1 - first] + 1, stride):
                            yield [name, mode, first, [a, b]]
    return gen


def run(case):
    name, mode, first, plan = case
    want = expected(name)
    u, (f0, f1, after) = fresh(name)
    with gdal_points(name):
        s = sched.Sched([f0, f1], first, plan, mode).run()
    where = f'{name}: thread {first} starts, preempted after {plan} points {s.trail}'
    sched.check_problem(s, where)
    got = []
    for i in (0, 1):
        g = norm(s.results[i], u)
        got.append(g)
        if g != want[i]:
            raise Violation(f'{where}: thread {i} gets {g[:150]}, alone it gets {want[i][:150]}')
    for k, g in enumerate(after):
        try:
            res = norm(('returns', g()), u)
        except Exception as ex:
            raise Violation(f'{where}: afterwards call {k} fails: {ex!r}')
        if res != want[2][k]:
            raise Violation(f'{where}: afterwards call {k} gets {res[:150]} instead of {want[2][k][:150]}')
    return Outcome([core.key(name, s.trail)], sum(s.points))


NODES = ['finalize_twice', 'optimize_finalize', 'extend_finalize', 'inspect_optimize', 'concat_take', 'concat_optimize', 'overview', 'undo', 'xarray', 'graph', 'meta']
SPECS = ['coerce_same', 'coerce_other', 'spec_shared', 'streams', 'encode', 'sensor', 'sensor_cold', 'image_spec']


def families(tier):
    files = list(FILE_SCENARIOS)
    fams = [
        Family('nodes', cases(NODES, 'line', 1), run, 'one preemption at any line; two threads working on shared nodes', setup),
        Family('files', cases(files, 'line', 1), run, 'one preemption at any line or inside any file library call; two threads reading through shared objects', setup),
        Family('specs', cases(SPECS, 'line', 1), run, 'one preemption at any line; two threads parsing the same new codes', setup),
        Family('specs2', cases(['coerce_same', 'spec_shared', 'encode'], 'store', 2), run, 'two preemptions next to any stores; specs', setup),
        Family('files2', cases(['lazy_lazy', 'lazy_meta'], 'store', 2), run, 'two preemptions next to any stores or inside file library calls', setup),
    ]
    if tier == 'thorough':
        fams += [
            Family('nodes2', cases(NODES, 'store', 2), run, 'two preemptions next to any stores; nodes', setup),
            Family('files2_all', cases(files, 'store', 2), run, 'two preemptions next to any stores or inside file library calls', setup),
            Family('specs2_all', cases(SPECS[:6] + SPECS[7:], 'store', 2), run, 'two preemptions next to any stores; specs', setup),
        ]
    return fams
