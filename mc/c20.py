"""
C20: internal caches never change an answer.

A history is a sequence of calls.  Each runs in a process forked from one in
which the library is imported but was never called, and every answer in it must
be the answer the same call gives alone in such a process.  The bounded file
handle cache is compared with a model of a least recently used dictionary.
"""
import itertools
import os
import pickle
import signal
import struct

import numpy as np

from mc import c10, core, pipe
from mc.core import Family, HarnessError, Outcome, Violation

LEVEL = 'model_checking'


# --------------------------------------------------------- fresh processes
def plain(v):
    """comparable data, without calling anything of the library but str"""
    if isinstance(v, np.ma.MaskedArray):
        return ('masked', str(v.dtype), v.shape, np.ma.getmaskarray(v).tobytes(), v.filled(0).tobytes())
    if isinstance(v, np.ndarray):
        return ('array', str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(map(repr, v)))
    if isinstance(v, dict):
        return ('dict', [(plain(k), plain(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [plain(x) for x in v])
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, repr(v))
    if isinstance(v, slice):
        return repr(v)
    name = type(v).__name__
    if hasattr(v, 'parsed'):
        return (name, list(v.parsed))
    if hasattr(v, 'spec'):
        return (name, str(v.spec))
    if name == 'OrderedSet':
        return (name, [plain(x) for x in v])
    return (name, str(v))


def answer(call):
    try:
        return plain(CALLS[call]())
    except Exception as ex:
        return ('raises', type(ex).__name__)


def in_child(func, arg):
    """func(arg) in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(core.CASE_TIMEOUT)
            os.close(r)
            data = pickle.dumps(func(arg))
            with os.fdopen(w, 'wb') as f:
                f.write(struct.pack('q', len(data)) + data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if len(raw) < 8 or len(raw) != 8 + struct.unpack('q', raw[:8])[0]:
        return None
    return pickle.loads(raw[8:])


ALONE = {}


def alone(call):
    if call not in ALONE:
        got = in_child(answer, call)
        if got is None:
            raise Violation(f'{call}: does not return when it is the first call of a process')
        ALONE[call] = got
    return ALONE[call]


def history(calls):
    import warnings
    warnings.simplefilter('ignore')
    return [answer(c) for c in calls]


def run_history(case):
    want = [alone(c) for c in case]
    got = in_child(history, case)
    if got is None:
        raise Violation(f'{case}: no answer')
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            raise Violation(f'{case[i]} after {case[:i]} answers {short(g)}; it answers {short(w)} alone')
    return Outcome([core.key(*got)], len(case))


def short(v):
    return repr(v)[:160]


# ------------------------------------------------------------- the calls
CALLS = {}


def F(v):
    from delayed_image.channel_spec import FusedChannelSpec
    return FusedChannelSpec.coerce(v)


def C(v):
    from delayed_image.channel_spec import ChannelSpec
    return ChannelSpec.coerce(v)


def S(v):
    from delayed_image.sensorchan_spec import SensorChanSpec
    return SensorChanSpec.coerce(v)


FUSED_METHODS = {
    'spec': lambda f: f.spec,
    'parsed': lambda f: list(f.parsed),
    'normalize': lambda f: f.normalize(),
    'normalize2': lambda f: f.normalize().normalize().concise(),
    'concise': lambda f: f.concise(),
    'numel': lambda f: f.numel(),
    'sizes': lambda f: f.sizes(),
    'len': lambda f: len(f.normalize()),
    'as_list': lambda f: f.as_list(),
    'as_set': lambda f: f.as_set(),
    'as_oset': lambda f: f.as_oset(),
    'unique': lambda f: f.unique(),
    'in': lambda f: ['a' in f, 'a.0' in f, 'r' in f],
    'item': lambda f: f[0],
    'tail': lambda f: f[1:],
    'pick': lambda f: f[[0]],
    'sub': lambda f: f - F('a|r'),
    'and': lambda f: f & F('a|r|u0'),
    'or': lambda f: f | F('z|a'),
    'add': lambda f: f + F('z'),
    'indices': lambda f: f.component_indices(),
    'streams': lambda f: f.streams(),
    'split': lambda f: f.split(),
    'fuse': lambda f: f.fuse(),
    'path': lambda f: f.as_path(),
    'str': lambda f: str(f),
    'eq': lambda f: [f == F('a|b'), f == F('rgb')],
    'concat': lambda f: type(f).concat([f, f]),
}
FUSED_VALUES = ['a|b', 'b|a', 'rgb', 'rgb|a', 'r|g|b', 'a:2', 'a.0|a.1', 'a.0:2', '', 2, 'u0|u1', ['a', 'b']]
CHAN_METHODS = {
    'spec': lambda c: c.spec,
    'parse': lambda c: c.parse(),
    'normalize': lambda c: c.normalize(),
    'concise': lambda c: c.concise(),
    'streams': lambda c: c.streams(),
    'numel': lambda c: c.numel(),
    'sizes': lambda c: c.sizes(),
    'unique': lambda c: [c.unique(), c.unique(normalize=True)],
    'in': lambda c: ['a' in c, 'a.0' in c, 'r' in c],
    'fuse': lambda c: c.fuse(),
    'split': lambda c: c.split(),
    'sub': lambda c: c - C('a|r'),
    'and': lambda c: c & C('a|r|u0,a'),
    'or': lambda c: c | C('z|a'),
    'add': lambda c: c + C('z'),
    'info': lambda c: c.info,
    'indices1': lambda c: c.component_indices(axis=1),
    'indices0': lambda c: c.component_indices(axis=0),
    'path': lambda c: c.as_path(),
    'code_list': lambda c: c.code_list(),
    'pickle': lambda c: pickle.loads(pickle.dumps(c)),
    'fused': lambda c: F(c),
}
CHAN_VALUES = ['a|b', 'rgb', 'rgb,a', 'rgb|a', 'a:2,rgb', 'r|g|b,a.0|a.1', '', 2, 'b|a']


def item(keys, axis):
    """one array per key, all values different"""
    n = {'rgb': 3, 'a': 1, 'rgb|a': 4, 'a|rgb': 4, 'r|g|b': 3, 'b': 1, 'a|b': 2, 'b|a': 2}
    out, at = {}, 0
    for k in keys:
        shape = [2, 2, 2]
        shape[axis] = n[k]
        size = int(np.prod(shape))
        out[k] = np.moveaxis(np.arange(at, at + size).reshape(n[k], -1), 0, -1).reshape(-1, n[k]).T.reshape([n[k], 2, 2]) \
            if axis == 0 else np.arange(at, at + size).reshape(shape)
        at += size
    return out


def encode(spec, keys, axis):
    return C(spec).encode(item(keys, axis), axis=axis)


def decode(spec, axis):
    c = C(spec)
    shape = [2, 2, 2]
    out = {}
    for k, n in c.sizes().items():
        shape[axis] = n
        out[k] = np.arange(int(np.prod(shape))).reshape(shape)
    return c.decode(out, axis=axis)


SENSOR_VALUES = ['S:a|b', 'S:b|a', '(S):a|b', 'S:(a,b)', '(S,T):a', 'S:a,T:a', 'a|b', 'S:rgb', 'S:a:2', 'S:a.0|a.1', '', '*:a', 'S:(a,b']
SENSOR_METHODS = {
    'normalize': lambda s: s.normalize().spec,
    'concise': lambda s: s.concise().spec,
    'round': lambda s: s.normalize().concise().spec,
    'round2': lambda s: s.concise().normalize().spec,
    'streams': lambda s: [str(x) for x in s.streams()],
    'split': lambda s: s.split().spec,
    'chans': lambda s: s.chans,
    'numel': lambda s: s.numel(),
    'matching': lambda s: s.matching_sensor('S').spec,
    'fuse': lambda s: s.late_fuse(S('T:a')).spec,
    'str': lambda s: s.spec,
}


def _register():
    for v in FUSED_VALUES + [True, 1, '1', '2', 1.0, 2.0, None]:
        for m, f in FUSED_METHODS.items():
            CALLS[f'F({v!r}).{m}'] = (lambda v=v, f=f: f(F(list(v) if isinstance(v, list) else v)))
    for v in CHAN_VALUES:
        for m, f in CHAN_METHODS.items():
            CALLS[f'C({v!r}).{m}'] = (lambda v=v, f=f: f(C(v)))
    for v in SENSOR_VALUES:
        for m, f in SENSOR_METHODS.items():
            CALLS[f'S({v!r}).{m}'] = (lambda v=v, f=f: f(S(v)))
    for axis in (0, 1, 2):
        for spec, keys in [('rgb|a', ('rgb', 'a')), ('rgb|a', ('rgb|a',)), ('a|rgb', ('rgb', 'a')), ('rgb,a', ('rgb|a',)), ('a,rgb', ('a', 'rgb')),
                           ('a,rgb', ('a|rgb',)), ('a|b', ('a', 'b')), ('b|a', ('a', 'b')), ('a|b', ('b|a',)), ('a,b', ('b|a',)), ('a', ('b|a',)),
                           ('r|g|b,a', ('r|g|b', 'a')), ('a|b', ('b', 'a')), ('rgb', ('a',))]:
            CALLS[f'encode({spec!r},{keys},{axis})'] = (lambda spec=spec, keys=keys, axis=axis: encode(spec, keys, axis))
        for spec in ('rgb|a', 'a|rgb', 'rgb,a', 'a|b', 'b|a', 'a,b'):
            CALLS[f'decode({spec!r},{axis})'] = (lambda spec=spec, axis=axis: decode(spec, axis))


_register()


# ------------------------------------------------------------ image files
FILES = ['tif-f4-3', 'tif-i16-3-nd', 'tif-f4-3-ovr', 'bsq-f4-3']


def fpath(k):
    return c10.build_file(FILES[k])[0]


POOL = {}


def lazy(k, nodata=None, over=0, index=slice(None), keep=False):
    from delayed_image.lazy_loaders import LazyGDalFrameFile
    mk = lambda: LazyGDalFrameFile(fpath(k), nodata_method=nodata, overview=over)     # noqa
    f = POOL.setdefault(('lazy', k, nodata, over), mk()) if keep else mk()
    return [f.shape, f.num_overviews, np.dtype(f.dtype).str, f[index]]


def loaded(k, nodata=None, keep=False, how='all'):
    from delayed_image import DelayedLoad
    def mk():                                                                     # noqa
        return DelayedLoad(fpath(k), nodata_method=nodata).prepare()
    n = POOL.setdefault(('load', k, nodata), mk()) if keep else mk()
    if how == 'crop':
        n = n.crop((slice(1, 4), slice(0, 3)))
    if how == 'over':
        n = n.get_overview(1)
    if how == 'take':
        n = n.take_channels([1])
    out = n.finalize()
    if hasattr(out, '__getitem__') and not isinstance(out, np.ndarray):
        out = out[:]
    return [n.dsize, out]


FILE_CALLS = []


def _register_files():
    for k in range(4):
        for keep in (False, True):
            for nodata in (None, 'ma', 'float'):
                if nodata and k in (0, 3):
                    continue
                name = f'lazy({k},{nodata},keep={keep})'
                CALLS[name] = lambda k=k, nodata=nodata, keep=keep: lazy(k, nodata, 0, slice(0, 3), keep)
                FILE_CALLS.append(name)
                for how in ('all', 'crop'):
                    name = f'load({k},{nodata},{how},keep={keep})'
                    CALLS[name] = lambda k=k, nodata=nodata, how=how, keep=keep: loaded(k, nodata, keep, how)
                    FILE_CALLS.append(name)
            if k == 2:
                for name, f in [(f'lazyover(keep={keep})', lambda keep=keep: lazy(2, None, 1, slice(None), keep)),
                                (f'loadover(keep={keep})', lambda keep=keep: loaded(2, None, keep, 'over')),
                                (f'loadtake(keep={keep})', lambda keep=keep: loaded(2, None, keep, 'take'))]:
                    CALLS[name] = f
                    FILE_CALLS.append(name)


_register_files()


def file_history(arg):
    size, calls = arg
    from delayed_image import lazy_loaders
    lazy_loaders.GLOBAL_GDAL_CACHE = None if size is None else lazy_loaders.CacheDict(cache_len=size)
    out = history(calls)
    held = -1 if size is None else len(lazy_loaders.GLOBAL_GDAL_CACHE)
    return out, held


def run_files(case):
    size, calls = case
    want = [alone(c) for c in calls]
    for c, w in zip(calls, want):
        if w[0] == 'raises':
            raise Violation(f'{c} {w}')
    got = in_child(file_history, case)
    if got is None:
        raise Violation(f'{case}: no answer')
    got, held = got
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            raise Violation(f'handle cache of {size}: {calls[i]} after {calls[:i]} answers {short(g)}; it answers {short(w)} alone')
    if size is not None and held > size:
        raise Violation(f'handle cache of {size} holds {held} after {calls}')
    return Outcome([core.key(*got)], len(calls))


# -------------------------------------------------------- files rewritten
VERSIONS = [(np.uint8, 3, 4, 2), (np.float32, 4, 3, 1), (np.uint8, 3, 4, 2, 9)]


def version(k):
    dt, h, w, c = VERSIONS[k][:4]
    return (c10.pattern(h, w, c, dt) + (k * 7)).astype(dt)


REWRITES = ['write0', 'write1', 'write2', 'replace0', 'replace1', 'lazy', 'load', 'crop', 'remove']


def rewrite_history(ops):
    from delayed_image import DelayedLoad
    from delayed_image.lazy_loaders import LazyGDalFrameFile
    p = os.path.join(pipe.workdir(), f're{os.getpid()}.tif')
    now = None
    try:
        for i, op in enumerate(ops):
            if op.startswith('write'):
                now = int(op[-1])
                pipe.write_tif(p, version(now))
            elif op.startswith('replace'):
                now = int(op[-1])
                pipe.write_tif(p + '.new.tif', version(now))
                os.replace(p + '.new.tif', p)
            elif op == 'remove':
                now = None
                if os.path.exists(p):
                    os.unlink(p)
            else:
                try:
                    if op == 'lazy':
                        f = LazyGDalFrameFile(p)
                        got = (f.shape, f[:])
                    elif op == 'load':
                        n = DelayedLoad(p).prepare()
                        got = (n.shape, np.asarray(n.finalize()[:]))
                    else:
                        n = DelayedLoad(p).prepare()
                        got = (n.shape, n.crop((slice(0, n.shape[0]), slice(0, n.shape[1]))).finalize())
                except Exception as ex:
                    if now is not None:
                        return f'{op} after {ops[:i]} fails: {ex!r}'
                    continue
                if now is None:
                    return f'{op} after {ops[:i]} reads a file which is not there'
                v = version(now)
                if tuple(got[0]) != v.shape or got[1].dtype != v.dtype or not np.array_equal(got[1], v):
                    return f'{op} after {ops[:i]} does not return what the file holds'
    finally:
        for q in (p, p + '.aux.xml'):
            if os.path.exists(q):
                os.unlink(q)
    return 'ok'


def run_rewrite(ops):
    got = in_child(rewrite_history, ops)
    if got != 'ok':
        raise Violation(got or 'no answer')
    return Outcome([core.key(*ops[-2:])], len(ops))


# ------------------------------------------------- the bounded dictionary
class Model:
    """least recently used, as a list of pairs"""

    def __init__(self, size):
        self.size, self.items = size, []

    def find(self, k):
        for i, (a, _) in enumerate(self.items):
            if a == k:
                return i
        return None

    def set(self, k, v):
        i = self.find(k)
        if i is not None:
            del self.items[i]
        self.items.append((k, v))
        del self.items[:-self.size]

    def get(self, k):
        i = self.find(k)
        if i is None:
            return KeyError
        self.items.append(self.items.pop(i))
        return self.items[-1][1]


def dict_ops():
    keys = 'abc'
    return [f'set {k}' for k in keys] + [f'get {k}' for k in keys] + [f'in {k}' for k in keys[:1]] + \
        [f'del {k}' for k in keys[:2]] + ['update', 'setdefault a', 'pop a', 'clear']


def run_dict(case):
    size, init, ops = case
    from delayed_image.lazy_loaders import CacheDict
    d = CacheDict([(k, k) for k in init], cache_len=size) if init else CacheDict(cache_len=size)
    m = Model(size)
    for k in init:
        m.set(k, k)
    states = []
    for i, op in enumerate(ops):
        name, _, k = op.partition(' ')
        where = f'cache of {size} starting with {init!r}: {op} after {ops[:i]}'
        if name == 'set':
            d[k] = i
            m.set(k, i)
        elif name == 'get':
            want = m.get(k)
            try:
                got = d[k]
            except KeyError:
                got = KeyError
            if got != want:
                raise Violation(f'{where}: {got!r} instead of {want!r}')
        elif name == 'in':
            if (k in d) != (m.find(k) is not None):
                raise Violation(f'{where}: {k in d}')
        elif name == 'del':
            j = m.find(k)
            if j is not None:
                del m.items[j]
            try:
                del d[k]
            except KeyError:
                if j is not None:
                    raise Violation(f'{where}: KeyError')
        elif name == 'update':
            d.update({'c': i, 'd': i})
            m.set('c', i)
            m.set('d', i)
        elif name == 'setdefault':
            if m.find(k) is None:
                m.set(k, i)
                d.setdefault(k, i)
            else:
                d.setdefault(k, i)
                return Outcome(states, i + 1)   # whether this counts as a use is not specified
        elif name == 'pop':
            j = m.find(k)
            want = None if j is None else m.items.pop(j)[1]
            if d.pop(k, None) != want:
                raise Violation(f'{where}: wrong value')
            if len(d) != len(m.items):
                raise Violation(f'{where}: not removed')
        elif name == 'clear':
            d.clear()
            m.items.clear()
        if len(d) > size:
            raise Violation(f'{where}: holds {len(d)}')
        got = sorted((k, OD(d, k)) for k in d)
        if got != sorted(m.items):
            raise Violation(f'{where}: holds {got}, not {m.items}')
        states.append(core.key(size, m.items))
    return Outcome(states, len(ops))


def OD(d, k):
    import collections
    return collections.OrderedDict.__getitem__(d, k)


def forget():
    ALONE.clear()


def warm():
    """building the grammar is slow: processes are forked after it"""
    ALONE.clear()
    from delayed_image import sensorchan_spec
    build = getattr(sensorchan_spec, '_global_sensor_chan_parser', None)
    if build is not None:
        build()


# ------------------------------------------------------------------ families
def pairs(names):
    return lambda: ([a, b] for a in names for b in names)


def fused_names(values, methods=None):
    return [f'F({v!r}).{m}' for v in values for m in (methods or FUSED_METHODS)]


def chan_names(values, methods=None):
    return [f'C({v!r}).{m}' for v in values for m in (methods or CHAN_METHODS)]


def sensor_names(values, methods=None):
    return [f'S({v!r}).{m}' for v in values for m in (methods or SENSOR_METHODS)]


def prepare_files():
    for k in range(4):
        fpath(k)


def file_cases(depth, sizes, calls):
    def gen():
        prepare_files()
        for size in sizes:
            for seq in itertools.product(calls, repeat=depth):
                yield [size, list(seq)]
    return gen


def families(tier):
    enc = [c for c in CALLS if c.startswith(('encode', 'decode'))]
    few = ['parsed', 'normalize', 'concise', 'as_list', 'sub', 'add', 'item']
    sens = sensor_names(SENSOR_VALUES[:12], ['normalize', 'concise', 'streams', 'fuse'])
    cold = sensor_names(['S:a|b', '(S):a|b', ''], ['normalize', 'concise', 'streams', 'matching'])
    some_files = [c for c in FILE_CALLS if 'keep=True' in c or 'crop' in c or 'over' in c]
    some_files = [c for c in some_files if not c.startswith(('lazy(0', 'load(3', 'lazy(1,float', 'load(2,ma', 'load(2,float'))]
    short_files = [c for c in FILE_CALLS if 'all' not in c]
    fams = [
        Family('fused', lambda: ([a, b] for v in ['a|b', 'rgb|a', 'a:2', 2, ['a', 'b']] for a in fused_names([v]) for b in fused_names([v])), run_history,
               'every two methods of one channel spec'),
        Family('fused_values', pairs(fused_names(FUSED_VALUES, few)), run_history, 'seven methods of every two of twelve channel specs'),
        Family('numbers', pairs(fused_names([2, True, 1, '1', '2', 1.0, 2.0, None], ['parsed', 'numel'])), run_history, 'numbers which are equal, and strings of them'),
        Family('chan', lambda: ([a, b] for v in CHAN_VALUES for a in chan_names([v]) for b in chan_names([v])), run_history, 'every two methods of one stream spec'),
        Family('mixed', pairs(chan_names(CHAN_VALUES[:6], ['parse', 'normalize', 'concise', 'streams', 'fuse']) + fused_names(['a|b', 'rgb', 'a:2'], few)), run_history,
               'stream specs and channel specs'),
        Family('encode', pairs(enc), run_history, 'every two encodings and decodings of ten layouts along three axes'),
        Family('sensor_cold', pairs(cold), run_history, 'four methods of every two of three sensor specs, starting without a grammar', forget),
        Family('sensor', pairs(sens), run_history, 'four methods of every two of twelve sensor specs, in processes which have built the grammar', warm),
        Family('sensor_one', lambda: ([a, b] for v in SENSOR_VALUES for a in sensor_names([v]) for b in sensor_names([v])), run_history, 'every two methods of one sensor spec', warm),
        Family('triples', lambda: ([a, b, c] for v in ['a|b', 'a:2', 'rgb'] for a in fused_names([v], few + ['concat', 'unique']) for b in fused_names([v], few) for c in fused_names([v], few)),
               run_history, 'three calls on one channel spec'),
        Family('files', file_cases(2, (None, 1), some_files), run_files, 'every two reads of four files, new and kept objects, no handle cache or one of one file'),
        Family('rewrite', lambda: (list(s) for n in (1, 2, 3, 4) for s in itertools.product(REWRITES, repeat=n) if s[-1] in ('lazy', 'load', 'crop') and s[0] not in ('remove',)),
               run_rewrite, 'every sequence of up to four writes, replacements, removals and readings of one path'),
        Family('cachedict', lambda: ([size, init, list(ops)] for size in (1, 2, 3) for init in ('', 'ab', 'abcd') for ops in itertools.product(dict_ops(), repeat=4)), run_dict,
               'every sequence of four operations on caches of one to three entries'),
    ]
    if tier == 'thorough':
        fams += [
            Family('files_all', file_cases(2, (None, 1, 2), FILE_CALLS), run_files, 'every two reads, more kinds'),
            Family('fused_all', pairs(fused_names(FUSED_VALUES)), run_history, 'every two methods of every two channel specs'),
            Family('chan_all', pairs(chan_names(CHAN_VALUES)), run_history, 'every two methods of every two stream specs'),
            Family('sensor_all', pairs(sensor_names(SENSOR_VALUES)), run_history, 'every two methods of every two sensor specs'),
            Family('files3', file_cases(3, (None, 1, 2), short_files), run_files, 'every three reads'),
            Family('rewrite5', lambda: (list(s) for s in itertools.product(REWRITES, repeat=5) if s[-1] in ('lazy', 'load', 'crop') and s[0] != 'remove'), run_rewrite, 'five operations on one path'),
            Family('cachedict5', lambda: ([size, init, list(ops)] for size in (1, 2, 3) for init in ('', 'abcd') for ops in itertools.product(dict_ops(), repeat=5)), run_dict, 'five operations'),
        ]
    return fams
