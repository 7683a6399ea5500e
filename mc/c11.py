"""
C11: dequantization.  Model: extended precision arithmetic on the stored integers.

``fn`` decodes every representable 8 and 16 bit value under a grid of
quantizations; ``pipe`` sends small images with every value class through all
short pipelines; ``quantize`` round-trips a fine grid of physical values.
"""
import itertools

import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'

DTYPES = ['uint8', 'int8', 'uint16', 'int16', 'int32', 'uint32', 'int64', 'float32', 'float64']
ORIG = [(0, 1), (-1., 3.), (0., 0.), (5., -5.), (-9.5, 2.25e4)]
QUANT = [(0, 255), (1, 255), (-100, 100), (7, 7), (0, 32767), (255, 0)]
NODATA = ['absent', None, 0, 255, 7, -9999, -1, float('nan'), 1.5, 254.0, 1e20, float('inf')]
ODT = ['absent', 'float32', 'float64', 'int16', 'uint8']


def values(dtype):
    dt = np.dtype(dtype)
    if dt.kind in 'ui':
        ii = np.iinfo(dt)
        if dt.itemsize <= 2:
            return np.arange(ii.min, ii.max + 1, dtype=np.int64).astype(dt)
        v = [ii.min, ii.min + 1, ii.max, ii.max - 1] + list(range(-300 if ii.min < 0 else 0, 300)) + \
            [s * (1 << k) + d for k in range(9, dt.itemsize * 8 - 1) for d in (-1, 0, 1) for s in (1, -1)]
        v = [x for x in v if ii.min <= x <= ii.max]
        if ii.min <= -9999:
            v.append(-9999)
        return np.array(v, dtype=dt)
    v = [0, 1, 7, 254, 255, 1.5, -1, -9999, 256, 1e6, np.nan, np.inf, -np.inf, 1e20, 123.25]
    return np.array(v, dtype=dt)


def spec(odt, orig, quant, nodata):
    q = {'quant_max': quant[1]}
    if quant[0] != 0:
        q['quant_min'] = quant[0]
    if tuple(orig) != (0, 1):
        q['orig_min'], q['orig_max'] = orig
    if odt != 'absent':
        q['orig_dtype'] = odt
    if nodata != 'absent':
        q['nodata'] = nodata
    return q


def expected(vals, odt, orig, quant, nodata):
    """-> (expected, tolerance, missing mask, skip mask)

    80 bit floats hold every stored integer (up to 64 bits) exactly.
    """
    L = np.longdouble
    v = vals.astype(L)
    if isinstance(nodata, str) or nodata is None:
        miss = np.zeros(v.shape, dtype=bool)
    elif nodata != nodata:
        miss = np.isnan(v)
    else:
        # a missing value is the stored number closest to it
        miss = v == L(vals.dtype.type(nodata) if vals.dtype.kind == 'f' else nodata)
    skip = ~np.isfinite(v) & ~miss
    v = np.where(np.isfinite(v), v, L(0))
    ext = L(quant[1]) - L(quant[0])
    scale = L(0) if ext == 0 else (L(orig[1]) - L(orig[0])) / ext
    want = (v - L(quant[0])) * scale + L(orig[0])
    eps = 1.3e-7 if odt in ('absent', 'float32') else 3e-16
    tol = 4 * eps * ((np.abs(v) + abs(quant[0])) * abs(scale) + abs(orig[0]))
    return want, tol, miss, skip


def compare(got, vals, q_args, what):
    odt, orig, quant, nodata = q_args
    want, tol, miss, skip = expected(vals, odt, orig, quant, nodata)
    got = np.asarray(got)
    if got.shape != vals.shape:
        raise Violation(f'{what}: shape {got.shape}, expected {vals.shape}')
    if got.dtype.kind != 'f':
        raise Violation(f'{what}: dtype {got.dtype}')
    if odt in ('absent', 'float32', 'float64') and got.dtype != np.dtype('float32' if odt == 'absent' else odt):
        raise Violation(f'{what}: dtype {got.dtype} but {odt} was requested')
    nan = np.isnan(got)
    bad = (nan != miss) & ~skip
    if bad.any():
        v = vals[bad][0]
        raise Violation(f'{what}: stored {v!r} is {"missing" if nan[bad][0] else "not missing"}, wrongly ({q_args})')
    bad = ~(np.abs(got.astype(np.float64) - want) <= tol) & ~miss & ~skip
    if bad.any():
        v = vals[bad][0]
        raise Violation(f'{what}: stored {v!r} becomes {got[bad][0]!r}, expected {want[bad][0]!r} ({q_args})')


def run_fn(case):
    from delayed_image.helpers import dequantize
    dtype, odt, orig, quant, nodata = case
    nodata = nodata if not isinstance(nodata, str) or nodata == 'absent' else float(nodata)
    vals = values(dtype)
    if dtype in ('float32', 'float64'):
        vals = vals.reshape(3, 5)
    keep = vals.copy()
    q = spec(odt, orig, quant, nodata)
    q0 = dict(q)
    ro = vals.copy()
    ro.flags.writeable = False
    with np.errstate(all='ignore'):
        got = dequantize(ro, q)
        compare(got, keep, (odt, orig, quant, nodata), f'dequantize {dtype}')
    if not np.array_equal(ro, keep, equal_nan=keep.dtype.kind == 'f'):
        raise Violation('the input was changed')
    if repr(q) != repr(q0):
        raise Violation('the quantization was changed')
    if np.shares_memory(got, ro):
        raise Violation('the output aliases the input')
    return Outcome([core.key(case)], 1)


def js(x):
    return repr(x) if isinstance(x, float) and not np.isfinite(x) else x


def cases_fn(dtypes, odts):
    for d in dtypes:
        for o in odts:
            for a in ORIG:
                for b in QUANT:
                    for n in NODATA:
                        yield [d, o, list(a), list(b), js(n)]


# ------------------------------------------------------------------ pipelines
H, W = 4, 5


def image(dtype, bands):
    ii = np.iinfo(dtype)
    pool = [0, 1, 7, 9, 254 if ii.max >= 254 else 100, min(ii.max, 255), ii.max, ii.min, 60, 61, 33]
    n = H * W * bands
    return np.array([pool[(i * 5 + i // 7) % len(pool)] for i in range(n)], dtype=dtype).reshape(H, W, bands)


QS = [('float32', (-1., 3.), (1, 201), 9), ('absent', (0, 1), (0, 255), 'absent'), ('float64', (-9.5, 250.), (-7, 100), 255),
      ('float32', (0., 2.), (7, 7), 7), ('float32', (0, 10.), (0, 100), -9999), ('float64', (3., -1.), (0, 250), 0)]

PRE = {
    'crop': lambda n, m: (n.crop((slice(1, 3), slice(1, None))), m[1:3, 1:]),
    'get': lambda n, m: (n[0:3, -4:-1], m[0:3, -4:-1]),
    'take': lambda n, m: (n.take_channels([m.shape[2] - 1, 0]), m[:, :, [m.shape[2] - 1, 0]]),
    'over': lambda n, m: (n.crop((slice(0, 90), slice(2, 90))), m[:, 2:]),
    'id': lambda n, m: (n.warp({}, dsize=n.dsize), m),
    'up': lambda n, m: (n.warp({'scale': 2}, interpolation='nearest'), m.repeat(2, 0).repeat(2, 1)),
    'shift': lambda n, m: (n.warp({'offset': (-1, -2)}, dsize=(m.shape[1] - 1, m.shape[0] - 2)) if min(m.shape[:2]) > 2 else n,
                           m[2:, 1:] if min(m.shape[:2]) > 2 else m),
}


def leaf(kind, dtype):
    from delayed_image import DelayedChannelConcat, DelayedIdentity, DelayedLoad
    data = image(dtype, 3)
    if kind == 'array':
        return DelayedIdentity(data.copy(), channels='a|b|c'), data
    if kind == 'file':
        p = pipe.fixture(f'c11_{dtype}.tif', lambda p: pipe.write_tif(p, data))
        return DelayedLoad(p, channels='a|b|c').prepare(), data
    if kind == 'cat':
        return DelayedChannelConcat([DelayedIdentity(data[..., :2].copy(), channels='a|b'),
                                     DelayedIdentity(data[..., 2:].copy(), channels='c')]), data
    if kind == 'ovr':
        def mk(p):
            big = data.repeat(2, 0).repeat(2, 1)
            pipe.write_tif(p, big, overviews=(2,), resampling='NEAREST')
        p = pipe.fixture(f'c11o_{dtype}.tif', mk)
        return DelayedLoad(p, channels='a|b|c').prepare().get_overview(1), data
    raise KeyError(kind)


def run_pipe(case):
    """[leaf, dtype, quantization index, ops before, ops after]"""
    kind, dtype, qi, before, after = case
    node, m = leaf(kind, dtype)
    for b in before:
        node, m = PRE[b](node, m)
    args = QS[qi]
    q = spec(*args)
    q0 = dict(q)
    node = node.dequantize(q)
    for b in after:
        node, m = PRE[b](node, m)
    ks = []
    for opt in (False, True, True):
        got = node.finalize(optimize=opt)
        compare(got, m, args, f'optimize={opt}')
        ks.append(core.key(got))
    if q != q0:
        raise Violation('the quantization was changed')
    return Outcome(ks, 3 + len(before) + len(after), 3)


def cases_pipe(leafs, dtypes, depth):
    for k in leafs:
        for d in dtypes:
            for qi in range(len(QS)):
                for n in range(depth + 1):
                    for seq in itertools.product(PRE, repeat=n):
                        if seq.count('shift') > 1 or seq.count('up') > 1 or seq.count('crop') + seq.count('get') > 1:
                            continue
                        for j in range(n + 1):
                            yield [k, d, qi, list(seq[:j]), list(seq[j:])]


def run_concat(case):
    """every channel group has its own quantization"""
    from delayed_image import DelayedChannelConcat, DelayedIdentity
    dtype, qa, qb, op, outer = case
    data = image(dtype, 3)
    a = DelayedIdentity(data[..., :1].copy(), channels='a').dequantize(spec(*QS[qa]))
    b = DelayedIdentity(data[..., 1:].copy(), channels='b|c').dequantize(spec(*QS[qb]))
    node = DelayedChannelConcat([a, b])
    m = data
    if outer:
        node = DelayedChannelConcat([node])
    if op:
        node, m = PRE[op](node, m)
    if op == 'take':
        parts = [(0, 1, qb), (1, 2, qa)]
    else:
        parts = [(0, 1, qa), (1, 3, qb)]
    ks = []
    for opt in (False, True):
        got = np.asarray(node.finalize(optimize=opt))
        for lo, hi, qi in parts:
            args = list(QS[qi])
            sub = got[..., lo:hi]
            if got.dtype == np.float64 and args[0] in ('absent', 'float32'):
                sub = sub.astype(np.float32)        # concatenation promotes
            compare(sub, m[..., lo:hi], args, f'concat optimize={opt}')
        ks.append(core.key(got))
    return Outcome(ks, 2, 2)


# ------------------------------------------------------------------ round trip
def run_quantize(case):
    from delayed_image.helpers import dequantize, quantize_float01
    lo, hi, qdt, ddt = case
    n = 1031
    x = np.linspace(lo - (hi - lo) * .1, hi + (hi - lo) * .1, n).astype(ddt)
    x = np.concatenate([x, np.array([np.nan, lo, hi, np.inf, -np.inf, np.nan, (lo + hi) / 2]).astype(ddt)])
    x = x.reshape(2, -1, 1)
    keep = x.copy()
    q, info = quantize_float01(x, old_min=lo, old_max=hi, quantize_dtype=getattr(np, qdt))
    if not np.array_equal(x, keep, equal_nan=True):
        raise Violation('the input was changed')
    if q.dtype != np.dtype(qdt) or q.shape != x.shape:
        raise Violation(f'{q.dtype} {q.shape}')
    _, info2 = quantize_float01(None, old_min=lo, old_max=hi, quantize_dtype=getattr(np, qdt))
    if info2 != info:
        raise Violation(f'quantization {info} or {info2}')
    nan = np.isnan(x)
    code = info['nodata']
    if ((q == code) != nan).any():
        i = np.argwhere((q == code) != nan)[0]
        raise Violation(f'{x[tuple(i)]!r} is stored as {q[tuple(i)]!r}; missing is {code!r}')
    v = q[~nan].astype(np.int64)
    xv = x[~nan].astype(np.float64)
    if v.min() < info['quant_min'] or v.max() > info['quant_max']:
        raise Violation(f'stored values {v.min()}..{v.max()} outside of the range of {info}')
    order = np.argsort(xv, kind='stable')
    if (np.diff(v[order]) < 0).any():
        raise Violation('quantization is not monotone')
    if set(v[xv <= lo]) - {info['quant_min']} or (v[xv >= hi] < info['quant_max'] - 1).any():
        raise Violation('the ends of the range are not the ends of the quantized range')
    for odt in ('float64', 'float32'):
        r = dequantize(q, {**info, 'orig_dtype': odt})
        if (np.isnan(r) != nan).any():
            raise Violation('missing values are not those that were missing')
        step = (hi - lo) / (info['quant_max'] - info['quant_min'])
        err = np.abs(r[~nan].astype(np.float64) - np.clip(xv, lo, hi))
        lim = step * 1.0001 + 4 * np.finfo(odt).eps * max(abs(lo), abs(hi), hi - lo)
        if not (err <= lim).all():
            k = int(np.argmax(err))
            raise Violation(f'round trip of {xv[k]!r} is off by {err[k]!r}, a step is {step!r}')
    return Outcome([core.key(q)], 3)


def cases_quantize():
    for lo, hi in [(0, 1), (-2, 2), (0, .01), (-1, 0), (-1e3, 5e3), (.25, .5)]:
        for qdt in ('uint8', 'int8', 'uint16', 'int16', 'int32', 'uint32'):
            for ddt in ('float32', 'float64'):
                yield [lo, hi, qdt, ddt]


def families(tier):
    th = tier == 'thorough'
    F = Family
    return [
        F('fn', lambda: cases_fn(DTYPES, ODT if th else ['absent', 'float64', 'int16']), run_fn,
          'all 8 and 16 bit values (boundaries of wider types) x 5 ranges x 6 quantized ranges x 12 missing values'),
        F('pipe', lambda: cases_pipe(['array', 'file', 'cat', 'ovr'], ['uint8', 'int16', 'int32'] if th else ['uint8', 'int16'],
                                     3 if th else 2), run_pipe,
          'dequantize at every position of all pipelines of up to 2 (thorough 3) of 7 whole pixel operations'),
        F('concat', lambda: ([d, a, b, op, o] for d in ('uint8', 'int16') for a in range(len(QS)) for b in range(len(QS))
                             for op in [None] + list(PRE) for o in (False, True)), run_concat, 'pairs of quantizations'),
        F('quantize', cases_quantize, run_quantize, 'round trips over 6 ranges x 6 types x 2 precisions'),
    ]
