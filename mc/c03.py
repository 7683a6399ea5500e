"""
C03: operations that move whole pixels are exact, bit for bit.

Model: a plain numpy array.  Crops are slices, padding and whole pixel
translations copy into a filled canvas, band selection indexes, dequantization
is the documented formula, the overview of a pyramid is the stored band.
"""
import numpy as np

from mc import core, pipe
from mc.core import Family, Outcome, Violation

LEVEL = 'model_checking'
W, H = 16, 12

Q = {'orig_dtype': 'float32', 'orig_min': -1., 'orig_max': 3., 'quant_min': 1,
     'quant_max': 201, 'nodata': 9}


def content(dtype, bands, w=W, h=H):
    n = w * h * bands
    base = (np.arange(n, dtype=np.int64) * 37 + 11) % 251
    arr = base.reshape(h, w, bands)
    if np.dtype(dtype).kind == 'f':
        return (arr / np.float64(7)).astype(dtype)
    if np.dtype(dtype).itemsize > 1:
        arr = arr * 17 - (0 if np.dtype(dtype).kind == 'u' else 2000)
    return arr.astype(dtype)


def pyramid_level(arr, k):
    return arr[::2 ** k, ::2 ** k]      # NEAREST decimation


def f_pyr(dtype, bands):
    def make(p):
        arr = content(dtype, bands)
        pipe.write_tif(p, arr, overviews=(2, 4), resampling='NEAREST')
        from osgeo import gdal
        ds = gdal.Open(p, gdal.GA_Update)
        # the stored levels, written explicitly: level k is arr[::2^k] + k
        for b in range(bands):
            for k in (1, 2):
                ov = ds.GetRasterBand(b + 1).GetOverview(k - 1)
                ov.WriteArray(np.ascontiguousarray(
                    pyramid_level(arr, k)[..., b] + np.array(k).astype(dtype)))
        ds = None
    return pipe.fixture(f'c03_{dtype}_{bands}.tif', make)


LEAFS = {}


def leaf(kind):
    """-> node, dict(level -> array), names"""
    from delayed_image import DelayedIdentity, DelayedLoad, DelayedChannelConcat
    name, dtype, bands = kind.split('/')
    bands = int(bands)
    names = list('abcdef'[:bands])
    arr = content(dtype, bands)
    levels = None
    if name == 'id':
        src = arr.copy()
        src.flags.writeable = False
        node = DelayedIdentity(src, channels='|'.join(names))
    elif name == 'file':
        node = DelayedLoad(f_pyr(dtype, bands), channels='|'.join(names)).prepare()
        levels = {0: arr}
        for k in (1, 2):
            levels[k] = pyramid_level(arr, k) + np.array(k).astype(dtype)
    elif name == 'cat':
        c = bands // 2
        node = DelayedChannelConcat([
            DelayedIdentity(arr[..., :c], channels='|'.join(names[:c])),
            DelayedIdentity(arr[..., c:], channels='|'.join(names[c:]))])
    return node, arr, levels, names


def fillvalue(dtype):
    return np.nan if np.dtype(dtype).kind == 'f' else 0


class M:
    """model state: arr, and oob mask (places outside of the image)"""
    def __init__(self, arr, levels, names):
        self.arr = arr
        self.oob = np.zeros(arr.shape[:2], bool)
        self.levels = levels
        self.names = names
        self.deq = False
        self.fresh = levels is not None     # an overview may still be taken
        # what was there before the first padding / translation, and where it
        # is now: a fused chain with an upscale may show content that only the
        # canvas of an intermediate warp cut off (see C12 for the exact rule)
        self.root = None
        self.off = (0, 0)

    def alternative(self):
        h, w, nb = self.arr.shape
        alt = np.zeros(self.arr.shape, self.arr.dtype)
        ok = np.zeros((h, w), bool)
        if self.root is not None:
            ih, iw = self.root.shape[:2]
            for y in range(h):
                for x in range(w):
                    sy, sx = y - self.off[1], x - self.off[0]
                    if 0 <= sy < ih and 0 <= sx < iw:
                        alt[y, x] = self.root[sy, sx]
                        ok[y, x] = self.oob[y, x]
        return alt, ok


def place(m, dsize, tx, ty):
    w, h = dsize
    if m.root is None:
        m.root = m.arr
    m.off = (m.off[0] + tx, m.off[1] + ty)
    ih, iw = m.arr.shape[:2]
    out = np.full((h, w, m.arr.shape[2]), fillvalue(m.arr.dtype), m.arr.dtype)
    oob = np.ones((h, w), bool)
    for y in range(h):
        for x in range(w):
            sy, sx = y - ty, x - tx
            if 0 <= sy < ih and 0 <= sx < iw:
                out[y, x] = m.arr[sy, sx]
                oob[y, x] = m.oob[sy, sx]
    m.arr, m.oob = out, oob
    m.fresh = False


OPS = {
    'c_in': ('crop', slice(2, 9), slice(3, 13)),
    'c_tl': ('crop', slice(None, 5), slice(None, 7)),
    'c_neg': ('crop', slice(-8, -1), slice(-9, -2)),
    'c_over': ('crop', slice(4, 99), slice(5, 99)),
    'c_row': ('crop', slice(1, 2), slice(None, None)),
    'p_in': ('pcrop', slice(1, 5), slice(2, 6)),
    'p_tl': ('pcrop', slice(-2, 6), slice(-3, 5)),
    'p_br': ('pcrop', slice(3, 17), slice(2, 19)),
    'p_all': ('pcrop', slice(-1, 15), slice(-2, 20)),
    't_pos': ('shift', (2, 1), (18, 13)),
    't_neg': ('shift', (-3, -2), (9, 8)),
    't_mix': ('shift', (4, -1), (10, 14)),
    'id': ('shift', (0, 0), None),
    'id_grow': ('shift', (0, 0), (17, 15)),
    'id_cut': ('shift', (0, 0), (5, 6)),
    'take_r': ('take', 'reverse'),
    'take_0': ('take', 'first'),
    'take_n': ('take', 'name'),
    'take_d': ('take', 'dup'),
    'dq': ('deq',),
    'o1': ('over', 1),
    'o2': ('over', 2),
    'x2': ('repeat', 2),
}


def step(node, m, name):
    """apply to the model; returns a function applying it to the node"""
    op = OPS[name]
    h, w, nb = m.arr.shape
    kind = op[0]
    if kind == 'crop':
        sl = op[1:]
        if 0 in np.empty((h, w))[sl].shape:
            raise pipe.Skip
        m.arr, m.oob = m.arr[sl], m.oob[sl]
        if m.root is not None:
            m.off = (m.off[0] - sl[1].indices(w)[0], m.off[1] - sl[0].indices(h)[0])
        m.fresh = False
        return lambda n: n.crop(sl)
    if kind == 'pcrop':
        ys, xs = op[1:]
        if xs.start >= w or ys.start >= h:
            raise pipe.Skip
        place(m, (xs.stop - xs.start, ys.stop - ys.start), -xs.start, -ys.start)
        return lambda n: n.crop((ys, xs), clip=False, wrap=False)
    if kind == 'shift':
        (tx, ty), dsize = op[1:]
        dsize = dsize or (w, h)
        place(m, dsize, tx, ty)
        return lambda n: n.warp({'offset': (tx, ty)}, dsize=dsize)
    if kind == 'take':
        how = op[1]
        idx = {'reverse': list(range(nb))[::-1], 'first': [0],
               'name': [nb - 1, 0] if nb > 1 else [0],
               'dup': [nb // 2]}[how]
        names = [m.names[i] for i in idx]
        m.arr = m.arr[:, :, idx]
        if m.root is not None:
            m.root = m.root[:, :, idx]
        m.names = names
        if m.levels is not None:
            m.levels = {k: v[:, :, idx] for k, v in m.levels.items()}
        if how == 'name':
            return lambda n: n.take_channels('|'.join(names))
        return lambda n: n.take_channels(idx)
    if kind == 'deq':
        if m.deq:
            raise pipe.Skip
        m.deq = True
        def f(arr):
            q = arr.astype(np.float32)
            out = (q - Q['quant_min']) * ((Q['orig_max'] - Q['orig_min']) / (
                Q['quant_max'] - Q['quant_min'])) + Q['orig_min']
            out[arr == Q['nodata']] = np.nan
            return out.astype(np.float32)
        m.arr = f(m.arr)
        if m.root is not None:
            m.root = f(m.root)
        if m.levels is not None:
            m.levels = {k: f(v) for k, v in m.levels.items()}
        return lambda n: n.dequantize(dict(Q))
    if kind == 'over':
        if not m.fresh:
            raise pipe.Skip
        k = op[1]
        have = getattr(m, 'level', 0)
        if have + k not in m.levels:
            raise pipe.Skip
        m.level = have + k
        m.arr = m.levels[m.level]
        m.oob = np.zeros(m.arr.shape[:2], bool)
        return lambda n: n.get_overview(k)
    if kind == 'repeat':
        if max(w, h) > 40 or getattr(m, 'level', 0):    # undoing an overview re-reads
            raise pipe.Skip
        k = op[1]
        m.arr = m.arr.repeat(k, 0).repeat(k, 1)
        m.oob = m.oob.repeat(k, 0).repeat(k, 1)
        if m.root is None:
            m.root = m.arr
        else:
            m.root = m.root.repeat(k, 0).repeat(k, 1)
            m.off = (m.off[0] * k, m.off[1] * k)
        m.fresh = False
        return lambda n: n.warp({'scale': k}, interpolation='nearest')
    raise KeyError(kind)


def compare(got, m, what, exact, fused=False):
    got = np.asarray(got)
    if got.shape != m.arr.shape:
        raise Violation(f'{what}: shape {got.shape} but expected {m.arr.shape}')
    want = m.arr
    if exact:
        if got.dtype != want.dtype:
            raise Violation(f'{what}: dtype {got.dtype} but expected {want.dtype}')
        bad = ~((got == want) | ((got != got) & (want != want)))
    else:
        bad = ~(np.isclose(got, want, rtol=1e-5, atol=1e-5) | ((got != got) & (want != want)))
        # outside of the image there is no data: nan, or what a zero stands for
        bad &= ~(m.oob[:, :, None] & (got != got))
    if fused and bad.any():
        alt, ok = m.alternative()
        same = (got == alt) | ((got != got) & (alt != alt)) | (
            False if exact else np.isclose(got, alt, rtol=1e-5, atol=1e-5))
        bad &= ~(ok[:, :, None] & same)
    if bad.any():
        y, x, c = np.argwhere(bad)[0]
        raise Violation(f'{what}: (y={y},x={x},c={c}) is {got[y, x, c]!r}, expected '
                        f'{want[y, x, c]!r} ({int(bad.sum())} values differ)')


def run(case):
    node, arr, levels, names = leaf(case[0])
    m = M(arr, levels, names)
    for name in case[1:]:
        node = step(node, m, name)(node)
    if node.channels is None or node.channels.as_list() != m.names:
        raise Violation(f'channels {node.channels} but expected {m.names}')
    # a raw overview of anything but the file itself is simulated
    has_over = any(n[0] == 'o' and n != 'over' for n in case[1:])
    states = []
    raw_ok = not has_over or (case[1] in {'o1', 'o2'} and sum(n in {'o1', 'o2'} for n in case) == 1)
    if raw_ok:
        raw = node.finalize(optimize=False)
        compare(raw, m, 'unoptimized', not m.deq)
        states.append(core.key(np.asarray(raw)))
    opt = node.finalize(optimize=True)
    compare(opt, m, 'optimized', not m.deq, fused='x2' in case)
    states.append(core.key(np.asarray(opt)))
    return Outcome(states, 2 * len(case), 2)


def cases(leafs, ops, depth):
    for lf in leafs:
        _, arr, levels, names = leaf(lf)
        level = [[lf]]
        yield [lf]
        for _ in range(depth):
            nxt = []
            for case in level:
                for name in ops:
                    m = M(arr, levels, names)
                    try:
                        for o in case[1:] + [name]:
                            step(None, m, o)
                    except pipe.Skip:
                        continue
                    nxt.append(case + [name])
                    yield nxt[-1]
            level = nxt


ALL = [o for o in OPS if o not in {'o1', 'o2', 'x2'}]
FILE = list(OPS)
SMALL = ['c_in', 'c_neg', 'p_tl', 'p_br', 't_mix', 'take_r', 'take_n', 'dq', 'o1', 'id_grow']


def families(tier):
    fams = [
        Family('id', lambda: cases(['id/uint8/3', 'id/float64/2'], ALL, 2), run, 'depth 2'),
        Family('many_bands', lambda: cases(['id/uint8/6', 'id/float32/5'], ALL, 2), run, 'depth 2, over 4 bands'),
        Family('file', lambda: cases(['file/uint16/3', 'file/int16/1'], FILE, 2), run, 'depth 2, stored pyramid'),
        Family('cat', lambda: cases(['cat/float32/3', 'cat/uint8/5'], ALL, 2), run, 'depth 2, concatenation'),
        Family('deep', lambda: cases(['file/uint8/3', 'cat/int16/4'], SMALL, 3), run, 'depth 3'),
    ]
    if tier == 'thorough':
        fams += [
            Family('deep3', lambda: cases(['file/uint8/3', 'file/float32/2', 'cat/uint8/5'], FILE, 3), run, 'depth 3, all ops'),
            Family('deep4', lambda: cases(['file/uint8/3', 'cat/uint8/5'], SMALL, 4), run, 'depth 4'),
        ]
    return fams
