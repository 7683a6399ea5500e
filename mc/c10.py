"""C10: reading any window of a file equals slicing the fully read file.

The oracle is the array that was written (checked against a read through the
GDAL bindings themselves when the fixture is made), sliced by numpy."""
import itertools
import os

import numpy as np

from mc import core, pipe
from mc.core import Family, HarnessError, Outcome, Violation

LEVEL = 'model_checking'
H, W = 5, 7


def pattern(h, w, c, dtype, mod=None):
    """Every pixel of every band has its own value (modulo the type)."""
    yy, xx, cc = np.mgrid[0:h, 0:w, 0:c]
    v = 1 + xx + 10 * yy + 71 * cc
    if mod:
        v = v % mod
    if np.dtype(dtype).kind == 'f':
        v = v + .25
    if np.dtype(dtype).kind == 'c':
        v = v + 1j * (v % 5)
    return v.astype(dtype)


NODATA = {'u8': 24, 'i16': -9999, 'f4': -9999., 'band': (11, 92, None)}


def put_nodata(data, nd):
    data = data.copy()
    vals = nd if isinstance(nd, (tuple, list)) else [nd] * data.shape[2]
    for c, v in enumerate(vals):
        if v is not None:
            data[1, 1:4, c] = v
            data[4, (c * 2) % 7, c] = v
            data[0, 0, c] = v
    # another band's marker is an ordinary value here
    if isinstance(nd, (tuple, list)):
        data[3, 3, 0] = 92
        data[3, 4, 1] = 11
        data[3, 5, 2] = 11
    return data


def build_file(name):
    """Returns (path to open, array written, nodata per band)."""
    kind, _, rest = name.partition('-')
    dt = {'u8': np.uint8, 'u16': np.uint16, 'i16': np.int16, 'u32': np.uint32,
          'i32': np.int32, 'f4': np.float32, 'f8': np.float64,
          'c8': np.complex64, 'i64': np.int64, 'u64': np.uint64, 'i8': np.int8}
    parts = rest.split('-')
    dtype = dt[parts[0]]
    c = int(parts[1])
    flags = parts[2:]
    h, w = (H, W)
    nd = None
    if 'nd' in flags:
        nd = {'u8': 24, 'i16': -9999, 'u16': 24, 'f4': -9999., 'f8': np.nan}[parts[0]]
    if 'ndb' in flags:
        nd = (11, 92, None)
    if 'ovr' in flags:
        h, w = 9, 11
    data = pattern(h, w, c, dtype, mod=120 if parts[0] == 'i8' else None)
    if nd is not None:
        data = put_nodata(data, nd)
    nds = list(nd) if isinstance(nd, tuple) else [nd] * c

    if kind == 'tif':
        opts = []
        if 'band' in flags:
            opts.append('INTERLEAVE=BAND')
        if 'tile' in flags:
            opts += ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16']
        if isinstance(nd, tuple):
            return _vrt(name, data, nd), data, nds
        ovr = (2, 4) if 'ovr' in flags else ()
        def make(p):
            pipe.write_tif(p, data, overviews=ovr, nodata=nd, resampling='NEAREST', options=opts)
            if ovr:
                mark_overviews(p, data, nd)
        p = pipe.fixture(name + '.tif', make)
        return p, data, nds
    if kind == 'pal':
        # an image with a color table: the raw indices are what is read
        def make(p):
            from osgeo import gdal
            ds = gdal.GetDriverByName('GTiff').Create(p, w, h, 1, gdal.GDT_Byte)
            ct = gdal.ColorTable()
            for i in range(256):
                ct.SetColorEntry(i, (255 - i, i, 3, 255))
            ds.GetRasterBand(1).SetColorTable(ct)
            ds.GetRasterBand(1).WriteArray(data[:, :, 0])
            ds = None
        return pipe.fixture(name + '.tif', make), data, nds
    if kind in {'bsq', 'bil', 'bip'}:
        def make(p):
            pipe.write_tif(p, data, driver='ENVI', nodata=nd, options=[
                f'INTERLEAVE={kind.upper()}'])
        # names without dots other than the extension
        p = pipe.fixture(f'{name}.{kind}', make)
        hdr = os.path.splitext(p)[0] + '.hdr'
        if not os.path.exists(hdr):
            raise HarnessError('no envi header')
        return hdr, data, nds
    if kind in {'png', 'vrt'}:
        def make(p):
            from osgeo import gdal
            tmp = pipe.write_tif(p + '.src.tif', data, nodata=nd)
            src = gdal.Open(tmp)
            gdal.GetDriverByName('PNG').CreateCopy(p, src)
            src = None
        return pipe.fixture(name + '.png', make), data, nds
    raise KeyError(name)


def _vrt(name, data, nd):
    """A different missing value per band (GTiff stores only one)."""
    def make(p):
        from osgeo import gdal
        gdal.UseExceptions()
        base = os.path.join(pipe.workdir(), name + '_src.tif')
        tmp = pipe.fixture(name + '_src.tif', lambda q: pipe.write_tif(q, data))
        assert tmp == base
        src = gdal.Open(base)
        v = gdal.GetDriverByName('VRT').CreateCopy(p, src)
        for i, x in enumerate(nd):
            if x is not None:
                v.GetRasterBand(i + 1).SetNoDataValue(x)
        v.FlushCache()
        v = None
        gdal.DontUseExceptions()
    return pipe.fixture(name + '.vrt', make)


def level_data(data, over, nd=None):
    """What the stored overview holds: recognizably not a copy of level 0."""
    if not over:
        return data
    h, w, c = data.shape
    for _ in range(over):
        h, w = -(-h // 2), -(-w // 2)
    out = (pattern(h, w, c, data.dtype).astype(np.float64) + 7 * over).astype(data.dtype)
    if nd is not None:
        out = out.copy()
        out[1, 1] = nd
    return out


def mark_overviews(p, data, nd):
    from osgeo import gdal
    ds = gdal.Open(p, gdal.GA_Update)
    for b in range(data.shape[2]):
        for k in (1, 2):
            band = ds.GetRasterBand(b + 1).GetOverview(k - 1)
            lv = level_data(data, k, nd)[:, :, b]
            if (band.YSize, band.XSize) != lv.shape:
                raise HarnessError('overview size')
            band.WriteArray(np.ascontiguousarray(lv))
    ds.FlushCache()


_FILES = {}


def get_file(name):
    if name not in _FILES:
        p, data, nds = build_file(name)
        _check_fixture(p, data)
        _FILES[name] = (p, data, nds)
    return _FILES[name]


def _check_fixture(p, data):
    from osgeo import gdal
    q = p
    if p.endswith('.hdr'):
        for e in ('.bsq', '.bil', '.bip'):
            if os.path.exists(p[:-4] + e):
                q = p[:-4] + e
    ds = gdal.Open(q)
    got = ds.ReadAsArray()
    got = got[:, :, None] if got.ndim == 2 else got.transpose(1, 2, 0)
    if got.shape != data.shape or not np.array_equal(got, data, equal_nan=data.dtype.kind == 'f'):
        raise HarnessError(f'fixture {p} is not what was written')


def with_nodata(arr, nds, method):
    if method is None:
        return arr
    mask = np.zeros(arr.shape, bool)
    for c, v in enumerate(nds):
        if v is not None:
            mask[..., c] = np.isnan(arr[..., c]) if v != v else arr[..., c] == v
    if method == 'ma':
        return np.ma.array(arr, mask=mask)
    out = arr.astype(np.result_type(arr.dtype, np.float32))
    out[mask] = np.nan
    return out


def same(got, want, what):
    if got.shape != want.shape:
        raise Violation(f'{what}: shape {got.shape}, expected {want.shape}')
    if got.dtype != want.dtype:
        raise Violation(f'{what}: dtype {got.dtype}, expected {want.dtype}')
    if isinstance(want, np.ma.MaskedArray):
        if not isinstance(got, np.ma.MaskedArray):
            raise Violation(f'{what}: not masked')
        if not np.array_equal(np.ma.getmaskarray(got), np.ma.getmaskarray(want)):
            raise Violation(f'{what}: wrong mask')
        ok = ~np.ma.getmaskarray(want)
        if not np.array_equal(np.asarray(got)[ok], np.asarray(want)[ok]):
            raise Violation(f'{what}: wrong values')
        return
    if isinstance(got, np.ma.MaskedArray):
        raise Violation(f'{what}: unexpectedly masked')
    if not np.array_equal(got, want, equal_nan=want.dtype.kind in 'fc'):
        bad = np.argwhere(~((got == want) | ((got != got) & (want != want))))[0].tolist()
        raise Violation(f'{what}: wrong values, first at {bad}: '
                        f'{got[tuple(bad)]} expected {want[tuple(bad)]}')


# ------------------------------------------------------------------- indices
def dec(part):
    if part is None:
        return slice(None)
    if part == '...':
        return Ellipsis
    if isinstance(part, dict):
        return list(part['l'])
    if isinstance(part, list):
        return slice(*part)
    return part


def np_index(arr, index):
    """numpy slicing; lists select bands; all dimensions are kept."""
    idx = [dec(p) for p in index]
    if Ellipsis in [i for i in idx if not isinstance(i, list)]:
        k = next(i for i, v in enumerate(idx) if v is Ellipsis)
        idx[k:k + 1] = [slice(None)] * (3 - (len(idx) - 1))
    idx += [slice(None)] * (3 - len(idx))
    out = arr
    for ax, i in enumerate(idx):
        if isinstance(i, int):
            i = slice(i, i + 1)
        if isinstance(i, list):
            out = out[(slice(None),) * ax + (i,)]
        else:
            out = out[(slice(None),) * ax + (i,)]
    return out


def frame_index(index):
    return tuple(dec(p) for p in index)


def open_frame(reader, path, method=None, overview=None):
    from delayed_image import lazy_loaders as ll
    if reader == 'gdal':
        return ll.LazyGDalFrameFile(path, nodata_method=method, overview=overview)
    if reader == 'rio':
        return ll.LazyRasterIOFrameFile(path)
    if reader == 'spec':
        return ll.LazySpectralFrameFile(path)
    raise KeyError(reader)


_FRAMES = {}


def run_window(case):
    """[reader, file, method, overview, [windows...]] on one frame object."""
    reader, name, method, over, windows = case
    path, data, nds = get_file(name)
    frame = open_frame(reader, path, method, over)
    full = with_nodata(level_data(data, over, nds[0]), nds, method)
    if tuple(frame.shape) != full.shape:
        raise Violation(f'frame shape {frame.shape} expected {full.shape}')
    if frame.ndim != 3:
        raise Violation('ndim')
    if np.dtype(frame.dtype) != data.dtype:
        raise Violation(f'frame dtype {frame.dtype} expected {data.dtype}')
    keys = []
    for win in windows:
        want = np_index(full, win)
        idx = frame_index(win)
        got = frame[idx if len(idx) != 1 else idx[0]]
        same(got, want, f'window {win}')
        keys.append(core.key(got))
    return Outcome(keys, len(windows), len(windows))


def spans(n, neg=True):
    lo = -n - 1 if neg else 0
    vals = [None] + list(range(lo, n + 2))
    return [[a, b] for a in vals for b in vals]


CHANS = {1: [None, [0, 1], [None, None], [0, None], {'l': [0]}, [0, 0], 0],
         3: [None, [0, 2], [1, None], [1, 2], {'l': [2]}, {'l': [2, 0]}, {'l': [0, 1, 2]},
             {'l': [1, 1, 0]}, {'l': [2, 1, 0]}, [-2, None], [None, -1], [2, 2], {'l': []}, 1]}
CHANS[4] = CHANS[3] + [{'l': [3, 0, 2]}, [3, None], [0, 4]]
CHANS[2] = [None, {'l': [1]}, {'l': [1, 0]}, [1, None]]
FORMS = [[], ['...'], [[1, 3]], [[1, 3], '...'], ['...', {'l': [0]}], ['...', [0, 1]],
         [[1, 3], '...', {'l': [0]}], [[1, 3], [2, 5]], [None, [2, 5]], [2, 3], [2],
         [[1, 3], [2, 5], '...'], ['...', [2, 5], {'l': [0]}]]


def windows_full(name, neg, h=H, w=W, empty=True):
    c = int(name.split('-')[2])
    few = [[None, None], [1, 4], [2, 3], [0, 99], [3, None]]
    if empty:
        few.append([2, 2])
    wins = [[y, x] for y in spans(h, neg) for x in few]
    wins += [[y, x] for x in spans(w, neg) for y in few]
    if neg:
        wins += FORMS[1:]
    wins += [[y, x, ch] for y in few for x in few for ch in CHANS[c]]

    def ok(win):
        if empty:
            return True
        a = np_index(np.empty((h, w, c)), win)
        return a.size > 0
    return [wn for wn in wins if ok(wn)]


def chunk(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def cases_windows(files, readers, methods, overs=(0,), neg=True, empty=True):
    for name in files:
        for reader in readers:
            for method in methods:
                for over in overs:
                    h, w = (H, W)
                    if 'ovr' in name:
                        h, w = -(-9 // 2 ** over), -(-11 // 2 ** over)
                    wins = windows_full(name, neg, h, w, empty)
                    if reader != 'gdal':
                        # these readers refuse an ellipsis
                        wins = [v for v in wins if '...' not in v]
                    for ws in chunk(wins, 60):
                        yield [reader, name, method, over, ws]


# ------------------------------------------------------- through DelayedLoad
def run_load(case):
    """[file, method, overview, ops] : crops and band selections of a loaded
    file against numpy."""
    name, method, over, ops = case
    from delayed_image import DelayedLoad
    path, data, nds = get_file(name)
    want = with_nodata(data, nds, method)
    node = DelayedLoad(path, nodata_method=method).prepare()
    if over:
        node = node.get_overview(over)
        want = with_nodata(level_data(data, over, nds[0]), nds, method)
    for op in ops:
        node = node.crop((dec(op[0]), dec(op[1])), chan_idxs=op[2]['l'] if op[2] else None)
        want = np_index(want, op)
    keys = []
    for opt in (True, False):
        got = node.finalize(optimize=opt)
        same(got, want, f'optimize={opt}')
        keys.append(core.key(got))
    if tuple(node.shape) != want.shape:
        raise Violation(f'declared {node.shape} expected {want.shape}')
    return Outcome(keys, 2 * len(ops), 2)


def cases_load(files, depth):
    sl = [[None, None], [1, 4], [2, 3], [-3, None], [None, -2], [2, 50], [0, 1]]
    for name in files:
        c = int(name.split('-')[2])
        chs = [None, {'l': [0]}] + ([{'l': [2, 0]}, {'l': [1, 2]}] if c == 3 else [])
        for method in (None, 'float', 'ma', 'auto'):
            for over in ((0, 1, 2) if 'ovr' in name else (0,)):
                for y, x, ch in itertools.product(sl, sl[:5], chs):
                    yield [name, method, over, [[y, x, ch]]]
                if depth > 1:
                    for y, x, ch, y2 in itertools.product(sl[1:5], sl[1:3], chs, sl[:5]):
                        ch2 = {'l': [0]} if ch else ({'l': [c - 1]} if c > 1 else None)
                        yield [name, method, over, [[y, x, ch], [y2, [0, 2], ch2]]]


def run_fallback(case):
    """Files read without GDAL."""
    from delayed_image import DelayedLoad, lazy_loaders
    name, over, ops = case
    path, data, nds = get_file(name)
    want = data
    kept = lazy_loaders.LazyGDalFrameFile.__dict__['available']
    lazy_loaders.LazyGDalFrameFile.available = classmethod(lambda cls: False)
    try:
        node = DelayedLoad(path).prepare()
        if tuple(node.shape) != data.shape:
            raise Violation(f'declared {node.shape}, the file has {data.shape}')
        if node.num_overviews != 0:
            raise Violation(f'{node.num_overviews} overviews without a reader that has them')
        for op in ops:
            node = node.crop((dec(op[0]), dec(op[1])), chan_idxs=op[2]['l'] if op[2] else None)
            want = np_index(want, op)
        if tuple(node.shape) != want.shape:
            raise Violation(f'declared {node.shape} expected {want.shape}')
        keys = []
        for opt in (True, False):
            got = node.finalize(optimize=opt)
            same(got, want, f'without GDAL, optimize={opt}')
            keys.append(core.key(got))
    finally:
        lazy_loaders.LazyGDalFrameFile.available = kept
    return Outcome(keys, 2 * len(ops), 2)


def cases_fallback(files):
    sl = [[None, None], [1, 4], [2, 3], [-3, None], [None, -2], [2, 50], [0, 1]]
    for name in files:
        c = int(name.split('-')[2])
        chs = [None, {'l': [0]}] + ([{'l': [2, 0]}, {'l': [1, 2]}] if c == 3 else [])
        yield [name, 0, []]
        for y, x, ch in itertools.product(sl, sl, chs):
            yield [name, 0, [[y, x, ch]]]
            yield [name, 0, [[y, x, ch], [[0, 2], [1, 3], None]]]


def run_fast(case):
    """The dataset level reader, which a module flag switches on."""
    from delayed_image import lazy_loaders
    old = getattr(lazy_loaders, 'GDAL_FAST_PATH', None)
    lazy_loaders.GDAL_FAST_PATH = 1
    try:
        return run_window(case)
    finally:
        lazy_loaders.GDAL_FAST_PATH = old


HDR_EXTRAS = [
    '; interleave = xyz',
    'description = {a text with\n  interleave = xyz\n; a comment\n in it}',
    'band names = {one,\n two, three}',
    'Sensor Type = Unknown',
    '',
]


def run_header(case):
    """Header files with comments, blocks and odd keys still find the data."""
    name, mask, first, crlf = case
    path, data, nds = get_file(name)
    ext = '.' + name.split('-')[0]
    base = os.path.join(pipe.workdir(), f'hdr{os.getpid()}_{name}')
    with open(path) as f:
        lines = f.read().splitlines()
    lines = [ln for ln in lines if '=' in ln and not ln.startswith(('description', 'band names'))
             and '{' not in ln and '}' not in ln]
    extra = [e for i, e in enumerate(HDR_EXTRAS) if mask >> i & 1]
    lines = ['ENVI'] + (extra + lines if first else lines + extra)
    nl = '\r\n' if crlf else '\n'
    with open(base + '.hdr', 'w', newline='') as f:
        f.write('\n'.join(lines).replace('\n', nl) + nl)
    import shutil
    shutil.copy(path[:-4] + ext, base + ext)
    from delayed_image import DelayedLoad
    got = DelayedLoad(base + '.hdr').prepare().finalize()
    same(got, data, 'header variant')
    for e in ('.hdr', ext, ext + '.aux.xml'):
        if os.path.exists(base + e):
            os.remove(base + e)
    return Outcome([core.key(case)], 1)


def run_array(case):
    """np.asarray / iteration protocols of a frame."""
    reader, name, method, how = case
    path, data, nds = get_file(name)
    want = with_nodata(data, nds, method)
    frame = open_frame(reader, path, method)
    if how == 'asarray':
        got = np.asarray(frame)
        want = np.asarray(want)
    elif how == 'dtype':
        got = np.asarray(frame, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
    elif how == 'overviews':
        return Outcome([core.key(frame.num_overviews)], 1)
    same(got, want, how)
    return Outcome([core.key(got)], 1)


def run_overview_frame(case):
    """frames of frames of overviews: levels add up, too deep is an error."""
    name, levels = case
    path, data, nds = get_file(name)
    frame = open_frame('gdal', path)
    total = 0
    avail = 2
    for lv in levels:
        total += lv
        try:
            frame = frame.get_overview(lv)
            got = frame[:]
        except Exception as ex:
            if total <= avail:
                raise Violation(f'level {total} exists but raised {ex!r}')
            return Outcome([core.key(levels)], len(levels))
        if total > avail:
            raise Violation(f'level {total} does not exist but was read with shape {got.shape}')
        same(got, level_data(data, total), f'level {total}')
        if frame.num_overviews != avail - total:
            raise Violation(f'num_overviews {frame.num_overviews}')
    ab = frame.get_absolute_overview(1)
    same(ab[:], level_data(data, 1), 'absolute level 1')
    return Outcome([core.key(levels)], len(levels))


def families(tier):
    th = tier == 'thorough'
    types = [f'tif-{t}-{c}' for t in ('u8', 'u16', 'i16', 'u32', 'i32', 'f4', 'f8') for c in (1, 3)]
    wide = ['tif-i8-3', 'tif-i64-3', 'tif-u64-3', 'tif-c8-3', 'tif-i64-1']
    core_files = ['tif-u8-3', 'tif-f4-1', 'tif-u16-3-band', 'tif-i16-4-tile']
    envi = ['bsq-u8-3', 'bil-i16-3', 'bip-f4-3', 'bsq-f4-1', 'bil-u16-1']
    nd = ['tif-u8-3-nd', 'tif-i16-1-nd', 'tif-f4-3-nd', 'tif-f8-3-nd', 'tif-u8-3-ndb', 'tif-f8-1-nd']
    ovr = ['tif-u8-3-ovr', 'tif-f4-1-ovr', 'tif-i16-3-ovr-band-tile', 'tif-u8-3-ovr-nd']
    other = ['png-u8-3', 'png-u8-1', 'png-u16-4', 'png-u8-4', 'png-u8-2', 'pal-u8-1']
    F = Family
    fams = [
        F('windows', lambda: cases_windows(core_files + envi[:3], ['gdal'], [None]), run_window,
          'every y span x 6 x spans and vice versa (bounds -n-1..n+1 and missing), band selections, index forms'),
        F('types', lambda: cases_windows(types + wide + other, ['gdal'], [None], neg=False), run_window,
          'non negative spans, every data type and format'),
        F('nodata', lambda: cases_windows(nd + ['tif-u8-3'], ['gdal'], ['float', 'nan', 'ma', 'auto', None], neg=False),
          run_window, 'every missing data mode, missing value per file and per band'),
        F('overview', lambda: cases_windows(ovr, ['gdal'], [None, 'ma'], (1, 2), neg=False), run_window,
          'windows of stored overviews'),
        F('overview_chain', lambda: [[n, ls] for n in ('tif-u8-3-ovr', 'tif-f4-1-ovr')
                                     for k in range(1, 5)
                                     for ls in map(list, itertools.product((0, 1, 2), repeat=k))],
          run_overview_frame, 'every chain of up to 4 relative overview requests'),
        F('fast', lambda: cases_windows(['tif-u8-3', 'tif-f4-1', 'bil-i16-3', 'tif-u8-3-nd', 'tif-f8-1-nd',
                                           'tif-u8-3-ndb', 'png-u8-4', 'pal-u8-1'],
                                          ['gdal'], [None, 'float', 'ma'], neg=False), run_fast,
          'the same through the dataset level reader'),
        F('fast_ovr', lambda: cases_windows(ovr, ['gdal'], [None, 'ma'], (1, 2), neg=False), run_fast,
          'the same through the dataset level reader, overviews'),
        F('rasterio', lambda: cases_windows(['tif-u8-3', 'tif-f4-1', 'tif-i16-4-tile'], ['rio'], [None], empty=False),
          run_window, 'rasterio reader, non empty windows'),
        F('spectral', lambda: cases_windows(['bsq-u8-3', 'bil-i16-3', 'bip-f4-3'], ['spec'], [None], empty=False),
          run_window, 'spectral reader, non empty windows'),
        F('load', lambda: cases_load(['tif-u8-3', 'tif-f4-1', 'tif-u8-3-nd', 'tif-u8-3-ndb', 'tif-u8-3-ovr',
                                      'tif-f4-3-nd', 'bil-i16-3'], 2 if not th else 3), run_load,
          'one and two nested crops with band selection through the delayed interface'),
        F('fallback', lambda: cases_fallback(['tif-u8-3', 'tif-u8-1', 'tif-f4-1', 'tif-u16-3', 'tif-i16-4-tile', 'png-u8-3',
                                              'png-u8-1', 'png-u8-4', 'png-u16-4', 'tif-u8-3-ovr']), run_fallback,
          'crops and band selections when GDAL is not available'),
        F('envi_header', lambda: [[n, m, f, c] for n in ('bsq-u8-3', 'bil-i16-3') for m in range(32)
                                  for f in (0, 1) for c in (0, 1)], run_header,
          'every subset of comments, blocks and odd keys in the header, before or after, both line endings'),
        F('arrays', lambda: [[r, n, m, h] for r, n in (('gdal', 'tif-u8-3'), ('gdal', 'tif-f4-1'),
                                                      ('gdal', 'tif-u8-3-nd'))
                             for m in (None, 'float') for h in ('asarray', 'dtype', 'overviews')],
          run_array, 'array protocol'),
    ]
    if th:
        def prod():
            for name in core_files + envi + nd:
                c = int(name.split('-')[2])
                for method in (None, 'ma', 'float'):
                    if method and 'nd' not in name:
                        continue
                    ws = [[y, x, ch] for y in spans(H, True) for x in spans(W, False)
                          for ch in CHANS[c][:5]]
                    for w_ in chunk(ws, 200):
                        yield ['gdal', name, method, 0, w_]
        fams.append(F('product', prod, run_window, 'full product of y and x spans and band selections'))
    return fams
