"""
C22: a failed file read is reported, and never poisons later reads.

A fault injector sits under the library, on the GDAL bindings: every call that
one read makes is failed in turn (an exception, or the null result GDAL gives
without exceptions), once, twice or until cleared.  Each read must raise or
return exactly the right data, and the same objects, asked again when the fault
is gone, must return the right data.  A second family truncates the file at
every byte.
"""
import os
import shutil

import numpy as np

from mc import c10, core, pipe
from mc.core import Family, HarnessError, Outcome, Violation

LEVEL = 'model_checking'

# binding -> may it fail by returning nothing?
POINTS = {
    'gdal.Open': True,
    'Dataset.GetRasterBand': True,
    'Dataset.ReadAsArray': True,
    'Dataset.GetSubDatasets': False,
    'Dataset.GetMetadata': False,
    'Band.ReadAsArray': True,
    'Band.GetOverview': True,
    'Band.GetOverviewCount': False,
    'Band.GetNoDataValue': False,
    'Band.GetDataset': False,
}


class InjectedFault(RuntimeError):
    pass


class Injector:
    """Counts the calls and fails those numbered in [first, first + length)."""

    def __init__(self):
        self.first, self.length, self.kind = None, 0, None
        self.count = 0
        self.names = []
        self.fired = 0

    def arm(self, first, length, kind):
        self.count, self.names, self.fired = 0, [], 0
        self.first, self.length, self.kind = first, length, kind

    def disarm(self):
        self.first = None
        self.count, self.names = 0, []

    def wrap(self, name, orig):
        def call(*args, **kw):
            k = self.count
            self.count += 1
            self.names.append(name)
            if self.first is not None and self.first <= k < self.first + self.length:
                self.fired += 1
                if self.kind == 'none' and POINTS[name]:
                    return None
                raise InjectedFault(f'injected fault at call {k} ({name})')
            return orig(*args, **kw)
        return call

    def __enter__(self):
        from osgeo import gdal
        self.saved = []
        for name in POINTS:
            owner, attr = name.split('.')
            own = gdal if owner == 'gdal' else getattr(gdal, owner)
            orig = getattr(own, attr)
            self.saved.append((own, attr, own.__dict__.get(attr)))
            setattr(own, attr, self.wrap(name, orig))
        return self

    def __exit__(self, *a):
        for own, attr, orig in self.saved:
            if orig is None:
                delattr(own, attr)      # inherited
            else:
                setattr(own, attr, orig)


FILES = ['tif-f4-3', 'tif-u8-1-nd', 'tif-i16-3-nd', 'tif-f4-3-ovr', 'tif-u8-1-ovr', 'bsq-f4-3', 'tif-u8-3-ndb', 'pal-u8-1', 'tif-u8-3-band']


def load(p, **kw):
    from delayed_image import DelayedLoad
    return DelayedLoad(p, **kw)


def a_plain(p):
    n = load(p)
    return lambda: n.prepare().finalize()


def a_unprep(p):
    n = load(p)
    return lambda: n.finalize(prepare=False, optimize=False)


def a_ma(p):
    n = load(p, nodata_method='ma').prepare()
    return lambda: n.crop((slice(0, 4), slice(1, 6))).finalize()


def a_float(p):
    n = load(p, nodata_method='float').prepare().crop((slice(1, 5), slice(0, 4)))
    return lambda: n.finalize()


def a_take(p):
    n = load(p).prepare().take_channels([0]).crop((slice(1, 5), slice(0, 4)))
    return lambda: n.finalize()


def a_warp(p):
    n = load(p).prepare().warp({'scale': .5}, interpolation='nearest', antialias=False)
    return lambda: n.finalize()


def a_pad(p):
    n = load(p, nodata_method='float').prepare().crop((slice(-2, 4), slice(-1, 6)), clip=False, wrap=False)
    return lambda: n.finalize()


def a_over(p):
    n = load(p, nodata_method='ma').prepare().get_overview(1)
    return lambda: n.finalize()


def a_overcrop(p):
    n = load(p).prepare().crop((slice(1, 5), slice(0, 4))).get_overview(1)
    return lambda: n.finalize()


def a_quant(p):
    n = load(p).prepare().dequantize({'orig_min': 0., 'orig_max': 1., 'quant_min': 0, 'quant_max': 255, 'nodata': 24})
    return lambda: n.finalize()


def a_cat(p):
    from delayed_image import DelayedChannelConcat
    a, b = load(p).prepare(), load(p).prepare()
    n = DelayedChannelConcat([a, b]).crop((slice(1, 5), slice(0, 4)))
    return lambda: n.finalize()


def a_xr(p):
    n = load(p, nodata_method='float').prepare().as_xarray()
    return lambda: n.finalize().values


def a_lazy(p):
    from delayed_image.lazy_loaders import LazyGDalFrameFile
    f = LazyGDalFrameFile(p, nodata_method='ma')
    return lambda: f[1:4, 2:]


def a_lazyshape(p):
    from delayed_image.lazy_loaders import LazyGDalFrameFile
    f = LazyGDalFrameFile(p)
    return lambda: (f.shape, f.num_overviews, str(np.dtype(f.dtype)), f[:])


def a_lazyover(p):
    from delayed_image.lazy_loaders import LazyGDalFrameFile
    f = LazyGDalFrameFile(p, overview=1, nodata_method='float')
    return lambda: (f.shape, f[..., -1:])


def a_lazyget(p):
    from delayed_image.lazy_loaders import LazyGDalFrameFile
    f = LazyGDalFrameFile(p)
    return lambda: f.get_overview(1)[0:3]


ACCESS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('a_')}


def plain(v):
    if isinstance(v, tuple):
        return [plain(x) for x in v]
    if isinstance(v, np.ma.MaskedArray):
        return ('masked', str(v.dtype), np.ma.getmaskarray(v).copy(), v.filled(0))
    if isinstance(v, np.ndarray):
        return ('array', str(v.dtype), np.zeros(v.shape, bool), v.copy())
    if hasattr(v, '__array__') and not isinstance(v, (np.generic,)):
        return plain(np.asanyarray(v[:]))
    return v


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and len(a) == 4 and a[0] in ('masked', 'array'):
        return a[:2] == b[:2] and np.array_equal(a[2], b[2]) and np.array_equal(a[3], b[3], equal_nan=a[3].dtype.kind in 'fc')
    return a == b


def usable(fname, access):
    if access in ('over', 'overcrop', 'lazyover', 'lazyget') and 'ovr' not in fname:
        return False
    return not (access in ('cat', 'quant', 'warp') and fname.startswith('pal'))


FAST = [False]


def fault_cases(files, accesses, fast, lengths):
    def gen():
        for fname in files:
            p = c10.build_file(fname)[0]
            for acc in accesses:
                if not usable(fname, acc):
                    continue
                with switch(fast), Injector() as inj:
                    read = ACCESS[acc](p)
                    built = inj.count
                    plain(read())
                    n1 = inj.count
                    plain(read())
                    n2 = inj.count
                    names = list(inj.names)
                for phase, lo, hi in [('build', 0, built), ('first', built, n1), ('second', n1, n2)]:
                    for k in range(lo, hi):
                        for kind in ('raise', 'none'):
                            if kind == 'none' and not POINTS[names[k]]:
                                continue
                            for ln in lengths:
                                yield [fname, acc, phase, k - lo, kind, ln, int(fast)]
    return gen


class switch:
    """the dataset level reader is a constant of the module"""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        from delayed_image import lazy_loaders
        self.old = lazy_loaders.GDAL_FAST_PATH
        lazy_loaders.GDAL_FAST_PATH = self.on

    def __exit__(self, *a):
        from delayed_image import lazy_loaders
        lazy_loaders.GDAL_FAST_PATH = self.old


def run_fault(case):
    fname, acc, phase, k, kind, length, fast = case
    p = c10.build_file(fname)[0]
    with switch(bool(fast)):
        want = plain(ACCESS[acc](p)())
        with Injector() as inj:
            where = f'{acc} of {fname}, {phase} read, fault ({kind}, {length}x) at call {k}'
            read = None
            if phase == 'build':
                inj.arm(k, length, kind)
                try:
                    read = ACCESS[acc](p)
                except Exception:
                    pass
            else:
                read = ACCESS[acc](p)
                if phase == 'second':
                    read()
                inj.arm(k, length, kind)
            outcome = 'refused'
            if read is not None:
                try:
                    got = plain(read())
                    outcome = 'survived'
                except Exception:
                    got = None
                    outcome = 'raised'
                if got is not None and not same(got, want):
                    raise Violation(f'{where} ({inj.names[k:k + 1]}): the read returned wrong data instead of an error')
            if not inj.fired:
                raise HarnessError(f'{where}: the fault was not reached')
            at = inj.names[k]
            inj.disarm()
            if read is None:
                read = ACCESS[acc](p)
            for attempt in (1, 2):
                try:
                    got = plain(read())
                except Exception as ex:
                    raise Violation(f'{where} ({at}): attempt {attempt} after the fault still fails: {ex!r}')
                if not same(got, want):
                    raise Violation(f'{where} ({at}): attempt {attempt} after the fault returns wrong data')
    return Outcome([core.key(fname, acc, phase, at, kind, outcome)], 4)


# ------------------------------------------------------------- torn files
def torn_file(kind):
    from osgeo import gdal
    if kind in ('raw', 'deflate', 'tiled', 'pyramid'):
        opts = {'raw': [], 'deflate': ['COMPRESS=DEFLATE'], 'tiled': ['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16'],
                'pyramid': []}[kind]

        def mk(p):
            d = c10.pattern(9, 11, 3 if kind != 'pyramid' else 1, np.uint16)
            pipe.write_tif(p, d, overviews=(2,) if kind == 'pyramid' else (), nodata=24, resampling='NEAREST', options=opts)
        return pipe.fixture(f'torn_{kind}.tif', mk)
    if kind == 'png':
        def mk(p):
            d = c10.pattern(9, 11, 3, np.uint8)
            t = pipe.write_tif(p + '.src.tif', d)
            src = gdal.Open(t)
            gdal.GetDriverByName('PNG').CreateCopy(p, src)
            src = None
        return pipe.fixture('torn.png', mk)
    raise KeyError(kind)


def cuts(kind, every=False):
    """every byte, but only every 64th in the padding of large overview tiles"""
    size = os.path.getsize(torn_file(kind))
    return [n for n in range(size) if every or n < 1000 or n % 64 == 0 or n > size - 20]


class modes:
    """GDAL reports failures by exceptions or by null results"""

    def __init__(self, exceptions):
        self.on = exceptions

    def __enter__(self):
        from osgeo import gdal
        self.old = gdal.GetUseExceptions()
        gdal.UseExceptions() if self.on else gdal.DontUseExceptions()
        gdal.PushErrorHandler('CPLQuietErrorHandler')

    def __exit__(self, *a):
        from osgeo import gdal
        gdal.PopErrorHandler()
        gdal.UseExceptions() if self.old else gdal.DontUseExceptions()


def torn_cases(kinds, accesses, every=False):
    def gen():
        for kind in kinds:
            for n in cuts(kind, every):
                for acc in accesses:
                    if acc != 'over' or kind == 'pyramid':
                        for exc in (1, 0):
                            yield [kind, n, acc, exc]
    return gen


def gdal_direct(p, level=0):
    """what GDAL itself makes of the file: an array per band, or failure"""
    from osgeo import gdal
    try:
        ds = gdal.Open(p)
        if ds is None:
            return None
        out = []
        for b in range(ds.RasterCount):
            band = ds.GetRasterBand(b + 1)
            if level:
                if band.GetOverviewCount() < level:
                    return 'other'
                band = band.GetOverview(level - 1)
            a = band.ReadAsArray()
            if a is None:
                return None
            out.append(a)
        return np.stack(out, -1)
    except Exception:
        return None


def run_torn(case):
    with modes(case[-1]):
        return torn(case[:-1])


def torn(case):
    kind, n, acc = case
    src = torn_file(kind)
    ext = os.path.splitext(src)[1]
    p = os.path.join(pipe.workdir(), f'cut{os.getpid()}{ext}')
    full = gdal_direct(src, 1 if acc == 'over' else 0)
    try:
        with open(src, 'rb') as f:
            data = f.read()
        with open(p, 'wb') as f:
            f.write(data[:n])
        direct = gdal_direct(p, 1 if acc == 'over' else 0)
        try:
            if acc == 'lazy':
                from delayed_image.lazy_loaders import LazyGDalFrameFile
                got = LazyGDalFrameFile(p)[:]
            elif acc == 'load':
                got = np.asarray(load(p).prepare().finalize()[:])
            elif acc == 'ma':
                got = np.asarray(np.ma.getdata(load(p, nodata_method='ma').prepare().crop((slice(0, 9), slice(0, 11))).finalize()))
            elif acc == 'over':
                got = load(p).prepare().get_overview(1).finalize()[:]
        except Exception:
            got = None
        if isinstance(direct, str):
            pass
        elif direct is None and got is not None:
            raise Violation(f'{kind} file cut at byte {n}: GDAL cannot read it, but {acc} returns {np.ravel(got)[:8].tolist()}')
        elif direct is not None and got is not None and not np.array_equal(direct, got):
            raise Violation(f'{kind} file cut at byte {n}: {acc} returns other data than GDAL reads')
        # the whole file is back
        shutil.copyfile(src, p)
        if acc == 'over':
            again = load(p).prepare().get_overview(1).finalize()[:]
        else:
            again = np.asarray(load(p).prepare().finalize()[:])
        if not np.array_equal(again, full):
            raise Violation(f'{kind} file cut at byte {n} and restored: wrong data')
    finally:
        for q in (p, p + '.aux.xml'):
            if os.path.exists(q):
                os.unlink(q)
    return Outcome([core.key(kind, acc, direct is None, got is None)], 2)


def run_torn_open(case):
    with modes(case[-1]):
        return torn_open(case[:-1])


def torn_open(case):
    """
    Objects made while the file was whole (or cut) see it cut and whole again;
    handles stay open in between.
    """
    kind, n, acc, warm = case
    src = torn_file(kind)
    p = os.path.join(pipe.workdir(), f'live{os.getpid()}{os.path.splitext(src)[1]}')
    with open(src, 'rb') as f:
        data = f.read()

    def put(d):
        # in place: open handles see the same inode
        with open(p, 'r+b' if os.path.exists(p) else 'wb') as f:
            f.write(d)
            f.truncate(len(d))

    full = gdal_direct(src)
    try:
        put(data if warm else data[:n])
        from delayed_image.lazy_loaders import LazyGDalFrameFile
        try:
            if acc == 'lazy':
                obj = LazyGDalFrameFile(p)
                obj.shape
                read = lambda: obj[:]                                  # noqa
                if warm == 2:
                    obj[0:1, 0:1]
            else:
                obj = load(p).prepare()
                read = lambda: obj.crop((slice(0, 9), slice(0, 11))).finalize()    # noqa
                if warm == 2:
                    obj.crop((slice(0, 1), slice(0, 1))).finalize()
        except Exception:
            if warm:
                raise
            return Outcome([core.key(kind, acc, 'unopened')], 1)
        put(data[:n])
        outcome = []
        for _ in range(2):
            try:
                got = np.asarray(read())
            except Exception:
                outcome.append('raised')
            else:
                outcome.append('read')
                if not np.array_equal(got, full):
                    direct = gdal_direct(p)
                    if direct is None or not np.array_equal(got, direct):
                        raise Violation(f'{kind} file cut at byte {n} while {acc} has it open: made-up pixels {np.ravel(got)[:8].tolist()}')
        put(data)
        for attempt in (1, 2):
            got = np.asarray(read())
            if not np.array_equal(got, full):
                raise Violation(f'{kind} file cut at byte {n} while {acc} has it open (before the cut: {warm}), then restored: '
                                f'attempt {attempt} returns wrong data')
    finally:
        for q in (p, p + '.aux.xml'):
            if os.path.exists(q):
                os.unlink(q)
    return Outcome([core.key(kind, acc, warm, outcome)], 4)


def with_fast(run, case):
    with switch(True):
        return run(case)


# ------------------------------------------------- files that are not there
def run_missing(case):
    """missing, empty, garbage, directory: an error, then success once written"""
    acc, what = case
    good = c10.build_file('tif-f4-3')[0]
    p = os.path.join(pipe.workdir(), f'late{os.getpid()}.tif')
    want = plain(ACCESS[acc](good)())
    try:
        if what == 'empty':
            open(p, 'wb').close()
        elif what == 'garbage':
            with open(p, 'wb') as f:
                f.write(b'no image at all' * 9)
        elif what == 'dir':
            os.mkdir(p)
        read = None
        try:
            read = ACCESS[acc](p)
        except Exception:
            pass
        if read is not None:
            for _ in range(2):
                try:
                    got = read()
                except Exception:
                    pass
                else:
                    if not hasattr(got, 'fpath'):
                        raise Violation(f'{acc} of a file which is {what} returns {got!r}')
                    try:
                        got[:]
                    except Exception:
                        pass
                    else:
                        raise Violation(f'{acc} of a file which is {what} can be read')
        if what == 'dir':
            os.rmdir(p)
        shutil.copyfile(good, p)
        if read is None:
            read = ACCESS[acc](p)
        if not same(plain(read()), want):
            raise Violation(f'{acc}: wrong data after the file is written')
    finally:
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
    return Outcome([core.key(acc, what)], 4)


def families(tier):
    allacc = list(ACCESS)
    fams = [
        Family('faults', fault_cases(FILES, allacc, False, (1, 2, 99)), run_fault,
               'every GDAL call of every kind of read of nine files, failing once, twice or for good, by an exception or a null result'),
        Family('faults_fast', fault_cases(['tif-f4-3', 'tif-i16-3-nd', 'tif-f4-3-ovr', 'tif-u8-1-ovr'], allacc, True, (1, 2, 99)), run_fault,
               'the same with the dataset level reader switched on'),
        Family('torn', torn_cases(['raw', 'deflate', 'pyramid', 'png'], ['lazy', 'load']), run_torn,
               'four files cut at every byte'),
        Family('torn_more', torn_cases(['raw', 'pyramid'], ['ma', 'over']), run_torn,
               'the same through crops, masks and overviews'),
        Family('torn_fast', torn_cases(['raw', 'png'], ['lazy', 'load']), lambda c: with_fast(run_torn, c),
               'two files cut at every byte, dataset level reader'),
        Family('torn_open', lambda: ([kind, n, acc, warm, exc] for kind in ('raw', 'deflate', 'png')
                                     for n in cuts(kind) for acc in ('lazy', 'load') for warm in (0, 1, 2) for exc in (1, 0)),
               run_torn_open, 'three files cut at every byte under objects which have them open, and restored'),
        Family('missing', lambda: ([a, w] for a in allacc if a not in ('over', 'overcrop', 'lazyover', 'lazyget') for w in ('absent', 'empty', 'garbage', 'dir')),
               run_missing, 'every kind of read of files which are not there yet'),
    ]
    if tier == 'thorough':
        fams += [
            Family('faults_long', fault_cases(FILES, allacc, False, (3, 4, 5, 6)), run_fault, 'longer bursts of faults'),
            Family('faults_fast_all', fault_cases(FILES, allacc, True, (1, 2, 3, 4, 99)), run_fault, 'all files, dataset level reader'),
            Family('torn_tiled', torn_cases(['tiled', 'pyramid'], ['lazy', 'load', 'ma', 'over'], True), run_torn, 'a tiled file and a pyramid cut at every byte'),
        ]
    return fams
