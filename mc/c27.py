"""
C27: the disk is left alone until values are asked for, and then only what is
needed is read.

A recorder sits on the raster input of the GDAL bindings (which every read ends
in) and on everything that opens a file.  Each sequence of operations is built,
inspected and optimized (nothing may be read; nothing may be opened if the
metadata is known), then finalized: the windows, bands and pyramid levels that
were read are compared with those the pipeline needs, which an independent
backward pass over the operations computes.
"""
import collections
import contextlib
import io
import itertools
import os
import sys

import numpy as np

from mc import core, pipe
from mc.core import Family, HarnessError, Outcome, Violation

LEVEL = 'model_checking'
SIZE = ':96x72'
BANDS = {'x': 1, 'y': 2, 'z': 3}


# ------------------------------------------------------------ the recorder
class Recorder:
    """
    reads: (file name, width of the level, band, x, y, width, height);
    opens: (how, path).  Installed once per process.
    """

    def __init__(self):
        self.reads, self.opens = [], []
        self.watch = None       # a path prefix

    def clear(self):
        self.reads.clear()
        self.opens.clear()

    def read(self, owner, width, bands, x, y, w, h):
        for b in bands:
            self.reads.append((os.path.basename(owner), width, b, int(x), int(y), int(w), int(h)))

    def install(self):
        from osgeo import gdal, gdal_array
        orig_band, orig_ds = gdal_array.BandRasterIONumPy, gdal_array.DatasetIONumPy

        def band_io(band, write, x, y, w, h, *a, **k):
            self.read('', band.XSize, [band.GetBand()], x, y, w, h)
            return orig_band(band, write, x, y, w, h, *a, **k)

        def ds_io(ds, write, x, y, w, h, *a, **k):
            bands = k.get('band_list') or next((v for v in a if isinstance(v, (list, tuple))), None)
            self.read(ds.GetDescription(), ds.RasterXSize, bands or range(1, ds.RasterCount + 1), x, y, w, h)
            return orig_ds(ds, write, x, y, w, h, *a, **k)

        gdal_array.BandRasterIONumPy, gdal_array.DatasetIONumPy = band_io, ds_io

        def raw(owner, many):
            orig = owner.ReadRaster

            def call(obj, xoff=0, yoff=0, xsize=None, ysize=None, *a, **k):
                w0, h0 = (obj.RasterXSize, obj.RasterYSize) if many else (obj.XSize, obj.YSize)
                self.read('', w0, range(1, obj.RasterCount + 1) if many else [obj.GetBand()], xoff, yoff,
                          w0 if xsize is None else xsize, h0 if ysize is None else ysize)
                return orig(obj, xoff, yoff, xsize, ysize, *a, **k)
            owner.ReadRaster = call
        raw(gdal.Band, False)
        raw(gdal.Dataset, True)

        def opener(own, name):
            orig = getattr(own, name)

            def call(path, *a, **k):
                self.opens.append((name, os.path.basename(os.fspath(path))))
                return orig(path, *a, **k)
            setattr(own, name, call)
        for name in ('Open', 'OpenEx', 'OpenShared'):
            opener(gdal, name)
        import kwimage
        opener(kwimage, 'imread')
        opener(kwimage, 'load_image_shape')

        def audit(event, args):
            if event == 'open' and self.watch and isinstance(args[0], (str, bytes)):
                p = os.fsdecode(args[0])
                if p.startswith(self.watch):
                    self.opens.append(('open', os.path.basename(p)))
        sys.addaudithook(audit)
        self.watch = pipe.workdir()
        return self


REC = None


def setup():
    global REC
    if REC is None:
        REC = Recorder().install()
        self_check()


def self_check():
    """The recorder must see what happens below the library."""
    from osgeo import gdal
    p = pipe.f_plain()
    REC.clear()
    ds = gdal.Open(p)
    ds.GetRasterBand(2).ReadAsArray(3, 4, 5, 6)
    ds.ReadAsArray(1, 2, 3, 4, band_list=[3, 1])
    ds.GetRasterBand(1).ReadRaster(1, 2, 3, 4)
    open(p, 'rb').close()
    want = [(pipe.W, 2, 3, 4, 5, 6), (pipe.W, 3, 1, 2, 3, 4), (pipe.W, 1, 1, 2, 3, 4), (pipe.W, 1, 1, 2, 3, 4)]
    if [r[1:] for r in REC.reads] != want or [o[0] for o in REC.opens] != ['Open', 'open']:
        raise HarnessError(f'the recorder misses reads: {REC.reads} {REC.opens}')
    REC.clear()


# ------------------------------------------------------------------- leafs
def leaf(kind):
    """-> node, state, {channel name: band of the file}, levels of the file"""
    from delayed_image import DelayedChannelConcat, DelayedLoad
    base, _, size = kind.partition(':')
    if base in ('cog', 'plain', 'cat_jag', 'cat_cat'):
        node, st = pipe.make_leaf(kind)
        bands = {'cog': BANDS, 'plain': BANDS, 'cat_jag': {'x': 1, 'y': 2}, 'cat_cat': {'y': 2}}[base]
        return node, st, bands, 3 if base in ('cog', 'cat_jag') else 0
    w, h = map(int, size.split('x'))
    _, st = pipe.make_leaf('cog' + ':' + size)
    path = pipe.f_cog(w, h)
    if base == 'ma':
        return DelayedLoad(path, channels='x|y|z', nodata_method='ma').prepare(), st, BANDS, 3
    if base == 'float':
        return DelayedLoad(path, channels='x|y|z', nodata_method='float').prepare(), st, BANDS, 3
    if base == 'known':
        return DelayedLoad(path, channels='x|y|z', dsize=(w, h), num_overviews=3), st, BANDS, 3
    if base == 'two':
        one = pipe.fixture(f'two_{w}x{h}.tif', lambda p: pipe.write_tif(
            p, pipe.ramp(w, h), overviews=(2, 4), options=['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16']))
        return DelayedLoad(one, channels='x|y|z').prepare(), st, BANDS, 2
    if base == 'cat_files':
        a = DelayedLoad(path, channels='x|y|z').prepare()
        b = DelayedLoad(path, channels='p|q|z').prepare()
        return DelayedChannelConcat([a.take_channels('x|y'), b.take_channels('z')]), st, BANDS, 3
    raise KeyError(kind)


def inspect(n):
    """Everything that may be asked of a pipeline but its values."""
    with contextlib.redirect_stdout(io.StringIO()):
        n.nesting()
        list(n.leafs())
        n.as_graph()
        n.as_graph(fields='all')
        n.write_network_text(rich=False)
        repr(n), str(n)
        n.shape, n.dsize, n.channels, n.num_channels, n.num_overviews
        n.meta
        if 'Concat' not in ''.join(type(m).__name__ for m in n.leafs()) and not hasattr(n, 'parts'):
            try:
                n.get_transform_from_leaf()
            except AttributeError:
                pass            # a concatenation below
        m = n.optimize()
        m.optimize()
        m.nesting()
        m.write_network_text(rich=False)
        n.get_transform_from(n)
        if hasattr(m, 'parts'):
            for part in m.parts:
                if hasattr(part, 'get_transform_from_leaf'):
                    part.get_transform_from_leaf()
        elif hasattr(m, 'undo_warp'):
            m.undo_warp(remove=['scale'])
            m.undo_warp(retain=['offset'])


def quiet_so_far(what, opens=0):
    if REC.reads:
        raise Violation(f'{what}: {REC.reads[:2]} was read')
    if len(REC.opens) > opens:
        raise Violation(f'{what}: {REC.opens} was opened')


# ------------------------------------------------- what the pipeline needs
def needed(case, st):
    """
    The part of the leaf (x0, y0, x1, y1) that the final window shows, and the
    leaf pixels by which a reader may exceed it: one that pads or resamples
    needs neighbours.
    """
    full = (0, 0) + tuple(st.dsize)
    steps, unit = [], 0.
    for name in case[1:]:
        _, nxt = pipe.apply_op(None, st, name, {}, build=False)
        kind = pipe.OPS[name][0]
        M = nxt.T @ np.linalg.inv(st.T)
        moves = kind in ('warp', 'resize', 'over') and not np.allclose(M, np.eye(3))
        canvas = kind == 'warp' and nxt.dsize != st.dsize
        outside = kind == 'pcrop' and _exceeds(M, st.dsize, nxt.dsize)
        if moves or canvas or outside:
            unit += max(pipe.pxsize(st.T), pipe.pxsize(nxt.T))
        if kind == 'over' and unit:
            unit += 2 ** pipe.OPS[name][1] / 3      # the pyramid is on the file, wherever the overview is asked for
        steps.append((kind, M, nxt.dsize, pipe.pxsize(st.T)))
        st = nxt
    win = None
    for kind, M, dsize, px in reversed(steps):
        if kind in ('crop', 'get', 'pcrop'):
            win = _cut(win, (0, 0) + tuple(dsize))
        if win is not None:
            x0, y0, x1, y1 = win
            c = (np.linalg.inv(M) @ np.array([[x0, y0, 1], [x1, y0, 1], [x0, y1, 1], [x1, y1, 1.]]).T)[:2]
            win = (*c.min(1), *c.max(1))
            if (M[0, 1] or M[1, 0] or M[0, 0] < 0 or M[1, 1] < 0) and x1 > x0 and y1 > y0:
                # the reach of the kernel is estimated from the boxes
                unit += px * max((win[2] - win[0]) / (x1 - x0), (win[3] - win[1]) / (y1 - y0))
    return _cut(win, full), unit, st


def _exceeds(M, d0, d1):
    c = (np.linalg.inv(M) @ np.array([[0, 0, 1], [d1[0], 0, 1], [0, d1[1], 1], [d1[0], d1[1], 1.]]).T)[:2]
    return bool((c.min(1) < -1e-6).any() or (c.max(1) > np.array(d0) + 1e-6).any())


def _cut(win, box):
    if win is None:
        return box
    return (max(win[0], box[0]), max(win[1], box[1]), min(win[2], box[2]), min(win[3], box[3]))


def run_window(case, warp_kw=None, reach=0):
    kind = case[0]
    REC.clear()
    node, st0, bands, levels = leaf(kind)
    REC.clear()
    node, st = pipe.build(case, warp_kw, leaf=(node, st0))
    quiet_so_far('building')
    node.optimize()
    quiet_so_far('optimizing')
    W = st0.dsize[0]
    win, unit, _ = needed(case, st0)
    unit *= 1 + reach / 2
    for again in range(2):
        node.finalize()
        reads, opens = list(REC.reads), list(REC.opens)
        REC.clear()
        if len(opens) > 2 + case.count('t_rep') * 2:
            raise Violation(f'one file is opened {len(opens)} times')
        for op in ('BAND', 'WINDOW', 'LEVEL'):
            if st.nover and (st.nover > levels or levels < 3 and any(c[0] in 'wr' for c in case[1:])):
                continue        # an overview that is not stored is made from all of the file
            judge(op, case, st, reads, bands, levels, W, win, unit)
    return Outcome([core.key(case, sorted(reads))], len(case) + 2, 2)


def judge(what, case, st, reads, bands, levels, W, win, unit):
    if what == 'BAND':
        got = collections.Counter(r[2] for r in reads)
        want = collections.Counter(bands[n] for n, _ in st.chans if n in bands)
        if got - want:
            raise Violation(f'bands {dict(got)} are read, the image shows {dict(want)} (band: times)')
        return
    # a level whose pixels are no larger than those of the image exists
    cols = np.linalg.norm(st.T[:2, :2], axis=0)
    best = int(max(0, min(levels, np.floor(-np.log2(max(cols)) + 1e-9))))
    for _, width, band, x, y, w, h in reads:
        lv = int(round(np.log2(W / width)))
        f = 2 ** lv
        if what == 'LEVEL':
            if lv < best:
                raise Violation(f'level {lv} is read, level {best} is stored and fine enough for scales {cols}')
            continue
        slack = 3 * unit + f - 1
        x0, y0, x1, y1 = win
        over = max(x0 - x * f, y0 - y * f, (x + w) * f - x1, (y + h) * f - y1)
        if unit and (x1 <= x0 or y1 <= y0):
            continue            # nothing of the file is seen: any part of it may stand in
        if over > slack + 1e-6 and w * h > 1:
            raise Violation(f'the window x={x} y={y} {w}x{h} of level {lv} is read; the image shows '
                            f'{tuple(round(float(v), 2) for v in win)} of the file, {over:.1f} pixels less (allowed {slack:.1f})')


# --------------------------------------------------------------- untouched
META = {'channels': 'x|y|z', 'dsize': None, 'num_overviews': 3}


def run_untouched(case):
    """Files whose metadata is known (or partly known) are not opened at all."""
    from delayed_image import DelayedLoad
    given, ops, absent, levels = case
    w, h = 96, 72
    path = os.path.join(pipe.workdir(), 'absent.tif') if absent else pipe.f_cog(w, h) if levels else pipe.f_plain(w, h)
    meta = {'channels': 'x|y|z' if levels != 1 else 3, 'dsize': (w, h), 'num_overviews': levels}
    node = DelayedLoad(path, **{k: meta[k] for k in given})
    _, st = pipe.make_leaf(f'cog:{w}x{h}')
    REC.clear()
    known = len(given) == 3
    if known:
        if node.prepare() is not node:
            raise Violation('prepare returns another image')
        quiet_so_far('prepare of an image with known metadata')
    for name in ops:
        try:
            node, st = pipe.apply_op(node, st, name, {})
        except Exception:
            quiet_so_far(f'refusing {name}')
            if known:
                raise
            return Outcome([core.key(given, 'refused')], 1, 1)
        quiet_so_far(f'building {name}')
    try:
        inspect(node)
    except Exception:
        if known:
            raise
    quiet_so_far('inspecting')
    if not known:
        node.prepare()
        if REC.reads:
            raise Violation(f'prepare reads {REC.reads[:2]}')
        if len(REC.opens) > 1:
            raise Violation(f'prepare opens {REC.opens}')
        REC.clear()
        with contextlib.suppress(Exception):
            inspect(node)
        quiet_so_far('inspecting what is prepared')
    return Outcome([core.key(case)], len(ops) + 1, 1)


def cases_untouched(ops, depth):
    for r in range(4):
        for given in itertools.combinations(META, r):
            for c in pipe.enumerate_cases(['cog:96x72'], ops, depth if r == 3 else 1):
                yield [list(given), c[1:], 0, 3]
                if r == 3:
                    yield [list(given), c[1:], 1, 3]
                    if len(c) < 3:
                        for levels in (0, 1):
                            if levels != 1 or not any('|' in str(pipe.OPS[o][1]) or o == 't_z' for o in c[1:]):
                                yield [list(given), c[1:], 0, levels]
                                yield [list(given), c[1:], 1, levels]


def run_inspect(case):
    """Asking anything of any prepared pipeline reads nothing."""
    node, st0, _, _ = leaf(case[0])
    REC.clear()
    node, _ = pipe.build(case, leaf=(node, st0))
    inspect(node)
    quiet_so_far('inspecting')
    return Outcome([core.key(case)], len(case), 1)


# ------------------------------------------------------------ without GDAL
def run_nogdal(case):
    """Whole files are read then, once, and not before they are needed."""
    from delayed_image import DelayedLoad, lazy_loaders
    kind, ops, prepared = case
    path = pipe.f_plain()
    kept = lazy_loaders.LazyGDalFrameFile.__dict__['available']
    lazy_loaders.LazyGDalFrameFile.available = classmethod(lambda cls: False)
    try:
        _, st = pipe.make_leaf('plain')
        if kind == 'known':
            node = DelayedLoad(path, channels='x|y|z', dsize=(pipe.W, pipe.H), num_overviews=0)
        else:
            node = DelayedLoad(path, channels='x|y|z')
        REC.clear()
        if prepared:
            node.prepare()
            if kind == 'known':
                quiet_so_far('prepare')
        if any(o[0] == 'imread' for o in REC.opens):
            raise Violation('prepare reads the file')
        REC.clear()
        node, st = pipe.build(['plain'] + ops, leaf=(node, st))
        inspect(node)
        if any(o[0] == 'imread' for o in REC.opens):
            raise Violation('inspecting reads the file')
        REC.clear()
        node.finalize()
        n = sum(o[0] == 'imread' for o in REC.opens)
        if n > 1:
            raise Violation(f'the file is read {n} times')
    finally:
        lazy_loaders.LazyGDalFrameFile.available = kept
    return Outcome([core.key(case)], len(ops) + 1, 1)


ALL = list(pipe.OPS)
SOME = ['c_mid', 'c_tl', 'c_neg', 'p_tl', 'p_br', 'w_half', 'w_quart', 'w_dbl', 'w_tf', 'w_rots', 'w_flip', 'w_hd', 'r_a',
        'o1', 'o2', 't_yx', 'g_one', 'dq']
EXACT = ['c_mid', 'c_tl', 'c_br', 'c_neg', 'c_far', 'c_row', 't_yx', 't_z', 't_rep', 't_rev', 'g_neg', 'g_one', 'g_sl', 'dq', 'w_id', 'o0']


def windows(kinds, ops, depth):
    def gen():
        for c in pipe.enumerate_cases([k + SIZE for k in kinds if k not in NEW], ops, depth):
            yield c
        for k in kinds:
            if k in NEW:
                for c in pipe.enumerate_cases(['cog' + SIZE], ops, depth):
                    yield [k + SIZE] + c[1:]
    return gen


NEW = ('ma', 'float', 'known', 'two', 'cat_files')


def families(tier):
    th = tier == 'thorough'
    F = Family
    fams = [
        F('windows', windows(['cog', 'plain', 'cat_jag', 'cat_cat', 'ma', 'float', 'known', 'two', 'cat_files'], ALL, 2), run_window,
          'all sequences of two operations', setup),
        F('exact', windows(['cog', 'plain', 'cat_files'], EXACT, 3), run_window, 'all sequences of three whole pixel operations', setup),
        F('mixed', windows(['cog'], SOME, 3), run_window, 'sequences of three operations', setup),
        F('sharp', windows(['cog'], ALL, 2), lambda c: run_window(c, {'antialias': False}), 'all sequences of two, not antialiased', setup),
        F('cubic', windows(['cog'], ALL, 2), lambda c: run_window(c, {'interpolation': 'cubic'}, 1), 'all sequences of two, cubic', setup),
        F('lanczos', windows(['cog'], ALL, 2), lambda c: run_window(c, {'interpolation': 'lanczos'}, 3), 'all sequences of two, lanczos', setup),
        F('untouched', lambda: cases_untouched(ALL, 2), run_untouched,
          'sequences of two operations on files with known and partly known metadata, which may not exist', setup),
        F('inspect', windows(['cog', 'plain', 'cat_jag', 'cat_files'], ALL, 2), run_inspect, 'sequences of two operations, inspected', setup),
        F('nogdal', lambda: ([k, c[1:], p] for k in ('known', 'unknown') for p in (0, 1) if k == 'known' or p
                             for c in pipe.enumerate_cases(['plain'], SOME, 2)), run_nogdal, 'sequences of two operations without GDAL', setup),
    ]
    if th:
        fams += [
            F('windows3', windows(['cog', 'plain', 'cat_files', 'two'], ALL, 3), run_window, 'all sequences of three operations', setup),
            F('mixed4', windows(['cog'], SOME[:15], 4), run_window, 'sequences of four operations', setup),
            F('exact4', windows(['cog'], EXACT, 4), run_window, 'sequences of four whole pixel operations', setup),
        ]
    return fams
