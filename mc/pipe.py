"""
Shared driver: pipelines of public image operations and their reference model.

A pipeline case is ``[leaf, op, op, ...]`` where leaf and op are names in the
tables below.  ``build`` applies the ops to the real objects through the public
API and, in lock step, to a boring reference state:

    T      3x3 matrix mapping leaf coordinates to node coordinates
    dsize  (w, h) of the node
    chans  list of channel descriptors  (name, (ax, ay, a0))  | (name, None)
           a channel is the linear ramp  ax*x + ay*y + a0  of leaf coordinates;
           None is an all-missing channel
    walls  list of [T_j, dsize_j, margin_j]: canvases the content passed
           through.  margin is in pixels of canvas j, grown by resampling.
"""
import os

import numpy as np

W, H = 32, 24          # leaf size (multiple of 8, so overviews are exact)

CH = [('x', (1., 0., 0.)), ('y', (0., 1., 0.)), ('z', (1., 2., 100.))]


def ramp(w=W, h=H, chans=CH, dtype=np.float32):
    yy, xx = np.mgrid[0:h, 0:w]
    xx = xx + .5
    yy = yy + .5
    return np.stack([a * xx + b * yy + c for _, (a, b, c) in chans],
                    -1).astype(dtype)


# ---------------------------------------------------------------- fixtures
def workdir():
    d = os.environ.get('MC_WORK')
    if not d:
        import tempfile
        d = os.environ['MC_WORK'] = tempfile.mkdtemp(prefix='mc.')
    return d


def write_tif(fpath, data, overviews=(), nodata=None, resampling='AVERAGE',
              driver='GTiff', options=()):
    """Write an image straight through GDAL (no delayed_image, no kwimage)."""
    from osgeo import gdal, gdal_array
    gdal.UseExceptions()
    if data.ndim == 2:
        data = data[:, :, None]
    h, w, c = data.shape
    code = gdal_array.NumericTypeCodeToGDALTypeCode(data.dtype.type)
    ds = gdal.GetDriverByName(driver).Create(fpath, w, h, c, code, options=list(options))
    for i in range(c):
        band = ds.GetRasterBand(i + 1)
        band.WriteArray(np.ascontiguousarray(data[:, :, i]))
        if nodata is not None:
            nd = nodata[i] if isinstance(nodata, (list, tuple)) else nodata
            if nd is not None:
                band.SetNoDataValue(nd)
    ds.FlushCache()
    if overviews:
        ds.BuildOverviews(resampling, list(overviews))
    ds = None
    gdal.DontUseExceptions()
    return fpath


def fixture(name, maker):
    """Create a fixture file once (atomic rename: workers may race)."""
    d = workdir()
    fpath = os.path.join(d, name)
    if not os.path.exists(fpath):
        tmpd = os.path.join(d, f'tmp{os.getpid()}')
        os.makedirs(tmpd, exist_ok=True)
        tmp = os.path.join(tmpd, name)
        maker(tmp)
        for extra in sorted(os.listdir(tmpd)):
            os.replace(os.path.join(tmpd, extra), os.path.join(d, extra))
    return fpath


def f_plain(w=W, h=H):
    name = 'plain.tif' if (w, h) == (W, H) else f'plain_{w}x{h}.tif'
    return fixture(name, lambda p: write_tif(p, ramp(w, h)))


def f_cog(w=W, h=H):
    name = 'cog.tif' if (w, h) == (W, H) else f'cog_{w}x{h}.tif'
    return fixture(name, lambda p: write_tif(
        p, ramp(w, h), overviews=(2, 4, 8),
        options=['TILED=YES', 'BLOCKXSIZE=16', 'BLOCKYSIZE=16']))


def make_leaf(kind, chans=('x', 'y', 'z')):
    """
    Return (node, state).  kind is a name, optionally followed by ":WxH" (the
    leaf size) and by "?" (the channels are not named).
    """
    from delayed_image import (DelayedIdentity, DelayedLoad, DelayedNans,
                               DelayedChannelConcat)
    named = not kind.endswith('?')
    kind, _, size = kind.rstrip('?').partition(':')
    w, h = map(int, size.split('x')) if size else (W, H)
    lut = dict(CH)
    spec = '|'.join(chans) if named else None
    desc = [(c, lut[c]) for c in chans]
    if kind == 'id':
        data = ramp(w, h, chans=desc)
        data.flags.writeable = False
        node = DelayedIdentity(data, channels=spec)
    elif kind == 'flat':
        # two dimensional data
        chans = ('x',)
        desc = [('x', lut['x'])]
        node = DelayedIdentity(ramp(w, h, chans=desc)[:, :, 0], channels='x' if named else None)
    elif kind == 'plain':
        node = DelayedLoad(f_plain(w, h), channels=spec).prepare()
    elif kind == 'cog':
        node = DelayedLoad(f_cog(w, h), channels=spec).prepare()
    elif kind == 'nans':
        node = DelayedNans((w, h), channels=spec)
        desc = [(c, None) for c in chans]
    elif kind == 'cat_ids':
        a = DelayedIdentity(ramp(w, h, chans=[(c, lut[c]) for c in 'xy']), channels='x|y')
        b = DelayedIdentity(ramp(w, h, chans=[('z', lut['z'])]), channels='z')
        node = DelayedChannelConcat([a, b])
        desc = [(c, lut[c]) for c in 'xyz']
    elif kind == 'cat_jag':
        # jagged: the second part lives in a half-resolution space
        a = DelayedLoad(f_cog(w, h), channels='x|y|z').prepare().take_channels('x|y')
        half = ramp(w // 2, h // 2, [('z', (2., 4., 100.))])
        b = DelayedIdentity(half, channels='z').warp(
            {'scale': 2}, dsize=(w, h), antialias=False)
        node = DelayedChannelConcat([a, b])
        desc = [(c, lut[c]) for c in 'xyz']
    elif kind == 'cat_nan':
        a = DelayedIdentity(ramp(w, h, chans=[(c, lut[c]) for c in 'xy']), channels='x|y')
        b = DelayedNans((w, h), channels='z')
        node = DelayedChannelConcat([a, b])
        desc = [('x', lut['x']), ('y', lut['y']), ('z', None)]
    elif kind == 'cat_cat':
        a = DelayedIdentity(ramp(w, h, chans=[('x', lut['x'])]), channels='x')
        b = DelayedLoad(f_plain(w, h), channels='x|y|z').prepare()[:, :, [1]]
        c = DelayedIdentity(ramp(w, h, chans=[('z', lut['z'])]), channels='z')
        node = DelayedChannelConcat([DelayedChannelConcat([a, b]), c])
        desc = [(c, lut[c]) for c in 'xyz']
    else:
        raise KeyError(kind)
    eye = np.eye(3)
    # content born on a half resolution canvas has a wider edge
    margin = 1.01 if kind == 'cat_jag' else 0.
    st = State(eye, (w, h), desc, [[eye, (w, h), margin]])
    st.named = named
    return node, st


class State:
    __slots__ = ('T', 'dsize', 'chans', 'walls', 'nwarp', 'nover', 'deq',
                 'coarse', 'chain', 'named')

    def __init__(self, T, dsize, chans, walls):
        self.T = T
        self.dsize = dsize
        self.chans = chans
        self.walls = walls
        self.nwarp = 0      # number of resampling steps
        self.nover = 0      # overview levels consumed
        self.deq = False
        self.coarse = 1.    # leaf pixels per pixel on the coarsest canvas
        self.chain = []
        self.named = True

    def copy(self):
        s = State(self.T, self.dsize, list(self.chans),
                  [list(w) for w in self.walls])
        s.nwarp, s.nover, s.deq, s.coarse = (
            self.nwarp, self.nover, self.deq, self.coarse)
        s.chain = list(self.chain)
        s.named = self.named
        return s


def affine(scale=(1, 1), offset=(0, 0), theta=0., shearx=0.):
    """Independent re-statement: T @ R @ Shear @ S."""
    if not isinstance(scale, (tuple, list)):
        scale = (scale, scale)
    if not isinstance(offset, (tuple, list)):
        offset = (offset, offset)
    c, s = np.cos(theta), np.sin(theta)
    R = np.array([[c, -s], [s, c]])
    Sh = np.array([[1, shearx], [0, 1.]])
    S = np.diag(np.array(scale, float))
    M = np.eye(3)
    M[:2, :2] = R @ Sh @ S
    M[:2, 2] = offset
    return M


def auto_dsize(M, dsize):
    w, h = dsize
    pts = (M @ np.array([[0, 0, 1], [w, 0, 1], [0, h, 1], [w, h, 1.]]).T)[:2]
    return tuple(int(v) for v in np.ceil(pts.max(axis=1)))


def pxsize(T):
    """leaf pixels per node pixel (largest extent)."""
    return np.linalg.norm(np.linalg.inv(T[:2, :2]), 2)


class Skip(Exception):
    """The op is outside the documented domain in this state."""


# ------------------------------------------------------------------ alphabet
OPS = {}


def _crop(name, ys, xs):
    OPS[name] = ('crop', slice(*ys), slice(*xs))


_crop('c_mid', (3, 19), (5, 27))
_crop('c_tl', (None, 9), (None, 11))
_crop('c_br', (7, None), (10, None))
_crop('c_neg', (-10, -1), (-13, -2))
_crop('c_far', (4, 400), (6, 500))
_crop('c_row', (5, 6), (None, None))
OPS['p_tl'] = ('pcrop', slice(-3, 14), slice(-2, 21))
OPS['p_br'] = ('pcrop', slice(4, 37), slice(6, 45))
OPS['p_in'] = ('pcrop', slice(2, 17), slice(3, 22))

for _n, _k, _kw in [
    ('w_half', dict(scale=.5), {}),
    ('w_quart', dict(scale=.25), {}),
    ('w_dbl', dict(scale=2), {}),
    ('w_third', dict(scale=.3), {}),
    ('w_aniso', dict(scale=(.5, 1.5)), {}),
    ('w_aniso2', dict(scale=(1.25, .4)), {}),
    ('w_up', dict(scale=1.7), {}),
    ('w_t', dict(offset=(3, -2)), {}),
    ('w_tf', dict(offset=(.5, .25)), {}),
    ('w_tn', dict(offset=(-4.25, 2.75)), {}),
    ('w_rot', dict(theta=.3, offset=(4, 1)), {}),
    ('w_rots', dict(theta=-.2, scale=.6, offset=(2, 5)), {}),
    ('w_shear', dict(shearx=.2), {}),
    ('w_flip', dict(scale=(-1, 1), offset=(26, 0)), {}),
    ('w_hd', dict(scale=.5), {'dsize': (19, 15)}),       # padded dsize
    ('w_hs', dict(scale=.5), {'dsize': (9, 7)}),         # truncating dsize
    ('w_dd', dict(scale=2), {'dsize': (70, 40)}),
    ('w_qo', dict(scale=.25, offset=(1.5, .5)), {}),
    ('w_id', dict(), {}),
    ('w_idp', dict(), {'dsize': (29, 31)}),
]:
    OPS[_n] = ('warp', _k, _kw)
OPS['r_a'] = ('resize', (13, 17))
OPS['r_b'] = ('resize', (40, 30))
OPS['o1'] = ('over', 1)
OPS['o2'] = ('over', 2)
OPS['o0'] = ('over', 0)
OPS['dq'] = ('deq', {'orig_min': 0., 'orig_max': 2., 'quant_min': 0,
                     'quant_max': 8, 'nodata': None})
OPS['t_yx'] = ('take', [1, 0])
OPS['t_z'] = ('take', 'z')
OPS['t_xz'] = ('take', 'x|z')
OPS['t_rep'] = ('take', [0, 1, 0])
OPS['t_miss'] = ('take', 'x|q')
OPS['t_neg'] = ('take', [-1, 0])
OPS['t_rev'] = ('take', slice(None, None, -1))
OPS['g_neg'] = ('get', slice(3, 19), slice(5, 27), [-1, 0])
OPS['g_one'] = ('get', slice(2, None), slice(None, -3), 1)
OPS['g_sl'] = ('get', slice(None, 12), slice(4, None), slice(None, None, -1))


def _pick(chans, sel):
    if isinstance(sel, slice):
        got = chans[sel]
    elif isinstance(sel, int):
        if not -len(chans) <= sel < len(chans):
            raise Skip('no such band')
        got = [chans[sel]]
    else:
        if max(sel) >= len(chans) or min(sel) < -len(chans):
            raise Skip('no such band')
        got = [chans[i] for i in sel]
    if not got:
        raise Skip('no band is left')
    return got


def apply_op(node, st, name, warp_kw, build=True):
    """Apply one op on the real node and on the model."""
    op = OPS[name]
    kind = op[0]
    st = st.copy()
    w, h = st.dsize
    if kind == 'crop':
        y0, y1, _ = op[1].indices(h)
        x0, x1, _ = op[2].indices(w)
        if y1 <= y0 or x1 <= x0:
            raise Skip('empty')
        if build:
            node = node.crop((op[1], op[2]))
        M = affine(offset=(-x0, -y0))
        st.T = M @ st.T
        st.dsize = (x1 - x0, y1 - y0)
        st.walls.append([st.T, st.dsize, 0.])
    elif kind == 'get':
        y0, y1, _ = op[1].indices(h)
        x0, x1, _ = op[2].indices(w)
        if y1 <= y0 or x1 <= x0:
            raise Skip('empty')
        st.chans = _pick(st.chans, op[3])
        if build:
            sel = op[3]
            node = node[op[1], op[2], list(sel) if isinstance(sel, list) else sel]
        st.T = affine(offset=(-x0, -y0)) @ st.T
        st.dsize = (x1 - x0, y1 - y0)
        st.walls.append([st.T, st.dsize, 0.])
    elif kind == 'pcrop':
        # exact when the window is inside: then it is a plain crop
        y0, y1 = op[1].start, op[1].stop
        x0, x1 = op[2].start, op[2].stop
        if x0 >= w or y0 >= h:
            raise Skip('disjoint')
        if build:
            node = node.crop((op[1], op[2]), clip=False, wrap=False)
        inside = x0 >= 0 and y0 >= 0 and x1 <= w and y1 <= h
        M = affine(offset=(-x0, -y0))
        if not inside:
            st.walls.append([affine(offset=(-max(x0, 0), -max(y0, 0))) @ st.T,
                             (min(x1, w) - max(x0, 0), min(y1, h) - max(y0, 0)), 0.])
            _grow(st)
        st.T = M @ st.T
        st.dsize = (x1 - x0, y1 - y0)
        st.walls.append([st.T, st.dsize, 0.])
    elif kind in {'warp', 'resize'}:
        if kind == 'warp':
            M = affine(**op[1])
            dsize = op[2].get('dsize') or auto_dsize(M, st.dsize)
            if min(dsize) < 1:
                raise Skip('empty')
            if build:
                kw = dict(op[2])
                kw.update(warp_kw)
                node = node.warp(op[1], **kw)
        else:
            dsize = op[1]
            M = affine(scale=(dsize[0] / w, dsize[1] / h))
            if build:
                node = node.resize(dsize, **warp_kw)
        _grow(st)
        st.T = M @ st.T
        st.dsize = tuple(dsize)
        st.walls.append([st.T, st.dsize, 0.])
        st.nwarp += 1
    elif kind == 'over':
        lv = op[1]
        if st.nover + lv > 3:
            raise Skip('the leaf size is not divisible by this level')
        if build:
            node = node.get_overview(lv)
        if lv:
            _grow(st)
        s = 1 / 2 ** lv
        st.T = affine(scale=s) @ st.T
        st.dsize = (int(np.ceil(w * s)), int(np.ceil(h * s)))
        st.walls.append([st.T, st.dsize, 0.])
        st.nover += lv
    elif kind == 'deq':
        if st.deq:
            raise Skip('documented: only once')
        if build:
            node = node.dequantize(dict(op[1]))
        q = op[1]
        k = (q['orig_max'] - q['orig_min']) / (q['quant_max'] - q['quant_min'])
        st.chans = [
            (n, None if r is None else
             (r[0] * k, r[1] * k, (r[2] - q['quant_min']) * k + q['orig_min']))
            for n, r in st.chans]
        st.deq = True
    elif kind == 'take':
        sel = op[1]
        if isinstance(sel, (list, slice)):
            st.chans = _pick(st.chans, sel)
        else:
            names = sel.split('|')
            lut = dict(st.chans)
            if not st.named:
                raise Skip('no channel names')
            st.chans = [(n, lut.get(n)) for n in names]
        if build:
            node = node.take_channels(list(sel) if isinstance(sel, list) else sel)
    else:
        raise KeyError(kind)
    st.coarse = max(st.coarse, pxsize(st.T))
    st.chain.append(name)
    return node, st


def _grow(st):
    """A resampling step: content within one pixel of a wall is unreliable."""
    for wl in st.walls:
        # convert one pixel of the current canvas to pixels of canvas j
        M = wl[0] @ np.linalg.inv(st.T)
        wl[2] += max(1.0, np.linalg.norm(M[:2, :2], 2)) * 1.1


def build(case, warp_kw=None, leaf=None):
    warp_kw = warp_kw or {}
    node, st = make_leaf(case[0]) if leaf is None else leaf
    for name in case[1:]:
        node, st = apply_op(node, st, name, warp_kw)
    return node, st


def model(case, leaf_state):
    st = leaf_state
    for name in case[1:]:
        _, st = apply_op(None, st, name, {}, build=False)
    return st


def enumerate_cases(leafs, ops, depth):
    """All op sequences up to depth, shortest first (model-skips removed)."""
    states = {}
    for lf in leafs:
        _, st = make_leaf(lf)
        states[lf] = st
    level = [([lf], states[lf]) for lf in leafs]
    for case, st in level:
        yield case
    for _ in range(depth):
        nxt = []
        for case, st in level:
            for name in ops:
                try:
                    _, st2 = apply_op(None, st, name, {}, build=False)
                except Skip:
                    continue
                if max(st2.dsize) > 220 or pxsize(st2.T) > 18:
                    continue
                if st2.nover and st2.coarse > 8.01:
                    continue        # coarser than the leaf size divides
                c2 = case + [name]
                nxt.append((c2, st2))
                yield c2
        level = nxt


def sample_grid(st, soft=0.):
    """
    Leaf coordinates of every output pixel centre, and the mask of the pixels
    that must have content.  soft: leaf pixels around every edge that are
    always unreliable (half a pixel of the pyramid level that is read).
    """
    w, h = st.dsize
    v, u = np.mgrid[0:h, 0:w]
    P = np.stack([u + .5, v + .5, np.ones(u.shape)], 0).reshape(3, -1)
    L = np.linalg.inv(st.T) @ P
    lx = L[0].reshape(h, w)
    ly = L[1].reshape(h, w)
    must = np.ones((h, w), bool)
    for Tj, (dw, dh), m in st.walls:
        C = Tj @ L
        cx = C[0].reshape(h, w)
        cy = C[1].reshape(h, w)
        m = max(m, soft * np.linalg.norm(Tj[:2, :2], 2))
        must &= (cx >= m) & (cx <= dw - m) & (cy >= m) & (cy <= dh - m)
    return lx, ly, must


def expected(st, lx, ly):
    outs = []
    for _, r in st.chans:
        if r is None:
            outs.append(np.full(lx.shape, np.nan))
        else:
            outs.append(r[0] * lx + r[1] * ly + r[2])
    return np.stack(outs, -1)
