"""
C12: fill and missing values.  Model: every output pixel centre is traced back
through the canvases of the requested operations.  The last canvas it falls
outside of decides its fill; a pixel inside of all canvases has content.  Pixels
within a resampling margin of a deciding edge are not compared.
"""
import itertools

import numpy as np

from mc import pipe
from mc.core import Family, Outcome, Violation, key

LEVEL = 'model_checking'
W, H = pipe.W, pipe.H


class Trace:
    """fillers: [T, dsize, fill, born] of each canvas beyond which there is fill"""

    def __init__(self, leaf_state):
        self.fillers = []
        self.deq = None

    def step(self, st0, st1, name, border, nwarps, smooth):
        op = pipe.OPS[name]
        w, h = st0.dsize
        if op[0] in {'warp', 'resize', 'over'}:
            grow = nwarps
            for f in self.fillers:
                f['m'] += self._px(f, st0, st1) * (3.3 if smooth else 1.1)
            b = border if op[0] != 'over' else 'auto'
            self.fillers.append({'T': st0.T, 'd': st0.dsize, 'b': b, 'm': 0, 'q': self.deq is not None})
            self.fillers[-1]['m'] = 1.1 * max(1, self._px(self.fillers[-1], st0, st1))
        elif op[0] == 'pcrop':
            y0, y1, x0, x1 = op[1].start, op[1].stop, op[2].start, op[2].stop
            if not (x0 >= 0 and y0 >= 0 and x1 <= w and y1 <= h):
                T = pipe.affine(offset=(-max(x0, 0), -max(y0, 0))) @ st0.T
                self.fillers.append({'T': T, 'd': (min(x1, w) - max(x0, 0), min(y1, h) - max(y0, 0)),
                                     'b': 'auto', 'm': 0.01, 'q': self.deq is not None})
        elif op[0] == 'deq':
            q = op[1]
            self.deq = lambda v: ((v - q['quant_min']) * (q['orig_max'] - q['orig_min'])
                                  / (q['quant_max'] - q['quant_min']) + q['orig_min'])

    @staticmethod
    def _px(f, st0, st1):
        """one pixel of the coarser of the canvases, in pixels of the filler"""
        a = np.linalg.norm((f['T'] @ np.linalg.inv(st0.T))[:2, :2], 2)
        b = np.linalg.norm((f['T'] @ np.linalg.inv(st1.T))[:2, :2], 2)
        return max(a, b)

    def classify(self, st, isint):
        """(mask, fill, cut) for every filler, and the undecided pixels"""
        w, h = st.dsize
        v, u = np.mgrid[0:h, 0:w]
        P = np.stack([u + .5, v + .5, np.ones(u.shape)], 0).reshape(3, -1)
        L = np.linalg.inv(st.T) @ P
        left = np.ones((h, w), bool)
        out = []
        for i, f in reversed(list(enumerate(self.fillers))):
            C = f['T'] @ L
            cx, cy = C[0].reshape(h, w), C[1].reshape(h, w)
            dw, dh = f['d']
            m = f['m']
            beyond = (cx < -m) | (cx > dw + m) | (cy < -m) | (cy > dh + m)
            inside = (cx >= m) & (cx <= dw - m) & (cy >= m) & (cy <= dh - m)
            b = f['b']
            if b == 'auto':
                b = 0. if isint and not f['q'] else np.nan
            if not f['q'] and self.deq is not None:
                b = self.deq(b)
            out.append((left & beyond, b, i))
            left &= inside
        return out, left, L


def leaf_int(kind):
    from delayed_image import DelayedIdentity, DelayedChannelConcat, DelayedLoad
    st = pipe.make_leaf('id')[1]
    u8 = pipe.ramp(dtype=np.float64)
    u8 = np.clip(u8, 0, 250).astype(np.uint8)
    if kind == 'u8':
        return DelayedIdentity(u8, channels='x|y|z'), st
    if kind == 'u8file':
        f = pipe.fixture('u8fill.tif', lambda p: pipe.write_tif(p, u8, overviews=(2, 4, 8)))
        return DelayedLoad(f, channels='x|y|z').prepare(), st
    if kind == 'u8cat':
        return DelayedChannelConcat([DelayedIdentity(u8[:, :, :1], channels='x'),
                                     DelayedIdentity(u8[:, :, 1:], channels='y|z')]), st
    if kind == 'f64':
        return DelayedIdentity(pipe.ramp(dtype=np.float64), channels='x|y|z'), st
    if kind == 'many':
        n = 6
        d = np.stack([pipe.ramp()[:, :, 0]] * n, -1)
        st.chans = [('c%d' % i, (1., 0., 0.)) for i in range(n)]
        return DelayedIdentity(d, channels='|'.join(c for c, _ in st.chans)), st
    if kind == 'many8':
        n = 6
        d = np.stack([u8[:, :, 0]] * n, -1)
        st.chans = [('c%d' % i, (1., 0., 0.)) for i in range(n)]
        return DelayedIdentity(d, channels='|'.join(c for c, _ in st.chans)), st
    raise KeyError(kind)


INTS = {'u8', 'u8file', 'u8cat', 'many8'}


def run_fill(case):
    kind, border, interp, aa, ops = case[:5]
    borders = border if isinstance(border, list) else [border] * len(ops)
    node, st = leaf_int(kind) if kind in INTS | {'f64', 'many'} else pipe.make_leaf(kind)
    isint = kind in INTS
    tr = Trace(st)
    kw = {'interpolation': interp, 'antialias': bool(aa)}
    smooth = bool(aa) and interp != 'nearest'
    for name, b in zip(ops, borders):
        s0 = st
        kwb = kw if b == 'default' else dict(kw, border_value=b)
        node, st = pipe.apply_op(node, st, name, kwb)
        tr.step(s0, st, name, 'auto' if b == 'default' else b, 0, smooth)
    zones, content, L = tr.classify(st, isint)
    lx, ly, must = pipe.sample_grid(st, .5 if st.nover else 0)
    exp = pipe.expected(st, lx, ly)
    real = [i for i, (_, r) in enumerate(st.chans) if r is not None or kind == 'nans']
    n = 0
    for which, opt in (('plain', False), ('optimized', True)):
        a = np.asarray(node.finalize(optimize=opt), dtype=np.float64)
        if a.shape[:2] != (st.dsize[1], st.dsize[0]):
            raise Violation(f'{which}: shape {a.shape}')
        for zone, fill, i in zones:
            if not zone.any():
                continue
            got = a[zone][:, real]
            tol = 1e-4 * max(1, abs(fill)) if fill == fill else 0
            ok = np.isnan(got) if np.isnan(fill) else np.abs(got - fill) <= tol
            n += ok.size
            if opt and not ok.all():
                # fusing may show content again that an inner canvas cut off
                cut = tr.fillers[i]
                if i > 0:
                    m = max(tr.fillers[0]['m'], cut['m'])
                    near = leaf_zone(L, st, m)[zone][:, None]
                    deep = leaf_zone(L, st, -m)[zone][:, None]
                    e = exp[zone][:, real]
                    lo = np.fmin(e, fill) - 24 * st.coarse
                    hi = np.fmax(e, fill) + 24 * st.coarse
                    shown = ((got >= lo) & (got <= hi)) | (np.isnan(got) & np.isnan(fill))
                    ok = ok | (near & ~deep) | (shown & deep)
            if not ok.all():
                bad = np.argwhere(zone)[np.argmin(ok.all(-1))]
                raise Violation(f'{which}: pixel (y, x)={bad.tolist()} outside of the image holds '
                                f'{got[np.argmin(ok.all(-1))].tolist()}, expected fill {fill}')
    return Outcome([key(case[:4], np.round(st.T, 6), st.dsize)], 2 * len(ops) + 2, traces=2, trivial=not n)


def leaf_zone(L, st, m):
    w, h = st.dsize
    lx, ly = L[0].reshape(h, w), L[1].reshape(h, w)
    return (lx >= -m) & (lx <= W + m) & (ly >= -m) & (ly <= H + m)


def run_bands(case):
    """one border value per band"""
    kind, border, interp, aa, ops = case
    node, st = pipe.make_leaf(kind)
    tr = Trace(st)
    fills = list(border)
    names = [c for c, _ in st.chans]
    warped = False
    for name in ops:
        s0 = st
        old = [c for c, _ in st.chans]
        kw = {'interpolation': interp, 'antialias': bool(aa)}
        if is_warp(name):
            kw['border_value'] = tuple(fills)
            warped = True
        node, st = pipe.apply_op(node, st, name, kw)
        if pipe.OPS[name][0] == 'take':
            fills = [fills[old.index(c)] for c, _ in st.chans]
        tr.step(s0, st, name, 0., 0, bool(aa) and interp != 'nearest')
    zones, content, L = tr.classify(st, False)
    n = 0
    for which, opt in (('plain', False), ('optimized', True)):
        a = np.asarray(node.finalize(optimize=opt), dtype=np.float64)
        for zone, _, i in zones:
            if not zone.any() or (opt and i > 0):
                continue
            got = a[zone]
            n += got.size
            if not np.allclose(got, np.array(fills), atol=1e-3):
                raise Violation(f'{which}: pixels outside of the image hold {got[0].tolist()}, expected {fills}')
    return Outcome([key(case, np.round(st.T, 6))], 2 * len(ops), traces=2, trivial=not n)


# ------------------------------------------------- missing pixels in the source
BLOCKS = {'mid': (8, 18, 10, 22), 'tl': (0, 9, 0, 8), 'right': (5, 17, 24, 32), 'px': (11, 12, 15, 16),
          'all': (0, 24, 0, 32)}


def nan_leaf(kind, block):
    from delayed_image import DelayedIdentity, DelayedChannelConcat, DelayedLoad
    y0, y1, x0, x1 = BLOCKS[block]
    st = pipe.make_leaf('id')[1]
    d = pipe.ramp()
    if kind == 'ma':
        u8 = np.clip(d, 0, 250).astype(np.uint8)
        u8[u8 == 0] = 1
        u8[y0:y1, x0:x1] = 0
        f = pipe.fixture(f'ma_{block}.tif', lambda p: pipe.write_tif(p, u8, nodata=0))
        return DelayedLoad(f, channels='x|y|z', nodata_method='ma').prepare(), st, ('x', 'y', 'z')
    if kind == 'macat':
        parts = []
        for i, c in enumerate('xyz'):
            u8 = np.clip(d[:, :, i:i + 1], 1, 250).astype(np.uint8)
            if c != 'z':
                u8[y0:y1, x0:x1] = 0
            f = pipe.fixture(f'macat_{block}_{c}.tif', lambda p: pipe.write_tif(p, u8, nodata=0))
            parts.append(DelayedLoad(f, channels=c, nodata_method='ma').prepare())
        return DelayedChannelConcat(parts), st, ('x', 'y')
    if kind == 'cat':
        n = d.copy()
        n[y0:y1, x0:x1, :2] = np.nan
        return DelayedChannelConcat([DelayedIdentity(n[:, :, :2], channels='x|y'),
                                     DelayedIdentity(n[:, :, 2:], channels='z')]), st, ('x', 'y')
    if kind == 'file':
        n = d.copy()
        n[y0:y1, x0:x1] = np.nan
        f = pipe.fixture(f'nan_{block}.tif', lambda p: pipe.write_tif(p, n))
        return DelayedLoad(f, channels='x|y|z').prepare(), st, ('x', 'y', 'z')
    if kind == 'nodata':
        n = d.copy()
        n[y0:y1, x0:x1] = -9
        f = pipe.fixture(f'nd_{block}.tif', lambda p: pipe.write_tif(p, n, nodata=-9))
        return DelayedLoad(f, channels='x|y|z', nodata_method='float').prepare(), st, ('x', 'y', 'z')
    n = d.copy()
    n[y0:y1, x0:x1, 0] = np.nan
    return DelayedIdentity(n, channels='x|y|z'), st, ('x',)


def run_nan(case):
    kind, block, interp, aa, ops = case
    node, st, affected = nan_leaf(kind, block)
    leaf_wall = {'T': np.eye(3), 'd': (W, H), 'm': 0.}
    kw = {'interpolation': interp, 'antialias': bool(aa)}
    smooth = bool(aa) and interp != 'nearest'
    grown = 0.
    tr = Trace(st)
    for name in ops:
        s0 = st
        node, st = pipe.apply_op(node, st, name, kw)
        if pipe.OPS[name][0] in {'warp', 'resize', 'over'}:
            # masks of blurred pixels may spread by the radius of the blur
            grown += Trace._px(leaf_wall, s0, st) * (3.3 if smooth else 1.1)
        tr.step(s0, st, name, 'auto', 0, smooth)
    zones, _, _ = tr.classify(st, False)
    y0, y1, x0, x1 = BLOCKS[block]
    lx, ly, must = pipe.sample_grid(st, grown)
    inner = ((lx > x0 + grown) & (lx < x1 - grown) & (ly > y0 + grown) & (ly < y1 - grown))
    outer = (lx < x0 - grown) | (lx > x1 + grown) | (ly < y0 - grown) | (ly > y1 + grown)
    n = 0
    for which, opt in (('plain', False), ('optimized', True)):
        a = node.finalize(optimize=opt)
        miss = np.ma.getmaskarray(a) if isinstance(a, np.ma.MaskedArray) else np.isnan(a)
        if kind in {'ma', 'macat'} and a.dtype.kind != 'f' and not isinstance(a, np.ma.MaskedArray):
            raise Violation(f'{which}: the mask is gone')
        for zone, _, i in zones:
            # fusing may show content again that an inner canvas cut off
            if zone.any() and not (opt and i > 0):
                n += int(zone.sum())
                if not miss[zone][:, [i for i, (_, r) in enumerate(st.chans) if r is not None]].all():
                    raise Violation(f'{which}: pixels outside of the image are not missing')
        for i, (c, ref) in enumerate(st.chans):
            if ref is None:
                if not (miss[:, :, i] | np.isnan(np.asarray(a)[:, :, i])).all():
                    raise Violation(f'{which}: channel {c}, which does not exist, holds data')
                continue
            bad = must & outer & miss[:, :, i]
            if bad.any():
                raise Violation(f'{which}: pixel (y, x)={np.argwhere(bad)[0].tolist()} of {c} far from missing data is missing')
            if c in affected:
                bad = inner & ~miss[:, :, i]
                if bad.any():
                    raise Violation(f'{which}: pixel (y, x)={np.argwhere(bad)[0].tolist()} of {c} inside of missing '
                                    f'data holds {np.asarray(a)[:, :, i][bad][0]}')
                n += int(inner.sum())
            else:
                bad = must & miss[:, :, i]
                if bad.any():
                    raise Violation(f'{which}: missing data leaked into channel {c}')
            n += int((must & outer).sum())
    return Outcome([key(case[:4], np.round(st.T, 6), st.dsize)], 2 * len(ops) + 2, traces=2, trivial=not n)


GEO = ['c_mid', 'c_neg', 'p_tl', 'p_br', 'w_half', 'w_aniso', 'w_up', 'w_t', 'w_tf', 'w_tn', 'w_rot', 'w_rots', 'w_shear',
       'w_flip', 'w_hd', 'w_hs', 'w_dd', 'w_qo', 'w_idp', 'r_a', 'o1']
SEL = ['t_yx', 't_z', 't_rep', 't_miss', 't_neg', 'g_sl']
FLT = GEO + SEL + ['dq']
EXPL = [o for o in FLT if not o.startswith('p_')]      # padding always uses the default fill
CORE = ['c_mid', 'p_tl', 'w_half', 'w_tn', 'w_rot', 'w_hd', 'w_idp', 'w_t', 'o1', 'dq', 't_yx']
COREX = [o for o in CORE if not o.startswith('p_')]


def seqs(ops, depth):
    return [c[1:] for c in pipe.enumerate_cases(['id'], ops, depth)]


def is_warp(o):
    return pipe.OPS[o][0] in {'warp', 'resize'}


def mixed(s):
    """dequantizing between two warps makes their borders differ"""
    if 'dq' not in s:
        return False
    i = s.index('dq')
    return any(map(is_warp, s[:i])) and any(map(is_warp, s[i:]))


def cases_fill(kinds, modes, opsets, depth):
    for border, ops in opsets:
        ss = seqs(ops, depth)
        for kind in kinds:
            for interp, aa in modes:
                for s in ss:
                    # a missing channel is a floating point one
                    if kind in INTS and ('dq' in s or 't_miss' in s) and border == 'default':
                        continue
                    if kind.startswith('many') and any(o.startswith('t_') for o in s):
                        continue
                    if s and not (border != 'default' and mixed(s)):
                        yield [kind, border, interp, aa, s]


MODES = [('linear', 1), ('linear', 0), ('nearest', 0)]


# ----------------------------------------------------- images without content
def run_void(case):
    from delayed_image import DelayedNodata
    method, seq = case
    node = DelayedNodata((W, H), 'x|y|z', nodata_method=method)
    _, st = pipe.make_leaf('nans')
    for op in seq:
        node, st = pipe.apply_op(node, st, op, {})
    want = (st.dsize[1], st.dsize[0], len(st.chans))
    for opt in (False, True):
        got = node.finalize(optimize=opt)
        if got.shape != want:
            raise Violation(f'optimize={opt}: shape {got.shape}, expected {want}')
        seen = ~np.ma.getmaskarray(got)
        if got.dtype.kind == 'f':
            seen &= ~np.isnan(np.ma.getdata(got))
        if seen.any():
            raise Violation(f'optimize={opt}: {seen.sum()} pixels of an image without content are not missing')
    return Outcome([key(method, seq)], 2 * len(seq) + 2, 2)


def cases_void(depth):
    for c in pipe.enumerate_cases(['nans'], list(pipe.OPS), depth):
        for m in ('float', 'nan', None, 'ma'):
            if m != 'ma' or 'dq' not in c:
                yield [m, c[1:]]


def families(tier):
    th = tier == 'thorough'
    F = Family
    d2, d3 = (3, 4) if th else (2, 3)
    INTB = [('default', [o for o in FLT if o != 'dq']), (200, [o for o in EXPL if o != 'dq'])]
    FLTB = [('default', FLT), (-7., EXPL), (0, EXPL)]
    return [
        F('fill2', lambda: cases_fill(['id', 'cog', 'cat_ids'], MODES, FLTB, 2), run_fill,
          'sequences of 2, default and explicit border, floating point data'),
        F('fill2_int', lambda: cases_fill(['u8', 'u8file', 'u8cat', 'many', 'many8', 'f64'], MODES, INTB, 2), run_fill,
          'sequences of 2, integer data, many channels'),
        F('fill3', lambda: cases_fill(['cog', 'cat_ids'] if not th else ['cog', 'cat_ids', 'id', 'cat_jag'], MODES,
                                      [('default', CORE), (-7., COREX)], d3), run_fill, 'sequences of 3'),
        F('mixed', lambda: ([k, list(b), 'linear', 0, list(o)] for k in ('id', 'cog') for b in itertools.product(('default', 0, -7.), repeat=2)
                            for o in itertools.product(('w_half', 'w_tn', 'w_hd', 'w_rot'), repeat=2) if b[0] != b[1]),
          run_fill, 'two warps with different borders'),
        F('int_dequantize', lambda: (['u8', 'default', i, a, list(o)] for i, a in MODES
                                     for o in itertools.permutations(['w_tn', 'dq']))
          , run_fill, 'default fill of integer data that is dequantized'),
        F('bands', lambda: ([k, [-7., 5., 900.], i, a, s] for k in ('id', 'cog', 'cat_ids') for i, a in MODES
                            for s in seqs(['c_mid', 'w_half', 'w_tn', 'w_hd', 'w_rot', 'w_t', 'w_idp', 't_yx', 't_z', 'o1'], 2)
                            if any(map(is_warp, s))), run_bands, 'one border value per band'),
        F('nan2', lambda: ([k, b, i, a, s] for k in ('id', 'file', 'nodata', 'cat', 'ma', 'macat') for b in BLOCKS
                           for i, a in MODES for s in seqs(GEO + SEL + (['dq'] if not k.startswith('ma') else []), 2 if th or b in ('mid', 'tl') else 1)),
          run_nan, 'missing blocks, sequences of 2'),
        F('void', lambda: cases_void(2), run_void, 'missing images of every kind, sequences of 2 of all operations'),
    ]
