"""Makes detector geometries, assembles images, exports; records what came out.

Lengths are recorded as integers in units of 1/768 pixel.  Maps from pixels to
places are recorded as blocks of 16 x 128 pixels (every other of 32 rows): the
place of the first pixel and the steps along both axes, if all other pixels in
the block are where these say; otherwise the block is marked as not regular.
"""
import json
import os
import re
import sys
import warnings

import h5py
import numpy as np

import gen
from norm import exc

from karabo_data import stack_detector_data
from karabo_data.geometry2 import AGIPD_1MGeometry, LPD_1MGeometry, DSSC_1MGeometry, invert_xfel_lpd_geom
from karabo_data import geometry as old

U = 768
CLS = {'agipd': AGIPD_1MGeometry, 'lpd': LPD_1MGeometry, 'dssc': DSSC_1MGeometry}
SHAPE = {'agipd': (16, 512, 128), 'lpd': (16, 256, 256), 'dssc': (16, 128, 512)}
NT = {'agipd': 8, 'lpd': 16, 'dssc': 2}
TILE = {'agipd': (64, 128), 'lpd': (32, 128), 'dssc': (128, 256)}
PX = {'agipd': 2e-4, 'lpd': 5e-4, 'dssc': 236e-6}
N = 16 * 512 * 128
BAD = 10 ** 9


def size_of(det):
    """metres of a unit along x, y, z"""
    px = PX[det]
    return np.array([px, px * 1.5 / np.sqrt(3) if det == 'dssc' else px, px]) / U


def quant(a, scale, tol):
    """integers, or BAD where it is none of ours"""
    q = np.asarray(a, 'f8') / scale
    r = np.rint(q)
    bad = ~(np.abs(q - r) < tol) | ~(np.abs(r) < 2 ** 29)
    return np.where(bad, BAD, r).astype('i8')


def blocks(det, a):
    """a: (16, ss, fs, n) integers -> list of [first, step ss, step fs]"""
    m, ss, fs, n = a.shape
    b = a.reshape(16, ss // 32, 16, 2, fs // 128, 128, n).transpose(0, 1, 3, 4, 2, 5, 6).reshape(-1, 16, 128, n)
    v = b[:, 0, 0]
    ds = b[:, 1, 0] - v
    df = b[:, 0, 1] - v
    want = (v[:, None, None] + ds[:, None, None] * np.arange(16)[None, :, None, None]
            + df[:, None, None] * np.arange(128)[None, None, :, None])
    ok = (b == want).all(axis=(1, 2, 3))
    out = []
    for i in range(len(b)):
        out.append([v[i].tolist(), ds[i].tolist(), df[i].tolist()] if ok[i] else [[BAD], [], []])
    return out


class Driver:
    def __init__(self, job, n):
        self.job, self.n = job, n
        self.r = gen.rng_for(job['seed'], job['tag'], n)
        self.ev = []
        self.g = None
        self.out = None
        self.nf = 0

    # -- making geometries ------------------------------------------------------
    def frac(self, far=3):
        """a multiple of 1/64 pixel, in units"""
        r = self.r
        return 12 * r.choice([0, r.randint(-31, 31), r.randint(-64 * far, 64 * far)])

    def quads(self, det):
        base = {'agipd': [(-525, 625), (-550, -10), (520, -160), (542, 475)],
                'lpd': [(22, 598), (-23, 16), (509, -32), (557, 550)],
                'dssc': [(-130 / .236, 5 / .204), (-130 / .236, -125 / .204), (5 / .236, -125 / .204),
                         (5 / .236, 5 / .204)]}[det]
        if det == 'lpd':
            base = [(x, y) for x, y in base]
        r = self.r
        far = r.choice([0, 2, 2, 20, 60])
        sx, sy = r.choice([(0, 0), (0, 0), (r.randint(-900, 900), r.randint(-900, 900))])
        return [[int(x + sx) * U + self.frac(far), int(y + sy) * U + self.frac(far)] for x, y in base]

    def metres(self, det, v):
        return (np.asarray(v, 'f8').reshape(-1, np.shape(v)[-1]) * size_of(det)[:np.shape(v)[-1]]).reshape(np.shape(v))

    def tiles_for(self, det, how, a):
        """corner and directions of tiles, to see if they overlap or cannot be rounded"""
        out = []
        q, ss, fs = a.get('q'), TILE[det][0] * U, TILE[det][1] * U
        for m in range(16):
            row = []
            for t in range(NT[det]):
                if how == 'tiles':
                    x = a['tiles'][m][t]
                    row.append((x['c'], [round(v / U) for v in x['s'][:2]], [round(v / U) for v in x['f'][:2]]))
                    continue
                Q = m // 4
                if how == 'file':
                    c = [q[Q][k] + a['mo'][m][k] + a['to'][m][t][k] for k in (0, 1)]
                    row.append((c, None, None))
                elif det == 'agipd':
                    xo = 1 if Q < 2 else -1
                    row.append(([q[Q][0] + xo * t * (ss + a['agap']), q[Q][1] - (m % 4) * (fs + a['pgap'])],
                                [xo, 0], [0, -xo]))
                else:
                    w = 256 * U + a['agap'] + a['pgap']
                    h = 256 * U + 7 * a['agap'] + a['pgap']
                    ax, ay = [-1, -1, 0, 0][m % 4], [0, -1, -1, 0][m % 4]
                    row.append(([q[Q][0] + ax * w - (fs + a['agap'] if t < 8 else 0) - fs,
                                 q[Q][1] + ay * h - (t if t < 8 else 15 - t) * (ss + a['agap']) - ss],
                                [0, 1], [1, 0]))
            out.append(row)
        return out

    def fine(self, det, how, a):
        """tiles do not overlap once snapped, and no corner is half way between pixels"""
        ss, fs = TILE[det]
        boxes = []
        for row in self.tiles_for(det, how, a):
            for c, s, f in row:
                for v in c[:2]:
                    if abs(v % U - U // 2) < 6:
                        return False
                x, y = [(v + U // 2) // U for v in c[:2]]
                if s is None:
                    w, h = fs, ss
                else:
                    w, h = s[0] * ss + f[0] * fs, s[1] * ss + f[1] * fs
                boxes.append((min(x, x + w), max(x, x + w), min(y, y + h), max(y, y + h)))
        b = np.array(boxes)
        if (b[:, 1].max() - b[:, 0].min()) * (b[:, 3].max() - b[:, 2].min()) > 9e6:
            return False
        for i in range(len(b)):
            o = b[i + 1:]
            if ((o[:, 0] < b[i, 1]) & (o[:, 1] > b[i, 0]) & (o[:, 2] < b[i, 3]) & (o[:, 3] > b[i, 2])).any():
                return False
        return True

    def any_tiles(self, det):
        """tiles turned and tilted, or any orientation on a wide grid"""
        r = self.r
        ss, fs = TILE[det]
        nt = NT[det]
        free = r.random() < .4
        rows = []
        a = {'q': self.quads(det), 'agap': 4 * U, 'pgap': 29 * U if det == 'agipd' else 4 * U}
        base = self.tiles_for(det, 'quad', a)
        cells = list(range(16 * nt))
        r.shuffle(cells)
        tilt = r.choice([0, 1, 2])
        zs = r.random() < .6
        for m in range(16):
            row = []
            for t in range(nt):
                if free:
                    g = 160
                    k = cells[m * nt + t]
                    x, y = (k % 12 - 6) * g * U, (k // 12 - 6) * g * U
                    d = r.choice([1, -1]), r.choice([1, -1])
                    if r.random() < .5:
                        s, f = [d[0], 0], [0, d[1]]
                        w, h = d[0] * ss, d[1] * fs
                    else:
                        s, f = [0, d[0]], [d[1], 0]
                        w, h = d[1] * fs, d[0] * ss
                    c = [x + (0 if w > 0 else -w * U), y + (0 if h > 0 else -h * U)]
                else:
                    c, s, f = base[m][t]
                c = [v + 12 * r.randint(-20, 20) for v in c] + [12 * r.randint(-640, 640) if zs else 0]
                tl = lambda: 12 * r.randint(-tilt, tilt)
                s = [s[0] * U + tl(), s[1] * U + tl(), tl() if r.random() < .3 else 0]
                f = [f[0] * U + tl(), f[1] * U + tl(), tl() if r.random() < .3 else 0]
                row.append({'c': c, 's': s, 'f': f})
            rows.append(row)
        return {'tiles': rows}

    def make(self, det=None, how=None):
        r = self.r
        det = det or r.choice(['agipd', 'agipd', 'lpd', 'lpd', 'dssc'])
        how = how or {'agipd': ['quad', 'quad', 'tiles'], 'lpd': ['quad', 'file', 'tiles'], 'dssc': ['file']}[det][
            r.randrange({'agipd': 3, 'lpd': 3, 'dssc': 1}[det])]
        for _ in range(60):
            if how == 'quad':
                a = {'q': self.quads(det), 'agap': 12 * r.randint(0, 64 * 6), 'pgap': 12 * r.randint(0, 64 * 32)}
                if det == 'agipd' and r.random() < .3:
                    a.update(agap=2 * U, pgap=29 * U)
                if det == 'lpd' and r.random() < .5:
                    a.update(agap=4 * U, pgap=4 * U)
            elif how == 'tiles':
                a = self.any_tiles(det)
            elif det == 'lpd':
                a = {'q': self.quads(det), 'mo': [], 'to': []}
                for m in range(16):
                    a['mo'].append([[-1, -1, 0, 0][m % 4] * 268 * U + self.frac(),
                                    [0, -1, -1, 0][m % 4] * 292 * U + self.frac()])
                    a['to'].append([[(-132 * U if t < 8 else 0) + 12 * r.randint(-30, 30),
                                     -(t if t < 8 else 15 - t) * 36 * U + 12 * r.randint(-30, 30)] for t in range(16)])
            else:
                a = {'q': self.quads(det), 'mo': [], 'to': []}
                for m in range(16):
                    up = [3, 2, 1, 0] if m < 8 else [0, 1, 2, 3]
                    a['mo'].append([self.frac(), up[m % 4] * 150 * U + self.frac()])
                    a['to'].append([[(260 * U if (t == 0) == (m < 8) else 0) + 12 * r.randint(-30, 30),
                                     12 * r.randint(-30, 30)] for t in range(2)])
            if self.fine(det, how, a):
                break
        else:
            if how == 'tiles' or det == 'dssc':
                return self.make()
            return self.make(det, how)
        e = dict({'op': 'make', 'det': det, 'how': how}, **a)
        e['unit'] = 'px'
        kw = {}
        try:
            if how == 'quad':
                unit = {'agipd': [None, None, 1e-3, 1, 1e-6], 'lpd': [None, 1e-3, 1, 1e-6, 5e-4]}[det][r.randrange(5)]
                u = unit or {'agipd': 2e-4, 'lpd': 1e-3}[det]
                q = [tuple(x) for x in (self.metres(det, a['q']) / u).tolist()]
                if unit:
                    kw['unit'] = unit
                if not (unit in (None, 2e-4) and det == 'agipd' and (a['agap'], a['pgap']) == (2 * U, 29 * U)) and not (
                        det == 'lpd' and (a['agap'], a['pgap']) == (4 * U, 4 * U)) or r.random() < .3:
                    kw.update(asic_gap=a['agap'] / U * PX[det] / u, panel_gap=a['pgap'] / U * PX[det] / u)
                e['unit'] = str(unit)
                self.g = CLS[det].from_quad_positions(q, **kw)
            elif how == 'file':
                unit = r.choice([None, None, 1e-3, 1, 1e-6])
                u = unit or 1e-3
                path = self.path('.h5')
                with h5py.File(path, 'w') as f:
                    for m in range(16):
                        p = 'Q%d/M%d/' % (m // 4 + 1, m % 4 + 1)
                        pad = [0.] if r.random() < .3 else []
                        f[p + 'Position'] = (self.metres(det, a['mo'][m]) / u).tolist() + pad
                        for t in range(NT[det]):
                            f[p + 'T%02d/Position' % (t + 1)] = (self.metres(det, a['to'][m][t]) / u).tolist() + pad
                q = [tuple(x) for x in (self.metres(det, a['q']) / u).tolist()]
                e['unit'] = str(unit)
                self.g = CLS[det].from_h5_file_and_quad_positions(path, q, **({'unit': unit} if unit else {}))
            else:
                path = self.path('.geom')
                self.write_geom(path, det, a['tiles'])
                self.g = CLS[det].from_crystfel_geom(path)
            e['obs'] = {'k': 'ok'}
        except Exception as x:
            e['obs'] = exc(x)
            self.g = None
        self.det = det
        self.out = None
        self.ev.append(e)
        return e['obs']['k'] == 'ok'

    def path(self, ext):
        self.nf += 1
        return os.path.join(os.environ['TMPDIR'], 'g%s-%d-%d%s' % (self.job['tag'], self.n, self.nf, ext))

    def write_geom(self, path, det, tiles):
        """our own writer of the CrystFEL format"""
        r = self.r
        px = PX[det]
        # tiny components, as a refinement gives them: far below what is recorded
        noise = r.choice([0, 0, 2e-8])

        def vec(v):
            s = ''
            for x, ax in zip(v, 'xyz'):
                x = x / U + r.choice([0, noise, -noise])
                if x == 0 and ax == 'z':
                    continue
                if abs(x) == 1 and r.random() < .3:
                    s += ('+' if x > 0 else '-') + ax + ' '
                else:
                    s += '%+.10f%s ' % (x, ax)
            return s.strip()
        with open(path, 'w') as f:
            f.write('; comment\ndata = /data ;\nclen = 0.1\nadu_per_eV = 0.001\nres = %r ; px per m\n\n' % (1 / px))
            for m in range(16):
                for t in range(NT[det]):
                    n = 'p%da%d' % (m, t)
                    x = tiles[m][t]
                    f.write('%s/dim0 = %%\n%s/dim1 = %d\n%s/dim2 = ss\n%s/dim3 = fs\n' % (n, n, m, n, n))
                    s0, f0 = self.start(det, t)
                    f.write('%s/min_ss = %d\n%s/max_ss = %d\n%s/min_fs = %d\n%s/max_fs = %d\n' % (
                        n, s0, n, s0 + TILE[det][0] - 1, n, f0, n, f0 + TILE[det][1] - 1))
                    f.write('%s/fs = %s\n%s/ss = %s\n' % (n, vec(x['f']), n, vec(x['s'])))
                    f.write('%s/corner_x = %r\n%s/corner_y = %r\n' % (n, x['c'][0] / U, n, x['c'][1] / U))
                    # along the beam, CrystFEL has metres
                    if x['c'][2] or r.random() < .5:
                        f.write('%s/coffset = %r\n' % (n, x['c'][2] / U * px))
                    f.write('\n')

    def start(self, det, t):
        if det == 'agipd':
            return 64 * t, 0
        if det == 'lpd':
            return (32 * (7 - t), 0) if t < 8 else (32 * (t - 8), 128)
        return 0, 256 * t

    # -- positions ---------------------------------------------------------------
    def record(self, e, f):
        try:
            e['obs'] = f()
        except Exception as x:
            e['obs'] = exc(x)
        self.ev.append(e)

    def positions(self):
        centre = self.r.random() < .6
        kw = {} if centre and self.r.random() < .5 else {'centre': centre}

        def f():
            a = self.g.get_pixel_positions(**kw)
            if a.shape != SHAPE[self.det] + (3,):
                return {'k': 'shape', 'sh': list(a.shape)}
            q = quant(a, size_of(self.det), .02)
            a += 1      # ours
            return {'k': 'blocks', 'b': blocks(self.det, q)}
        self.record({'op': 'positions', 'centre': int(centre)}, f)

    def coords(self):
        r = self.r
        if self.det == 'dssc':
            return self.positions()
        _, ms, mf = SHAPE[self.det]
        sh = r.choice([(), (1,), (7,), (3, 4), (0,), (40,)])
        n = int(np.prod(sh))
        step = r.choice([3, 12, 6])
        m = [r.randrange(16) for _ in range(n)]
        edge = [0, 12 * 32, 12 * 64, 12 * 128, 12 * 127, 12 * 31]

        def pick(top):
            x = r.choice(edge) if r.random() < .3 else r.randrange(0, 12 * top, step)
            return min(x // step * step, 12 * top - step)
        s = [pick(ms) for _ in range(n)]
        f = [pick(mf) for _ in range(n)]
        mt = r.choice(['i8', 'i8', 'i4', 'u1', 'i1', 'u2', 'i2', 'u4', 'u8'])
        ct = r.choice(['f8', 'f4']) if step != 12 else r.choice(['f8', 'f4', 'i8', 'i4', 'u2', 'i2'])
        arg = (np.array(m, mt).reshape(sh), (np.array(s) / 12).astype(ct).reshape(sh),
               (np.array(f) / 12).astype(ct).reshape(sh))
        was = [x.tobytes() for x in arg]

        def go():
            p = self.g.data_coords_to_positions(*arg)
            if p.shape != sh + (3,):
                return {'k': 'shape', 'sh': list(p.shape)}
            if [x.tobytes() for x in arg] != was:
                return {'k': 'shape', 'sh': [-1]}
            return {'k': 'pts', 'p': quant(p, size_of(self.det), .02 if ct != 'f4' else .1).reshape(-1, 3).tolist()}
        self.record({'op': 'coords', 'm': m, 's': s, 'f': f, 'types': [mt, ct]}, go)

    def distort(self):
        neg = int(self.r.random() < .5)
        kw = {} if not neg and self.r.random() < .5 else {'allow_negative_xy': bool(neg)}
        nc = 6 if self.det == 'dssc' else 4

        def f():
            a = self.g.to_distortion_array(**kw)
            _, ss, fs = SHAPE[self.det]
            if a.shape != (16 * ss, fs, nc, 3):
                return {'k': 'shape', 'sh': list(a.shape)}
            out = []
            for k in range(nc):
                x = a[:, :, k, ::-1].reshape(16, ss, fs, 3)
                out.append(blocks(self.det, quant(x, size_of(self.det), .4)))
            return {'k': 'corners', 'c': out}
        self.record({'op': 'distort', 'neg': neg}, f)

    # -- images -------------------------------------------------------------------
    def data(self, extra, dt, miss):
        """the number of each pixel (from 1), counted on over the frames"""
        nf = int(np.prod(extra)) if extra else 1
        a = np.arange(1, nf * N + 1).reshape(extra + SHAPE[self.det]).astype(dt)
        if miss:
            a[..., miss, :, :] = np.nan
        return a

    def where(self, img, nf, dt):
        """frame by frame: where is each pixel?"""
        out = []
        flat = img.reshape((nf,) + img.shape[-2:]) if nf else []
        for k in range(nf):
            x = flat[k]
            ok = ~np.isnan(x) if x.dtype.kind == 'f' else np.ones(x.shape, bool)
            ids = np.where(ok, x, 0).astype('f8') - k * N
            known = ok & (ids >= 1) & (ids <= N) & (ids == np.floor(ids))
            y, c = np.nonzero(known)
            pos = np.full((N, 2), -1, 'i8')
            i = ids[known].astype('i8') - 1
            pos[i] = np.stack([y, c], -1)
            b = blocks(self.det, pos.reshape(SHAPE[self.det] + (2,)))
            out.append({'b': b, 'filled': int(ok.sum()), 'known': int(known.sum()),
                        'distinct': int(len(np.unique(i)))})
        return out

    def image(self):
        r = self.r
        dt = r.choice(['f4', 'f4', 'f8', 'f8', 'i4', 'u4', 'i8'])
        extra = r.choice([(), (), (), (), (2,), (1,), (1, 2), (0,), (3,)])
        nf = int(np.prod(extra)) if extra else 1
        flt = dt[0] == 'f'
        miss = sorted(r.sample(range(16), r.choice([0, 0, 1, 3, 15]))) if flt else []
        a = self.data(extra, dt, miss)
        form = r.choice(['array', 'array', 'order', 'stack', 'frozen'])
        if form == 'stack' and nf:
            src = {'SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf' % m: {'d': np.ascontiguousarray(a[..., m, :, :])}
                   for m in range(16) if m not in miss}
            a = stack_detector_data(src, 'd', real_array=False)
        elif form == 'order':
            a = np.asfortranarray(a)
        elif form == 'frozen':
            a.flags.writeable = False
        how = r.choice(['none', 'none', 'new', 'new', 'again', 'type', 'size'])
        out = None
        odt = dt
        if how == 'again' and (self.out is None or self.out[0] != (extra, dt)):
            how = 'new'
        try:
            if how in ('new', 'type', 'size'):
                if how == 'type':
                    odt = r.choice(['f4', 'f8', 'i4', 'i8'])
                kw = {}
                if extra or r.random() < .5:
                    kw['extra_shape'] = extra if how != 'size' else extra + (2,)
                elif how == 'size':
                    kw['extra_shape'] = (2,)
                if odt != 'f4' or r.random() < .5:
                    kw['dtype'] = np.dtype(odt) if r.random() < .5 else odt
                out = self.g.output_array_for_position_fast(**kw)
            elif how == 'again':
                out = self.out[1]
        except Exception as x:
            self.ev.append({'op': 'image', 'obs': exc(x), 'miss': miss, 'frames': nf, 'dt': dt, 'odt': odt,
                            'out': how, 'float': int(flt), 'front': 1})
            return
        e = {'op': 'image', 'miss': miss, 'frames': nf, 'dt': dt, 'odt': odt, 'out': how, 'float': int(flt),
             'front': 1, 'form': form, 'blank': 1}
        if how in ('new', 'type') and out is not None and out.dtype.kind == 'f':
            e['blank'] = int(np.isnan(out).all() and out.dtype == np.dtype(odt))

        def f():
            fn = self.g.position_modules_fast if r.random() < .85 else self.g.position_all_modules
            res, centre = fn(a) if out is None else fn(a, out=out)
            if res.shape[:-2] != extra or (out is not None and res is not out) or res.dtype != np.dtype(
                    odt if out is not None else dt):
                return {'k': 'shape', 'sh': list(res.shape)}
            o = {'k': 'img', 'size': [int(x) for x in res.shape[-2:]], 'centre': [int(x) for x in centre],
                 'frames': self.where(res, nf, dt)}
            if (odt if out is not None else dt) == dt:
                self.out = ((extra, dt), res)
            return o
        self.record(e, f)

    def interpolate(self):
        """values of an interpolated image near the middle of each tile"""
        a = self.data((), 'f4', [])
        a[:] = (np.arange(N) % 4096).reshape(a.shape)

        def f():
            _, ss, fs = SHAPE[self.det]
            # a plane in each tile, so that interpolating in it gives the plane
            s, t = np.meshgrid(np.arange(ss), np.arange(fs), indexing='ij')
            a[:] = ((s % 64) * 8 + t)[None] + 2000 * np.arange(16)[:, None, None]
            res, centre = self.g.position_modules_interpolate(a)
            pts = []
            for m in range(16):
                for k in range(NT[self.det]):
                    for _ in range(2):
                        i = self.r.randint(6, TILE[self.det][0] - 7)
                        j = self.r.randint(6, TILE[self.det][1] - 7)
                        pts.append([m, k, i, j])
            pos = self.g.get_pixel_positions(centre=True)
            o = []
            for m, k, i, j in pts:
                s0, f0 = self.start(self.det, k)
                y, x = (pos[m, s0 + i, f0 + j, 1::-1] / PX[self.det]) + centre
                # the value at the cell where the centre of this pixel is
                v = res[int(np.floor(y)), int(np.floor(x))]
                o.append([m, k, i, j, int(np.rint(v * 16)) if v == v else BAD])
            return {'k': 'values', 'v': o, 'size': [int(q) for q in res.shape],
                    'covered': int(1000 * (~np.isnan(res)).sum() / N)}
        self.record({'op': 'interpolate'}, f)

    def oldimage(self):
        r = self.r
        for _ in range(50):
            a = {'q': self.quads('lpd'), 'mo': [], 'to': []}
            for m in range(16):
                a['mo'].append([[-1, -1, 0, 0][m % 4] * 268 * U, [0, -1, -1, 0][m % 4] * 292 * U])
                a['to'].append([[(-132 * U if t < 8 else 0), -(t if t < 8 else 15 - t) * 36 * U] for t in range(16)])
            # well inside a pixel
            a['q'] = [[v // U * U + 12 * r.randint(8, 56) for v in q] for q in a['q']]
            # the area includes the origin
            if all(abs(v) < 1200 * U for q in a['q'] for v in q) and self.fine('lpd', 'file', dict(
                    a, q=[[v // U * U for v in q] for q in a['q']])):
                break
        else:
            return
        unit = r.choice([None, 1e-3, 1e-6, 1])
        u = unit or 1e-3
        self.det = 'lpd'
        miss = sorted(r.sample(range(16), r.choice([0, 0, 1, 3])))
        extra = r.choice([(), (), (2,)])
        nf = int(np.prod(extra)) if extra else 1

        def f():
            path = self.path('.h5')
            with h5py.File(path, 'w') as h:
                for m in range(16):
                    p = 'Q%d/M%d/' % (m // 4 + 1, m % 4 + 1)
                    h[p + 'Position'] = self.metres('lpd', a['mo'][m]) / u
                    for t in range(16):
                        h[p + 'T%02d/Position' % (t + 1)] = self.metres('lpd', a['to'][m][t]) / u
            q = (self.metres('lpd', a['q']) / u).tolist()
            with h5py.File(path, 'r') as h:
                g = old.LPDGeometry.from_h5_file_and_quad_positions(h, q, **({'unit': unit} if unit else {}))
            res, centre = g.position_all_modules(self.data(extra, 'f8', miss))
            if res.shape[:-2] != extra:
                return {'k': 'shape', 'sh': list(res.shape)}
            return {'k': 'img', 'size': [int(x) for x in res.shape[-2:]], 'centre': [int(x) for x in centre[::-1]],
                    'frames': self.where(res, nf, 'f8')}
        self.record(dict({'op': 'oldimage', 'miss': miss, 'frames': nf, 'unit': str(unit)}, **a), f)
        self.g = None

    def invert(self):
        """negate the coordinates of an XFEL geometry file of LPD"""
        r = self.r
        n = r.choice([2, 2, 3])
        a, b = self.path('.h5'), self.path('.h5')
        pos = lambda: [r.randint(-4000, 4000) for _ in range(n)]
        before = {}
        with h5py.File(a, 'w') as f:
            for m in range(16):
                p = 'Q%d/M%d/' % (m // 4 + 1, m % 4 + 1)
                before[p + 'Position'] = pos()
                for t in range(16):
                    before[p + 'T%02d/Position' % (t + 1)] = pos()
            for k, v in before.items():
                f[k] = np.array(v, 'f8') / 8
            d = f.create_dataset('DetectorDescribtion', data=np.arange(3) + n)
            d.attrs['NQuads'] = 4
            d.attrs['name'] = 'LPD'
        old = r.random() < .2
        if old:
            with open(b, 'w') as f:
                f.write('not for you')

        def read(path):
            with h5py.File(path, 'r') as f:
                found = []
                f.visititems(lambda k, v: found.append(k) if isinstance(v, h5py.Dataset) else None)
                return {k: (quant(f[k][:], 1 / 8, 1e-9).tolist() if k in before else f[k][:].tolist())
                        for k in found}, [{k: str(v) for k, v in f[k2].attrs.items()} for k2 in found
                                          if k2.startswith('Detector')]

        def f():
            src = read(a)
            try:
                invert_xfel_lpd_geom(a, b)
            except Exception:
                if old and open(b, 'rb').read() == b'not for you':
                    return {'k': 'refused'}
                raise
            got, at = read(b)
            if read(a) != src:
                return {'k': 'changed'}
            desc = [k for k in got if k.startswith('Detector')]
            ok = desc == ['DetectorDescription'] and got[desc[0]] == [n, n + 1, n + 2] and at == src[1]
            return {'k': 'inv', 'desc': int(ok), 'n': len(got) - len(desc),
                    'rows': [got.get(k, []) for k in before]}
        self.record({'op': 'invert', 'old': int(old), 'rows': list(before.values())}, f)

    # -- plots -------------------------------------------------------------------------
    def inspect(self):
        import matplotlib.pyplot as plt
        r = self.r
        units = r.choice(['px', 'px', 'm'])
        front = r.random() < .5
        kw = {}
        if units != 'px' or r.random() < .5:
            kw['axis_units'] = units
        if not front or r.random() < .5:
            kw['frontview'] = front

        def f():
            ax = self.g.inspect(**kw)
            # lengths in the plot: metres, or pixels along x
            sc = size_of(self.det)[:2] * (1 if units == 'm' else 1 / PX[self.det])
            polys = [quant(p.vertices[:4], sc, .1).tolist() for p in ax.collections[0].get_paths()]
            firsts = [quant(p, sc, .1).tolist() for p in
                      [c for c in ax.collections if c.get_label() == 'First pixel'][0].get_offsets()]
            lines = [quant(p.vertices[:2], sc, .1).tolist() for p in
                     [c for c in ax.collections if c.get_label() == 'First row'][0].get_paths()] if any(
                c.get_label() == 'First row' for c in ax.collections) else []
            labels = []
            for t in ax.texts:
                x = re.match(r'Q(\d)M(\d)$', t.get_text())
                labels.append(([(int(x.group(1)) - 1) * 4 + int(x.group(2)), 0] if x else
                               [0, int(t.get_text()[1:])])
                              + quant(np.array(t.get_position()) * 2, sc, .1).tolist())
            lo, hi = ax.get_xlim()
            o = {'k': 'plot', 'polys': polys, 'firsts': firsts, 'lines': lines, 'labels': labels,
                 'flip': int(lo > hi)}
            plt.close('all')
            return o
        self.record({'op': 'inspect', 'front': int(front)}, f)
        self.g_ok()

    def compare(self):
        """shifted tiles get arrows"""
        import matplotlib.pyplot as plt
        if self.det != 'agipd':
            return self.inspect()
        r = self.r
        shifted = sorted(r.sample(range(128), r.choice([0, 1, 5])))
        q = [(-525, 625), (-550, -10), (520, -160), (542.5, 475)]

        def f():
            other = AGIPD_1MGeometry.from_quad_positions(q)
            other.modules = [[type(t)(t.corner_pos.copy(), t.ss_vec, t.fs_vec, t.ss_pixels, t.fs_pixels) for t in m]
                             for m in self.g.modules]
            for k in shifted:
                other.modules[k // 8][k % 8].corner_pos += [3 * 2e-4, -2e-4, 0]
            ax = self.g.compare(other, scale=r.choice([1, 1., 10]))
            rects, arrows = ax.collections[:2]
            # the plot is in pixels or in metres, but in one of them
            v = np.concatenate([p.vertices[:4] for p in rects.get_paths()])
            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
            w, h = np.ptp(v[:, 0]), np.ptp(v[:, 1])
            o = {'k': 'cmp', 'tiles': len(rects.get_paths()), 'arrows': len(arrows.get_paths()),
                 # how much of the plot the detector takes up, in percent
                 'wide': int(100 * w / abs(x1 - x0)), 'high': int(100 * h / abs(y1 - y0)),
                 'inside': int(min(x0, x1) <= v[:, 0].min() and max(x0, x1) >= v[:, 0].max()
                               and min(y0, y1) <= v[:, 1].min() and max(y0, y1) >= v[:, 1].max())}
            plt.close('all')
            return o
        self.record({'op': 'compare', 'shifted': len(shifted)}, f)

    def plot(self):
        import matplotlib.pyplot as plt
        r = self.r
        units = r.choice(['px', 'm'])
        front = r.random() < .5
        a = self.data((), 'f8', [])

        def f():
            kw = {}
            if units != 'px' or r.random() < .5:
                kw['axis_units'] = units
            if not front or r.random() < .5:
                kw['frontview'] = front
            if r.random() < .5:
                kw['colorbar'] = r.choice([True, False])
            if r.random() < .3:
                kw['vmax'] = 10
            ax = self.g.plot_data_fast(a, **kw)
            im = ax.images[0]
            img = np.ma.filled(im.get_array().astype('f8'), np.nan)
            x0, x1, y0, y1 = im.get_extent()
            sc = size_of(self.det)[:2] * U if units == 'm' else np.array([1., 1.])
            o = {'k': 'img', 'size': list(img.shape), 'centre': [0, 0],
                 # in 1/100 pixels: where the edges of the image are drawn
                 'edge': [int(np.rint(100 * v)) for v in (y0 / sc[1], y1 / sc[1], x0 / sc[0], x1 / sc[0])],
                 'up': int(im.origin == 'lower'), 'flip': int(ax.get_xlim()[0] > ax.get_xlim()[1]),
                 'frames': self.where(img[None] if img.ndim == 2 else img, 1, 'f8')}
            plt.close('all')
            return o
        self.record({'op': 'plot', 'front': int(front), 'miss': [], 'frames': 1, 'units': units}, f)

    def g_ok(self):
        pass

    # -- CrystFEL format -------------------------------------------------------------------
    def write(self):
        r = self.r
        if self.det == 'dssc':
            return self.positions()
        dims = list(r.choice([('frame', 'modno', 'ss', 'fs'), ('frame', 'modno', 'ss', 'fs'), ('frame', 'ss', 'fs'),
                              ('frame', 'modno', 0, 'ss', 'fs'), ('frame', 0, 'ss', 'fs'), ('frame', 1, 'modno', 'fs', 'ss'),
                              ('modno', 'frame', 'ss', 'fs'), ('ss', 'fs', 'frame'), ('modno', 'ss', 'fs')]))
        kw = {}
        if dims != ['frame', 'modno', 'ss', 'fs'] or r.random() < .5:
            kw['dims'] = tuple(dims)
        e = {'op': 'write', 'dims': [str(d) for d in dims], 'data': '/entry_1/instrument_1/detector_1/data',
             'mask': '', 'nums': {'clen': -1, 'adu_per_eV': -1, 'photon_energy': -1}}
        if r.random() < .5:
            e['data'] = kw['data_path'] = r.choice(['/data', '/INSTRUMENT/SPB_DET/x:y/image/data'])
        if r.random() < .5:
            e['mask'] = kw['mask_path'] = r.choice(['/mask', '/entry_1/instrument_1/detector_1/mask'])
        for k, arg in (('clen', 'clen'), ('adu_per_eV', 'adu_per_ev'), ('photon_energy', 'photon_energy')):
            if r.random() < .7:
                e['nums'][k] = r.choice([1, 75, 119, 5000, 9300000])
                kw[arg] = e['nums'][k] / 1000 if e['nums'][k] != 9300000 else 9300
        path = self.path('.geom')

        def f():
            self.g.write_crystfel_geom(path, **kw)
            return self.parse(path)
        self.record(e, f)
        self.last = path if e['nums']['clen'] > 0 and e['nums']['adu_per_eV'] > 0 and e['obs']['k'] == 'file' else None

    def parse(self, path):
        """what a CrystFEL geometry file says (algebraic vectors as CrystFEL reads them)"""
        top, panels = {}, {}
        with open(path) as f:
            for line in f:
                line = line.split(';')[0].strip()
                if '=' not in line:
                    continue
                k, v = [x.strip() for x in line.split('=', 1)]
                if '/' in k and not k.startswith('/'):
                    n, k = k.split('/', 1)
                    panels.setdefault(n, dict((a, b) for a, b in top.items() if a in ('coffset', 'clen') or
                                              a.startswith('dim')))
                    panels[n][k] = v
                else:
                    top[k] = v
        px = PX[self.det]

        def vec(s):
            s = re.sub(r'\s', '', s)
            out = [0., 0., 0.]
            parts = [p for p in re.split(r'([+-])', s) if p]
            if parts and parts[0] not in '+-':
                parts.insert(0, '+')
            for sg, p in zip(parts[::2], parts[1::2]):
                if p[-1] not in 'xyz':
                    raise ValueError('cannot read direction ' + s)
                out['xyz'.index(p[-1])] = float(sg + (p[:-1] or '1'))
            return quant(np.array(out), 1 / U, .001).tolist()
        ps = []
        for n, d in panels.items():
            x = re.match(r'p(\d+)a(\d+)$', n)
            if not x:
                continue
            dim = {int(k[3:]): v for k, v in d.items() if re.match(r'dim\d+$', k)}
            c = [float(d['corner_x']), float(d['corner_y']), float(d.get('coffset', 0)) / px]
            ps.append({'m': int(x.group(1)), 't': int(x.group(2)),
                       'dims': [dim.get(i, '?') for i in range(max(dim) + 1)] if dim else [],
                       'ss': [int(d['min_ss']), int(d['max_ss'])], 'fs': [int(d['min_fs']), int(d['max_fs'])],
                       'c': quant(np.array(c), 1 / U, .01).tolist(), 's': vec(d['ss']), 'f': vec(d['fs'])})
        nums = {}
        for k in ('clen', 'adu_per_eV', 'photon_energy'):
            nums[k] = int(round(float(top[k]) * 1000)) if k in top else -1
        groups = [{'n': k[12:], 'v': [[int(q) for q in re.match(r'p(\d+)a(\d+)$', y).groups()]
                                      for y in v.split(',')]}
                  for k, v in top.items() if k.startswith('rigid_group_') and 'collection' not in k]
        return {'k': 'file', 'panels': ps, 'data': top.get('data', ''), 'mask': top.get('mask', ''), 'nums': nums,
                'res': int(round(1000 * float(top['res']) * px)), 'groups': groups,
                'coll': [v.split(',') for k, v in top.items() if k.startswith('rigid_group_collection_')]}

    def reload(self):
        """the geometry in the file just written is the same one"""
        if getattr(self, 'last', None) is None:
            return self.write()
        path, self.last = self.last, None

        def f():
            self.g = CLS[self.det].from_crystfel_geom(path)
            return {'k': 'ok'}
        self.record({'op': 'reload'}, f)
        if self.ev[-1]['obs']['k'] == 'ok':
            self.positions()

    def run(self):
        r = self.r
        ops = self.job['ops']
        names, w = list(ops), list(ops.values())
        for k in range(self.job['depth']):
            if self.g is None:
                if not self.make():
                    break
                if r.random() < self.job.get('first', 0):
                    self.positions()
                continue
            getattr(self, r.choices(names, w)[0])()
            if self.ev[-1]['op'] == 'make':
                self.last = None
                if self.g is None:
                    break
        for p in os.listdir(os.environ['TMPDIR']):
            if p.startswith('g%s-%d-' % (self.job['tag'], self.n)):
                os.unlink(os.path.join(os.environ['TMPDIR'], p))
        return {'sc': {'ev': self.ev}, 'n': self.n}


def main():
    warnings.simplefilter('ignore')
    with open(sys.argv[1]) as f:
        job = json.load(f)
    out = []
    for n in range(job['lo'], job['hi']):
        d = Driver(job, n)
        if n in job.get('interpolate', []):
            d.make('agipd', 'quad')
            if d.g is not None:
                d.interpolate()
            out.append({'sc': {'ev': d.ev}, 'n': n})
        else:
            out.append(d.run())
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
