"""Lists files, takes frames out of them; records what came out."""
import ast
import contextlib
import csv
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile

import h5py
import numpy as np

import gen
from norm import exc

from karabo_data import h5index, utils

NAMES = ['a', 'b', 'a!', 'ab', 'B', 'x y', 'x,y', 'q"r', 'é', 'data', 'image', '10', '9', 'a.b', "it's",
         'INDEX', 'CONTROL', '日本']
DT = ['<u1', '<i1', '<u2', '<i2', '<u4', '<i4', '<i8', '<u8', '<f4', '<f8', '>i4', '>f8', '|b1', '|S5', 'O',
      '<c8']
FRAME_DT = ['u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'i8', 'u8']
MOD = {'u1': 251, 'i1': 127, 'u2': 65521, 'i2': 30011}
HEADER = [('Detector', 'AGIPD 1M'), ('N', '12'), ('Exposure', '0.5 s'), ('x', 'y z'), ('Note', 'a.b')]


class Driver:
    def __init__(self, job, n):
        self.r = gen.rng_for(job['seed'], job['tag'], n)
        self.n = n
        self.ev = []
        self.d = os.path.join(job['scratch'], 's%d' % n)
        os.makedirs(self.d)
        self.path = os.path.join(self.d, self.r.choice(['f.h5', 'RAW-R0001-DA01-S00000.h5', 'a b.h5']))

    # -- files -----------------------------------------------------------------
    def random_nodes(self):
        r = self.r
        N = []
        for _ in range(r.choice([0, 1, 3, 8, 15, 25, 40])):
            p = r.choice([0] + [i + 1 for i, n in enumerate(N) if n['k'] == 'g'])
            have = {n['text'] for n in N if n['p'] == p}
            name = r.choice(NAMES) if r.random() < .8 else 'n%d' % r.randrange(30)
            if name not in have:
                N.append({'p': p, 'text': name, 'k': r.choice('gd')})
        if r.random() < .1:      # a group with many elements
            p = r.choice([0] + [i + 1 for i, n in enumerate(N) if n['k'] == 'g'])
            N += [{'p': p, 'text': 'many%03d' % i, 'k': r.choice('ddg')} for i in range(r.choice([99, 101, 120]))]
        return N

    def write_nodes(self, N, root):
        r = self.r
        order = [x for x in range(len(N))]
        objs = {}
        with h5py.File(self.path, 'w') as f:
            top = f.create_group(root) if root else f
            for i in order:
                n = N[i]
                g = objs[n['p']] if n['p'] else top
                if n['k'] == 'g':
                    objs[i + 1] = g.create_group(n['text'])
                    n.update(shape=[], dt='')
                else:
                    dt = r.choice(DT)
                    shape = r.choice([[], [0], [1], [3], [2, 3], [4, 1, 2], [0, 5], [2, 2, 2, 2]])
                    if dt == 'O':
                        g.create_dataset(n['text'], shape, dtype=h5py.special_dtype(vlen=bytes))
                    else:
                        g.create_dataset(n['text'], shape, dtype=dt, **(
                            {'maxshape': [None] * len(shape), 'chunks': True}
                            if shape and all(shape) and r.random() < .3 else {}))
                    n.update(shape=shape, dt={'O': '|O', '<u1': '|u1', '<i1': '|i1'}.get(dt, dt))
                n.pop('name', None)
            if root:
                f.create_dataset('other', data=1)
        for n in N:
            n['name'] = gen.codes(n['text'])

    # -- listing -----------------------------------------------------------------
    def captured(self, fn):
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                fn()
        except Exception as e:     # noqa
            return None, exc(e)
        return buf.getvalue(), None

    def index(self, root):
        r = self.r
        if root or r.random() < .5:
            with h5py.File(self.path, 'r') as f:
                text, x = self.captured(lambda: h5index.hdf5_datasets(f[root] if root else f))
        elif r.random() < .06:
            p = subprocess.run([sys.executable, '-m', 'karabo_data.h5index', self.path],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=dict(os.environ, PYTHONIOENCODING='utf-8'))
            text, x = p.stdout.decode('utf-8'), None
            if p.returncode:
                x = {'k': 'exc', 't': ['exit %d' % p.returncode], 'note': p.stderr.decode()[-200:]}
        else:
            old, sys.argv = sys.argv, ['h5index', self.path]
            text, x = self.captured(h5index.main)
            sys.argv = old
        obs = x
        if obs is None:
            rows = list(csv.reader(io.StringIO(text)))
            try:
                assert rows[0] == ['path', 'shape', 'dtype']
                obs = {'k': 'ok', 'rows': [{'path': gen.codes(p), 'shape': list(ast.literal_eval(s)), 'dt': d}
                                           for p, s, d in rows[1:]]}
            except Exception as e:   # noqa
                obs = {'k': 'exc', 't': ['unreadable'], 'note': repr(e)}
        self.ev.append({'op': 'index', 'obs': obs})

    def outline(self, root):
        r = self.r
        mx = r.choice([100, 100, 100, 1, 2, 3])
        pad = r.choice([0, 0, 2])
        with h5py.File(self.path, 'r') as f:
            g = f[root] if root else f
            kw = {} if mx == 100 else {'maxlen': mx}
            text, x = self.captured(lambda: utils.hdf5_paths(g, pad, **kw) if pad else utils.hdf5_paths(g, **kw))
        obs = x
        if obs is None:
            lines = []
            for s in text.split('\n')[:-1]:
                name = s.lstrip(' ')
                depth, left = divmod(len(s) - len(name) - pad, 4)
                lines.append({'depth': depth if not left else -1, 'name': gen.codes(name)})
            obs = {'k': 'ok', 'lines': lines}
        self.ev.append({'op': 'outline', 'max': mx, 'obs': obs})

    # -- frames --------------------------------------------------------------------
    def stack(self):
        r = self.r
        n, h, w = r.choice([0, 1, 2, 5, 9]), r.randint(1, 6), r.randint(1, 6)
        dt = r.choice(FRAME_DT)
        m = MOD.get(dt, 1000003)
        st = dict(n=n, h=h, w=w, dt=dt, m=m, a=r.choice([1, 7, 13]), b=r.randrange(m))
        a = (st['b'] + st['a'] * np.arange(n * h * w, dtype='i8')) % m
        self.st = st
        return a.reshape(n, h, w).astype(dt)

    def write_data_file(self, a, image=True):
        r = self.r
        det = r.choice(['SPB_DET_AGIPD1M-1', 'FXE_DET_LPD1M-1', 'SCS_DET_DSSC1M-1'])
        src = 'INSTRUMENT/%s/DET/%dCH0:xtdf/image' % (det, r.randrange(16))
        names = [src] if image else []
        names += r.sample(['CONTROL/SPB_XTD9_XGM/DOOCS/MAIN', 'INSTRUMENT/SPB_XTD9_XGM/DOOCS/MAIN:output/data',
                           'INSTRUMENT/SPB_IRU_CAM/CAM/SIDE:daqOutput/data.image.pixels',
                           src[:-5] + 'header', src[:-5] + 'trailer'], r.randint(0, 4))
        r.shuffle(names)
        with h5py.File(self.path, 'w') as f:
            f['INDEX/trainId'] = np.arange(10000, 10003, dtype='u8')
            for s in names:
                f.create_group(s)
                if s != src:
                    f[s + '/data'] = np.zeros((3, 2, 2), 'u1')
            if image:
                if r.random() < .5 and a.size:
                    f.create_dataset(src + '/data', data=a, chunks=(1,) + a.shape[1:])
                else:
                    f[src + '/data'] = a
            gen.write_metadata(f, names, dict(v1=int(r.random() < .5), srcpad=r.choice([0, 0, 3]),
                                              version=r.choice(['1.0', '1.1', '1.2'])))

    def frame(self, op, a):
        import fabio
        r = self.r
        n = self.st['n']
        i = r.choice([0, n - 1, n, n + 3, -1, -n, -n - 1, r.randrange(n) if n else 0, r.randrange(n) if n else 0])
        header = dict(r.sample(HEADER, r.randint(1, 3))) if r.random() < .5 else None
        kw = {} if header is None else {'header': header}
        ii = r.choice([int, int, int, np.int64])(i)
        out = os.path.join(self.d, 'o%d.cbf' % len(self.ev))
        obs = {'k': 'ok'}
        try:
            if op == 'array':
                c = utils.numpy_to_cbf(a, ii, **kw)
                if r.random() < .5:
                    got, hd = c.data, dict(c.header)
                    hd = {k: str(v) for k, v in hd.items()}
                    pairs = [[k, v] for k, v in sorted(hd.items())]
                    c = None
                else:
                    c.write(out)
            else:
                c = 1
                with contextlib.redirect_stdout(io.StringIO()):
                    if header is None and r.random() < .5:
                        utils.hdf5_to_cbf(self.path, out, ii)
                    else:
                        utils.hdf5_to_cbf(self.path, cbf_filename=out, index=ii, **kw)
            if c is not None:
                with fabio.open(out) as im:
                    got = np.array(im.data)
                    text = im.header.get('_array_data.header_contents', '')
                lines = [x[2:].split(' ', 1) for x in text.splitlines() if x.startswith('# ')]
                pairs = [x for x in lines if len(x) == 2]
            obs.update(shape=list(got.shape), dt=got.dtype.kind + str(got.dtype.itemsize),
                       vals=[int(v) for v in got.ravel()], header=pairs)
        except Exception as e:    # noqa
            obs = exc(e)
        obs['made'] = int(os.path.exists(out))
        self.ev.append({'op': op, 'i': i, 'header': [[k, v] for k, v in (header or {}).items()], 'obs': obs})

    def run(self, nodes=None):
        r = self.r
        nodes_, stack = [], dict(n=0, h=1, w=1, dt='u1', m=1, a=1, b=0)
        if nodes is not None or r.random() < .5:
            nodes_ = self.random_nodes() if nodes is None else \
                [dict(p=x['p'], k=x['k'], text=''.join(map(chr, x['name']))) for x in nodes]
            root = '' if nodes is not None or r.random() < .7 else r.choice(['r', 'a/b'])
            self.write_nodes(nodes_, root)
            for _ in range(1 if nodes is not None else 2):
                self.index(root)
                self.outline(root)
        else:
            image = r.random() < .9
            a = self.stack()
            self.write_data_file(a, image)
            stack = self.st
            for _ in range(4):
                if not image or r.random() < .6:
                    # without images there is no frame to be had
                    if not image:
                        self.st = stack = dict(self.st, n=0)
                    self.frame('cbf', a)
                else:
                    self.frame('array', a)
        shutil.rmtree(self.d)
        return {'sc': {'ev': self.ev, 'nodes': nodes_, 'stack': stack}, 'n': self.n, 'info': 'model' if nodes else 'random'}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    out = []
    with tempfile.TemporaryDirectory() as td:
        job['scratch'] = td
        for n, h in zip(job.get('hn', []), job.get('hists', [])):
            out.append(Driver(job, 10 ** 6 + n).run(h))
        for n in range(job.get('lo', 0), job.get('hi', 0)):
            out.append(Driver(job, n).run())
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
