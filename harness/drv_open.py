"""Opens runs and files in all sorts of state (P12)."""
import contextlib
import io
import json
import logging
import os
import shutil
import sys
import tempfile
import warnings

import h5py
import numpy as np

import gen
from drv_reader import Sess, OPS
from drv_valid import unusable

from karabo_data import H5File, RunDirectory
from karabo_data.reader import DataCollection, RunHandler


class OpenSess(Sess):
    def setup(self, nruns):
        r = self.r
        t0 = 1
        self.dirs = []
        for q in range(nruns):
            grp = self.g.make_run(q + 1, tmin=t0, kind=r.choice(['RAW', 'CORR']))
            sub = r.choice(['r%04d', 'run[%d]', 'a b%d', 'r\u00e9%d']) % (q + 1)
            for f in grp:
                f['opt']['version'] = r.choice(['1.0', '1.0', '1.1', '1.2'])
                if r.random() < .15:     # kept in the directory, but not data files by name
                    f['name'] = f['name'][:-3] + r.choice(['.h5.bak', '.hdf5', '.h5~', '.H5', 'h5', '.h5.tmp'])
                elif r.random() < .15:
                    f['name'] = r.choice(['x', 'RAW[1]-', '.', 'a b', 'RAW-R0001-']) + f['name']
                self.put(f, sub)
                self.more(f)
            self.dirs.append({'path': os.path.dirname(grp[0]['path']), 'fs': list(grp)})
            if r.random() < .7:
                t0 = max([t0] + [t for f in grp for t in f['tids']]) + r.randint(1, 3)
        # copies of the same data elsewhere cannot be opened together
        self.state = {}
        for d in self.dirs:
            for f in d['fs']:
                f['spare'] = os.path.join(self.dir, 'spare%d.h5' % self.g.files.index(f))
                shutil.copyfile(f['path'], f['spare'])
                self.state[id(f)] = 'ok'

    def more(self, f):
        """further contents found in real files"""
        r = self.r
        with h5py.File(f['path'], 'r+') as h:
            n = h['INDEX/trainId'].shape[0]
            if r.random() < .5 and f['opt']['v1']:
                h['INDEX/flag'] = np.ones(n, 'i4')
                h['INDEX/timestamp'] = np.zeros(n, 'u8')
                h['INDEX/origin'] = np.full(n, -1, 'i4')
            if r.random() < .5:
                h['METADATA/creationDate'] = np.array([b'20190101T000000Z'])
                h['METADATA/karaboFramework'] = np.array([b'2.2.4'])

    def idx(self, f):
        return self.g.files.index(f) + 1

    def change(self):
        r = self.r
        for c in self.colls:
            for f in c.files:
                f.close()
        d = r.choice(self.dirs)
        f = r.choice(d['fs'])
        p = f['path']
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.unlink(p)
        x = r.random()
        if self.state[id(f)] != 'ok' and x < .6 or x < .1:
            if r.random() < .2:
                os.symlink(f['spare'], p)
            else:
                shutil.copyfile(f['spare'], p)
            self.state[id(f)] = 'ok'
        elif x < .35:
            self.state[id(f)] = 'gone'
        else:
            self.state[id(f)] = 'broken'
            if r.random() < .15:
                os.symlink(os.path.join(self.dir, 'nowhere'), p)
            else:
                shutil.copyfile(f['spare'], p)
                f['how'] = unusable(r, p, f)

    def include(self, d):
        r = self.r
        if r.random() < .45:
            return '*'
        n = r.choice(d['fs'])['name']
        a = r.randint(0, len(n))
        lit = lambda s: ''.join('[%s]' % c if c in '[*?' else c for c in s)
        return r.choice(['*' + lit(n[a:]), lit(n[:a]) + '*', lit(n), n, '*-S0000?.h5', '*DA0[12]*', '*DA0[!1]*',
                         '*S00000*', 'RAW*', '*.h5', '[RC]*', '*' + lit(n[a:a + 2]) + '*', '?' * len(n), 'zzz*',
                         n.lower(), '*.H5', lit(n)[:-1]])

    def open(self):
        r = self.r
        d = r.choice(self.dirs)
        there = [f for f in d['fs'] if self.state[id(f)] != 'gone']
        broken = [self.idx(f) for f in there if self.state[id(f)] == 'broken']
        how = r.choices(['dir', 'paths', 'file'], [6, 2, 1.5])[0]
        inc = '*'
        cwd = os.getcwd()
        if how == 'dir':
            inc = self.include(d)
            path = d['path']
            if r.random() < .2:
                os.chdir(os.path.dirname(path))
                path = os.path.basename(path)
            if r.random() < .15:
                path += '/'
            op = r.choice([RunDirectory, RunDirectory, RunHandler])
            if inc == '*' and r.random() < .5:
                fn = lambda: op(path)
            elif r.random() < .5:
                fn = lambda: op(path, include=inc)
            else:
                fn = lambda: op(path, inc)
            use = there
        elif how == 'paths':
            use = [f for x in self.dirs for f in x['fs'] if r.random() < .6]
            broken = [self.idx(f) for f in use if self.state[id(f)] != 'ok']
            fn = lambda: DataCollection.from_paths([f['path'] for f in use])
        else:
            use = [r.choice(d['fs'])]
            broken = [self.idx(f) for f in use if self.state[id(f)] != 'ok']
            op = r.choice([H5File, DataCollection.from_path])
            fn = lambda: op(use[0]['path'])
        err = io.StringIO()
        lh = logging.StreamHandler(err)
        lg = logging.getLogger()
        lg.addHandler(lh)
        n = len(self.ev)
        try:
            with contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                c = self.add('open', fn, how=how, dir=[self.idx(f) for f in use], broken=broken,
                             inc=gen.codes(inc), inctxt=inc, fs=[],
                             note={f['name']: f.get('how', '') for f in use if self.state[id(f)] == 'broken'})
        finally:
            lg.removeHandler(lh)
            os.chdir(cwd)
        e = self.ev[n]
        text = err.getvalue() + self.last_out + ' '.join(str(w.message) for w in ws)
        if e['obs']['k'] == 'coll':
            e['warned'] = [self.idx(f) for f in use if f['path'] in text or
                           os.path.join(os.path.basename(d['path']), f['name']) in text or f['name'] in text]
        return c

    def scenario(self):
        s = super().scenario()
        s['names'] = [gen.codes(f['name']) for f in self.g.files]
        return s


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    root = tempfile.mkdtemp(prefix='op-')
    out = []
    for n in range(job['lo'], job['hi']):
        rng = gen.rng_for(job['seed'], job['tag'], n)
        prof = rng.choice([{}, {}, {'emptyfile': .3, 'nseq': [2, 4]}, {'v1': 0, 'legacy': .5},
                           {'v1': 1, 'legacy': .3}, {'detectors': 2}, {'nseq': [3, 5], 'trains': [6, 12]}])
        g = gen.RunGen(rng, prof)
        g.make_defs()
        s = OpenSess(rng, g, rng.choice(gen.BASES), root)
        s.setup(rng.choice([1, 1, 2]))
        for _ in range(job['depth']):
            if rng.random() < .6:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    s.change()
            if s.open() is not None:
                for _ in range(rng.choice([0, 1, 2])):
                    OPS[rng.choice(['counts', 'array', 'trains', 'train', 'series'])](s, len(s.colls) - 1)
        out.append({'sc': s.scenario(), 'info': s.describe(), 'n': n})
        s.close()
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
