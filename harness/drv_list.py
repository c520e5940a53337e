"""Summarises trees of data files, records what is printed."""
import contextlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
import warnings

import gen
from norm import exc, tid

from karabo_data import lsxfel

KEY = {'name': 'x.value', 'g': 1, 'dt': 'int32', 'shape': [], 'esz': 1, 'ts': 0, 'pid': 0}
IKEY = dict(KEY, name='data.x')
BASE = 10000


class Driver:
    def __init__(self, job, n, tmp):
        self.r = gen.rng_for(job['seed'], job['tag'], 'ls', n)
        self.n = n
        self.top = tempfile.mkdtemp(dir=tmp)
        self.sid = {}
        self.ev = []

    # -- making files ---------------------------------------------------------
    def src(self, name):
        return self.sid.setdefault(name, len(self.sid) + 1)

    def data_file(self, path, tl, C, I, det=None, bad=False):
        """write it; what the specification knows about it"""
        r = self.r
        if bad:
            with open(path, 'wb') as f:
                f.write(r.choice([b'', b'no HDF5', b'\x89HDF\r\n\x1a\n' + b'\0' * 99]))
            return {'ok': 0, 'tids': [], 'C': [], 'I': [], 'det': [], 'dets': []}
        n = len(tl)
        defs, srcs = [], []
        for name in C:
            defs.append({'name': name, 'cat': 'C', 'keys': [KEY], 'ng': 1, 'gnames': ['']})
            srcs.append([1] * n)
        for name in I:
            defs.append({'name': name, 'cat': 'I', 'keys': [IKEY], 'ng': 1, 'gnames': ['data']})
            srcs.append([r.randint(0, 2) for _ in range(n)])
        dets = []
        if det:
            name, fpt, dims, proc = det
            # some trains may have no frames
            counts = [fpt if r.random() < .8 else 0 for _ in range(n)]
            k = dict(KEY, name='image.data', dt='float32' if proc else 'uint16',
                     shape=list(dims) if proc else [2] + list(dims))
            k['esz'] = gen.esize(k['shape'])
            defs.append({'name': name, 'cat': 'I', 'keys': [k], 'ng': 1, 'gnames': ['image']})
            srcs.append(counts)
            dname, no = re.match(r'(.*)/DET/(\d+)CH', name).groups()
            dets = [{'s': self.src(name), 'counts': counts, 'dims': list(dims),
                     'dn': self.src(dname), 'no': int(no)}]
        rec = {'tids': tl, 'src': [], 'opt': dict(
            v1=r.randint(0, 1), legacy=r.randint(0, 1), tidpad=r.choice([0, 3]), idxpad=0,
            srcpad=r.choice([0, 2]), chunks=0)}
        for d, c in zip(defs, srcs):
            rec['src'].append({'has': 1, 'idx': [{'first': [sum(c[:i]) for i in range(n)], 'count': c}],
                               'keys': [{'a': 1, 'b': 1, 'm': 100, 'vals': [], 'n': sum(c), 'pad': 0}]})
        gen.write_file(path, defs, rec, BASE)
        return {'ok': 1, 'tids': tl, 'C': [self.src(x) for x in C],
                'I': [self.src(x) for x in I] + [d['s'] for d in dets],
                'det': dets, 'dets': [d['s'] for d in dets]}

    def segments(self, path, runno, part, tl, detname, nseg):
        """one series of files"""
        r = self.r
        n = len(tl)
        cuts = sorted(r.randint(0, n) for _ in range(nseg - 1))
        bounds = [0] + cuts + [n]
        m = re.match(r'(AGIPD|LPD|DSSC)(\d+)$', part)
        proc = r.random() < .4
        pre = 'CORR' if proc else 'RAW'
        C = I = []
        det = None
        if m:
            det = ('%s/DET/%dCH0:xtdf' % (detname, int(m.group(2))), r.choice([1, 3, 64]),
                   r.choice([(2, 3), (4, 2), (1, 1)]), proc)
        else:
            C = ['%s/MOTOR/%s_%d' % (r.choice(['FXE', 'A']), part, i) for i in range(r.randint(0, 3))]
            I = ['%s/CAM/%s_%d:out' % (r.choice(['FXE', 'B']), part, i) for i in range(r.randint(0, 3))]
            if not C + I:
                C = ['X/Y/%s' % part]
        kids = []
        for s in range(nseg):
            fn = '%s-R%04d-%s-S%05d.h5' % (pre, runno, part, s)
            keep = lambda q: [x for x in q if nseg == 1 or r.random() < .9]
            kids.append({'k': 'file', 'name': gen.codes(fn), 'txt': fn,
                         'data': self.data_file(os.path.join(path, fn), tl[bounds[s]:bounds[s + 1]],
                                                keep(C), keep(I), det)})
        return kids

    def plain(self, path, fn):
        with open(os.path.join(path, fn), 'w') as f:
            f.write('text')
        return {'k': 'file', 'name': gen.codes(fn), 'txt': fn,
                'data': {'ok': 0, 'tids': [], 'C': [], 'I': [], 'det': [], 'dets': []}}

    def run_dir(self, parent, name, few=False):
        r = self.r
        path = os.path.join(parent, name)
        os.makedirs(path)
        node = {'k': 'dir', 'name': gen.codes(name), 'txt': name, 'kids': [], 'path': path}
        runno = r.choice([1, 12, 9999])
        nt = r.choice([0, 1, 2, 5, 9, 30])
        tl = sorted(r.sample(range(1, nt + r.choice([1, 4, 400])), nt))
        detname = r.choice(['SPB_DET_AGIPD1M-1', 'FXE_DET_LPD1M-1', 'SCS_DET_DSSC1M-1'])
        det = r.choice(['AGIPD', 'LPD', 'DSSC'])
        if r.random() < (.35 if few else .06):     # nothing recorded
            if r.random() < .5:
                node['kids'].append(self.plain(path, 'notes.txt'))
            return node
        parts = []
        if r.random() < .55:
            parts += ['%s%02d' % (det, i) for i in r.sample(range(16), r.randint(1, 3))]
        if not parts or r.random() < .8:
            parts += r.sample(['DA01', 'DA02', 'DA03', 'JNGFR01', 'EPIX02', det + '1MCTRL00', 'PNCCD01', 'da1', 'DA'],
                              r.randint(1, 3))
        uneven = r.random() < .12
        two = r.random() < .25      # a second detector
        for p in parts:
            if two and r.random() < .5:
                q = r.choice(['AGIPD', 'LPD', 'DSSC']) + p[-2:]
                if re.match(det + r'\d\d$', p) and q not in parts:
                    node['kids'] += self.segments(path, runno, q, tl, 'X_' + q[:-2], r.choice([1, 2]))
            mine = [t for t in tl if r.random() < .8] if uneven else tl
            node['kids'] += self.segments(path, runno, p, mine, detname, r.choice([1, 1, 2, 3]))
        if r.random() < .15:
            fn = r.choice(['overview.h5', 'subset-1.h5', 'a-b-c-d-e.h5', 'RAW-R1-DA09-X.h5'])
            node['kids'].append({'k': 'file', 'name': gen.codes(fn), 'txt': fn, 'data': self.data_file(
                os.path.join(path, fn), tl, ['EXTRA/X/1'], ['EXTRA/X/2:o'])})
        if r.random() < .25:
            node['kids'].append(self.plain(path, r.choice(['notes.txt', 'RAW-R0001-DA01-S00000.h5.tmp',
                                                           'h5', 'CORR-R0001-AGIPD00-S00001.h5~'])))
        if r.random() < .08:
            fn = 'RAW-R%04d-%s-S00000.h5' % (runno, r.choice(['DA77', 'AGIPD15x']))
            node['kids'].append({'k': 'file', 'name': gen.codes(fn), 'txt': fn,
                                 'data': self.data_file(os.path.join(path, fn), [], [], [], bad=True)})
        if r.random() < .1:
            os.makedirs(os.path.join(path, 'sub'))
            node['kids'].append({'k': 'dir', 'name': gen.codes('sub'), 'txt': 'sub', 'kids': [], 'path': ''})
        return node

    def data_dir(self, parent, name):
        """runs and other things side by side"""
        r = self.r
        path = os.path.join(parent, name)
        os.makedirs(path)
        node = {'k': 'dir', 'name': gen.codes(name), 'txt': name, 'kids': [], 'path': path}
        for q in r.sample([1, 2, 9, 10, 11, 100, 12345], r.randint(0, 3)):
            node['kids'].append(self.run_dir(path, 'r%04d' % q, few=True))
        if r.random() < .3:
            node['kids'].append(self.plain(path, r.choice(['readme', 'r0077', 'raw.txt'])))
        if r.random() < .3:
            node['kids'].append(self.run_dir(path, r.choice(['run1', 'test', 'R0001', 'xr1'])))
        return node

    def proposal(self):
        r = self.r
        path = os.path.join(self.top, 'p%06d' % r.randint(1, 999999))
        os.makedirs(path)
        name = os.path.basename(path)
        node = {'k': 'dir', 'name': gen.codes(name), 'txt': name, 'kids': [], 'path': path}
        for d in ('raw', 'proc', 'usr', 'scratch'):
            if r.random() < (.85 if d == 'raw' else .4):
                node['kids'].append(self.data_dir(path, d) if d in ('raw', 'proc') else
                                    self.run_dir(path, d, few=True))
        return node

    # -- looking at it --------------------------------------------------------
    def parse(self, txt, single):
        blocks = []
        lines = [x for x in txt.split('\n')]
        sec = None
        ids = lambda s: self.sid.get(s, 0)
        for x in lines:
            if not x.strip():
                continue
            b = blocks[-1] if blocks else {}
            m = re.match(r'(  )?(.*) : Run of +(\d+) trains, with +(\d+) detector files and +(\d+) others$', x)
            if m:
                q = {'k': 'run', 'name': gen.codes(m.group(2)), 'n': int(m.group(3)),
                     'det': int(m.group(4)), 'oth': int(m.group(5))}
                b['runs'].append(q) if m.group(1) and b.get('k') == 'list' else blocks.append(q)
                continue
            m = re.match(r'(  )?(.*) : No data files recognised$', x)
            if m:
                q = {'k': 'norun', 'name': gen.codes(m.group(2)), 'n': 0, 'det': 0, 'oth': 0}
                b['runs'].append(q) if m.group(1) and b.get('k') == 'list' else blocks.append(q)
                continue
            m = re.match(r'(\S.*?) : (.*)$', x)
            if m:
                name, t = m.groups()
                q = {'name': gen.codes(name)}
                sec = None
                if t == 'Run directory':
                    q.update(k='describe', n=-1, first=0, last=0, dur=-1, C=[], I=[], nC=-1, nI=-1, nD=-1, mod=[], dn=[])
                elif t in ('Proposal data directory', 'Proposal directory'):
                    q.update(k='list', runs=[])
                elif t == 'Unrecognised directory':
                    q.update(k='undir')
                elif t == 'Unrecognised file':
                    q.update(k='unfile')
                elif t == 'File/folder not found':
                    q.update(k='missing')
                else:
                    q.update(k='file' if single else 'fsum', cls='other', no=[], n=-1, sub='',
                             dims=[], fpt=-1, tot=-1, C=[], I=[], nC=-1, nI=-1, ns=-1)
                    d = re.match(r'(Raw|Corrected) detector data from (AGIPD|LPD|DSSC) module (\d+)$', t)
                    if t.startswith(("('", '("')):     # how a program writes it
                        q['cls'] = 'notext'
                    if t == 'Aggregated data':
                        q['cls'] = 'agg'
                    elif d:
                        q['cls'] = 'det'
                        q['no'] = gen.codes(d.group(3))
                blocks.append(q)
                continue
            k = b.get('k')
            g = lambda p: re.match(p, x)
            if k == 'list' and g(r'\S+/raw/$'):
                continue
            if k == 'describe':
                m = g(r'# of trains: +(\d+)$')
                if m:
                    b['n'] = int(m.group(1))
                    continue
                m = g(r'Duration: +(?:(\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d)0*)?$')
                if m:
                    d, h, mi, s, f = (int(v or 0) for v in m.groups())
                    b['dur'] = (((d * 24 + h) * 60 + mi) * 60 + s) * 10 + f
                    continue
                m = g(r'(First|Last) train ID: +(\d+|-)$')
                if m:
                    b[m.group(1).lower()] = 0 if m.group(2) == '-' else tid(int(m.group(2)), BASE)
                    continue
                m = g(r'(\d+) detector modules \((.*)\)$')
                if m:
                    b['nD'] = int(m.group(1))
                    b['dn'] = [ids(s) for s in m.group(2).split(',') if s]
                    continue
                m = g(r'  e\.g\. module (.*) : (\d+) x (\d+) pixels$')
                if m:
                    w = m.group(1).split(' ')
                    b['mod'] = [{'s': 0, 'dims': [int(m.group(2)), int(m.group(3))], 'fpt': -1, 'tot': -1,
                                 'dn': ids(w[0]), 'no': int(w[1]) if len(w) == 2 and w[1].isdigit() else -1}]
                    continue
                m = g(r'  (\d+) frames per train, up to (\d+) frames total$')
                if m and b['mod']:
                    b['mod'][0].update(fpt=int(m.group(1)), tot=int(m.group(2)))
                    continue
                m = g(r'  ([^ -].*)$')
                if m and b['mod'] and b['nI'] < 0:
                    b['mod'][0]['s'] = ids(m.group(1))
                    continue
            if k in ('describe', 'file'):
                m = g(r'(\d+) (instrument|control) sources')
                if m:
                    sec = m.group(2)[0].upper()
                    b['n' + sec] = int(m.group(1))
                    b['sub'] = 'lists'
                    continue
                m = g(r' +- +(.+)$')
                if m and sec:
                    b[sec].append(ids(m.group(1)))
                    continue
            if k == 'file':
                m = g(r'(\d+) trains$')
                if m:
                    b['n'] = int(m.group(1))
                    continue
                m = g(r'(\d+) × (\d+) pixels$')
                if m:
                    b['dims'] = [int(m.group(1)), int(m.group(2))]
                    continue
                m = g(r'(\d+) frames per train, (\d+) total$')
                if m:
                    b.update(fpt=int(m.group(1)), tot=int(m.group(2)), sub='det')
                    continue
            if k == 'fsum':
                m = g(r'  (\d+) trains, (\d+) frames/train, (\d+) total frames$')
                if m:
                    b.update(n=int(m.group(1)), fpt=int(m.group(2)), tot=int(m.group(3)), sub='det')
                    continue
                m = g(r'  (\d+) trains, (\d+) sources$')
                if m:
                    b.update(n=int(m.group(1)), ns=int(m.group(2)), sub='lists')
                    continue
            blocks.append({'k': 'text', 'name': [], 'txt': x[:80]})
        return blocks

    def ls(self, nodes, cwd=False):
        r = self.r
        argv, args = [], []
        for x in nodes:
            if isinstance(x, str):
                argv.append(x)
                args.append({'there': 0, 'node': 0})
            else:
                p = x['path']
                if x['k'] == 'dir' and r.random() < .3:
                    p += '/'
                elif r.random() < .2:
                    p = os.path.relpath(p)
                argv.append(p)
                args.append({'there': 1, 'node': clean(x)})
        e = {'op': 'ls', 'args': args, 'txt': argv}
        out = io.StringIO()
        here = os.getcwd()
        try:
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if cwd:
                    os.chdir(argv[0])
                    argv = []
                code = lsxfel.main(argv)
            e['obs'] = {'k': 'out', 'code': code or 0, 'blocks': self.parse(out.getvalue(), len(args) == 1)}
        except Exception as x:      # noqa
            e['obs'] = exc(x)
        finally:
            os.chdir(here)
        e['out'] = out.getvalue()[-1500:]
        self.ev.append(e)

    def files(self, node):
        for x in node['kids']:
            if x['k'] == 'file':
                yield dict(x, path=os.path.join(node['path'], x['txt']))
            else:
                yield from self.files(x) if x.get('path') else ()

    def dirs(self, node):
        for x in node['kids']:
            if x['k'] == 'dir' and x.get('path'):
                yield x
                yield from self.dirs(x)

    def go(self):
        r = self.r
        x = r.random()
        p = self.proposal() if x < .4 else None
        if not p:
            p = {'k': 'dir', 'name': gen.codes('mine'), 'txt': 'mine', 'kids': [],
                 'path': os.path.join(self.top, 'mine')}
            os.makedirs(p['path'])
            for q in r.sample(['r0001', 'r0002', 'data', 'r0013', 'abc'], r.randint(1, 3)):
                p['kids'].append(self.run_dir(p['path'], q))
        ds = [p] + list(self.dirs(p))
        fs = list(self.files(p))
        raw = lambda d: any(k['txt'] == 'raw' and k['k'] == 'dir' for k in d['kids'])
        for d in ds:
            self.ls([d], cwd=r.random() < .15)
        for f in r.sample(fs, min(len(fs), 4)):
            self.ls([f])
        self.ls([os.path.join(self.top, 'nowhere')])
        multi = [d for d in ds if not raw(d)] + fs
        for _ in range(3):
            q = r.sample(multi, min(len(multi), r.randint(2, 4)))
            if r.random() < .2:
                q.insert(r.randint(0, len(q)), os.path.join(self.top, 'none.h5'))
            if len(q) > 1:
                self.ls(q)
        shutil.rmtree(self.top, ignore_errors=True)
        return {'sc': {'ev': self.ev}, 'n': self.n, 'info': sorted(self.sid)}


def clean(x):
    if x['k'] == 'dir':
        return {'k': 'dir', 'name': x['name'], 'kids': [clean(k) for k in x['kids']]}
    return {'k': 'file', 'name': x['name'], 'data': x['data']}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    tmp = tempfile.mkdtemp(prefix='ls-')
    os.chdir(tmp)
    out = []
    for n in range(job['lo'], job['hi']):
        out.append(Driver(job, n, tmp).go())
    os.chdir('/')
    shutil.rmtree(tmp, ignore_errors=True)
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
