"""Opens runs by proposal and run number in changing trees of directories."""
import json
import os
import random
import shutil
import sys
import tempfile

import gen
from norm import exc

from karabo_data import open_run, read_machinery

INSTR = ['SPB', 'FXE', 'SCS', 'XMPL', 'MID']
CYCLE = ['201701', '201702', '201801', '201901', '202001']
BASE = 1000


def template(root):
    """a small data file for each of many train ids"""
    os.makedirs(root, exist_ok=True)
    k = {'name': 'x.value', 'g': 1, 'dt': 'int32', 'shape': [], 'esz': 1, 'ts': 0, 'pid': 0}
    defs = [{'name': 'A/B/C', 'cat': 'C', 'keys': [k], 'ng': 1, 'gnames': ['']}]
    paths = [None]
    for i in range(1, 81):
        rec = {'tids': [(i + 1) // 2], 'src': [{'has': 1, 'idx': [{'first': [0], 'count': [1]}],
                                     'keys': [{'a': 1, 'b': 1, 'm': 1000, 'vals': [], 'n': 1, 'pad': 0}]}],
               'opt': dict(v1=0, legacy=0, tidpad=0, idxpad=0, srcpad=0, chunks=0)}
        defs[0]['name'] = 'A/B/%d' % (i % 2)
        p = os.path.join(root, '%d.h5' % i)
        gen.write_file(p, defs, rec, BASE)
        paths.append(p)
    return paths


class Driver:
    def __init__(self, job, n, tmp, files):
        self.r = gen.rng_for(job['seed'], job['tag'], n)
        self.n = n
        self.files = files
        self.root = tempfile.mkdtemp(dir=tmp)
        self.exp = os.path.join(self.root, 'exp')
        os.makedirs(self.exp)
        self.dirs = []
        self.ev = []

    def make(self, instr, cycle, prop, kind, run, n=None):
        """a run directory with n files"""
        r = self.r
        path = os.path.join(self.exp, instr, cycle, prop, kind, run)
        if os.path.lexists(path) or len(self.dirs) >= 39:
            return
        try:
            if r.random() < .15 and not os.path.lexists(os.path.dirname(path)):
                # e.g. raw data is a link to the archive
                store = os.path.join(self.root, 'd', kind, instr, cycle, prop)
                os.makedirs(store, exist_ok=True)
                os.makedirs(os.path.dirname(os.path.dirname(path)), exist_ok=True)
                os.symlink(store, os.path.dirname(path))
            os.makedirs(path)
        except OSError:
            return
        i = len(self.dirs) + 1
        n = r.choice([1, 1, 2, 0]) if n is None else n
        for j in range(n):
            shutil.copyfile(self.files[2 * i - j % 2], os.path.join(path, 'RAW-R%s-DA%02d-S00000.h5' % (run[1:], j + 1)))
        d = {'id': i, 'n': n, 'kind': kind, 'run': gen.codes(run),
             'prop': {'at': [instr, cycle], 'name': gen.codes(prop)}}
        self.dirs.append((d, path, prop))
        self.ev.append({'op': 'make', 'd': d})

    def decoy(self):
        """things which are not what they look like"""
        r = self.r
        parts = [r.choice(INSTR), r.choice(CYCLE), r.choice(self.props), r.choice(['raw', 'proc']), r.choice(self.runs)]
        parts = parts[:r.randint(1, 5)]
        if len(parts) > 3:         # a proposal is only in one place
            if parts[2] not in self.home:
                return
            parts[:2] = self.home[parts[2]]
        elif r.random() < .3 and len(parts) > 2:
            del parts[1]           # a proposal right under the instrument
        p = os.path.join(self.exp, *parts)
        try:
            if r.random() < .5 and len(parts) != 3:     # a file with the name of a proposal would be found
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'x') as f:
                    f.write('x')
                if len(parts) > 3:        # the proposal is there, even without runs
                    self.ev.append({'op': 'make', 'd': {
                        'id': 0, 'n': 0, 'kind': '', 'run': [],
                        'prop': {'at': parts[:2], 'name': gen.codes(parts[2])}}})
            elif len(parts) < 3:
                os.makedirs(p)
        except OSError:
            pass

    def remove(self, i):
        d, path, prop = self.dirs[i]
        if not d.get('gone'):
            shutil.rmtree(path)
            if 1:
                q = path
                for _ in range(2):     # the whole proposal goes, if that was all
                    q = os.path.dirname(q)
                    if os.path.islink(q) and not os.listdir(q):
                        os.unlink(q)
                    elif os.path.isdir(q) and not os.listdir(q):
                        os.rmdir(q)
                    else:
                        break
                if not os.path.lexists(q) and q == os.path.join(self.exp, *self.home.get(prop, ()), prop):
                    self.home.pop(prop, None)
            self.ev.append({'op': 'remove', 'id': d['id']})
            self.gone.add(i)

    def number(self, name):
        return int(name[1:]) if name[1:].isdigit() else None

    def forms(self, name, width):
        """ways to write a name"""
        v = self.number(name)
        res = [name]
        if v is not None:
            res += [v, v, str(v), '%0*d' % (width, v), name[1:]]
        return self.r.choice(res)

    def ask(self, prop, kind, run, by=None):
        r = self.r
        e = {'op': 'ask', 'kind': kind, 'by': 'name', 'run': 0, 'p': 0, 'prop': 0}
        live = [x for i, x in enumerate(self.dirs) if i not in self.gone]
        if by is None and live and r.random() < .12:
            d, path, _ = r.choice(live)
            p = os.path.dirname(os.path.dirname(path))
            p = r.choice([p, p, p + '/', os.path.join(os.path.dirname(p), '.', os.path.basename(p)),
                          os.path.relpath(p)])
            e.update(by='path', prop=d['prop'])
            e['p'] = {'k': 'str', 'c': gen.codes(p)}
        else:
            p = prop if by is not None else self.forms(prop, 6)
            e['p'] = {'k': 'int', 'v': p} if isinstance(p, int) else {'k': 'str', 'c': gen.codes(p)}
        q = run if by is not None else self.forms(run, 4)
        e['run'] = {'k': 'int', 'v': q} if isinstance(q, int) else {'k': 'str', 'c': gen.codes(q)}
        e['txt'] = [str(p), kind, str(q), type(p).__name__, type(q).__name__]
        kw = {}
        if kind != 'raw' or r.random() < .4:
            kw['data'] = kind
        e['inc'] = 0
        if r.random() < .2:
            kw['include'] = '*'
        elif r.random() < .2:
            e['inc'] = r.choice([1, 2, 2, 3])
            kw['include'] = r.choice(['*DA0%d*', '*-DA0%d-S?????.h5', 'RAW-R*[A]0%d*5']) % e['inc']
        try:
            if r.random() < .5:
                d = open_run(p, q, **kw)
            else:
                d = open_run(proposal=p, run=q, **kw)
            e['obs'] = {'k': 'run', 'ids': sorted(int(t) - BASE for t in d.train_ids), 'nf': len(d.files)}
        except Exception as x:    # noqa
            e['obs'] = exc(x)
        self.ev.append(e)

    def go(self, h=None):
        r = self.r
        self.gone = set()
        self.home = {}
        read_machinery.DATA_ROOT_DIR = self.exp + r.choice(['', '/'])
        base = r.choice([1, 12, 2012, 7, 900123, 40, 123456])
        variants = [base, base * 10, base * 10 % 1000000, base + 1000000, int('1' + str(base)), base + 1]
        nums = [base] + r.sample(variants, 3)
        self.props = ['p%06d' % v for v in nums] + \
            ['p%d' % base, 'p%06d_old' % base, 'xp%06d' % base, 'p%07d' % base, 'P%06d' % base]
        run = r.choice([1, 4, 12, 238, 999, 1000, 9999, 12345])
        rv = [run, run + 1, run * 10, int('1' + str(run)), run + 1000]
        self.runs = ['r%04d' % v for v in [run] + r.sample(rv, 3)] + ['r%d' % run, 'r%05d' % run, 'r%04dx' % run,
                                                                     'R%04d' % run]
        # where the program runs, things may have the same names
        here = os.path.join(self.root, 'home')
        os.makedirs(here)
        back = os.getcwd()
        os.chdir(here)
        for prop in sorted(set(self.props)):
            if r.random() < .25:
                kind, run = r.choice(['raw', 'proc']), r.choice(self.runs)
                os.makedirs(os.path.join(prop, kind, run))
                shutil.copyfile(self.files[80], os.path.join(prop, kind, run, 'RAW-R0001-DA01-S00000.h5'))
        for run in sorted(set(self.runs)):
            if r.random() < .1:
                os.makedirs(run)
                shutil.copyfile(self.files[80], os.path.join(run, 'RAW-R0001-DA01-S00000.h5'))
        if h:
            at = {1: (INSTR[0], CYCLE[0]), 2: (INSTR[r.randint(0, 4)], CYCLE[r.randint(1, 4)])}
            txt = lambda c: ''.join(map(chr, c))
            ids = {}
            for e in h:
                if e['op'] == 'ask':
                    self.ask(r.choice([e['p'], str(e['p']), 'p%06d' % e['p']]), e['k'],
                             r.choice([e['r'], str(e['r']), 'r%04d' % e['r']]), by='model')
                else:
                    key = json.dumps(e['d'])
                    d = e['d']
                    if e['op'] == 'make':
                        self.make(*at[d['prop']['at']], txt(d['prop']['name']), d['kind'], txt(d['run']), n=1)
                        ids[key] = len(self.dirs) - 1
                    else:
                        self.remove(ids[key])
        else:
            home = self.home
            for _ in range(18):
                x = r.random()
                if x < .4 or not self.dirs:
                    prop = r.choice(self.props[:3] if r.random() < .7 else self.props)
                    if prop not in home:
                        home[prop] = r.choice(INSTR), r.choice(CYCLE)
                    at = home[prop] if r.random() > .03 else (r.choice(INSTR), r.choice(CYCLE))
                    self.make(*at, prop, r.choice(['raw', 'raw', 'proc', 'scratch']),
                              r.choice(self.runs[:3] if r.random() < .7 else self.runs))
                elif x < .45:
                    self.decoy()
                elif x < .55:
                    i = r.randrange(len(self.dirs))
                    if i not in self.gone:
                        self.remove(i)
                else:
                    live = [x for i, x in enumerate(self.dirs) if i not in self.gone]
                    if live and r.random() < .6:
                        d, path, prop = r.choice(live)
                        self.ask(prop, d['kind'] if r.random() < .8 else 'proc', os.path.basename(path))
                    else:
                        self.ask(r.choice(self.props), r.choice(['raw', 'proc', 'usr']), r.choice(self.runs))
        os.chdir(back)
        shutil.rmtree(self.root, ignore_errors=True)
        return {'sc': {'ev': self.ev}, 'n': self.n, 'info': 'model' if h else 'random'}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    tmp = tempfile.mkdtemp(prefix='pr-')
    os.chdir(tmp)
    files = template(os.path.join(tmp, 'files'))
    out = []
    for n, h in enumerate(job.get('hists', [])):
        out.append(Driver(job, 10 ** 6 + n, tmp, files).go(h))
    for n in range(job.get('lo', 0), job.get('hi', 0)):
        out.append(Driver(job, n, tmp, files).go())
    os.chdir('/')
    shutil.rmtree(tmp, ignore_errors=True)
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
