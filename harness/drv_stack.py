"""Stacks arrays of modules and devices, records the results."""
import json
import re
import sys

import numpy as np

import gen
from norm import exc

from karabo_data import stack_data, stack_detector_data

NAN = -999999
DT = ['u1', 'i1', '<u2', '<i2', '<u4', '<i4', '<i8', '<u8', '<f4', '<f8', '<f2', '<c8']


def flat(a):
    a = np.asarray(a)
    if a.dtype.kind == 'c':
        a = np.where(a.imag == 0, a.real, np.nan if not a.size else np.where(np.isnan(a.real), np.nan, .5))
    if a.dtype.kind in 'fc':
        return [NAN if x != x else int(x) if x == int(x) else 2 ** 30 for x in a.ravel().tolist()]
    return [int(x) if abs(int(x)) < 2 ** 30 else 2 ** 30 for x in a.ravel().tolist()]


def kind(dt):
    """types as the specification has them: "f..." for floats"""
    return np.dtype(dt).str


def arr(a):
    return {'k': 'arr', 'sh': list(a.shape), 'v': flat(a), 'dt': kind(a.dtype)}


def observe(x):
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return arr(np.asarray(x))
    if hasattr(x, 'asarray'):
        repr(x)
        o = arr(x.asarray())
        o.update(k='view', vsh=list(x.shape), nd=int(x.ndim), vdt=kind(x.dtype))
        return o
    return {'k': 'other', 't': [type(x).__name__]}


def run(f):
    try:
        x = f()
        return x, observe(x)
    except Exception as e:
        return None, exc(e)


def index(ix):
    def s(p):
        if p['k'] == 'i':
            return np.int64(p['i']) if p.get('np') else p['i']
        if p['k'] == 'e':
            return Ellipsis
        return slice(*[q[0] if q else None for q in (p['a'], p['b'], p['c'])])
    t = tuple(map(s, ix))
    return t


class Driver:
    def __init__(self, job, n):
        self.r = gen.rng_for(job['seed'], job['tag'], n)
        self.np = np.random.RandomState(self.r.randrange(2 ** 31))
        self.job, self.n = job, n
        self.ev = []
        self.view = None

    def data(self, sh, dt):
        """distinct values, various memory layouts"""
        r = self.r
        n = int(np.prod(sh))
        top = {'u1': 250, 'i1': 120, '<f2': 2000}.get(dt, 30000)
        a = (r.randrange(1, top) + np.arange(n) * r.choice([1, 1, 7])) % top + 1
        a = a.astype(dt).reshape(sh)
        x = r.random()
        if x < .1:
            a = np.asfortranarray(a)
        elif x < .2 and a.ndim:
            a = np.repeat(a, 2, axis=0)[::2]
        elif x < .3 and a.ndim:
            a = a[::-1].copy()[::-1]
        elif x < .4:
            a.flags.writeable = False
        return a

    def stack(self, h=None):
        r = self.r
        if h:
            nm, sh, ax = h['nm'], tuple(h['sh']), h['axis']
            present = [i for i, x in enumerate(h['mods']) if x]
            dt, fill, lazy = '<i4', (), 1
            mods = [(m, 1, self.data(sh, dt)) for m in present]
            other = 0
        else:
            nm = r.choice([1, 2, 3, 4, 16, 16])
            sh = tuple(r.choice([1, 1, 2, 2, 3]) for _ in range(r.randint(1, 4)))
            if r.random() < .05:
                z = r.choice([0, 0, r.randrange(len(sh))])
                sh = sh[:z] + (0,) + sh[z + 1:]
            while np.prod(sh) * nm > 200:
                sh = sh[:-1]
            sh = sh or (2,)
            nd = len(sh) + 1
            ax = r.choice([-3] * 3 + [0]) if nd >= 3 and r.random() < .5 else r.randrange(-nd, nd)
            dt = r.choice(DT)
            fill = () if r.random() < .6 else (r.choice([0, 1, 7, 22]),)
            lazy = int(r.random() < .7)
            other = int(r.random() < .03)
            pool = list(range(nm))
            if r.random() < .06:
                pool.append(nm + r.choice([0, 0, 1, 5]))
            present = r.sample(pool, r.randint(1, len(pool))) if r.random() < .8 else list(range(nm))
            r.shuffle(present)
            p_key, p_zero = r.choice([(0, 0), (.2, 0), (0, .3), (.2, .2)])
            p_sh, p_dt = r.choice([(0, 0)] * 12 + [(.2, 0), (0, .2)])
            mods = []
            for m in present:
                s, d = sh, dt
                if r.random() < p_zero:
                    s = (0,) + sh[1:]
                if r.random() < p_sh:
                    s = r.choice([sh + (1,), tuple(x + 1 for x in sh), (5,) + sh])
                if r.random() < p_dt:
                    d = r.choice(DT)
                mods.append((m, int(r.random() >= p_key), self.data(s, d)))
        key = r.choice(['image.data', 'data', 'image.mask'])
        if h or r.random() < .6:
            fmt = r.choice(['FXE_DET_LPD1M-1/DET/%dCH0:xtdf', 'SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf',
                            'SPB_IRU_AGIPD1M/DET/%dCH:xtdf', 'MID_16_DET/DET/%02dCH1:xtdf'])
        else:
            fmt = r.choice(['X9/DET/%dCH0', 'A/DET/%dCH0:xtdf/DET/x'])
        train = {}
        for m, k, a in mods:
            train[fmt % m] = {key: a} if k else {'other': a}
            if r.random() < .2:
                train[fmt % m]['metadata'] = {'x': 1}
        if other:
            train[r.choice(['SA1_XTD2_XGM/XGM/DOOCS', 'A/DET/CH0:xtdf', 'A/DETX/0CH0'])] = {key: mods[0][2]}
        e = {'op': 'stack', 'axis': ax, 'modules': nm, 'lazy': lazy, 'fill': list(fill), 'other': other,
             'nan': NAN, 'floats': ['<f2', '<f4', '<f8', '<c8'],
             'mods': [{'n': m, 'key': k, 'sh': list(a.shape), 'v': flat(a), 'dt': kind(a.dtype)}
                      for m, k, a in mods]}
        kw = {}
        if fill:
            kw['fillvalue'] = fill[0]
        if ax != -3 or r.random() < .5:
            kw['axis'] = ax
        if nm != 16 or r.random() < .5:
            kw['modules'] = nm
        if lazy or r.random() < .5:
            kw['real_array'] = not lazy
        was = [(k, v.tobytes(), v.shape, v.dtype) for d in train.values() for k, v in d.items()
               if k != 'metadata'], [list(d) for d in train.values()], list(train)
        x, e['obs'] = run(lambda: stack_detector_data(train, key, **kw))
        if isinstance(x, np.ndarray) and x.flags.writeable and r.random() < .3:
            x += 1       # it is ours: the data of the train stays
        now = [(k, v.tobytes(), v.shape, v.dtype) for d in train.values() for k, v in d.items()
               if k != 'metadata'], [list(d) for d in train.values()], list(train)
        e['same'] = int(was == now)
        self.ev.append(e)
        if lazy and e['obs']['k'] == 'view':
            self.view = x
        return x

    def part(self, n, stacking):
        r = self.r
        x = r.random()
        if stacking:
            if x < .55:
                return {'k': 's', 'a': [], 'b': [], 'c': []}
            if x < .97:
                return self.int_(n)
        elif x < .3:
            return {'k': 's', 'a': [], 'b': [], 'c': []}
        elif x < .55:
            return self.int_(n)
        p = lambda: [] if r.random() < .4 else [r.randint(-n - 2, n + 2)]
        return {'k': 's', 'a': p(), 'b': p(), 'c': r.choice([[], [], [1], [2], [-1], [-2], [3]])}

    def int_(self, n):
        r = self.r
        i = r.randint(-n, n - 1) if n and r.random() < .9 else r.choice([n, n + 1, -n - 1, -n - 2, -2 * n, -2 * n - 1])
        return {'k': 'i', 'i': i}

    def index(self, ix=None):
        r = self.r
        v = self.view
        sh = v.shape
        sax = v._stack_axis if hasattr(v, '_stack_axis') else -1
        if ix is None:
            parts = [self.part(n, d == sax) for d, n in enumerate(sh)]
            for d, p in enumerate(parts):
                if d != sax and p['k'] == 'i' and r.random() < .3:
                    p['np'] = 1
            x = r.random()
            if x < .25:
                ix = parts
            elif x < .5:
                ix = parts[:r.randint(1, len(parts))]
            elif x < .95:
                a = r.randint(0, len(parts))
                b = r.randint(a, len(parts))
                ix = parts[:a] + [{'k': 'e'}] + parts[b:]
            else:
                ix = parts + [{'k': 's', 'a': [], 'b': [], 'c': []}]
        e = {'op': 'index', 'ix': [{k: v for k, v in p.items() if k != 'np'} for p in ix], 'go': 0, 'same': 1}
        t = index(ix)
        if len(t) == 1 and r.random() < .5:
            t = t[0]
        x, e['obs'] = run(lambda: v[t])
        if e['obs']['k'] == 'view' and (self.n_model or r.random() < .6):
            self.view = x
            e['go'] = 1
        self.ev.append(e)

    def devices(self):
        r = self.r
        n = r.randint(0, 6)
        sh = tuple(r.choice([1, 2, 3]) for _ in range(r.randint(0, 3)))
        dt = r.choice(DT)
        nd = len(sh) + 1
        ax = r.choice([-3] * 3 + [0, -1]) if nd >= 3 and r.random() < .6 else r.randrange(-nd, nd)
        p_sh, p_dt = r.choice([(0, 0)] * 8 + [(.3, 0), (0, .3)])
        devs, train = [], {}
        nn = r.choice([0, 1, 1, 2, 3])
        for i in range(n):
            nums = [r.choice([0, 1, 2, 3, 9, 10, 11, 100]) for _ in range(nn if r.random() < .8 else r.randint(0, 3))]
            name = r.choice('ABZaz_') + '-'.join(r.choice(['A/%d', 'b:%d', '_%d', 'Z/x%02d', '%d']) % k for k in nums)
            # numbers may have come together
            nums = [int(q) for q in re.findall('[0-9]+', name)]
            if name in train:
                continue
            s = tuple(q + 1 for q in sh) if r.random() < p_sh else sh
            a = self.data(s, r.choice(DT) if r.random() < p_dt else dt)
            x = int(r.random() < .15)
            train[name] = {'data': a, 'b': 0}
            if x and r.random() < .3:
                del train[name]['data']
            devs.append({'nums': nums, 'x': x, 'sh': list(a.shape), 'v': flat(a), 'dt': kind(a.dtype), 'name': name})
        e = {'op': 'devices', 'axis': ax, 'devs': devs, 'same': 1}
        kw = {}
        xc = [d['name'] for d in devs if d['x']]
        if xc or r.random() < .3:
            kw['xcept'] = r.choice([list, tuple, set])(xc)
        if ax != -3 or r.random() < .5:
            kw['axis'] = ax
        was = [v.get('data', np.array(0)).tobytes() for v in train.values()], list(train)
        x, e['obs'] = run(lambda: stack_data(train, 'data', **kw))
        e['same'] = int(was == ([v.get('data', np.array(0)).tobytes() for v in train.values()], list(train)))
        self.ev.append(e)

    def run(self, h=None):
        self.n_model = h is not None
        if h:
            self.stack(h)
            for ix in h['ix']:
                if self.view is not None:
                    self.index(ix)
        else:
            for _ in range(self.job['depth']):
                x = self.r.random()
                if self.view is not None and x < .7:
                    self.index()
                elif x < .88:
                    self.stack()
                else:
                    self.devices()
        return {'sc': {'ev': self.ev}, 'n': self.n, 'info': h or 'random'}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    out = []
    for n, h in enumerate(job.get('hists', [])):
        out.append(Driver(job, n).run(h))
    for n in range(job.get('lo', 0), job.get('hi', 0)):
        out.append(Driver(job, n).run())
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
