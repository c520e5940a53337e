"""Steps through stacks of frames in viewers, records what they show."""
import json
import sys

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt    # noqa: E402
import numpy as np                 # noqa: E402

import gen                         # noqa: E402
from norm import exc               # noqa: E402

from karabo_data.utils import QuickView    # noqa: E402

DT = ['u1', 'i1', 'u2', 'i2', 'i4', 'u4', 'i8', 'f4', 'f8']


class Driver:
    def __init__(self, job, n):
        self.r = gen.rng_for(job['seed'], job['tag'], n)
        self.n = n
        self.stacks = [None]
        self.views = {}
        self.state = {}
        self.ev = []

    def stack(self, n):
        """n frames which differ from each other and from those of other stacks"""
        r = self.r
        h, w = self.shape if r.random() < .7 else (r.randint(1, 5), r.randint(1, 5))
        dt = np.dtype(r.choice(DT))
        a = np.array([[[r.randrange(4) for _ in range(w)] for _ in range(h)] for _ in range(n)])
        self.serial += n
        a[:, 0, 0] = np.arange(self.serial - n, self.serial) % 120
        a = a.astype(dt)
        if r.random() < .2:
            a = np.asfortranarray(a)
        elif r.random() < .2:
            a = np.repeat(a, 2, axis=0)[::2]
        self.stacks.append(a)
        return a, len(self.stacks) - 1

    def observe(self, v, obs):
        q = self.views[v]
        obs.update(pos=-1, d=0, n=0, sd=0, si=-1, title=-1)
        try:
            obs['pos'] = int(q.pos)
            obs['d'] = next((i for i, a in enumerate(self.stacks) if i and a is q.data), 0)
            if q.data is not None:
                obs['n'] = len(q)
            ax = self.figs[v].axes
            if ax and ax[0].images:
                # the picture on top is what can be seen
                img = np.asarray(ax[0].images[-1].get_array())
                obs['title'] = int(ax[0].get_title().split(':')[1])
                near = [obs['d']] + list(range(len(self.stacks)))
                for d in near:
                    if d:
                        for i, f in enumerate(self.stacks[d]):
                            if f.shape == img.shape and (f == img).all():
                                obs['sd'], obs['si'] = d, i
                                return obs
        except Exception as e:     # noqa
            obs['note'] = repr(e)[:100]
        return obs

    def do(self, v, op, **e):
        r = self.r
        plt.figure(self.figs[v].number)
        q = self.views.get(v)

        def act():
            if op == 'give':
                if not e['ok']:
                    q.data = e.pop('bad')
                elif q is None:
                    self.views[v] = QuickView(e.pop('a'))
                else:
                    q.data = e.pop('a')
            elif op == 'next':
                r.choice([q.next, q.next, q.__next__])()
            elif op == 'prev':
                q.prev()
            elif op == 'jump':
                q.pos = r.choice([int, int, np.int64, np.int32])(e['i'])
            elif op == 'show':
                q.display(e['i'])
        obs = {'k': 'ok', 't': []}
        try:
            act()
        except Exception as x:    # noqa
            obs = exc(x)
            self.views.setdefault(v, QuickView())
        e.pop('a', None)
        e.pop('bad', None)
        self.ev.append(dict(op=op, v=v, obs=self.observe(v, obs), **e))

    def give(self, v, n=None):
        a, d = self.stack(n or self.r.randint(1, 6))
        if v not in self.views and self.r.random() < .5:
            self.views[v] = QuickView()
        self.do(v, 'give', a=a, d=d, n=len(a), ok=1)

    def bad(self, v):
        r = self.r
        a = np.zeros((2, 2, 2))
        self.views.setdefault(v, QuickView())
        self.do(v, 'give', d=0, n=0, ok=0,
                bad=r.choice([a[0], a[None], a.tolist(), 3, None, 'abc', (2, 3, 4)]))

    def figure(self, v):
        if v not in self.figs:
            self.figs[v] = plt.figure()

    def run(self, h=None):
        r = self.r
        self.figs = {}
        self.serial = r.randrange(100)
        self.shape = (r.randint(1, 4), r.randint(1, 4))
        self.figure(1)
        for e in h or []:
            if e['op'] == 'give':
                self.give(1, e['n']) if e['ok'] else self.bad(1)
            else:
                self.do(1, **e)
        if not h:
            nv = r.choice([1, 1, 1, 2])
            for _ in range(16):
                v = r.randint(1, nv)
                self.figure(v)
                q = self.views.get(v)
                n = len(q.data) if q is not None and q.data is not None else 0
                x = r.random()
                if not n or x < .1:
                    self.give(v)
                elif x < .16:
                    self.bad(v)
                elif x < .5:
                    self.do(v, 'next')
                elif x < .7:
                    self.do(v, 'prev')
                elif x < .9:
                    self.do(v, 'jump', i=r.choice([0, n - 1, n, -1, n + 1, r.randrange(n), r.randrange(n)]))
                else:
                    self.do(v, 'show', i=r.randrange(n))
        plt.close('all')
        return {'sc': {'ev': self.ev}, 'n': self.n, 'info': h or 'random'}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    out = []
    for n, h in enumerate(job.get('hists', [])):
        out.append(Driver(job, 10 ** 6 + n).run(h))
    for n in range(job.get('lo', 0), job.get('hi', 0)):
        out.append(Driver(job, n).run())
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
