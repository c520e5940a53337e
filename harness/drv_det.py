"""Reads multi-module detectors and writes virtual CXI files from them."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np

import gen
import norm
from norm import exc, tids

from karabo_data import RunDirectory, by_id, by_index, components
from karabo_data.cli import make_virtual_cxi

NONE = -999999
CLASSES = ['AGIPD1M', 'LPD1M', 'DSSC1M']
DETNAMES = [['SPB_DET_AGIPD1M-1', 'MID_DET_AGIPD1M-1', 'SPB_DET_AGIPD1M-10', 'XSPB_DET_AGIPD1M-1'],
            ['FXE_DET_LPD1M-1', 'FXE_DET_LPD1M-2', 'X_LPD1M', 'FXE_X_LPD1M'],
            ['SCS_DET_DSSC1M-1', 'SCS_DET_DSSC1M-2', 'SCS_CDIDET_DSSC1M']]
INNER = (2, 3)
KEYSETS = {'image.data', 'image.gain', 'image.mask', 'image.pulseId', 'image.cellId',
           'image.trainId', 'header.pulseCount', 'detector.temp'}


class World:
    def __init__(self, rng, prof):
        self.r = rng
        self.g = gen.RunGen(rng, dict(legacy=.2, v1=.35))
        self.base = rng.choice(gen.BASES)
        self.defs = self.g.defs
        self.dets = []          # (class, name)
        self.ev = []
        self.prof = prof

    # -- the run ---------------------------------------------------------------
    def add_det(self, cls, proc, mods):
        r = self.r
        free = [n for n in DETNAMES[cls] if (cls, n) not in self.dets]
        name = r.choice(free)
        self.dets.append((cls, name))
        dn = len(self.dets)
        ids = []
        ng2 = r.random() < .5
        xs = r.choice([[3], [3], [1], [2, 1]])
        x = [] if proc or r.random() < .4 else [1]
        fdt = r.choice(['float32', 'float32', 'float64'])
        gdt, mdt = r.choice(['uint8', 'uint16', 'float32']), r.choice(['uint32', 'uint8'])
        with_gain = r.random() < .8
        with_mask = r.random() < .8
        for m in mods:
            key = self.g.key
            ks = []
            if proc:
                ks.append(key('image.data', 1, fdt, INNER))
                if with_gain:
                    ks.append(key('image.gain', 1, gdt, INNER))
                    if with_mask:
                        ks.append(key('image.mask', 1, mdt, INNER))
            else:
                ks.append(key('image.data', 1, 'uint16', ([1] if cls == 1 else [2]) + list(INNER)))
            pk = key('image.pulseId', 1, 'uint64', x)
            pk['pid'] = 1
            ks.append(pk)
            ks.append(key('image.cellId', 1, 'uint16', x))
            ks.append(key('image.trainId', 1, 'uint64', x))
            if ng2:
                ks.append(key('header.pulseCount', 2, 'uint64', []))
                ks.append(key('header.extra', 2, 'float32', xs))
            n = '%s/DET/%dCH0:xtdf' % (name, m)
            d = {'name': n, 'c': gen.codes(n), 'cat': 'I', 'keys': ks, 'ng': 1 + ng2,
                 'gnames': ['image', 'header'][:1 + ng2], 'det': m, 'dn': dn, 'dc': cls}
            self.defs.append(d)
            ids.append(len(self.defs) - 1)
        return ids

    def add_decoys(self):
        r = self.r
        names = [('SPB_XTD9_XGM/DOOCS/MAIN', 'C'), ('SPB_XTD9_XGM/DOOCS/MAIN:output', 'I')]
        if self.dets:
            det = self.dets[0][1]
            names += [(det + '/DET/15CH0', 'C'), (det + '/CTRL/MC:output', 'I'), ('OTHER_DET/DET/2CH0:xtdf', 'I')]
        for n, cat in r.sample(names, r.randint(0, 2)):
            if cat == 'C':
                ks = [self.g.key('x.value', 1, 'int32', [])]
            else:
                ks = [self.g.key('image.data', 1, 'int32', [2])]
            self.defs.append({'name': n, 'c': gen.codes(n), 'cat': cat, 'keys': ks, 'ng': 1,
                              'gnames': ['' if cat == 'C' else 'image'], 'det': -1, 'dn': 0, 'dc': -1})

    def module_file(self, di, ts, present, pulses):
        """rows for source di over trains ts; present: train -> number of frames"""
        d = self.defs[di]
        r = self.r
        counts = [[present.get(t, 0) for t in ts]]
        if d['ng'] == 2:
            full = self.slow[di]
            counts.append([full.get(t, 1) for t in ts])
        idx = [{'count': c, 'first': [sum(c[:i]) for i in range(len(c))]} for c in counts]
        keys = []
        for k in d['keys']:
            m = gen.DT[k['dt']]
            n = sum(counts[k['g'] - 1])
            kf = {'a': k['esz'], 'b': r.randrange(m), 'm': m, 'vals': [], 'n': n,
                  'pad': r.choice([0, 0, 1, 3])}
            if k['pid']:
                kf['vals'] = [p for t in ts for p in pulses(di, t)[:present.get(t, 0)]]
            keys.append(kf)
        return {'has': 1, 'keys': keys, 'idx': idx}

    def build(self, root, pat=None):
        r, p = self.r, self.prof
        if pat is None:
            kinds = p.get('dets') or [r.choice([0, 0, 1, 1, 2])]
            groups = []
            for cls in kinds:
                nm = r.randint(*p.get('nmods', (1, 4)))
                pool = r.choice([list(range(16)), [0, 1, 10, 11, 15], [1, 10]])
                if nm > len(pool):
                    pool = list(range(16))
                proc = r.random() < .5
                groups.append(self.add_det(cls, proc, r.sample(pool, nm)))
        else:
            nm = len(pat['has'])
            groups = [self.add_det(r.choice([0, 1, 2]), r.random() < .5, r.sample(range(16), nm))]
        self.add_decoys()
        allmods = [x for g in groups for x in g]
        if pat is None:
            nt = r.randint(*p.get('trains', (1, 8)))
            span = nt + r.choice([0, 0, 1, 2, 4])
            alltids = sorted(r.sample(range(1, 1 + span), nt))
        else:
            alltids = [[1, 2, 4, 5], [1, 2, 4]][len(pat['has'][0]) == 3]
        fpt = r.choice(p.get('fpt', [1, 2, 3, 4]))
        hi = r.choice([fpt, fpt + 2, 12, 2700])
        mode = r.choice(['same', 'same', 'same', 'train', 'module'] if not p.get('agree') else ['same', 'train'])
        fixed = sorted(r.sample(range(hi), fpt))
        memo = {}

        def pulses(di, t):
            if mode == 'same':
                return fixed
            k = t if mode == 'train' else (di, t)
            if k not in memo:
                memo[k] = sorted(r.sample(range(max(hi, fpt)), fpt))
            return memo[k]
        self.slow = {}
        # other groups have one entry a train, rarely several
        twice = {t: r.choice([1, 2, 3]) for t in alltids} if r.random() < .12 else {}
        loss = r.choice(p.get('loss', [0, .15, .3, .6]))
        files = []
        for pos, di in enumerate(allmods):
            if pat is None:
                held = [t for t in alltids if r.random() >= loss] or [r.choice(alltids)]
                present = {t: 0 if r.random() < loss else fpt for t in held}
                if p.get('ragged') and r.random() < .5:
                    t = r.choice(held)
                    present[t] = r.randint(0, fpt)
                nseq = r.randint(1, 3)
                cuts = sorted(r.randint(0, len(held)) for _ in range(nseq - 1))
                b = [0] + cuts + [len(held)]
                parts = [held[b[i]:b[i + 1]] for i in range(nseq)]
                if r.random() < p.get('interleave', .12):        # files with interleaved trains
                    parts = [[] for _ in parts]
                    for t in held:
                        r.choice(parts).append(t)
                if r.random() < .8:
                    parts = [x for x in parts if x] or [[]]
            else:
                st = pat['has'][pos]
                cut = pat['cut'][pos]
                held = [i for i in range(len(alltids)) if st[i] != 0]
                present = {alltids[i]: fpt if st[i] == 2 else 0 for i in held}
                parts = [[alltids[i] for i in held if i < cut], [alltids[i] for i in held if i >= cut]]
                parts = [x for x in parts if x] or [[]]
            self.slow[di] = {t: int(r.random() >= loss / 2) * twice.get(t, 1) for t in alltids}
            num = list(range(len(parts)))
            if r.random() < .3:
                r.shuffle(num)
            for q, ts in zip(num, parts):
                f = self.g.add_file('RAW-R0001-DET%03d-S%05d.h5' % (pos, q), ts,
                                    {di: self.module_file(di, ts, present, pulses)})
                files.append(f)
        others = [i for i in range(len(self.defs)) if i not in allmods]
        if others:
            ts = [t for t in alltids if r.random() < .8] or alltids
            self.g.add_file('RAW-R0001-DA01-S00000.h5', ts,
                            {i: self.g.file_src(self.defs[i], len(ts), 2) for i in others})
        self.top = tempfile.mkdtemp(dir=root)
        self.runname = 'r%04d' % r.randint(1, 9999)
        self.kind = 'proc' if r.random() < .6 else 'raw'
        self.rundir = os.path.join(self.top, 'p001', self.kind, self.runname)
        os.makedirs(self.rundir)
        os.makedirs(os.path.join(self.top, 'p001', 'scratch'))
        for f in self.g.files:
            gen.write_file(os.path.join(self.rundir, f['name']), self.defs, f, self.base)
        self.sid = {d['name']: i + 1 for i, d in enumerate(self.defs)}
        self.alltids = sorted({t for f in self.g.files for t in f['tids']})
        self.pats = hi

    # -- collections ----------------------------------------------------------
    def selection(self, run):
        return [{'s': self.sid[s], 'ks': sorted(
            [k['name'] for k in self.defs[self.sid[s] - 1]['keys']].index(x) + 1
            for x in run.keys_for_source(s))} for s in sorted(run.all_sources)]

    def collection(self, run):
        """a selection from the run, by operations other checks decide"""
        r = self.r
        c = run
        if r.random() < .35:
            keep = [t for t in self.alltids if r.random() < .6] or [r.choice(self.alltids)]
            c = c.select_trains(by_id[[self.base + t for t in keep]])
        elif r.random() < .2 and len(self.alltids) > 1:
            a, b = sorted(r.sample(range(len(self.alltids) + 1), 2))
            c = c.select_trains(by_index[a:b])
        if r.random() < .25:
            det = r.choice(self.dets)[1]
            c = c.select(r.choice([[('*/DET/*', 'image.*')], [(det + '/DET/*', 'image.[dpc]*')],
                                   [('*', '*')], [(det + '/DET/1*', '*')] if 0 else [('*DET*', '*')],
                                   [('*/DET/*', 'image.data')]]))
        return c

    def open_det(self, run):
        r = self.r
        try:
            c = self.collection(run)
        except Exception:
            c = run
        cls = self.dets[0][0] if r.random() < .9 else r.randrange(3)
        dn, name = 0, None
        same = [i for i, d in enumerate(self.dets) if d[0] == cls]
        if r.random() < (.75 if len(same) > 1 else .2) and same:
            i = r.choice(same)
            dn, name = i + 1, self.dets[i][1]
        elif r.random() < .03:
            dn, name = 99, 'NO_SUCH_' + CLASSES[cls]
        mods = None
        if r.random() < .3:
            have = sorted({d['det'] for d in self.defs if d['det'] >= 0})
            mods = sorted(set(r.sample(have, r.randint(1, len(have))) + r.sample(range(16), r.randint(0, 2))))
        minmod = r.choice([1, 1, 1, 2, 3])
        nm = len([d for d in self.defs if d['det'] >= 0])
        if r.random() < .3:
            minmod = r.randint(1, nm + 1)
        kw = {}
        if name is not None:
            kw['detector_name'] = name
        if mods is not None:
            kw['modules'] = r.choice([list, set, tuple])(mods)
        if minmod != 1 or r.random() < .3:
            kw['min_modules'] = minmod
        e = dict(op='open', tids=tids(c.train_ids, self.base), sel=self.selection(c), cls=cls, dn=dn,
                 hasmods=int(mods is not None), mods=mods or [], minmod=minmod, cname=CLASSES[cls])
        det = None
        try:
            det = getattr(components, CLASSES[cls])(c, **kw)
            names = [n for _, n in self.dets]
            m2s = {int(m): s for m, s in det.modno_to_source.items()}
            s2m = {s: int(m) for s, m in det.source_to_modno.items()}
            assert {s: m for m, s in m2s.items()} == s2m
            obs = {'k': 'det', 'tids': tids(det.train_ids, self.base),
                   'mods': [[m, self.sid[s]] for m, s in sorted(m2s.items())],
                   'fpt': int(det.frames_per_train),
                   'dn': names.index(det.detector_name) + 1 if det.detector_name in names else 99}
        except Exception as ex:
            obs = exc(ex)
            det = None
        e['obs'] = obs
        self.ev.append(e)
        return det

    def query(self):
        """(python object or None, description)"""
        r = self.r
        q = {'kind': 'all', 'form': 'list', 'a': NONE, 'b': NONE, 'st': NONE, 'l': [], 'bad': 0}
        x = r.random()
        if x < .25:
            return None, q
        top = self.pats + 2
        q['kind'] = kind = r.choice(['id', 'ix'])
        cls = by_id if kind == 'id' else by_index
        lim = top if kind == 'id' and r.random() < .7 else 6
        n = lambda: r.choice([0, 1, r.randint(0, 5), r.randrange(lim + 1), r.randrange(lim + 1)])
        if x < .31:
            q['bad'] = 1
            return r.choice([cls[-1], cls[[-1]], cls[[0, -2]], cls[-3:], cls[:-1], cls[np.array([-1])],
                             cls[np.array([1, -1])], cls[::-1], cls[::0], cls[4:1:-1], [0], slice(0, 2), 3,
                             cls[0.5:2]]), q
        if x < .7:
            q['form'] = 'slice'
            a, b, st = (r.choice([None, n()]), r.choice([None, n(), n()]), r.choice([None, None, 1, 2, 3]))
            q.update(a=NONE if a is None else a, b=NONE if b is None else b, st=NONE if st is None else st)
            return cls[slice(a, b, st)], q
        if x < .8:
            q['l'] = [n()]
            return cls[r.choice([q['l'][0], np.int64(q['l'][0])])], q
        l = [n() for _ in range(r.randint(0, 4))]
        if r.random() < .6:
            l = sorted(set(l))
        q['l'] = l
        return cls[r.choice([list(l), np.array(l, dtype=r.choice(['i8', 'u8', 'i4'])), tuple(l)])], q

    def arr(self, a, train=None):
        dims = list(a.dims)
        o = {'k': 'arr', 'dims': dims, 'trains': [], 'pulses': [], 'mods': []}
        o['mods'] = [int(x) for x in a.coords['module'].values] if 'module' in a.coords else []
        for n in ('train', 'trainId'):
            if n in a.coords:
                o['trains'] = tids(a.coords[n].values, self.base)
        if 'pulse' in a.coords:
            o['pulses'] = norm.ints(a.coords['pulse'].values)
        if 'train' in dims and 'train' not in a.coords:
            o['trains'] = [-7] * a.sizes['train']
        v = a.values
        if v.dtype.kind == 'u' and v.size and v.max() > norm.LIM:
            v = v.astype('f8')
        o.update(norm.arr(v))
        return o

    def do_array(self, det):
        r = self.r
        c = det.data
        names = sorted({k for s in det.source_to_modno for k in c.keys_for_source(s)})
        key = r.choice([k for k in names if k.startswith('image.')] * 3 + names)
        if r.random() < .4 and 'image.data' in names:
            key = 'image.data'
        qo, q = self.query()
        e = dict(op='array', key=gen.codes(key), ktxt=key, q=q, qtxt=repr(qo and getattr(qo, 'value', qo)))
        if q['bad'] and not key.startswith('image.'):
            q['bad'] = 1
        try:
            a = det.get_array(key, pulses=qo) if qo is not None else det.get_array(key)
            e['obs'] = self.arr(a)
        except Exception as ex:
            e['obs'] = exc(ex)
        self.ev.append(e)

    def do_trains(self, det):
        qo, q = self.query()
        e = dict(op='trains', q=q, qtxt=repr(qo and getattr(qo, 'value', qo)))
        try:
            it = det.trains(pulses=qo) if qo is not None else det.trains()
            l = []
            for t, d in it:
                l.append({'t': norm.tid(t, self.base),
                          'keys': [{'c': gen.codes(k), 'o': self.arr(a)} for k, a in sorted(d.items())]})
            e['obs'] = {'k': 'trains', 'l': l}
        except Exception as ex:
            e['obs'] = exc(ex)
        self.ev.append(e)

    def read_cxi(self, path):
        with h5py.File(path, 'r') as f:
            ids = []
            for s in f['entry_1/experiment_identifier'][:]:
                s = s.decode() if isinstance(s, bytes) else s
                a, _, b = s.partition(':')
                ids.append([norm.tid(a, self.base), int(b)])
            det = f['entry_1/instrument_1/detector_1']
            layers = []
            for n in ('data', 'gain', 'mask', 'cellId'):
                ds = det.get(n) if n != 'cellId' else f.get('entry_1/cellId')
                if ds is None:
                    continue
                o = norm.arr(ds[()])
                o.update(name=n, axes=str(ds.attrs['axes']).split(':'), fill=norm.ints(np.asarray(ds.fillvalue))[0])
                layers.append(o)
            links = int(f['entry_1/data_1/data'] == det['data'] and
                        f['entry_1/instrument_1/detector_1/experiment_identifier'].shape == (len(ids),))
            gains = [x.decode() if isinstance(x, bytes) else x for x in f['entry_1/data_gain'][:]] \
                if 'entry_1/data_gain' in f else []
            if gains:
                links &= int(f['entry_1/data_1/data_gain'].shape == (len(gains),))
            return {'k': 'cxi', 'gains': gains, 'trains': tids(f['entry_1/trainId'][:], self.base),
                    'pulses': norm.ints(f['entry_1/pulseId'][:]), 'ids': ids,
                    'mods': norm.ints(det['module_identifier'][:]), 'links': links, 'layers': layers}

    def do_cxi(self, det):
        e = dict(op='cxi')
        path = os.path.join(self.top, 'out%d.cxi' % len(self.ev))
        try:
            if self.r.random() < .2:
                with open(path, 'wb') as h:
                    h.write(b'something else')
            det.write_virtual_cxi(path)
            obs = None
        except Exception as ex:
            obs = exc(ex)
        if obs is None:
            try:
                obs = self.read_cxi(path)
            except Exception as ex:
                obs = dict(exc(ex), k='badfile')
        e['obs'] = obs
        self.ev.append(e)

    def do_cli(self, run):
        r = self.r
        prop = os.path.join(self.top, 'p001')
        scratch = os.path.join(prop, 'scratch')
        for n in os.listdir(scratch):
            os.unlink(os.path.join(scratch, n))
        args = []
        mm = 9
        if r.random() < .75:
            mm = r.randint(1, 4)
            args += ['--min-modules', str(mm)]
        out = os.path.join(self.top, 'cli%d.cxi' % len(self.ev)) if r.random() < .6 else None
        if out:
            args += [r.choice(['-o', '--output']), out]
        old = os.getcwd()
        form = r.choice(['dir', 'slash', 'rel', 'old'] if self.kind == 'proc' else ['dir', 'slash', 'rel'])
        if form == 'old':
            args = [prop, r.choice([str(int(self.runname[1:])), self.runname[1:]])] + args
        elif form == 'rel':
            os.chdir(prop)
            args = [os.path.join(self.kind, self.runname)] + args
        else:
            args = [self.rundir + ('/' if form == 'slash' else '')] + args
        if out and form == 'rel' and r.random() < .5:
            args[-1] = os.path.join('..', os.path.basename(out))
        if r.random() < .5 and out and form != 'old':
            args = args[1:] + args[:1]
        e = dict(op='cli', minmod=mm, args=args, tids=tids(run.train_ids, self.base), sel=self.selection(run))
        obs = None
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                make_virtual_cxi.main(args)
        except SystemExit as ex:
            if ex.code not in (None, 0):
                obs = exc(ex)
                obs['t'] = ['SystemExit']
        except Exception as ex:
            obs = exc(ex)
        finally:
            os.chdir(old)
        if obs is None:
            try:
                made = [os.path.join(scratch, n) for n in os.listdir(scratch)]
                obs = self.read_cxi(out or made[0])
                if out and made:
                    obs['k'] = 'elsewhere'
            except Exception as ex:
                obs = dict(exc(ex), k='badfile')
        e['obs'] = obs
        self.ev.append(e)

    def run(self, weights, depth, root, pat=None):
        r = self.r
        self.build(root, pat)
        run = RunDirectory(self.rundir)
        det = None
        for _ in range(depth):
            if det is None or r.random() < .22:
                det = self.open_det(run)
            ops = [o for o in weights if det is not None or o == 'cli']
            if not ops:
                continue
            op = r.choices(ops, [weights[o] for o in ops])[0]
            if op == 'cli':
                self.do_cli(run)
            else:
                getattr(self, 'do_' + op)(det)
        for f in run.files:
            f.close()
        shutil.rmtree(self.top, ignore_errors=True)

    def scenario(self):
        defs = [{'c': d['c'], 'cat': d['cat'], 'ng': d['ng'], 'det': d['det'], 'dn': d['dn'], 'dc': d['dc'],
                 'keys': [{x: k[x] for x in ('c', 'g', 'dt', 'shape', 'esz', 'ts', 'pid')} for k in d['keys']]}
                for d in self.defs]
        return {'defs': defs, 'files': [{'tids': f['tids'], 'src': f['src']} for f in self.g.files],
                'ev': self.ev}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    for c in CLASSES:
        getattr(components, c).module_shape = INNER
    root = tempfile.mkdtemp(prefix='det-')
    out = []
    for n in range(job['lo'], job['hi']):
        rng = gen.rng_for(job['seed'], job['tag'], n)
        prof = rng.choice(job['profiles'])
        pats = job.get('pats')
        w = World(rng, prof)
        w.run(job['ops'], job['depth'], root, pats[n - job['lo']] if pats else None)
        out.append({'sc': w.scenario(), 'n': n,
                    'info': {'files': [(f['name'], f['tids']) for f in w.g.files],
                             'sources': [d['name'] for d in w.defs], 'base': w.base, 'prof': prof}})
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
