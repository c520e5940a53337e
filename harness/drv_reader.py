"""Drives DataCollection with random or given histories and records them."""
import contextlib
import copy
import io
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile

import numpy as np
import h5py

import gen
from norm import Bad, arr, dtname, exc, ints, tid, tids


class Sess:
    """One scenario: files on disk, live collections, recorded events."""

    def __init__(self, rng, g, base, root):
        self.r = rng
        self.g = g
        self.base = base
        self.dir = tempfile.mkdtemp(dir=root)
        self.defs = g.defs
        self.sid = {d['name']: i + 1 for i, d in enumerate(self.defs)}
        self.colls = []
        self.info = []      # harness side notes: {'written': bool}
        self.ev = []
        self.paths = []
        self.nwritten = 0
        self.repeat = []

    # -- files on disk --------------------------------------------------
    def put(self, f, sub):
        d = os.path.join(self.dir, sub)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f['name'])
        gen.write_file(p, self.defs, f, self.base)
        f['path'] = p
        self.paths.append(p)

    def sidof(self, name):
        return self.sid.get(name, 0)

    def kidof(self, s, name):
        if s == 0:
            return 0
        for i, k in enumerate(self.defs[s - 1]['keys'], 1):
            if k['name'] == name:
                return i
        return 0

    # -- observations -----------------------------------------------------
    def summary(self, c):
        keys = []
        for s in sorted(c.all_sources):
            si = self.sidof(s)
            ks = sorted(self.kidof(si, k) for k in c.keys_for_source(s))
            keys.append({'s': si, 'ks': ks})
        return {'k': 'coll', 'tids': tids(c.train_ids, self.base),
                'C': sorted(self.sidof(s) for s in c.control_sources),
                'I': sorted(self.sidof(s) for s in c.instrument_sources),
                'A': sorted(self.sidof(s) for s in c.all_sources),
                'det': sorted(self.sidof(s) for s in c.detector_sources),
                'keys': keys}

    def train_obs(self, item):
        t, data = item
        src = []
        for s in sorted(data):
            si = self.sidof(s)
            ks = []
            meta = 0
            for k, v in data[s].items():
                if k == 'metadata':
                    if (v.get('source') == s and tid(v.get('timestamp.tid'), self.base)
                            == tid(t, self.base)):
                        meta = 1
                    continue
                d = arr(v)
                d['k'] = self.kidof(si, k)
                ks.append(d)
            ks.sort(key=lambda d: d['k'])
            src.append({'s': si, 'meta': meta, 'keys': ks})
        return {'k': 'train', 'tid': tid(t, self.base), 'src': src}

    def rec(self, op, fn, obs, keep=(), **args):
        """Run fn; obs turns the result into an observation

        keep: argument objects the call must leave as they are"""
        e, res = self.call(op, fn, obs, keep, args)
        self.ev.append(e)
        if op not in NOREPEAT:
            self.repeat.append((len(self.ev), fn, obs))
        return res

    def call(self, op, fn, obs, keep, args):
        res = None
        e = dict(op=op, **args)
        was = fingerprint(keep)
        self.lent = None
        with contextlib.redirect_stdout(io.StringIO()) as so:
            try:
                res = fn()
            except Exception as x:
                e['obs'] = exc(x)
            else:
                try:
                    e['obs'] = obs(res)
                except Bad as x:
                    e['obs'] = {'k': 'bad', 't': [str(x)]}
                    res = None
                except Exception as x:
                    e['obs'] = exc(x)
                    res = None
        self.last_out = so.getvalue()
        if op in SCRIBBLE or op == 'again':
            scribble(res)       # what was returned is the caller's own
        if keep:
            e['same'] = int(fingerprint(self.lent or keep) == was)
        spoil(self.lent)            # the arguments are the caller's own, too
        return e, res

    def lend(self, args):
        """a copy of the arguments, which are changed after the call"""
        self.lent = copy.deepcopy(args)
        return self.lent

    def do_again(self, ci):
        """repeat an earlier call"""
        if not self.repeat:
            return
        ref, fn, obs = self.r.choice(self.repeat)
        e, _ = self.call('again', fn, obs, (), {'ref': ref})
        self.ev.append(e)

    def add(self, op, fn, **args):
        c = self.rec(op, fn, self.summary, **args)
        if c is not None:
            self.colls.append(c)
            par = args.get('cs') or ([args['c']] if 'c' in args else [])
            self.info.append({'written': any(self.info[i - 1]['written'] for i in par)})
        return c

    # -- random arguments ---------------------------------------------------
    def pick(self):
        return self.r.randrange(len(self.colls))

    def some_key(self, ci, bad=0.04):
        r = self.r
        c = self.colls[ci]
        srcs = sorted(c.all_sources)
        if not srcs or r.random() < bad:
            s = r.randint(1, len(self.defs))
            k = r.randint(1, len(self.defs[s - 1]['keys']))
            return s, k
        s = self.sidof(r.choice(srcs))
        if s == 0:
            return 1, 1
        ks = [self.kidof(s, k) for k in c.keys_for_source(self.defs[s - 1]['name'])]
        ks = sorted(k for k in ks if k)
        if not ks or r.random() < bad:
            return s, r.randint(1, len(self.defs[s - 1]['keys']))
        return s, r.choice(ks)

    def names(self, s, k):
        return self.defs[s - 1]['name'], self.defs[s - 1]['keys'][k - 1]['name']

    def src_glob(self, ci):
        r = self.r
        srcs = sorted(self.colls[ci].all_sources) or [self.defs[0]['name']]
        if r.random() < 0.1:
            srcs = [d['name'] for d in self.defs]
        return mutate_glob(r, r.choice(srcs))

    def key_glob(self, ci):
        r = self.r
        if r.random() < 0.25:
            return '*'
        s, k = self.some_key(ci, 0.1)
        name = self.defs[s - 1]['keys'][k - 1]['name']
        if name.endswith('.value') and r.random() < 0.6:
            name = name[:-6]
        return mutate_glob(r, name)

    def seln(self, ci, allow_none=False):
        """random selection: (python argument(s), spec encoding)"""
        r = self.r
        x = r.random()
        if allow_none and x < 0.5:
            return None, {'kind': 'none'}
        if x < 0.02 and not allow_none:
            return (42,), {'kind': 'bad'}
        if x < 0.65:
            pats = [(self.src_glob(ci), self.key_glob(ci)) for _ in range(r.choice([1, 1, 2, 3]))]
            enc = {'kind': 'list', 'pats': [{'s': gen.codes(a), 'k': gen.codes(b)} for a, b in pats],
                   'txt': pats}
            if len(pats) == 1 and not allow_none and r.random() < 0.7:
                if pats[0][1] == '*' and r.random() < 0.5:
                    return (pats[0][0],), enc
                return pats[0], enc
            return (pats,), enc
        c = self.colls[ci]
        d, enc = {}, []
        pool = sorted(c.all_sources)
        if not pool or r.random() < 0.05:
            pool = [x['name'] for x in self.defs]
        for s in r.sample(pool, min(len(pool), r.randint(1, 2))):
            si = self.sidof(s)
            if si == 0:
                continue
            if r.random() < 0.3:
                d[s] = r.choice([set(), None, {}, []])
                enc.append({'s': si, 'ks': []})
            else:
                try:
                    avail = sorted(c.keys_for_source(s))
                except Exception:
                    avail = []
                allk = [k['name'] for k in self.defs[si - 1]['keys']]
                if not avail or r.random() < 0.06:
                    avail = allk
                ks = r.sample(avail, r.randint(1, len(avail)))
                d[s] = set(ks)
                enc.append({'s': si, 'ks': sorted(self.kidof(si, k) for k in ks)})
        if not enc:
            return self.seln(ci, allow_none)
        return (d,), {'kind': 'dict', 'd': enc}

    def rng(self, ci, allow_none=False):
        from karabo_data import by_id, by_index
        r = self.r
        if allow_none and r.random() < 0.6:
            return None, {'kind': 'none', 'a': 0, 'b': 0, 'st': 0, 'l': []}
        ts = tids(self.colls[ci].train_ids, self.base)
        n = len(ts)
        lo, hi = (ts[0], ts[-1]) if ts else (1, 4)
        NONE = -999999
        kind = r.choice(['idslice', 'idslice', 'ixslice', 'idlist', 'ixlist'])
        if r.random() < 0.015:
            return 5, {'kind': 'bad', 'a': 0, 'b': 0, 'st': 0, 'l': []}
        enc = {'kind': kind, 'a': NONE, 'b': NONE, 'st': NONE, 'l': []}

        def pt():
            if ts and r.random() < 0.5:
                return r.choice(ts)
            return max(r.randint(lo - 2, hi + 2), -self.base)
        if kind == 'idslice':
            a = NONE if r.random() < 0.25 else pt()
            b = NONE if r.random() < 0.25 else pt()
            st = r.choice([NONE, NONE, NONE, 1, 2, 3])
            enc.update(a=a, b=b, st=st)
            conv = r.choice([int, int, np.uint64])
            val = slice(None if a == NONE else conv(self.base + a),
                        None if b == NONE else conv(self.base + b),
                        None if st == NONE else st)
            return by_id[val], enc
        if kind == 'ixslice':
            a = r.choice([NONE, r.randint(-n - 1, n + 1), 0])
            b = r.choice([NONE, r.randint(-n - 1, n + 1), r.randint(0, n + 1)])
            st = r.choice([NONE, NONE, 1, 2, 3])
            enc.update(a=a, b=b, st=st)
            return by_index[slice(None if a == NONE else a, None if b == NONE else b,
                                  None if st == NONE else st)], enc
        if kind == 'idlist':
            L = [pt() for _ in range(r.randint(1, 4))]
            enc['l'] = L
            val = [self.base + t for t in L]
            if r.random() < 0.4:
                val = np.array(val, dtype='u8')
            return by_id[val], enc
        if n and r.random() < 0.93:
            L = [r.randint(-n, n - 1) for _ in range(r.randint(1, 4))]
        else:
            L = [r.randint(-n - 2, n + 1) for _ in range(r.randint(1, 4))]
        enc['l'] = L
        val = np.array(L) if r.random() < 0.3 else list(L)
        return by_index[val], enc

    # -- operations -----------------------------------------------------------
    def do_open(self, group, how='dir'):
        from karabo_data import RunDirectory, H5File
        from karabo_data.reader import DataCollection
        fs = [i + 1 for i, f in enumerate(self.g.files) if f in group]
        if how == 'dir':
            fn = lambda: RunDirectory(os.path.dirname(group[0]['path']))
        elif how == 'file':
            fn = lambda: H5File(group[0]['path'])
            fs = [self.g.files.index(group[0]) + 1]
        else:
            fn = lambda: DataCollection.from_paths([f['path'] for f in group])
        return self.add('open', fn, fs=fs, how=how)

    def do_select(self, ci, op='select', given=None):
        args, enc = given or self.seln(ci)
        c = self.colls[ci]
        return self.add(op, lambda: getattr(c, op)(*self.lend(args)), keep=args, c=ci + 1, seln=enc)

    def do_trange(self, ci, given=None):
        arg, enc = given or self.rng(ci)
        c = self.colls[ci]
        return self.add('trange', lambda: c.select_trains(*self.lend((arg,))), keep=(arg,), c=ci + 1, rng=enc)

    def do_cross(self, ci):
        """select different parts of the same collection and join them"""
        r = self.r
        parts = []
        for _ in range(r.choice([2, 2, 3])):
            x = r.random()
            before = len(self.colls)
            if x < 0.6:
                self.do_select(ci, r.choice(['select', 'select', 'deselect']))
            else:
                self.do_trange(ci)
            if len(self.colls) > before:
                parts.append(len(self.colls) - 1)
        if parts and not any(self.info[i]['written'] for i in parts):
            self.do_union(parts)

    def do_union(self, cis):
        cs = [self.colls[i] for i in cis]
        return self.add('union', lambda: cs[0].union(*cs[1:]), cs=[i + 1 for i in cis])

    def do_train(self, ci):
        r = self.r
        c = self.colls[ci]
        args, enc = self.seln(ci, True)
        dev = args[0] if args else None
        ts = tids(c.train_ids, self.base)
        if r.random() < 0.65:
            t = r.choice(ts) if ts and r.random() < 0.93 else r.randint(-2, 14)
            t = max(t, -self.base)
            real = self.base + t
            if r.random() < 0.2:
                real = np.uint64(real)
            self.rec('train', lambda: c.train_from_id(real, devices=dev), self.train_obs, keep=args or (),
                     c=ci + 1, t=t, seln=enc)
        else:
            n = len(ts)
            i = r.randint(-n, n - 1) if n and r.random() < 0.93 else r.choice([n, n + 3, -n - 1])
            self.rec('train_ix', lambda: c.train_from_index(i, devices=dev), self.train_obs, keep=args or (),
                     c=ci + 1, t=i, seln=enc)

    def do_trains(self, ci):
        r = self.r
        c = self.colls[ci]
        args, enc = self.seln(ci, True)
        tr, renc = self.rng(ci, True)
        req = r.random() < 0.4
        self.rec('trains', lambda: list(c.trains(devices=args[0] if args else None,
                                                 train_range=tr, require_all=req)),
                 lambda its: {'k': 'trains', 'items': [self.train_obs(x) for x in its]},
                 keep=(args or ()) + (tr,), c=ci + 1, seln=enc, rng=renc, req=int(req))

    def roi(self, shape):
        """random region of interest: (by_index object or None, encoding)"""
        from karabo_data import by_index
        r = self.r
        full = [{'ix': list(range(n)), 'drop': 0} for n in shape]
        if r.random() < 0.4 or not shape:
            if r.random() < 0.3:
                return by_index[...], full
            return None, full
        m = r.randint(1, len(shape))
        left = r.random() < 0.7
        val, enc = [], []
        for n in (shape[:m] if left else shape[len(shape) - m:]):
            x = r.random()
            if x < 0.3:
                i = r.randrange(n)
                val.append(i)
                enc.append({'ix': [i], 'drop': 1})
            else:
                s = slice(r.choice([None, r.randint(0, n - 1), -r.randint(1, n)]),
                          r.choice([None, r.randint(1, n), n + 2, -r.randint(1, n)]),
                          r.choice([None, None, 1, 2]))
                ix = list(range(n))[s]
                if not ix:
                    s = slice(None)
                    ix = list(range(n))
                val.append(s)
                enc.append({'ix': ix, 'drop': 0})
        if left:
            enc = enc + full[m:]
            if m < len(shape) and r.random() < 0.3:
                val.append(Ellipsis)
        else:
            enc = full[:len(shape) - m] + enc
            val = [Ellipsis] + val
        v = tuple(val) if len(val) > 1 or r.random() < 0.3 else val[0]
        return by_index[v], enc

    def do_array(self, ci, dask=False):
        r = self.r
        c = self.colls[ci]
        s, k = self.some_key(ci)
        sn, kn = self.names(s, k)
        shape = self.defs[s - 1]['keys'][k - 1]['shape']
        if dask:
            full = [{'ix': list(range(n)), 'drop': 0} for n in shape]
            self.rec('dask', lambda: c.get_dask_array(sn, kn).compute(),
                     lambda a: dict(arr(a), k='arr', lab=0, tids=[], dims=[]),
                     c=ci + 1, s=s, k=k, roi=full, dims=[])
            return
        roi, enc = self.roi(shape)
        nd = sum(1 for x in enc if not x['drop'])
        extra = None
        if r.random() < 0.3:
            extra = ['pulse', 'slow', 'fast', 'q', 'w'][:nd]
        dims = extra if extra is not None else ['dim_%d' % i for i in range(nd)]
        kw = {}
        if extra is not None:
            kw['extra_dims'] = extra
        if roi is not None:
            kw['roi'] = roi

        def obs(a):
            d = arr(a.values)
            d.update(k='arr', lab=1, tids=tids(a.coords['trainId'].values, self.base),
                     dims=list(a.dims))
            return d
        self.rec('array', lambda: c.get_array(sn, kn, **kw), obs,
                 keep=(roi, extra), c=ci + 1, s=s, k=k, roi=enc, dims=dims, roi_txt=repr(roi))

    def do_lazy(self, ci, s, k):
        """a lazy array of entries which are too large to load"""
        c = self.colls[ci]
        sn, kn = self.names(s, k)
        shape = self.defs[s - 1]['keys'][k - 1]['shape']

        def fn():
            with time_limit(30):
                return c.get_dask_array(sn, kn)

        def obs(a):
            pts = []
            n = a.shape[0] if len(a.shape) == 1 + len(shape) else 0
            for row in sorted({0, n // 2, n - 1}) if n > 0 else []:
                ix = [self.r.choice([0, m // 2, m - 1]) for m in shape]
                with time_limit(60):
                    v = np.asarray(a[(slice(row, row + 1),) + tuple(slice(i, i + 1) for i in ix)]
                                   .compute())
                pts.append({'row': row, 'e': int(np.ravel_multi_index(ix, shape)),
                            'v': ints(v.ravel())[0]})
            return {'k': 'lazy', 'sh': [int(x) for x in a.shape], 'dt': a.dtype.name, 'pts': pts}
        self.rec('lazy', fn, obs, c=ci + 1, s=s, k=k)

    def nopix(self, ci):
        """a written file with detector sources but without their pixel data"""
        c = self.colls[ci]
        return self.info[ci]['written'] and any(
            'image.data' not in c.keys_for_source(s) for s in c.detector_sources)

    def series_ok(self, ci, s, k):
        """is the key 1D, with pulse ids if it can have several entries per train?"""
        d = self.defs[s - 1]
        key = d['keys'][k - 1]
        if d['cat'] == 'C':
            return key['shape'] == []
        mf = [f['path'] for f in self.g.files if f['src'][s - 1]['has'] and
              max(f['src'][s - 1]['idx'][key['g'] - 1]['count'] or [0]) > 1]
        if not mf:
            return key['shape'] == []
        if key['shape'] == [1] and not any(f.filename in mf for f in self.colls[ci].files):
            return False
        return key['shape'] in ([], [1]) and any(
            x['pid'] and x['g'] == key['g'] for x in d['keys'])

    def do_series(self, ci):
        c = self.colls[ci]
        for _ in range(6):
            s, k = self.some_key(ci)
            if self.series_ok(ci, s, k):
                break
        else:
            return
        sn, kn = self.names(s, k)
        want = sn + '/' + kn
        if want.endswith('.value'):
            want = want[:-6]

        def obs(ser):
            import pandas as pd
            o = {'k': 'series', 'dt': dtname(ser.dtype), 'v': ints(ser.values),
                 'name': str(ser.name)}
            if isinstance(ser.index, pd.MultiIndex):
                o.update(multi=1, tids=tids(ser.index.get_level_values(0), self.base),
                         pids=ints(ser.index.get_level_values(1)))
            else:
                o.update(multi=0, tids=tids(ser.index, self.base), pids=[])
            return o
        self.rec('series', lambda: c.get_series(sn, kn), obs, c=ci + 1, s=s, k=k, name=want)

    def do_counts(self, ci):
        c = self.colls[ci]
        s, k = self.some_key(ci)
        sn, kn = self.names(s, k)
        self.rec('counts', lambda: c.get_data_counts(sn, kn),
                 lambda x: {'k': 'series', 'tids': tids(x.index, self.base), 'v': ints(x.values)},
                 c=ci + 1, s=s, k=k)

    def do_frame(self, ci):
        """only where every selected field is 1D with at most one entry per train"""
        r = self.r
        c = self.colls[ci]
        args, enc = self.seln(ci, True)
        try:
            sub = c.select(*args) if args else c
            fields = [(s, k) for s in sub.all_sources for k in sub.keys_for_source(s)]
        except Exception:
            fields = []
        for s, k in fields:
            si = self.sidof(s)
            ki = self.kidof(si, k)
            if not si or not ki:
                continue
            d = self.defs[si - 1]
            key = d['keys'][ki - 1]
            if key['shape'] or any(
                    f['src'][si - 1]['has'] and
                    max(f['src'][si - 1]['idx'][key['g'] - 1]['count'] or [0]) > 1
                    for f in self.g.files):
                return
        ts = r.random() < 0.3
        cols = {}
        for si, d in enumerate(self.defs, 1):
            for ki, key in enumerate(d['keys'], 1):
                nm = d['name'] + '/' + key['name']
                if nm.endswith('.value'):
                    nm = nm[:-6]
                cols[nm] = (si, ki)

        def obs(df):
            out = []
            for j, nm in enumerate(df.columns):
                s, k = cols.get(nm, (0, 0))
                out.append({'s': s, 'k': k, 'v': ints(df.iloc[:, j].values)})
            return {'k': 'frame', 'tids': tids(df.index, self.base), 'cols': out}
        dev = args[0] if args else None
        self.rec('frame', lambda: c.get_dataframe(dev, timestamps=ts), obs, keep=args or (),
                 c=ci + 1, seln=enc, ts=int(ts))

    def do_info(self, ci):
        c = self.colls[ci]
        if self.nopix(ci):
            return

        def fn():
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                c.info()
            return b.getvalue()
        self.rec('info', fn, lambda t: self.parse_info(t), c=ci + 1)

    def parse_info(self, txt):
        g = lambda p: int(re.search(p, txt, re.M).group(1))

        def end(which):
            t = re.search(which + r' train ID:\s+(\d+|-)', txt).group(1)
            return 0 if t == '-' else tid(int(t), self.base)
        inst = txt.split('instrument sources', 1)[1].split('control sources', 1)
        lst = lambda t: [self.sidof(m) for m in re.findall(r'^\s+- (.+)$', t, re.M)]
        return {'k': 'info', 'n': g(r'# of trains:\s+(\d+)'),
                'first': end('First'), 'last': end('Last'),
                'ndet': g(r'^(\d+) detector modules'),
                'ninst': g(r'^(\d+) instrument sources'),
                'nctrl': g(r'^(\d+) control sources'),
                'inst': lst(inst[0]), 'ctrl': lst(inst[1])}

    def do_tinfo(self, ci):
        c = self.colls[ci]
        ts = tids(c.train_ids, self.base)
        t = self.r.choice(ts) if ts and self.r.random() < 0.85 else self.r.randint(0, 14)

        def fn():
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                c.train_info(self.base + t)
            return b.getvalue()

        def obs(txt):
            a, b = txt.split('Instruments', 1)[1].split('Controls', 1)
            lst = lambda t: [self.sidof(m) for m in re.findall(r'^\s+- (.+)$', t, re.M)]
            return {'k': 'tinfo', 'inst': lst(a), 'ctrl': lst(b)}
        self.rec('tinfo', fn, obs, c=ci + 1, t=t)

    def do_dinfo(self, ci):
        c = self.colls[ci]
        dets = [s for s in sorted(c.detector_sources) if self.sidof(s)]
        if not dets or self.nopix(ci):
            return
        sn = self.r.choice(dets)
        s = self.sidof(sn)
        k = self.kidof(s, 'image.data')
        self.rec('dinfo', lambda: c.detector_info(sn),
                 lambda d: {'k': 'dinfo', 'dims': ints(d['dims']),
                            'fpt': int(d['frames_per_train']), 'total': int(d['total_frames'])},
                 c=ci + 1, s=s, k=k)

    def do_observe(self, ci):
        c = self.colls[ci]
        self.rec('observe', lambda: c, self.summary, c=ci + 1)

    def do_with(self, ci):
        c = self.colls[ci]
        if any(e['op'] in ('vwrite', 'vds') for e in self.ev):
            return      # HDF5 itself keeps the sources of virtual datasets open

        def fn():
            with c as x:
                if x.train_ids and self.r.random() < 0.7:
                    x.train_from_index(0)
            return open_fds([f.filename for f in c.files])
        self.rec('with', fn, lambda n: {'k': 'with', 'fds': n}, c=ci + 1)

    def check_written(self, path):
        """(number of validation problems, are the METADATA tables consistent)"""
        from karabo_data.reader import FileAccess
        from karabo_data.validation import FileValidator
        fa = FileAccess(path)
        try:
            valid = len(FileValidator(fa).run_checks())
        finally:
            fa.close()
        with h5py.File(path, 'r') as f:
            ids = [x.decode() for x in f['METADATA/dataSourceId'][:]]
            root = [x.decode() for x in f['METADATA/root'][:]]
            dev = [x.decode() for x in f['METADATA/deviceId'][:]]
            meta = int(ids == [a + '/' + b for a, b in zip(root, dev)]
                       and len(set(ids)) == len(ids) and len(root) == len(dev) == len(ids))
        return valid, meta

    def do_write(self, ci, virt):
        from karabo_data import H5File
        c = self.colls[ci]
        self.nwritten += 1
        path = os.path.join(self.dir, 'written-%d.h5' % self.nwritten)
        if self.r.random() < 0.2:
            with open(path, 'wb') as f:
                f.write(b'old contents')

        def fn():
            (c.write_virtual if virt else c.write)(path)
            valid, meta = self.check_written(path)
            return valid, meta, H5File(path)

        def obs(x):
            return {'k': 'write', 'valid': x[0], 'meta': x[1], 'sum': self.summary(x[2]),
                    'arr': {'k': 'none'}}
        res = self.rec('vwrite' if virt else 'write', fn, obs, c=ci + 1)
        if res is not None:
            self.colls.append(res[2])
            self.info.append({'written': True})

    def do_vds(self, ci):
        from karabo_data import H5File
        c = self.colls[ci]
        s, k = self.some_key(ci)
        sn, kn = self.names(s, k)
        self.nwritten += 1
        path = os.path.join(self.dir, 'vds-%d.h5' % self.nwritten)
        given = self.r.random() < 0.6

        def fn():
            ds = c.get_virtual_dataset(sn, kn, filename=path) if given \
                else c.get_virtual_dataset(sn, kn)
            p = ds.file.filename
            if given and os.path.abspath(p) != os.path.abspath(path):
                raise Bad('written elsewhere')
            a = dict(arr(ds[()]), k='arr')
            if not ds.is_virtual:
                raise Bad('not virtual')
            ds.file.close()
            valid, meta = self.check_written(p)
            return valid, meta, H5File(p), a

        def obs(x):
            return {'k': 'write', 'valid': x[0], 'meta': x[1], 'sum': self.summary(x[2]),
                    'arr': x[3]}
        res = self.rec('vds', fn, obs, c=ci + 1, s=s, k=k)
        if res is not None:
            self.colls.append(res[2])
            self.info.append({'written': True})

    def scenario(self):
        files = [{'tids': f['tids'], 'src': f['src']} for f in self.g.files]
        defs = [{'c': d['c'], 'cat': d['cat'], 'ng': d['ng'], 'det': d['det'],
                 'keys': [{x: k[x] for x in ('c', 'g', 'dt', 'shape', 'esz', 'ts', 'pid')}
                          for k in d['keys']]} for d in self.defs]
        return {'defs': defs, 'files': files, 'ev': self.ev}

    def describe(self):
        return {'sources': {d['name']: [k['name'] for k in d['keys']] for d in self.defs},
                'files': [{'name': f['name'], 'tids': f['tids'], 'opt': f['opt'],
                           'sources': [d['name'] for d, s in zip(self.defs, f['src']) if s['has']]}
                          for f in self.g.files], 'base': self.base}

    def decode_seln(self, enc):
        if enc['kind'] == 'list':
            return ([tuple(p) for p in enc['txt']],), enc
        d = {}
        for it in enc['d']:
            df = self.defs[it['s'] - 1]
            d[df['name']] = {df['keys'][k - 1]['name'] for k in it['ks']}
        return (d,), enc

    def decode_rng(self, enc):
        from karabo_data import by_id, by_index
        sl = lambda f: slice(*(None if enc[x] == -999999 else f(x) for x in ('a', 'b', 'st')))
        if enc['kind'] == 'idslice':
            return by_id[sl(lambda x: enc[x] if x == 'st' else self.base + enc[x])], enc
        if enc['kind'] == 'ixslice':
            return by_index[sl(lambda x: enc[x])], enc
        if enc['kind'] == 'idlist':
            return by_id[[self.base + t for t in enc['l']]], enc
        return by_index[list(enc['l'])], enc

    def close(self):
        for c in self.colls:
            for f in c.files:
                try:
                    f.close()
                except Exception:
                    pass
        shutil.rmtree(self.dir, ignore_errors=True)


class TookTooLong(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def stop(*a):
        raise TookTooLong
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def open_fds(paths):
    paths = {os.path.realpath(p) for p in paths}
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) in paths:
                n += 1
        except OSError:
            pass
    return n


def mutate_glob(r, name):
    """a pattern likely to match `name`"""
    x = r.random()
    if x < 0.25:
        return name
    if x < 0.33:
        return '*'
    q = list(name)
    for _ in range(r.choice([1, 1, 2])):
        if not q:
            break
        i = r.randrange(len(q))
        m = r.random()
        if m < 0.45:
            j = min(len(q), i + r.randint(1, 8))
            q[i:j] = ['*']
        elif m < 0.6:
            q[i] = '?'
        elif m < 0.72 and q[i].isalnum():
            q[i] = '[%s]' % ''.join(r.sample('ABab01', 2) + [q[i]])
        elif m < 0.8 and q[i].isdigit():
            q[i] = '[0-9]'
        elif m < 0.86:
            q[i] = '[!%s]' % r.choice('xyz09')
        elif m < 0.9:
            q[i] = q[i].swapcase()
        elif m < 0.95:
            q = q[:i] + ['*']
        else:
            q = ['*'] + q[i:]
    return ''.join(q)


SCRIBBLE = ('train', 'train_ix', 'trains', 'array', 'dask', 'series', 'frame')


def scribble(x):
    if isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif hasattr(x, 'values') and not isinstance(x, np.ndarray):
        scribble(x.values)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.size:
        try:
            x[...] = b'scribble' if x.dtype.kind in 'OS' else ~x if x.dtype.kind == 'b' else x + 1
        except Exception:
            pass


def spoil(x):
    if isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, set):
        x.clear()
        x.add('spoilt')
    elif isinstance(x, np.ndarray):
        x[...] = 0
    elif hasattr(x, 'value') and type(x).__module__.startswith('karabo_data'):
        spoil(x.value)


# calls which are not repeated by 'again' (they make files or change the disk)
NOREPEAT = ('open', 'write', 'vwrite', 'vds', 'with', 'lazy')


def fingerprint(x):
    """something which changes when an argument is modified"""
    if isinstance(x, np.ndarray):
        return ['nd', x.dtype.str, x.tolist()]
    if isinstance(x, dict):
        return ['d'] + [[k, fingerprint(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ['s'] + sorted(x)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [fingerprint(v) for v in x]
    if hasattr(x, 'value') and type(x).__module__.startswith('karabo_data'):
        return [type(x).__name__, fingerprint(x.value)]
    return repr(x)


OPS = {'select': lambda s, i: s.do_select(i), 'deselect': lambda s, i: s.do_select(i, 'deselect'),
       'trange': lambda s, i: s.do_trange(i), 'train': lambda s, i: s.do_train(i),
       'trains': lambda s, i: s.do_trains(i), 'array': lambda s, i: s.do_array(i),
       'dask': lambda s, i: s.do_array(i, True), 'series': lambda s, i: s.do_series(i),
       'counts': lambda s, i: s.do_counts(i), 'frame': lambda s, i: s.do_frame(i),
       'info': lambda s, i: s.do_info(i), 'tinfo': lambda s, i: s.do_tinfo(i),
       'dinfo': lambda s, i: s.do_dinfo(i), 'observe': lambda s, i: s.do_observe(i),
       'union': lambda s, i: s.do_union([i] + [s.pick() for _ in range(s.r.choice([1, 1, 2]))]),
       'with': lambda s, i: s.do_with(i), 'cross': lambda s, i: s.do_cross(i), 'again': lambda s, i: s.do_again(i), 'write': lambda s, i: s.do_write(i, False),
       'vwrite': lambda s, i: s.do_write(i, True), 'vds': lambda s, i: s.do_vds(i)}


def run_random(job, root, progress):
    out = []
    for n in range(job['lo'], job['hi']):
        rng = gen.rng_for(job['seed'], job['tag'], n)
        prof = dict(job.get('profile') or {}, types=rng.choice([0, 0, .3]))
        if job.get('profiles'):
            prof.update(rng.choice(job['profiles']))
        g = gen.RunGen(rng, prof)
        g.make_defs()
        s = Sess(rng, g, rng.choice(gen.BASES), root)
        nruns = prof.get('nruns', rng.choice([1, 1, 2]))
        groups = []
        t0 = 1
        for q in range(nruns):
            only = None
            if q and rng.random() < 0.5:
                only = rng.sample(range(len(g.defs)), rng.randint(1, len(g.defs)))
            # files of different runs may have the same names
            grp = g.make_run(q + 1 if rng.random() < .7 else 1, tmin=t0, only=only)
            for f in grp:
                s.put(f, 'r%04d' % (q + 1))
            groups.append(grp)
            if rng.random() < prof.get('later', 0.7):   # next run usually later in time
                t0 = max([t0] + [t for f in grp for t in f['tids']]) + rng.randint(1, 3)
        for grp in groups:
            s.do_open(grp, rng.choice(['dir', 'dir', 'paths', 'file']))
        ops, w = zip(*job['ops'].items())
        for _ in range(job['depth']):
            if not s.colls:
                break
            op = rng.choices(ops, w)[0]
            progress('%d %s' % (n, op))
            if op == 'union':
                pool = [i for i, x in enumerate(s.info) if not x['written']]
                k = min(len(pool), rng.choice([1, 2, 2, 3]))
                s.do_union([rng.choice(pool) for _ in range(max(1, k))])
            else:
                # prefer recent collections, so that operations build on each other
                i = s.pick() if rng.random() < 0.5 else len(s.colls) - 1 - min(
                    len(s.colls) - 1, int(rng.expovariate(1)))
                OPS[op](s, i)
        if rng.random() < job.get('final', 0):
            for i in range(len(s.colls)):
                s.do_observe(i)
        out.append({'sc': s.scenario(), 'info': s.describe(), 'n': n})
        s.close()
    return out


def run_huge(job, root):
    """entries of more than 2 GB (nothing is stored: all elements are zero)"""
    out = []
    for n in range(job['lo'], job['hi']):
        rng = gen.rng_for(job['seed'], 'huge', n)
        g = gen.RunGen(rng, {'nctrl': (0, 0), 'ninst': (1, 1), 'legacy': 0})
        g.make_defs()
        shape = rng.choice([[17000, 16000], [300, 1000, 1000], [280000000], [2, 3, 4]])
        d = g.defs[0]
        d['keys'].append(g.key('huge.frames', d['ng'] + 1, 'float64', shape))
        d['gnames'].append('huge')
        d['ng'] += 1
        s = Sess(rng, g, gen.BASES[0], root)
        nf = rng.choice([1, 2])
        t = 1
        for q in range(nf):
            tids = list(range(t, t + rng.randint(1, 3)))
            t = tids[-1] + 1
            src = g.file_src(d, len(tids), 3)
            kf = src['keys'][-1]
            ix = src['idx'][-1]
            if not q and not any(ix['count']):
                ix['count'][0] = 1
                ix['first'] = [0] + [1] * (len(tids) - 1)
            total = sum(ix['count'])
            src['keys'][-1] = dict(kf, a=0, b=0, m=1, vals=[], n=0, pad=0)
            f = g.add_file('RAW-R0001-DA01-S%05d.h5' % q, tids, {0: src})
            s.put(f, 'r0001')
            with h5py.File(f['path'], 'r+') as h:
                p = 'INSTRUMENT/%s/huge/frames' % d['name']
                del h[p]
                h.create_dataset(p, shape=[max(total, 1)] + shape, dtype='f8',
                                 chunks=tuple([1] + [min(m, 100) for m in shape]))
            src['keys'][-1]['n'] = total
        s.do_open(g.files, 'dir')
        for _ in range(rng.choice([0, 0, 1])):
            s.do_trange(0)
        for i in range(len(s.colls)):
            s.do_lazy(i, 1, len(d['keys']))
        out.append({'sc': s.scenario(), 'info': s.describe(), 'n': n})
        s.close()
    return out


def run_given(job, root):
    """Histories generated by MCCollections.tla, then a battery of reads"""
    import universe
    out = []
    for n, hist in enumerate(job['hists']):
        rng = gen.rng_for(job['seed'], job['tag'], n)
        g, groups, u = universe.build(job['seed'])
        s = Sess(rng, g, gen.BASES[n % len(gen.BASES)], root)
        for i, grp in enumerate(groups):
            for f in grp:
                s.put(f, 'r%04d' % (i + 1))
        for grp in groups:
            s.do_open(grp, 'dir')
        for e in hist:
            ci = e['c'] - 1
            if ci >= len(s.colls):
                break       # the code and the model disagree: TLC reports it
            if e['op'] == 'trange':
                s.do_trange(ci, s.decode_rng(u['ranges'][e['i'] - 1]))
            elif e['op'] == 'union':
                if e['i'] > len(s.colls):
                    break
                s.do_union([ci, e['i'] - 1])
            else:
                s.do_select(ci, e['op'], s.decode_seln(u['selns'][e['i'] - 1]))
        last = len(s.colls) - 1
        for op in job['battery']:
            OPS[op](s, last if rng.random() < 0.8 else s.pick())
        if rng.random() < job.get('final', 0):
            for i in range(len(s.colls)):
                s.do_observe(i)
        out.append({'sc': s.scenario(), 'info': {'hist': hist}, 'n': n})
        s.close()
    return out


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    root = tempfile.mkdtemp(prefix='rd-')
    out = run_given(job, root) if 'hists' in job else run_huge(job, root) if job.get('huge') else run_random(job, root, lambda m: None)
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
