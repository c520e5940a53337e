"""Seeded generation of EuXFEL-format file sets: descriptors and HDF5 files.

The descriptor is what the specification sees; `write_file` makes the real
file from it.  Nothing here imports the code under test.
"""
import os
import random
import h5py
import numpy as np

BASES = [10000, 142844490, 1000, 2 ** 33 + 7, 2 ** 45 + 12345]

DT = {  # dtype -> modulus of the value formula (all values exactly representable)
    'uint8': 251, 'uint16': 65521, 'uint32': 1000003, 'uint64': 1000003,
    'int16': 30011, 'int32': 1000003, 'int64': 1000003,
    'float32': 1000003, 'float64': 1000003,
    # the following only where profile['types'] asks for them
    'bool': 2, 'float16': 2039, 'text': 1000003,
}
PLAIN = [k for k in DT if k not in ('bool', 'float16', 'text')]
VLEN_BYTES = h5py.special_dtype(vlen=bytes)


def codes(s):
    return [ord(c) for c in s]


def esize(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def value(kf, row, e, esz):
    if kf['vals']:
        return kf['vals'][row * esz + e]
    return (kf['b'] + kf['a'] * row + e) % kf['m']


class RunGen:
    """A set of source definitions plus files containing them."""

    def __init__(self, rng, profile=None):
        self.r = rng
        p = dict(nctrl=(1, 2), ninst=(1, 3), trains=(1, 9), nseq=(1, 3),
                 detectors=0, multi=True, series_only=False, legacy=0.2,
                 v1=0.35, maxcount=3, emptyfile=0.05)
        p.update(profile or {})
        self.p = p
        self.defs = []
        self.files = []

    # -- names -------------------------------------------------------------
    def src_name(self, cat, i):
        r = self.r
        dom = r.choice(['SA1_XTD2', 'SPB_XTD9', 'FXE_RR', 'SA3_XTD10', 'SCS'])
        typ = r.choice(['XGM', 'DOOCS', 'MDL', 'TSENS', 'IMGFEL', 'MOTOR', 'CAM'])
        mem = r.choice(['MAIN', 'DATA', 'CAMERA', 'X2TIM', 'M[1]', 'A1', 'a1', 'B_?', '\u00c9L\u03b1'])
        name = '%s/%s/%s%s' % (dom, typ, mem, r.choice(['', '_%d' % i, str(i), '-%d' % i]))
        if cat == 'I':
            name += ':' + r.choice(['output', 'daqOutput', 'network', 'xtdf', 'channel_1'])
        return name

    def ctrl_keys(self):
        r = self.r
        topics = r.sample(['beamPosition.ixPos', 'beamPosition.iyPos', 'pulseEnergy.photonFlux',
                           'temp', 'state', 'actualPosition', 'a.b.c', 'iyPos', 'value',
                           'timestampOffset', 'timestamp.low'],
                          r.randint(1, 3))
        keys = []
        for t in topics:
            shape = r.choice([[], [], [], [2], [3], [2, 2]]) if not self.p['series_only'] else []
            keys.append(self.key(t + '.value', 1, self.a_type(), shape))
            keys.append(self.key(t + '.timestamp', 1, 'uint64', []))
        if r.random() < 0.3:
            keys.append(self.key('plain', 1, 'float32', []))
        return keys

    def inst_keys(self):
        r = self.r
        groups = r.sample(['data', 'image', 'header', 'digitizers', 'd'], r.randint(1, 3))
        keys = []
        for gi, g in enumerate(groups, 1):
            names = r.sample(['pixels', 'intensityTD', 'dims', 'image.pixels', 'x.value',
                              'trigger.id', 'd', 'ch[1].raw', 'timestampHigh', 'timestamp.low'],
                             r.randint(1, 3))
            for n in names:
                shape = [] if self.p['series_only'] else \
                    r.choice([[], [], [1], [3], [2, 3], [4], [2, 1, 2]])
                keys.append(self.key(g + '.' + n, gi, self.a_type(), shape))
        return keys, len(groups)

    def a_type(self):
        r = self.r
        if self.p.get('types') and r.random() < self.p['types']:
            return r.choice(['bool', 'float16', 'text', 'text:S9', 'int32:>i4', 'float64:>f8', 'uint16:>u2'])
        return r.choice(PLAIN)

    def key(self, name, g, dt, shape):
        dt, _, enc = dt.partition(':')
        return {'np': enc or (VLEN_BYTES if dt == 'text' else dt),'name': name, 'c': codes(name), 'g': g, 'dt': dt, 'shape': list(shape),
                'esz': esize(shape), 'ts': int(name.endswith('.timestamp')), 'pid': 0}

    def detector_def(self, det, modno, keys=None, proc=False, shape=(2, 3), agroup=True):
        name = '%s/DET/%dCH0:xtdf' % (det, modno)
        ks = []
        x = [] if proc else [1]
        if proc:
            ks.append(self.key('image.data', 1, 'float32', shape))
            ks.append(self.key('image.gain', 1, 'uint8', shape))
            ks.append(self.key('image.mask', 1, 'uint32', shape))
        else:
            ks.append(self.key('image.data', 1, 'uint16', [1] + list(shape)
                               if self.p.get('lpd') else [2] + list(shape)))
        pk = self.key('image.pulseId', 1, 'uint64', x)
        pk['pid'] = 1
        ks.append(pk)
        ks.append(self.key('image.cellId', 1, 'uint16', x))
        ks.append(self.key('image.trainId', 1, 'uint64', x))
        ng = 1
        if agroup:
            ks.append(self.key('header.pulseCount', 2, 'uint64', []))
            ng = 2
        return {'name': name, 'c': codes(name), 'cat': 'I', 'keys': ks, 'ng': ng,
                'gnames': ['image', 'header'][:ng], 'det': modno}

    def make_defs(self):
        r, p = self.r, self.p
        seen = set()

        def fresh(cat, i):
            while True:
                n = self.src_name(cat, i)
                if n not in seen:
                    seen.add(n)
                    return n
        for i in range(r.randint(*p['nctrl'])):
            n = fresh('C', i)
            self.defs.append({'name': n, 'c': codes(n), 'cat': 'C', 'keys': self.ctrl_keys(),
                              'ng': 1, 'gnames': [''], 'det': -1})
        for i in range(r.randint(*p['ninst'])):
            n = fresh('I', i)
            ks, ng = self.inst_keys()
            gn = [''] * ng
            for k in ks:
                gn[k['g'] - 1] = k['name'].split('.')[0]
            self.defs.append({'name': n, 'c': codes(n), 'cat': 'I', 'keys': ks, 'ng': ng,
                              'gnames': gn, 'det': -1})
        for d in range(p['detectors']):
            self.defs.append(self.detector_def(p.get('det', 'SPB_DET_AGIPD1M-1'), d))

    # -- files ---------------------------------------------------------------
    def make_counts(self, n, cat, maxcount):
        r = self.r
        if cat == 'C':
            return [1] * n
        mode = r.choice(['one', 'one', 'const', 'mixed', 'mixed', 'zero', 'lead0', 'trail0'])
        if maxcount <= 1:
            mode = r.choice(['one', 'sparse', 'sparse', 'zero', 'lead0', 'trail0'])
        top = max(1, maxcount)
        if mode == 'one':
            return [1] * n
        if mode == 'const':
            c = r.randint(2, max(2, top))
            return [min(c, top)] * n
        if mode == 'zero':
            return [0] * n
        if mode == 'sparse':
            return [r.randint(0, 1) for _ in range(n)]
        c = [r.randint(0, top) for _ in range(n)]
        if mode == 'lead0' and n:
            for i in range(r.randint(1, n)):
                c[i] = 0
        if mode == 'trail0' and n:
            for i in range(r.randint(1, n)):
                c[n - 1 - i] = 0
        return c

    def file_src(self, d, n, maxcount, pulse_start=0):
        r = self.r
        idx = []
        for g in range(d['ng']):
            counts = self.make_counts(n, d['cat'], maxcount)
            firsts = [sum(counts[:i]) for i in range(n)]
            idx.append({'first': firsts, 'count': counts})
        keys = []
        for k in d['keys']:
            ix = idx[k['g'] - 1]
            nrow = sum(ix['count'])
            m = DT[k['dt']]
            kf = {'a': k['esz'], 'b': r.randrange(m), 'm': m, 'vals': [], 'n': nrow,
                  'pad': r.choice([0, 0, 1, 3])}
            if k['pid']:
                kf['vals'] = self.pulse_ids(ix['count'])
            keys.append(kf)
        return {'has': 1, 'keys': keys, 'idx': idx}

    def pulse_ids(self, counts):
        res = []
        for c in counts:
            res.extend(range(0, c))
        return res

    def add_file(self, name, tids, srcs, **opt):
        """srcs: {index into defs: file_src}"""
        f = {'name': name, 'tids': list(tids),
             'src': [srcs.get(i, {'has': 0, 'keys': [], 'idx': []})
                     for i in range(len(self.defs))],
             'opt': dict(v1=int(self.r.random() < self.p['v1']),
                         legacy=int(self.r.random() < self.p['legacy']),
                         tidpad=self.r.choice([0, 0, 2]),
                         idxpad=self.r.choice([0, 0, 2]),
                         srcpad=self.r.choice([0, 0, 3]),
                         chunks=self.r.choice([0, 1]))}
        f['opt'].update(opt)
        self.files.append(f)
        return f

    def make_run(self, runno, tmin=1, kind='RAW', only=None):
        """Spread the sources over aggregators; sequence files split in time."""
        r, p = self.r, self.p
        nt = r.randint(*p['trains'])
        span = nt + r.choice([0, 0, 1, 3])
        alltids = sorted(r.sample(range(tmin, tmin + span), nt))
        srcs = list(range(len(self.defs))) if only is None else list(only)
        r.shuffle(srcs)
        naggr = r.randint(1, max(1, min(3, len(srcs))))
        aggr = [srcs[i::naggr] for i in range(naggr)]
        out = []
        for ai, ss in enumerate(aggr):
            if not ss:
                continue
            nseq = r.randint(*p['nseq'])
            cuts = sorted(r.sample(range(1, nt), min(nseq - 1, nt - 1))) if nt > 1 else []
            bounds = [0] + cuts + [nt]
            number = list(range(len(bounds) - 1))
            if r.random() < 0.3:        # names need not follow the order of trains
                r.shuffle(number)
            parts = [alltids[bounds[si]:bounds[si + 1]] for si in range(len(bounds) - 1)]
            if p.get('interleave') and r.random() < p['interleave']:
                parts = [[] for _ in parts]
                for t in alltids:
                    r.choice(parts).append(t)
            for si in range(len(bounds) - 1):
                tids = parts[si]
                # some aggregators miss some trains
                if r.random() < 0.35 and len(tids) > 1:
                    tids = sorted(r.sample(tids, r.randint(1, len(tids))))
                if r.random() < p['emptyfile']:
                    tids = []
                use = {}
                for s in ss:
                    # a source may be absent from one of the sequence files
                    if len(bounds) > 2 and r.random() < 0.12 and len(ss) > 1:
                        continue
                    use[s] = self.file_src(self.defs[s], len(tids), p['maxcount'])
                name = '%s-R%04d-%s%02d-S%05d.h5' % (
                    kind, runno, 'DA', ai + 1, number[si])
                out.append(self.add_file(name, tids, use))
        r.shuffle(out)
        return out

    def scenario(self):
        return {'defs': self.defs, 'files': self.files}


def key_array(k, kf, pad=True):
    n = kf['n']
    esz = k['esz']
    if kf['vals']:
        a = np.array(kf['vals'], dtype='i8')
        assert a.size == n * esz, (a.size, n, esz)
    else:
        a = (kf['b'] + kf['a'] * np.arange(n, dtype='i8')[:, None]
             + np.arange(esz, dtype='i8')[None, :]) % kf['m']
    a = a.reshape((n,) + tuple(k['shape']))
    npad = kf.get('pad', 0) if pad else 0
    if npad:
        a = np.concatenate([a, np.full((npad,) + a.shape[1:], 77, a.dtype)])
    if k['dt'] == 'text':
        return a.astype('S9').astype('O' if k['np'] is VLEN_BYTES else k['np'])
    return a.astype(k.get('np', k['dt']))


def write_file(path, defs, f, base):
    opt = f['opt']
    vis = f['tids']
    n = len(vis)
    with h5py.File(path, 'w') as h:
        tids = np.array([base + t for t in vis] + [0] * opt['tidpad'], dtype='u8')
        h.create_dataset('INDEX/trainId', data=tids, maxshape=(None,))
        names = []
        for d, fs in zip(defs, f['src']):
            if not fs['has']:
                continue
            sect = 'CONTROL' if d['cat'] == 'C' else 'INSTRUMENT'
            for gi, ix in enumerate(fs['idx']):
                ipath = 'INDEX/' + d['name'] + ('/' + d['gnames'][gi] if d['cat'] == 'I' else '')
                names.append(sect + '/' + ipath[6:])
                first = np.array(ix['first'] + [0] * opt['idxpad'], dtype='u8')
                count = np.array(ix['count'] + [0] * opt['idxpad'], dtype='u8')
                h.create_dataset(ipath + '/first', data=first, maxshape=(None,))
                if opt['legacy'] and len(ix['count']):
                    status = (count > 0).astype('u8')
                    # without data (status 0), first and last mean nothing
                    last = np.where(count > 0, first + count - 1, first + np.arange(len(count)) % 3).astype('u8')
                    h.create_dataset(ipath + '/last', data=last, maxshape=(None,))
                    h.create_dataset(ipath + '/status', data=status, maxshape=(None,))
                else:
                    h.create_dataset(ipath + '/count', data=count, maxshape=(None,))
            for k, kf in zip(d['keys'], fs['keys']):
                a = key_array(k, kf)
                dpath = '%s/%s/%s' % (sect, d['name'], k['name'].replace('.', '/'))
                ty = k.get('np', k['dt'])
                if opt['chunks']:
                    h.create_dataset(dpath, data=a, maxshape=(None,) + a.shape[1:], dtype=ty,
                                     chunks=(max(1, min(4, a.shape[0])),) + a.shape[1:])
                else:
                    h.create_dataset(dpath, data=a, dtype=ty)
                if d['cat'] == 'C':
                    h.create_dataset('RUN/%s/%s' % (d['name'], k['name'].replace('.', '/')),
                                     data=a[:1] if len(a) else np.zeros((1,) + a.shape[1:], 'f8'),
                                     dtype=ty if len(a) else None)
        write_metadata(h, names, opt)


def write_metadata(h, names, opt):
    N = len(names) + opt['srcpad']
    grp = 'METADATA/dataSources/' if opt['v1'] else 'METADATA/'
    for ds, vals in (('dataSourceId', names),
                     ('root', [x.split('/', 1)[0] for x in names]),
                     ('deviceId', [x.split('/', 1)[1] for x in names])):
        d = h.create_dataset(grp + ds, (N,), dtype=VLEN_BYTES, maxshape=(None,))
        if names:
            d[:len(names)] = [x.encode('utf-8') for x in vals]
    if opt['v1']:
        h.create_dataset('METADATA/dataFormatVersion',
                         data=np.array([opt.get('version', '1.0').encode()]))


def rng_for(seed, *parts):
    return random.Random('%s|%s' % (seed, '|'.join(map(str, parts))))
