"""Makes sound and broken files and runs and asks the validator about them."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np

import gen
from norm import exc

from karabo_data import H5File, validation
from karabo_data.validation import FileValidator, RunValidator, ValidationError

CAP = 10 ** 6


def cap(a, base=0):
    return [min(max(int(x) - (base if x else 0), -CAP), CAP) for x in np.asarray(a).ravel().tolist()]


# -- damage to a file, by path; returns a word or None if not applicable --------

def tid_damage(r, h):
    ds = h['INDEX/trainId']
    a = ds[:]
    n = int((a != 0).sum())
    k = r.choice(['dup', 'swap', 'zero', 'small', 'pad', 'rev', 'equal_last'])
    if k == 'dup' and n > 1:
        i = r.randrange(n - 1)
        a[i + 1] = a[i]
    elif k == 'equal_last' and n > 1:
        a[n - 1] = a[n - 2]
    elif k == 'swap' and n > 1:
        i = r.randrange(n - 1)
        a[i], a[i + 1] = a[i + 1], a[i]
    elif k == 'zero' and n > 1:
        a[r.randrange(n - 1)] = 0
    elif k == 'small' and n > 1:
        a[r.randrange(1, n)] = 1 + a[0] - r.choice([1, 1, 2])
    elif k == 'rev' and n > 1:
        a[:n] = a[:n][::-1].copy()
    elif k == 'pad':
        a = np.concatenate([a, np.zeros(r.randint(1, 3), 'u8')])
    else:
        return None
    rewrite(h, 'INDEX/trainId', a)
    return 'tid_' + k


def rewrite(h, path, a):
    del h[path]
    h.create_dataset(path, data=a)


def index_damage(r, h, src, group, dsets):
    p = 'INDEX/%s/%s' % (src, group)
    ix = h[p]
    n = int((h['INDEX/trainId'][:] != 0).sum())
    legacy = 'last' in ix
    k = r.choice(['first', 'first', 'count', 'count', 'shift', 'huge', 'nofirst', 'nocount', 'noindex',
                  'short', 'short1', 'long', 'two_d', 'zero_count', 'drop_train', 'wrap', 'shrink',
                  'shrink', 'shrink1', 'grow', 'nodata', 'nosource', 'gap', 'overlap', 'zero_first',
                  'backwards'])
    second = 'last' if legacy else 'count'
    f, c = ix['first'][:], ix[second][:]
    if k in ('first', 'count', 'shift', 'huge', 'gap', 'overlap', 'zero_count', 'drop_train', 'zero_first',
             'wrap', 'backwards') and n == 0:
        return None
    i = r.randrange(n) if n else 0
    if k == 'first':
        f[i] = max(0, int(f[i]) + r.choice([-2, -1, 1, 1, 2]))
    elif k == 'count':
        c[i] = max(0, int(c[i]) + r.choice([-2, -1, 1, 1, 2]))
    elif k == 'shift':
        d = r.choice([1, 2])
        f[:n] += np.uint64(d)
        if legacy:
            c[:n] += np.uint64(d)
        for x in dsets:      # enough data for it
            a = h[x][()]
            rewrite(h, x, np.concatenate([a, a, a, np.zeros((5,) + a.shape[1:], a.dtype)]))
    elif k == 'huge':
        r.choice([f, c])[i] = r.choice([2 ** 31, 2 ** 32 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 1000])
    elif k == 'wrap' and n > 1 and not legacy and min(len(f), len(c)) >= n:
        f[:n], c[:n] = 0, 0
        j = r.randrange(n - 1)
        f[j + 1] = 1
        f[:j + 1] = 0
        c[j] = 1
        c[j + 1] = 2 ** 64 - 1
    elif k == 'backwards' and legacy and n > 1:
        # a train ends before it starts; the others fit together
        st = ix['status'][:]
        st[:n] = 1
        f[:n] = np.arange(n)
        c[:n] = f[:n]
        j = r.randrange(n - 1)
        if j + 1 < n:
            f[j + 1] = j + 1
            c[j + 1] = max(0, j - 1)
            f[j + 2:n] -= np.uint64(1 if j else 0)
            c[j + 2:n] -= np.uint64(1 if j else 0)
        rewrite(h, p + '/status', st)
    elif k == 'gap':
        f[i:n] += np.uint64(1)
        if legacy:
            c[i:n] += np.uint64(1)
        for x in dsets:
            a = h[x][()]
            rewrite(h, x, np.concatenate([a, np.zeros((1,) + a.shape[1:], a.dtype)]))
    elif k == 'overlap':
        if f[i] == 0:
            return None
        f[i:n] -= np.uint64(1)
        if legacy:
            c[i:n] -= np.uint64(1)
    elif k == 'zero_count':
        if legacy:
            st = ix['status'][:]
            st[i] = 0
            rewrite(h, p + '/status', st)
        else:
            c[i] = 0
    elif k == 'drop_train':
        f[i] = 0
        c[i] = 0
    elif k == 'zero_first':
        z = (ix['status'][:n] if legacy else c[:n]) == 0
        if not z.any():
            return None
        f[:n][z] = r.choice([0, 0, 7])
        if legacy:
            c[:n][z] = f[:n][z]
    elif k == 'nofirst':
        del h[p + '/first']
        return k
    elif k == 'nocount':
        del h[p + '/' + (r.choice(['last', 'status']) if legacy else 'count')]
        return k
    elif k == 'noindex':
        del h[p]
        return k
    elif k in ('short', 'short1'):
        if n < 1:
            return None
        m = n - 1 if k == 'short1' else r.randrange(n)
        if r.random() < 0.5 or legacy:
            f = f[:m]
        if r.random() < 0.5 or f.size != m or legacy:
            c = c[:m]
    elif k == 'long':
        z = np.zeros(r.randint(1, 3), 'u8')
        f = np.concatenate([f, z])
        c = np.concatenate([c, z])
        if legacy:
            rewrite(h, p + '/status', np.concatenate([ix['status'][:], z]))
    elif k == 'two_d' and not legacy:
        sh = r.choice([(-1, 1), (1, -1)])
        x = r.randrange(3)
        if x != 1:
            f = f.reshape(sh)
        if x != 0:
            c = c.reshape(sh)
    elif k in ('shrink', 'shrink1'):
        x = r.choice(dsets)
        a = h[x][()]
        if not len(a):
            return None
        rewrite(h, x, a[:-1 if k == 'shrink1' else -r.randint(1, len(a))])
        return k
    elif k == 'grow':
        x = r.choice(dsets)
        a = h[x][()]
        rewrite(h, x, np.concatenate([a, np.zeros((r.randint(1, 3),) + a.shape[1:], a.dtype)]))
        return k
    elif k == 'nodata':
        del h['INSTRUMENT/%s/%s' % (src, group)]
        return k
    elif k == 'nosource':
        del h['INSTRUMENT/' + src]
        return k
    else:
        return None
    rewrite(h, p + '/first', f)
    rewrite(h, p + '/' + second, c)
    return k


def unusable(r, path, f):
    k = r.choice(['empty', 'garbage', 'trunc', 'nometa', 'notids', 'category', 'nolist', 'dir', 'badversion'])
    if k == 'empty':
        open(path, 'w').close()
    elif k == 'garbage':
        with open(path, 'wb') as h:
            h.write(bytes(r.randrange(256) for _ in range(300)))
    elif k == 'trunc':
        os.truncate(path, os.path.getsize(path) // 2)
    elif k == 'dir':
        os.unlink(path)
        os.mkdir(path)
    else:
        with h5py.File(path, 'r+') as h:
            if k == 'nometa':
                del h['METADATA']
            elif k == 'notids':
                del h['INDEX/trainId']
            elif k == 'nolist':
                del h['METADATA' + ('/dataSources' if f['opt']['v1'] else '') + '/dataSourceId']
            elif k == 'badversion':
                if 'dataFormatVersion' in h['METADATA']:
                    del h['METADATA/dataSources']
                else:
                    h['METADATA/dataFormatVersion'] = np.array([b'1.0'])
            else:
                d = h['METADATA' + ('/dataSources' if f['opt']['v1'] else '') + '/dataSourceId']
                d.resize((d.shape[0] + 1,))
                d[-1] = r.choice(['OTHER/A/B/C', 'noslash', 'RUN/A/B/C', 'control/A/B/C'])
    return k


def describe(path, defs, f, base, opens):
    """what is in the file, found with h5py alone"""
    res = {'open': int(opens), 'raw': [], 'srcs': [], 'all': []}
    if not opens:
        return res
    with h5py.File(path, 'r') as h:
        res['raw'] = cap(h['INDEX/trainId'][:], base - 100)
        for d, fs in zip(defs, f['src']):
            if not fs['has']:
                continue
            res['all'].append({'name': d['name'], 'cat': d['cat']})
            if d['cat'] != 'I':
                continue
            s = {'name': d['name'], 'data': int('INSTRUMENT/' + d['name'] in h), 'groups': []}
            res['srcs'].append(s)
            if not s['data']:
                continue
            groups = {}

            def visit(name, obj):
                if isinstance(obj, h5py.Dataset):
                    groups.setdefault(name.split('/')[0], []).append(obj.shape[0])
            h['INSTRUMENT/' + d['name']].visititems(visit)
            for g, lens in sorted(groups.items()):
                x = {'form': 'none', 'first': [], 'count': [], 'last': [], 'status': [],
                     'shFirst': [], 'shCount': [], 'lens': lens}
                s['groups'].append(x)
                p = 'INDEX/%s/%s' % (d['name'], g)
                if p in h:
                    ix = h[p]
                    if 'first' in ix and 'count' in ix:
                        x.update(form='fc', first=cap(ix['first'][:]), count=cap(ix['count'][:]),
                                 shFirst=list(ix['first'].shape), shCount=list(ix['count'].shape))
                    elif 'first' in ix and 'last' in ix and 'status' in ix:
                        x.update(form='fls', first=cap(ix['first'][:]), last=cap(ix['last'][:]),
                                 status=cap(ix['status'][:]), shFirst=list(ix['first'].shape))
            if not groups:
                s['data'] = -1       # neither here nor there
    return res


def problems(ps, names):
    res = []
    for p in ps:
        text = ' '.join(str(v) for v in p.values())
        hit = [i for i, n in enumerate(names, 1) if n in text]
        res.append({'f': hit[0] if len(hit) == 1 else 0, 'n': len(hit), 'msg': str(p.get('msg'))[:80]})
    return {'k': 'problems', 'problems': res}


def call(f):
    try:
        return f()
    except Exception as e:
        return exc(e)


def as_validate(make):
    def run():
        try:
            make().validate()
        except ValidationError as e:
            str(e)
            return {'k': 'status', 'status': 1}
        return {'k': 'status', 'status': 0}
    return run


def as_main(path):
    def run():
        old = sys.argv
        try:
            sys.argv = ['karabo-data-validate', path]
            rv = validation.main() if len(path) % 2 else validation.main([path])
            st = 0 if rv is None or rv == 0 else 1
        except SystemExit as e:
            st = 0 if e.code in (None, 0) else 1
        except Exception:
            st = 2
        finally:
            sys.argv = old
        return {'k': 'status', 'status': st}
    return run


def scenario(job, n, top):
    r = gen.rng_for(job['seed'], job['tag'], 'valid', n)
    base = r.choice(gen.BASES)
    single = r.random() < 0.6
    g = gen.RunGen(r, dict(nctrl=(0, 2), ninst=(1, 3), trains=(1, 6), nseq=(1, 1) if single else (1, 2),
                           legacy=0.35, emptyfile=0.1))
    g.make_defs()
    recs = g.make_run(450)
    d = os.path.join(top, r.choice(['r0450', 'r0450', 'run [a]', 'x?*']))
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    info = []
    if single:
        recs = recs[:1]
    elif r.random() < 0.25:       # two files with the same source
        f = r.choice(recs)
        tl = [t + r.choice([0, 0, 1, 50]) for t in f['tids']] if r.random() < 0.6 else [60, 61]
        tl = sorted(set(tl))
        use = {i: g.file_src(g.defs[i], len(tl), 2) for i, s in enumerate(f['src']) if s['has']}
        if len(use) > 1 and r.random() < 0.5:
            use.popitem()
        recs.append(g.add_file('CORR-R0450-DA77-S00000.h5', tl, use))
        info.append('twice')
    files = []
    for f in recs:
        path = os.path.join(d, f['name'])
        gen.write_file(path, g.defs, f, base)
        opens = True
        x = r.random()
        if job.get('ix') or x < 0.3:
            pass
        elif x < (0.32 if single else 0.45):
            info.append(unusable(r, path, f))
            opens = False
        else:
            with h5py.File(path, 'r+') as h:
                for _ in range(r.choice([1, 1, 1, 2])):
                    if r.random() < 0.2:
                        w = tid_damage(r, h)
                    else:
                        cand = [(s['name'], gn) for s, fs in zip(g.defs, f['src'])
                                if fs['has'] and s['cat'] == 'I' for gn in s['gnames']]
                        if not cand:
                            continue
                        s, gn = r.choice(cand)
                        if 'INSTRUMENT/%s/%s' % (s, gn) not in h:
                            continue
                        ds = []
                        h['INSTRUMENT/%s/%s' % (s, gn)].visititems(
                            lambda nm, o: ds.append('INSTRUMENT/%s/%s/%s' % (s, gn, nm))
                            if isinstance(o, h5py.Dataset) else None)
                        try:
                            w = index_damage(r, h, s, gn, ds)
                        except (KeyError, IndexError, ValueError):
                            w = None       # already damaged beyond that
                    if w:
                        info.append(w)
        files.append(describe(path, g.defs, f, base, opens))
    for f in files:
        for s in f['srcs']:
            if s['data'] < 0:
                s['data'] = 0
    names = [f['name'] for f in recs]
    sc = {'files': files, 'map': [], 'ev': []}
    if not single and r.random() < 0.5:
        make_map(r, d, sc, names, base, info)
    ask(r, sc, d, names, single)
    return {'sc': sc, 'n': n, 'info': info}


def make_map(r, d, sc, names, base, info):
    ents = []
    for i, (f, nm) in enumerate(zip(sc['files'], names), 1):
        if not f['open'] or r.random() < 0.2:
            continue
        st = os.stat(os.path.join(d, nm))
        m = {'f': i, 'tids': [t for t in f['raw'] if t], 'C': [s['name'] for s in f['all'] if s['cat'] == 'C'],
             'I': [s['name'] for s in f['all'] if s['cat'] == 'I'], 'fresh': 1}
        e = {'filename': nm, 'mtime': st.st_mtime, 'size': st.st_size}
        if r.random() < 0.4:
            w = r.choice(['tid-', 'tid+', 'tid~', 'C-', 'I-', 'C+', 'I+', 'swap'])
            if w == 'tid-' and m['tids']:
                m['tids'] = m['tids'][:-1]
            elif w == 'tid+':
                m['tids'] = m['tids'] + [999]
            elif w == 'tid~' and m['tids']:
                m['tids'] = [m['tids'][0] + 1] + m['tids'][1:]
            elif w[0] in 'CI' and w[1] == '-' and m[w[0]]:
                m[w[0]] = m[w[0]][1:]
            elif w[0] in 'CI' and w[1] == '+':
                m[w[0]] = m[w[0]] + ['X/Y/Z']
            elif w == 'swap':
                m['C'], m['I'] = m['I'], m['C']
            info.append('map ' + w)
        if r.random() < 0.25:
            m['fresh'] = 0
            e[r.choice(['mtime', 'size'])] += r.choice([1, -1])
        ents.append(dict(e, train_ids=[base - 100 + t for t in m['tids']], control_sources=m['C'],
                         instrument_sources=m['I']))
        sc['map'].append(m)
    with open(os.path.join(d, 'karabo_data_map.json'), 'w') as h:
        json.dump(ents, h)


def ask(r, sc, d, names, single):
    ev = sc['ev']
    if single:
        p = os.path.join(d, names[0])
        fa = None
        try:
            fa = H5File(p).files[0]
        except Exception as e:
            ev.append(dict(what='file', f=1, how='checks', obs=exc(e)))
        if fa is not None:
            v = FileValidator(fa)
            for _ in range(r.choice([1, 2])):
                ev.append(dict(what='file', f=1, how='checks', obs=call(lambda: problems(v.run_checks(), names))))
            ev.append(dict(what='file', f=1, how='validate', obs=call(as_validate(lambda: v))))
        ev.append(dict(what='file', f=1, how='main', obs=call(as_main(p))))
    else:
        v = call(lambda: RunValidator(d))
        if isinstance(v, dict):
            ev.append(dict(what='run', f=0, how='checks', obs=v))
        else:
            for _ in range(r.choice([1, 2])):
                ev.append(dict(what='run', f=0, how='checks', obs=call(lambda: problems(v.run_checks(), names))))
            ev.append(dict(what='run', f=0, how='validate', obs=call(as_validate(lambda: RunValidator(d)))))
        ev.append(dict(what='run', f=0, how='main', obs=call(as_main(d))))


def small_index(job, ix, n, top):
    """a file with exactly this index"""
    r = gen.rng_for(job['seed'], 'ix', n)
    base = r.choice(gen.BASES)
    k = {'name': 'data.x', 'g': 1, 'dt': 'int32', 'shape': [], 'esz': 1, 'ts': 0, 'pid': 0}
    defs = [{'name': 'A/B/C:out', 'cat': 'I', 'keys': [k], 'ng': 1, 'gnames': ['data']}]
    nt = len(ix['count'])
    f = {'name': 'RAW-R0001-DA01-S00000.h5', 'tids': list(range(1, nt + 1)),
         'src': [{'has': 1, 'idx': [{'first': ix['first'], 'count': ix['count']}],
                  'keys': [{'a': 1, 'b': 0, 'm': 1000, 'vals': [], 'n': ix['len'], 'pad': 0}]}],
         'opt': dict(v1=n % 2, legacy=0, tidpad=n % 3, idxpad=n % 3, srcpad=0, chunks=1)}
    path = os.path.join(top, f['name'])
    gen.write_file(path, defs, f, base)
    sc = {'files': [describe(path, defs, f, base, True)], 'map': [], 'ev': []}
    ask(r, sc, top, [f['name']], True)
    return {'sc': sc, 'n': n, 'info': ['index', ix]}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    top = tempfile.mkdtemp()
    outs = []
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            for n, ix in job.get('ixs', ()):
                outs.append(small_index(job, ix, n, top))
            for n in range(job.get('lo', 0), job.get('hi', 0)):
                outs.append(scenario(job, n, top))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    with open(sys.argv[2], 'w') as f:
        json.dump(outs, f)


if __name__ == '__main__':
    main()
