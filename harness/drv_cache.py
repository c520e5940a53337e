"""Opens runs in forked processes which can be stopped, crashed and made to
fail at any point, while data files and the cached map change."""
import errno
import io
import json
import os
import random
import resource
import shutil
import sys
import tempfile
import contextlib

import numpy as np

import gen
from norm import exc, tids

import karabo_data
from karabo_data import RunDirectory, run_files_map

PKG = os.path.dirname(os.path.abspath(karabo_data.__file__))
TRACED = (PKG + os.sep, os.sep + 'json' + os.sep, os.sep + 'tempfile.py', os.sep + 'shutil.py')
MAPNAME = 'karabo_data_map.json'
ERRNOS = [errno.EACCES, errno.EPERM, errno.EROFS, errno.ENOSPC, errno.EIO, errno.EDQUOT,
          errno.ENOTDIR, errno.EMFILE, errno.EFBIG, errno.ESTALE]
NOBODY = 65534


class World:
    def __init__(self, rng, root, big=False, nfiles=None, nver=4):
        self.r = rng
        self.base = rng.choice(gen.BASES[:4])
        self.top = tempfile.mkdtemp(dir=root)
        os.chmod(self.top, 0o755)
        j = lambda *p: os.path.join(self.top, *p)
        self.rundir = j('d', 'raw', 'FXE', '201901', 'p001234', 'r0450')
        os.makedirs(self.rundir)
        os.makedirs(j('stage'))
        prop = j('exp', 'FXE', '201901', 'p001234')
        os.makedirs(prop)
        os.symlink(os.path.dirname(self.rundir), os.path.join(prop, 'raw'))
        self.scratch_root = j('exp')
        self.scratch = os.path.join(prop, 'scratch')
        self.has_scratch = rng.random() < 0.6
        if self.has_scratch:
            os.makedirs(self.scratch)
            os.chmod(self.scratch, rng.choice([0o777, 0o755]))
        self.runmode = rng.choice([0o777, 0o777, 0o755])
        os.chmod(self.rundir, self.runmode)
        self.maps = [os.path.join(self.rundir, MAPNAME),
                     os.path.join(self.scratch, '.karabo_data_maps', 'raw_r0450.json')]
        self.nfiles = nfiles or rng.randint(1, 4)
        self.names = ['%s-R0450-%s%02d-S%05d.h5' % (rng.choice(['RAW', 'CORR']), rng.choice(['DA', 'AGIPD']), i, i % 2)
                      for i in range(self.nfiles)]
        self.defs = []
        self.sid = {}
        self.versions = []      # [f, tids, C, I, ok]
        self.vpath = [None]
        self.vstat = [None]
        self.byfile = {i: [] for i in range(1, self.nfiles + 1)}
        for f in range(1, self.nfiles + 1):
            for v in range(nver):
                self.make_version(f, big and v == 0 and f == 1)
        self.disk = {f: 0 for f in self.byfile}
        self.ev = []
        self.last = [None, None]
        self.saved = []         # contents maps had at some time
        self.nproc = 0

    # -- data files -----------------------------------------------------------
    def make_version(self, f, big):
        r = self.r
        n = 900 if big else r.choice([0, 1, 2, 3, 5])
        tl = sorted(r.sample(range(1, n + 4), n))
        defs = []
        for i in range(r.randint(1, 3)):
            inst = r.random() < 0.5
            name = 'FXE_%d/MOTOR/S%d%s' % (f, i, ':out' if inst else '')
            if name not in self.sid:
                self.sid[name] = len(self.sid) + 1
            k = {'name': 'data.x' if inst else 'x.value', 'g': 1, 'dt': 'int32', 'shape': [],
                 'esz': 1, 'ts': 0, 'pid': 0}
            defs.append({'name': name, 'cat': 'I' if inst else 'C', 'keys': [k], 'ng': 1,
                         'gnames': ['data' if inst else '']})
        src = [{'has': 1, 'idx': [{'first': list(range(n)), 'count': [1] * n}],
                'keys': [{'a': 1, 'b': 1, 'm': 1000, 'vals': [], 'n': n, 'pad': 0}]} for _ in defs]
        rec = {'tids': tl, 'src': src,
               'opt': dict(v1=r.randint(0, 1), legacy=0, tidpad=r.choice([0, 3]), idxpad=0,
                           srcpad=r.choice([0, 2]), chunks=0)}
        vi = len(self.versions) + 1
        path = os.path.join(self.top, 'stage', '%d.h5' % vi)
        gen.write_file(path, defs, rec, self.base)
        ok = 1
        if r.random() < 0.08:
            ok = 0
            with open(path, 'wb') as h:
                h.write(r.choice([b'', b'not HDF5', b'\x89HDF\r\n\x1a\n' + b'\0' * 50]))
        size = os.stat(path).st_size
        if r.random() < 0.6 and size < 200000:      # often the same size as others
            size = 200000
            os.truncate(path, size)
        others = [self.vstat[v] for v in self.byfile[f]]
        while True:
            if others and r.random() < 0.35:
                mt = r.choice(others)[0]           # same time as another version
            else:
                mt = 1500000000 * 10 ** 9 + r.choice([0, 0, 0, 1, 2, 1000, -1000]) * 10 ** 9 + \
                    r.choice([0, 5, 250, 500, 999]) * 10 ** 6
            if (mt, size) not in others:
                break
        self.vpath.append(path)
        self.vstat.append((mt, size))
        self.byfile[f].append(vi)
        self.versions.append({'f': f, 'tids': tl, 'ok': ok,
                              'C': [self.sid[d['name']] for d in defs if d['cat'] == 'C'],
                              'I': [self.sid[d['name']] for d in defs if d['cat'] == 'I']})

    def put(self, f, v):
        dst = os.path.join(self.rundir, self.names[f - 1])
        if v == 0:
            if self.disk[f]:
                os.unlink(dst)
        else:
            tmp = os.path.join(self.top, 'stage', 'incoming')
            shutil.copyfile(self.vpath[v], tmp)
            os.chmod(tmp, 0o644)
            os.utime(tmp, ns=(self.vstat[v][0],) * 2)
            os.replace(tmp, dst)
        self.disk[f] = v
        self.event(op='put', f=f, v=v)

    # -- observing --------------------------------------------------------------
    def observe_maps(self):
        res = []
        for i, p in enumerate(self.maps):
            m = {'k': 'absent', 'same': 0, 'ents': []}
            raw = None
            try:
                with open(p, 'rb') as h:
                    raw = h.read()
            except FileNotFoundError:
                pass
            except OSError:
                m['k'] = 'bad'
                raw = b'?'
            if raw is not None and m['k'] != 'bad':
                m['k'], m['ents'] = self.parse_map(raw)
                if m['k'] == 'ok':
                    self.saved.append(raw)
            m['same'] = int(raw == self.last[i])
            if m['same']:
                m['ents'] = []
            self.last[i] = raw
            res.append(m)
        return res

    def parse_map(self, raw):
        try:
            data = json.loads(raw.decode())
            ents = []
            for d in data:
                f = self.names.index(d['filename']) + 1 if d['filename'] in self.names else 0
                v = 0
                for x in self.byfile.get(f, ()):
                    mt, size = self.vstat[x]
                    if size == d['size'] and mt / 1e9 == d['mtime']:
                        v = x
                ents.append({'f': f, 'v': v, 'tids': tids(d['train_ids'], self.base),
                             'C': sorted(self.sid.get(s, 0) for s in d['control_sources']),
                             'I': sorted(self.sid.get(s, 0) for s in d['instrument_sources'])})
            return 'ok', ents
        except Exception:
            return 'bad', []

    def event(self, **e):
        e['maps'] = self.observe_maps()
        e['debris'] = sum(1 for n in os.listdir(self.rundir)
                          if n.endswith('.h5') and n not in self.names)
        self.ev.append(e)

    # -- damaging the map -------------------------------------------------------
    def damage(self, kind=None):
        r = self.r
        i = 0 if not self.has_scratch or r.random() < 0.75 else 1
        p = self.maps[i]
        kind = kind or r.choice(['absent', 'garbage', 'trunc', 'empty', 'latin', 'type', 'type', 'entry',
                                 'entry', 'dir', 'dangling', 'mode', 'old', 'old', 'extra', 'nul'])
        old = self.last[i] if self.last[i] not in (None, b'?') else None
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.unlink(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if i == 1:
            os.chmod(os.path.dirname(p), r.choice([0o777, 0o755]))
        raw = None
        good = old or (self.saved[-1] if self.saved else b'[]')
        if kind == 'garbage':
            raw = bytes(r.randrange(1, 256) for _ in range(r.randint(1, 40)))
        elif kind == 'trunc':
            raw = good[:r.randint(0, max(0, len(good) - 1))]
        elif kind == 'empty':
            raw = b''
        elif kind == 'nul':
            raw = b'\0' * len(good)
        elif kind == 'latin':
            raw = good.replace(b'FXE', b'F\xe9\xff') + b'\xff'
        elif kind == 'type':
            raw = r.choice([b'{}', b'5', b'null', b'true', b'"abc"', b'[]', b'[1]', b'[null]', b'[[]]',
                            b'["filename"]', b'{"filename": "x"}', b'[{}]', b'[{"filename": 3}]'])
        elif kind == 'entry':
            data = []
            for f, v in self.disk.items():
                if v:
                    d = self.entry(v)
                    k = r.choice(list(d))
                    x = r.random()
                    if x < 0.6:
                        del d[k]
                    else:
                        d[k] = None
                    data.append(d)
            raw = json.dumps(data).encode()
        elif kind == 'old' and self.saved:
            raw = r.choice(self.saved)
        elif kind == 'extra':
            vs = [r.choice(self.byfile[f]) for f in self.byfile]
            data = [dict(self.entry(v), more='x') for v in vs if self.versions[v - 1]['ok']]
            r.shuffle(data)
            data.append({'filename': 'RAW-gone.h5', 'mtime': 0.5, 'size': 1, 'train_ids': [],
                         'control_sources': [], 'instrument_sources': []})
            raw = json.dumps(data).encode()
        elif kind == 'mode':
            raw = good
        if kind == 'dir':
            os.makedirs(p)
        elif kind == 'dangling':
            os.symlink(os.path.join(self.top, 'nowhere'), p)
        elif raw is not None:
            with open(p, 'wb') as h:
                h.write(raw)
            os.chmod(p, 0 if kind == 'mode' else r.choice([0o600, 0o644, 0o666]))
        self.event(op='setmap', kind=kind, map=i)

    def entry(self, v):
        x = self.versions[v - 1]
        names = {i: s for s, i in self.sid.items()}
        mt, size = self.vstat[v]
        return {'filename': self.names[x['f'] - 1], 'mtime': mt / 1e9, 'size': size,
                'train_ids': [self.base + t for t in x['tids']],
                'control_sources': sorted(names[i] for i in x['C']),
                'instrument_sources': sorted(names[i] for i in x['I'])}

    # -- opening runs ---------------------------------------------------------
    def summary(self, d):
        sid = lambda q: sorted(self.sid.get(s, 0) for s in q)
        fs = [{'f': self.names.index(os.path.basename(f.filename)) + 1,
               'tids': tids(f.train_ids, self.base), 'C': sid(f.control_sources),
               'I': sid(f.instrument_sources)} for f in d.files]
        return {'k': 'run', 'tids': tids(d.train_ids, self.base), 'C': sid(d.control_sources),
                'I': sid(d.instrument_sources), 'files': fs}

    def include(self):
        r = self.r
        if r.random() < 0.6:
            return '*'
        n = r.choice(self.names)
        return r.choice([n, n[:3] + '*', '*-S00000*', '*DA*', n[:-5] + '?.h5', '*' + n[10:], 'x*'])

    def path_form(self):
        r = self.r
        real = self.rundir
        link = os.path.join(self.top, 'exp', 'FXE', '201901', 'p001234', 'raw', 'r0450')
        return r.choice([('/', real), ('/', real), ('/', real + '/'), ('/', link),
                         (os.path.dirname(real), 'r0450'), (real, '.'), (real, '../r0450/')])

    def launch(self, inc, gate=False, crash=None, fault=None, nobody=False, fsize=None, count=False):
        """Fork a process opening the run; returns Child"""
        cwd, path = self.path_form()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w1)
            os.close(r2)
            return Child(pid, r1, w2)
        try:
            os.close(r1)
            os.close(w2)
            self.child(cwd, path, inc, w1, r2 if gate else None, crash, fault, nobody, fsize, count)
        except BaseException as e:    # noqa
            with contextlib.suppress(Exception):
                os.write(w1, ('R' + json.dumps(exc(e)) + '\n').encode())
        finally:
            os._exit(0)

    def child(self, cwd, path, inc, out, gate, crash, fault, nobody, fsize, count):
        os.chdir(cwd)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        run_files_map.SCRATCH_ROOT_DIR = self.scratch_root
        if nobody and NOBODY_OK[0]:
            os.setgroups([])
            os.setresgid(NOBODY, NOBODY, NOBODY)
            os.setresuid(NOBODY, NOBODY, NOBODY)
        ctl = {'fail': False, 'lines': {'map': 0, 'all': 0}, 'quota': 0}
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        sys.stdout = sys.stderr = io.StringIO()
        if gate is not None:
            os.write(out, b'G\n')
            self.obey(gate, ctl)
        if fault is not None or gate is not None:
            sys.addaudithook(self.make_hook(fault, ctl))
        tr = self.make_tracer(out, gate, crash, ctl)
        if crash is not None or gate is not None or count:
            sys.settrace(tr)
        try:
            d = RunDirectory(path, include=inc)
        except Exception as e:
            sys.settrace(None)
            obs = exc(e)
        else:
            sys.settrace(None)
            obs = self.summary(d)
        ctl['off'] = True
        obs['lines'] = ctl['lines']
        data = ('R' + json.dumps(obs) + '\n').encode()
        while data:
            data = data[os.write(out, data):]
        os._exit(0)

    def obey(self, gate, ctl):
        """wait for permission to go on: number of lines, or F (fail the next operation)"""
        buf = b''
        while not buf.endswith(b'\n'):
            c = os.read(gate, 1)
            if not c:
                os._exit(9)
            buf += c
        cmd = buf.decode().strip()
        if cmd.startswith('F'):
            ctl['fail'] = True
            cmd = cmd[1:]
        ctl['fine'] = cmd.startswith('M')
        if ctl['fine']:
            cmd = cmd[1:]
        ctl['quota'] = int(cmd)

    def make_tracer(self, out, gate, crash, ctl):
        n = ctl['lines']

        def local(frame, ev, arg):
            if ev == 'line':
                fn = frame.f_code.co_filename
                n['all'] += 1
                m = fn.endswith('run_files_map.py')
                if m:
                    n['map'] += 1
                if crash is not None and n[crash[0]] >= crash[1]:
                    os._exit(9)
                if gate is not None:
                    ctl['quota'] -= (4 if m else 1) if not ctl.get('fine') else m
                    if ctl['quota'] <= 0:
                        os.write(out, b'G\n')
                        self.obey(gate, ctl)
            return local

        def glob(frame, ev, arg):
            fn = frame.f_code.co_filename
            return local if any(t in fn for t in TRACED) else None
        return glob

    def make_hook(self, fault, ctl):
        """fault = (k, errno): the k-th file operation on a map fails"""
        state = {'n': 0}
        areas = (self.rundir, self.scratch_root)

        def hook(ev, args):
            if ctl.get('off') or ev not in OPS:
                return
            p = args[0]
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, str) or p.endswith('.h5'):
                return
            p = os.path.abspath(p)
            if ev == 'open' and not any(os.path.realpath(p).startswith(os.path.realpath(a)) for a in areas):
                return
            if os.path.realpath(p).startswith(PKG) or p.endswith(('.py', '.pyc')):
                return
            state['n'] += 1
            if (fault and state['n'] == fault[0]) or ctl['fail']:
                ctl['fail'] = False
                no = fault[1] if fault else errno.EROFS
                raise OSError(no, os.strerror(no), p)
        return hook

    def open(self, **kw):
        inc = kw.pop('inc', None) or self.include()
        note = {k: str(v) for k, v in kw.items()}
        ch = self.launch(inc, **kw)
        obs = ch.finish()
        if obs is None:
            if kw.get('crash'):
                self.event(op='crash', p=0, note=note)
                return None
            obs = {'k': 'died', 't': []}
        lines = obs.pop('lines', None)
        self.event(op='open', inc=gen.codes(inc), inctxt=inc, obs=obs, note=note)
        return lines

    def scenario(self):
        return {'names': [gen.codes(n) for n in self.names], 'versions': self.versions, 'ev': self.ev}

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


OPS = {'open', 'os.rename', 'os.remove', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate',
       'os.chmod', 'os.chown', 'os.utime', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'shutil.move',
       'shutil.copyfile'}


NOBODY_OK = [False]


def try_nobody(path):
    """can an unprivileged user look into our scratch directory?"""
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setresgid(NOBODY, NOBODY, NOBODY)
            os.setresuid(NOBODY, NOBODY, NOBODY)
            os.listdir(path)
            os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


class Child:
    def __init__(self, pid, rd, wr):
        self.pid, self.rd, self.wr = pid, rd, wr
        self.buf = b''
        self.obs = None
        self.over = False

    def line(self):
        while b'\n' not in self.buf:
            c = os.read(self.rd, 65536)
            if not c:
                return None
            self.buf += c
        a, _, self.buf = self.buf.partition(b'\n')
        return a.decode()

    def wait(self):
        """until the next gate (True) or the end (False)"""
        x = self.line()
        if x == 'G':
            return True
        self.obs = json.loads(x[1:]) if x else None
        self.reap()
        return False

    def go(self, n, fail=False, fine=False):
        """fine: n lines of run_files_map.py, however many others there are"""
        os.write(self.wr, b'%s%s%d\n' % (b'F' if fail else b'', b'M' if fine else b'', n))
        return self.wait()

    def finish(self):
        while self.wait():
            os.write(self.wr, b'1000000000\n')
        return self.obs

    def kill(self):
        os.kill(self.pid, 9)
        self.reap()

    def reap(self):
        self.over = True
        with contextlib.suppress(OSError):
            os.waitpid(self.pid, 0)
        os.close(self.rd)
        os.close(self.wr)


def sequential(rng, root, depth, faults):
    """complete opens between arbitrary changes; faults: with failures and crashes"""
    w = World(rng, root, big=faults and rng.random() < 0.35)
    for f in w.byfile:
        if rng.random() < 0.9:
            w.put(f, rng.choice(w.byfile[f]))
    lines = {'map': 60, 'all': 400}
    for _ in range(depth):
        x = rng.random()
        nobody = rng.random() < 0.3
        if x < 0.22:
            f = rng.choice(list(w.byfile))
            w.put(f, 0 if rng.random() < 0.2 else rng.choice(w.byfile[f]))
        elif x < 0.42 - 0.12 * faults:
            w.damage()
        elif faults and x < 0.6:
            region = rng.choice(['map', 'map', 'all'])
            w.open(crash=(region, rng.randint(1, max(1, lines[region]))), nobody=nobody)
        elif faults and x < 0.8:
            if rng.random() < 0.25:
                w.open(fsize=rng.choice([0, 1, 100, 4096, 9000]), nobody=nobody)
            else:
                w.open(fault=(rng.randint(1, 7), rng.choice(ERRNOS)), nobody=nobody)
        elif faults:
            n = w.open(nobody=nobody, count=True)
            if n:
                lines = {k: max(1, v) for k, v in n.items()}
        else:
            w.open(nobody=nobody)
    w.open(inc='*')
    return w


def crash_points(rng, root, count):
    """crash at many points of the same situation, checking after each"""
    w = World(rng, root, big=rng.random() < 0.6, nfiles=rng.randint(1, 3))
    for f in w.byfile:
        w.put(f, w.byfile[f][0] if f == 1 else rng.choice(w.byfile[f]))
    prior = rng.random() < 0.5
    if prior:
        w.open(inc='*')
        w.put(1, rng.choice(w.byfile[1]))
    # how many lines does it take?
    keep = {p: open(p, 'rb').read() for p in w.maps if os.path.isfile(p)}
    n = w.open(inc='*', count=True) or {'map': 60, 'all': 400}
    for i in range(count):
        for p in w.maps:      # back to the situation before
            if os.path.isfile(p):
                os.unlink(p)
            if p in keep:
                with open(p, 'wb') as h:
                    h.write(keep[p])
        w.event(op='setmap', kind='reset', map=0)
        region = rng.choice(['map', 'map', 'all'])
        w.open(inc='*', crash=(region, rng.randint(1, n[region])))
        w.open(inc='*')
    return w


def interleaved(rng, root, sched):
    """processes, changes and failures in the order of a behaviour of RunMap.tla"""
    w = World(rng, root, big=rng.random() < 0.3, nfiles=2, nver=4)
    ver = lambda f, v: 0 if v == 0 else w.byfile[f][v - 1]
    num = {'f1': 1, 'f2': 2}
    for f, v in sched[0]['disk'].items():
        w.put(num[f], ver(num[f], v))
    if rng.random() < 0.3 and any(w.disk.values()):
        w.open(inc='*')
    kids, ids = {}, {}

    def advance(p, fail=False):
        if p not in kids:
            inc = '*' if rng.random() < 0.8 else w.include()
            # the child may list the directory once it starts: from here on
            kids[p] = w.launch(inc, gate=True, nobody=rng.random() < 0.15)
            kids[p].wait()
            w.nproc += 1
            ids[p] = w.nproc
            w.event(op='begin', p=ids[p], inc=gen.codes(inc))
        k = kids[p]
        if k.over:
            return
        if not k.go(rng.choice([1, 5, 20, 60, 150, 400]), fail):
            obs = k.obs or {'k': 'died', 't': []}
            obs.pop('lines', None)
            w.event(op='end', p=ids[p], obs=obs)
        else:
            w.event(op='gate', p=ids[p])
    for e in sched[1:]:
        if e['op'] == 'change':
            w.put(num[e['f']], ver(num[e['f']], e['v']))
        elif e['op'] == 'damage':
            w.damage(rng.choice(['garbage', 'trunc', 'absent']))
        elif e['op'] == 'crash':
            if e['p'] in kids and not kids[e['p']].over:
                kids[e['p']].kill()
                w.event(op='crash', p=ids[e['p']])
        else:
            advance(e['p'], e['op'] == 'fail')
    while any(not k.over for k in kids.values()):
        advance(rng.choice([p for p, k in kids.items() if not k.over]))
    w.open(inc='*')
    return w


def race(rng, root, count):
    """Processes which all save the map, each stopped while it does so, in every order"""
    w = World(rng, root, big=rng.random() < 0.3, nfiles=rng.randint(1, 2), nver=2)
    for f in w.byfile:
        w.put(f, w.byfile[f][0])
    keep = {}
    if rng.random() < 0.3:     # a map to be replaced
        w.open(inc='*')
        w.put(1, w.byfile[1][1])
        keep = {p: open(p, 'rb').read() for p in w.maps if os.path.isfile(p)}
    n = (w.open(inc='*', count=True) or {'map': 60})['map']
    for _ in range(count):
        for p in w.maps:
            if os.path.isfile(p):
                os.unlink(p)
            if p in keep:
                with open(p, 'wb') as h:
                    h.write(keep[p])
        w.event(op='setmap', kind='reset', map=0)
        kids = {}

        def advance(i, lines):
            k = kids[i]
            if not k.go(lines, fine=True):
                obs = k.obs or {'k': 'died', 't': []}
                obs.pop('lines', None)
                w.event(op='end', p=i, obs=obs)
            else:
                w.event(op='gate', p=i)
        for _ in range(rng.choice([2, 2, 2, 3])):
            w.nproc += 1
            k = kids[w.nproc] = w.launch('*', gate=True)
            k.wait()
            w.event(op='begin', p=w.nproc, inc=gen.codes('*'))
        back = rng.choice([6, 9, 14])
        for i in kids:
            if rng.random() < 0.9:
                advance(i, max(1, n - rng.randrange(back)))
        while any(not k.over for k in kids.values()):
            i = rng.choice([i for i, k in kids.items() if not k.over])
            advance(i, rng.choice([1, 1, 2, 4, 10 ** 6]))
    w.open(inc='*')
    return w


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    root = tempfile.mkdtemp(prefix='rm-')
    os.chmod(root, 0o755)
    NOBODY_OK[0] = try_nobody(root)
    out = []
    for n in range(job['lo'], job['hi']):
        rng = gen.rng_for(job['seed'], job['tag'], job['mode'], n)
        if job['mode'] == 'seq':
            w = sequential(rng, root, 12, False)
        elif job['mode'] == 'fault':
            w = sequential(rng, root, 12, True)
        elif job['mode'] == 'crash':
            w = crash_points(rng, root, 8)
        elif job['mode'] == 'race':
            w = race(rng, root, 10)
        else:
            w = interleaved(rng, root, job['scheds'][n - job['lo']])
        out.append({'sc': w.scenario(), 'n': n,
                    'info': {'names': w.names, 'scratch': w.has_scratch, 'mode': job['mode'],
                             'runmode': oct(w.runmode)}})
        w.close()
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
