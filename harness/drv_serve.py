"""Serves runs with serve_files() or its command line, and receives them."""
import contextlib
import io
import json
import os
# a process forked by one thread would hold the locks of files which others write
os.environ['HDF5_USE_FILE_LOCKING'] = 'FALSE'
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import msgpack
import numpy as np
import zmq

import gen
from drv_reader import Sess, mutate_glob
from drv_stream import free_port
from norm import exc

import karabo_data
from karabo_data import export

LONG = float(os.environ.get('LONG', 20))
hung = []
CLI = 'import sys; from karabo_data.export import main; main(sys.argv[1:])'


def unpack(b):
    return msgpack.unpackb(b, raw=False, strict_map_key=False)


def plain(v):
    """a value of protocol 1.0"""
    if isinstance(v, dict) and b'nd' in v:
        if v[b'nd']:
            return np.frombuffer(v[b'data'], v[b'type']).reshape(v[b'shape'])
        return np.frombuffer(v[b'data'], v[b'type'])[0]
    return v


def decode(msg):
    data = {}
    if len(msg) == 1:
        for s, d in unpack(msg[0]).items():
            meta = {k: plain(v) for k, v in d.get('metadata', {}).items()}
            data[s] = {k: plain(v) for k, v in d.items() if k != 'metadata'}
            data[s]['metadata'] = meta
    else:
        for h, p in zip(*[iter(msg)] * 2):
            h = unpack(h)
            if h['content'] == 'msgpack':
                data[h['source']] = dict(unpack(p), metadata=h['metadata'])
            else:
                data[h['source']][h['path']] = np.frombuffer(p, h['dtype']).reshape(h['shape'])
    tid = {int(d['metadata']['timestamp.tid']) for d in data.values()}
    if len(tid) != 1:
        raise ValueError('different train IDs in one message')
    return tid.pop(), data


class Receiver(threading.Thread):
    def __init__(self, port, ended, rng):
        super().__init__(daemon=True)
        self.port, self.ended = port, ended
        self.delay = rng.choice([0, 0, 0, .01, .05])
        self.wait = rng.choice([0, 0, .05, .3])
        self.msgs = []

    def run(self):
        time.sleep(self.wait)
        ctx = zmq.Context()
        sock = ctx.socket(zmq.REQ)
        sock.setsockopt(zmq.LINGER, 0)
        sock.connect('tcp://127.0.0.1:%d' % self.port)
        while not self.ended.is_set():
            sock.send(b'next')
            while True:
                fin = self.ended.is_set()
                # what was sent before the server ended has to come
                if sock.poll(1200 if fin else 20):
                    self.msgs.append(sock.recv_multipart())
                    break
                if fin:
                    break
            time.sleep(self.delay)
        sock.close()
        ctx.term()


def serve(s, r, port):
    """one served run"""
    g = s.g
    grp = [f for f in g.files]
    if r.random() < .25:
        f = r.choice(grp)
        fs, how, path = [g.files.index(f) + 1], 'file', f['path']
    else:
        fs, how, path = list(range(1, len(grp) + 1)), 'dir', os.path.dirname(grp[0]['path'])
    sg = '*' if r.random() < .4 else mutate_glob(r, r.choice(s.defs)['name'])
    kg = '*'
    if r.random() < .5:
        kn = r.choice(r.choice(s.defs)['keys'])['name']
        if kn.endswith('.value') and r.random() < .5:
            kn = kn[:-6]
        kg = mutate_glob(r, kn)
    e = dict(op='serve', fs=fs, how=how, seln={'kind': 'list', 'txt': [[sg, kg]],
             'pats': [{'s': gen.codes(sg), 'k': gen.codes(kg)}]})
    ended = threading.Event()
    res = {}
    way = r.choice(['call', 'call', 'cli', 'cli', 'process'] if r.random() < .4 else ['call', 'cli'])
    kw = {}
    if way == 'call':
        kw = r.choice([{}, {'maxlen': r.choice([1, 2, 10])}, {'protocol_version': '1.0'},
                       {'protocol_version': '1.0', 'maxlen': 2}, {'dummy_timestamps': True},
                       {'maxlen': 1, 'protocol_version': '2.2'}])
    args = [path, str(port)]
    for opt, v in (('--source', sg), ('--key', kg)):
        if v != '*' or r.random() < .4:
            args += r.choice([[opt, v], [opt + '=' + v]])
    if r.random() < .3 and not any(v.startswith('-') for v in args[2:]):
        args = args[2:] + args[:2]
    e['way'] = way
    e['kw'] = kw

    def run():
        try:
            if way == 'call':
                r.choice([karabo_data, export]).serve_files(path, r.choice([port, str(port)]), sg, kg, **kw)
            elif way == 'cli':
                export.main(args)
            else:
                p = subprocess.run([sys.executable, '-c', CLI] + args, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
                if p.returncode:
                    last = p.stderr.decode().strip().split('\n')[-1].split(':')[0].split('.')[-1]
                    res['exc'] = {'k': 'exc', 't': [last, 'Exception'], 'm': p.stderr.decode()[-300:]}
        except BaseException as x:
            res['exc'] = exc(x)
        res['done'] = 1
        ended.set()
    cl = [Receiver(port, ended, r) for _ in range(r.choice([1, 1, 1, 2]))]
    t = threading.Thread(target=run, daemon=True)
    if r.random() < .3:
        cl[0].start()
        t.start()
    else:
        t.start()
        cl[0].start()
    for c in cl[1:]:
        c.start()
    # as long as there is progress, wait
    seen, at = -1, time.monotonic()
    while not ended.wait(.02):
        n = sum(len(c.msgs) for c in cl)
        if n != seen:
            seen, at = n, time.monotonic()
        # a new process takes long to start on a busy machine
        if time.monotonic() > at + LONG * (4 if way == 'process' and n == 0 else 1):
            res['hang'] = 1
            hung.append(1)
            break
    ended.set()
    for c in cl:
        c.join(LONG)
    if 'exc' in res:
        e['obs'] = res['exc']
    elif 'hang' in res:
        e['obs'] = {'k': 'hang', 't': ['%d messages came' % seen]}
    else:
        try:
            e['obs'] = {'k': 'served', 'parts': [[s.train_obs(decode(m)) for m in c.msgs] for c in cl]}
        except Exception as x:
            e['obs'] = exc(x)
    s.ev.append(e)


def one(job, n, slot, root):
    if len(hung) >= 3:
        return None
    rng = gen.rng_for(job['seed'], job['tag'], n)
    prof = dict(rng.choice(job['profiles']))
    g = gen.RunGen(rng, prof)
    g.make_defs()
    s = Sess(rng, g, rng.choice([b for b in gen.BASES if b > 0]), root)
    for f in g.make_run(1, tmin=1, only=None):
        s.put(f, 'r0001')
    for _ in range(job['depth']):
        serve(s, rng, free_port(job['port'] + slot * 20, 20))
    out = {'sc': s.scenario(), 'info': s.describe(), 'n': n}
    s.close()
    return out


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    root = tempfile.mkdtemp(prefix='sv-')
    slots = queue.Queue()
    K = job.get('threads', 6)
    for i in range(K):
        slots.put(i)

    def go(n):
        slot = slots.get()
        try:
            return one(job, n, slot, root)
        finally:
            slots.put(slot)
    with ThreadPoolExecutor(K) as ex, contextlib.redirect_stdout(io.StringIO()):
        out = [x for x in ex.map(go, range(job['lo'], job['hi'])) if x]
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    shutil.rmtree(root, ignore_errors=True)
    os._exit(0)


if __name__ == '__main__':
    main()
