"""Feeds all kinds of data to the streaming server, records the messages."""
import json
import math
import os
import sys
import time

import msgpack
import numpy as np
import zmq

import gen
from drv_stream import free_port
from norm import exc

import karabo_data
from karabo_data import export

LONG = float(os.environ.get('LONG', 20))
NAMES = ['SA1_XTD2_XGM/DOOCS/MAIN', 'SPB_DET_AGIPD1M-1/DET/10CH0:xtdf', 'a', 'Z', 'é/ü', '', 'a/b.c']
KEYS = ['image.data', 'x.value', 'x', 'y.z', 'metadata.x', 'source', 'path', 'content', 'é', '',
        'trainId', 'timestamp']
DTYPES = ['u1', 'i1', '<u2', '<i4', '<u8', '<i8', '<f2', '<f4', '<f8', '<c8', '<c16', '?', '>i4', '>f8',
          'S3', '<U2']


def text(v):
    """the exact contents of a plain value"""
    if isinstance(v, (bool, np.bool_)):
        return 'bool:%s' % bool(v)
    if v is None:
        return 'none'
    if isinstance(v, (int, np.integer)):
        return 'int:%d' % int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return 'float:nan' if math.isnan(v) else 'float:' + v.hex()
    if isinstance(v, str):
        return 'str:' + str(v)
    if isinstance(v, (bytes, bytearray)):
        return 'bytes:' + bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return 'list:[%s]' % ','.join(text(x) for x in v)
    if isinstance(v, dict):
        return 'map:{%s}' % ','.join('%r=%s' % (k, text(v[k])) for k in sorted(v))
    raise TypeError(type(v))


def dts(d):
    """item types are the same if they mean the same"""
    return np.dtype(d).str


def value(v):
    if isinstance(v, np.ndarray):
        return {'k': 'arr', 'dt': dts(v.dtype), 'sh': list(v.shape), 'by': v.tobytes().hex()}
    return {'k': 'one', 'v': text(v)}


def mp(d, f):
    return [{'k': k, 'v': f(v)} for k, v in d.items()]


def unpack(b):
    return msgpack.unpackb(bytes(b), raw=False, strict_map_key=False)


def decode1(v):
    """a value of protocol 1.0 as recorded"""
    if isinstance(v, dict) and b'nd' in v:
        if v[b'nd']:
            return {'k': 'arr', 'dt': dts(v[b'type']), 'sh': list(v[b'shape']), 'by': v[b'data'].hex()}
        v = np.frombuffer(v[b'data'], v[b'type'])[0]
    return {'k': 'one', 'v': text(v)}


def frames(msg):
    if len(msg) % 2:
        raise ValueError('odd number of frames')
    out = []
    for h, p in zip(*[iter(msg)] * 2):
        h = unpack(h)
        if h['content'] == 'msgpack':
            out.append({'source': h['source'], 'content': 'msgpack',
                        'meta': mp(h.get('metadata', {}), text),
                        'pay': mp(unpack(p), value)})
        else:
            a = np.frombuffer(p, h['dtype'])
            a.reshape(h['shape'])
            out.append({'source': h['source'], 'content': h['content'], 'path': h['path'],
                        'dt': dts(h['dtype']), 'sh': list(h['shape']), 'pay': bytes(p).hex()})
    return out


class Gen:
    def __init__(self, r):
        self.r = r
        self.np = np.random.RandomState(r.randrange(2 ** 31))

    def array(self):
        r = self.r
        dt = np.dtype(r.choice(DTYPES))
        sh = [r.choice([0, 1, 1, 2, 3, 5]) if r.random() < .9 else 300 for _ in range(r.randint(0, 4))]
        while np.prod(sh) > 3000:
            sh.pop()
        raw = self.np.bytes(int(np.prod(sh)) * dt.itemsize) if sh else self.np.bytes(dt.itemsize)
        if dt.kind == '?' or dt.kind == 'b':
            a = (np.frombuffer(raw, 'u1') % 2).astype('?').reshape(sh)
        elif dt.kind in 'SU':
            n = int(np.prod(sh)) if sh else 1
            a = np.array(['ab', 'é' if dt.kind == 'U' else 'e', '', 'xyz'] * (n // 4 + 1))[:n]
            a = np.char.encode(a, 'ascii').astype(dt) if dt.kind == 'S' else a.astype(dt)
            a = a.reshape(sh)
        else:
            a = np.frombuffer(raw, dt).reshape(sh)
        a = a.copy()
        x = r.random()
        if a.ndim and x < .15:
            a = a[::-1]
        elif a.ndim and x < .3:
            a = np.concatenate([a, a], axis=0)[::2]
        elif x < .45:
            a = a.T
        elif x < .55:
            a = np.asfortranarray(a)
        elif x < .65:
            a = np.broadcast_to(a, (2,) + a.shape)
        elif x < .7:
            a.flags.writeable = False
        elif a.ndim >= 2 and x < .8:
            a = a[:, -1:]
        elif x < .85:
            a = a[None, ...]
        return a

    def plain(self, deep=0):
        r = self.r
        x = r.randrange(15 if deep < 2 else 10)
        if x == 0:
            return r.choice([0, 1, -1, 127, 128, -129, 2 ** 31, -2 ** 63, 2 ** 63, 2 ** 64 - 1, r.randrange(10 ** 6)])
        if x == 1:
            return r.choice([0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), 1e-320, 0.1])
        if x == 2:
            return r.random() < .5
        if x == 3:
            return r.choice(['', 'text', 'é€', 'x' * 300, '\0'])
        if x == 4:
            return r.choice([b'', b'ab\xff', b'y' * 70000])
        if x == 5:
            return None
        if x in (6, 7, 8, 9) and deep == 0:
            t = r.choice([np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64,
                          np.float16, np.float32, np.float64, np.bool_, np.str_, np.bytes_])
            return t(r.choice([0, 1, 2, 100])) if t not in (np.str_, np.bytes_) else t(r.choice([b'q', b'qq'])
                                                                                       if t is np.bytes_ else 'é')
        if x < 10:
            return r.randint(-5, 5)
        if x < 12:
            return [self.plain(deep + 1) for _ in range(r.randint(0, 4))]
        if x == 12:
            return tuple(self.plain(deep + 1) for _ in range(r.randint(0, 3)))
        return {r.choice(['a', 'b', 'c', 'é']): self.plain(deep + 1) for _ in range(r.randint(0, 3))}

    def meta(self):
        r = self.r
        m = {}
        if r.random() < .8:
            m['timestamp.tid'] = r.randrange(10 ** 10)
        if r.random() < .4:
            m.update({'timestamp': 1234.5 + r.randrange(9), 'timestamp.sec': '1234', 'timestamp.frac': '5' * 18})
        if r.random() < .5:
            m['source'] = r.choice(NAMES)
        return m

    def data(self):
        r = self.r
        d = {}
        for s in r.sample(NAMES, r.choice([1, 1, 2, 2, 3, 4])):
            ks = r.sample(KEYS, r.randint(0, 5))
            d[s] = {k: self.array() if r.random() < .5 else self.plain() for k in ks}
            if r.random() < .5:
                d[s]['metadata'] = self.meta()
        return d


def snap(d):
    """the data fed, including the order and the types of it"""
    if isinstance(d, dict):
        return ['d'] + [[k, snap(v)] for k, v in d.items()]
    if isinstance(d, (list, tuple)):
        return [type(d).__name__] + [snap(x) for x in d]
    if isinstance(d, np.ndarray):
        return ['nd', d.dtype.str, d.shape, d.strides, d.flags.writeable, d.tobytes().hex()]
    return [type(d).__name__, text(d)]


def one(job, n):
    r = gen.rng_for(job['seed'], job['tag'], n)
    g = Gen(r)
    ver = r.choice(['2.2', '2.2', '1.0'])
    stamp = int(r.random() < .35)
    port = free_port(job['port'], 40)
    kw = {} if ver == '2.2' and r.random() < .5 else {'protocol_version': ver}
    if stamp or r.random() < .2:
        kw['dummy_timestamps'] = bool(stamp)
    s = r.choice([karabo_data, export]).ZMQStreamer(port, **kw)
    s.start()
    ctx = zmq.Context()
    sock = ctx.socket(zmq.REQ)
    sock.setsockopt(zmq.LINGER, 0)
    sock.connect('tcp://127.0.0.1:%d' % port)
    base = int(time.time() * 1000)
    ev = []
    data = None
    for _ in range(job['depth']):
        if data is None or r.random() < .75:
            data, args = g.data(), ()
            x = r.random()
            if x < .4:
                args = ({k: g.meta() for k in data},)
                for k, m in args[0].items():
                    if not m:
                        data[k].pop('metadata', None)
            elif x < .5:
                args = r.choice([(None,), ({},)])
        was = snap([data, list(args)])
        given = args[0] if args and args[0] else {k: v.get('metadata', {}) for k, v in data.items()}
        e = {'op': 'msg', 'ver': ver, 'stamp': stamp, 'kw': len(args),
             'data': mp(data, lambda d: mp(d, value)), 'meta': mp(given, lambda d: mp(d, text))}
        e['lo'] = int(time.time() * 1000) - base
        try:
            s.feed(data, *args)
            e['hi'] = int(time.time() * 1000) - base + 1
            sock.send(b'next')
            if not sock.poll(LONG * 1000):
                raise Exception('no answer')
            msg = sock.recv_multipart()
        except Exception as x:
            e['obs'] = exc(x)
            e.setdefault('hi', 0)
        else:
            try:
                o = {'k': 'msg', 'frames': [], 'one': [], 'stamps': []}
                if ver == '1.0':
                    if len(msg) != 1:
                        raise ValueError('%d frames' % len(msg))
                    got = unpack(msg[0])
                    metas = {k: v.get('metadata', {}) for k, v in got.items()}
                    o['one'] = mp(got, lambda d: {
                        'vals': mp({k: v for k, v in d.items() if k != 'metadata'}, decode1),
                        'meta': mp(d.get('metadata', {}), text)})
                else:
                    o['frames'] = frames(msg)
                    metas = {unpack(h)['source']: unpack(h).get('metadata', {}) for h in msg[::2]
                             if unpack(h)['content'] == 'msgpack'}
                if stamp:
                    for k, m in metas.items():
                        try:
                            st = {'ms': int(m['timestamp'] * 1000) - base,
                                  'parts': int(m['timestamp.sec']) * 1000 + int(m['timestamp.frac'][:3]) - base,
                                  'digits': len(m['timestamp.frac'])}
                            if max(abs(st['ms']), abs(st['parts'])) > 2 ** 30:
                                st.update(ms=-10 ** 9, parts=-10 ** 9)
                        except Exception:
                            st = {'ms': -10 ** 9, 'parts': 0, 'digits': 0}
                        o['stamps'].append({'k': k, 'v': st})
                e['obs'] = o
            except Exception as x:
                e['obs'] = {'k': 'bad', 't': [repr(x)[:200]]}
        e['same'] = int(snap([data, list(args)]) == was)
        ev.append(e)
        if e['obs']['k'] == 'exc':
            break
    sock.close()
    ctx.term()
    s._interface and s._interface.stop()
    return {'sc': {'ev': ev}, 'n': n, 'info': {'kw': kw}}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    out = []
    silent = 0
    for n in range(job['lo'], job['hi']):
        out.append(one(job, n))
        silent += any(e['obs'].get('msg') == 'no answer'
                      for e in out[-1]['sc']['ev'] if e['obs']['k'] != 'msg')
        if silent > 2:
            break
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
