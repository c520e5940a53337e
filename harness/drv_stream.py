"""Runs the streaming server with a producer, clients, stops and restarts.

Everything which can be seen from outside is logged in the order it happened
(actions just before they are done, results just after they are seen); TLC
decides whether the log is a behaviour of Streamer.tla.  The only use of
counting here is to know how long to wait for the server to become quiet.
"""
import json
import os
import queue
import random
import socket
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import msgpack
import numpy as np
import zmq

import gen
import karabo_data
from karabo_data import export

LONG = float(os.environ.get('LONG', 20))
hung = []


def free_port(lo, n):
    """a port nobody listens on, from a range of our own"""
    for p in range(lo, lo + n):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(('', p))
        except OSError:
            continue
        finally:
            s.close()
        return p
    print('no free port', file=sys.stderr)
    sys.exit(70)


def number(msg):
    """the number of the item in a message, 0 if it is not intact"""
    try:
        un = lambda b: msgpack.unpackb(b, raw=False, strict_map_key=False)
        if len(msg) == 1:
            d = un(msg[0])['src']
            arr = d.get('a')
            if arr is not None:
                arr = np.frombuffer(arr[b'data'], arr[b'type'])
        else:
            d = un(msg[1])
            arr = np.frombuffer(msg[3], un(msg[2])['dtype']) if len(msg) > 2 else None
        i = d['i']
        if arr is not None and not (arr == i).all():
            return 0
        return i
    except Exception:
        return 0


class Client(threading.Thread):
    def __init__(self, sc, c):
        super().__init__(daemon=True)
        self.sc, self.c = sc, c
        self.todo = queue.Queue()
        self.pending = False
        self.drop = threading.Event()
        self.start()

    def run(self):
        ctx = zmq.Context()
        sock = None
        while True:
            x = self.todo.get()
            if x == 'end':
                break
            if sock is None:
                sock = ctx.socket(zmq.REQ)
                sock.setsockopt(zmq.LINGER, 0)
                sock.connect('tcp://127.0.0.1:%d' % self.sc.port)
            if self.sc.jit:
                time.sleep(self.sc.r.random() * self.sc.jit)
            self.sc.log('ask', c=self.c)
            sock.send(b'next')
            x.set()
            while not self.drop.is_set():
                if sock.poll(20):
                    m = sock.recv_multipart()
                    with self.sc.lock:
                        self.sc.ev.append({'op': 'got', 'c': self.c, 'i': number(m)})
                        self.sc.ngot += 1
                        self.pending = False
                    break
            else:
                sock.close()
                sock = None
                self.drop.clear()
                self.pending = False
        if sock is not None:
            sock.close()
        ctx.term()


class Scenario:
    def __init__(self, rng, port):
        self.r = rng
        self.port = port
        self.lock = threading.Lock()
        self.ev = []
        self.max = rng.choice([1, 1, 2, 2, 3, 10])
        self.jit = rng.choice([0, 0, .002, .01])
        self.size = rng.choice([0, 0, 0, 100, 1500000])
        self.ver = rng.choice(['2.2', '2.2', '1.0'])
        kw = {} if self.max == 10 and rng.random() < .7 else {'maxlen': self.max}
        make = rng.choice([karabo_data, export]).ZMQStreamer
        self.s = make(port if rng.random() < .8 else str(port), **kw, protocol_version=self.ver, dummy_timestamps=rng.random() < .2)
        self.cl = {}
        self.nfed = self.ngot = self.nitem = 0
        self.feeding = self.stopping = self.up = False
        self.halted = False         # stop() was called since the last settling
        self.unsure = self.closed = False

    def log(self, op, **kw):
        with self.lock:
            self.ev.append(dict(op=op, **kw))

    # -- stimuli ---------------------------------------------------------------
    def feed(self):
        if self.feeding:
            return
        self.feeding = True
        self.nitem += 1
        i = self.nitem
        self.log('feed', i=i)

        def run():
            d = {'i': i}
            if self.size:
                d['a'] = np.full(self.size, i, dtype='i4')
            if self.jit:
                time.sleep(self.r.random() * self.jit)
            try:
                self.s.feed({'src': d})
            except Exception as x:
                self.log('feed raised %r' % x)
                return
            with self.lock:
                self.ev.append({'op': 'fed'})
                self.nfed += 1
                self.feeding = False
        threading.Thread(target=run, daemon=True).start()

    def start(self):
        if self.up or self.halted:
            return
        self.log('start')
        self.up = True
        try:
            self.s.start()
        except Exception as x:
            self.log('start raised %r' % x)

    def stop(self):
        if not self.up or self.halted:
            return
        self.stopping = self.halted = True

        def run():
            if self.jit:
                time.sleep(self.r.random() * self.jit)
            self.log('stop')
            try:
                self.s.stop()
            except Exception as x:
                self.log('stop raised %r' % x)
                return
            with self.lock:
                self.ev.append({'op': 'stopped'})
                self.stopping = self.up = False
        threading.Thread(target=run, daemon=True).start()

    def ask(self, c):
        x = self.cl.get(c)
        if x is None:
            x = self.cl[c] = Client(self, c)
        if x.pending:
            return
        x.pending = True
        sent = threading.Event()
        x.todo.put(sent)
        return sent

    # -- waiting ----------------------------------------------------------------
    def until(self, cond, limit):
        t = time.monotonic() + limit
        while time.monotonic() < t:
            with self.lock:
                if cond():
                    return True
            time.sleep(.002)
        return False

    def expected(self):
        """(items fed, items received) when nothing more can happen"""
        p, g, f = self.nfed, self.ngot, self.feeding
        a = sum(c.pending for c in self.cl.values())
        while True:
            if self.up and not self.stopping and a and p > g:
                g, a = g + 1, a - 1
            elif f and p - g < self.max:
                p, f = p + 1, False
            else:
                return p, g

    def settle(self):
        """wait until the server is quiet; False: it hangs"""
        if self.halted:
            if not self.until(lambda: not self.stopping, LONG):
                self.log('quiet')
                return False
            # requests the server may have answered just before it ended
            wait = 3 if self.unsure else .05
            self.until(lambda: not any(c.pending for c in self.cl.values()), wait)
            for c in self.cl.values():
                with self.lock:
                    if not c.pending:
                        continue
                    c.drop.set()
                self.until(lambda: not c.pending, LONG)
                with self.lock:
                    if not c.drop.is_set() and self.ev[-1] != {'op': 'got', 'c': c.c} and not any(
                            e['op'] == 'got' and e['c'] == c.c
                            for e in self.ev[self.lastask(c.c):]):
                        self.ev.append({'op': 'giveup', 'c': c.c})
                    c.drop.clear()
            self.halted = False
        ok = self.until(lambda: (self.nfed, self.ngot) == self.expected() and not self.stopping, LONG)
        time.sleep(.01 + (.03 if self.r.random() < .1 else 0))
        self.log('quiet')
        self.unsure = False
        return ok

    def lastask(self, c):
        return max(i for i, e in enumerate(self.ev) if e['op'] == 'ask' and e['c'] == c)

    # -- whole histories -----------------------------------------------------------
    def run(self, hist, burst):
        stopped_in_burst = False
        quiet = True        # nothing done since the server was quiet
        for op, c in hist:
            if op == 'stop':
                if not quiet:
                    self.unsure = True
                self.stop()
            elif self.halted and op != 'feed':
                # only feeding goes on while the server is stopping
                if op == 'ask':
                    continue
                if not self.settle():
                    return False
                self.start()
            elif op == 'feed':
                if self.stopping:
                    self.unsure = True
                self.feed()
            elif op == 'start':
                self.start()
            else:
                self.ask(c)
            quiet = False
            if self.r.random() >= burst:
                if not self.settle():
                    return False
                quiet = True
            elif self.r.random() < .3:
                time.sleep(self.r.random() * .02)
        return True

    def end(self):
        """let the clients empty the queue, then stop"""
        if not self.settle():
            return False
        if self.r.random() < .8:
            self.start()
            for _ in range(30):
                if self.nfed == self.ngot and not self.feeding:
                    break
                self.ask(self.r.choice([1, 2]))
                if self.r.random() < .7 and not self.settle():
                    return False
            if not self.settle():
                return False
        self.stop()
        return self.settle()

    def leave(self):
        """a client leaves while its request is open; the rest carries on"""
        if self.halted and not self.settle():
            return False
        self.start()
        if not self.settle():
            return False
        sent = self.ask(3)
        if sent is None:
            return True
        late = self.r.random() < .5
        if late:
            self.feed()
        sent.wait(LONG)
        if self.r.random() < .5:
            time.sleep(self.r.random() * .01)
        c = self.cl[3]
        with self.lock:
            if c.pending:
                self.ev.append({'op': 'close', 'c': 3})
                c.drop.set()
                self.closed = True
        self.until(lambda: not c.pending, LONG)
        with self.lock:
            if self.closed and any(e['op'] == 'got' and e['c'] == 3 for e in
                                   self.ev[self.lastask(3):]):
                # the reply was there in spite of closing
                self.ev = [e for e in self.ev if e != {'op': 'close', 'c': 3}]
                c.drop.clear()
                self.closed = False
        # all later items, up to the last, come through
        n = self.nitem + self.r.randint(2, 4)
        t = time.monotonic() + LONG
        last = 0
        while time.monotonic() < t and last < n:
            if self.nitem < n:
                self.feed()
            self.ask(1)
            time.sleep(.003)
            with self.lock:
                last = max([e['i'] for e in self.ev if e['op'] == 'got'] or [0])
        if last < n:
            self.log('quiet')
            return False
        self.stop()
        if not self.until(lambda: not self.stopping, LONG):
            self.log('quiet')
            return False
        return True

    def frozen(self, slow):
        """a client asks but never reads the answer, which is too large for
        the buffers of the connection; stopping must end all the same

        slow: it reads the answer in the end, a while after stop was called"""
        self.size = 30000000
        self.start()
        t = time.monotonic() + LONG
        while True:
            try:
                q = socket.create_connection(('127.0.0.1', self.port), timeout=LONG)
                break
            except OSError:
                if time.monotonic() > t:
                    self.log('quiet')
                    return False
                time.sleep(.02)
        try:
            ready = b'\x05READY\x0bSocket-Type' + b'\0\0\0\x03REQ' + b'\x08Identity\0\0\0\0'
            # the greeting of ZMTP 3.0, in pieces as they are expected
            for part in (b'\xff' + b'\0' * 7 + b'\x01\x7f', b'\x03\0' + b'NULL'.ljust(20, b'\0') + b'\0' * 32,
                         b'\x04' + bytes([len(ready)]) + ready):
                q.sendall(part)
                got = b''
                while len(got) < {10: 11, 54: 53}.get(len(part), 2):
                    x = q.recv({10: 11, 54: 53}.get(len(part), 2) - len(got))
                    if not x:
                        raise RuntimeError('no greeting')
                    got += x
            self.log('ask', c=3)
            q.sendall(b'\x01\0' + b'\0\x04next')
            self.feed()
            self.until(lambda: not self.feeding, LONG)
            if slow:
                left = 4 * self.size - len(q.recv(1000))
            else:
                time.sleep(.3 + self.r.random())
            self.stop()
            if slow:
                time.sleep(.4 + self.r.random())
                while left > 0:
                    x = q.recv(1 << 20)
                    if not x:
                        self.log('the rest of the answer is lost')
                        return False
                    left -= len(x)
                self.log('got', c=3, i=1)
            if not self.until(lambda: not self.stopping, LONG + 40):
                self.log('quiet')
                return False
            if not slow:
                self.log('giveup', c=3)
        finally:
            q.close()
        return True

    def finish(self):
        for c in self.cl.values():
            c.drop.set()
            c.todo.put('end')


def perturb(seed):
    """random delays between the lines of the module under test"""
    r = random.Random(seed)

    def local(frame, event, arg):
        if event == 'line' and r.random() < .12:
            time.sleep(r.choice([.0005, .003, .015]))
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.endswith(('karabo_data/export.py', '/queue.py')):
            return local
        return None
    threading.settrace(glob)


def one(job, n, slot):
    rng = gen.rng_for(job['seed'], job['tag'], n)
    if len(hung) >= 3:
        return None
    port = free_port(job['port'] + slot * 20, 20)
    sc = Scenario(rng, port)
    if 'hists' in job:
        hist = job['hists'][n]
    else:
        ops = ['feed'] * 4 + ['ask'] * 4 + ['start'] + ['stop']
        hist = [['start', 0]] + [[o, rng.choice([1, 2]) if o == 'ask' else 0] for o in
                                 rng.choices(ops, k=rng.randint(4, job['depth']))]
        if sc.max == 10 and rng.random() < .8:
            hist = [['start', 0]] + [['feed', 0]] * 12 + [['ask', 1], ['ask', 2], ['feed', 0], ['ask', 1]]
    how = rng.random()
    burst = rng.choice([0, .4, .8, 1])
    if job.get('frozen'):
        slow = n % 2
        hist, ok = ['slow' if slow else 'frozen'], sc.frozen(slow)
    else:
        ok = sc.run(hist, burst)
        if ok:
            ok = sc.leave() if how < .2 else sc.end()
    sc.finish()
    if not ok:
        hung.append(n)
    with sc.lock:
        return {'sc': {'max': sc.max, 'ev': list(sc.ev)}, 'n': n,
                'info': {'version': sc.ver, 'maxlen': sc.max, 'array': sc.size, 'delays': sc.jit,
                         'line_delays': job.get('perturb', 0), 'hist': hist, 'burst': burst}}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    sys.setswitchinterval(1e-4)
    if job.get('perturb'):
        perturb(job['seed'])
    slots = queue.Queue()
    K = job.get('threads', 6)
    for i in range(K):
        slots.put(i)

    def go(n):
        slot = slots.get()
        try:
            return one(job, n, slot)
        finally:
            slots.put(slot)
    ns = range(len(job['hists'])) if 'hists' in job else range(job['lo'], job['hi'])
    with ThreadPoolExecutor(K) as ex:
        out = [x for x in ex.map(go, ns) if x]
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)
    sys.stdout.flush()
    os._exit(0)     # there may be threads which never end


if __name__ == '__main__':
    main()
