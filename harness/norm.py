"""Turning what the library returns into JSON the specification can compare.

Only plain 31-bit integers, strings and lists leave this module; anything the
specification has no word for becomes {'k': 'bad', ...}."""
import numpy as np

NAN = -2000000001
LIM = 2 ** 31 - 1


class Bad(Exception):
    pass


def exc(e):
    return {'k': 'exc', 't': [c.__name__ for c in type(e).__mro__ if c is not object],
            'msg': str(e)[:200]}


def ints(a):
    """flat list of ints of an array-like of numbers"""
    a = np.asarray(a)
    if a.dtype == object:
        a = np.array([x.decode() if isinstance(x, bytes) else x for x in a.ravel()])
        try:
            a = a.astype('f8')
        except Exception:
            raise Bad('object array')
    if a.dtype.kind in 'SU':
        try:
            a = a.astype('i8')
        except Exception:
            raise Bad('non-numeric strings')
    if a.dtype.kind == 'b':
        a = a.astype('i8')
    if a.dtype.kind == 'f':
        a = a.astype('f8').ravel()
        nan = np.isnan(a)
        b = np.where(nan, 0, a)
        if not np.all(np.isfinite(b)) or np.any(b != np.round(b)) or np.any(np.abs(b) > LIM):
            # not a value any generated file contains
            return [NAN if np.isnan(x) else
                    (int(x) if np.isfinite(x) and x == round(x) and abs(x) <= LIM else -1999999999)
                    for x in a.tolist()]
        r = b.astype('i8')
        r[nan] = NAN
        return r.tolist()
    if a.dtype.kind not in 'iu':
        raise Bad('dtype %s' % a.dtype)
    return [int(x) if abs(int(x)) <= LIM else -1999999998 for x in a.ravel().tolist()]


def dtname(dt):
    return 'text' if dt.kind in 'OSU' else dt.name


def arr(a):
    a = np.asarray(a)
    return {'dt': dtname(a.dtype), 'sh': list(a.shape), 'v': ints(a)}


def tid(t, base):
    try:
        d = int(t) - base
    except Exception:
        return -1999999997
    return d if abs(d) <= LIM else -1999999997


def tids(q, base):
    return [tid(t, base) for t in q]
