"""The small universe explored exhaustively by MCCollections.tla."""
import random

import gen

NONE = -999999


def build(seed=0):
    r = random.Random('universe%s' % seed)
    g = gen.RunGen(r, dict(legacy=0.3, v1=0.5))
    cs = g.codes = gen.codes
    d1 = {'name': 'A/XGM/M', 'cat': 'C', 'ng': 1, 'gnames': [''], 'det': -1,
          'keys': [g.key('x.value', 1, 'int32', []), g.key('x.timestamp', 1, 'uint64', [])]}
    d2 = {'name': 'A/CAM/1:out', 'cat': 'I', 'ng': 2, 'gnames': ['data', 'aux'], 'det': -1,
          'keys': [g.key('data.p', 1, 'uint16', [2]), g.key('data.q', 1, 'float32', []),
                   g.key('aux.q', 2, 'int64', [])]}
    d3 = {'name': 'B/MOT/1', 'cat': 'C', 'ng': 1, 'gnames': [''], 'det': -1,
          'keys': [g.key('y.value', 1, 'float64', [2]), g.key('y.timestamp', 1, 'uint64', [])]}
    for d in (d1, d2, d3):
        d['c'] = cs(d['name'])
        g.defs.append(d)

    def src(di, counts):
        """counts: one list per group"""
        d = g.defs[di]
        idx = [{'count': list(c), 'first': [sum(c[:i]) for i in range(len(c))]} for c in counts]
        keys = []
        for k in d['keys']:
            m = gen.DT[k['dt']]
            keys.append({'a': k['esz'], 'b': r.randrange(m), 'm': m, 'vals': [],
                         'n': sum(counts[k['g'] - 1]), 'pad': r.choice([0, 2])})
        return {'has': 1, 'keys': keys, 'idx': idx}

    add = g.add_file
    # run 1: sources 1 and 2 in two sequence files, source 3 elsewhere, missing a train
    f1 = add('RAW-R0001-DA01-S00000.h5', [1, 2], {0: src(0, [[1, 1]]), 1: src(1, [[0, 2], [1, 0]])})
    f2 = add('RAW-R0001-DA01-S00001.h5', [3, 5], {0: src(0, [[1, 1]]), 1: src(1, [[1, 0], [0, 3]])})
    f3 = add('RAW-R0001-DA02-S00000.h5', [1, 3, 4, 5], {2: src(2, [[1] * 4])})
    # run 2 (one file has the name of one of run 1): source 1 later; source 3 again at overlapping trains (conflicts with run 1)
    f4 = add('RAW-R0001-DA01-S00000.h5', [6, 7], {0: src(0, [[1, 1]])})
    f5 = add('RAW-R0002-DA02-S00000.h5', [5, 7], {2: src(2, [[1, 1]])})
    selns = [
        {'kind': 'list', 'pats': [('A/*', '*')]},
        {'kind': 'list', 'pats': [('*', 'x')]},
        {'kind': 'list', 'pats': [('A/CAM/?:*', 'data.*'), ('B/*', 'y.value')]},
        {'kind': 'list', 'pats': [('*', '*.[qy]')]},
        {'kind': 'dict', 'd': [(1, [1]), (3, [])]},
        {'kind': 'dict', 'd': [(2, [2, 3])]},
    ]
    for s in selns:
        if s['kind'] == 'list':
            s['txt'] = [list(p) for p in s['pats']]
            s['pats'] = [{'s': cs(a), 'k': cs(b)} for a, b in s['txt']]
        else:
            s['d'] = [{'s': a, 'ks': b} for a, b in s['d']]
    R = lambda kind, a=NONE, b=NONE, st=NONE, l=(): {'kind': kind, 'a': a, 'b': b, 'st': st, 'l': list(l)}
    ranges = [R('idslice', 2, 5), R('ixslice', 1), R('ixslice', NONE, -1, 2),
              R('idlist', l=[3, 5, 9]), R('ixlist', l=[-1, 0, 0])]
    groups = [[f1, f2, f3], [f4, f5]]
    return g, groups, {'selns': selns, 'ranges': ranges, 'ops': ['select', 'deselect', 'trange', 'union'],
                       'runs': [[g.files.index(f) + 1 for f in x] for x in groups]}


def spec_json(g, extra):
    defs = [{'c': d['c'], 'cat': d['cat'], 'ng': d['ng'], 'det': d['det'],
             'keys': [{x: k[x] for x in ('c', 'g', 'dt', 'shape', 'esz', 'ts', 'pid')}
                      for k in d['keys']]} for d in g.defs]
    return dict(extra, defs=defs, files=[{'tids': f['tids'], 'src': f['src']} for f in g.files])
