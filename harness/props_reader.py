"""P01-P09, P24: collections of data (specification: Collections.tla).

1. TLC explores the design (MCCollections.tla) exhaustively on a small
   universe of files and prints every history of operations;
2. those histories are replayed on the real library, and seeded random
   histories over randomly generated runs are executed as well;
3. TLC judges everything recorded against TraceReader.tla.
"""
import json
import os
import re

import universe
from core import MachineryError

BASE = dict(select=2, deselect=1, trange=2, union=1, cross=.3)

# operations (weights), reads after generated histories, profiles of random runs
GENERAL = [{}, {}, {'detectors': 2}, {'nruns': 2, 'later': 0.95},
           {'emptyfile': 0.3, 'nseq': [2, 4]}, {'trains': [6, 16], 'nseq': [2, 3]},
           {'interleave': .9, 'nseq': [2, 3]}]
MANY = [{'series_only': True, 'maxcount': 300, 'trains': [2, 4], 'nctrl': [0, 1], 'ninst': [1, 1]}]
SERIES = [{'series_only': True}, {'series_only': True, 'maxcount': 1},
          {'series_only': True, 'maxcount': 1, 'nruns': 2, 'later': 0.95},
          {'series_only': True, 'emptyfile': 0.3, 'nseq': [2, 4]}, {'detectors': 2}, {},
          {'series_only': True, 'interleave': .9, 'nseq': [2, 3]}]
CFG = {
    'P01': dict(ops=dict(BASE, train=8, trains=9, write=.4), battery=['trains', 'train', 'trains', 'train'],
                profiles=GENERAL + MANY),
    'P02': dict(ops=dict(BASE, array=11, dask=6, write=.4), battery=['array', 'array', 'dask', 'array', 'dask'],
                profiles=GENERAL + MANY),
    'P03': dict(ops=dict(BASE, series=9, counts=5, frame=6, dinfo=1.5), battery=['series', 'counts', 'series', 'frame'],
                profiles=SERIES),
    'P04': dict(ops=dict(select=7, deselect=6, trange=2, union=2, train=2, trains=2, frame=.7, array=1, observe=1),
                battery=['observe', 'select', 'deselect', 'trains'], profiles=GENERAL),
    'P05': dict(ops=dict(select=1, trange=12, union=1.5, trains=4, array=2, counts=1),
                battery=['trange', 'trains', 'trange', 'array'], profiles=GENERAL),
    'P06': dict(ops=dict(select=2.5, deselect=1, trange=3.5, union=6, cross=2, trains=2, train=1.5, array=2, counts=1),
                battery=['trains', 'array', 'union', 'train'],
                profiles=[{'nruns': 2, 'later': .6}, {'nruns': 3, 'later': .95}, {'nruns': 3, 'later': .8},
                          {'nruns': 2, 'later': 1, 'emptyfile': .2}], final=.3),
    'P07': dict(ops=dict(select=2, deselect=2, trange=2, union=1, cross=1.2, train=1.5, trains=1.5, array=1.5,
                         dask=.5, series=1, counts=1, frame=1, info=.5, tinfo=.7, observe=3, again=9, write=.5,
                         vwrite=.5, **{'with': 1.5}),
                battery=['train', 'array', 'with', 'again', 'observe', 'again', 'again'],
                profiles=GENERAL + SERIES[:2], final=1),
    'P08': dict(ops=dict(BASE, write=6, trains=2, train=1, array=2, counts=1.5, observe=.5),
                battery=['write', 'trains', 'array', 'counts'], profiles=GENERAL + MANY),
    'P09': dict(ops=dict(BASE, vwrite=5, vds=3, trains=2, train=1, array=2, counts=1.5, observe=.5),
                battery=['vwrite', 'trains', 'array', 'vds'], profiles=GENERAL + MANY),
    'P24': dict(ops=dict(BASE, info=5, tinfo=5, dinfo=.5), battery=['info', 'tinfo'],
                profiles=GENERAL + [{'detectors': 2}, {'emptyfile': .9, 'nseq': [1, 2]}]),
}
SUBJECT = {'open': {'P12'}, 'select': {'P04'}, 'deselect': {'P04'}, 'trange': {'P05'},
           'union': {'P06'}, 'train': {'P01'}, 'train_ix': {'P01'}, 'trains': {'P01'},
           'array': {'P02'}, 'dask': {'P02'}, 'lazy': {'P02'}, 'series': {'P03'}, 'counts': {'P03'},
           'frame': {'P03'}, 'dinfo': {'P03'}, 'observe': {'P07'}, 'with': {'P07'},
           'again': {'P07'}, 'write': {'P08'}, 'vwrite': {'P09'}, 'vds': {'P09'},
           'info': {'P24'}, 'tinfo': {'P24'}}
LINEAGE = {'select': {'P04'}, 'deselect': {'P04'}, 'trange': {'P05'}, 'union': {'P06'},
           'write': {'P08'}, 'vwrite': {'P09'}, 'vds': {'P09'}}


def subjects(sc, ev, clauses):
    """which properties does the failure of this event concern?"""
    e = sc['ev'][ev]
    res = set(SUBJECT.get(e['op'], ()))
    if any(c.endswith('.argument_changed') for c in clauses):
        if len(clauses) == 1:
            return {'P07'}
        res.add('P07')
    if e.get('seln', {}).get('kind', 'none') != 'none':
        res.add('P04')
    if e.get('rng', {}).get('kind', 'none') != 'none':
        res.add('P05')
    if e['op'] in ('again', 'observe', 'with'):
        return res
    # the history of the collections involved
    made = []
    for x in sc['ev'][:ev]:
        if x['op'] not in ('observe', 'again') and x['obs']['k'] in ('coll', 'write'):
            par = x.get('cs') or ([x['c']] if 'c' in x else [])
            anc = set().union(*[made[p - 1] for p in par if p <= len(made)]) if par else set()
            made.append(anc | LINEAGE.get(x['op'], set()))
    for p in e.get('cs') or ([e['c']] if 'c' in e else []):
        if p <= len(made):
            res |= made[p - 1]
    return res


def judge(ctx, outs, module='TraceReader', owner=subjects):
    """TLC's verdict on what the drivers recorded, as violations of ctx.prop"""
    fails = ctx.validate(module, module + '.cfg', [x['sc'] for x in outs])
    other = 0
    for s, l, clauses in fails:
        sc = outs[s]['sc']
        if owner is not None and ctx.prop not in owner(sc, l, clauses):
            other += 1
            continue
        e = sc['ev'][l]
        what = ','.join(clauses)
        if (e.get('obs') or {}).get('k') == 'exc':
            what += ' [%s]' % e['obs']['t'][0]
        ctx.violation(what, {'event': e, 'number': l + 1, 'scenario': outs[s].get('n'),
                             'about': outs[s].get('info'), 'history': sc['ev'][:l + 1],
                             'files': sc.get('files')})
    ctx.extra['failures_of_other_properties'] = ctx.extra.get('failures_of_other_properties', 0) + other
    return fails


def gather(ctx, results, jobs, what):
    outs = []
    for (out, why, log), job in zip(results, jobs):
        if out is None:
            ctx.violation('%s: %s' % (what, why), {'job': {k: v for k, v in job.items() if k != 'hists'},
                                                   'log': log})
        else:
            outs.extend(out)
    return outs


def histories(ctx, uj, quick_cap):
    """behaviours of the model"""
    thorough = ctx.tier == 'thorough'
    res = ctx.tlc('MCCollections', 'MCCollections_emit.cfg', env={'UNIVERSE': uj})
    h = [json.loads(json.loads('"%s"' % x)) for x in re.findall(r'"@H@(.*)@"', res.out)]
    if len(h) < 1000:
        raise MachineryError('only %d histories' % len(h))
    h.sort(key=lambda x: json.dumps(x, sort_keys=True))
    import random
    r = random.Random(ctx.seed)
    if not thorough and len(h) > quick_cap:
        h = r.sample(h, quick_cap)
    if thorough:
        res = ctx.tlc('MCCollections', 'MCCollections_emit3.cfg', env={'UNIVERSE': uj}, workers=8)
        h3 = re.findall(r'"@H@(.*)@"', res.out)
        h3.sort()
        h += [json.loads(json.loads('"%s"' % x)) for x in r.sample(h3, 12000)]
    ctx.extra['model_histories_replayed'] = len(h)
    return h


def run(prop, ctx):
    c = CFG[prop]
    g, _, u = universe.build(ctx.seed)
    uj = os.path.join(ctx.scratch, 'universe.json')
    with open(uj, 'w') as f:
        json.dump(universe.spec_json(g, u), f)
    deep = ctx.tier == 'thorough'
    ctx.model_check('MCCollections', 'MCCollections_%s.cfg' % ('deep' if deep else 'none'),
                    min_states=1000, env={'UNIVERSE': uj})
    for m in ('deselect_source', 'union_unchecked'):
        ctx.expect_violation('MCCollections', 'MCCollections_%s.cfg' % m, env={'UNIVERSE': uj})
    hs = histories(ctx, uj, c.get('cap', 700))
    n = ctx.n(c.get('random', 560), 16000)
    jobs = []
    W = 8 if not deep else 32
    for i in range(W):
        jobs.append(dict(seed=ctx.seed, tag=prop, hists=hs[i::W], battery=c['battery'],
                         final=c.get('final', .1)))
    for i in range(W):
        jobs.append(dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W, depth=14,
                         profiles=c['profiles'], ops=c['ops'], final=c.get('final', .1)))
    if prop == 'P02':
        m = ctx.n(8, 60)
        jobs += [dict(seed=ctx.seed, tag=prop, huge=1, lo=i * m // 2, hi=(i + 1) * m // 2)
                 for i in range(2)]
    results = ctx.drive('drv_reader.py', jobs, timeout=ctx.n(300, 1500))
    outs = gather(ctx, results, jobs, 'library crashed or hung')
    for i in range(0, len(outs), 4000):
        judge(ctx, outs[i:i + 4000])
    ctx.extra['random_histories'] = n
    ctx.extra['calls_judged'] = sum(len(x['sc']['ev']) for x in outs)
    for x in outs[:1] + outs[-2:]:
        ctx.sample([e['op'] for e in x['sc']['ev']])
    ctx.assumptions += [
        'files are valid in the sense of validation.py; train ids below 2**53',
        'train ids, counts and values within TLC integers (values are small by construction)',
    ]
