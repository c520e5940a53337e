"""P12: opening files and runs (specification: Collections.tla, OpenColl)."""
import json
import os

import universe
from props_reader import gather, judge, subjects


def owner(sc, l, clauses):
    return {'P12'} if sc['ev'][l]['op'] in ('open', 'counts', 'array', 'trains', 'train', 'series') else set()


def run(prop, ctx):
    deep = ctx.tier == 'thorough'
    g, _, u = universe.build(ctx.seed)
    uj = os.path.join(ctx.scratch, 'universe.json')
    with open(uj, 'w') as f:
        json.dump(universe.spec_json(g, u), f)
    ctx.model_check('MCCollections', 'MCCollections_none.cfg', min_states=1000, env={'UNIVERSE': uj})
    ctx.model_check('RunMap', 'RunMap_%s.cfg' % ('deep' if deep else 'none'), min_states=10000, timeout=3000)
    n = ctx.n(720, 24000)
    W = 16 if not deep else 32
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W, depth=7) for i in range(W)]
    results = ctx.drive('drv_open.py', jobs, timeout=ctx.n(300, 3000))
    outs = gather(ctx, results, jobs, 'opening files crashed or hung')
    for i in range(0, len(outs), 4000):
        judge(ctx, outs[i:i + 4000], 'TraceReader', owner)
    ev = [e for x in outs for e in x['sc']['ev']]
    op = [e for e in ev if e['op'] == 'open']
    ctx.extra.update(scenarios=n, opened=len(op), refused=sum(e['obs']['k'] == 'exc' for e in op),
                     with_unusable_files=sum(bool(e['broken']) for e in op), reads=len(ev) - len(op))
    for x in outs[:3]:
        ctx.sample([(e['op'], e.get('how'), e.get('inctxt'), e.get('note'), e['obs']['k']) for e in x['sc']['ev']])
    ctx.assumptions += ['unusable: not HDF5, truncated, a directory or dangling link, without train ids or list '
                        'of sources, or listing a source of an unknown category']
