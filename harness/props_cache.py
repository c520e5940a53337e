"""P10, P11: the cached map of run files (specification: RunMap.tla)."""
import json
import re

from core import MachineryError
from props_reader import gather, judge

WRONG = {'file_contents', 'file_missing', 'file_extra', 'train_ids', 'sources', 'not_raised', 'map_lies'}


def owner_for(outs_mode):
    def owner(sc, l, clauses):
        res = {'P11'} if sc['mode'] != 'seq' else {'P10'}
        if any(c.split('.')[1] in WRONG for c in clauses):
            res.add('P10')
        if any('map' in c or 'debris' in c for c in clauses):
            res.add('P11')
        return res
    return owner


def schedules(ctx, n):
    res = ctx.tlc('RunMap', 'RunMap_emit.cfg', workers=1,
                  args=['-simulate', 'num=%d' % n, '-depth', '60', '-seed', str(ctx.seed)])
    h = [json.loads(json.loads('"%s"' % x)) for x in re.findall(r'"@H@(.*)@"', res.out)]
    if len(h) < n // 2:
        raise MachineryError('only %d schedules\n%s' % (len(h), res.out[-2000:]))
    return h[:n]


def run(prop, ctx):
    deep = ctx.tier == 'thorough'
    ctx.model_check('RunMap', 'RunMap_%s.cfg' % ('deep' if deep else 'none'), min_states=10000,
                    timeout=3000)
    if prop == 'P11':
        ctx.model_check('RunMap', 'RunMap_live.cfg', min_states=1000)
    for m in {'P10': ['no_stat_check', 'stat_by_name', 'fatal_damage'],
              'P11': ['in_place', 'fatal_failure', 'shared_tmp']}[prop]:
        ctx.expect_violation('RunMap', 'RunMap_%s.cfg' % m)
    k = ctx.n(1, 25)
    plan = {'P10': dict(seq=480 * k, inter=160 * k, fault=80 * k),
            'P11': dict(fault=320 * k, crash=80 * k, inter=320 * k, race=64 * k)}[prop]
    scheds = schedules(ctx, plan['inter'])
    plan['inter'] = len(scheds)
    W = 8 if not deep else 24
    jobs = []
    for mode, n in plan.items():
        for i in range(W):
            lo, hi = i * n // W, (i + 1) * n // W
            job = dict(seed=ctx.seed, tag=prop, mode=mode, lo=lo, hi=hi)
            if mode == 'inter':
                job['scheds'] = scheds[lo:hi]
            jobs.append(job)
    results = ctx.drive('drv_cache.py', jobs, timeout=ctx.n(300, 2500))
    outs = gather(ctx, results, jobs, 'opening runs crashed or hung')
    for x in outs:
        x['sc']['mode'] = x['info']['mode']
    for i in range(0, len(outs), 3000):
        judge(ctx, outs[i:i + 3000], 'TraceRunMap', owner_for(None))
    ev = [e for x in outs for e in x['sc']['ev']]
    ctx.extra.update(scenarios=plan, runs_opened=sum(e['op'] in ('open', 'end') for e in ev),
                     crashes=sum(e['op'] == 'crash' for e in ev),
                     gates=sum(e['op'] == 'gate' for e in ev))
    for x in outs[:1] + outs[-2:]:
        ctx.sample([(e['op'], e.get('kind') or e.get('note')) for e in x['sc']['ev']][:30])
    ctx.assumptions += ['a data file which changes also changes its size or its modification time '
                        '(at the resolution of a float of seconds)',
                        'crash: the process ends between two lines of python code; what the kernel '
                        'accepted survives']
