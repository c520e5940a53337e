"""P20: stacking detector modules (specification: Stacking.tla)."""
import json
import random
import re

from core import MachineryError
from props_reader import gather, judge


def run(prop, ctx):
    deep = ctx.tier == 'thorough'
    ctx.model_check('MCStacking', 'MCStacking_none.cfg', min_states=1000)
    if deep:
        ctx.model_check('MCStacking', 'MCStacking_deep.cfg', min_states=2000)
    for m in ('axis_kept', 'wraps_twice', 'blank_dropped'):
        ctx.expect_violation('MCStacking', 'MCStacking_%s.cfg' % m)
    res = ctx.tlc('MCStacking', 'MCStacking_emit%s.cfg' % ('2' if deep else ''), workers=1)
    hs = sorted(set(re.findall(r'"@H@(.*)@"', res.out)))
    if len(hs) < 1000:
        raise MachineryError('only %d histories\n%s' % (len(hs), res.out[-1000:]))
    if len(hs) > 40000:
        hs = random.Random(ctx.seed).sample(hs, 40000)
    hs = [json.loads(json.loads('"%s"' % x)) for x in hs]
    n = ctx.n(2400, 60000)
    W = ctx.n(8, 32)
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W, depth=14, hists=hs[i::W])
            for i in range(W)]
    outs = gather(ctx, ctx.drive('drv_stack.py', jobs, timeout=ctx.n(400, 3000)), jobs,
                  'stacking crashed or hung')
    for i in range(0, len(outs), 12000):
        judge(ctx, outs[i:i + 12000], 'TraceStacking', None)
    ops = [e['op'] for x in outs for e in x['sc']['ev']]
    ctx.extra.update(scenarios=len(outs), model_histories_replayed=len(hs),
                     operations={o: ops.count(o) for o in sorted(set(ops))})
    for x in outs[:1] + outs[-2:]:
        ctx.sample(x['sc']['ev'][0])
    ctx.assumptions += ['integer and floating point data; fill values which the type can hold',
                        'a train has the modules of one detector',
                        'on a lazy stack, taking other than one or all modules may be refused']
