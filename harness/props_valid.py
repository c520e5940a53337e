"""P13: the validator (specification: Validator.tla)."""
import json
import random
import re

from core import MachineryError
from props_reader import gather, judge


def run(prop, ctx):
    ctx.model_check('MCValidator', 'MCValidator_none.cfg', min_states=10000)
    for m in ('no_gap_check', 'no_overlap_check', 'end_minus_one'):
        ctx.expect_violation('MCValidator', 'MCValidator_%s.cfg' % m)
    res = ctx.tlc('MCValidator', 'MCValidator_emit.cfg', workers=1)
    ixs = [json.loads(json.loads('"%s"' % x)) for x in re.findall(r'"@H@(.*)@"', res.out)]
    if len(ixs) < 3000:
        raise MachineryError('only %d indexes\n%s' % (len(ixs), res.out[-1000:]))
    ixs = list(enumerate(ixs))
    if ctx.tier != 'thorough':
        ixs = random.Random(ctx.seed).sample(ixs, 600)
    n = ctx.n(2400, 60000)
    W = ctx.n(8, 32)
    jobs = [dict(seed=ctx.seed, tag=prop, ixs=ixs[i::W], lo=i * n // W, hi=(i + 1) * n // W)
            for i in range(W)]
    outs = gather(ctx, ctx.drive('drv_valid.py', jobs, timeout=ctx.n(300, 2500)), jobs,
                  'the validator crashed or hung')
    for i in range(0, len(outs), 4000):
        judge(ctx, outs[i:i + 4000], 'TraceValidator', None)
    kinds = {}
    for x in outs:
        for k in x['info']:
            if isinstance(k, str):
                kinds[k] = kinds.get(k, 0) + 1
    ctx.extra.update(small_indexes=len(ixs), random_runs=n, damage=kinds)
    for x in outs[-3:]:
        ctx.sample([x['info'], [(e['what'], e['how'], e['obs'].get('status')) for e in x['sc']['ev']]])
    ctx.assumptions += ['index datasets are unsigned integers; whether an entry pointing somewhere for a '
                        'train without data is a problem is left open']
