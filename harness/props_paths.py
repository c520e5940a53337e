"""P25: from proposal and run numbers to directories (specification: Proposals.tla)."""
import json
import random
import re

from core import MachineryError
from props_reader import gather, judge


def run(prop, ctx):
    ctx.model_check('MCProposals', 'MCProposals_none.cfg', min_states=10000)
    for m in ('contained', 'unpadded', 'other_kind', 'remembered'):
        ctx.expect_violation('MCProposals', 'MCProposals_%s.cfg' % m)
    res = ctx.tlc('MCProposals', 'MCProposals_emit.cfg', workers=1)
    hs = sorted(set(re.findall(r'"@H@(.*)@"', res.out)))
    if len(hs) < 1000:
        raise MachineryError('only %d histories\n%s' % (len(hs), res.out[-1000:]))
    cap = ctx.n(800, 10 ** 6)
    if len(hs) > cap:
        hs = random.Random(ctx.seed).sample(hs, cap)
    hs = [json.loads(json.loads('"%s"' % x)) for x in hs]
    n = ctx.n(800, 20000)
    W = ctx.n(8, 32)
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W, hists=hs[i::W])
            for i in range(W)]
    outs = gather(ctx, ctx.drive('drv_paths.py', jobs, timeout=ctx.n(400, 3000)), jobs,
                  'opening runs crashed or hung')
    judge(ctx, outs, 'TraceProposals', None)
    asks = [e for x in outs for e in x['sc']['ev'] if e['op'] == 'ask']
    ctx.extra.update(scenarios=len(outs), model_histories_replayed=len(hs), asked=len(asks),
                     opened=sum(e['obs']['k'] == 'run' for e in asks))
    for x in outs[:1] + outs[-2:]:
        ctx.sample([e.get('txt') or e['op'] for e in x['sc']['ev']])
    ctx.assumptions += ['proposals and runs are given as int or str, strings without wildcard characters',
                        'where several directories have the name of the proposal, any of them may be meant',
                        'a plain file in place of a proposal directory is not considered']
