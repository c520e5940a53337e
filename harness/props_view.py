"""P26: the interactive viewer (specification: Viewer.tla)."""
import json
import random
import re

from core import MachineryError
from props_reader import gather, judge


def run(prop, ctx):
    ctx.model_check('MCViewer', 'MCViewer_none.cfg', min_states=500)
    for m in ('past_end', 'jump_unseen', 'keep_cursor', 'keep_image'):
        ctx.expect_violation('MCViewer', 'MCViewer_%s.cfg' % m)
    res = ctx.tlc('MCViewer', 'MCViewer_emit.cfg', workers=1)
    hs = sorted(set(re.findall(r'"@H@(.*)@"', res.out)))
    if len(hs) < 1000:
        raise MachineryError('only %d histories\n%s' % (len(hs), res.out[-1000:]))
    cap = ctx.n(600, 4000)
    if len(hs) > cap:
        hs = random.Random(ctx.seed).sample(hs, cap)
    hs = [json.loads(json.loads('"%s"' % x)) for x in hs]
    n = ctx.n(480, 8000)
    W = ctx.n(8, 32)
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W, hists=hs[i::W])
            for i in range(W)]
    outs = gather(ctx, ctx.drive('drv_view.py', jobs, timeout=ctx.n(400, 3000)), jobs,
                  'the viewer crashed or hung')
    judge(ctx, outs, 'TraceViewer', None)
    ops = [e['op'] for x in outs for e in x['sc']['ev']]
    ctx.extra.update(scenarios=len(outs), model_histories_replayed=len(hs),
                     operations={o: ops.count(o) for o in sorted(set(ops))})
    for x in outs[:1] + outs[-2:]:
        ctx.sample([(e['op'], e.get('i'), e['obs']['pos'], e['obs']['si']) for e in x['sc']['ev']])
    ctx.assumptions += ['stacks have at least one frame', 'one viewer in each figure',
                        'a frame is seen if it is the topmost image of the figure']
