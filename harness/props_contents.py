"""P27: listings of files and frames taken out of them (specification: Contents.tla)."""
import json
import random
import re

from core import MachineryError
from props_reader import gather, judge


def run(prop, ctx):
    ctx.model_check('MCContents', 'MCContents_deep.cfg' if ctx.tier == 'thorough' else 'MCContents_none.cfg',
                    min_states=5000)
    for m in ('unsorted', 'groups', 'shallow'):
        ctx.expect_violation('MCContents', 'MCContents_%s.cfg' % m)
    res = ctx.tlc('MCContents', 'MCContents_emit.cfg', workers=1)
    hs = sorted(set(re.findall(r'"@H@(.*)@"', res.out)))
    if len(hs) < 500:
        raise MachineryError('only %d files of the model\n%s' % (len(hs), res.out[-1000:]))
    total = len(hs)
    cap = ctx.n(400, total)
    if len(hs) > cap:
        hs = random.Random(ctx.seed).sample(hs, cap)
    hs = [json.loads(json.loads('"%s"' % x)) for x in hs]
    n = ctx.n(900, 15000)
    W = ctx.n(8, 32)
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W, hists=hs[i::W],
                 hn=list(range(len(hs)))[i::W]) for i in range(W)]
    outs = gather(ctx, ctx.drive('drv_contents.py', jobs, timeout=ctx.n(400, 3000)), jobs,
                  'listing or converting crashed or hung')
    judge(ctx, outs, 'TraceContents', None)
    ops = [e['op'] for x in outs for e in x['sc']['ev']]
    ctx.extra.update(files=len(outs), files_of_the_model=total, files_of_the_model_listed=len(hs),
                     operations={o: ops.count(o) for o in sorted(set(ops))})
    for x in outs[:1] + outs[-3:]:
        ctx.sample([(e['op'], e.get('i'), str(e['obs'])[:200]) for e in x['sc']['ev'][:2]])
    ctx.assumptions += ['groups and datasets with one path each (no further links); names are text',
                        'frames are two-dimensional, of integers (other numbers have no form in CBF files)',
                        'a file has images of one source']
