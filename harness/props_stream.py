"""P17: the streaming server (specification: Streamer.tla)."""
import json
import random
import re

from core import MachineryError

MUTANTS = ['drop_when_full', 'one_more', 'blocking_recv', 'blocking_get', 'linger_zero', 'take_and_drop']


def histories(ctx, n):
    res = ctx.tlc('MCStreamerEmit', 'MCStreamerEmit.cfg', workers=1)
    h = sorted(set(re.findall(r'"@H@(.*)@"', res.out)))
    if len(h) < 1000:
        raise MachineryError('only %d histories\n%s' % (len(h), res.out[-1000:]))
    h = [json.loads(json.loads('"%s"' % x)) for x in h]
    return h if n >= len(h) else random.Random(ctx.seed).sample(h, n)


def run(prop, ctx):
    deep = ctx.tier == 'thorough'
    ctx.model_check('MCStreamer', 'MCStreamer_none.cfg', min_states=5000)
    ctx.model_check('MCStreamer', 'MCStreamer_close.cfg', min_states=30000)
    if deep:
        ctx.model_check('MCStreamer', 'MCStreamer_deep.cfg', min_states=100000, timeout=3000)
    for m in MUTANTS:
        ctx.expect_violation('MCStreamer', 'MCStreamer_%s.cfg' % m)
    hs = histories(ctx, ctx.n(160, 100000))
    n = ctx.n(240, 6000)
    jobs = []
    for i in range(8):
        base = dict(seed=ctx.seed, threads=10, port=15000 + i * 800)
        jobs.append(dict(base, tag='h', hists=hs[i::8], perturb=i % 2))
        jobs.append(dict(base, tag='r', lo=i * n // 8, hi=(i + 1) * n // 8, depth=12,
                         perturb=int(i % 4 < 2), port=15400 + i * 800))
    jobs.insert(0, dict(seed=ctx.seed, threads=4, port=21600, tag='f', lo=0, hi=ctx.n(6, 32), depth=4,
                        perturb=0, frozen=1))
    outs = []
    for (out, why, log), job in zip(ctx.drive('drv_stream.py', jobs, timeout=ctx.n(400, 3000),
                                              LONG=ctx.n(15, 30)), jobs):
        if out is None:
            ctx.violation('server crashed or hung: ' + why,
                          {'job': {k: v for k, v in job.items() if k != 'hists'}, 'log': log})
        else:
            outs.extend(out)
    for i in range(0, len(outs), 3000):
        part = outs[i:i + 3000]
        for j, l in ctx.accept('TraceStreamer', 'TraceStreamer.cfg', [x['sc'] for x in part]):
            ev = part[j]['sc']['ev']
            what = 'unexplained ' + ev[l]['op'] if l < len(ev) else 'unexplained end'
            ctx.violation(what, {'event': ev[l] if l < len(ev) else None, 'number': l + 1,
                                 'scenario': part[j]['n'], 'about': part[j]['info'], 'history': ev})
    ops = [e['op'] for x in outs for e in x['sc']['ev']]
    ctx.extra.update(scenarios=len(outs), model_histories_replayed=len(hs),
                     events={o: ops.count(o) for o in sorted(set(ops))})
    for x in outs[:1] + outs[-2:]:
        ctx.sample(x['sc']['ev'])
    ctx.assumptions += [
        'one producer feeds at a time; the data fed is not changed by its owner before it is sent',
        'clients send the request "next" and nothing else; loopback network',
        'what happens within 15 s counts as happening, what does not happen within 10 ms as not happening',
    ]
