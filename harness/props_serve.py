"""P18: serving a run to clients (specification: Collections.tla for what is
sent, Streamer.tla for the server)."""
from props_reader import gather, judge

PROFILES = [{}, {}, {'trains': [6, 16], 'nseq': [2, 3]}, {'detectors': 1}, {'emptyfile': .3, 'nseq': [2, 4]},
            {'interleave': .9, 'nseq': [2, 3]}, {'trains': [1, 3]}]


def run(prop, ctx):
    deep = ctx.tier == 'thorough'
    ctx.model_check('MCStreamer', 'MCStreamer_none.cfg', min_states=5000)
    if deep:
        ctx.model_check('MCStreamer', 'MCStreamer_close.cfg', min_states=30000)
    for m in ('linger_zero', 'take_and_drop'):
        ctx.expect_violation('MCStreamer', 'MCStreamer_%s.cfg' % m)
    n = ctx.n(200, 5000)
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // 8, hi=(i + 1) * n // 8, depth=3, threads=10,
                 profiles=PROFILES, port=22000 + i * 800) for i in range(8)]
    results = ctx.drive('drv_serve.py', jobs, timeout=ctx.n(400, 3000), LONG=ctx.n(15, 40))
    outs = gather(ctx, results, jobs, 'serving crashed or hung')
    for i in range(0, len(outs), 3000):
        judge(ctx, outs[i:i + 3000], 'TraceReader', None)
    ev = [e for x in outs for e in x['sc']['ev']]
    ctx.extra.update(scenarios=len(outs), served={k: sum(e['obs']['k'] == k for e in ev)
                                                  for k in ('served', 'exc')},
                     ways={k: sum(e['way'] == k for e in ev) for k in ('call', 'cli', 'process')})
    for e in ev[:2]:
        ctx.sample(e['seln']['txt'])
    ctx.assumptions += ['a client keeps asking until the server has ended',
                        'single numbers are streamed as plain numbers, so their type is not compared']
