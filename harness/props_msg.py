"""P19: messages of the streaming server (specification: Message.tla)."""
from props_reader import gather, judge


def run(prop, ctx):
    deep = ctx.tier == 'thorough'
    ctx.model_check('MCMessage', 'MCMessage_none.cfg', min_states=5000)
    for m in ('meta_of_first', 'arrays_kept', 'arrays_first'):
        ctx.expect_violation('MCMessage', 'MCMessage_%s.cfg' % m)
    n = ctx.n(640, 24000)
    W = ctx.n(8, 32)
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W, depth=6,
                 port=15000 + i * 400) for i in range(W)]
    results = ctx.drive('drv_msg.py', jobs, timeout=ctx.n(400, 3000), LONG=20)
    outs = gather(ctx, results, jobs, 'streaming crashed or hung')
    for i in range(0, len(outs), 3000):
        judge(ctx, outs[i:i + 3000], 'TraceMessage', None)
    ev = [e for x in outs for e in x['sc']['ev']]
    ctx.extra.update(scenarios=len(outs), messages=len(ev),
                     arrays=sum(v['v']['k'] == 'arr' for e in ev for d in e['data'] for v in d['v']),
                     by_version={v: sum(e['ver'] == v for e in ev) for v in ('1.0', '2.2')})
    for e in ev[:2]:
        ctx.sample(e['data'])
    ctx.assumptions += ['values are of types which messages have a form for: plain Python values, numpy '
                        'numbers and booleans, arrays of numbers, booleans and strings',
                        'metadata, if given, is given for every source']
