"""P21-P23: detector geometry (specification: Geometry.tla)."""
from props_reader import gather, judge

CFG = {
    'P21': dict(ops=dict(make=2, image=9, plot=1.5, oldimage=.7), n=(64, 1200), depth=9),
    'P22': dict(ops=dict(make=2.5, positions=4, coords=7, distort=3, inspect=2, compare=1), n=(64, 1200), depth=9,
                first=.5),
    'P23': dict(ops=dict(make=2, write=5, reload=5, invert=1.2), n=(72, 1600), depth=10, first=.4),
}
SUBJECT = {'image': {'P21'}, 'plot': {'P21'}, 'interpolate': {'P21'}, 'oldimage': {'P21'},
           'coords': {'P22'}, 'distort': {'P22'}, 'inspect': {'P22'}, 'compare': {'P22'},
           'write': {'P23'}, 'invert': {'P23'}, 'reload': {'P23'}}


def owner(sc, ev, clauses):
    e = sc['ev'][ev]
    # where the geometry is from
    src = None
    for x in sc['ev'][:ev + 1]:
        if x['op'] == 'make':
            src = x['how']
        elif x['op'] == 'reload':
            src = 'reload'
    if e['op'] == 'make':
        return {'P21', 'P22', 'P23'} if src == 'tiles' else {'P21', 'P22'}
    if e['op'] == 'positions':
        return {'P22', 'P23'} if src in ('tiles', 'reload') else {'P22'}
    return SUBJECT[e['op']] | ({'P23'} if src == 'reload' else set())


def run(prop, ctx):
    deep = ctx.tier == 'thorough'
    ctx.model_check('MCGeometry', 'MCGeometry_none.cfg', min_states=1000)
    for m in ('no_shift', 'flip_before', 'centre_first'):
        ctx.expect_violation('MCGeometry', 'MCGeometry_%s.cfg' % m)
    c = CFG[prop]
    n = ctx.n(*c['n'])
    W = 8 if not deep else 40
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W, depth=c['depth'], ops=c['ops'],
                 first=c.get('first', 0), interpolate=[i * n // W] if prop == 'P21' and (deep or i < 2) else [])
            for i in range(W)]
    outs = gather(ctx, ctx.drive('drv_geom.py', jobs, timeout=ctx.n(500, 3000)), jobs,
                  'geometry code crashed or hung')
    for i in range(0, len(outs), 200):
        judge(ctx, outs[i:i + 200], 'TraceGeometry', owner)
    ops = [e['op'] + ('.' + e['det'] if e['op'] == 'make' else '') for x in outs for e in x['sc']['ev']]
    ctx.extra.update(scenarios=len(outs), operations={o: ops.count(o) for o in sorted(set(ops))},
                     pixels_judged=16 * 512 * 128 * sum(o in ('image', 'positions', 'distort', 'plot') for o in ops))
    for x in outs[:3]:
        ctx.sample({k: v for k, v in x['sc']['ev'][0].items() if k not in ('tiles', 'to')})
    ctx.assumptions += ['lengths are multiples of 1/64 pixel; corners of tiles are not half way between pixels',
                        'for images, tiles which do not overlap, with directions close to the axes',
                        'gaps in images of integers have no defined value',
                        'data coordinates to positions where the library provides it (AGIPD, LPD)']
