"""P24: summaries (specifications: Listing.tla, Collections.tla)."""
import props_reader
from props_reader import gather, judge


def run(prop, ctx):
    ctx.model_check('MCListing', 'MCListing_none.cfg', min_states=5000)
    for m in ('one_segment', 'every_series', 'prefix'):
        ctx.expect_violation('MCListing', 'MCListing_%s.cfg' % m)
    n = ctx.n(240, 6000)
    W = ctx.n(8, 32)
    jobs = [dict(seed=ctx.seed, tag=prop, lo=i * n // W, hi=(i + 1) * n // W) for i in range(W)]
    outs = gather(ctx, ctx.drive('drv_list.py', jobs, timeout=ctx.n(400, 3000)), jobs,
                  'lsxfel crashed or hung')
    for i in range(0, len(outs), 1500):
        judge(ctx, outs[i:i + 1500], 'TraceListing', None)
    ctx.extra['listings'] = sum(len(x['sc']['ev']) for x in outs)
    ctx.sample(outs[0]['sc']['ev'][0].get('out'))
    # info() and train_info() of collections, after any history
    props_reader.run(prop, ctx)
    ctx.assumptions += ['data files which can be read; all series of files of a run have the same trains, '
                        'or the number of trains of any of them may be given',
                        'files named as detector modules hold the data of one module']
