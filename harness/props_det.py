"""P14-P16: multi-module detectors (specification: Detector.tla)."""
import json
import random
import re

from core import MachineryError
from props_reader import gather, judge

PROFILES = [{}, {}, {'nmods': [2, 4], 'trains': [3, 8], 'agree': 1}, {'loss': [0]},
            {'dets': [0, 0]}, {'dets': [0, 1], 'nmods': [1, 2]}, {'dets': [1, 1], 'nmods': [1, 3]},
            {'ragged': 1, 'fpt': [2, 3, 4]}, {'nmods': [9, 12], 'trains': [1, 4], 'loss': [0, .15], 'fpt': [1, 2]},
            {'nmods': [2, 4], 'loss': [.3, .6], 'agree': 1}, {'trains': [8, 14], 'nmods': [1, 2]},
            {'trains': [4, 9], 'nmods': [1, 1], 'dets': [0], 'interleave': .8, 'loss': [0, .15]}]
OPS = {'P14': dict(array=8, trains=1), 'P15': dict(trains=7, array=2),
       'P16': dict(cxi=5, cli=1.2, array=.5)}
SUBJECT = {'array': {'P14'}, 'trains': {'P15'}, 'cxi': {'P16'}, 'cli': {'P16'},
           'open': {'P14', 'P15', 'P16'}}


def owner(sc, l, clauses):
    return SUBJECT[sc['ev'][l]['op']]


def patterns(ctx, n):
    res = ctx.tlc('MCDetector', 'MCDetector_emit.cfg', workers=1)
    h = sorted(set(re.findall(r'"@H@(.*)@"', res.out)))
    if len(h) < 1000:
        raise MachineryError('only %d patterns\n%s' % (len(h), res.out[-1000:]))
    h = [json.loads(json.loads('"%s"' % x)) for x in h]
    return h if n >= len(h) else random.Random(ctx.seed).sample(h, n)


def run(prop, ctx):
    deep = ctx.tier == 'thorough'
    ctx.model_check('MCDetector', 'MCDetector_%s.cfg' % ('deep' if deep else 'none'), min_states=5000,
                    timeout=3000)
    for m in {'P14': ['arange_labels'], 'P15': ['arange_labels'], 'P16': ['one_region', 'restart']}[prop]:
        ctx.expect_violation('MCDetector', 'MCDetector_%s.cfg' % m)
    pats = patterns(ctx, ctx.n(240, 100000))
    n = ctx.n(480, 16000)
    W = 8 if not deep else 32
    jobs = []
    for i in range(W):
        base = dict(seed=ctx.seed, ops=OPS[prop], profiles=PROFILES)
        jobs.append(dict(base, tag=prop + 'r', lo=i * n // W, hi=(i + 1) * n // W, depth=9))
        a, b = i * len(pats) // W, (i + 1) * len(pats) // W
        jobs.append(dict(base, tag=prop + 'p', lo=a, hi=b, depth=5, pats=pats[a:b], profiles=[{'agree': 1}]))
    results = ctx.drive('drv_det.py', jobs, timeout=ctx.n(400, 3000))
    outs = gather(ctx, results, jobs, 'reading detector data crashed or hung')
    for i in range(0, len(outs), 3000):
        judge(ctx, outs[i:i + 3000], 'TraceDetector', owner)
    ev = [e for x in outs for e in x['sc']['ev']]
    ctx.extra.update(scenarios=len(outs), model_patterns_replayed=len(pats),
                     events={o: sum(e['op'] == o for e in ev) for o in SUBJECT},
                     raised={o: sum(e['op'] == o and e['obs']['k'] == 'exc' for e in ev) for o in SUBJECT})
    for x in outs[:1] + outs[-2:]:
        ctx.sample([(e['op'], e.get('ktxt'), e.get('qtxt'), e['obs']['k']) for e in x['sc']['ev']])
    ctx.assumptions += ['frames of modules are 2 by 3 pixels (module_shape of the classes is set to that); '
                        'the index of the files has no holes (such files are reported by validation)']
