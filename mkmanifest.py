"""Writes MANIFEST.json from the table of checks (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
TRACE = 'TLA+ model checked by TLC; TLC-generated and random histories run on the code, recorded calls judged by TLC against the specification'
CLAIMED = {
    'P01': TRACE, 'P02': TRACE, 'P03': TRACE, 'P04': TRACE, 'P05': TRACE, 'P06': TRACE,
    'P07': TRACE, 'P08': TRACE, 'P09': TRACE, 'P10': TRACE, 'P11': TRACE, 'P12': TRACE, 'P13': TRACE,
    'P14': TRACE, 'P15': TRACE, 'P16': TRACE, 'P17': TRACE, 'P18': TRACE, 'P19': TRACE, 'P20': TRACE,
    'P21': TRACE, 'P22': TRACE, 'P23': TRACE, 'P24': TRACE, 'P25': TRACE, 'P26': TRACE, 'P27': TRACE,
}
NOTE = ('Exhaustive for the specification within the configured bounds; the code is bound to it by '
        'replaying behaviours and judging recorded observations, so for the code it covers the '
        'histories and inputs executed.')
NOT_YET = 'the specification module and driver for this property are not built yet'


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(x)['id'] for x in f]
    checks, na = [], []
    for p in props:
        if p in CLAIMED:
            checks.append({'property': p, 'quick_cmd': '%s check.py %s quick' % (PYTHON, p),
                           'thorough_cmd': '%s check.py %s thorough' % (PYTHON, p),
                           'evidence_file': 'evidence/%s.json' % p, 'technique': CLAIMED[p],
                           'level': 'model_checking', 'level_note': NOTE})
        else:
            na.append({'property': p, 'reason': NOT_YET})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'sh setup.sh',
                   'checks': checks, 'not_applicable': na}, f, indent=1)


if __name__ == '__main__':
    main()
