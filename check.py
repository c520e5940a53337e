"""Run the check of one property:  check.py P01 [quick|thorough]

Exit 0: held on everything explored; 1: violated; 2: the machinery failed."""
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True

import core  # noqa: E402

MODULES = {'P01': 'props_reader', 'P02': 'props_reader', 'P03': 'props_reader',
           'P04': 'props_reader', 'P05': 'props_reader', 'P06': 'props_reader',
           'P07': 'props_reader', 'P08': 'props_reader', 'P09': 'props_reader',
           'P10': 'props_cache', 'P11': 'props_cache',
           'P12': 'props_open', 'P13': 'props_valid',
           'P17': 'props_stream', 'P18': 'props_serve', 'P19': 'props_msg', 'P20': 'props_stack',
           'P21': 'props_geom', 'P22': 'props_geom', 'P23': 'props_geom',
           'P24': 'props_list', 'P25': 'props_paths', 'P26': 'props_view', 'P27': 'props_contents',
           'P14': 'props_det', 'P15': 'props_det', 'P16': 'props_det'}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = __import__(MODULES[prop])
        mod.run(prop, ctx)
        return ctx.finish()
    except core.MachineryError as e:
        print('MACHINERY FAILURE property=%s: %s' % (prop, e))
        return 2
    finally:
        ctx.cleanup()


if __name__ == '__main__':
    sys.exit(main())
