#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]   exit 0 held / 1 VIOLATION / 2 no verdict"""
import argparse
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'comps')]
sys.dont_write_bytecode = True
import mbv  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    comp = json.load(open(os.path.join(HERE, 'comps', 'index.json')))[a.property]
    mod = importlib.import_module(comp)
    ctx = mbv.Ctx(a.property, 'thorough' if a.tier == 'thorough' else 'quick', seed)
    if a.replay:
        ctx.replay = json.load(open(a.replay))['scripts']
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        mod.run(ctx)
        return ctx.finish()
    except mbv.Machinery as e:
        print('MACHINERY %s: %s' % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get('MBV_KEEP'):
            ctx.close()


if __name__ == '__main__':
    sys.exit(main())
