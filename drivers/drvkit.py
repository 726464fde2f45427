"""Common part of the drivers (runs on the repository's interpreter). Drivers execute scripts on the real code and
log what they observe; they hold no expectations."""
import json
import os
import signal
import sys
import traceback

SCRIPT_LIMIT = float(os.environ.get('MBV_SCRIPT_LIMIT', '90'))


class Hang(BaseException):
    pass


class StubGap(Exception):
    """The stand-in for a third-party library lacks something: no verdict."""


def _alarm(signum, frame):
    raise Hang()


def outcome(exc):
    return 'raise:' + type(exc).__name__


def attempt(fn):
    """(out, value): out is "ok" or "raise:<Type>"."""
    try:
        return 'ok', fn()
    except (StubGap, NotImplementedError) as e:
        if isinstance(e, StubGap):
            raise
        return outcome(e), None
    except Exception as e:
        if os.environ.get('MBV_TRACE'):
            traceback.print_exc()
        return outcome(e), None
    except SystemExit as e:
        return 'exit', None


def q(x, scale):
    """Exact dyadic / decimal float -> int. Not representable -> sentinel."""
    try:
        x = float(x)
    except Exception:
        return -2000000001
    if x != x:
        return -2000000000
    v = x * scale
    if v in (float('inf'), float('-inf')) or abs(v) > 2e9:
        return 2000000000 if v > 0 else -1999999999
    r = int(round(v))
    return r


def ints(seq):
    """List of ints, or None when it is anything else."""
    try:
        res = []
        for v in seq:
            if isinstance(v, bool) or int(v) != v:
                return None
            res.append(int(v))
        return res
    except Exception:
        return None


STUBBED = ('numba', 'pandas', 'scipy', 'shapely', 'skimage', 'skfmm', 'cell_lists', 'matplotlib', 'bokeh')


def load(fn):
    """Import the code under test. Returns (value, None) or (None, reason)."""
    try:
        return fn(), None
    except ImportError as e:
        name = getattr(e, 'name', None) or ''
        if name.split('.')[0] in STUBBED or any("'%s" % s in str(e) for s in STUBBED):
            traceback.print_exc()
            sys.exit(3)
        traceback.print_exc()
        return None, outcome(e) + ' ' + str(e)[:200]
    except StubGap:
        traceback.print_exc()
        sys.exit(3)
    except Exception as e:
        traceback.print_exc()
        return None, outcome(e) + ' ' + str(e)[:200]


def main(setup, run):
    """setup() -> environment (imports); run(env, script) -> list of events."""
    with open(sys.argv[1]) as fp:
        scripts = json.load(fp)
    env, broken = load(setup)
    res, hung = [], False
    signal.signal(signal.SIGALRM, _alarm)
    for s in scripts:
        t = {'id': s['id'], 'cfg': s.get('cfg', {}), 'ev': []}
        if broken:
            t['broken'] = broken
        else:
            ev = t['ev']
            signal.setitimer(signal.ITIMER_REAL, SCRIPT_LIMIT)
            try:
                run(env, s, ev)
            except Hang:
                ev.append({'op': 'hang', 'out': 'hang'})
                hung = True
            except StubGap:
                traceback.print_exc()
                sys.exit(3)
            except (Exception, SystemExit) as e:      # never on the unchanged tree: what the code gave could not be observed
                ev.append({'op': 'crash', 'out': outcome(e), 'where': traceback.format_exc()[-900:]})
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        res.append(t)
        if hung:        # one is enough for a verdict
            break
    with open(sys.argv[2], 'w') as fp:
        json.dump(res, fp, default=lambda v: v.item())     # numpy scalars
