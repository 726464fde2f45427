import csv
import gc
import os
import shutil
import tempfile
from collections import OrderedDict

import numpy as np

import drvkit as k


def setup():
    from crowddynamics import io
    return io


def value(s, typ):
    """The object whose str() is s."""
    if typ == 'int':
        return int(s)
    if typ == 'float':
        return float(s)
    if typ == 'npfloat':
        return np.float64(s)
    if typ == 'npint':
        return np.int64(s)
    return s


def run(io, s, ev):
    d = tempfile.mkdtemp(prefix='csv_', dir=os.environ['MBV_SCRATCH'])
    cfg = s['cfg']
    names = cfg['names']
    writers, data = {}, {}

    def disk():
        res = []
        for n in names:
            p = os.path.join(d, n + '.csv')
            if not os.path.exists(p):
                res.append([])
                continue
            try:
                with open(p, newline='') as fp:
                    res.append([row for row in csv.reader(fp)])
            except Exception as e:
                res.append([['unreadable', k.outcome(e)]])
        extra = set(os.listdir(d)) - {n + '.csv' for n in names}
        if extra:
            res.append([sorted(extra)])
        return res

    try:
        for o in s['ops']:
            e = {a: b for a, b in o.items() if a != 'types'}
            op = o['op']
            w = o.get('w')
            if op == 'open':
                def do():
                    writers[w] = io.save_csv(d, names[o['f'] - 1])
                    writers[w].send(None)
                    data[w] = OrderedDict()
                e['out'], _ = k.attempt(do)
            elif op == 'send':
                types = o.get('types') or ['str'] * len(o['keys'])
                new = OrderedDict((a, value(b, t)) for a, b, t in zip(o['keys'], o['vals'], types))
                if cfg.get('reuse'):
                    data[w].update(new)
                else:
                    data[w] = new
                e['out'], _ = k.attempt(lambda: writers[w].send(data[w]))
            elif op == 'flag':
                e['out'], _ = k.attempt(lambda: writers[w].send({'int': 3 * o['dump'], 'np': np.bool_(o['dump'])}.get(e.pop('kind', ''), o['dump'])))
            elif op == 'mutate':
                for key in data.get(w, ()):
                    data[w][key] = 'changed'
                e['out'] = 'ok'
            elif op == 'abandon':
                def do():
                    g = writers.pop(w)
                    if o.get('how') != 'drop':
                        g.close()
                    del g
                    gc.collect()
                e['out'], _ = k.attempt(do)
            elif op == 'pre':
                with open(os.path.join(d, names[o['f'] - 1] + '.csv'), 'a', newline='') as fp:
                    csv.writer(fp).writerows(o['lines'])
                e['out'] = 'ok'
            e['disk'] = disk()
            ev.append(e)
            if e['out'] != 'ok':
                return
    finally:
        for g in writers.values():
            g.close()
        shutil.rmtree(d, ignore_errors=True)


k.main(setup, run)
