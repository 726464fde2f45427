import gc
import os
import re
import shutil
import tempfile

import numpy as np

import drvkit as k

REC = np.dtype([('id', np.int64), ('position', np.float64, 2), ('active', np.bool_)])


def setup():
    from crowddynamics import io
    return io


def make(rows, shape):
    if shape == 'mix':       # frames of different types
        return np.array([[r, r * 2 + 1.25] for r in rows], dtype=np.float64) if rows[0] % 2 else np.array([[r, r * 2 + 1] for r in rows], dtype=np.int64)
    if shape == 'flat':      # one row per frame
        return np.array([rows[0], rows[0] * 2 + 1, -rows[0]], dtype=np.float64)
    if shape == 'table':
        return np.array([[r, r * 2 + 1, -r] for r in rows], dtype=np.float64)
    if shape == 'ints':
        return np.array([[r, r * 2 + 1] for r in rows], dtype=np.int32)
    a = np.zeros(len(rows), dtype=REC)   # one structured row (n agents) per frame: like agents.array
    for i, r in enumerate(rows):
        a[i] = (r, (r * 2 + 1, -r), r % 2 == 0)
    return a


def unmake(arr, shape):
    """Row ids of a chunk; -1 for a row that no frame contained."""
    res = []
    if arr.dtype == REC:
        for rec in arr.reshape(-1):
            r = int(rec['id'])
            ok = rec['position'][0] == r * 2 + 1 and rec['position'][1] == -r and bool(rec['active']) == (r % 2 == 0)
            res.append(r if ok else -1)
        return res
    arr = np.atleast_2d(np.asarray(arr))
    for row in arr:
        r = int(row[0])
        ok = row[1] == r * 2 + 1 + (.25 if shape == 'mix' and r % 2 else 0) and (len(row) < 3 or row[2] == -r)
        res.append(r if ok else -1)
    return res


def run(io, s, ev):
    d = tempfile.mkdtemp(prefix='npy_' + s['cfg'].get('dir', ''), dir=os.environ['MBV_SCRATCH'])
    names = s['cfg']['names']
    shape = s['cfg']['shape']
    writers, last, foreign = {}, {}, set()

    def disk():
        res, extra = [[] for _ in names], []
        found = [{} for _ in names]
        for root, _, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                if p in foreign:
                    continue
                for i, n in enumerate(names):
                    m = re.fullmatch(re.escape(n) + r'_(0|[1-9]\d*)\.npy', f)
                    if m and root == d:
                        found[i][int(m.group(1))] = p
                        break
                else:
                    extra.append(f)
        for i, chunks in enumerate(found):
            for j in range(max(chunks) + 1 if chunks else 0):
                try:
                    res[i].append(unmake(np.load(chunks[j]), shape) if j in chunks else [-2])
                except Exception:
                    res[i].append([-3])
        return res, extra

    try:
        for o in s['ops']:
            e = dict(o)
            op = o['op']
            b = o.get('b', 1) - 1
            path = d if not s['cfg'].get('pathlib') else __import__('pathlib').Path(d)
            if op == 'open':
                def do():
                    writers[b] = io.save_npy(path, names[b])
                    writers[b].send(None)
                e['out'], _ = k.attempt(do)
            elif op == 'send':
                if s['cfg'].get('reuse') and b in last and last[b].shape == make(o['frame'], shape).shape and last[b].dtype == make(o['frame'], shape).dtype:
                    last[b][...] = make(o['frame'], shape)      # the sender updates one array in place
                else:
                    last[b] = make(o['frame'], shape)
                e['out'], _ = k.attempt(lambda: writers[b].send(last[b]))
            elif op == 'flag':
                e['out'], _ = k.attempt(lambda: writers[b].send({'int': 3 * o['dump'], 'np': np.bool_(o['dump'])}.get(e.pop('kind', ''), o['dump'])))
            elif op == 'mutate':
                a = last[b]
                if a.dtype == REC:
                    a['id'] = 777
                else:
                    a[...] = 777
                e['out'] = 'ok'
            elif op == 'abandon':
                def do():
                    w = writers.pop(b)
                    if e.get('how') != 'drop':
                        w.close()
                    del w
                    gc.collect()
                e['out'], _ = k.attempt(do)
            elif op == 'foreign':
                p = os.path.join(d, o['name'])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if p.endswith('.npy'):
                    np.save(p, make([999], shape))
                else:
                    with open(p, 'w') as fp:
                        fp.write('x')
                foreign.add(p)
                e['out'] = 'ok'
            elif op in ('load', 'cat', 'find'):
                fn = {'load': lambda: [unmake(a, shape) for a in io.load_npy(path, names[b])],
                      'cat': lambda: unmake(io.load_npy_concatenated(path, names[b]), shape),
                      'find': lambda: sorted(int(i) for i, p in io.find_npy_files(path, names[b]))}[op]
                e['out'], r = k.attempt(fn)
                e['res'] = r if e['out'] == 'ok' else []
            still = e.pop('still', False)      # the disk is not looked at after this event
            if not still and op not in ('load', 'cat', 'find'):
                e['disk'], e['extra'] = disk()
            ev.append(e)
            if e['out'] != 'ok' and op in ('open', 'send', 'flag'):
                return
    finally:
        for w in writers.values():
            w.close()
        shutil.rmtree(d, ignore_errors=True)


k.main(setup, run)
