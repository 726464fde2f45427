"""Orchestration kit for the model-based checks (CPython 3.12, stdlib only).

Every check has the same three stages:

  1. MC     TLC explores the design spec exhaustively within small constants, checks its invariants and
            emits every transition; the transitions become scripts (a tour that takes each edge once).
  2. drive  the scripts (plus longer seeded random ones) are executed against the real code of /repo by a
            driver on the repository's interpreter; drivers only log arguments and results.
  3. judge  TLC evaluates the trace spec on every recorded event and names each failing clause.
"""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
SPECS = os.path.join(VERIF, 'specs')
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.jsonl')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """The check itself failed: no verdict."""


class Ctx:
    def __init__(self, pid, tier, seed, replay=None):
        self.pid, self.tier, self.seed, self.replay = pid, tier, seed, replay
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.tmp = tempfile.mkdtemp(prefix='mbv_%s_' % pid)
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'events': 0, 'samples': []}
        self.detail = {}
        self.assumptions = []
        self.mismatches = []
        self.clauses = None

    # ---------------------------------------------------------------- TLC

    def _tlc(self, module, consts, cfg_text, name, env=None, workers=4, timeout=800, heap='3g', extra=()):
        d = tempfile.mkdtemp(prefix=name + '_', dir=self.tmp)
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        cfg = os.path.join(d, 'Run.cfg')
        with open(os.path.join(d, 'Run.tla'), 'w') as fp:   # constants as definitions: cfg files cannot hold all values
            fp.write('---- MODULE Run ----\nEXTENDS %s\n' % module)
            for k, v in (consts or {}).items():
                fp.write('c_%s == %s\n' % (k, v))
                cfg_text += 'CONSTANT %s <- c_%s\n' % (k, k)
            fp.write('====\n')
        with open(cfg, 'w') as fp:
            fp.write(cfg_text)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-cp', CP, 'tlc2.TLC', '-noTE',
               '-metadir', os.path.join(d, 'meta'), '-workers', str(workers), '-deadlock'] + list(extra) + \
              ['-config', cfg, os.path.join(d, 'Run.tla')]
        out = os.path.join(d, 'out.txt')
        with open(out, 'w') as fp:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=fp, stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Machinery('TLC timed out on %s' % name)
        return rc, out

    @staticmethod
    def _tail(out, n=40):
        with open(out, errors='replace') as fp:
            lines = [ln for ln in fp if not ln.startswith('"')]
        return ''.join(lines[-n:])

    @staticmethod
    def _stats(text):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        if not m:
            raise Machinery('no TLC statistics')
        return int(m[-1][0]), int(m[-1][1])

    def mc(self, module, consts=None, spec='Spec', invs=(), props=(), emit=False, view=None, constraint=None,
           name=None, timeout=800, workers=8, symmetry=None):
        """Exhaustive exploration of the design. A failing invariant here is a wrong spec: machinery error."""
        name = name or module
        cfg = ['SPECIFICATION ' + spec]
        cfg += ['INVARIANT ' + i for i in invs] + ['PROPERTY ' + p for p in props]
        if view:
            cfg.append('VIEW ' + view)
        if constraint:
            cfg.append('CONSTRAINT ' + constraint)
        if emit:
            cfg.append('ACTION_CONSTRAINT Emit')
        rc, out = self._tlc(module, consts, '\n'.join(cfg) + '\n', name, workers=workers, timeout=timeout,
                            heap='8g' if self.thorough else '4g')
        if rc != 0:
            raise Machinery('TLC rc=%s on %s:\n%s' % (rc, name, self._tail(out)))
        edges, inits = [], []
        with open(out, errors='replace') as fp:
            text = []
            for line in fp:
                if line.startswith('"EDGE '):
                    if emit:
                        edges.append(json.loads(json.loads(line.strip())[5:]))
                elif line.startswith('"INIT '):
                    inits.append(json.loads(json.loads(line.strip())[5:]))
                else:
                    text.append(line)
        gen, dist = self._stats(''.join(text))
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        self.detail['mc_' + name] = {'generated': gen, 'distinct': dist, 'constants': consts or {},
                                     'invariants': list(invs), 'properties': list(props)}
        return edges

    @staticmethod
    def tour(edges, init=None, maxlen=150, act=lambda e: e['a']):
        """Scripts (lists of actions) from the initial state(s) that together take every edge."""
        succ, seen = {}, set()
        for e in edges:
            s, t = json.dumps(e['s'], sort_keys=True), json.dumps(e['t'], sort_keys=True)
            k = (s, json.dumps(e['a'], sort_keys=True), t)
            if k in seen:
                continue
            seen.add(k)
            succ.setdefault(s, []).append((t, e))
        targets = {t for ls in succ.values() for t, _ in ls}
        if init is None:
            root = [s for s in succ if s not in targets]
            if not root:
                root = [json.dumps(edges[0]['s'], sort_keys=True)]
        else:
            root = [json.dumps(init, sort_keys=True)]
        todo = {s: list(range(len(v))) for s, v in succ.items()}
        left = sum(len(v) for v in todo.values())
        total = left
        # BFS tree from roots for fallback
        scripts = []
        stuck = 0
        while left and stuck < 3:
            cur = root[len(scripts) % len(root)]
            path = []
            progressed = False
            while len(path) < maxlen:
                if todo.get(cur):
                    i = todo[cur].pop()
                    left -= 1
                    progressed = True
                    t, e = succ[cur][i]
                    path.append(e)
                    cur = t
                    continue
                # BFS to nearest state with an unvisited edge
                prev = {cur: None}
                queue = [cur]
                hit = None
                for q in queue:
                    for i, (t, e) in enumerate(succ.get(q, ())):
                        if t not in prev:
                            prev[t] = (q, e)
                            if todo.get(t):
                                hit = t
                                break
                            queue.append(t)
                    if hit:
                        break
                if hit is None:
                    break
                back = []
                x = hit
                while prev[x] is not None:
                    back.append(prev[x][1])
                    x = prev[x][0]
                path += reversed(back)
                cur = hit
            if path:
                scripts.append([act(e) for e in path])
            stuck = 0 if progressed else stuck + 1
        return scripts, total, total - left

    # ------------------------------------------------------------- driver

    def drive(self, driver, scripts, timeout=600, shards=4, env=None):
        """Execute scripts on the real code. Returns traces [{id,cfg,ev}]."""
        shards = max(1, min(shards, (len(scripts) + 3) // 4))
        parts = [scripts[i::shards] for i in range(shards)]
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda ip: self._drive1(driver, ip[1], ip[0], timeout, env), enumerate(parts)))
        traces = [t for r in res for t in r]
        traces.sort(key=lambda t: t['id'])
        return traces

    def _drive1(self, driver, scripts, i, timeout, env):
        d = tempfile.mkdtemp(prefix='drv%d_' % i, dir=self.tmp)
        inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(inp, 'w') as fp:
            json.dump(scripts, fp)
        e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
                 PYTHONPATH=':'.join((os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'drivers'), REPO)),
                 MBV_SCRATCH=d, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HOME=d)
        e.update(env or {})
        log = os.path.join(d, 'log.txt')
        with open(log, 'w') as fp:
            try:
                rc = subprocess.run([PYPY, '-W', 'ignore', os.path.join(VERIF, 'drivers', driver + '.py'), inp, outp],
                                    cwd=d, env=e, stdout=fp, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Machinery('driver %s timed out' % driver)
        if rc != 0 or not os.path.exists(outp):
            with open(log, errors='replace') as fp:
                raise Machinery('driver %s rc=%s:\n%s' % (driver, rc, fp.read()[-3000:]))
        with open(outp) as fp:
            r = json.load(fp)
        shutil.rmtree(d, ignore_errors=True)
        return r

    # -------------------------------------------------------------- judge

    def judge(self, module, traces, consts=None, timeout=800, workers=4, shards=2, scripts=None, driver=None,
              min_events=1):
        """TLC evaluates the trace spec on every recorded event."""
        if not traces or not any(t.get('broken') for t in traces) and sum(len(t['ev']) for t in traces) < min_events:
            raise Machinery('nothing to judge')
        byid = {s['id']: s for s in scripts or ()}
        bad_import = [t for t in traces if t.get('broken')]
        for t in bad_import:
            self.mismatches.append({'trace': t['id'], 'l': 0, 'clause': 'load', 'event': {'op': 'load', 'out': t['broken']},
                                    'script': byid.get(t['id']), 'driver': driver, 'module': module})
        traces = [t for t in traces if not t.get('broken')]
        for t in traces:            # the code never came back, or what it gave broke the driver's observation
            if t['ev'] and t['ev'][-1]['op'] in ('hang', 'crash'):
                e = t['ev'].pop()
                self.mismatches.append({'trace': t['id'], 'l': len(t['ev']) + 1, 'clause': e['op'], 'event': e, 'cfg': t['cfg'],
                                        'info': e.get('where'), 'script': byid.get(t['id']), 'driver': driver, 'module': module})
        traces = [t for t in traces if t['ev']]
        if not traces:
            return
        shards = max(1, min(shards, len(traces)))
        parts = [traces[i::shards] for i in range(shards)]
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda ip: self._judge1(module, ip[1], ip[0], consts, timeout, workers), enumerate(parts)))
        n = 0
        for part, (dist, bad) in zip(parts, res):
            n += dist
            for b in bad:
                t = part[b['tid'] - 1]
                self.mismatches.append({'trace': t['id'], 'l': b['l'], 'clause': b['clause'],
                                        'info': b.get('info'), 'event': t['ev'][b['l'] - 1], 'cfg': t['cfg'],
                                        'script': byid.get(t['id']), 'driver': driver, 'module': module})
        self.cov['traces_validated_against_impl'] += len(traces)
        self.cov['events'] += sum(len(t['ev']) for t in traces)
        for t in sorted(traces, key=lambda t: len(json.dumps(t)))[len(traces) // 2:][:2]:
            if len(self.cov['samples']) < 6:
                self.cov['samples'].append({'trace': t['id'], 'cfg': t['cfg'], 'ev': t['ev'][:12]})
        ops = self.detail.setdefault('events_by_op', {})
        for t in traces:
            for e in t['ev']:
                k = e['op'] + ('' if e.get('out', 'ok') == 'ok' else '/' + e['out'])
                ops[k] = ops.get(k, 0) + 1
        self.detail['judged_states'] = self.detail.get('judged_states', 0) + n

    def _judge1(self, module, traces, i, consts, timeout, workers):
        path = os.path.join(self.tmp, '%s_%s_%d.json' % (module, i, len(os.listdir(self.tmp))))
        with open(path, 'w') as fp:
            json.dump([{'cfg': {k: v for k, v in t['cfg'].items() if v is not None}, 'ev': t['ev']} for t in traces], fp)
        cfg = ['SPECIFICATION TraceSpec']
        rc, out = self._tlc(module, consts, '\n'.join(cfg) + '\n', '%s_%s' % (module, i), env={'TRACE_FILE': path},
                            timeout=timeout, workers=workers)
        if rc != 0:
            with open(out, errors='replace') as fp:
                text = fp.read()
            over = 'Overflow when computing' in text
            if not over and not any(x in text for x in ('Attempted to', 'of non-', 'evaluating', 'TLC encountered')):
                raise Machinery('TLC rc=%s judging %s:\n%s' % (rc, module, self._tail(out)))
            # a recorded value is outside the range or of another kind than the design knows: find the trace
            if len(traces) == 1:
                clause, info = ('value-range', 'values within the range of the design') if over else ('value-kind', self._tail(out, 12))
                return len(traces[0]['ev']) + 1, [{'tid': 1, 'l': len(traces[0]['ev']), 'clause': clause, 'info': info}]
            h = len(traces) // 2
            n1, b1 = self._judge1(module, traces[:h], '%s_a' % i, consts, timeout, workers)
            if any(b['clause'] in ('value-range', 'value-kind') for b in b1):
                return n1, b1       # one is enough for a verdict
            n2, b2 = self._judge1(module, traces[h:], '%s_b' % i, consts, timeout, workers)
            for b in b2:
                b['tid'] += h
            return n1 + n2, b1 + b2
        bad, text = [], []
        with open(out, errors='replace') as fp:
            for line in fp:
                if line.startswith('"BAD '):
                    bad.append(json.loads(json.loads(line.strip())[4:]))
                else:
                    text.append(line)
        _, dist = self._stats(''.join(text))
        want = sum(len(t['ev']) + 1 for t in traces)
        if dist != want:
            raise Machinery('%s consumed %d of %d trace positions:\n%s' % (module, dist, want, self._tail(out)))
        return dist, bad

    def require_ops(self, names):
        """Vacuity guard: every named kind of event was observed."""
        have = self.detail.get('events_by_op', {})
        miss = [n for n in names if not any(h == n or h.startswith(n + '/') for h in have)]
        if miss and not self.mismatches:
            raise Machinery('vacuous: no event of kind %s' % miss)

    # ------------------------------------------------------------ verdict

    def findings(self):
        res = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if line.startswith('{'):
                    r = json.loads(line)
                    if r['property'] == self.pid and r.get('status') == 'known':
                        res.append(r)
        return res

    def finish(self):
        known = self.findings()
        hit, viol = {}, []
        first = {}
        for m in self.mismatches:
            k = m['trace']
            if k not in first or m['l'] < first[k][0]['l']:
                first[k] = [m]
            elif m['l'] == first[k][0]['l']:
                first[k].append(m)
        # later mismatches of a trace may be consequences of the first one: only the first position is reported
        for k in sorted(first, key=str):
            for m in first[k]:
                for f in known:
                    if f['clause'] == m['clause'] and f['key'] == m.get('key', m['event'].get('key')):
                        hit[f['key']] = f
                        break
                else:
                    viol.append(m)
        for f in known:
            if f['key'] in hit or f.get('always'):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        rc = 0
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        if viol:
            rc = 1
            path = os.path.join(rdir, '%s.json' % self.pid)
            m = min(viol, key=lambda m: (m['l'], str(m['trace'])))
            with open(path, 'w') as fp:
                json.dump({'property': self.pid, 'first': m, 'count': len(viol),
                           'clauses': sorted({v['clause'] for v in viol}),
                           'scripts': [v['script'] for v in sorted(viol, key=lambda m: m['l'])[:5] if v['script']]},
                          fp, indent=1)
            for c in sorted({v['clause'] for v in viol}):
                v = next(v for v in viol if v['clause'] == c)
                ev = json.dumps(v['event'])
                print('  clause %s fails at trace %s event %s: %s %s' % (
                    c, v['trace'], v['l'], ev[:600], ('expected ' + json.dumps(v['info'])[:600]) if v.get('info') else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': dict(self.cov, **{'detail': self.detail}), 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(viol)}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
        print('%s: %s, %d design states, %d traces / %d events judged, %.1fs' % (
            self.pid, 'ok' if rc == 0 else 'VIOLATED', self.cov['states'],
            self.cov['traces_validated_against_impl'], self.cov['events'], time.time() - self.t0))
        return rc

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
