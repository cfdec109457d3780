"""Runs one property's check: TLC on the specification, both conformance
directions against the code in /repo, verdicts, evidence.

Every check has up to four parts, all decided by the TLA+ specification:
  model   TLC explores the design module exhaustively for small constants and
          evaluates its invariants in every state;
  replay  the behaviours TLC printed (one CASE line per finished behaviour) are
          executed by the real code, whose results must equal the
          specification's;
  trace   executions of the real code on generated inputs are recorded as
          ndjson and TLC decides, trace by trace, whether the specification
          allows them;
  canary  recorded traces with one corrupted observation must be rejected
          (shows that the trace specification is bound to the observations).
"""
import ast, json, os, re, shutil, subprocess, sys, tempfile, time, types
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SOYNLP_REPO', '/repo')
PY = '/opt/venv/bin/python'
SPECS = os.path.join(VERIF, 'specs')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def driver_env(hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent', PYTHONPATH=REPO,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               LANG='C.UTF-8', LC_ALL='C.UTF-8')
    return env


def load_description(path):
    """MODELS, TRACES and ASSUMPTIONS of a driver, without importing soynlp."""
    ns = types.SimpleNamespace()
    for node in ast.parse(open(path, encoding='utf-8').read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('MODELS', 'TRACES', 'ASSUMPTIONS'):
            setattr(ns, node.targets[0].id, ast.literal_eval(node.value))
    return ns


class Hang(Exception):
    """the code under test does not come to an end"""


class Tlc:
    """One TLC run; keeps the parsed outcome."""

    def __init__(self, module, cfg, scratch, env=None, timeout=800, workers='auto',
                 coverage=False, heap='6g', simulate=None):
        self.module, self.cfg = module, cfg
        work = tempfile.mkdtemp(dir=scratch)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + work, '-cp', JARS, 'tlc2.TLC',
               '-config', os.path.join(SPECS, cfg), '-workers', str(workers),
               '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE', '-deadlock']
        if coverage:
            cmd += ['-coverage', '1']
        if simulate:
            cmd += simulate
        cmd.append(os.path.join(SPECS, module + '.tla'))
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        t0 = time.time()
        out = os.path.join(work, 'out')
        with open(out, 'wb') as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e,
                                   cwd=SPECS, timeout=timeout)
                self.rc = p.returncode
            except subprocess.TimeoutExpired:
                self.rc = -1
        self.wall = time.time() - t0
        self.cases, self.verdicts, self.invariant, self.error = [], {}, None, None
        self.generated = self.distinct = 0
        self.actions = {}
        self.syntax = False
        tail, errs = [], []
        with open(out, encoding='utf-8', errors='replace') as f:
            for line in f:
                line = line.rstrip('\n')
                if line.startswith('"CASE '):
                    self.cases.append(json.loads(json.loads(line)[5:]))
                    continue
                if line.startswith('"V '):
                    v = json.loads(json.loads(line)[2:])
                    self.verdicts.setdefault(v['t'], []).append(v)
                    continue
                m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
                if m:
                    self.generated, self.distinct = int(m[1]), int(m[2])
                m = re.match(r'The number of states generated: (\d+)', line)
                if m:
                    self.generated = int(m[1]); self.distinct = self.distinct or int(m[1])
                m = re.match(r'<(\w+) line .* of module (\w+)( \(.*\))?>: (\d+):(\d+)', line)
                if m:
                    self.actions[m[1]] = max(self.actions.get(m[1], 0), int(m[5]))
                m = re.match(r'Error: (?:Invariant|Action property) (\S+) is violated', line)
                if m:
                    self.invariant = m[1]
                if (errs or line.startswith('Error') or '***' in line) and len(errs) < 60:
                    errs.append(line)
                if 'analysis failed' in line:
                    self.syntax = True
                tail.append(line)
                if len(tail) > 400:
                    del tail[:200]
        self.tail = '\n'.join(errs or tail[-40:])
        if self.rc == -1:
            self.error = 'TLC timeout after %ds' % timeout
        elif self.invariant is None and self.rc != 0:
            self.error = 'TLC exit %s' % self.rc
        shutil.rmtree(work, ignore_errors=True)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = self.transitions = self.accepted = self.replayed = 0
        self.calls = 0
        self.canaries = 0
        self.samples = []
        self.model_info = []
        self.clauses = {}
        self.exhaustive = True
        self.out_dir = os.path.join(VERIF, 'evidence')
        self.replay_dir = os.path.join(self.out_dir, 'replay', pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        os.makedirs(self.out_dir, exist_ok=True)
        self.mod = load_description(os.path.join(VERIF, 'drivers', pid.lower() + '.py'))
        self.findings = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']

    # ------------------------------------------------------------------
    def violation(self, what, detail):
        sig = detail.get('signature')
        for f in self.findings:
            if f['property'] == self.pid and sig is not None and f['signature'] == sig:
                if f not in self.known:
                    self.known.append(f)
                return
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, '%d.json' % (len(self.violations) + 1))
        if len(self.violations) < 20:
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': self.pid, 'what': what, 'detail': detail}, f,
                          ensure_ascii=False, indent=1)
        self.violations.append((what, path))

    def driver(self, *args, hashseed=0, timeout=600):
        cmd = [PY, os.path.join(VERIF, 'lib', 'driver.py'), self.pid.lower()] + list(args)
        try:
            p = subprocess.run(cmd, env=driver_env(hashseed), cwd=self.scratch,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Hang('the calls of %s did not come to an end in %d s' % (' '.join(args[:2]), timeout))
        if p.returncode != 0:
            raise MachineryError('driver failed: %s\n%s' % (
                ' '.join(args), p.stderr.decode('utf-8', 'replace')[-4000:]))
        return p.stdout.decode('utf-8', 'replace')

    # ------------------------------------------------------------------
    def simulation(self, m):
        if not m.get('simulate'):
            return None
        num, depth = m['simulate'][self.tier]
        return ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed)]

    def explore(self, m):
        cfg = m.get('cfg_thorough') if self.tier == 'thorough' and m.get('cfg_thorough') else m['cfg']
        return Tlc(m['module'], cfg, self.scratch, coverage=not m.get('kind'),
                   timeout=m.get('timeout', 700 if self.tier == 'quick' else 3400),
                   workers=m.get('workers', 'auto'), env=m.get('env'),
                   simulate=self.simulation(m))

    def run_models(self):
        for i, m in enumerate(getattr(self.mod, 'MODELS', [])):
            cfg = m.get('cfg_thorough') if self.tier == 'thorough' and m.get('cfg_thorough') else m['cfg']
            # action counts (-coverage) cannot be collected where operators nest
            # deeply; such a model counts the kinds of requests its cases have
            kind = m.get('kind')
            r = self.explored[i].result()
            if r.error or r.invariant:
                raise MachineryError('model %s: %s %s\n%s' % (
                    cfg, r.error or '', r.invariant or '', r.tail[-6000:]))
            self.states += r.distinct
            self.transitions += r.generated
            if kind:
                for c in r.cases:
                    x = c
                    for k in kind.split('.'): x = x[k]
                    r.actions[str(x)] = r.actions.get(str(x), 0) + 1
            dead = [a for a in m.get('actions', []) if not r.actions.get(a)]
            if dead:
                raise MachineryError('model %s: actions never taken: %s (seen %s)' % (cfg, dead, r.actions))
            info = {'module': m['module'], 'cfg': cfg, 'distinct_states': r.distinct,
                    'states_generated': r.generated, 'action_counts': r.actions,
                    'cases_printed': len(r.cases), 'wall_s': round(r.wall, 2)}
            self.model_info.append(info)
            if m.get('cases'):
                if not r.cases:
                    raise MachineryError('model %s printed no case' % cfg)
                # TLC may print a case once per worker retry: keep distinct ones
                seen, cases = set(), []
                for c in r.cases:
                    k = json.dumps(c, sort_keys=True)
                    if k not in seen:
                        seen.add(k); cases.append(c)
                self.replay_cases(m, cases)

    def replay_cases(self, m, cases):
        parts = max(1, min(os.cpu_count() or 1, len(cases) // 200))
        size = -(-len(cases) // parts)

        def part(k):
            inp = os.path.join(self.scratch, 'cases-%d.ndjson' % k)
            out = os.path.join(self.scratch, 'replayed-%d.ndjson' % k)
            with open(inp, 'w', encoding='utf-8') as f:
                for c in cases[k * size:(k + 1) * size]:
                    f.write(json.dumps(c) + '\n')
            self.driver('replay', m['module'], inp, out, hashseed=self.seed % 4294967295,
                        timeout=400 if self.tier == 'quick' else 3400)
            with open(out, encoding='utf-8') as f:
                return f.readlines()
        with ThreadPoolExecutor(parts) as pool:
            try:
                lines = [x for p in list(pool.map(part, range(parts))) for x in p]
            except Hang as e:
                return self.violation('hang', {'clause': str(e)})
        n = 0
        for c, line in zip(cases, lines):
            n += 1
            r = json.loads(line)
            if r['ok']:
                self.replayed += 1
            else:
                self.violation('replay', {'clause': r.get('clause', 'replay'), 'model': m['module'],
                                          'spec_case': c, 'code': r.get('got'),
                                          'readable': r.get('readable'),
                                          'signature': r.get('signature')})
        if n != len(cases):
            raise MachineryError('replay produced %d of %d results' % (n, len(cases)))

    # ------------------------------------------------------------------
    def record(self, ti, t, h):
        out = os.path.join(self.scratch, 'trace-%d-%d.ndjson' % (ti, h))
        self.driver('record', t['module'], out, str(self.seed), self.tier, str(h),
                    hashseed=(self.seed * 7919 + h * 104729) % 4294967295,
                    timeout=t.get('driver_timeout', 400 if self.tier == 'quick' else 3000))
        with open(out, encoding='utf-8') as f:
            return [json.loads(line) for line in f]

    def run_traces(self):
        for t, runs in self.recorded:
            try:
                recs = [x for run in runs for x in run.result()]
            except Hang as e:
                self.violation('hang', {'clause': str(e)})
                continue
            if not recs:
                raise MachineryError('no trace recorded for ' + t['module'])
            self.judge(t, recs)

    def culprits(self, tlc, feed, limit=6):
        path = os.path.join(self.scratch, 'bisect.ndjson')

        def fails(idx):
            with open(path, 'w', encoding='utf-8') as f:
                for i in idx:
                    f.write(json.dumps({k: v for k, v in feed[i].items() if k != 'readable'}) + '\n')
            return bool(tlc(path).error)
        todo, bad, runs = [list(range(len(feed)))], set(), 0
        while todo:
            idx = todo.pop()
            runs += 1
            if runs > 80 or len(bad) >= limit:
                return bad, False
            if not fails(idx):
                continue
            if len(idx) == 1:
                bad.add(idx[0])
                continue
            h = len(idx) // 2
            todo += [idx[h:], idx[:h]]
        return bad, True

    def judge(self, t, recs, deep=False):
        path = os.path.join(self.scratch, 'batch.ndjson')
        # a record the driver already knows to be unexplainable (never fed to TLC
        # because it cannot be encoded) is a rejection with the driver's clause
        feed = []
        for r in recs:
            if 'unencodable' in r:
                self.violation('trace', {'clause': r['unencodable'], 'trace': r.get('readable'),
                                         'signature': r.get('signature')})
            else:
                feed.append(r)
        with open(path, 'w', encoding='utf-8') as f:
            for r in feed:
                f.write(json.dumps({k: v for k, v in r.items() if k != 'readable'}) + '\n')
        def tlc(path, **k):
            return Tlc(t['module'], t['module'] + '.cfg', self.scratch, env={'TRACE': path},
                       timeout=t.get('timeout', 700 if self.tier == 'quick' else 3400),
                       heap=t.get('heap', '8g'), **k)

        r = tlc(path)
        if r.error and r.rc != -1 and len(feed) > 1 and not deep and not r.syntax:
            # The specification could not be evaluated on some observation (a
            # value of a type no behaviour has): find it; the rest is judged.
            bad, complete = self.culprits(tlc, feed)
            for b in sorted(bad):
                if not feed[b].get('canary'):
                    self.violation('trace', {'clause': 'the observation has no meaning in the specification',
                                             'trace': feed[b], 'readable': feed[b].get('readable'),
                                             'signature': feed[b].get('signature')})
            if bad and complete:
                return self.judge(t, [x for i, x in enumerate(feed) if i not in bad], deep=True)
            if bad and self.violations:
                return
        if r.error or r.invariant:
            raise MachineryError('trace spec %s: %s %s\n%s' % (
                t['module'], r.error or '', r.invariant or '', r.tail[-8000:]))
        self.states += r.distinct
        self.transitions += r.generated
        n_acc = 0
        bad_canaries = []
        for i, rec in enumerate(feed, 1):
            vs = r.verdicts.get(i, [])
            acc = any(v['v'] == 'ACCEPT' for v in vs)
            rej = [v for v in vs if v['v'] != 'ACCEPT']
            if rec.get('canary'):
                if acc:
                    bad_canaries.append((i, rec))
                else:
                    self.canaries += 1
                continue
            if acc and not (rej and t.get('deterministic', True)):
                n_acc += 1
                self.accepted += 1
                self.calls += rec.get('ncalls', len(rec['calls']) if isinstance(rec.get('calls'), list) else 1)
                if len(self.samples) < 3 and rec.get('readable'):
                    self.samples.append(rec['readable'])
            else:
                clause = rej[0].get('c', '?') if rej else 'no behaviour of the specification explains the trace'
                self.clauses[str(clause)] = self.clauses.get(str(clause), 0) + 1
                self.violation('trace', {'clause': clause, 'spec': rej[0].get('e') if rej else None,
                                         'at_event': rej[0].get('l') if rej else None,
                                         'trace': {k: v for k, v in rec.items()},
                                         'readable': rec.get('readable'),
                                         'signature': rec.get('signature')})
        if bad_canaries and not self.violations:
            raise MachineryError('corrupted trace accepted by %s: %r' % (t['module'], bad_canaries[0][1]))
        self.model_info.append({'module': t['module'], 'distinct_states': r.distinct,
                                'states_generated': r.generated, 'traces': len(feed),
                                'accepted': n_acc, 'wall_s': round(r.wall, 2)})

    # ------------------------------------------------------------------
    def finish(self):
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.accepted,
                'spec_behaviours_replayed_in_impl': self.replayed,
                'corrupted_traces_rejected': self.canaries,
                'implementation_calls_in_traces': self.calls,
                'samples': self.samples or ['(see runs)'],
                'runs': self.model_info,
            },
            'assumptions': getattr(self.mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        with open(os.path.join(self.out_dir, self.pid + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)

    def run(self):
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix='soyv-', dir=base)
        recorders, explorers = ThreadPoolExecutor(4), ThreadPoolExecutor(1)
        try:
            # the code is run while TLC explores the models
            self.recorded = [(t, [recorders.submit(self.record, ti, t, h)
                                  for h in range(t.get('hashseeds', {'quick': 1, 'thorough': 2})[self.tier])])
                             for ti, t in enumerate(getattr(self.mod, 'TRACES', []))]
            self.explored = [explorers.submit(self.explore, m) for m in getattr(self.mod, 'MODELS', [])]
            self.run_traces()
            self.run_models()
        finally:
            for pool in (recorders, explorers):
                pool.shutdown(wait=True, cancel_futures=True)
            shutil.rmtree(self.scratch, ignore_errors=True)
        self.finish()
        for f in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        for what, path in self.violations[:5]:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if len(self.violations) > 5:
            print('... and %d more' % (len(self.violations) - 5))
        print('%s %s: states=%d transitions=%d traces=%d replayed=%d canaries=%d violations=%d %.1fs' % (
            self.pid, self.tier, self.states, self.transitions, self.accepted, self.replayed,
            self.canaries, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
