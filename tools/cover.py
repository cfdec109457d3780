"""Which lines of soynlp no history of the quick checks runs: cover.py [Cnn...]"""
import collections, importlib, os, random, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SOYNLP_REPO', '/repo')
if len(sys.argv) > 2 and sys.argv[1] == '-one':
    sys.dont_write_bytecode = True
    sys.path[:0] = [HERE + '/lib', HERE + '/drivers', REPO]
    import warnings; warnings.simplefilter('ignore')
    hits = collections.defaultdict(set)
    def local(f, e, a):
        if e == 'line': hits[f.f_code.co_filename].add(f.f_lineno)
        return local
    def tr(f, e, a):
        n = f.f_code.co_filename
        if '/soynlp/' not in n or not n.startswith(REPO): return None
        hits[n].add(f.f_lineno)
        return local
    sys.settrace(tr)
    out = open('/tmp/cover.%s' % sys.argv[2], 'w')
    try:
        mod = importlib.import_module(sys.argv[2].lower())
        import time
        for t in mod.TRACES:
            t0 = time.time()
            for i in mod.record(t['module'], random.Random(7), 'quick'):
                try: i() if callable(i) else i
                except Exception: pass
                if time.time() - t0 > 240: break
    finally:
        sys.settrace(None)
        for n in hits: out.write(n + ' ' + ' '.join(map(str, sorted(hits[n]))) + '\n')
        out.close()
    sys.exit()
from concurrent.futures import ThreadPoolExecutor
ids = sys.argv[1:] or ['C%02d' % i for i in range(1, 36)]
def one(i): subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', __file__, '-one', i], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONPATH=REPO))
list(ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))).map(one, ids))
hits = collections.defaultdict(set)
for i in ids:
    for l in open('/tmp/cover.' + i):
        n, *r = l.split(); hits[n] |= set(map(int, r))
def lines(co, skip=False):
    s = set(l for _, _, l in co.co_lines() if l)
    if co.co_name != '<module>': s.discard(co.co_firstlineno)
    else: s = set()
    for c in co.co_consts:
        if hasattr(c, 'co_lines'): s |= lines(c)
    return s
for d, _, fs in os.walk(REPO + '/soynlp'):
    for f in sorted(fs):
        if not f.endswith('.py'): continue
        p = os.path.join(d, f)
        src = open(p, encoding='utf-8').read()
        all_ = lines(compile(src, p, 'exec'))
        miss = sorted(all_ - hits[p])
        if not miss: continue
        print('== %s: %d of %d lines not run' % (p[len(REPO) + 1:], len(miss), len(all_)))
        L = src.split('\n')
        for m in miss: print('%5d %s' % (m, L[m - 1]))
