"""Used by mutate.py: base|check Cnn seeds."""
import importlib, itertools, json, os, random, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + '/lib', HERE + '/drivers']
import warnings
warnings.simplefilter('ignore')
what, i, seeds = sys.argv[1], sys.argv[2], int(sys.argv[3])
W = '/tmp/mut'
def dump(f):
    try:
        x = f() if callable(f) else f
        if x is not None: x = {k: v for k, v in x.items() if k != 'readable'}
        return json.dumps(x, sort_keys=True, default=lambda x: x.item() if hasattr(x, 'item') else repr(x))
    except Exception as e: return 'EXC %s' % type(e).__name__
t0 = time.time()
mod = importlib.import_module(i.lower())
n = 0
for t in getattr(mod, 'TRACES', []):
    for s in range(seeds):
        rng = random.Random('%s/%s/%s' % (i, t['module'], s))
        path = '%s/%s.%s.%d' % (W, i, t['module'], s)
        base = None if what == 'base' else open(path)
        out = open(path, 'w') if what == 'base' else None
        for item in mod.record(t['module'], rng, 'quick'):
            l = dump(item); n += 1
            if out: out.write(l + '\n')
            elif l != base.readline().rstrip('\n'):
                print('record', s, n, l[:100]); sys.exit(1)
        if out: out.close()
t1 = time.time()
k = 0
if os.path.exists('%s/%s.cases' % (W, i)):
    for line in open('%s/%s.cases' % (W, i)):
        if time.time() - t1 > 12: break
        m, c = json.loads(line)
        try: ok = mod.replay(m, c)['ok']
        except Exception: ok = False
        k += 1
        if not ok: print('replay', k); sys.exit(1)
print('same', n, 'records %.0f s' % (t1 - t0), k, 'replays %.0f s' % (time.time() - t1))
