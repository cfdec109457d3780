"""Which small changes of soynlp would the conformance checks not notice?
mutate.py cases Cnn...           keeps the behaviours TLC prints, in /tmp/mut
mutate.py base Cnn...            keeps what the drivers record from the unchanged code
mutate.py run FILE Cnn... [-j N] mutates FILE (relative to /repo) one place at a time, in scratch copies, and lists
                                 the changes for which no driver of Cnn... records or replays anything else
A difference is not yet a verdict (TLC gives that in the check); no difference is a blind spot, or a change
that changes nothing."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/lib')
import engine
W = "/tmp/mut"
SEEDS = 2

def cases(ids):
    for i in ids:
        m = engine.load_description('%s/drivers/%s.py' % (HERE, i.lower()))
        with open('%s/%s.cases' % (W, i), 'w') as f:
            for x in getattr(m, 'MODELS', []):
                if not x.get('cases'): continue
                t = engine.Tlc(x['module'], x['cfg'], tempfile.mkdtemp(dir=W), workers=x.get('workers', 4), env=x.get('env'),
                               simulate=['-simulate', 'num=%d' % x['simulate']['quick'][0], '-depth', str(x['simulate']['quick'][1]), '-seed', '1'] if x.get('simulate') else None)
                n = {json.dumps([x['module'], c]) for c in t.cases}
                n = sorted(n); random.Random(1).shuffle(n)
                for c in n: f.write(c + '\n')
                print(i, x['module'], len(n), flush=True)

def runner(args, repo, timeout):
    d = tempfile.mkdtemp(dir=W); os.chmod(d, 0o777)
    env = dict(engine.driver_env(0), PYTHONPATH=repo)
    try:
        p = subprocess.run([engine.PY, HERE + '/tools/mutrun.py'] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, user='nobody', group='nogroup')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 1, 'TIMEOUT'
    finally: shutil.rmtree(d, ignore_errors=True)

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}

def sites(tree):
    """(node, change) for every single change; change() edits a parent in place and returns an undo"""
    out = []
    def quiet(n):
        return isinstance(n, ast.If) and any(w in ast.unparse(n.test) for w in ('verbose', 'debug', 'sys.version', '__main__'))
    def setter(o, f, v, i=None):
        def go():
            if i is None: old = getattr(o, f); setattr(o, f, v); return lambda: setattr(o, f, old)
            l = getattr(o, f); old = l[i]; l[i] = v
            def undo(): l[i] = old
            return undo
        return go
    def walk(n, parent=None):
        if quiet(n):
            for x in n.orelse: walk(x)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant,)): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ('print', 'sys.stdout.write', 'warnings.warn'): return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)): return
        def add(what, go): out.append((n.lineno if hasattr(n, 'lineno') else 0, what, go))
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for t in CMP[type(op)]: add('%s -> %s in %s' % (type(op).__name__, t.__name__, ast.unparse(n)), setter(n, 'ops', t(), i))
        if isinstance(n, ast.BoolOp):
            add('and/or in ' + ast.unparse(n), setter(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                add('without %s in %s' % (ast.unparse(n.values[i]), ast.unparse(n)), setter(n, 'values', n.values[:i] + n.values[i + 1:]))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add('op in ' + ast.unparse(n), setter(n, 'op', BIN[type(n.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN: add('op in ' + ast.unparse(n), setter(n, 'op', BIN[type(n.op)]()))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): add('not %r' % v, setter(n, 'value', not v))
            elif isinstance(v, int): add('%r + 1' % v, setter(n, 'value', v + 1)); add('%r - 1' % v, setter(n, 'value', v - 1))
            elif isinstance(v, float): add('%r * 1.3' % v, setter(n, 'value', v * 1.3)); add('%r * .7' % v, setter(n, 'value', v * 0.7))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) : add('without not: ' + ast.unparse(n), setter(n, 'operand', ast.UnaryOp(ast.Not(), n.operand)))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in ((True, False) if not isinstance(n, ast.While) else (False,)): add('condition %s is %s' % (ast.unparse(n.test)[:60], v), setter(n, 'test', ast.Constant(v)))
        if isinstance(n, ast.comprehension):
            for i in range(len(n.ifs)): out.append((n.ifs[i].lineno, 'no filter ' + ast.unparse(n.ifs[i]), setter(n, 'ifs', n.ifs[:i] + n.ifs[i + 1:])))
        if isinstance(n, (ast.Set, ast.List)) and len(n.elts) > 1:
            for i in sorted(random.Random(len(n.elts)).sample(range(len(n.elts)), min(len(n.elts), 3))):
                if isinstance(n.elts[i], ast.Constant): add('without element ' + ast.unparse(n.elts[i]), setter(n, 'elts', n.elts[:i] + n.elts[i + 1:]))
        if isinstance(n, ast.Slice):
            for f in ('lower', 'upper'):
                if getattr(n, f) is not None: add('no %s bound in slice %s' % (f, ast.unparse(n)), setter(n, f, None))
        if isinstance(n, ast.Call):
            fn = ast.unparse(n.func)
            if fn in ('min', 'max'): add('min/max in ' + ast.unparse(n), setter(n, 'func', ast.Name({'min': 'max', 'max': 'min'}[fn])))
            if fn in ('sorted', 'set', 'list', 'tuple', 'abs', 'copy', 'deepcopy') and len(n.args) == 1 and not n.keywords: add('without ' + ast.unparse(n), setter(n, 'func', ast.parse('(lambda x: x)').body[0].value))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'copy', 'lower', 'rstrip') and not n.args: add('without ' + ast.unparse(n), setter(n, 'func', ast.Lambda(ast.parse('(lambda:0)').body[0].value.args, n.func.value)))
        for f, v in ast.iter_fields(n):
            if f in ('decorator_list', 'annotation'): continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if 'verbose' in ast.unparse(x)[:40]: pass
                    elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Expr)) and f in ('body', 'orelse'):
                        if not (isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or 'print(' in ast.unparse(x) or 'stdout' in ast.unparse(x) or 'warn' in ast.unparse(x))):
                            out.append((x.lineno, 'without ' + ast.unparse(x)[:80].replace('\n', ' '), setter(n, f, ast.Pass(), i)))
                    if isinstance(x, ast.Return) and x.value is not None and f in ('body', 'orelse') and len(v) > 0 and isinstance(n, (ast.If, ast.For)):
                        out.append((x.lineno, 'without ' + ast.unparse(x)[:80].replace('\n', ' '), setter(n, f, ast.Pass(), i)))
                    if isinstance(x, ast.AST): walk(x, n)
            elif isinstance(v, ast.AST): walk(v, n)
    walk(tree)
    return out

def run(file, ids, jobs, only=None, sample=None):
    src = open('/repo/' + file, encoding='utf-8').read()
    tree = ast.parse(src)
    ss = sites(tree)
    muts = []
    for line, what, go in ss:
        undo = go()
        try: text = ast.unparse(ast.fix_missing_locations(copy.deepcopy(tree)))
        except Exception: text = None
        undo()
        if text: muts.append((line, what, text))
    seen, uniq = {ast.unparse(tree)}, []
    for m in muts:
        if m[2] not in seen and not (only and not (only[0] <= m[0] <= only[1])): seen.add(m[2]); uniq.append(m)
    if sample and len(uniq) > sample: uniq = sorted(random.Random(3).sample(uniq, sample))
    print(file, len(uniq), 'changes', flush=True)
    import queue, threading
    dirs = queue.Queue()
    for k in range(jobs):
        d = tempfile.mkdtemp(dir=W); os.chmod(d, 0o755)
        shutil.copytree('/repo/soynlp', d + '/soynlp', ignore=shutil.ignore_patterns('__pycache__')); dirs.put(d)
    stats = {'killed': 0, 'survived': 0}
    lock = threading.Lock()
    def one(m):
        d = dirs.get()
        try:
            with open(d + '/' + file, 'w', encoding='utf-8') as f: f.write(m[2])
            for i in ids:
                rc, out = runner(['check', i, str(SEEDS)], d, 170)
                if rc: break
            with lock:
                stats['killed' if rc else 'survived'] += 1
                if not rc: print('SURVIVED %s:%d %s' % (file, m[0], m[1].replace('\n', ' ')[:200]), flush=True)
                elif os.environ.get('MUT_KILLS'): print('killed %s:%d %s | %s' % (file, m[0], m[1][:100], out[-150:]), flush=True)
        finally:
            dirs.put(d)
    with ThreadPoolExecutor(jobs) as pool: list(pool.map(one, uniq))
    while not dirs.empty(): shutil.rmtree(dirs.get(), ignore_errors=True)
    print(file, stats, flush=True)

if __name__ == '__main__':
    os.makedirs(W, exist_ok=True); os.chmod(W, 0o777)
    what, a = sys.argv[1], sys.argv[2:]
    jobs, only, sample = 7, None, None
    while '-j' in a: k = a.index('-j'); jobs = int(a[k + 1]); del a[k:k + 2]
    while '-l' in a: k = a.index('-l'); only = tuple(map(int, a[k + 1].split('-'))); del a[k:k + 2]
    while '-n' in a: k = a.index('-n'); sample = int(a[k + 1]); del a[k:k + 2]
    if what == 'cases': cases(a)
    elif what == 'base':
        def b(i):
            rc, out = runner(['base', i, str(SEEDS)], '/repo', 900)
            rc2, out2 = runner(['check', i, str(SEEDS)], '/repo', 900)
            print(i, rc, out.strip()[-300:], '| again', rc2, out2.strip()[-300:], flush=True)
        with ThreadPoolExecutor(jobs) as pool: list(pool.map(b, a))
    elif what == 'run': run(a[0], a[1:], jobs, only, sample)
