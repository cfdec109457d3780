"""Plants one bug: python3 tools/plant.py SEEDFILE.
SEEDFILE (Python) defines id, property, needs, breaks, edits [(file, old, new)], demo (source).
Everything happens in a scratch copy of /repo; the seed is kept under /verif/seeded/<id>
only when the demo passes before, fails after, and the stable tests still pass."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)

def main(path):
    for S in load(path):
        plant(S)

def load(path):
    g = {}
    exec(open(path, encoding='utf-8').read(), g)
    return g['SEEDS']

def plant(S):
    work = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(work, 'repo'); demo = os.path.join(work, 'demo')
        shutil.copytree('/repo', repo, symlinks=True); os.mkdir(demo)
        open(demo + '/demo.py', 'w', encoding='utf-8').write(S['demo'].strip() + '\n')
        open(demo + '/demo.sh', 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 OMP_NUM_THREADS=1\n'
            'PYTHONPATH="$PWD" exec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        d = run(['bash', demo + '/demo.sh'], repo)
        if d.returncode: return print(S['id'], 'DEMO FAILS UNCHANGED', d.stdout[-800:])
        for f, a, b in S['edits']:
            s = open(repo + '/' + f, encoding='utf-8').read()
            if s.count(a) != 1: return print(S['id'], 'EDIT %d MATCHES' % s.count(a), a)
            open(repo + '/' + f, 'w', encoding='utf-8').write(s.replace(a, b))
        d = run(['bash', demo + '/demo.sh'], repo)
        if not d.returncode: return print(S['id'], 'DEMO PASSES WITH THE BUG')
        t = run(['bash', '-c', 'sed "s#/repo#%s#g" /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/out.json' % (repo, work, work, work)], repo)
        out = json.load(open(work + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(out.get('passed') or [k for k, v in out.items() if v in ('passed', 'pass', True)])
        miss = [b for b in base if b not in passed]
        if miss: return print(S['id'], 'TESTS FAIL', miss, t.stdout[-1500:])
        diff = run(['git', 'diff', '--', 'soynlp'], repo).stdout
        dst = os.path.join(HERE, 'seeded', S['id'])
        shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
        for n in ('demo.py', 'demo.sh'): shutil.copy(demo + '/' + n, dst)
        open(dst + '/patch.diff', 'w', encoding='utf-8').write(diff)
        json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']},
                  open(dst + '/meta.json', 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
        print(S['id'], 'planted;', (d.stdout.strip().splitlines() or ['-'])[-1][:150])
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    for p in sys.argv[1:]: main(p)
