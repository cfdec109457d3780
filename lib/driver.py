"""Runs inside /opt/venv/bin/python with /repo on the path: records executions of
the real code, or replays behaviours of the specification in it.

  driver.py <prop> record <trace module> <out> <seed> <tier> <variant>
  driver.py <prop> replay <model module> <in> <out>
"""
import contextlib, importlib, io, json, os, random, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'drivers'))
import warnings
warnings.simplefilter('ignore')


def too_big(x):
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return abs(x) > 2 ** 31 - 1
    if isinstance(x, float):
        return True
    if isinstance(x, dict):
        return any(too_big(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(too_big(v) for v in x)
    return x is None


def plain(x):
    return x.item() if hasattr(x, 'item') else repr(x)


def settle(item, kind):
    """item: a record, or a function making one from the code's results.  A
    function that fails met a result of a shape the API does not promise."""
    if not callable(item):
        return item
    try:
        return item()
    except Exception as e:
        where = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
        return kind(e, where)


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    mod = importlib.import_module(prop)
    if mode == 'record':
        module, out, seed, tier, variant = sys.argv[3:8]
        rng = random.Random('%s/%s/%s/%s' % (prop, module, seed, variant))
        with open(out, 'w', encoding='utf-8') as f:
            for item in mod.record(module, rng, tier):
                rec = settle(item, lambda e, w: {
                    'unencodable': 'result of an unexpected shape: %s %s' % (type(e).__name__, e),
                    'readable': w})
                if rec is None:
                    continue
                if 'unencodable' not in rec and too_big({k: v for k, v in rec.items() if k != 'readable'}):
                    rec = {'unencodable': 'result outside the integers of the model', 'readable': repr(rec)[:4000]}
                f.write(json.dumps(rec, default=plain) + '\n')
    else:
        module, inp, out = sys.argv[3:6]
        with open(inp, encoding='utf-8') as f, open(out, 'w', encoding='utf-8') as g:
            for line in f:
                case = json.loads(line)
                r = settle(lambda: mod.replay(module, case), lambda e, w: {
                    'ok': False, 'clause': 'result of an unexpected shape: %s' % e, 'got': w})
                g.write(json.dumps(r, default=plain) + '\n')

main()
