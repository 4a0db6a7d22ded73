"""How large the arguments are that reach each function of the code under test.

With VERIF_DOM=DIR in the environment the harness records, for every function of
the repository, the extreme sizes of the arguments it was entered with; and
    python3 tools/domain.py DIR
prints one line per function. Used to look for generators that stay too small.
"""
import collections
import os
import sys

BEST = {}


def measure(x, out, key, depth=0):
    if isinstance(x, bool) or x is None:
        k = key + '=' + str(x)
        out[k] = 1
    elif isinstance(x, int):
        out[key] = max(out.get(key, 0), min(abs(x), 10 ** 9))
        if x < 0:
            out[key + '<0'] = 1
    elif isinstance(x, (tuple, list, set, frozenset)):
        out[key + '#'] = max(out.get(key + '#', 0), len(x))
        if depth < 3:
            for y in list(x)[:40]:
                measure(y, out, key + '[]', depth + 1)
    elif type(x).__name__ == 'Permutation':
        out[key + '.rank'] = max(out.get(key + '.rank', 0), len(x.oneline))
    elif type(x).__name__ in ('Tableau', 'ReversePlanePartition', 'MarkedReversePlanePartition'):
        boxes = x.boxes
        out[key + '.cells'] = max(out.get(key + '.cells', 0), len(boxes))
        for (i, j), v in list(boxes.items())[:60]:
            out[key + '.row'] = max(out.get(key + '.row', 0), i)
            out[key + '.col'] = max(out.get(key + '.col', 0), j)
            out[key + '.set'] = max(out.get(key + '.set', 0), len(v))
            for y in v:
                out[key + '.entry'] = max(out.get(key + '.entry', 0), abs(y))
    elif type(x).__name__ in ('Vector', 'Polynomial', 'SymmetricPolynomial', 'MonomialTerm'):
        try:
            out[key + '.terms'] = max(out.get(key + '.terms', 0), len(x.dictionary if hasattr(x, 'dictionary') else x.coeffs))
        except Exception:
            pass
    elif isinstance(x, dict):
        out[key + '{}'] = max(out.get(key + '{}', 0), len(x))


def start(repo):
    m = sys.monitoring
    tool = m.PROFILER_ID
    m.use_tool_id(tool, 'domain')
    base = repo.rstrip('/') + '/'
    count = collections.Counter()

    def enter(code, offset):
        if not code.co_filename.startswith(base) or code.co_name.startswith('<'):
            return m.DISABLE
        key = code.co_filename[len(base):], code.co_qualname
        count[key] += 1
        if count[key] > 20000 and count[key] % 50:
            return None
        f = sys._getframe(1)
        out = BEST.setdefault(key, {})
        names = code.co_varnames[:code.co_argcount + bool(code.co_flags & 4)]
        for a in names:
            if a in ('cls',):
                continue
            try:
                measure(f.f_locals.get(a), out, a)
            except AttributeError:   # still being constructed
                pass
        return None

    m.register_callback(tool, m.events.PY_START, enter)
    m.set_events(tool, m.events.PY_START)


def dump(folder):
    with open(os.path.join(folder, 'dom%d' % os.getpid()), 'w') as f:
        for (name, fn), d in BEST.items():
            for k, v in d.items():
                f.write('%s\t%s\t%s\t%d\n' % (name, fn, k, v))


def main(folder):
    best = collections.defaultdict(dict)
    for name in os.listdir(folder):
        if name.startswith('dom'):
            for line in open(os.path.join(folder, name)):
                a, b, k, v = line.rstrip('\n').split('\t')
                d = best[a, b]
                d[k] = max(d.get(k, 0), int(v))
    for (a, b), d in sorted(best.items()):
        print('%s %s: %s' % (a, b, ' '.join('%s:%d' % kv if '=' not in kv[0] else kv[0] for kv in d.items())))


if __name__ == '__main__':
    main(sys.argv[1])
