"""Mutation testing of the checks: small syntactic changes of /repo, each run against the checks that reach the line.

usage: mutate.py list FILE...            (count)
       mutate.py run OUT N SEED [FILE...] (N random mutants over 8 workers)
Needs /tmp/cov/CNN.lines (VERIF_COV runs) and writes one line of JSON per mutant to OUT.
"""
import ast
import concurrent.futures
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time

REPO = '/repo'
SKIPFN = {'__repr__', 'write_dotfile', 'generate_dot', 'tex', 'print_growth_diagram', 'box_operator_printer', 'print_commutator',
          'compare', 'compare_AL_R_versus_R_AL', 'print_diagram', 'print_shifted', 'print_matrix', '_repr_coeff', 'combine_str'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//', ast.Pow: '*'}


class Src:
    def __init__(self, path):
        self.text = open(path).read()
        self.lines = self.text.split('\n')
        self.offs = [0]
        for l in self.lines:
            self.offs.append(self.offs[-1] + len(l.encode()) + 1)
        self.raw = self.text.encode()

    def span(self, node):
        return self.offs[node.lineno - 1] + node.col_offset, self.offs[node.end_lineno - 1] + node.end_col_offset

    def seg(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()


def mutants(path):
    s = Src(path)
    tree = ast.parse(s.text)
    out = []
    args, current = [], [None]

    def emit(node, new, what, fn):
        a, b = s.span(node)
        out.append({'node': (a, b), 'args': tuple(args),'file': os.path.basename(path), 'line': node.lineno, 'a': a, 'b': b, 'new': new, 'what': what, 'fn': fn,
                    'old': s.raw[a:b].decode()})

    def between(left, right, new, what, fn):
        a, b = s.span(left)[1], s.span(right)[0]
        whole = s.span(current[0])
        old = s.raw[a:b].decode()
        op = old.strip('() \n\\')
        if op and old.count(op) == 1:
            out.append({'node': whole, 'args': tuple(args), 'file': os.path.basename(path), 'line': left.end_lineno, 'a': a, 'b': b, 'new': old.replace(op, new), 'what': what,
                        'fn': fn, 'old': s.seg(left) + old + s.seg(right)})

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(node, ast.FunctionDef):
                fn = node.name
                if fn in SKIPFN:
                    return
                args[:] = [a.arg for a in node.args.args + ([node.args.vararg] if node.args.vararg else []) if a.arg != 'cls']
            for d in node.body:
                visit(d, fn)
                if isinstance(node, ast.FunctionDef):
                    args[:] = [a.arg for a in node.args.args + ([node.args.vararg] if node.args.vararg else []) if a.arg != 'cls']
            return
        current[0] = node
        if isinstance(node, (ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if fn:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                between(node.left, node.comparators[0], CMP[type(node.ops[0])], 'cmp', fn)
            elif isinstance(node, ast.Compare):
                items = [node.left] + node.comparators
                for k, op in enumerate(node.ops):
                    between(items[k], items[k + 1], CMP[type(op)], 'cmp', fn)
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant) | isinstance(node.left, ast.JoinedStr):
                between(node.left, node.right, BIN[type(node.op)], 'arith', fn)
            elif isinstance(node, ast.BoolOp):
                for k in range(len(node.values) - 1):
                    between(node.values[k], node.values[k + 1], 'or' if isinstance(node.op, ast.And) else 'and', 'bool', fn)
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)) and not isinstance(node.operand, ast.Constant):
                emit(node, '(' + s.seg(node.operand) + ')', 'unary', fn)
            elif isinstance(node, ast.Constant):
                if node.value is True or node.value is False:
                    emit(node, str(not node.value), 'flag', fn)
                elif type(node.value) == int:
                    emit(node, str(node.value + 1), 'const', fn)
                    if node.value > 0:
                        emit(node, str(node.value - 1), 'const', fn)
            elif isinstance(node, (ast.If, ast.IfExp)) or isinstance(node, ast.While):
                if not isinstance(node, ast.While):
                    emit(node.test, 'True', 'test', fn)
                emit(node.test, 'False', 'test', fn)
            elif isinstance(node, (ast.Continue, ast.Break)):
                emit(node, 'pass', 'jump', fn)
            elif isinstance(node, ast.AugAssign) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                emit(node, 'pass', 'drop', fn)
            elif isinstance(node, ast.comprehension):
                for t in node.ifs:
                    emit(t, 'True', 'test', fn)
        for child in ast.iter_child_nodes(node):
            visit(child, fn)

    for node in tree.body:
        visit(node, None)
    return out


def guarded(m, raw, rng):
    """the same change, but only when an argument of the function is of a particular size or form"""
    if not m['args']:
        return None
    a, b = m['node']
    old = raw[a:b].decode()
    new = (raw[a:m['a']] + m['new'].encode() + raw[m['b']:b]).decode()
    if old.startswith('f"') or '\n' in old:
        return None
    k, big = rng.randint(2, 4), rng.randint(2, 4)
    number = rng.choice(['_v == %d' % rng.randint(0, 4), '_v == %d' % k, '_v > %d' % (big - 1), '_v %% 3 == %d' % (k % 3)])
    seq = rng.choice(['len(_v) == %d' % rng.randint(1, 3), 'len(_v) > %d' % (k - 1), 'len(_v) > 1 and _v[-1] + 1 < _v[-2]', 'len(_v) > 1 and _v[-1] == _v[-2]', 'len(_v) > 2 and _v[0] == _v[2]',
                      'len(_v) > 1 and type(_v[0]) == int and max(map(abs, _v)) > %d' % (big + 1), 'len(_v) > 1 and type(_v[0]) == int and sum(_v) %% 4 == %d' % (k % 4)])
    guard = ('(lambda _v: (%s) if type(_v) is int else (%s) if isinstance(_v, (tuple, list)) else len(_v) > %d if isinstance(_v, dict) else '
             'len(_v.boxes) > %d if hasattr(_v, "boxes") else len(_v.oneline) > %d if hasattr(_v, "oneline") else len(_v.coeffs) > %d if hasattr(_v, "coeffs") '
             'else len(_v.dictionary) > %d if hasattr(_v, "dictionary") else False)(%s)') % (number, seq, k, big + 1, big, k, k, rng.choice(m['args']))
    if m['what'] in ('drop', 'jump'):
        text = 'if not %s: %s' % (guard, old)
    else:
        text = '((%s) if %s else (%s))' % (new, guard, old)
    return dict(m, a=a, b=b, new=text, old=old, guard='%s | %s | %s' % (number, seq, guard[guard.rindex('('):]), plain=new)


def coverage():
    cov = {}
    for f in glob.glob('/tmp/cov/*.lines'):
        pid = os.path.basename(f)[:3]
        for l in open(f):
            n, k = l.split()
            cov.setdefault((n, int(k)), set()).add(pid)
    return cov


def run(job):
    k, m, checks, cap = job
    base = '/tmp/mut/w%d' % (os.getpid() % 100000)
    if not os.path.exists(base):
        os.makedirs(base)
        shutil.copytree(REPO, base + '/repo', ignore=shutil.ignore_patterns('.git', 'tests', '__pycache__'))
        shutil.copytree(os.environ.get('VERIF_SRC', '/verif'), base + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'replays', 'seeded', '__pycache__'))
    src = open('%s/%s' % (REPO, m['file']), 'rb').read()
    new = src[:m['a']] + m['new'].encode() + src[m['b']:]
    target = '%s/repo/%s' % (base, m['file'])
    t0 = time.time()
    m = dict(m, k=k, checks=[])
    try:
        compile(new, target, 'exec')
    except SyntaxError:
        return dict(m, status='syntax')
    open(target, 'wb').write(new)
    env = dict(os.environ, VERIF_REPO=base + '/repo', VERIF_JOBS='1', VERIF_FAILFAST='1')
    status = 'survived'
    try:
        for c in checks:
            if time.time() - t0 > cap and status == 'survived':
                status = 'survived-capped'
                break
            m['checks'].append(c)
            p = subprocess.Popen(['./run.sh', c, 'quick'], cwd=base + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 text=True, start_new_session=True)
            try:
                out, _ = p.communicate(timeout=400)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                status = 'timeout ' + c
                break
            if p.returncode == 1:
                law = [l for l in out.split('\n') if l.startswith('law ')]
                status = 'killed ' + c + ' ' + (law[0].split()[1] if law else '?')
                break
            if p.returncode != 0:
                status = 'error %s rc=%s' % (c, p.returncode)
                break
    finally:
        open(target, 'wb').write(src)
    return dict(m, status=status, secs=round(time.time() - t0, 1))


def main():
    cov = coverage()
    files = [a for a in sys.argv[2:] if a.endswith('.py')] or [os.path.basename(f) for f in sorted(glob.glob(REPO + '/*.py')) if 'scrap' not in f]
    allm = [m for f in files for m in mutants(REPO + '/' + f)]
    if sys.argv[1] == 'list':
        import collections
        print(collections.Counter(m['file'] for m in allm), len(allm), sum(1 for m in allm if (m['file'], m['line']) in cov))
        return
    out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    rng = random.Random(seed)
    cost = json.load(open('/tmp/cov/cost.json'))
    share = {}
    for (f, l), s in cov.items():
        for c in s:
            share[f, c] = share.get((f, c), 0) + 1
    allm = [m for m in allm if (m['file'], m['line']) in cov]
    if os.environ.get('GUARDED'):
        raws = {f: open(REPO + '/' + f, 'rb').read() for f in files}
        allm = [m for m in (guarded(m, raws[m['file']], rng) for m in allm) if m]
    # spread over functions: shuffle, then take round robin by function
    rng.shuffle(allm)
    seen = {}
    order = []
    for m in allm:
        key = m['file'], m['fn']
        seen[key] = seen.get(key, 0) + 1
        order.append((seen[key], rng.random(), m))
    order.sort(key=lambda t: t[:2])
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['a'], r['b'], r['new']) for r in map(json.loads, open(out))}
    jobs = []
    for k, (_, _, m) in enumerate(order[int(os.environ.get("SKIP", "0")):n]):
        if (m['file'], m['a'], m['b'], m['new']) in done:
            continue
        checks = sorted(cov[m['file'], m['line']], key=lambda c: (c in ('C37', 'C38'), cost[c] / (1 + share[m['file'], c]) ** .7))
        jobs.append((k, m, checks, int(os.environ.get("CAP", "400"))))
    with concurrent.futures.ProcessPoolExecutor(int(os.environ.get('WIDTH', '8'))) as ex, open(out, 'a') as f:
        for r in ex.map(run, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
