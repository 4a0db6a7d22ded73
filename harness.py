"""Driver for the property-based checks.

A check module (checks/cNN.py) declares laws with @law.  A law is a predicate
over plain literal data; it raises (AssertionError or anything else) when the
code under test breaks the property, and returns a falsy value for a trivial
case or a short class label for a non-trivial one.

    run.sh C01 quick|thorough          run all laws of a property
    run.sh C01 replay FILE             re-run a saved failing case, no hypothesis
    run.sh C01 quick --law NAME        development aid
"""
import ast
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

LAWS = []
KNOWN = set()
SCALE = {}   # law name -> factor on the number of generated cases of the quick tier, from quick_scale.json


class Law:
    def __init__(self, fn, strategy, quick, thorough, exhaustive, shards, case_cpu, weight, setup):
        self.fn = fn
        self.name = fn.__name__
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.exhaustive = exhaustive
        self.shards = shards
        self.case_cpu = case_cpu
        self.weight = weight
        self.setup = setup


def law(strategy=None, quick=200, thorough=None, exhaustive=None, shards=None, case_cpu=150, weight=1, setup=None):
    """strategy: hypothesis strategy of argument tuples, or a callable tier -> strategy.
    quick/thorough: number of generated examples per tier (thorough: per shard).
    exhaustive: callable tier -> iterable of argument tuples, run before the generated stage.
    shards: (quick, thorough) number of processes with different sub-seeds."""
    def wrap(fn):
        LAWS.append(Law(fn, strategy, quick, thorough or quick * 8, exhaustive, shards or (1, 3), case_cpu, weight, setup))
        return fn
    return wrap


class CaseTimeout(BaseException):
    pass


class Stop(KeyboardInterrupt):
    """Leaves hypothesis immediately."""


def full():
    """The caches of the code under test have filled this worker: stop it, well below its memory limit."""
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > (2048 << 10)


class Worker:
    def __init__(self, law, tier, seed, shard, nshards, deadline, gen=0, start=0, examples=None):
        # gen, start, examples: a worker that had to stop for memory is continued by a fresh one
        self.gen, self.start = gen, start
        self.examples = (int(law.quick * SCALE.get(law.name, 1)) if tier == 'quick' else law.thorough) if examples is None else examples
        self.resume = None
        self.law, self.tier, self.seed, self.shard, self.nshards = law, tier, seed, shard, nshards
        self.deadline = deadline
        self.evals = 0
        self.dups = 0
        self.classes = collections.Counter()
        self.nontrivial = set()
        self.seen = set()
        self.samples = []
        self.failure = None
        self.first_failure_at = None
        self.truncated = False
        self.exhaustive_cases = 0
        self.exhaustive_done = None
        self.max_case = 0.0
        self.hard = False

    def on_alarm(self, *_):
        raise CaseTimeout()

    def one(self, args, stage):
        """Evaluate one case; raises on failure."""
        text = repr(args)
        key = hashlib.blake2b(text.encode(), digest_size=8).digest()
        if key in self.seen:
            self.dups += 1
            return
        t0 = time.process_time()
        signal.setitimer(signal.ITIMER_PROF, self.law.case_cpu)
        try:
            label = self.law.fn(*args)
        except KeyboardInterrupt:
            raise
        except CaseTimeout:
            self.hard = True
            self.record(text, stage, 'no result within %s s of CPU time' % self.law.case_cpu, '')
            raise Stop()
        except MemoryError:
            self.hard = True
            self.record(text, stage, 'MemoryError', '')
            raise Stop()
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            signal.setitimer(signal.ITIMER_PROF, 0)
            if (self.law.name, text) in KNOWN:
                self.seen.add(key)
                self.evals += 1
                self.classes['known finding'] += 1
                return
            self.record(text, stage, '%s: %s' % (type(e).__name__, str(e)[:2000]), traceback.format_exc()[-4000:])
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        self.max_case = max(self.max_case, time.process_time() - t0)
        self.seen.add(key)
        self.evals += 1
        if label:
            label = label if isinstance(label, str) else 'nontrivial'
            self.classes[label] += 1
            self.nontrivial.add(key)
            n = self.classes[label]
            if n in (1, 7, 50) and len(self.samples) < 12:
                self.samples.append({'law': self.law.name, 'class': label, 'args': text[:400]})
        else:
            self.classes['trivial'] += 1

    def record(self, text, stage, error, tb):
        if self.first_failure_at is None:
            self.first_failure_at = time.time()
        f = self.failure
        if f is None or (len(text), text) < (len(f['args']), f['args']):
            self.failure = {'law': self.law.name, 'args': text, 'error': error, 'traceback': tb, 'stage': stage,
                            'shard': self.shard}

    def run(self):
        signal.signal(signal.SIGPROF, self.on_alarm)
        if self.law.setup:
            self.law.setup()
        if self.law.exhaustive is not None:
            self.exhaustive_done = True
            failures = 0
            for k, args in enumerate(self.law.exhaustive(self.tier)):
                if k % self.nshards != self.shard or k < self.start:
                    continue
                if time.time() > self.deadline:
                    self.truncated, self.exhaustive_done = True, False
                    break
                if full():
                    self.resume = (k, self.examples)
                    return
                self.exhaustive_cases += 1
                try:
                    self.one(args, 'exhaustive')
                except Stop:
                    return
                except Exception:
                    failures += 1
                    if failures >= 20 or time.time() > self.first_failure_at + 20:
                        return
            if self.failure:
                return
        if self.law.strategy is not None:
            self.generate()

    def generate(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        n = self.examples
        if n <= 0:
            return
        strategy = self.law.strategy
        if not isinstance(strategy, hypothesis.strategies.SearchStrategy):
            strategy = strategy(self.tier)
        sub = int.from_bytes(hashlib.blake2b(repr((self.seed, self.law.name, self.shard) + ((self.gen,) if self.gen else ())).encode(), digest_size=6).digest(), 'big')

        def body(args):
            now = time.time()
            if self.first_failure_at is not None and now > self.first_failure_at + 45:
                raise Stop()
            if self.first_failure_at is None and now > self.deadline:
                self.truncated = True
                raise Stop()
            if self.first_failure_at is None and full():
                self.resume = (10 ** 12, n - self.evals - self.dups + self.exhaustive_cases)
                raise Stop()
            self.one(args, 'generated')

        test = given(strategy)(body)
        test = hypothesis.seed(sub)(test)
        test = settings(
            max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink)[:1 if os.environ.get('VERIF_FAILFAST') else 2], verbosity=Verbosity.quiet, print_blob=False,
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example,
                                   HealthCheck.filter_too_much],
        )(test)
        try:
            test()
        except Stop:
            pass
        except Exception:
            # a law failure is in self.failure; anything else is a harness error
            if self.failure is None:
                raise

    def result(self):
        return {
            'law': self.law.name, 'shard': self.shard, 'evaluations': self.evals, 'duplicates': self.dups,
            'classes': dict(self.classes), 'nontrivial': self.nontrivial, 'samples': self.samples,
            'failure': self.failure, 'truncated': self.truncated, 'exhaustive_cases': self.exhaustive_cases,
            'resume': self.resume, 'gen': self.gen,
            'exhaustive_done': self.exhaustive_done, 'max_case_cpu_s': round(self.max_case, 3),
        }


def quiet():
    """The code under test prints and may call input(); nothing may wait."""
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    sys.stdin = open(os.devnull)


def child(conn, law, tier, seed, shard, nshards, deadline, more):
    try:
        quiet()
        resource.setrlimit(resource.RLIMIT_AS, (3584 << 20, 3584 << 20))
        if os.environ.get('VERIF_COV'):
            import coverlines
            coverlines.start(REPO)
        if os.environ.get('VERIF_DOM'):
            sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
            import domain
            domain.start(REPO)
        w = Worker(law, tier, seed, shard, nshards, deadline, *more)
        t = time.time()
        w.run()
        r = w.result()
        r['wall_s'] = round(time.time() - t, 2)
        conn.send(r)
        if os.environ.get('VERIF_COV'):
            coverlines.dump(os.environ['VERIF_COV'])
        if os.environ.get('VERIF_DOM'):
            domain.dump(os.environ['VERIF_DOM'])
    except BaseException:
        conn.send({'law': law.name, 'shard': shard, 'harness_error': traceback.format_exc()})
    conn.close()
    os._exit(0)


def run_all(laws, tier, seed, budget):
    ctx = mp.get_context('fork')
    jobs = []
    for l in laws:
        n = l.shards[0 if tier == 'quick' else 1]
        for k in range(n):
            jobs.append((l, k, n, ()))
    jobs.sort(key=lambda j: -j[0].weight)
    width = int(os.environ.get('VERIF_JOBS', '8'))
    start = time.time()
    deadline = start + budget
    running, results = [], []
    while jobs or running:
        while jobs and len(running) < width:
            l, k, n, more = jobs.pop(0)
            recv, send = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(send, l, tier, seed, k, n, deadline, more))
            p.start()
            send.close()
            running.append((p, recv, l, k, n))
        done = mp.connection.wait([item[1] for item in running], timeout=1.0)
        for item in list(running):
            p, recv, l, k, n = item
            if recv in done:
                try:
                    r = recv.recv()
                    results.append(r)
                    if r.get('resume') and not r['failure'] and r['gen'] < 40 and time.time() < deadline:
                        jobs.append((l, k, n, (r['gen'] + 1,) + r['resume']))
                except EOFError:
                    results.append({'law': l.name, 'shard': k, 'harness_error': 'worker died'})
                p.join()
                running.remove(item)
                if os.environ.get('VERIF_FAILFAST') and results[-1].get('failure'):
                    for q in running:
                        q[0].kill()
                    return results
        if time.time() > deadline + 220:
            for p, recv, l, k, _ in running:
                p.kill()
                results.append({'law': l.name, 'shard': k, 'harness_error': 'worker did not finish'})
            break
    return results


def load(pid):
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    return importlib.import_module(pid.lower())


def known_findings(pid):
    """Lines 'finding: property=<id> law=<law> args=<repr> # what fails'."""
    path = os.path.join(VERIF, 'known_findings.txt')
    ans = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                body, _, what = line.partition(' # ')
                lawname = body.split(' law=')[1].split(' ')[0]
                args = body.split(' args=')[1]
                ans.append((lawname, args, what))
    return ans


def main():
    import multiprocessing.connection  # noqa
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    sys.modules['harness'] = sys.modules['__main__']
    module = load(pid)
    bylaw = {l.name: l for l in LAWS}
    if not os.environ.get('VERIF_NOSCALE'):
        for k, v in json.load(open(os.path.join(VERIF, 'quick_scale.json'))).items():
            if k.startswith(pid + ' '):
                SCALE[k[len(pid) + 1:]] = v

    if tier == 'replay':
        rec = json.load(open(sys.argv[3]))
        l = bylaw[rec['law']]
        out = os.dup(1)
        quiet()
        if l.setup:
            l.setup()
        try:
            l.fn(*ast.literal_eval(rec['args']))
            code, msg = 0, 'replay passes: %s %s' % (rec['law'], rec['args'][:300])
        except Exception as e:
            code = 1
            msg = '%s\nVIOLATION property=%s replay=%s' % (traceback.format_exc(), pid, sys.argv[3])
        os.write(out, (msg + '\n').encode())
        os._exit(code)

    laws = list(LAWS)
    if '--law' in sys.argv:
        want = sys.argv[sys.argv.index('--law') + 1].split(',')
        laws = [bylaw[n] for n in want]
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET') or getattr(module, 'BUDGET', {}).get(tier) or {'quick': 300, 'thorough': 640}[tier])
    known = known_findings(pid)
    KNOWN.update(k[:2] for k in known)
    results = run_all(laws, tier, seed, budget)

    evaluations, nontrivial, samples, perlaw, violations, errors = 0, 0, [], {}, [], []
    sets = collections.defaultdict(set)
    for r in sorted(results, key=lambda r: (r['law'], r['shard'])):
        if 'harness_error' in r:
            errors.append('%s[%s]: %s' % (r['law'], r['shard'], r['harness_error']))
            continue
        evaluations += r['evaluations']
        sets[r['law']] |= r['nontrivial']
        samples.append(r['samples'])
        d = perlaw.setdefault(r['law'], {'evaluations': 0, 'classes': collections.Counter(), 'exhaustive_cases': 0,
                                         'exhaustive_done': None, 'truncated': False, 'max_case_cpu_s': 0, 'wall_s': 0})
        d['evaluations'] += r['evaluations']
        d['classes'].update(r['classes'])
        d['exhaustive_cases'] += r['exhaustive_cases']
        if r['exhaustive_done'] is not None and not (r['resume'] and r['resume'][0] < 10 ** 12):
            d['exhaustive_done'] = r['exhaustive_done'] and d['exhaustive_done'] is not False
        d['truncated'] = d['truncated'] or r['truncated']
        d['max_case_cpu_s'] = max(d['max_case_cpu_s'], r['max_case_cpu_s'])
        d['wall_s'] = max(d['wall_s'], r['wall_s'])
        if r['failure']:
            violations.append(r['failure'])
    for name in perlaw:
        perlaw[name]['distinct_nontrivial'] = len(sets[name])
        perlaw[name]['classes'] = dict(sorted(perlaw[name]['classes'].items(), key=lambda kv: -kv[1])[:30])
    nontrivial = sum(len(s) for s in sets.values())
    flat = [s for group in samples for s in group[:3]]

    seenlaws, reported = set(), 0
    lines = []
    for f in sorted(violations, key=lambda f: (f['law'], len(f['args']))):
        if f['law'] in seenlaws:
            continue
        seenlaws.add(f['law'])
        reported += 1
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s_%s.json' % (pid, f['law']))
        json.dump(dict(f, property=pid, seed=seed, tier=tier), open(path, 'w'), indent=1)
        lines.append('law %s fails on %s\n  %s' % (f['law'], f['args'][:1500], f['error'][:1500]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    for k in known:
        print('KNOWN-FINDING: property=%s law=%s %s' % (pid, k[0], k[2]))

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': nontrivial,
            'rule': 'Cases are argument tuples of the laws, from a bounded-exhaustive stage (where listed) and a '
                    'hypothesis stage; duplicates are skipped. ' + getattr(module, 'RULE', 'A case is non-trivial when its law labels it with a class.'),
            'samples': flat[:40] or [{'note': 'none'}],
            'laws': perlaw,
        },
        'wall_s': round(time.time() - t0, 2), 'violations': reported,
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
    }
    if '--law' not in sys.argv:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(evidence, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for name, d in sorted(perlaw.items()):
        print('%-34s evals=%-6d nontrivial=%-6d exh=%s/%s wall=%.1fs maxcase=%.2fs%s' % (
            name, d['evaluations'], d['distinct_nontrivial'], d['exhaustive_cases'], d['exhaustive_done'], d['wall_s'],
            d['max_case_cpu_s'], ' TRUNCATED' if d['truncated'] else ''))
        if '-v' in sys.argv:
            print('      ', d['classes'])
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs' % (pid, tier, seed, evaluations, nontrivial, time.time() - t0))
    for line in lines:
        print(line)
    for e in errors:
        print('HARNESS ERROR', e, file=sys.stderr)
    sys.stdout.flush()
    if reported:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
