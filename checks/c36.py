"""C36: crystal graph generators."""
import functools
import os
import re
import tempfile

from harness import LAWS, law
from hypothesis import strategies as st
import c35
LAWS.clear()
from c34 import hecke_model, symplectic_model, relabel, flip, letters  # noqa
from c35 import every, operate  # noqa
from lib import partitions_upto  # noqa
import permlib as P  # noqa
from crystals import OrthogonalSetvaluedShiftedCrystalGenerator, ShiftedCrystalGenerator, TableauCrystalGenerator, WordCrystalGenerator  # noqa
from permutations import Permutation  # noqa

RULE = 'Non-trivial: the graph has at least one edge / the word has more than one factorization.'


def factorizations(w, k, decreasing):
    """Records (weakly increasing sequences in 1..k) cutting w into factors of the right kind."""
    ans = [()]
    for n in range(len(w)):
        nxt = []
        for rec in ans:
            low = rec[-1] if rec else 1
            if n and (w[n - 1] <= w[n] if decreasing else w[n - 1] > w[n]):
                low += 1
            nxt += [rec + (a,) for a in range(low, k + 1)]
        ans = nxt
    return ans


def cut(w, rec, k):
    return tuple(tuple(a for a, r in zip(w, rec) if r == i) for i in range(1, k + 1))


@law(st.tuples(st.one_of(letters(9, 4), letters(12, 11)), st.integers(0, 5), st.booleans()), quick=400, thorough=3000, shards=(1, 3),
     exhaustive=lambda tier: (((a, b, c)[:n], k, d) for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3) for n in range(4)
                              for k in range(5) for d in (False, True)))
def increasing_factorizations(w, k, decreasing):
    got = list(WordCrystalGenerator.get_increasing_factorizations(w, k, decreasing))
    recs = factorizations(w, k, decreasing)
    assert len(got) == len(set(got)) and set(got) == {cut(w, r, k) for r in recs}
    if not decreasing:
        assert got == list(WordCrystalGenerator.get_increasing_factorizations(w, k))
    back = set()
    for t in got:
        assert len(t) == k
        word, rec = WordCrystalGenerator.factorization_tuple_to_array(t)
        assert word == w and cut(word, rec, k) == t
        back.add(rec)
    assert back == set(recs)
    return 'several' if len(got) > 1 else False


def check_graph(g, target, rank):
    """target: partial function (vertex, i) -> vertex, both as indices."""
    n = len(g)
    assert n == len(g.elements) == len(list(g.elements))
    assert all(g[x] == g.elements[x] for x in range(n))
    want = {}
    for x in range(n):
        for i in range(1, rank):
            y = target(x, i)
            assert g.f_crystal_operator(x, i) == y, (x, i, y)
            if y is not None:
                want[x, i] = y
    for again in range(2):
        edges = list(g.edges)
        assert len(edges) == len(set(edges)) and set(edges) == {(x, y, i) for (x, i), y in want.items()}
    parent = list(range(n))

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for (x, i), y in want.items():
        parent[find(x)] = find(y)
    comps = {}
    for x in range(n):
        comps.setdefault(find(x), set()).add(x)
    got = [frozenset(c) for c in g.components]
    assert len(got) == len(set(got)) and set(got) == {frozenset(c) for c in comps.values()}
    for i in range(1, rank):
        hit = {y for (x, a), y in want.items() if a == i}
        strings = set()
        for x in set(range(n)) - hit:
            s = [x]
            while (s[-1], i) in want:
                s.append(want[s[-1], i])
            strings.add(tuple(s))
        got = [tuple(s) for s in g.istrings(i)]
        assert len(got) == len(set(got)) and set(got) == strings, (i, got, strings)
        assert sorted(x for s in got for x in s) == list(range(n))
    return len(want)


def hecke_target(arrays, elements, multi):
    """lowering operators on arrays (word, record) by inserting all of them"""
    table = {}
    for x, (w, rec) in enumerate(arrays):
        p, q = hecke_model(w)
        q = relabel(q if multi else flip(q, 'hecke'), rec)
        table[x] = (tuple(sorted(p.items())), q)
    where = {(p, tuple(sorted(q.items()))): x for x, (p, q) in table.items()}

    def target(x, i):
        p, q = table[x]
        r = operate(q, i, multi, False)
        return None if r is None else where[p, tuple(sorted(r.items()))]
    return target


@functools.lru_cache(None)
def hecke_words_of(w, length):
    """words of exactly this length with Demazure product w"""
    n = max(len(w), 1)
    level = {(): [()]}
    for _ in range(length):
        nxt = {}
        for u, words in level.items():
            for i in range(1, n):
                v = P.dem(u, i)
                if P.bruhat_le(v, w):
                    nxt.setdefault(v, []).extend(a + (i,) for a in words)
        level = nxt
    return level.get(w, [])


def word_params(tier):
    quick = tier == 'quick'
    for w in P.all_perms(3) if quick else P.all_perms(4):
        n = P.length(w)
        for length in range(0, (5 if quick else 6) + 1):
            if length < n - 1 or len(hecke_words_of(w, length)) > 60:
                continue
            for k in (1, 2, 3, 4):
                for d in (False, True):
                    size = sum(len(factorizations(v, k, d)) for v in hecke_words_of(w, length))
                    if size <= (120 if quick else 300):
                        yield w, k, length, d


@law(quick=0, exhaustive=word_params, shards=(1, 1), case_cpu=300)
def word_crystal(w, k, length, decreasing):
    args = (w or (1,), k, length) + ((True,) if decreasing else ())
    g = WordCrystalGenerator(*args)
    want = {(v, r) for v in hecke_words_of(w, length) for r in factorizations(v, k, decreasing)}
    arrays = list(g.elements)
    assert len(arrays) == len(set(arrays)) and set(arrays) == want
    assert g.rank == k
    edges = check_graph(g, hecke_target(arrays, arrays, not decreasing), k)
    for x, (v, r) in enumerate(arrays):
        assert g.node_label(x) == ''.join(str(part) for part in cut(v, r, k))
    return 'edges' if edges else False


@law(st.tuples(st.permutations(range(1, 5)).map(P.norm), st.integers(1, 4), st.integers(0, 2), st.booleans())
     .filter(lambda a: len(hecke_words_of(a[0], P.length(a[0]) + a[2])) < 40), quick=25, thorough=150, shards=(2, 3), case_cpu=300)
def word_crystal_random(w, k, excess, decreasing):
    length = P.length(w) + excess
    if sum(len(factorizations(v, k, decreasing)) for v in hecke_words_of(w, length)) > 150:
        return False
    return word_crystal(w, k, length, decreasing)


def tableau_params(tier):
    quick = tier == 'quick'
    for mu in partitions_upto(4 if quick else 5, 3):
        for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
            for sets in (True, False):
                if len(every(mu, n, False, 20 if sets else 0)) <= (90 if quick else 250):
                    yield mu, n, sets


@law(quick=0, exhaustive=tableau_params, case_cpu=300)
def tableau_crystal(mu, n, sets):
    g = TableauCrystalGenerator(mu, n) if sets else TableauCrystalGenerator(mu, n, setvalued=False)
    family = every(mu, n, False, 20 if sets else 0)
    got = [tuple(sorted(t.boxes.items())) for t in g.elements]
    assert len(got) == len(set(got)) and set(got) == set(family)
    where = {t: x for x, t in enumerate(got)}

    def target(x, i):
        r = operate(dict(got[x]), i, False, False)
        return None if r is None else where[tuple(sorted(r.items()))]
    edges = check_graph(g, target, n)
    return 'edges' if edges else False


def shifted_words(mu, symplectic, length):
    if symplectic:
        z = tuple(Permutation.get_fpf_grassmannian(*mu).oneline)
        z = P.fpf_pad(z, max(len(z) + len(z) % 2, 2))
        start, n = P.minfpf(len(z)), len(z)
    else:
        z = P.norm(Permutation.get_inv_grassmannian(*mu).oneline)
        start, n = (), max(len(z), 1)
    level = {start: [()]}
    for _ in range(length):
        nxt = {}
        for u, words in level.items():
            for i in range(1, n):
                if symplectic and P.at(u, i) == i + 1:
                    continue
                v = P.conj_dem(u, i)
                if symplectic:
                    v = P.fpf_pad(v, n)
                nxt.setdefault(v, []).extend(a + (i,) for a in words)
        level = nxt
    return level.get(z, [])


def shifted_params(tier):
    quick = tier == 'quick'
    shapes = [mu for mu in partitions_upto(4 if quick else 6, 3, None, True) if mu]
    for mu in shapes:
        for symplectic in (False, True):
            for multi in (False, True):
                for excess in range(3 if quick else 4):
                    for rank in (2, 3) if quick else (2, 3, 4):
                        yield mu, rank, excess, multi, symplectic


def shifted_small(tier):
    for mu, rank, excess, multi, symplectic in shifted_params(tier):
        if sum(mu) + excess > (5 if tier == 'quick' else 7) or mu[0] > 4:
            continue
        yield mu, rank, excess, multi, symplectic


@law(quick=0, exhaustive=shifted_small, shards=(4, 7), case_cpu=400)
def shifted_crystal(mu, rank, excess, multi, symplectic):
    words = shifted_words(mu, symplectic, sum(mu) + excess)
    want = [(w, r) for w in words for r in factorizations(w, rank, not multi)]
    if not want or len(want) > 400:
        return False
    if not multi and not symplectic and excess % 2:
        g = OrthogonalSetvaluedShiftedCrystalGenerator(mu, rank, excess)
    else:
        g = ShiftedCrystalGenerator(mu, rank, excess, multi, symplectic)
    arrays = []
    for a in g.arrays:
        n = len(a.boxes) // 2
        arrays.append((tuple(a.get(2, j + 1) for j in range(n)), tuple(a.get(1, j + 1) for j in range(n))))
    assert len(arrays) == len(set(arrays)) and set(arrays) == set(want)
    assert g.rank == rank
    for x, (w, rec) in enumerate(arrays):
        p, q = symplectic_model(w if symplectic else tuple(2 * a for a in w))
        if not multi:
            q = flip(q, 'shifted')
        assert g[x].boxes == relabel(q, rec)
        assert g.insertion_tableau.boxes == {c: (v if symplectic else v // 2,) for c, v in p.items()}
    assert len({tuple(sorted(t.boxes.items())) for t in g.elements}) == len(arrays)
    edges = check_graph(g, hecke_target(arrays, arrays, multi), rank)
    return 'edges' if edges else False


def sampled(fn, keep=lambda a: True):
    return st.sampled_from([a for a in fn('thorough') if keep(a)])


@law(lambda tier: sampled(shifted_params, lambda a: sum(a[0]) + a[2] <= (6 if tier == 'quick' else 7) and a[0][0] < 6 and (sum(a[0]) > 3 or a[1] > 3)),
     quick=30, thorough=100, shards=(3, 6), case_cpu=600)
def shifted_crystal_larger(mu, rank, excess, multi, symplectic):
    return shifted_crystal(mu, rank, excess, multi, symplectic)


@law(lambda tier: sampled(tableau_params), quick=25, thorough=100, case_cpu=300)
def tableau_crystal_larger(mu, n, sets):
    return tableau_crystal(mu, n, sets)


@law(lambda tier: sampled(word_params, lambda a: len(a[0]) == 4), quick=25, thorough=100, shards=(2, 3), case_cpu=300)
def word_crystal_larger(w, k, length, decreasing):
    return word_crystal(w, k, length, decreasing)


DOT = '#!/bin/sh\nfor a in "$@"; do last=$a; done\n[ -f "$2" ] && cp "$2" "$last"\n'


def drawn(g, root):
    """Calls generate() with a stand-in for graphviz; the edge lists and labels in the written files."""
    for kind in ('dot', 'png'):
        for sub in ('', 'sets', 'multisets'):
            for subsub in ('',) if not sub else ('symplectic', 'orthogonal'):
                os.makedirs(os.path.join(root, kind, sub, subsub), exist_ok=True)
    stub = os.path.join(root, 'bin', 'dot')
    os.makedirs(os.path.dirname(stub))
    with open(stub, 'w') as f:
        f.write(DOT)
    os.chmod(stub, 0o755)
    path = os.environ.get('PATH', '')
    os.environ['PATH'] = os.path.dirname(stub) + ':' + path
    g.DIRECTORY = root + '/'
    try:
        g.generate()
    finally:
        os.environ['PATH'] = path
    files = {}
    for where, _, names in os.walk(root):
        for name in names:
            if name != 'dot':
                files.setdefault(name.rsplit('.', 1)[1], []).append(open(os.path.join(where, name)).read())
    assert sorted(files['dot']) == sorted(files['png'])
    return [sorted(re.findall(r'"([^"]*)"\s*->\s*"([^"]*)"\s*\[\s*label="(\d+)"\s*\]', text)) for text in files['dot']]


def picture_params(tier):
    for w, k, length, d in [((2, 1), 2, 2, False), ((2, 1), 3, 2, True), ((1, 3, 2), 2, 3, False), ((2, 3, 1), 2, 2, True),
                            ((3, 2, 1), 2, 3, True), ((3, 2, 1), 3, 3, True), ((2, 1, 4, 3), 3, 2, True), ((2, 1, 4, 3), 2, 2, False)]:
        yield 'word', (w, k, length, d)
    for mu, n, sets in [((1,), 3, True), ((2,), 2, True), ((1, 1), 3, True), ((2, 1), 3, False), ((2, 1), 2, True), ((3, 1), 2, True)]:
        yield 'tableau', (mu, n, False, sets)
    for mu in ((1,), (2,), (2, 1), (3, 1)):
        for multi in (False, True):
            for symplectic in (False, True):
                for excess in (0, 1):
                    yield 'shifted', (mu, 2 + (sum(mu) < 3), excess, multi, symplectic)


@law(quick=0, exhaustive=picture_params)
def pictures(kind, args):
    cls = {'word': WordCrystalGenerator, 'tableau': TableauCrystalGenerator, 'shifted': ShiftedCrystalGenerator}[kind]
    g = cls(*args)
    label = [g.node_label(x) for x in range(len(g))]
    assert len(label) == len(set(label)), label
    edges = [(x, y, i) for x in range(len(g)) for i in range(1, g.rank) for y in [g.f_crystal_operator(x, i)] if y is not None]
    want = [sorted((label[x], label[y], str(i)) for x, y, i in edges)]
    want += [sorted((label[x], label[y], str(i)) for x, y, i in edges if x in c) for c in g.components]
    with tempfile.TemporaryDirectory() as root:
        got = drawn(g, root)
    assert sorted(got) == sorted(want), (got, want)
    return 'edges' if edges else False
