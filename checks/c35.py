"""C35: crystal operators on tableaux."""
import functools
import itertools

from harness import LAWS, law
from hypothesis import strategies as st
import c34
LAWS.clear()
from c33 import column_strict_count  # noqa
LAWS.clear()
from c34 import hecke_model, letters, make_record, relabel, flip, single  # noqa
from insertion import InsertionAlgorithm  # noqa
from lib import partitions_upto  # noqa
from tableaux import Tableau  # noqa
import permlib as P  # noqa

RULE = 'Non-trivial: some operator is defined and some box holds more than one value (or the tableau has several columns).'


# A valued tableau is a dict {cell: sorted tuple}; literal form is a tuple of items.

def legal(t, multi):
    for (i, j), v in t.items():
        if list(v) != sorted(v) or not v or (not multi and len(set(v)) < len(v)):
            return False
        if (i, j + 1) in t and t[i, j + 1][0] < v[-1]:
            return False
        if (i + 1, j) in t and t[i + 1, j][0] <= v[-1]:
            return False
    return True


def unmatched(seq, i):
    """seq: list of (key, value); positions of unmatched i and i + 1, where i + 1 opens."""
    opened, low = [], []
    for key, a in seq:
        if a == i + 1:
            opened.append(key)
        elif a == i:
            if opened:
                opened.pop()
            else:
                low.append(key)
    return low, opened


def column_sequence(t):
    """order of the crystal reading word of a multiset-valued tableau: keys (cell, k)"""
    ans = []
    for j in sorted({c[1] for c in t}):
        col = sorted(c for c in t if c[1] == j)
        ans += [((c, 0), t[c][0]) for c in reversed(col)]
        ans += [((c, k), t[c][k]) for c in col for k in range(1, len(t[c]))]
    return ans


def rebuild(t, word):
    """tableau with given column words"""
    ans = {}
    k = 0
    for j in sorted({c[1] for c in t}):
        n = sum(len(v) for c, v in t.items() if c[1] == j)
        w = word[k:k + n]
        k += n
        h = 1
        while h < n and w[h] < w[h - 1]:
            h += 1
        heads = list(reversed(w[:h]))
        cells = [[a] for a in heads]
        for a in w[h:]:
            cells[max(r for r in range(h) if heads[r] <= a)].append(a)
        for r, vals in enumerate(cells):
            ans[r + 1, j] = tuple(sorted(vals))
    return ans


def operate(t, i, multi, raising):
    if multi:
        seq = column_sequence(t)
        low, high = unmatched([(n, a) for n, (_, a) in enumerate(seq)], i)
        word = [a for _, a in seq]
        if raising:
            if not high:
                return None
            word[high[0]] = i
        else:
            if not low:
                return None
            word[low[-1]] = i + 1
        return rebuild(t, word)
    seq = []
    for j in sorted({c[1] for c in t}):
        here = {a: c for c, v in t.items() for a in v if c[1] == j and a in (i, i + 1)}
        if len(here) == 1:
            a, = here
            seq.append((here[a], a))
    low, high = unmatched(seq, i)
    t = dict(t)
    if raising:
        if not high:
            return None
        c = high[0]
        left = (c[0], c[1] - 1)
        out = left if i + 1 in t.get(left, ()) else c
        gone, new = i + 1, i
    else:
        if not low:
            return None
        c = low[-1]
        right = (c[0], c[1] + 1)
        out = right if i in t.get(right, ()) else c
        gone, new = i, i + 1
    v = list(t[out])
    v.remove(gone)
    t[out] = tuple(v)
    t[c] = tuple(sorted(t[c] + (new,)))
    return t


def count(t, a):
    return sum(v.count(a) for v in t.values())


def run(t, i, multi, raising):
    tab = Tableau(t)
    op = tab.e_crystal_operator if raising else tab.f_crystal_operator
    ans = op(i) if multi else op(i, multisetvalued=False)
    assert tab.boxes == t
    return None if ans is None else dict(ans.boxes)


def check_tableau(items, multi, shifted=False):
    t = dict(items)
    assert legal(t, multi)
    live = 0
    top = max((v[-1] for v in t.values()), default=0)
    size = sum(map(len, t.values()))
    for i in range(1, top + 2):
        strings = []
        for raising in (True, False):
            n, x = 0, t
            while True:
                y = run(x, i, multi, raising)
                assert y == operate(x, i, multi, raising)
                if y is None:
                    break
                live += 1
                n += 1
                assert set(y) == set(t) and legal(y, multi)
                assert sum(map(len, y.values())) == size
                sign = 1 if raising else -1
                for a in range(1, top + 3):
                    assert count(y, a) - count(x, a) == (sign if a == i else -sign if a == i + 1 else 0)
                assert run(y, i, multi, not raising) == x
                x = y
            strings.append(n)
        assert strings[1] - strings[0] == count(t, i) - count(t, i + 1)
    if multi:
        tab = Tableau(t)
        word = tab.crystal_reading_word()
        cols = [[a for (c, k), a in column_sequence(t) if c[1] == j] for j in sorted({c[1] for c in t})]
        assert word == tuple(map(tuple, cols))
        assert Tableau.from_crystal_reading_word(word) == tab
    if not live:
        return False
    return 'valued' if size > len(t) else 'plain' if any(c[1] > 1 for c in t) else False


def build(shape, seeds, multi, shifted=False):
    """A semistandard valued tableau of the shape out of small integers."""
    t = {}
    seeds = list(seeds)
    for i, a in enumerate(shape):
        for j in range(a):
            c = (i + 1, j + 1 + (i if shifted else 0))
            low = 1
            if (c[0], c[1] - 1) in t:
                low = max(low, t[c[0], c[1] - 1][-1])
            if (c[0] - 1, c[1]) in t:
                low = max(low, t[c[0] - 1, c[1]][-1] + 1)
            s = seeds.pop(0) if seeds else 0
            s, first = divmod(s, 3)
            vals = [low + (1 if first == 2 else 0)]
            while s:
                s, b = divmod(s, 4)
                if b == 0:
                    break
                if b == 3:
                    if multi:
                        vals.append(vals[-1])
                else:
                    vals.append(vals[-1] + b)
            t[c] = tuple(vals)
    return tuple(sorted(t.items()))


SHAPES = st.one_of(st.sampled_from(partitions_upto(7, 4)), st.sampled_from(partitions_upto(12, 6)))
SEEDS = st.lists(st.integers(0, 200), max_size=8)


@functools.lru_cache(None)
def every(shape, n, multi, extra, shifted=False):
    """All semistandard valued tableaux with entries up to n and at most `extra` additional values."""
    cells = [(i + 1, j + 1 + (i if shifted else 0)) for i, a in enumerate(shape) for j in range(a)]
    ans = []

    def fill(k, t, left):
        if k == len(cells):
            ans.append(tuple(sorted(t.items())))
            return
        i, j = cells[k]
        low = max([1] + ([t[i, j - 1][-1]] if (i, j - 1) in t else []) + ([t[i - 1, j][-1] + 1] if (i - 1, j) in t else []))
        for size in range(1, left + 2):
            pool = itertools.combinations_with_replacement(range(low, n + 1), size) if multi else \
                itertools.combinations(range(low, n + 1), size)
            for v in pool:
                t[i, j] = v
                fill(k + 1, t, left - size + 1)
                del t[i, j]
    fill(0, {}, extra)
    return ans


def all_valued(multi):
    def gen(tier):
        quick = tier == 'quick'
        for shape in partitions_upto(3 if quick else 4, 3):
            for t in every(shape, 3, multi, 2 if quick else 3):
                yield t,
        if not quick:
            for shape in partitions_upto(3, 3):
                for t in every(shape, 4, multi, 2):
                    yield t,
    return gen


@law(st.tuples(st.builds(build, SHAPES, SEEDS, st.just(False))), quick=600, thorough=5000, shards=(3, 4), exhaustive=all_valued(False))
def setvalued(items):
    return check_tableau(items, False)


@law(st.tuples(st.builds(build, SHAPES, SEEDS, st.just(True))), quick=600, thorough=5000, shards=(3, 4), exhaustive=all_valued(True))
def multisetvalued(items):
    return check_tableau(items, True)


def components_params(tier):
    big = tier != 'quick'
    for multi in (False, True):
        for shape in partitions_upto(4 if big else 3, 3):
            for n in (2, 3, 4) if big else (2, 3):
                if len(shape) <= n:
                    for extra in range(3):
                        yield shape, n, multi, extra


@law(quick=0, exhaustive=components_params, case_cpu=400)
def components(shape, n, multi, extra):
    """Every component is an irreducible highest weight crystal; the operators permute the family."""
    family = {t for t in every(shape, n, multi, extra) if sum(len(v) for _, v in t) == sum(shape) + extra}
    rest = set(family)
    most = 0
    while rest:
        seen, todo = set(), [next(iter(rest))]
        seen.add(todo[0])
        tops = []
        while todo:
            x = todo.pop()
            high = True
            for i in range(1, n):
                for raising in (True, False):
                    y = run(dict(x), i, multi, raising)
                    if y is None:
                        continue
                    high = high and not raising
                    y = tuple(sorted(y.items()))
                    assert y in family
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            if high:
                tops.append(x)
        assert len(tops) == 1
        wt = [count(dict(tops[0]), a) for a in range(1, n + 1)]
        assert wt == sorted(wt, reverse=True)
        assert len(seen) == column_strict_count([a for a in wt if a], n)
        rest -= seen
        most = max(most, len(seen))
    return 'family' if most > 1 else False


@law(st.one_of(st.tuples(letters(8, 4), c34.jumps(8), st.booleans()), st.tuples(letters(12, 6), c34.jumps(8), st.booleans()),
               st.tuples(st.permutations(range(1, 5)).flatmap(lambda w: st.sampled_from(sorted(P.reduced_words(P.norm(w))))), c34.jumps(8), st.booleans())),
     quick=500, thorough=4000, shards=(3, 4))
def intertwine(word, slack, multi):
    """Operators on the recording tableau move between factorizations of the same element with the same insertion tableau."""
    rec = make_record(word, slack, multi)
    p0, q0 = hecke_model(word)
    p, q = InsertionAlgorithm.hecke(word, rec, multi)
    std = relabel(q0 if multi else flip(q0, 'hecke'), rec)
    assert q.boxes == std
    reduced = P.length(P.hecke_of(word)) == len(word)
    live = False
    for i in range(1, max(rec, default=0) + 1):
        for raising in (True, False):
            op = q.e_crystal_operator if raising else q.f_crystal_operator
            r = op(i, multisetvalued=multi)
            want = operate(std, i, multi, raising)
            assert (r is None) == (want is None)
            if r is None:
                continue
            live = True
            assert r.boxes == want
            v, j = InsertionAlgorithm.inverse_hecke(p, r, multi)
            p1, q1 = hecke_model(v)
            assert p1 == p0 and relabel(q1 if multi else flip(q1, 'hecke'), j) == want
            assert P.hecke_of(v) == P.hecke_of(word)
            for a, b, x, y in zip(j, j[1:], v, v[1:]):
                assert a < b or (a == b and (x <= y if multi else x > y))
            assert sorted(j) == list(j)
            if reduced:
                for k in set(rec) - {i, i + 1}:
                    assert [x for x, a in zip(word, rec) if a == k] == [x for x, a in zip(v, j) if a == k]
    return ('reduced' if reduced else 'hecke') if live else False
