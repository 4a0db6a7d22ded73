"""C33: crystal operators on words and factorizations."""
import itertools

from harness import law
from hypothesis import strategies as st
from words import Word

RULE = 'Non-trivial: some operator is defined on the word.'


def unmatched(w, i):
    """Positions of the unmatched letters i and i + 1 (i + 1 opens, i closes)."""
    opened, low = [], []
    for k, a in enumerate(w):
        if a == i + 1:
            opened.append(k)
        elif a == i:
            if opened:
                opened.pop()
            else:
                low.append(k)
    return low, opened


def put(w, k, a):
    return w[:k] + (a,) + w[k + 1:]


def f_ref(w, i):
    low, _ = unmatched(w, i)
    return put(w, low[-1], i + 1) if low else None


def e_ref(w, i):
    _, high = unmatched(w, i)
    return put(w, high[0], i) if high else None


def rsk(w):
    p, q = [], []
    for k, a in enumerate(w):
        r = 0
        while True:
            if r == len(p):
                p.append([a])
                q.append([k])
                break
            row = p[r]
            c = next((c for c in range(len(row)) if row[c] > a), None)
            if c is None:
                row.append(a)
                q[r].append(k)
                break
            row[c], a = a, row[c]
            r += 1
    return p, q


def split(w, sizes):
    ans = []
    for s in sizes:
        ans.append(w[:s])
        w = w[s:]
    return tuple(ans)


def words(n, m):
    return st.lists(st.integers(1, m), max_size=n).map(tuple)


def all_words(tier):
    for m, n in ((2, 8), (3, 6), (4, 4 if tier == 'quick' else 6)):
        for k in range(n + 1):
            for w in itertools.product(range(1, m + 1), repeat=k):
                yield w,


def factored(n, m, k):
    return st.lists(words(n, m), min_size=0, max_size=k).map(tuple)


@law(st.one_of(st.tuples(words(30, 4)), st.tuples(words(14, 9)), st.tuples(words(60, 3))), quick=800, thorough=5000, shards=(2, 4), exhaustive=all_words)
def bracketing(w):
    live = 0
    for i in range(0, max(w, default=0) + 2):
        up, down = Word.e_crystal_operator(i, w), Word.f_crystal_operator(i, w)
        assert down == f_ref(w, i), (i, down)
        assert up == e_ref(w, i), (i, up)
        low, high = unmatched(w, i)
        assert len(low) - len(high) == w.count(i) - w.count(i + 1)
        if down is not None:
            live += 1
            assert Word.e_crystal_operator(i, down) == w
            assert [down.count(a) - w.count(a) for a in (i, i + 1)] == [-1, 1]
            assert sum(a != b for a, b in zip(w, down)) == 1 and len(w) == len(down)
            assert rsk(down)[1] == rsk(w)[1]
        if up is not None:
            live += 1
            assert Word.f_crystal_operator(i, up) == w
            assert rsk(up)[1] == rsk(w)[1]
        # string lengths
        for op, size in ((Word.f_crystal_operator, len(low)), (Word.e_crystal_operator, len(high))):
            x = w
            for _ in range(size):
                x = op(i, x)
                assert x is not None
            assert op(i, x) is None
    return 'live' if live else False


@law(st.one_of(st.tuples(words(10, 5)), st.tuples(words(20, 6))), quick=300, thorough=2500, shards=(2, 3), exhaustive=all_words)
def distant(w):
    """Operators with distant indices commute; adjacent ones satisfy Stembridge's local relations."""
    F, E = Word.f_crystal_operator, Word.e_crystal_operator
    m = max(w, default=0)

    def go(op, i, x):
        return None if x is None else op(i, x)

    def eps(i, x):
        n = 0
        while True:
            x = E(i, x)
            if x is None:
                return n
            n += 1

    live = 0
    for i in range(1, m + 1):
        for j in range(i + 2, m + 1):
            for a in (E, F):
                for b in (E, F):
                    assert go(a, i, b(j, w)) == go(b, j, a(i, w))
                    live += go(a, i, b(j, w)) is not None
    for i in range(1, m + 1):
        for j in (i - 1, i + 1):
            up = E(i, w)
            if j < 1 or up is None:
                continue
            live += 1
            change = eps(j, up) - eps(j, w)
            assert change in (0, 1)
            other = E(j, w)
            if change == 0 and other is not None:
                assert E(j, up) == E(i, other)
                assert E(j, up) is not None
            if change == 1 and other is not None and eps(i, other) == eps(i, w) + 1:
                x = go(E, i, go(E, j, go(E, j, up)))
                y = go(E, j, go(E, i, go(E, i, other)))
                assert x == y and x is not None
    return 'live' if live else False


@law(st.one_of(st.tuples(factored(4, 4, 5)), st.tuples(factored(8, 3, 4)), st.tuples(factored(1, 3, 8))), quick=600, thorough=4000, shards=(2, 3))
def tuples(t):
    w = tuple(a for part in t for a in part)
    sizes = [len(part) for part in t]
    live = False
    for i in range(0, max(w, default=0) + 2):
        for op, ref in ((Word.f_crystal_operator, f_ref), (Word.e_crystal_operator, e_ref)):
            want = ref(w, i)
            cut = None if want is None else split(want, sizes)
            assert op(i, *t, unpack=False) == cut
            assert op(i, *t) == (want if len(t) <= 1 else cut)
            live = live or (want is not None and len(t) > 1)
    return 'tuple' if live else False


def column_strict_count(shape, n):
    from functools import lru_cache

    @lru_cache(None)
    def count(mu, n):
        if n == 0:
            return 1 if not any(mu) else 0
        total = 0
        rows = [range(mu[r + 1] if r + 1 < len(mu) else 0, mu[r] + 1) for r in range(len(mu))]
        for nu in itertools.product(*rows):
            total += count(nu, n - 1)
        return total
    return count(tuple(shape), n)


@law(st.tuples(words(6, 3), st.integers(1, 4)), quick=60, thorough=500, shards=(1, 3))
def component(w, n):
    """The connected component of a word is the highest weight crystal of its insertion shape."""
    w = tuple((a - 1) % n + 1 for a in w)
    seen, todo = {w}, [w]
    while todo:
        x = todo.pop()
        for i in range(1, n):
            for op in (Word.e_crystal_operator, Word.f_crystal_operator):
                y = op(i, x)
                if y is not None and y not in seen:
                    seen.add(y)
                    todo.append(y)
    p, q = rsk(w)
    assert len(seen) == column_strict_count([len(r) for r in p], n)
    tops = [x for x in seen if all(Word.e_crystal_operator(i, x) is None for i in range(1, n))]
    assert len(tops) == 1
    assert [tops[0].count(i + 1) for i in range(len(p))] == [len(r) for r in p]
    assert all(rsk(x)[1] == q for x in seen)
    return 'component' if len(seen) > 1 else False
