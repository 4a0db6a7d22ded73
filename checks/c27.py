"""C27: signed permutations as a Coxeter group."""
import functools

from harness import law
from hypothesis import strategies as st
import permlib as P
from permlib import all_perms, at, inv, mul, norm, st_perm
from permutations import Permutation
from tableaux import Tableau

RULE = 'Non-trivial: a non-identity element (pairs: at least two different non-identity elements).'


def W(w, pad=0):
    return Permutation(*(tuple(w) + tuple(range(len(w) + 1, len(w) + 1 + pad))))


def same(p, w):
    assert type(p) == Permutation, p
    assert tuple(p.oneline) == norm(w), (p.oneline, w)
    assert p.rank == len(norm(w))
    return True


@functools.lru_cache(None)
def distances(n):
    """word length in the generators s_0..s_{n-1} by breadth first search"""
    dist, queue = {(): 0}, [()]
    for w in queue:
        for i in range(n):
            v = mul(w, P.s(i))
            if v not in dist:
                dist[v] = dist[w] + 1
                queue.append(v)
    return dist


def exh(tier):
    n = 4 if tier == 'quick' else 5
    return ((w, 1) for w in all_perms(n, True))


@law(st.tuples(st_perm(12, True), st.integers(0, 4)), quick=600, thorough=8000, exhaustive=exh, shards=(2, 4))
def statistics(w, pad):
    """length, descents, reduced word, fixed/negated points, parity"""
    p = W(w, pad)
    same(p, w)
    same(Permutation(list(p.oneline)), w)
    n = len(w)
    if n <= 4:
        assert len(p) == distances(max(n, 1))[w]
    assert len(p) == p.length == P.length(w)
    assert p.right_descent_set == {i for i in range(n + 2) if len(p * Permutation.s_i(i)) < len(p)} == P.rdes(w)
    assert p.left_descent_set == {i for i in range(n + 2) if len(Permutation.s_i(i) * p) < len(p)} == P.rdes(inv(w))
    for word in (p.get_reduced_word(), p.reduced_word):
        assert len(word) == len(p)
        same(Permutation.from_word(word), w)
        assert P.of_word(word) == w
    same(p.inverse(), inv(w))
    assert p.inverse().length == p.length
    unsigned = all(a > 0 for a in w)
    assert p.is_unsigned() == unsigned
    assert p.is_identity() == (w == ())
    assert p.is_involution() == P.is_involution(w) and p.is_fpf_involution() == P.is_fpf(w)
    assert p.is_even_signed() == (sum(a < 0 for a in w) % 2 == 0)
    d = [i for i in range(1, n) if w[i - 1] > w[i]]
    assert p.last_descent() == (max(d) if d else None)
    for i in range(-n - 2, n + 3):
        assert p(i) == at(w, i) and p(-i) == -p(i)
    assert sorted(p.fix()) == [(i, i) for i in range(1, n + 1) if at(w, i) == i]
    assert sorted(p.neg()) == sorted((-i, -i) for i in range(1, n + 1) if at(w, i) == -i)
    if P.is_involution(w):
        pairs = sorted((a, at(w, a)) for a in range(-n, n + 1) if abs(a) < at(w, a) and a)
        assert sorted(p.pair()) == pairs
        assert p.cyc() == sorted(pairs + p.fix() + p.neg())
        assert len(pairs) * 2 + len(p.fix()) + len(p.neg()) == n
        assert p.involution_length == P.ilen(w)
        if unsigned and P.is_fpf(w):
            assert p.fpf_involution_length == P.flen(w)
    if unsigned:
        seen = [a for c in p.cycles for a in c]
        assert sorted(seen) == list(range(1, n + 1))
        for c in p.cycles:
            assert all(at(w, c[k]) == c[(k + 1) % len(c)] for k in range(len(c)))
        text = repr(p)
        back = ()
        if text != '1':
            assert text[0] == '(' and text[-1] == ')'
            for part in text[1:-1].split(')('):
                c = [int(x) for x in part.split(', ')]
                assert len(c) > 1
                for k in range(len(c) - 1, 0, -1):
                    back = mul(back, P.refl(c[0], c[k]))
        assert back == w, (text, back)
        same(p.star(), tuple(n + 1 - a for a in reversed(w)))
    else:
        text = repr(p)
        assert text == (',' if n > 9 else '').join(map(str, w))
    assert p.oneline_repr() == (',' if n > 9 else '').join(map(str, w))
    return ('unsigned' if unsigned else 'signed') if w else False


@law(st.tuples(st_perm(10, True), st_perm(10, True), st_perm(6, True), st.integers(-9, 9), st.integers(-9, 9), st.integers(0, 9)),
     quick=800, thorough=8000, shards=(2, 3))
def group(u, v, w, a, b, pad):
    p, q, r = W(u, pad), W(v), W(w)
    same(p * q, mul(u, v))
    assert (p * q) * r == p * (q * r)
    assert (p * q).inverse() == q.inverse() * p.inverse()
    assert p * p.inverse() == p.inverse() * p == Permutation.identity() == Permutation()
    assert p * Permutation.identity() == p == Permutation.identity() * p
    # equality, hash and order look at the normal form only
    assert (p == q) == (u == v) and (p != q) == (u != v)
    assert hash(p) == hash(W(u)) and p == W(u, 5)
    assert (p < q) == (u < v)
    assert len({p, W(u), q, r}) == len({u, v, w})
    # powers
    x = ()
    for _ in range(abs(a)):
        x = mul(x, u)
    if a < 0:
        x = inv(x)
    same(p ** a, x)
    assert p ** a * p ** b == p ** (a + b)
    for i in range(-9, 10):
        assert (p * q)(i) == p(q(i))
    assert abs(len(p * q)) <= len(p) + len(q) and (len(p * q) - len(p) - len(q)) % 2 == 0
    return 'group' if len({u, v, ()}) == 3 else False


@law(st.tuples(st.integers(1, 12), st.integers(1, 12), st.lists(st.integers(0, 9), max_size=30).map(tuple),
               st.lists(st.integers(1, 12), unique=True, max_size=9).map(tuple), st.integers(0, 12)), quick=500, thorough=4000)
def builders(i, j, word, cyc, n):
    same(Permutation.transposition(i, j), P.refl(i, j))
    same(Permutation.reflection_t(i, j), P.refl(i, j))
    a, b = min(i, j), max(i, j)
    same(Permutation.reflection_s(a, b), P.sign_refl(a, b))
    same(Permutation.reflection_s(a), tuple(range(1, a)) + (-a,))
    for k in range(9):
        same(Permutation.s_i(k), P.s(k))
        assert len(Permutation.s_i(k)) == 1
    same(Permutation.from_word(word), P.of_word(word))
    p = Permutation.from_word(word)
    assert len(p) <= len(word) and (len(word) - len(p)) % 2 == 0
    c = Permutation.cycle(*cyc)
    for k in range(1, 10):
        want = cyc[(cyc.index(k) + 1) % len(cyc)] if k in cyc else k
        assert c(k) == want
    same(Permutation.longest_element(n), tuple(range(n, 0, -1)))
    same(Permutation.longest_unsigned(n), tuple(range(n, 0, -1)))
    same(Permutation.longest_element(n, True), tuple(range(-1, -n - 1, -1)))
    assert Permutation.longest_element(n).length == n * (n - 1) // 2
    assert Permutation.longest_element(n, signed=True).length == n * n
    if n % 2 == 0:
        same(Permutation.minfpf(n), P.minfpf(n))
    return 'word' if len(word) > 3 else False


@law(st.tuples(st.one_of(st.lists(st.integers(-4, 6), max_size=7).map(tuple), st_perm(6, True),
                         st.tuples(st_perm(5, True), st.integers(-7, 7)).map(lambda t: t[0] + (t[1],)))), quick=400, thorough=2000)
def validity(entries):
    """only windows with each absolute value 1..n exactly once are accepted"""
    ok = sorted(map(abs, entries)) == list(range(1, len(entries) + 1))
    trimmed = norm(entries)
    # a repeated tail such as (1, 1) is not a window either
    try:
        p = Permutation(*entries)
    except AssertionError:
        assert not ok
        return 'rejected'
    assert ok or sorted(set(map(abs, trimmed))) == list(range(1, len(trimmed) + 1))
    if ok:
        same(p, entries)
        return 'accepted' if trimmed else False
    return False


@law(st.tuples(st_perm(6, True), st.dictionaries(st.tuples(st.integers(1, 3), st.integers(1, 3)),
                                                  st.lists(st.integers(-7, 7).filter(bool), min_size=1, max_size=2), max_size=5)
               .map(lambda d: tuple(sorted((k, tuple(v)) for k, v in d.items())))), quick=300, thorough=2000)
def on_tableaux(w, boxes):
    """A permutation acts on a tableau entry by entry."""
    t = W(w) * Tableau({k: v for k, v in boxes})
    want = Tableau({k: tuple(at(w, x) for x in v) for k, v in boxes})
    assert t == want
    for k, v in boxes:
        assert sorted(t.get(*k, unpack=False)) == sorted(at(w, x) for x in v)
    return 'boxes' if boxes and w else False
