"""C32: Little bumps, Bruhat covers and transitions."""
import functools

from harness import law
from hypothesis import strategies as st
from insertion import InsertionAlgorithm
import permlib as P
from permlib import all_fpf, all_involutions, all_perms, at, bruhat_le, inv, mul, norm, st_fpf, st_involution, st_perm
from permutations import Permutation

RULE = 'Non-trivial: the bump changes the word / there is at least one cover or transition.'


def W(w):
    return Permutation(*w)


def val(p):
    assert type(p) == Permutation
    return tuple(p.oneline)


def distinct(items):
    items = list(items)
    assert len(items) == len(set(items)), items
    return set(items)


def descents(w):
    return [i for i in range(len(w) - 1) if w[i] > w[i + 1]]


def check_bump(a, b, most):
    assert type(b) == tuple and len(b) == len(a)
    assert descents(a) == descents(b)
    assert all(0 <= q - p <= most for p, q in zip(a, b)) and a != b


def pick(words, k):
    words = sorted(words)
    return words[k % len(words)]


# ---------------------------------------------------------------- bumps

@st.composite
def st_bump(draw, base, words):
    w = draw(base)
    n = len(w) + 1
    i = draw(st.integers(1, n - 1)) if n > 1 else 1
    return w, draw(st.integers(0, 10**6)), i, draw(st.integers(i + 1, n + 1))


@law(st_bump(st.one_of(st_perm(5, nmin=2), st_perm(6, nmin=2), P.st_short_perm(8, 7).filter(lambda w: len(w) > 1)).filter(lambda w: P.number_of_words(w) < 800), None), quick=600, thorough=4000, shards=(2, 3),
     exhaustive=lambda tier: ((w, k, i, j) for w in all_perms(4) for k in range(min(P.number_of_words(w), 16)) for i in range(1, 5) for j in range(i + 1, 6)))
def bump(w, k, i, j):
    a = pick(P.reduced_words(w), k)
    y = mul(w, P.refl(i, j))
    b = Permutation.little_bump(a, i, j)
    if P.length(y) != P.length(w) - 1:
        assert b == a
        return False
    check_bump(a, b, 1)
    v = P.of_word(b)
    assert P.length(v) == len(b)
    # the new element covers the same element
    t = mul(inv(y), v)
    assert len([x for x in range(1, len(t) + 1) if at(t, x) != x]) == 2 and v != w
    assert Permutation.little_bump(a, W(y)) == b
    assert InsertionAlgorithm.hecke(a)[1] == InsertionAlgorithm.hecke(b)[1]
    return 'bump'


@law(st.tuples(st_perm(5, nmin=2).filter(lambda w: P.number_of_words(w) < 400), st.integers(0, 20)), quick=100, thorough=800,
     exhaustive=lambda tier: ((w, k) for w in all_perms(4) for k in range(6)))
def bump_injective(y, k):
    """Over all words of all elements covering y through one fixed position, bumping is a bijection onto its image."""
    n = len(y) + 1
    r = k % n + 1
    images = set()
    count = 0
    lower = [q for q in range(1, r) if P.length(mul(y, P.refl(q, r))) == P.length(y) + 1]
    upper = [q for q in range(r + 1, n + 2) if P.length(mul(y, P.refl(r, q))) == P.length(y) + 1]
    for q in upper:
        w = mul(y, P.refl(r, q))
        if P.number_of_words(w) > 1500:
            return False
        for a in P.reduced_words(w):
            images.add(Permutation.little_bump(a, r, q))
            count += 1
    assert len(images) == count
    if lower and upper:
        return 'transition'
    return False


def check_inv_kind(kind, z, k, y, most):
    bumper = Permutation.involution_little_bump if kind == 'inv' else Permutation.fpf_involution_little_bump
    words = P.inv_words if kind == 'inv' else P.fpf_words
    a = pick(words(z), k)
    b = bumper(a, W(y))
    check_bump(a, b, most)
    v = final(kind, z, b)
    assert len(b) == (P.ilen if kind == 'inv' else P.flen)(v) and v != z
    assert bruhat_le(y if kind == 'inv' else P.fpf_pad(y, len(v)), v)
    ins = InsertionAlgorithm.orthogonal_hecke if kind == 'inv' else InsertionAlgorithm.symplectic_hecke
    assert ins(a)[1] == ins(b)[1]
    return a, b


def final(kind, z, b):
    if kind == 'inv':
        return P.inv_hecke_of(b)
    n = max(len(z), max(b, default=0) + 1)
    return P.inv_hecke_of(b, P.minfpf(n + n % 2))


@functools.lru_cache(None)
def below(kind, z):
    """involutions covered by z"""
    n = len(z)
    pool = all_involutions(n, min(z, default=1) < 0) if kind == 'inv' else all_fpf(n)
    rank = P.ilen if kind == 'inv' else P.flen
    return sorted(y for y in pool if rank(y) == rank(z) - 1 and bruhat_le(y, z))


SMALL_INV = st.one_of(st_involution(5, nmin=2), P.st_short_involution(7, 5).filter(lambda z: len(z) > 1)).filter(lambda z: P.count_inv_words(z) < 1000)
SMALL_FPF = st.one_of(st_fpf(3, 1), P.st_short_fpf(5, 5)).filter(lambda z: P.count_fpf_words(z) < 1500)


@law(st.tuples(SMALL_INV, st.integers(0, 10**6)), quick=300, thorough=2000, shards=(2, 3),
     exhaustive=lambda tier: ((z, k) for z in all_involutions(4 if tier == 'quick' else 5) for k in range(min(P.count_inv_words(z), 12))))
def involution_bump(z, k):
    label = False
    for y in below('inv', z):
        check_inv_kind('inv', z, k, y, 1)
        label = 'bump'
    a = pick(P.inv_words(z), k)
    n = len(z)
    for i in range(1, n + 1):
        for j in range(i + 1, n + 2):
            t = P.refl(i, j)
            ys = set()
            for w in P.atoms(z):
                x = mul(w, t)
                if P.length(x) == P.length(w) - 1:
                    y = P.demazure(inv(x), x)
                    if P.ilen(y) == P.length(x):
                        ys.add(y)
            b = Permutation.involution_little_bump(a, i, j)
            assert b in ({Permutation.involution_little_bump(a, W(y)) for y in ys} or {a})
    # an involution that is not below is no request
    for y in all_involutions(n) if n < 5 else ():
        if P.ilen(y) >= P.ilen(z):
            assert Permutation.involution_little_bump(a, W(y)) == a
    return label


@law(st.tuples(SMALL_FPF, st.integers(0, 10**6)), quick=200, thorough=1500, shards=(2, 3),
     exhaustive=lambda tier: ((z, k) for z in all_fpf(4) + all_fpf(6) for k in range(min(P.count_fpf_words(z), 6))))
def fpf_bump(z, k):
    label = False
    for y in below('fpf', z):
        check_inv_kind('fpf', z, k, y, 2)
        label = 'bump'
    a = pick(P.fpf_words(z), k)
    n = len(z)
    for i in range(1, n + 1):
        for j in range(i + 1, n + 1):
            b = Permutation.fpf_involution_little_bump(a, i, j)
            y = mul(mul(P.refl(i, j), z), P.refl(i, j))
            if P.flen(y) == P.flen(z) - 1:
                # conjugating down by the reflection is one of the requests that the positions name
                assert b == a or b in {Permutation.fpf_involution_little_bump(a, W(x)) for x in below('fpf', z)}
            if b != a:
                check_bump(a, b, 2)
                assert len(b) == P.flen(final('fpf', z, b))
    for y in all_fpf(n) if n < 7 else all_fpf(4):
        if P.flen(y) >= P.flen(z):
            assert Permutation.fpf_involution_little_bump(a, W(y)) == a
    return label


@law(st.tuples(st.sampled_from(('inv', 'fpf')), st.integers(0, 5000), st.integers(0, 50)), quick=60, thorough=500, shards=(1, 2))
def involution_bump_injective(kind, index, which):
    pool = [z for z in (all_involutions(5) if kind == 'inv' else all_fpf(6)) if below(kind, z)]
    z = pool[index % len(pool)]
    words = P.inv_words(z) if kind == 'inv' else P.fpf_words(z)
    if len(words) > 300:
        return False
    y = below(kind, z)[which % len(below(kind, z))]
    bumper = Permutation.involution_little_bump if kind == 'inv' else Permutation.fpf_involution_little_bump
    images = [bumper(a, W(y)) for a in words]
    assert len(images) == len(set(images))
    ends = {final(kind, z, b) for b in images}
    # nothing is lost: the words of the images are exactly the images
    assert all(final(kind, z, b) != z for b in images) and ends
    return kind if len(words) > 1 else False


# --------------------------------------------------------------- covers

def reflections(n, signed):
    ans = [P.refl(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    if signed:
        ans += [P.sign_refl(i, j) for i in range(1, n + 1) for j in range(i, n + 1)]
    return ans


@law(st.tuples(st.one_of(st_perm(7, True), st_perm(10))), quick=400, thorough=3000, exhaustive=lambda tier: ((w,) for w in all_perms(3, True) + all_perms(5)), shards=(1, 2))
def covers(w):
    got = distinct(val(p) for p in W(w).bruhat_covers())
    want = {mul(w, t) for t in reflections(len(w), True)}
    want = {v for v in want if P.length(v) == P.length(w) - 1}
    assert got == want
    return 'covers' if len(got) > 1 else False


@law(st.tuples(st.one_of(st_involution(5), st_involution(4, True), P.st_short_involution(7, 5))), quick=60, thorough=500,
     exhaustive=lambda tier: ((z,) for z in all_involutions(3, True) + all_involutions(5 if tier == 'quick' else 6)), shards=(2, 3))
def involution_covers(z):
    got = distinct(val(p) for p in W(z).involution_bruhat_covers())
    assert got == set(below('inv', z))
    return 'covers' if len(got) > 1 else False


@law(st.tuples(st.one_of(st_fpf(4, 1), st_fpf(5, 1))), quick=150, thorough=600, case_cpu=300,
     exhaustive=lambda tier: ((z,) for n in range(0, 7 if tier == 'quick' else 9, 2) for z in all_fpf(n)))
def fpf_covers(z):
    got = [val(p) for p in W(z).fpf_involution_bruhat_covers()]
    assert all(P.is_fpf(y) and len(y) <= len(z) for y in got)
    assert distinct(P.fpf_trim(y) for y in got) == {P.fpf_trim(y) for y in below('fpf', z)}
    return 'covers' if len(got) > 1 else False


# ---------------------------------------------------------- transitions

@law(st.tuples(st.one_of(st_perm(6), st_perm(9)), st.integers(1, 11)), quick=300, thorough=3000,
     exhaustive=lambda tier: ((w, r) for w in all_perms(4 if tier == 'quick' else 6) for r in range(1, len(w) + 3)))
def transitions_complete(w, r):
    """Every cover by a transposition moving r is listed, those just beyond the rank included."""
    p = W(w)
    up = [j for j in range(r + 1, max(len(w), r) + 3) if P.length(mul(w, P.refl(r, j))) == P.length(w) + 1]
    low = [i for i in range(1, r) if P.length(mul(w, P.refl(i, r))) == P.length(w) + 1]
    assert sorted(p.upper_transitions(r)) == up, 'upper_transitions'
    assert sorted(p.lower_transitions(r)) == low, 'lower_transitions'
    return 'transitions' if len(up) > 1 or low else False


@law(st.tuples(st.one_of(st_involution(6), st_involution(9)), st.integers(1, 9), st.integers(1, 5)).map(lambda t: (t[0], t[1], t[1] + t[2])), quick=500, thorough=4000, shards=(1, 2),
     exhaustive=lambda tier: ((z, i, j) for z in all_involutions(4 if tier == 'quick' else 5) for i in range(1, 6) for j in range(i + 1, 7)))
def tau(y, i, j):
    """tau_ij(y) is the involution whose atoms are reached from atoms of y by t_ij, when there is one."""
    z = val(W(y).tau(i, j))
    assert P.is_involution(z)
    found = set()
    for a in P.atoms(y):
        b = mul(a, P.refl(i, j))
        if P.length(b) == P.length(a) + 1:
            x = P.demazure(inv(b), b)
            if P.ilen(x) == P.length(b):
                found.add(x)
    assert len(found) <= 1
    if found:
        assert z == next(iter(found)) and bruhat_le(y, z)
    assert (P.ilen(z) == P.ilen(y) + 1) == bool(found)
    p = W(y)
    if i == 1 or j == i + 1:
        for r in range(1, len(y) + 2):
            assert sorted(p.upper_involution_transitions(r)) == [q for q in range(r + 1, max(len(y), r) + 3) if P.ilen(val(p.tau(r, q))) == P.ilen(y) + 1]
            assert sorted(p.lower_involution_transitions(r)) == [q for q in range(1, r) if P.ilen(val(p.tau(q, r))) == P.ilen(y) + 1]
    return 'cover' if found else False


@law(exhaustive=lambda tier: ((y,) for y in all_involutions(4 if tier == 'quick' else 5)), quick=0)
def tau_complete(y):
    """Every involution of the next rank covering y is some tau_ij(y)."""
    n = len(y) + 1
    ups = {z for z in all_involutions(n) if P.ilen(z) == P.ilen(y) + 1 and bruhat_le(y, z)}
    got = {val(W(y).tau(i, j)) for i in range(1, n + 1) for j in range(i + 1, n + 1)}
    assert {z for z in got if P.ilen(z) == P.ilen(y) + 1} == ups
    return 'covers' if ups else False


@law(st.tuples(st.one_of(st_fpf(4, 1), st_fpf(6, 1)), st.integers(0, 12)), quick=300, thorough=2000,
     exhaustive=lambda tier: ((z, r) for z in all_fpf(2) + all_fpf(4) + all_fpf(6) for r in range(6)))
def fpf_transitions(z, k):
    n = len(z)
    r = k % n + 1
    p = W(z)

    def up(i, j):
        y = P.fpf_pad(z, n + 2)
        t = P.refl(i, j)
        x = mul(mul(t, y), t)
        return P.flen(x) == P.flen(y) + 1
    got = list(p.upper_fpf_involution_transitions(r))
    assert got == [j for j in range(r + 1, n + 3) if up(r, j)]
    low = list(p.lower_fpf_involution_transitions(r))
    assert low == [i for i in range(1, r) if up(i, r)]
    for j in got:
        x = mul(mul(P.refl(r, j), P.fpf_pad(z, n + 2)), P.refl(r, j))
        assert P.is_fpf(x) and bruhat_le(P.fpf_pad(z, n + 2), x)
    return 'transitions' if got or low else False
