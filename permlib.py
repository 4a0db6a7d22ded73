"""Reference model of (signed) permutations for the checks.

A signed permutation is the tuple (w(1), ..., w(n)) without trailing fixed
points.  Nothing here calls the code under test.
"""
import functools
import itertools

from hypothesis import strategies as st


def norm(w):
    w = tuple(w)
    while w and w[-1] == len(w):
        w = w[:-1]
    return w


def at(w, i):
    if 0 < i <= len(w):
        return w[i - 1]
    if 0 < -i <= len(w):
        return -w[-i - 1]
    return i


def mul(u, v):
    return norm(at(u, at(v, i)) for i in range(1, max(len(u), len(v)) + 1))


def inv(u):
    ans = [0] * len(u)
    for i, a in enumerate(u):
        ans[abs(a) - 1] = (i + 1) if a > 0 else -(i + 1)
    return norm(ans)


def length(w):
    """least number of simple reflections (type A inversions plus i <= j with w(i) + w(j) < 0)"""
    n = len(w)
    return sum(w[i] > w[j] for i in range(n) for j in range(i + 1, n)) + \
        sum(w[i] + w[j] < 0 for i in range(n) for j in range(i, n))


def s(i):
    return (-1,) if i == 0 else tuple(range(1, i)) + (i + 1, i)


def refl(i, j):
    """the transposition (i, j)"""
    i, j = sorted((i, j))
    if i == j:
        return ()
    return tuple(j if k == i else i if k == j else k for k in range(1, j + 1))


def sign_refl(i, j):
    """the reflection i -> -j, j -> -i"""
    i, j = sorted((i, j))
    return tuple(-j if k == i else -i if k == j else k for k in range(1, j + 1))


def rdes(w):
    return {i for i in range(len(w)) if at(w, i) > at(w, i + 1)}


def ldes(w):
    return rdes(inv(w))


def of_word(word):
    w = ()
    for i in word:
        w = mul(w, s(i))
    return w


def dem(w, i):
    """w o s_i"""
    return w if at(w, i) > at(w, i + 1) else mul(w, s(i))


def hecke_of(word, w=()):
    for i in word:
        w = dem(w, i)
    return w


@functools.lru_cache(None)
def a_reduced_word(w):
    d = rdes(w)
    if not d:
        return ()
    i = max(d)
    return a_reduced_word(mul(w, s(i))) + (i,)


def demazure(u, v):
    return hecke_of(a_reduced_word(v), u)


def conj_dem(z, i):
    """s_i o z o s_i"""
    return inv(dem(inv(dem(z, i)), i))


def inv_hecke_of(word, z=()):
    for i in word:
        z = conj_dem(z, i)
    return z


def minfpf(n):
    assert n % 2 == 0
    return tuple(i + 1 if i % 2 else i - 1 for i in range(1, n + 1))


@functools.lru_cache(None)
def reduced_words(w):
    if not w:
        return frozenset({()})
    return frozenset(e + (i,) for i in rdes(w) for e in reduced_words(mul(w, s(i))))


@functools.lru_cache(None)
def number_of_words(w):
    return 1 if not w else sum(number_of_words(mul(w, s(i))) for i in rdes(w))


@functools.lru_cache(None)
def all_perms(n, signed=False):
    ans = []
    for w in itertools.permutations(range(1, n + 1)):
        for e in itertools.product((1, -1), repeat=n) if signed else ((1,) * n,):
            ans.append(norm(a * b for a, b in zip(w, e)))
    return tuple(ans)


def is_involution(w):
    return all(at(w, a) == i + 1 for i, a in enumerate(w))


def is_fpf(w):
    return is_involution(w) and all(a != i + 1 for i, a in enumerate(w))


@functools.lru_cache(None)
def all_involutions(n, signed=False):
    return tuple(w for w in all_perms(n, signed) if is_involution(w))


@functools.lru_cache(None)
def matchings(items):
    if not items:
        return ((),)
    return tuple(((items[0], items[k]),) + rest
                 for k in range(1, len(items)) for rest in matchings(items[1:k] + items[k + 1:]))


@functools.lru_cache(None)
def all_fpf(n):
    """the fixed-point-free involutions of {1..n}, n even"""
    ans = []
    for m in matchings(tuple(range(1, n + 1))):
        w = [0] * n
        for a, b in m:
            w[a - 1], w[b - 1] = b, a
        ans.append(tuple(w))
    return tuple(ans)


@functools.lru_cache(None)
def atom_table(n, signed=False):
    """z -> minimal length w with w^{-1} o w = z, by search over the whole group"""
    best = {}
    for w in all_perms(n, signed):
        z = demazure(inv(w), w)
        best.setdefault(z, []).append(w)
    return {z: frozenset(w for w in ws if length(w) == min(map(length, ws))) for z, ws in best.items()}


@functools.lru_cache(None)
def fpf_atom_table(n):
    """z -> minimal length w with w^{-1} m w = z"""
    m = minfpf(n)
    best = {}
    for w in all_perms(n):
        z = mul(mul(inv(w), m), w)
        best.setdefault(z, []).append(w)
    return {z: frozenset(w for w in ws if length(w) == min(map(length, ws))) for z, ws in best.items()}


@functools.lru_cache(None)
def inv_words(z):
    """reduced involution words, by descent"""
    if not z:
        return frozenset({()})
    return frozenset(e + (i,) for i in rdes(z) for e in inv_words(inv_down(z, i)))


@functools.lru_cache(None)
def atoms(z):
    """elements with a reduced word among the involution words of z"""
    if not z:
        return frozenset({()})
    return frozenset(mul(a, s(i)) for i in rdes(z) for a in atoms(inv_down(z, i)))


@functools.lru_cache(None)
def count_inv_words(z):
    return 1 if not z else sum(count_inv_words(inv_down(z, i)) for i in rdes(z))


def inv_down(z, i):
    zs, sz = mul(z, s(i)), mul(s(i), z)
    return zs if zs == sz else mul(s(i), zs)


@functools.lru_cache(None)
def ilen(z):
    """length of every involution word"""
    k = 0
    while z:
        z = inv_down(z, max(rdes(z)))
        k += 1
    return k


def fpf_pad(z, n):
    """extend by trailing two-cycles to rank n"""
    return tuple(z) + tuple(i + 1 if i % 2 else i - 1 for i in range(len(z) + 1, n + 1))


def fpf_trim(z):
    while z and z[-1] == len(z) - 1:
        z = z[:-2]
    return z


def flen(z):
    k = 0
    while True:
        d = [i for i in rdes(z) if at(z, i) != i + 1]
        if not d:
            return k
        z = mul(mul(s(d[0]), z), s(d[0]))
        k += 1


@functools.lru_cache(None)
def fpf_words(z):
    d = [i for i in rdes(z) if at(z, i) != i + 1]
    if not d:
        return frozenset({()})
    return frozenset(e + (i,) for i in d for e in fpf_words(mul(mul(s(i), z), s(i))))


@functools.lru_cache(None)
def count_fpf_words(z):
    d = [i for i in rdes(z) if at(z, i) != i + 1]
    return sum(count_fpf_words(mul(mul(s(i), z), s(i))) for i in d) if d else 1


def bruhat_le(u, v):
    """Bruhat order via rank matrices of the permutations of {-n..n}"""
    n = max(len(u), len(v))
    pts = [i for i in range(-n, n + 1) if i]
    for a in pts:
        for b in pts:
            if sum(1 for i in pts if i <= a and at(u, i) >= b) > sum(1 for i in pts if i <= a and at(v, i) >= b):
                return False
    return True


# ------------------------------------------------------------- generators

def st_perm(nmax, signed=False, nmin=0):
    def build(t):
        w, e = t
        return norm(a * (-1 if signed and b else 1) for a, b in zip(w, e))
    return st.integers(nmin, nmax).flatmap(lambda n: st.tuples(
        st.permutations(range(1, n + 1)), st.lists(st.booleans(), min_size=n, max_size=n))).map(build)


def involution_of(order, k, signs=()):
    """pair up the first 2k entries of `order`; signs flip pairs / fixed points"""
    n = len(order)
    w = list(range(1, n + 1))
    signs = tuple(signs) + (False,) * n
    for j in range(k):
        a, b = order[2 * j], order[2 * j + 1]
        e = -1 if signs[j] else 1
        w[a - 1], w[b - 1] = e * b, e * a
    for j in range(2 * k, n):
        if signs[j]:
            w[order[j] - 1] *= -1
    return norm(w)


def st_involution(nmax, signed=False, nmin=0):
    return st.integers(nmin, nmax).flatmap(lambda n: st.tuples(
        st.permutations(range(1, n + 1)), st.integers(0, n // 2),
        st.lists(st.booleans(), min_size=n, max_size=n) if signed else st.just(()))).map(lambda t: involution_of(*t))


def st_fpf(kmax, kmin=0):
    return st.integers(kmin, kmax).flatmap(lambda k: st.permutations(range(1, 2 * k + 1)).map(lambda o: involution_of(o, k)))


# elements of larger ranks that have few words

def _letters(nmax, length, low):
    return st.lists(st.integers(low, nmax - 1), max_size=length)


def st_short_perm(nmax, length, signed=False):
    def build(word):
        w = ()
        for i in word:
            w = mul(w, s(i))
        return norm(w)
    return _letters(nmax, length, 0 if signed else 1).map(build)


def st_short_involution(nmax, length, signed=False):
    def build(word):
        z = ()
        for i in word:
            z = conj_dem(z, i)
        return norm(z)
    return _letters(nmax, length, 0 if signed else 1).map(build)


def st_short_fpf(kmax, length):
    def build(t):
        k, word = t
        z = minfpf(2 * k)
        for i in word:
            i = 1 + (i - 1) % (2 * k - 1)
            y = mul(mul(s(i), z), s(i))
            z = y
        return tuple(z)
    return st.tuples(st.integers(1, kmax), st.lists(st.integers(1, 2 * kmax - 1), max_size=length)).map(build)
