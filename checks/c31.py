"""C31: stable Grothendieck functions of permutations."""
import functools
import itertools

import fresh
from harness import law
from hypothesis import strategies as st
from lib import partitions_upto, sym_model, transpose
import permlib as P
from permlib import all_fpf, all_involutions, all_perms, at, mul
from permutations import Permutation
from symlib import bounded, model
import utils

RULE = 'Non-trivial: non-identity element, at least one variable and a nonzero function.'


def act(kind, z, i):
    """Hecke action of a letter; None when the word stops being a Hecke word"""
    if kind == 'plain':
        return P.dem(z, i)
    if kind == 'fpf':
        if at(z, i) == i + 1:
            return None
        return z if at(z, i) > at(z, i + 1) else mul(mul(P.s(i), z), P.s(i))
    return P.conj_dem(z, i)


@functools.lru_cache(None)
def action(kind, z, word):
    for i in word:
        z = act(kind, z, i)
        if z is None:
            return None
    return z


@functools.lru_cache(None)
def factors(kind, rank):
    """one factor: words with their multiplicities, by length"""
    letters = range(0 if kind in ('inv', 'signed') else 1, rank)
    dec = [tuple(sorted(c, reverse=True)) for k in range(rank + 1) for c in itertools.combinations(letters, k)]
    if kind != 'signed':
        return tuple(dec)
    return tuple(a + b[::-1] for a in dec for b in dec)


@functools.lru_cache(None)
def table(kind, rank, n, top):
    """{element: {weight: number of factorizations}} for n factors with total length at most top"""
    start = P.minfpf(rank) if kind == 'fpf' else ()
    if n == 0:
        return {start: {(): 1}}
    ans = {}
    for z, weights in table(kind, rank, n - 1, top).items():
        for word in factors(kind, rank):
            y = action(kind, z, word)
            if y is None:
                continue
            d = ans.setdefault(y, {})
            for a, c in weights.items():
                if sum(a) + len(word) <= top:
                    k = a + (len(word),)
                    d[k] = d.get(k, 0) + c
    return ans


def ell(kind, z):
    return {'plain': P.length, 'fpf': P.flen, 'inv': P.ilen, 'signed': P.ilen}[kind](z)


def want(kind, z, n, top):
    """the beta-weighted count of factorizations, as a symmetric function; also checks its symmetry"""
    t = table(kind, len(z), n, top).get(z, {})
    ans = {}
    for a, c in t.items():
        mu = tuple(sorted((x for x in a if x), reverse=True))
        e = sum(a) - ell(kind, z)
        assert ans.setdefault(mu, {e: c}) == {e: c}
    return ans


METHOD = {'plain': 'stable_grothendieck', 'fpf': 'symplectic_stable_grothendieck', 'inv': 'involution_stable_grothendieck',
          'signed': 'signed_involution_stable_grothendieck'}
MORE = {'plain': P.st_short_perm(8, 5), 'fpf': P.st_short_fpf(5, 4), 'inv': P.st_short_involution(7, 4), 'signed': P.st_short_involution(5, 4, True)}
POOL = {
    'plain': all_perms(4), 'fpf': all_fpf(4) + all_fpf(6), 'inv': all_involutions(4), 'signed': all_involutions(3, True),
}
# largest degree computed for (kind, number of variables)
TOP = {
    'plain': {0: 3, 1: 4, 2: 7, 3: 7}, 'fpf': {0: 3, 1: 5, 2: 7, 3: 6}, 'inv': {0: 3, 1: 5, 2: 6, 3: 6}, 'signed': {0: 3, 1: 5, 2: 6, 3: 5},
}


@st.composite
def st_case(draw, big=0):
    kind = draw(st.sampled_from(sorted(POOL)))
    z = draw(st.one_of(st.sampled_from(POOL[kind]), MORE[kind]))
    n = draw(st.integers(0, 3))
    top = draw(st.integers(0, max(0, TOP[kind][n] + big - (3 if len(z) > 6 else 1 if len(z) > 4 else 0))))
    return kind, z, n, top


def exh(tier):
    for kind in sorted(POOL):
        for n in range(4):
            for z in POOL[kind]:
                top = TOP[kind][n] + (0 if tier == 'quick' else 1)
                if len(z) > 4 and tier == 'quick':
                    top = min(top, 5)
                yield kind, z, n, top


@law(st_case(), quick=100, thorough=1000, exhaustive=exh, shards=(4, 4))
def factorizations(kind, z, n, top):
    f = getattr(Permutation(*z), METHOD[kind])(n, degree_bound=top)
    w = want(kind, z, n, top)
    assert sym_model(f, n) == w, (sym_model(f, n), w)
    if kind != 'inv':
        g = {'plain': utils.G, 'fpf': utils.GP, 'signed': utils.GS}[kind](n, Permutation(*z), degree_bound=top)
        assert sym_model(g, n) == w
        g = {'plain': utils.grothendieck, 'fpf': utils.grothendieck_P, 'signed': utils.grothendieck_S}[kind](n, Permutation(*z), degree_bound=top)
        assert g == f
    return kind if w and z and n else False


def unbounded_cases(tier):
    big = 1 if tier == 'quick' else 2
    for kind in sorted(POOL):
        for z in {'plain': all_perms(4), 'fpf': all_fpf(4) + all_fpf(6), 'inv': all_involutions(3), 'signed': all_involutions(2, True)}[kind]:
            for n in range(5):
                size = n * (2 * len(z) if kind == 'signed' else len(z) if kind == 'inv' else len(z) - 1)
                if size <= 8 + big:
                    yield kind, z, n


@law(exhaustive=unbounded_cases, quick=0, shards=(2, 4))
def unbounded(kind, z, n):
    """Without a degree bound the function is complete."""
    f = getattr(Permutation(*z), METHOD[kind])(n)
    top = n * 2 * max(len(z), 1)
    assert sym_model(f, n) == want(kind, z, n, top)
    if kind != 'inv':
        assert {'plain': utils.G, 'fpf': utils.GP, 'signed': utils.GS}[kind](n, Permutation(*z)) == f
    return kind if z and n else False


@law(st.tuples(st_case(), st.integers(1, 2)).map(lambda t: t[0] + (t[1],)), quick=100, thorough=800, shards=(1, 2))
def stable(kind, z, n, top, m):
    """Setting the last variables to zero gives the function in fewer variables."""
    n, m = min(n, 2), min(m, 3 - min(n, 2))
    f = getattr(Permutation(*z), METHOD[kind])(n, degree_bound=top)
    g = getattr(Permutation(*z), METHOD[kind])(n + m, degree_bound=min(top, TOP[kind][n + m]))
    got = {mu: d for mu, d in sym_model(g, n + m).items() if len(mu) <= n}
    assert got == bounded(sym_model(f, n), min(top, TOP[kind][n + m]))
    return kind if z and n else False


@law(exhaustive=lambda tier: ((mu, n, d) for mu in partitions_upto(4 if tier == 'quick' else 5) for n in range(4) for d in (0, 1, 2)), quick=0, shards=(2, 3))
def grassmannian(mu, n, extra):
    """The element of a partition gives the function of the transposed partition."""
    top = sum(mu) + extra
    f = Permutation.get_grassmannian(*mu).stable_grothendieck(n, top)
    assert sym_model(f, n) == bounded(model('G', n, transpose(mu)), top)
    assert f == utils.G(n, transpose(mu), degree_bound=top)
    return 'G' if mu and f else False


@law(exhaustive=lambda tier: ((mu, n, d) for mu in partitions_upto(4 if tier == 'quick' else 6, None, None, True) for n in range(4) for d in (0, 1, 2)
                              if sum(mu) + d < (6 if tier == 'quick' else 7)), quick=0, shards=(2, 3))
def shifted_grassmannian(mu, n, extra):
    """The involution and the fixed-point-free involution of a strict partition both give GP."""
    top = sum(mu) + extra
    w = bounded(model('GP', n, mu), top)
    f = Permutation.get_fpf_grassmannian(*mu).symplectic_stable_grothendieck(n, top)
    assert sym_model(f, n) == w
    assert f == utils.GP(n, mu, degree_bound=top)
    f = Permutation.get_inv_grassmannian(*mu).involution_stable_grothendieck(n, top)
    assert sym_model(f, n) == w
    return 'GP' if mu and f else False


@law(exhaustive=lambda tier: ((r, n, top) for r in range(4) for n in range(4) for top in range(8 if tier == 'quick' else 10) if r * top < (19 if tier == 'quick' else 25)), quick=0)
def signed_longest(r, n, top):
    """The longest signed element gives GS of the staircase."""
    f = Permutation.longest_element(r, signed=True).signed_involution_stable_grothendieck(n, top)
    mu = tuple(range(r, 0, -1))
    if sum(mu) + 2 * r * n < 40 and n * r <= 4:
        assert sym_model(f, n) == bounded(model('GS', n, mu), top)
    assert f == utils.GS(n, mu, degree_bound=top)
    return 'GS' if f and r and n else False


@law(st.tuples(st.lists(st_case(), min_size=2, max_size=6).map(tuple)), quick=60, thorough=500, shards=(2, 3))
def history(cases):
    """Values do not depend on the bounds used before; caches start cold."""
    fresh_permutation = fresh.world('permutations').permutations.Permutation
    for kind, z, n, top in cases + cases[:1]:
        f = getattr(fresh_permutation(*z), METHOD[kind])(n, top)
        got = {}
        for mon, c in f.items():
            assert mon.order() == n
            got[mon.index()] = {sum(dict(k).values()): v for k, v in c.coeffs.items()} if type(c) != int else {0: c}
        assert got == want(kind, z, n, top)
    return 'history' if any(z and n for _, z, n, _ in cases) else False
