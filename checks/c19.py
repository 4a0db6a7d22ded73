"""C19: double-bar skew functions."""
import itertools

from harness import law
from hypothesis import strategies as st
from lib import contains, corner_deletions, is_partition, partitions_upto, sadd, st_skew, subshapes, sym_model, trim
from symlib import KINDS, bounded, model
from symmetric import SymmetricPolynomial as SP
import utils

RULE = 'Non-trivial: the inner shape has a removable corner and lies in the outer one.'
NAMES = ('G', 'GS', 'GP', 'GQ')
BAR = {'G': SP.stable_grothendieck_doublebar, 'GS': SP.stable_grothendieck_s_doublebar,
       'GP': SP.stable_grothendieck_p_doublebar, 'GQ': SP.stable_grothendieck_q_doublebar}
TOP = {'G': utils.G_doublebar, 'GS': utils.GS_doublebar, 'GP': utils.GP_doublebar, 'GQ': utils.GQ_doublebar}
FN = {'G': SP.stable_grothendieck, 'GS': SP.stable_grothendieck_s, 'GP': SP.stable_grothendieck_p, 'GQ': SP.stable_grothendieck_q}


@st.composite
def st_fn(draw, nmax, size, skew, stray=1, names=NAMES):
    name = draw(st.sampled_from(names))
    mu, nu = draw(st_skew(size[name], None, None, KINDS[name][0], skew[name], stray))
    return name, draw(st.integers(0, nmax)), mu, nu


def bar(name, n, mu, nu):
    ans = {}
    if contains(mu, nu):
        for lam in corner_deletions(nu, KINDS[name][0]):
            ans = sadd(ans, model(name, n, mu, lam), {sum(nu) - sum(lam): 1})
    return ans


def exh(tier):
    top = 5 if tier == 'quick' else 6
    for name in NAMES:
        shapes = partitions_upto(top + (2 if KINDS[name][0] else 0), None, None, KINDS[name][0])
        for mu in shapes:
            for nu in shapes:
                if contains(mu, nu) or sum(nu) <= sum(mu) + 1:
                    for n in range(4) if contains(mu, nu) and sum(mu) - sum(nu) < 6 else (0, 2):
                        yield name, n, mu, nu, None


SIZE = {'G': 9, 'GS': 8, 'GP': 11, 'GQ': 11}
SKEW = {'G': 5, 'GS': 4, 'GP': 6, 'GQ': 5}
BOUND = st.one_of(st.none(), st.integers(-1, 14))


@law(st.tuples(st_fn(4, SIZE, SKEW), BOUND).map(lambda t: t[0] + (t[1],)), quick=700, thorough=5000, exhaustive=exh, shards=(3, 3))
def corner_sum(name, n, mu, nu, bound):
    want = bar(name, n, mu, nu)
    cut = want if bound is None else bounded(want, bound)
    assert sym_model(BAR[name](n, mu, nu, bound), n) == cut
    assert sym_model(TOP[name](n, mu, nu, degree_bound=bound), n) == cut
    assert sym_model(BAR[name](n, mu, nu), n) == want
    if not contains(mu, nu):
        assert not BAR[name](n, mu, nu) and BAR[name](n, mu, nu) == 0
    if not nu:
        assert sym_model(BAR[name](n, mu), n) == model(name, n, mu)
    return name + ('' if len(cut) == len(want) else ' cut') if want and nu else False


def strips(nu, shifted):
    """all lam inside nu (for the undo formula)"""
    return subshapes(nu, shifted)


@law(st_fn(4, SIZE, SKEW, 0), quick=500, thorough=4000, shards=(2, 3))
def undo(name, n, mu, nu):
    """The ordinary skew function as the alternating sum of double-bar functions."""
    shifted = KINDS[name][0]
    ans = {}
    for lam in subshapes(nu, shifted):
        d = sum(nu) - sum(lam)
        ans = sadd(ans, sym_model(BAR[name](n, mu, lam), n), {d: (-1) ** d})
    assert ans == sym_model(FN[name](n, mu, nu), n)
    return name if nu and ans else False


def coefficients(f, n):
    return {trim(a): d for a, d in f.items() if len(a) <= n}


CSIZE = {'G': 7, 'GS': 6, 'GP': 9, 'GQ': 9}
CSKEW = {'G': 6, 'GS': 4, 'GP': 7, 'GQ': 6}


@law(st.tuples(st_fn(3, CSIZE, CSKEW, 0), st.integers(1, 2)).map(lambda t: t[0] + (t[1],)), quick=400, thorough=3000, shards=(2, 3))
def coproduct(name, n, mu, nu, m):
    """Splitting n+m variables: F_{mu//nu}(x,y) is the sum of F_{lam//nu}(x) F_{mu//lam}(y)."""
    if n == 3 and m == 2 and sum(mu) - sum(nu) > 4:
        n = 2
    whole = sym_model(BAR[name](n + m, mu, nu), n + m)
    want = {}
    for lam in subshapes(mu, KINDS[name][0]):
        if not contains(lam, nu):
            continue
        a = sym_model(BAR[name](n, lam, nu), n)
        b = sym_model(BAR[name](m, mu, lam), m)
        for x, d in a.items():
            for y, e in b.items():
                t = want.setdefault((x, y), {})
                for p, u in d.items():
                    for q, v in e.items():
                        t[p + q] = t.get(p + q, 0) + u * v
    want = {k: {e: v for e, v in d.items() if v} for k, d in want.items()}
    want = {k: d for k, d in want.items() if d}
    got = {}
    for a, d in whole.items():
        full = a + (0,) * (n + m - len(a))
        for pick in set(itertools.combinations(full, n)):
            rest = list(full)
            for v in pick:
                rest.remove(v)
            got[(trim(pick), trim(tuple(rest)))] = d
    assert got == want
    return name + (' skew' if nu else '') if whole and mu != nu and n else False


@law(st_fn(5, {'G': 12, 'GS': 9, 'GP': 14, 'GQ': 13}, {'G': 8, 'GS': 5, 'GP': 8, 'GQ': 7}, 0), quick=300, thorough=3000, shards=(2, 3))
def larger(name, n, mu, nu):
    """Corner sums of library functions, and stability, on larger shapes."""
    ans = {}
    for lam in corner_deletions(nu, KINDS[name][0]):
        ans = sadd(ans, sym_model(FN[name](n, mu, lam), n), {sum(nu) - sum(lam): 1})
    got = sym_model(BAR[name](n, mu, nu), n)
    assert got == ans
    if n:
        assert sym_model(BAR[name](n - 1, mu, nu), n - 1) == {a: d for a, d in got.items() if len(a) < n}
    for a, d in got.items():
        assert list(d) == [sum(a) - sum(mu) + sum(nu)]
    return name if nu and mu != nu and got else False
