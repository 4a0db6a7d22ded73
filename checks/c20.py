"""C20: dual stable Grothendieck functions g, gp, gq, gs."""
import itertools

from harness import law
from hypothesis import strategies as st
from lib import contains, family, partitions_upto, rpp_weight, st_skew, subshapes, sym_model, too_many, trim
from symlib import HIGHEST, det, model, negated, pw, stair, sym_value
from symmetric import SymmetricPolynomial as SP
import utils

RULE = 'Non-trivial: inner shape properly contained in the outer one and nonzero function.'
NAMES = ('g', 'gp', 'gq', 'gs')
STRICT = {'g': False, 'gp': True, 'gq': True, 'gs': False}
FN = {'g': SP.dual_stable_grothendieck, 'gp': SP.dual_stable_grothendieck_p, 'gq': SP.dual_stable_grothendieck_q,
      'gs': SP.dual_stable_grothendieck_s}
TOP = {'g': utils.g, 'gp': utils.gp, 'gq': utils.gq, 'gs': utils.gs}
NEG = {'g': SP.mp_dual_stable_grothendieck, 'gp': SP.mp_dual_stable_grothendieck_p, 'gq': SP.mp_dual_stable_grothendieck_q}
NEGTOP = {'g': utils.mp_g, 'gp': utils.mp_gp, 'gq': utils.mp_gq}
HIGH = {'g': SP.schur, 'gp': SP.schur_p, 'gq': SP.schur_q, 'gs': SP.schur_s}


@st.composite
def st_fn(draw, nmax, size, skew, stray=1, names=NAMES):
    name = draw(st.sampled_from(names))
    mu, nu = draw(st_skew(size[name], 4 if name == 'gs' else None, None, STRICT[name], skew[name], stray))
    return name, draw(st.integers(0, nmax)), mu, nu


def exh(tier):
    top = 5 if tier == 'quick' else 6
    for name in NAMES:
        shapes = partitions_upto(top + (2 if STRICT[name] else 0), None, None, STRICT[name])
        for mu in shapes:
            for nu in shapes:
                if contains(mu, nu) or sum(nu) <= sum(mu) + 1:
                    for n in range(4) if contains(mu, nu) and sum(mu) - sum(nu) < 7 else (0, 2):
                        yield name, n, mu, nu


SIZE = {'g': 11, 'gp': 13, 'gq': 13, 'gs': 8}
SKEW = {'g': 7, 'gp': 6, 'gq': 6, 'gs': 5}


@law(st.one_of(st_fn(4, SIZE, SKEW), st_fn(7, SIZE, {'g': 5, 'gp': 5, 'gq': 5, 'gs': 3})), quick=500, thorough=4000, exhaustive=exh, shards=(3, 3))
def tableau_sum(name, n, mu, nu):
    """Equal to the sign/beta-weighted reverse plane partition model."""
    want = model(name, n, mu, nu)
    f = FN[name](n, mu, nu)
    assert sym_model(f, n) == want
    assert sym_model(TOP[name](n, mu, nu), n) == want
    if not nu:
        assert sym_model(FN[name](n, mu), n) == want
    if mu == nu:
        assert f == 1
    if not contains(mu, nu):
        assert f == 0 and not f
    if name != 'gs':
        assert sym_model(NEG[name](n, mu, nu), n) == negated(want)
        assert sym_model(NEGTOP[name](n, mu, nu), n) == negated(want)
    if want:
        h = sym_model(HIGH[name](n, mu, nu), n)
        if h:
            assert sym_model(f.highest_degree_terms(), n) == h
        else:
            assert max(sum(a) for a in want) < sum(mu) - sum(nu)
    return name if want and mu != nu else False


@law(st.tuples(st_fn(3, {'g': 8, 'gp': 9, 'gq': 9, 'gs': 6}, {'g': 7, 'gp': 7, 'gq': 7, 'gs': 5}, 0), st.integers(1, 2)).map(lambda t: t[0] + (t[1],)),
     quick=1000, thorough=6000, shards=(2, 3))
def coproduct(name, n, mu, nu, m):
    """Splitting n+m variables: f_{mu/nu}(x,y) is the sum of f_{lam/nu}(x) f_{mu/lam}(y)."""
    whole = sym_model(FN[name](n + m, mu, nu), n + m)
    want = {}
    if name == 'gs':
        fn, outer, inner, strict = FN['gq'], *stair(mu, nu), True
    else:
        fn, outer, inner, strict = FN[name], mu, nu, STRICT[name]
    for lam in subshapes(outer, strict):
        if not contains(lam, inner):
            continue
        a = sym_model(fn(n, lam, inner), n)
        b = sym_model(fn(m, outer, lam), m)
        for x, d in a.items():
            for y, e in b.items():
                t = want.setdefault((x, y), {})
                for p, u in d.items():
                    for q, v in e.items():
                        t[p + q] = t.get(p + q, 0) + u * v
    want = {k: {e: v for e, v in d.items() if v} for k, d in want.items()}
    want = {k: d for k, d in want.items() if d}
    got = {}
    for a, d in whole.items():
        full = a + (0,) * (n + m - len(a))
        for pick in set(itertools.combinations(full, n)):
            rest = list(full)
            for v in pick:
                rest.remove(v)
            got[(trim(pick), trim(tuple(rest)))] = d
    assert got == want
    return name + (' skew' if nu else '') if whole and mu != nu and n else False


@law(st_fn(6, {'g': 14, 'gp': 14, 'gq': 14, 'gs': 7}, {'g': 10, 'gp': 8, 'gq': 8, 'gs': 6}, 0), quick=1200, thorough=8000, shards=(2, 3))
def larger(name, n, mu, nu):
    """Stability, homogeneity, signs and top terms on larger cases."""
    if n == 0 or (n > 4 and sum(mu) - sum(nu) > (5 if name == "gs" else 7)):
        n = 3
    f = sym_model(FN[name](n, mu, nu), n)
    assert sym_model(FN[name](n - 1, mu, nu), n - 1) == {a: d for a, d in f.items() if len(a) < n}
    size = sum(mu) - sum(nu)
    for a, d in f.items():
        assert list(d) == [size - sum(a)] and d[size - sum(a)] * (-1) ** (size - sum(a)) > 0
    assert {a: {0: d[0]} for a, d in f.items() if sum(a) == size} == sym_model(HIGH[name](n, mu, nu), n)
    # one variable: strips
    one = sym_model(FN[name](1, mu, nu), 1)
    assert {a: d for a, d in f.items() if len(a) <= 1} == one
    return name if len(f) > 1 else False


def dual_jt(mu, xs, b):
    """g_mu at numbers: det of sums of h, row i of sum_k C(i-1,k) (-beta)^k h_{mu_i-i+j-k} (signs for this convention)."""
    l = len(mu)
    from math import comb
    from symlib import series
    h = series(xs, sum(mu) + l + 1, False)

    def at(k):
        return h[k] if k >= 0 else 0
    return det([[sum(comb(i + k - 1, k) * (-b) ** k * at(mu[i] - i + j - k) if i + k - 1 >= 0 else (at(mu[i] - i + j) if k == 0 else 0)
                     for k in range(mu[i] + j + 1)) for j in range(l)] for i in range(l)])


@law(st.tuples(st_fn(5, {k: 13 for k in NAMES}, {k: 13 for k in NAMES}, 0), st.lists(st.integers(1, 7), min_size=5, max_size=5, unique=True),
               st.sampled_from((1, -1, 2, -3))).map(lambda t: (t[0][1], t[0][2], tuple(t[1]), t[2])), quick=1000, thorough=6000)
def determinant(n, mu, xs, b):
    """Jacobi-Trudi type determinant for g, exact values at integers."""
    xs = xs[:n]
    got = sym_value(sym_model(FN['g'](n, mu), n), xs, b)
    want = dual_jt(mu, xs, b)
    assert got == want, (got, want)
    return 'g' if got and len(mu) > 1 else False


SLOW = {'g': SP._slow_dual_stable_grothendieck, 'gp': SP._slow_dual_stable_grothendieck_p, 'gq': SP._slow_dual_stable_grothendieck_q}


@law(st_fn(3, {'g': 7, 'gp': 7, 'gq': 7}, {'g': 6, 'gp': 5, 'gq': 5}, 0, ('g', 'gp', 'gq')), quick=200, thorough=1200)
def enumerated(name, n, mu, nu):
    """The slow variant, which lists the reverse plane partitions, gives the same function."""
    want = model(name, n, mu, nu)
    if sum(abs(v) for d in want.values() for v in d.values()) > 800:
        return False
    assert sym_model(SLOW[name](n, mu, nu), n) == want
    return name if want and mu != nu else False


@law(st.tuples(st.sampled_from(('gp', 'gq')), st.integers(1, 3), st.sampled_from(partitions_upto(7, 3, None, True))), quick=100, thorough=500,
     exhaustive=lambda tier: ((name, n, mu) for name in ('gp', 'gq') for n in (1, 2) for mu in partitions_upto(5, 3, None, True)))
def refined(name, n, mu):
    """The refinement by the entries on the diagonal: each part is the generating function of its own plane partitions."""
    if too_many('mrpp', n, mu, (), False, name == 'gq', 1500):
        return False
    got = (SP._slow_refined_dual_stable_grothendieck_p if name == 'gp' else SP._slow_refined_dual_stable_grothendieck_q)(n, mu)
    want = {}
    for f in family('mrpp', n, mu, (), False, name == 'gq'):
        diag = tuple((f[i, i][0] + 1) // 2 for i in range(1, len(mu) + 1))
        w = rpp_weight(f, n)
        part = want.setdefault(diag, {})
        if all(a >= b for a, b in zip(w, w[1:])):
            d = sum(mu) - sum(w)
            e = part.setdefault(trim(w), {})
            e[d] = e.get(d, 0) + (-1) ** d
    assert {k: sym_model(v, n) for k, v in got.items()} == {k: v for k, v in want.items() if v}
    return name if len(want) > 1 else False
