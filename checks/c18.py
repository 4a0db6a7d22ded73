"""C18: stable Grothendieck functions G, GP, GQ, GS."""
from harness import law
from hypothesis import strategies as st
from lib import contains, partitions_upto, st_skew, sym_model
from symlib import KINDS, LOWEST, bounded, grothendieck_value, model, negated, pw, shifted_value, sym_value
from symmetric import SymmetricPolynomial as SP
import utils

RULE = 'Non-trivial: inner shape properly contained in the outer one and nonzero function; labelled by family and by whether a degree bound cut terms off.'
NAMES = ('G', 'GS', 'GP', 'GQ')
FN = {'G': SP.stable_grothendieck, 'GS': SP.stable_grothendieck_s, 'GP': SP.stable_grothendieck_p, 'GQ': SP.stable_grothendieck_q}
TOP = {'G': utils.G, 'GS': utils.GS, 'GP': utils.GP, 'GQ': utils.GQ}
NEG = {'G': SP.mn_stable_grothendieck, 'GP': SP.mn_stable_grothendieck_p, 'GQ': SP.mn_stable_grothendieck_q}
NEGTOP = {'G': utils.mn_G, 'GP': utils.mn_GP, 'GQ': utils.mn_GQ}
LOW = {'G': SP.schur, 'GS': SP.schur_s, 'GP': SP.schur_p, 'GQ': SP.schur_q}


@st.composite
def st_fn(draw, nmax, size, skew, stray=1, names=NAMES):
    name = draw(st.sampled_from(names))
    mu, nu = draw(st_skew(size[name], None, None, KINDS[name][0], skew[name], stray))
    return name, draw(st.integers(0, nmax)), mu, nu


def exh(tier):
    top = 5 if tier == 'quick' else 6
    for name in NAMES:
        shapes = partitions_upto(top + (2 if KINDS[name][0] else 0), None, None, KINDS[name][0])
        for mu in shapes:
            for nu in shapes:
                if contains(mu, nu) or sum(nu) <= sum(mu) + 1:
                    for n in range(4) if contains(mu, nu) else (0, 2):
                        yield name, n, mu, nu, None


SIZE = {'G': 11, 'GS': 9, 'GP': 14, 'GQ': 14}
SKEW = {'G': 6, 'GS': 5, 'GP': 7, 'GQ': 6}
BOUND = st.one_of(st.none(), st.integers(-1, 14))


@law(st.tuples(st.one_of(st_fn(4, SIZE, SKEW), st_fn(4, SIZE, SKEW), st_fn(6, SIZE, {'G': 4, 'GS': 3, 'GP': 4, 'GQ': 4})), BOUND).map(lambda t: t[0] + (t[1],)), quick=700, thorough=5000, exhaustive=exh, shards=(3, 3))
def tableau_sum(name, n, mu, nu, bound):
    """Equal to the beta-weighted set-valued tableau model, with every way to pass the degree bound."""
    want = model(name, n, mu, nu)
    cut = want if bound is None else bounded(want, bound)
    f = FN[name](n, mu, nu, bound)
    assert sym_model(f, n) == cut
    assert sym_model(FN[name](n, mu, nu, degree_bound=bound), n) == cut
    assert sym_model(TOP[name](n, mu, nu, bound), n) == cut
    assert sym_model(FN[name](n, mu, nu), n) == want
    assert f.truncate(3) == FN[name](n, mu, nu, degree_bound=3 if bound is None else min(3, bound))
    if mu == nu and (bound is None or bound >= 0):
        assert f == 1
    if not contains(mu, nu):
        assert f == 0 and not f
    low = LOW[name](n, mu, nu)
    if want:
        if low:
            assert sym_model(FN[name](n, mu, nu).lowest_degree_terms(), n) == sym_model(low, n)
        else:
            assert min(sum(a) for a in want) > sum(mu) - sum(nu)
    if not nu:
        assert sym_model(FN[name](n, mu), n) == want
    return (name + ('' if len(cut) == len(want) else ' cut')) if want and mu != nu else False


@law(st_fn(4, SIZE, SKEW, 1, ('G', 'GP', 'GQ')), quick=400, thorough=3000)
def negated_beta(name, n, mu, nu):
    want = negated(model(name, n, mu, nu))
    assert sym_model(NEG[name](n, mu, nu), n) == want
    assert sym_model(NEGTOP[name](n, mu, nu), n) == want
    assert sym_model(SP.negate_beta(NEG[name](n, mu, nu)), n) == model(name, n, mu, nu)
    assert sym_model(FN[name](n, mu, nu), n) == model(name, n, mu, nu)
    return name if len(want) > 1 else False


BIG = {'G': 12, 'GS': 8, 'GP': 14, 'GQ': 12}
XS = st.lists(st.integers(1, 7), min_size=5, max_size=5, unique=True)
B = st.sampled_from((1, -1, 2, -2, 3))


@law(st.tuples(st_fn(5, BIG, {k: 14 for k in BIG}, 0, ('G', 'GP', 'GQ')), XS, B).map(lambda t: (t[0][0], t[0][1], t[0][2], tuple(t[1]), t[2])),
     quick=500, thorough=5000, shards=(2, 3))
def closed_formula(name, n, mu, xs, b):
    """Bialternant and Ikeda-Naruse formulas, exact values at integers, for straight shapes."""
    xs = xs[:n]
    if b != 1 and any(1 + b * x == 0 for x in xs):
        b = 1
    got = sym_value(sym_model(FN[name](n, mu), n), xs, b)
    want = grothendieck_value(mu, xs, b) if name == 'G' else shifted_value(mu, xs, b, name == 'GQ')
    assert got == want, (got, want)
    return name if got and mu else False


@law(st_fn(6, BIG, {'G': 9, 'GS': 6, 'GP': 9, 'GQ': 8}, 0), quick=300, thorough=3000, shards=(2, 3))
def stability(name, n, mu, nu):
    """Setting the last variable to zero, homogeneity, and lowest terms on larger cases."""
    if n == 0:
        n = 5
    f = sym_model(FN[name](n, mu, nu), n)
    less = sym_model(FN[name](n - 1, mu, nu), n - 1)
    assert {k: v for k, v in f.items() if len(k) < n} == less
    size = sum(mu) - sum(nu)
    for a, d in f.items():
        assert list(d) == [sum(a) - size] and d[sum(a) - size] > 0
    low = sym_model(LOW[name](n, mu, nu), n)
    assert {a: {0: d[0]} for a, d in f.items() if sum(a) == size} == low
    return name if len(f) > 1 else False


@law(st_fn(3, {'G': 7, 'GS': 6, 'GP': 9, 'GQ': 8}, {k: 5 for k in NAMES}, 0), quick=200, thorough=1500)
def doubled_variables(name, n, mu, nu):
    """GQ, GP and GS cancel: substituting x_n = -x_{n-1}/(1+beta x_{n-1}) leaves the function of n-2 variables."""
    if name == 'G':
        name = 'GS'
    n += 2
    f = sym_model(FN[name](n, mu, nu), n)
    b = 1
    xs = [2, 3, 5][:n - 2]
    from fractions import Fraction
    t = Fraction(7)
    v = sym_value(f, tuple(map(Fraction, xs)) + (t, -t / (1 + b * t)), b)
    w = sym_value(sym_model(FN[name](n - 2, mu, nu), n - 2), tuple(map(Fraction, xs)), b)
    assert v == w, (v, w)
    return name if f and mu != nu else False


SLOW = {'G': SP._slow_stable_grothendieck, 'GS': SP._slow_stable_grothendieck_s, 'GP': SP._slow_stable_grothendieck_p,
        'GQ': SP._slow_stable_grothendieck_q}


@law(st_fn(3, {'G': 6, 'GS': 4, 'GP': 6, 'GQ': 6}, {'G': 5, 'GS': 3, 'GP': 4, 'GQ': 4}, 0), quick=200, thorough=1200)
def enumerated(name, n, mu, nu):
    """The slow variant, which lists the tableaux, gives the same function."""
    want = model(name, n, mu, nu)
    if sum(sum(d.values()) for d in want.values()) > 600:
        return False
    assert sym_model(SLOW[name](n, mu, nu), n) == want
    return name if want and mu != nu else False
