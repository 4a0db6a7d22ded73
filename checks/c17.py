"""C17: Schur s, P, Q, S functions."""
from harness import law
from hypothesis import strategies as st
from lib import contains, smul, sadd, st_skew, st_partition, subshapes, sym_model, trim, partitions_upto
from symlib import KINDS, model, schur_q_value, schur_value, shifted_value, sym_value
from symmetric import SymmetricPolynomial as SP
import utils

RULE = 'Non-trivial: inner shape contained in the outer one, different from it, and nonzero function.'
FN = {'s': SP.schur, 'S': SP.schur_s, 'P': SP.schur_p, 'Q': SP.schur_q}
TOP = {'s': utils.s, 'S': utils.S, 'P': utils.P, 'Q': utils.Q}


@st.composite
def st_fn(draw, nmax, size, skew, stray=1, names='sSPQ'):
    name = draw(st.sampled_from(names))
    mu, nu = draw(st_skew(size[name], None, None, KINDS[name][0], skew[name], stray))
    return name, draw(st.integers(0, nmax)), mu, nu


SIZE = {'s': 12, 'S': 10, 'P': 16, 'Q': 16}
SKEW = {'s': 9, 'S': 7, 'P': 10, 'Q': 10}


def exh(tier):
    top = 5 if tier == 'quick' else 6
    for name in 'sSPQ':
        shapes = partitions_upto(top + (2 if KINDS[name][0] else 0), None, None, KINDS[name][0])
        for mu in shapes:
            for nu in shapes:
                if contains(mu, nu) or sum(nu) <= sum(mu) + 1:
                    for n in range(4) if contains(mu, nu) else (0, 2):
                        yield name, n, mu, nu


@law(st.one_of(st_fn(4, SIZE, SKEW), st_fn(6, SIZE, {'s': 7, 'S': 5, 'P': 7, 'Q': 7})), quick=700, thorough=5000, exhaustive=exh, shards=(2, 3))
def tableau_sum(name, n, mu, nu):
    """The function equals the weight generating function of an independent tableau model."""
    f = FN[name](n, mu, nu)
    got = sym_model(f, n)
    assert got == model(name, n, mu, nu)
    assert sym_model(TOP[name](n, mu, nu), n) == got
    if not nu:
        assert FN[name](n, mu) == f and sym_model(TOP[name](n, mu), n) == got
    if mu == nu:
        assert got == {(): {0: 1}} and f == 1
    if not contains(mu, nu):
        assert got == {} and f == 0 and not f
    return name if got and mu != nu else False


BIG = {'s': 16, 'S': 13, 'P': 16, 'Q': 16}
XS = st.lists(st.integers(1, 9), min_size=6, max_size=6, unique=True)


@law(st.tuples(st_fn(6, BIG, {k: None for k in BIG}, 0), XS).map(lambda t: t[0] + (tuple(t[1]),)), quick=900, thorough=8000,
     shards=(2, 3))
def determinants(name, n, mu, nu, xs):
    """Jacobi-Trudi and Jozefiak-Pragacz formulas, evaluated at integers, on larger shapes."""
    if n > 4 and sum(mu) - sum(nu) > 12:
        n = 4
    xs = xs[:n]
    got = sym_value(sym_model(FN[name](n, mu, nu), n), xs, 1)
    if name in 'sS':
        want = schur_value(mu, nu, xs, name == 'S')
    else:
        want = schur_q_value(mu, nu, xs)
        if name == 'P':
            want /= 2 ** (len(mu) - len(nu))
    assert got == want, (got, want)
    return name if got and mu != nu else False


@law(st.tuples(st_fn(5, BIG, {k: None for k in BIG}, 0, 'PQ').map(lambda t: (t[0], t[1], t[2])), XS).map(lambda t: t[0] + (tuple(t[1]),)),
     quick=300, thorough=3000)
def symmetrization(name, n, mu, xs):
    """P and Q as symmetrised rational functions."""
    if name in 'sS':
        name = {'s': 'P', 'S': 'Q'}[name]
        mu = tuple(sorted(set(mu), reverse=True))
    xs = xs[:n]
    got = sym_value(sym_model(FN[name](n, mu), n), xs, 1)
    assert got == shifted_value(mu, xs, 0, name == 'Q')
    return name if got and mu else False


@law(st_fn(6, BIG, {k: 11 for k in BIG}, 0), quick=300, thorough=3000)
def adding_variables(name, n, mu, nu):
    """Stability, branching and the relation between P and Q, within the library."""
    if n == 0 or (n > 4 and sum(mu) > 12):
        n = 3
    f = sym_model(FN[name](n, mu, nu), n)
    less = sym_model(FN[name](n - 1, mu, nu), n - 1)
    assert {k: v for k, v in f.items() if len(k) < n} == less
    if name in 'PQ':
        other = sym_model(FN['Q' if name == 'P' else 'P'](n, mu, nu), n)
        k = 2 ** (len(mu) - len(nu))
        q, p = (other, f) if name == 'P' else (f, other)
        assert q == {m: {e: v * k for e, v in d.items()} for m, d in p.items()}
    # last variable split off: coefficient of x^a y^k
    want = {}
    for lam in subshapes(mu, KINDS[name][0]):
        if contains(lam, nu):
            one = sym_model(FN[name](1, mu, lam), 1)
            if one:
                for a, d in sym_model(FN[name](n - 1, lam, nu), n - 1).items():
                    for b, e in one.items():
                        key = (a, sum(b))
                        want[key] = want.get(key, 0) + d[0] * e[0]
    got = {}
    for a, d in f.items():
        full = a + (0,) * (n - len(a))
        for k in set(full):
            r = list(full)
            r.remove(k)
            got[(trim(r), k)] = d[0]
    assert got == {k: v for k, v in want.items() if v}
    return name if f and mu != nu else False


@law(st.tuples(st.sampled_from('sSPQ'), st.sampled_from('sSPQ'), st.integers(1, 5), st_partition(8, None, None, True),
               st_partition(6, None, None, True)), quick=200, thorough=1500)
def products(a, b, n, mu, nu):
    """Library products equal products of the tableau models, and expand back to them."""
    f, g = FN[a](n, mu), FN[b](n, nu)
    got = sym_model(f * g, n)
    assert got == smul(model(a, n, mu), model(b, n, nu), n)
    assert sym_model(g * f, n) == got
    assert sym_model(f + g, n) == sadd(model(a, n, mu), model(b, n, nu))
    return a + b if got and mu and nu else False


SLOW = {'s': SP._slow_schur, 'S': SP._slow_schur_s, 'P': SP._slow_schur_p, 'Q': SP._slow_schur_q}


@law(st_fn(3, {'s': 7, 'S': 6, 'P': 8, 'Q': 8}, {'s': 6, 'S': 5, 'P': 6, 'Q': 6}, 0), quick=200, thorough=1200)
def enumerated(name, n, mu, nu):
    """The slow variant, which lists the tableaux, gives the same function."""
    want = model(name, n, mu, nu)
    if sum(sum(d.values()) for d in want.values()) > 1500:
        return False
    assert sym_model(SLOW[name](n, mu, nu), n) == want
    return name if want and mu != nu else False
