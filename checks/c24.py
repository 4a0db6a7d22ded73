"""C24: Pieri rules and change of basis between GP, GQ and gp, gq."""
from math import comb

from harness import law
from hypothesis import strategies as st
from lib import cells, contains, partitions_upto, sadd, smul, st_partition, subshapes, sym_model, transfer, trim
from symlib import model
from symmetric import SymmetricPolynomial as SP
from tableaux import Tableau
from partitions import Partition
from vectors import Vector
import utils

RULE = 'Non-trivial: mu nonempty, p positive and at least two terms in the product.'
beta = utils.beta


def one_row(p):
    return (p,) if p else ()


def total(terms, fn, n):
    """sum of {shape: {beta exp: coeff}} times fn(n, shape), as a model"""
    ans = {}
    for nu, d in terms.items():
        d = {e: v for e, v in d.items() if v}
        if d:
            ans = sadd(ans, sym_model(fn(n, nu), n), d)
    return ans


@st.composite
def st_case(draw, size, nmax, pmax, strict=True):
    mu = draw(st_partition(size, None, None, strict))
    return draw(st.integers(1, nmax)), mu, draw(st.integers(0, pmax))


KIND = {
    'GP': (SP.stable_grothendieck_p, Tableau.KOG_counts_by_shape, Tableau.KOG_counts, Tableau.KOG_by_shape, SP.GP_expansion),
    'GQ': (SP.stable_grothendieck_q, Tableau.KLG_counts_by_shape, Tableau.KLG_counts, Tableau.KLG_by_shape, SP.GQ_expansion),
}


def k_pieri(name, n, mu, p):
    fn, counts, single, shapes, expansion = KIND[name]
    c = counts(p, mu)
    product = fn(n, mu) * fn(n, one_row(p))
    got = sym_model(product, n)
    want = total({nu: {sum(nu) - sum(mu) - p: k} for nu, k in c.items()}, fn, n)
    assert got == want
    assert {nu: len(t) for nu, t in shapes(p, mu).items()} == {nu: k for nu, k in c.items()}
    if n == len(mu) + 1:
        e = expansion(product)
        assert e == Vector({nu: beta ** (sum(nu) - sum(mu) - p) * single(nu, mu, p) for nu in c})
    return name if mu and p and len(c) > 1 and got else False


def exh(tier):
    for mu in partitions_upto(5 if tier == 'quick' else 7, None, None, True):
        for p in range(4):
            yield len(mu) + 1, mu, p


@law(st_case(8, 3, 5), quick=120, thorough=1200, exhaustive=exh, shards=(3, 4))
def GP_pieri(n, mu, p):
    return k_pieri('GP', n, mu, p)


@law(st_case(7, 3, 5), quick=120, thorough=1200, exhaustive=exh, shards=(3, 4))
def GQ_pieri(n, mu, p):
    return k_pieri('GQ', n, mu, p)


def outer(lam, r):
    """strict shapes nu containing lam minus some corners, of size at most |lam| + r"""
    for nu in partitions_upto(sum(lam) + r, len(lam) + 1, (lam[0] if lam else 0) + r, True):
        if contains(nu, lam):
            yield nu


@law(st_case(9, 3, 5), quick=200, thorough=2000, exhaustive=exh, shards=(2, 3))
def dual_pieri(n, lam, r):
    """gq_lam gq_r and gp_lam gq_r expand with the co-Pieri tables."""
    if not r:
        return False
    one = SP.dual_stable_grothendieck_q(n, one_row(r))
    kinds = 0
    for diag, fn in ((False, SP.dual_stable_grothendieck_q), (True, SP.dual_stable_grothendieck_p)):
        terms = {}
        for nu in outer(lam, r):
            k = len(Tableau.shifted_setvalued_copieri(nu, lam, diag).get(r, []))
            if k:
                terms[nu] = {sum(lam) + r - sum(nu): k}
        assert sym_model(fn(n, lam) * one, n) == total(terms, fn, n)
        kinds = max(kinds, len(terms))
    return 'dual' if lam and kinds > 1 else False


def zero_one(k):
    return [()] if k == 0 else [a + (b,) for a in zero_one(k - 1) for b in (0, 1)]


def sign(lam, mu):
    return (-1) ** len({j for i, j in cells(lam, mu, True)})


@law(st_case(12, 5, 0), quick=200, thorough=1500, exhaustive=lambda tier: ((n, mu, 0) for n in range(4) for mu in partitions_upto(8, None, None, True)))
def q_in_p(n, mu, _):
    """GQ_mu in terms of GP, and gq_mu in terms of gp, by adding or removing vertical strips."""
    up = {}
    for a in zero_one(len(mu)):
        lam = tuple(x + y for x, y in zip(mu, a))
        if all(lam[i] > lam[i + 1] for i in range(len(lam) - 1)):
            d = sum(lam) - sum(mu)
            up[lam] = {d: 2 ** (len(mu) - d) * sign(lam, mu) * (-1) ** d}
    assert sym_model(SP.stable_grothendieck_q(n, mu), n) == total(up, SP.stable_grothendieck_p, n)
    down = {}
    for a in zero_one(len(mu)):
        lam = tuple(x - y for x, y in zip(mu, a))
        if all(x > 0 for x in lam) and all(lam[i] > lam[i + 1] for i in range(len(lam) - 1)):
            d = sum(mu) - sum(lam)
            down[lam] = {d: 2 ** (len(mu) - d) * sign(mu, lam) * (-1) ** d}
    assert sym_model(SP.dual_stable_grothendieck_q(n, mu), n) == total(down, SP.dual_stable_grothendieck_p, n)
    if n == len(mu) and sum(mu) < 9:
        e = utils.GP_expansion(utils.GQ(n, mu))
        assert e == Vector({lam: beta ** k * v for lam, d in up.items() for k, v in d.items()})
        e = utils.gp_expansion(utils.gq(n, mu))
        assert e == Vector({lam: beta ** k * v for lam, d in down.items() for k, v in d.items()})
    return 'n=%d' % n if len(up) > 1 and len(mu) <= n else False


@law(st_case(9, 4, 5, False), quick=300, thorough=2000, shards=(1, 2))
def unshifted(n, mu, r):
    """One-row products of s, S, G and g."""
    horizontal = [nu for nu in partitions_upto(sum(mu) + r, len(mu) + 1, (mu[0] if mu else 0) + r)
                  if contains(nu, mu) and len({j for i, j in cells(nu, mu)}) == sum(nu) - sum(mu)]
    plain = {nu: {0: 1} for nu in horizontal if sum(nu) == sum(mu) + r}
    for fn in (SP.schur, SP.schur_s):
        if fn == SP.schur or sum(mu) + r < 10:
            assert sym_model(fn(n, mu) * fn(n, one_row(r)), n) == total(plain, fn, n)
    if r == 0:
        return False
    terms = {}
    big = [nu for nu in partitions_upto(sum(mu) + r + len(mu) + 1, len(mu) + 1, (mu[0] if mu else 0) + r)
           if contains(nu, mu) and len({j for i, j in cells(nu, mu)}) == sum(nu) - sum(mu)]
    for nu in big:
        rows, size = len({i for i, j in cells(nu, mu)}), sum(nu) - sum(mu)
        if size >= r:
            terms[nu] = {size - r: comb(rows - 1, size - r)}
    if n < 4 or sum(mu) + r < 9:
        assert sym_model(SP.stable_grothendieck(n, mu) * SP.stable_grothendieck(n, (r,)), n) == total(terms, SP.stable_grothendieck, n)
    # dual: coefficient of x^r in the one-variable double-bar function
    terms = {}
    for nu in partitions_upto(sum(mu) + r, len(mu) + 1, (mu[0] if mu else 0) + r):
        if contains(nu, mu):
            d = sym_model(SP.stable_grothendieck_doublebar(1, nu, mu), 1).get((r,))
            if d:
                terms[nu] = d
    # the double-bar coefficient carries the power of beta
    assert sym_model(SP.dual_stable_grothendieck(n, mu) * SP.dual_stable_grothendieck(n, (r,)), n) == total(terms, SP.dual_stable_grothendieck, n)
    return 'n=%d' % n if mu and len(plain) > 1 else False


@law(st_case(11, 4, 6), quick=300, thorough=2000, shards=(1, 2))
def shifted(n, mu, r):
    """P_mu q_r and Q_mu q_r by shifted horizontal strips."""
    one = SP.schur_q(n, one_row(r))
    p, q = {}, {}
    for nu in partitions_upto(sum(mu) + r, len(mu) + 1, None, True):
        if sum(nu) == sum(mu) + r and contains(nu, mu):
            k = transfer('shifted', 1, nu, mu, True).get((r,), 0)
            if k:
                p[nu] = {0: k}
            k = transfer('shifted', 1, nu, mu, False).get((r,), 0)
            if k:
                q[nu] = {0: k}
    assert sym_model(SP.schur_p(n, mu) * one, n) == total(p, SP.schur_p, n)
    assert sym_model(SP.schur_q(n, mu) * one, n) == total(q, SP.schur_q, n)
    return 'n=%d' % n if mu and r and len(p) > 1 else False
