"""C21: j, jp, jq, js are the images of g (transposed shape), gp, gq, gs under omega, up to the sign of beta."""
import functools
from collections import defaultdict
from math import comb

from harness import law
from hypothesis import strategies as st
from lib import contains, family, is_partition, partitions_of, partitions_upto, sadd, st_skew, sym_model, transpose, trim
from polynomials import Polynomial, beta
from symlib import model, negated, stair
from symmetric import SymmetricPolynomial as SP
import utils

RULE = 'Non-trivial: inner shape properly contained in the outer one and nonzero function.'
NAMES = ('j', 'jp', 'jq', 'js')
STRICT = {'j': False, 'jp': True, 'jq': True, 'js': False}
FN = {'j': SP.slow_transposed_dual_stable_grothendieck, 'jp': SP.slow_transposed_dual_stable_grothendieck_p,
      'jq': SP.slow_transposed_dual_stable_grothendieck_q, 'js': SP.slow_transposed_dual_stable_grothendieck_s}
TOP = {'j': utils.j, 'jp': utils.jp, 'jq': utils.jq, 'js': utils.js}
DUAL = {'j': 'g', 'jp': 'gp', 'jq': 'gq', 'js': 'gs'}
DUALFN = {'j': SP.dual_stable_grothendieck, 'jp': SP.dual_stable_grothendieck_p, 'jq': SP.dual_stable_grothendieck_q,
          'js': SP.dual_stable_grothendieck_s}


@st.composite
def st_fn(draw, nmax, size, skew, stray=1, names=NAMES):
    name = draw(st.sampled_from(names))
    mu, nu = draw(st_skew(size[name], 4 if name == 'js' else None, None, STRICT[name], skew[name], stray))
    return name, draw(st.integers(0, nmax)), mu, nu


@functools.lru_cache(None)
def schur_in_monomials(n, lam):
    return {a: d[0] for a, d in model('s', n, lam).items()}


def to_schur(f, n):
    """sym model in n variables -> {partition: {beta: coeff}}, Schur coefficients (at most n rows)"""
    f = {a: dict(d) for a, d in f.items()}
    ans = {}
    while f:
        a = max(f, key=lambda x: (sum(x), x))
        d = f[a]
        ans[a] = d
        f = sadd(f, {b: {0: c} for b, c in schur_in_monomials(n, a).items()}, {e: -v for e, v in d.items()})
    return ans


def from_schur(c, n):
    ans = {}
    for lam, d in c.items():
        if len(lam) <= n:
            ans = sadd(ans, {b: {0: v} for b, v in schur_in_monomials(n, lam).items()}, d)
    return ans


@functools.lru_cache(5000)
def omega_model(name, n, mu, nu):
    """independent: the tableau model of g.. in |mu/nu| variables, transposed, restricted to n variables"""
    if not contains(mu, nu):
        return {}
    N = sum(mu) - sum(nu)
    if name == 'j':
        mu, nu = transpose(mu), transpose(nu)
    c = to_schur(model(DUAL[name], N, mu, nu), N)
    return from_schur({transpose(lam): d for lam, d in c.items()}, n)


def valued_model(name, n, mu, nu):
    """independent: every plain tableau with groups of equal letters cut into pieces"""
    if not contains(mu, nu):
        return {}
    if name == 'js':
        return valued_model('jq', n, *stair(mu, nu))
    kind = 'ss' if name == 'j' else 'shifted'
    table = defaultdict(int)
    for f in family(kind, n, mu, nu, False, name != 'jp'):
        groups, size = [set() for _ in range(n)], [0] * n
        for (i, j), e in f.items():
            x = e[0]
            groups[(x - 1) // 2].add(('row', i) if x % 2 == 0 else ('col', j))
            size[(x - 1) // 2] += 1
        w = {(): 1}
        for k in range(n):
            r, a = len(groups[k]), size[k]
            w = {t + (r + c,): v * comb(a - r, c) for t, v in w.items() for c in range(a - r + 1)}
        for t, v in w.items():
            table[t] += v
    size = sum(mu) - sum(nu)
    return {trim(t): {size - sum(t): v} for t, v in table.items() if is_partition(t) and v}


def exh(tier):
    top = 4 if tier == 'quick' else 5
    for name in NAMES:
        shapes = partitions_upto(top + (2 if STRICT[name] else 0), None, None, STRICT[name])
        for mu in shapes:
            for nu in shapes:
                if contains(mu, nu) or sum(nu) <= sum(mu) + 1:
                    for n in range(4) if contains(mu, nu) and sum(mu) - sum(nu) < 6 else (0, 2):
                        yield name, n, mu, nu


SIZE = {'j': 9, 'jp': 12, 'jq': 12, 'js': 6}
SKEW = {'j': 7, 'jp': 5, 'jq': 5, 'js': 4}


@law(st.one_of(st_fn(4, SIZE, SKEW), st_fn(5, SIZE, {'j': 4, 'jp': 3, 'jq': 3, 'js': 2})), quick=300, thorough=2500, exhaustive=exh, shards=(3, 4))
def omega_of_dual(name, n, mu, nu):
    """Equal to omega of the reverse plane partition model, in any number of variables."""
    plain = omega_model(name, n, mu, nu)
    want = negated(plain)
    # default value of the beta argument
    f = FN[name](n, mu, nu)
    assert sym_model(f, n) == want, (sym_model(f, n), want)
    assert sym_model(TOP[name](n, mu, nu), n) == want
    if not nu:
        assert sym_model(FN[name](n, mu), n) == want
    if mu == nu:
        assert f == 1
    if not contains(mu, nu):
        assert f == 0 and not f
    if n:
        assert sym_model(FN[name](n - 1, mu, nu), n - 1) == {a: d for a, d in want.items() if len(a) < n}
    # other values of the beta argument
    assert sym_model(FN[name](n, mu, nu, beta), n) == plain
    assert sym_model(FN[name](n, mu, nu, beta=-beta), n) == want
    return name + (' skew' if nu else '') if want and mu != nu else False


@law(st_fn(3, {'j': 10, 'jp': 11, 'jq': 11, 'js': 6}, {'j': 8, 'jp': 6, 'jq': 6, 'js': 4}), quick=300, thorough=2500, shards=(2, 3))
def valued_tableaux(name, n, mu, nu):
    """Equal to the generating function of tableaux whose equal letters are grouped."""
    assert sym_model(FN[name](n, mu, nu), n) == (want := valued_model(name, n, mu, nu))
    return name if want and mu != nu else False


@law(st_fn(0, {'j': 7, 'jp': 7, 'jq': 7, 'js': 5}, {'j': 5, 'jp': 4, 'jq': 4, 'js': 4}, 0), quick=250, thorough=2000, shards=(2, 3))
def library_omega(name, n, mu, nu):
    """The library's own omega and Schur expansions exchange the two functions, both ways."""
    n = sum(mu) - sum(nu)
    if n == 0:
        return False
    f, g = FN[name](n, mu, nu, beta), DUALFN[name](n, *((transpose(mu), transpose(nu)) if name == 'j' else (mu, nu)))
    ef, eg = SP.schur_expansion(f), SP.schur_expansion(g)
    assert SP.omega_schur_expansion(f) == eg and SP.omega_schur_expansion(g) == ef
    assert {transpose(lam) for lam in ef} == set(eg)
    return name if len(mu) > 1 else False


@law(st.integers(1, 5).flatmap(lambda n: st.tuples(st.just(n), st.lists(st.tuples(st.sampled_from(partitions_upto(n)), st.integers(-3, 3)), max_size=4).map(tuple))),
     quick=300, thorough=2000)
def omega_involution(n, terms):
    """omega on arbitrary combinations of Schur functions, in n variables and degree at most n."""
    f = sum([SP.schur(n, lam) * c for lam, c in terms], SP())
    want = {}
    for lam, c in terms:
        want[lam] = want.get(lam, 0) + c
    want = {k: v for k, v in want.items() if v}
    assert dict(SP.schur_expansion(f).items()) == want
    got = SP.omega_schur_expansion(f)
    assert dict(got.items()) == {transpose(k): v for k, v in want.items()}
    back = sum([SP.schur(n, lam) * c for lam, c in got.items()], SP())
    assert dict(SP.omega_schur_expansion(back).items()) == want
    return 'n=%d' % n if len(want) > 1 else False
