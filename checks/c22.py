"""C22: basis expansions."""
from harness import law
from hypothesis import strategies as st
from lib import beta_model, partitions_upto, sadd, subshapes, sym_model
from polynomials import Polynomial
from symmetric import SymmetricPolynomial as SP
from vectors import Vector
import utils

RULE = 'Non-trivial: a combination of at least two basis elements of different size, or a beta-polynomial coefficient.'

# name: (strict, function, expansion, top level expansion)
BASES = {
    's': (False, SP.schur, SP.schur_expansion, utils.schur_expansion),
    'P': (True, SP.schur_p, SP.P_expansion, utils.P_expansion),
    'Q': (True, SP.schur_q, SP.Q_expansion, utils.Q_expansion),
    'S': (True, SP.schur_s, SP.S_expansion, utils.S_expansion),
    'G': (False, SP.stable_grothendieck, SP.grothendieck_expansion, utils.G_expansion),
    'GP': (True, SP.stable_grothendieck_p, SP.GP_expansion, utils.GP_expansion),
    'GQ': (True, SP.stable_grothendieck_q, SP.GQ_expansion, utils.GQ_expansion),
    'GS': (True, SP.stable_grothendieck_s, SP.GS_expansion, utils.GS_expansion),
    'mn_G': (False, SP.mn_stable_grothendieck, SP.mn_grothendieck_expansion, utils.mn_G_expansion),
    'mn_GP': (True, SP.mn_stable_grothendieck_p, SP.mn_GP_expansion, utils.mn_GP_expansion),
    'mn_GQ': (True, SP.mn_stable_grothendieck_q, SP.mn_GQ_expansion, utils.mn_GQ_expansion),
    'g': (False, SP.dual_stable_grothendieck, SP.dual_grothendieck_expansion, utils.g_expansion),
    'gp': (True, SP.dual_stable_grothendieck_p, SP.gp_expansion, utils.gp_expansion),
    'gq': (True, SP.dual_stable_grothendieck_q, SP.gq_expansion, utils.gq_expansion),
    'gs': (True, SP.dual_stable_grothendieck_s, SP.gs_expansion, utils.gs_expansion),
    'mp_g': (False, SP.mp_dual_stable_grothendieck, SP.mp_dual_grothendieck_expansion, utils.mp_g_expansion),
    'mp_gp': (True, SP.mp_dual_stable_grothendieck_p, SP.mp_gp_expansion, utils.mp_gp_expansion),
    'mp_gq': (True, SP.mp_dual_stable_grothendieck_q, SP.mp_gq_expansion, utils.mp_gq_expansion),
    'j': (False, SP.slow_transposed_dual_stable_grothendieck, SP.j_expansion, utils.j_expansion),
    'jp': (True, SP.slow_transposed_dual_stable_grothendieck_p, SP.jp_expansion, utils.jp_expansion),
    'jq': (True, SP.slow_transposed_dual_stable_grothendieck_q, SP.jq_expansion, utils.jq_expansion),
    'js': (True, SP.slow_transposed_dual_stable_grothendieck_s, SP.js_expansion, utils.js_expansion),
}
# sizes by family, for up to 3 variables / 4 variables
SLOW = {'j', 'jp', 'jq', 'js', 'gs', 'GS'}


def poly(c):
    if isinstance(c, int):
        return c
    ans = Polynomial.zero()
    for e, v in c:
        ans = ans + Polynomial.monomial(0, e) * v
    return ans


def cmodel(c):
    if isinstance(c, int):
        return {0: c} if c else {}
    ans = {}
    for e, v in c:
        ans[e] = ans.get(e, 0) + v
    return {e: v for e, v in ans.items() if v}


COEFF = st.one_of(st.integers(-3, 3), st.lists(st.tuples(st.integers(-2, 3), st.integers(-3, 3)), min_size=1, max_size=3).map(tuple))


@st.composite
def st_comb(draw, names, size=3, terms=4):
    name = draw(st.sampled_from(names))
    n = draw(st.integers(1, 3 if name in SLOW else 4))
    strict = BASES[name][0]
    top = {1: 6, 2: 6, 3: 6, 4: 7}[n] if strict else {1: 6, 2: 6, 3: 5, 4: 5}[n]
    if name in SLOW:
        top -= 1 + (n == 3) * (name in ('js', 'gs', 'GS'))
    if draw(st.integers(0, 3)) == 0:     # now and then larger shapes or more variables
        n = draw(st.integers(1, 6))
        top = {1: 14, 2: 11, 3: 9, 4: 8, 5: 6, 6: 5}[n]
        if name in SLOW:
            n = min(n, {'js': 3, 'jq': 4}.get(name, 5))
            top = {1: 12, 2: 8, 3: 5 if name == 'js' else 6, 4: 5, 5: 5}[n]
        terms = 2
    shapes = partitions_upto(top, n, None, strict)
    return name, n, tuple(draw(st.lists(st.tuples(st.sampled_from(shapes), COEFF), max_size=terms)))


def combine(name, n, terms):
    f = SP()
    want = {}
    for mu, c in terms:
        f = f + BASES[name][1](n, mu) * poly(c)
        d = want.setdefault(mu, {})
        for e, v in cmodel(c).items():
            d[e] = d.get(e, 0) + v
    want = {mu: {e: v for e, v in d.items() if v} for mu, d in want.items()}
    return f, {mu: d for mu, d in want.items() if d}


def vec(v):
    assert isinstance(v, Vector)
    ans = {}
    for k, c in v.items():
        assert c != 0
        ans[k] = beta_model(c)
    return ans


def body(name, n, terms):
    f, want = combine(name, n, terms)
    before = sym_model(f, n)
    e = BASES[name][2](f)
    assert vec(e) == want, (e, want)
    assert vec(BASES[name][3](f)) == want
    assert sym_model(f, n) == before, 'argument changed'
    assert bool(e) == bool(want) and len(e) == len(want)
    if len({sum(mu) for mu in want}) > 1 or any(len(d) > 1 for d in want.values()):
        return name
    return False


def make(fname, names, quick, thorough):
    def fn(name, n, terms):
        return body(name, n, terms)
    fn.__name__ = fname
    law(st_comb(names), quick=quick, thorough=thorough, shards=(2, 3))(fn)


make('unshifted', ('s', 'G', 'mn_G', 'g', 'mp_g', 'j'), 500, 3000)
make('shifted', ('P', 'Q', 'GP', 'GQ', 'mn_GP', 'mn_GQ'), 500, 3000)
make('shifted_dual', ('gp', 'gq', 'mp_gp', 'mp_gq', 'jp', 'jq'), 500, 3000)
make('s_type', ('S', 'GS', 'gs', 'js'), 250, 1500)


def exh(tier):
    for name in sorted(BASES):
        for n in range(1, 5):
            top = (5 if tier == 'quick' else 6) - (name in SLOW) * (n > 2)
            for mu in partitions_upto(top, n, None, BASES[name][0]):
                yield name, n, ((mu, 1),)


@law(exhaustive=exh, quick=0, shards=(2, 2))
def single(name, n, terms):
    """Every small basis element expands to itself."""
    body(name, n, terms)
    return name if terms[0][0] else False


# the same function in different bases: (source function, target families)
# only pairs where the source lies in the integral span of the target
SYM = ('s', 'G', 'mn_G', 'g', 'mp_g', 'j')
CROSS = {
    'P': ('P',), 'Q': ('P', 'Q'), 'S': ('P', 'Q', 'S'), 'GP': ('GP',), 'GQ': ('GP', 'GQ'), 'GS': ('GP', 'GQ'),
    'gp': ('gp',), 'gq': ('gp', 'gq'), 'gs': ('gp', 'gq', 'gs'), 'jp': ('jp',), 'jq': ('jp', 'jq'), 'js': ('jp', 'jq', 'js'),
    's': (), 'G': (), 'g': (), 'j': (), 'mn_GP': ('mn_GP',), 'mn_GQ': ('mn_GP', 'mn_GQ'), 'mp_gp': ('mp_gp',), 'mp_gq': ('mp_gp', 'mp_gq'),
}


@st.composite
def st_cross(draw):
    a = draw(st.sampled_from(sorted(CROSS)))
    b = draw(st.sampled_from(CROSS[a] + (SYM[:-1] if 'G' in a else SYM)))
    n = draw(st.integers(1, 2 if 'G' in a and b in ('g', 'mp_g') else 3))
    strict = BASES[a][0] and a not in ('S', 'GS', 'gs', 'js')
    top = {1: 5, 2: 5, 3: 4}[n] + (1 if strict and a not in ('jp', 'jq') else 0)
    if a == 'GS' or (n == 3 and 'G' in a):
        top -= 1
    shapes = partitions_upto(top, None, None, strict)
    return a, b, n, tuple(draw(st.lists(st.tuples(st.sampled_from(shapes), st.integers(-2, 2)), min_size=1, max_size=3)))




@law(st_cross(), quick=150, thorough=1500, shards=(3, 4), weight=3)
def resum(a, b, n, terms):
    """A returned expansion re-sums to the function, whatever basis the function came from; expansion is linear."""
    f = SP()
    g = SP()
    for k, (mu, c) in enumerate(terms):
        f = f + BASES[a][1](n, mu) * c
        if k:
            g = g + BASES[a][1](n, mu) * c
    e = BASES[b][2](f)
    total = {}
    for mu, c in e.items():
        assert (not BASES[b][0]) or all(mu[i] > mu[i + 1] for i in range(len(mu) - 1))
        total = sadd(total, sym_model(BASES[b][1](n, mu), n), beta_model(c))
    assert total == sym_model(f, n)
    h = BASES[b][2](g)
    mu, c = terms[0]
    one = BASES[b][2](BASES[a][1](n, mu))
    assert vec(one * c + h) == vec(e)
    assert vec(BASES[b][2](f * 3)) == vec(e * 3) and vec(BASES[b][2](-f)) == vec(-e)
    return '%s in %s' % (a, b) if len(e) > 1 else False


@law(st.sampled_from(sorted(BASES)).map(lambda x: (x,)), quick=60)
def zero(name):
    z = BASES[name][1](2, (1,))
    z = z - z
    assert vec(BASES[name][2](z)) == {} and vec(BASES[name][3](SP())) == {}
    return name


@law(st.integers(1, 3).flatmap(lambda n: st.tuples(st.just(n), st.lists(st.tuples(st.sampled_from(partitions_upto(6, n, None, True)), st.integers(-3, 3)), max_size=3).map(tuple))),
     quick=200, thorough=1500)
def free(n, terms):
    """The expansion into products of one-row gp functions re-sums."""
    f = SP()
    for mu, c in terms:
        f = f + SP.dual_stable_grothendieck_p(n, mu) * c
    e = utils.gp_free_expansion(f)
    total = SP()
    for mu, c in e.items():
        p = SP.dual_stable_grothendieck_p(n, ())
        for part in mu:
            p = p * SP.dual_stable_grothendieck_p(n, (part,))
        total = total + p * c
    assert sym_model(total, n) == sym_model(f, n)
    return 'n=%d' % n if len(e) > 1 else False
