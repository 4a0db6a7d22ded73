"""C38: the documented top-level names."""
import functools

from harness import law
from hypothesis import strategies as st
import permlib as P
from lib import model_set, partitions_upto, st_skew, sym_model, too_many, as_set
from partitions import Partition
from permutations import Permutation
from polynomials import Polynomial
from symlib import bounded, model, negated
from symmetric import SymmetricMonomial, SymmetricPolynomial
from tableaux import Tableau
import utils

RULE = 'Non-trivial: the value is neither zero nor constant.'

# documented name, alternative names, library function, model, strict shapes
DOCUMENTED = (
    (('schur', 's'), 'schur', 's', False),
    (('schur_P', 'P'), 'schur_p', 'P', True),
    (('schur_Q', 'Q'), 'schur_q', 'Q', True),
    (('schur_S', 'S'), 'schur_s', 'S', False),
    (('grothendieck', 'G'), 'stable_grothendieck', 'G', False),
    (('grothendieck_P', 'GP'), 'stable_grothendieck_p', 'GP', True),
    (('grothendieck_Q', 'GQ'), 'stable_grothendieck_q', 'GQ', True),
    (('grothendieck_S', 'GS'), 'stable_grothendieck_s', 'GS', False),
    (('g', 'dual_grothendieck'), 'dual_stable_grothendieck', 'g', False),
    (('gp', 'dual_grothendieck_P'), 'dual_stable_grothendieck_p', 'gp', True),
    (('gq', 'dual_grothendieck_Q'), 'dual_stable_grothendieck_q', 'gq', True),
    (('gs',), 'dual_stable_grothendieck_s', 'gs', False),
    (('mn_G',), 'mn_stable_grothendieck', '-G', False),
    (('mn_GP',), 'mn_stable_grothendieck_p', '-GP', True),
    (('mn_GQ',), 'mn_stable_grothendieck_q', '-GQ', True),
    (('mp_g',), 'mp_dual_stable_grothendieck', '-g', False),
    (('mp_gp',), 'mp_dual_stable_grothendieck_p', '-gp', True),
    (('mp_gq',), 'mp_dual_stable_grothendieck_q', '-gq', True),
    (('G_doublebar',), 'stable_grothendieck_doublebar', None, False),
    (('GP_doublebar',), 'stable_grothendieck_p_doublebar', None, True),
    (('GQ_doublebar',), 'stable_grothendieck_q_doublebar', None, True),
    (('GS_doublebar',), 'stable_grothendieck_s_doublebar', None, False),
    (('j',), 'slow_transposed_dual_stable_grothendieck', None, False),
    (('jp',), 'slow_transposed_dual_stable_grothendieck_p', None, True),
    (('jq',), 'slow_transposed_dual_stable_grothendieck_q', None, True),
    (('js',), 'slow_transposed_dual_stable_grothendieck_s', None, False),
)
EXPANSIONS = (
    ('schur_expansion', 'schur_expansion', 'schur', False), ('G_expansion', 'grothendieck_expansion', 'stable_grothendieck', False),
    ('g_expansion', 'dual_grothendieck_expansion', 'dual_stable_grothendieck', False),
    ('j_expansion', 'j_expansion', 'slow_transposed_dual_stable_grothendieck', False),
    ('gp_expansion', 'gp_expansion', 'dual_stable_grothendieck_p', True), ('gq_expansion', 'gq_expansion', 'dual_stable_grothendieck_q', True),
    ('gs_expansion', 'gs_expansion', 'dual_stable_grothendieck_s', True),
    ('mp_g_expansion', 'mp_dual_grothendieck_expansion', 'mp_dual_stable_grothendieck', False),
    ('mp_gp_expansion', 'mp_gp_expansion', 'mp_dual_stable_grothendieck_p', True),
    ('mp_gq_expansion', 'mp_gq_expansion', 'mp_dual_stable_grothendieck_q', True),
    ('mn_G_expansion', 'mn_grothendieck_expansion', 'mn_stable_grothendieck', False),
    ('mn_GP_expansion', 'mn_GP_expansion', 'mn_stable_grothendieck_p', True), ('mn_GQ_expansion', 'mn_GQ_expansion', 'mn_stable_grothendieck_q', True),
    ('jp_expansion', 'jp_expansion', 'slow_transposed_dual_stable_grothendieck_p', True),
    ('jq_expansion', 'jq_expansion', 'slow_transposed_dual_stable_grothendieck_q', True),
    ('js_expansion', 'js_expansion', 'slow_transposed_dual_stable_grothendieck_s', True),
    ('GP_expansion', 'GP_expansion', 'stable_grothendieck_p', True), ('GQ_expansion', 'GQ_expansion', 'stable_grothendieck_q', True),
    ('GS_expansion', 'GS_expansion', 'stable_grothendieck_s', True), ('P_expansion', 'P_expansion', 'schur_p', True),
    ('Q_expansion', 'Q_expansion', 'schur_q', True), ('S_expansion', 'S_expansion', 'schur_s', True),
)


def exported():
    """what `from utils import *` provides"""
    space = {}
    exec('from utils import *', space)
    return space


@functools.lru_cache(None)
def tables(names):
    return exported()


def small_skews(strict, skew):
    return st_skew(7 if strict else 6, 3, None, strict, 6 if strict else 5, 1) if skew else \
        st.sampled_from(partitions_upto(8 if strict else 6, 4, None, strict)).map(lambda mu: (mu, ()))


@st.composite
def st_named(draw):
    k = draw(st.integers(0, len(DOCUMENTED) - 1))
    strict = DOCUMENTED[k][3]
    mu, nu = draw(small_skews(strict, draw(st.booleans())))
    return k, draw(st.integers(0, 3)), mu, nu


def exh_named(tier):
    for k, (_, _, _, strict) in enumerate(DOCUMENTED):
        for mu in partitions_upto(4 if tier == 'quick' else 5, 3, None, strict):
            for n in (1, 2, 3):
                yield k, n, mu, ()


@law(st_named(), quick=400, thorough=3000, shards=(2, 3), exhaustive=exh_named)
def named(k, n, mu, nu):
    """Every documented name, long and short, is the documented function."""
    names, lib, kind, strict = DOCUMENTED[k]
    space = tables(0)
    f = getattr(SymmetricPolynomial, lib)(n, mu, nu)
    if kind is not None:
        want = model(kind.lstrip('-'), n, mu, nu)
        if kind[0] == '-':
            want = negated(want)
        assert sym_model(f, n) == want
    for name in names:
        fn = space[name]
        assert sym_model(fn(n, mu, nu), n) == sym_model(f, n), name
        assert fn(n, mu, nu) == f
        if not nu:
            assert fn(n, mu) == f
        if name[:1] == 'G' and not name.startswith('GQ_') or name.startswith('grothendieck'):
            for b in (sum(mu) - sum(nu), sum(mu) + 1):
                if b >= 0:
                    assert sym_model(fn(n, mu, nu, degree_bound=b), n) == bounded(sym_model(f, n), b), (name, b)
    return ('skew ' if nu else '') + names[0] if f and f != 1 else False


@st.composite
def st_expansion(draw):
    k = draw(st.integers(0, len(EXPANSIONS) - 1))
    return k, draw(st.integers(1, 3)), draw(st.sampled_from(partitions_upto(5, 3, None, EXPANSIONS[k][3])))


@law(st_expansion(), quick=200, thorough=1200, shards=(2, 3),
     exhaustive=lambda tier: ((k, n, mu) for k in range(len(EXPANSIONS)) for n in (2, 3) for mu in partitions_upto(3 if tier == 'quick' else 4, 2, None, EXPANSIONS[k][3])))
def expansions(k, n, mu):
    """Every expansion name is the library's expansion and inverts the basis function."""
    name, lib, source, strict = EXPANSIONS[k]
    if len(mu) > n:
        return False
    f = getattr(SymmetricPolynomial, source)(n, mu)
    if not f:
        return False
    try:
        want = getattr(SymmetricPolynomial, lib)(f)
    except EOFError:
        want = EOFError
    try:
        got = tables(0)[name](f)
    except EOFError:
        got = EOFError
    assert got == want, name
    if want is not EOFError:
        assert dict(got.items()) == {mu: 1} or source.endswith('_s'), (name, got)
    return name if f != 1 else False


@law(st.tuples(st.one_of(st.lists(st.integers(1, 4), max_size=7), st.lists(st.integers(1, 12), max_size=6)).map(tuple)), quick=200, thorough=1000, exhaustive=lambda tier: [((),), ((3,),), ((1, 1),)])
def ribbon(alpha):
    """utils.shifted_ribbon is Partition.shifted_ribbon: row i of the skew shape has alpha_i cells."""
    tails = [sum(alpha[i:]) for i in range(len(alpha) + 1)]
    outer, inner = utils.shifted_ribbon(alpha)
    assert (outer, inner) == Partition.shifted_ribbon(alpha) == (tuple(tails[:-1]), tuple(a for a in tails[1:] if a))
    cells = [(i + 1, i + 1 + j) for i, a in enumerate(outer) for j in range(inner[i] if i < len(inner) else 0, a)]
    assert len(cells) == sum(alpha)
    return 'ribbon' if len(alpha) > 1 else False


def rebuild(f):
    return SymmetricPolynomial({SymmetricMonomial(n, mu): c for (mu, n), c in f.serialize()})


@law(st_named(), quick=200, thorough=1500)
def serialize_symmetric(k, n, mu, nu):
    names, lib, kind, strict = DOCUMENTED[k]
    f = getattr(SymmetricPolynomial, lib)(n, mu, nu)
    data = f.serialize()
    assert type(data) == tuple and data == tuple(sorted(data)) and hash(f) == hash(rebuild(f))
    for (shape, order), c in data:
        assert order == n and type(shape) == tuple and all(type(a) == int and a > 0 for a in shape)
        assert isinstance(c, (int, Polynomial))
    assert rebuild(f) == f and sym_model(rebuild(f)) == sym_model(f)
    assert {m: c for (m, _), c in data} == {m.index(): c for m, c in f.items()}
    return 'terms' if len(data) > 1 else False


CALLS = {
    'semistandard': (lambda n, mu: Tableau.semistandard(n, mu), ('ss', False, True)),
    'semistandard_setvalued': (lambda n, mu: Tableau.semistandard_setvalued(n, mu), ('ss', True, True)),
    'semistandard_shifted': (lambda n, mu: Tableau.semistandard_shifted(n, mu, diagonal_primes=True), ('shifted', False, True)),
    'semistandard_shifted_setvalued': (lambda n, mu: Tableau.semistandard_shifted_setvalued(n, mu, diagonal_primes=False), ('shifted', True, False)),
    'semistandard_rpp': (lambda n, mu: Tableau.semistandard_rpp(n, mu), ('rpp', False, True)),
    'semistandard_shifted_rpp': (lambda n, mu: Tableau.semistandard_shifted_rpp(n, mu, diagonal_nonprimes=False), ('mrpp', False, False)),
}


@law(st.tuples(st.sampled_from(sorted(CALLS)), st.integers(0, 3), st.sampled_from(partitions_upto(5, 3, None, True))), quick=200, thorough=1000,
     exhaustive=lambda tier: ((c, n, mu) for c in sorted(CALLS) for n in (1, 2) for mu in partitions_upto(4, 3, None, True)))
def tableaux(name, n, mu):
    """The documented generators; every tableau can be rebuilt from its serialisation."""
    fn, (kind, setvalued, diag) = CALLS[name]
    if (sum(mu) > 4 and n > 2) or too_many(kind, n, mu, (), setvalued, diag):
        return False
    ts = list(fn(n, mu))
    assert as_set(ts) == model_set(kind, n, mu, (), setvalued, diag)
    for t in ts[:60]:
        data = t.serialize()
        assert type(data) == dict
        for (i, j), v in data.items():
            assert type(i) == type(j) == int and all(type(x) == int for x in v) and type(v) == tuple
        assert type(t)(dict(data)) == t
        assert type(t)(dict(data)).serialize() == data
    return name if len(ts) > 1 else False


@law(st.one_of(st.tuples(st.just('G'), st.permutations(range(1, 5)).map(P.norm), st.integers(1, 2)),
               st.tuples(st.just('GP'), st.sampled_from(((2, 1), (2, 1, 4, 3), (3, 4, 1, 2), (4, 3, 2, 1))), st.integers(1, 2)),
               st.tuples(st.just('GS'), st.sampled_from(((), (2, 1), (1, 3, 2), (3, 2, 1), (2, 1, 4, 3))), st.integers(1, 2))),
     quick=30, thorough=150, case_cpu=300)
def of_permutation(kind, w, n):
    """The names accept a permutation in place of a shape."""
    p = Permutation(*w)
    if kind == 'G':
        bound = P.length(w) + 2
        want = p.stable_grothendieck(n, degree_bound=bound)
        assert utils.grothendieck(n, p, degree_bound=bound) == want == utils.G(n, p, (), bound)
    elif kind == 'GP':
        bound = 4
        want = p.symplectic_stable_grothendieck(n, bound)
        assert utils.grothendieck_P(n, p, degree_bound=bound) == want == utils.GP(n, p, (), bound)
    else:
        bound = 3
        want = p.signed_involution_stable_grothendieck(n, bound)
        assert utils.grothendieck_S(n, p, degree_bound=bound) == want == utils.GS(n, p, (), bound)
    return kind if want and want != 1 else False


@law(st.tuples(st.sampled_from(partitions_upto(6, 3, None, True)), st.integers(1, 3)), quick=60, thorough=300)
def documented_identities(nu, n):
    """The arithmetic of the README: 2^rows P = Q, sums and products are exact and linear."""
    s = tables(0)
    p, q = s['schur_P'](n, nu), s['schur_Q'](n, nu)
    assert 2 ** len(nu) * p == q
    f = s['schur'](n, nu) * s['schur'](n, nu)
    total = sum((c * s['schur'](n, mu) for mu, c in SymmetricPolynomial.schur_expansion(f).items()), SymmetricPolynomial())
    assert total == f
    g = s['GP'](n, nu) - s['GP'](n, nu)
    assert g == 0 and not g
    assert s['GP'](n, nu) - s['schur_P'](n, nu) != p or not p
    return 'identity' if p and nu else False
