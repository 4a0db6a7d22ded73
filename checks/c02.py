"""C02: substitution, evaluation, slicing, truncation and scalar division of Laurent polynomials."""
from fractions import Fraction

import functools

import c01
from c01 import BIG, build, label, model, same
from harness import LAWS, law
from hypothesis import strategies as st
from lib import model_of, padd, pmul, ppow, pscale
from polynomials import HashableDict, Polynomial, X

LAWS.clear()
ALL = [0, 1, -1, 2, 3, -2, 9, BIG, -BIG]
INDEX = st.one_of(st.sampled_from([0, 1]), st.sampled_from([0, 1, -1]), st.sampled_from(ALL))
st_poly = functools.partial(c01.st_poly, index=INDEX)
RULE = 'Non-trivial: the operation changes the polynomial (the variable occurs, a term is dropped, ...).'


def hits(m, i):
    return any(i in dict(k) for k in m)


def subst(m, i, e):
    ans = {}
    for k, c in m.items():
        rest = tuple(t for t in k if t[0] != i)
        ans = padd(ans, pmul({rest: c}, ppow(e, dict(k).get(i, 0))))
    return ans


def as_model(v):
    return model_of(v)


POLY = st_poly(minexp=0 + 1, maxexp=3)
SMALL = st_poly(maxterms=2, maxcoeff=3, minexp=-2, maxexp=2)


@st.composite
def st_nonneg_in(draw, i):
    spec = draw(st.one_of(st_poly(maxterms=4, minexp=-2, maxexp=3), st_poly(maxterms=7, minexp=-5, maxexp=6, maxcoeff=50)))
    return tuple((c, tuple((j, abs(e) if j == i else e) for j, e in m)) for c, m in spec)


@st.composite
def st_subst(draw):
    i = draw(INDEX)
    return draw(st_nonneg_in(i)), draw(st_nonneg_in(i)), i, draw(SMALL)


@law(st_subst(), quick=700, thorough=8000)
def substitute_is_exact(a, b, i, e):
    p, q, r = build(a), build(b), build(e)
    m, n, o = model(a), model(b), model(e)
    assert as_model(p.substitute(i, r)) == subst(m, i, o)
    assert as_model((p + q).substitute(i, r)) == padd(subst(m, i, o), subst(n, i, o))
    assert as_model((p * q).substitute(i, r)) == pmul(subst(m, i, o), subst(n, i, o))
    same(p, m)
    same(r, o)
    return 'substituted' if hits(m, i) and o else False


@law(st.tuples(st_poly(minexp=1, maxexp=3, wide=True), INDEX, st.integers(-12, 12)), quick=700, thorough=4000)
def substitute_int(a, i, v):
    p, m = build(a), model(a)
    assert as_model(p.substitute(i, v)) == subst(m, i, {(): v} if v else {})
    return 'substituted' if hits(m, i) else False


def evaluate(m, x):
    """x: dict index -> model or Fraction-able unit; exponents may be negative on units (+-1)."""
    ans = {}
    for k, c in m.items():
        t = {(): c}
        for i, e in k:
            if i not in x:
                t = pmul(t, {((i, e),): 1})
            elif e >= 0:
                t = pmul(t, ppow(x[i], e))
            else:
                (mon, u), = x[i].items()
                t = pmul(t, ppow({tuple((j, -f) for j, f in mon): u}, -e))
        ans = padd(ans, t)
    return ans


@st.composite
def st_eval(draw):
    """Values are integers or polynomials; negative exponents only on unit monomials."""
    a = draw(st.one_of(st_poly(maxterms=4, minexp=-2, maxexp=3), st_poly(maxterms=7, minexp=-6, maxexp=5, maxcoeff=50)))
    x = {}
    for i in draw(st.lists(INDEX, max_size=5, unique=True)):
        if any(j == i and e < 0 for _, m in a for j, e in m):
            x[i] = (draw(st.sampled_from([1, -1])), draw(st.lists(INDEX, max_size=2, unique=True)))
            x[i] = ((x[i][0], tuple((j, draw(st.sampled_from([-2, -1, 1, 2]))) for j in x[i][1])),)
        else:
            x[i] = draw(st.one_of(st.integers(-3, 3), SMALL))
    return a, tuple(sorted(x.items(), key=lambda t: t[0]))


@law(st_eval(), quick=1000, thorough=8000)
def evaluation(a, x):
    p, m = build(a), model(a)
    vals = {i: v if isinstance(v, int) else build(v) for i, v in x}
    mods = {i: ({(): v} if v else {}) if isinstance(v, int) else model(v) for i, v in x}
    assert as_model(p(vals)) == evaluate(m, mods)
    same(p, m)
    return 'laurent' if any(e < 0 for k in m for i, e in k if i in vals) else 'evaluated' if any(hits(m, i) for i in vals) else False


@law(st.tuples(st_poly(maxterms=3, minexp=1, maxexp=4), st_poly(maxterms=3, minexp=1, maxexp=4),
               st.lists(st.tuples(INDEX, st.integers(-9, 9)), max_size=6).map(tuple)), quick=500, thorough=4000)
def evaluation_is_homomorphism(a, b, x):
    p, q, x = build(a), build(b), dict(x)
    assert as_model((p * q)(x)) == pmul(as_model(p(x)), as_model(q(x)))
    assert as_model((p + q)(x)) == padd(as_model(p(x)), as_model(q(x)))
    return label(a, b) if any(hits(model(a), i) for i in x) else False


@law(st.tuples(st_poly(maxterms=8, minexp=-2, maxexp=2, wide=True), INDEX), quick=1000, thorough=8000)
def slices(a, i):
    """coefficient(i, d) is the coefficient of the d-th power; the slices reassemble the polynomial."""
    p, m = build(a), model(a)
    total = Polynomial.zero()
    for d in range(-15, 16):
        c = p.coefficient(i, d)
        want = {tuple(t for t in k if t[0] != i): v for k, v in m.items() if dict(k).get(i, 0) == d}
        assert model_of(c) == want, (d, c, want)
        total = total + c * Polynomial.monomial(i, d)
    same(total, m)
    for k, v in m.items():
        assert p[dict(k)] == v and p[HashableDict(dict(k))] == v
        bumped = dict(k)
        bumped[i] = bumped.get(i, 0) + 1
        assert p[bumped] == m.get(tuple(sorted((j, e) for j, e in bumped.items() if e)), 0) or not bumped[i]
    assert p.constant_term() == m.get((), 0)
    return 'sliced' if hits(m, i) else False


@law(st.tuples(st_poly(maxterms=8, minexp=-2, maxexp=3, wide=True), st.one_of(st.integers(-6, 8), st.integers(-40, 40))), quick=700, thorough=5000)
def truncation(a, d):
    p, m = build(a), model(a)
    want = {k: v for k, v in m.items() if sum(e for _, e in k) <= d}
    same(p.truncate(d), want)
    same(p, m)
    same(p.truncate(d) + (p - p.truncate(d)), m)
    return 'dropped' if 0 < len(want) < len(m) else False


@law(st.tuples(st_poly(maxterms=8, maxcoeff=30, wide=True), st.one_of(st.integers(1, 7), st.integers(1, 10**6))), quick=900, thorough=5000)
def scalar_reduction(a, k):
    p, m = build(a), model(a)
    same(p % k, {i: v % k for i, v in m.items() if v % k})
    same(p // k, {i: v // k for i, v in m.items() if v // k})
    same((p // k) * k + (p % k), m)
    same((p * k) / k, m)
    same(p / 1, m)
    if all(v % k == 0 for v in m.values()):
        same(p / k, {i: v // k for i, v in m.items()})
    same(p, m)
    return 'reduced' if any(v % k for v in m.values()) else False


@law(st.tuples(st_poly(maxterms=4, minexp=1, maxexp=3), st.integers(-3, 3), st_poly(maxterms=4, minexp=1, maxexp=3)), quick=500, thorough=4000)
def comparison_with_zero_and_int(a, k, b):
    """p > q means that no coefficient of p - q is negative (zero difference included); dually for <."""
    p, q, m, n = build(a), build(b), model(a), model(b)
    d = padd(m, n, -1)
    assert (p > q) == all(v > 0 for v in d.values())
    assert (p < q) == all(v < 0 for v in d.values())
    d = padd(m, {(): k} if k else {}, -1)
    assert (p > k) == all(v > 0 for v in d.values())
    assert (p < k) == all(v < 0 for v in d.values())
    return 'compared' if len(m) > 1 else False


@law(st.tuples(st_poly(maxterms=4, minexp=1, maxexp=3), st.lists(st.integers(-3, 3), min_size=len(ALL), max_size=len(ALL)).map(tuple)),
     quick=300, thorough=2000)
def full_evaluation_is_a_number(a, x):
    """Evaluating every variable gives the numerical value, also through partial evaluations in two steps."""
    p, m, x = build(a), model(a), dict(zip(ALL, x))
    want = sum(c * _prod(Fraction(x[i]) ** e for i, e in k) for k, c in m.items())
    assert p(x) == want
    keys = sorted(x)
    first, second = {i: x[i] for i in keys[::2]}, {i: x[i] for i in keys[1::2]}
    step = p(first)
    step = step(second) if isinstance(step, Polynomial) else step
    assert step == want
    return label(a)


def _prod(it):
    ans = Fraction(1)
    for v in it:
        ans *= v
    return ans


@law(st.tuples(st.integers(1, 3), st.integers(-9, 9), st_poly(maxterms=5, minexp=1, maxexp=5)), quick=300, thorough=2000)
def shift_and_back(i, c, a):
    """Substituting x_i - c and then x_i + c is the identity."""
    p, m = build(a), model(a)
    q = p.substitute(i, X(i) - c)
    q = q if isinstance(q, Polynomial) else Polynomial.one() * q
    r = q.substitute(i, X(i) + c)
    assert as_model(r) == m
    return 'shifted' if hits(m, i) and c else False


@law(st.tuples(st_poly(maxterms=6, minexp=1, maxexp=6), st.integers(1, 3), st.integers(-9, 9)), quick=300, thorough=2000)
def divide_by_linear(a, i, c):
    """Dividing a multiple of x_i + c by x_i + c gives the cofactor."""
    p, m = build(a), model(a)
    q = p * (X(i) + c)
    assert as_model(q.divide_linear(i, c)) == m
    return 'divided' if m and c else False
