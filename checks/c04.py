"""C04: symmetric polynomials expand homomorphically."""
from harness import law
from hypothesis import strategies as st
from lib import distinct_perms, model_of, sadd, smul, sym_model, trim
from polynomials import Polynomial
from symmetric import SymmetricMonomial, SymmetricPolynomial

RULE = 'Non-trivial: at least two terms, a repeated part, an unsorted or padded index, cancellation, or a beta coefficient.'

COEFF = st.one_of(st.integers(-3, 3), st.lists(st.tuples(st.integers(-2, 3), st.integers(-2, 2)), min_size=1, max_size=2).map(tuple))


def st_index(n, maxpart=3):
    """Any list of at most n parts, in any order, zeros allowed."""
    return st.integers(0, n).flatmap(lambda k: st.lists(st.integers(0, maxpart), min_size=k, max_size=n)).map(tuple)


def norm(mu):
    return trim(tuple(sorted(mu, reverse=True)))


def coeff(c):
    if isinstance(c, int):
        return c
    ans = Polynomial.zero()
    for e, v in c:
        ans = ans + Polynomial.monomial(0, e) * v
    return ans


def cmodel(c):
    if isinstance(c, int):
        return {0: c} if c else {}
    ans = {}
    for e, v in c:
        ans[e] = ans.get(e, 0) + v
    return {e: v for e, v in ans.items() if v}


def st_sym(n, size=4, maxpart=3, coeff=COEFF):
    return st.integers(0, size).flatmap(lambda k: st.lists(st.tuples(st_index(n, maxpart), coeff), min_size=k, max_size=size)).map(tuple)


def build(n, spec):
    ans = SymmetricPolynomial()
    for mu, c in spec:
        ans = ans + SymmetricMonomial(n, mu) * coeff(c)
    return ans


def model(spec):
    ans = {}
    for mu, c in spec:
        ans = sadd(ans, {norm(mu): cmodel(c)})
    return ans


def same(f, m, n):
    assert sym_model(f, n) == m, (f, m)
    assert len(f) == len(m) and f.is_zero() == (not m)


def expansion(m, n, sign=1):
    """model of the expanded polynomial: {((index, exp), ...): coeff}"""
    ans = {}
    for mu, d in m.items():
        for alpha in distinct_perms(tuple(mu) + (0,) * (n - len(mu))):
            for e, v in d.items():
                key = [(sign * (i + 1), a) for i, a in enumerate(alpha) if a] + ([(0, e)] if e else [])
                ans[tuple(sorted(key))] = v
    return ans


def st_two(nmax=4, size=3, maxpart=3, nmin=1):
    return st.integers(nmin, nmax).flatmap(lambda n: st.tuples(st.just(n), st_sym(n, size, maxpart), st_sym(n, size, maxpart), COEFF))


def label(*ms):
    if any(len(m) > 1 for m in ms):
        return 'multi'
    if any(len(set(mu)) < len(mu) for m in ms for mu in m):
        return 'repeated'
    return False


@law(st.one_of(st_two(size=4), st_two(size=7, nmin=4, nmax=7, maxpart=8)), quick=1000, thorough=8000)
def linear_operations(n, a, b, c):
    f, g, m, o = build(n, a), build(n, b), model(a), model(b)
    k, kk = coeff(c), cmodel(c)
    same(f, m, n)
    same(f + g, sadd(m, o), n)
    same(g + f, sadd(m, o), n)
    same(f - g, sadd(m, o, {0: -1}), n)
    same(-f, sadd({}, m, {0: -1}), n)
    same(f * k, sadd({}, m, kk), n)
    same(k * f, sadd({}, m, kk), n)
    same((f + g) - g, m, n)
    same(sum([f, g, f]), sadd(sadd(m, m), o), n)
    assert (f == g) == (m == o) and (f - g == 0) == (m == o)
    assert (f != g) == (m != o)
    h = (g + f) - g
    assert h == f and hash(h) == hash(f) and str(h) == str(f)
    assert (str(f) == str(g)) == (m == o)
    if m == o:
        assert hash(f) == hash(g)
    same(f, m, n)
    same(g, o, n)
    return 'cancellation' if len(sadd(m, o)) < len(set(m) | set(o)) else label(m, o)


@law(st.one_of(st_two(nmax=4, size=2), st_two(nmax=4, size=2), st_two(nmax=3, size=4, maxpart=7), st_two(nmin=5, nmax=5, size=1, maxpart=3)), quick=400, thorough=5000, shards=(2, 4))
def expansion_is_a_homomorphism(n, a, b, c):
    f, g, m, o = build(n, a), build(n, b), model(a), model(b)
    assert model_of(f.polynomial()) == expansion(m, n)
    assert model_of(f.polynomial('y')) == expansion(m, n, -1)
    h = f * g
    same(h, smul(m, o, n), n)
    same(g * f, smul(m, o, n), n)
    assert f.polynomial() * g.polynomial() == h.polynomial()
    assert f.polynomial() + g.polynomial() == (f + g).polynomial()
    assert f.polynomial() * coeff(c) == (f * coeff(c)).polynomial()
    same(f, m, n)
    return label(m, o) if m and o else False


def monomial_pairs(tier):
    import itertools
    for n in range(1, 4 if tier == 'quick' else 5):
        mus = sorted({norm(mu) for mu in itertools.product(range(4 if n < 4 else 3), repeat=n)})
        for mu in mus:
            for nu in mus:
                yield n, mu, nu


@law(st.one_of(st.integers(1, 5).flatmap(lambda n: st.tuples(st.just(n), st_index(n, 4), st_index(n, 4))),
                st.integers(1, 3).flatmap(lambda n: st.tuples(st.just(n), st_index(n, 15), st_index(n, 15)))), quick=250, thorough=2500, exhaustive=monomial_pairs, shards=(2, 4))
def monomial_arithmetic(n, mu, nu):
    x, y = SymmetricMonomial(n, mu), SymmetricMonomial(n, nu)
    m, o = {norm(mu): {0: 1}}, {norm(nu): {0: 1}}
    assert x.index() == norm(mu) and x.order() == n and x.degree() == sum(mu)
    assert x.serialize() == (norm(mu), n)
    assert (x == y) == (m == o)
    if m == o:
        assert hash(x) == hash(y)
    same(x * y, smul(m, o, n), n)
    same(x + y, sadd(m, o), n)
    same(x - y, sadd(m, o, {0: -1}), n)
    same(2 * x, {norm(mu): {0: 2}}, n)
    same(x * -1, {norm(mu): {0: -1}}, n)
    same(x + 3, sadd(m, {(): {0: 3}}), n)
    same(x.symmetric_polynomial(5), {norm(mu): {0: 5}}, n)
    assert model_of(x.polynomial()) == expansion(m, n)
    assert model_of(x.polynomial('y')) == expansion(m, n, -1)
    f = x + 2 * y
    same(f * x, sadd(smul(m, m, n), smul(o, m, n), {0: 2}), n)
    same(x * f, sadd(smul(m, m, n), smul(o, m, n), {0: 2}), n)
    same(f + x, sadd(sadd(m, o, {0: 2}), m), n)
    same(f - x, sadd({}, o, {0: 2}), n)
    return label(m, o) or ('unsorted' if norm(mu) != mu or norm(nu) != nu else 'pair')


@law(st.integers(1, 4).flatmap(lambda n: st.tuples(st.just(n), st_sym(n, 2, 2), st.integers(1, 6 if n < 3 else 4), st_index(n, 2))), quick=250, thorough=2500, shards=(1, 4))
def powers(n, a, k, mu):
    f, m = build(n, a), model(a)
    want = m
    for _ in range(k - 1):
        want = smul(want, m, n)
    same(f ** k, want, n)
    x = SymmetricMonomial(n, mu) ** k
    x = x.symmetric_polynomial() if isinstance(x, SymmetricMonomial) else x
    o = {norm(mu): {0: 1}}
    want = o
    for _ in range(k - 1):
        want = smul(want, o, n)
    same(x, want, n)
    assert SymmetricMonomial(n, mu) ** 0 == SymmetricMonomial(n)
    same(f, m, n)
    return 'power' if k > 1 and m else False


@law(st.one_of(st.integers(1, 4).flatmap(lambda n: st.tuples(st.just(n), st_sym(n, 5), st.integers(-1, 9))),
              st.integers(4, 9).flatmap(lambda n: st.tuples(st.just(n), st_sym(n, 9, 7), st.integers(-1, 40)))), quick=600, thorough=5000)
def degree_parts_and_serialisation(n, a, d):
    f, m = build(n, a), model(a)
    same(f.truncate(d), {mu: c for mu, c in m.items() if sum(mu) <= d}, n)
    same(f.truncate(d) + (f - f.truncate(d)), m, n)
    degs = [sum(mu) for mu in m] or [0]
    same(f.lowest_degree_terms(), {mu: c for mu, c in m.items() if sum(mu) == min(degs)}, n)
    same(f.highest_degree_terms(), {mu: c for mu, c in m.items() if sum(mu) == max(degs)}, n)
    data = f.serialize()
    g = sum((SymmetricMonomial(k, mu) * c for (mu, k), c in reversed(data)), SymmetricPolynomial())
    assert g == f and g.serialize() == data and hash(f) == hash(g)
    assert [mu for (mu, k), c in data] == sorted(m) and all(k == n for (mu, k), c in data)
    same(f, m, n)
    return 'split' if len(set(degs)) > 1 else label(m)


@law(st_two(nmax=3, size=3), quick=400, thorough=3000)
def hash_agrees_across_coefficient_types(n, a, b, c):
    """The same value with integer or with constant polynomial coefficients."""
    f = build(n, tuple((mu, k) for mu, k in a if isinstance(k, int)))
    g = f * Polynomial.one()
    assert f == g and g == f and hash(f) == hash(g)
    assert len({f, g}) == 1
    x = SymmetricMonomial(n, a[0][0]) if a else SymmetricMonomial(n)
    assert x == x.symmetric_polynomial() and x.symmetric_polynomial() == x * Polynomial.one()
    return 'typed' if not f.is_zero() else False


@law(st.integers(1, 3).flatmap(lambda n: st.tuples(st.just(n), st_sym(n, 2, 2), st_sym(n, 2, 2), st_sym(n, 1, 2))), quick=200, thorough=2000)
def ring_axioms(n, a, b, c):
    f, g, h = build(n, a), build(n, b), build(n, c)
    assert (f * g) * h == f * (g * h)
    assert f * (g + h) == f * g + f * h
    assert (f - g) * h == f * h - g * h
    one = SymmetricMonomial(n).symmetric_polynomial()
    assert f * one == f and one * f == f and f * SymmetricMonomial(n) == f
    return label(model(a), model(b)) if a and b and c else False
