"""C01: Laurent polynomials form a commutative ring."""
from harness import law
from hypothesis import strategies as st
from lib import model_of, padd, pmul, ppow, pscale
from polynomials import HashableDict, Polynomial, X, Y, beta

RULE = 'Non-trivial: at least two terms in an operand, or cancellation, or a negative exponent, or an int operand.'

BIG = Polynomial.MAX_INT
INDEX = st.sampled_from([1, 2, 0, 3, -1, -2, 9, 17, BIG, -BIG, 8, -9])


@st.composite
def st_poly(draw, maxterms=4, minexp=-3, maxexp=3, maxcoeff=6, index=INDEX, wide=False):
    """tuple of (coeff, ((index, exp), ...)): the ordering of the variables is part of the data.

    wide: one polynomial in four has more terms, long monomials, large exponents and coefficients, any indices.
    """
    terms = []
    maxvars = 3
    if wide and draw(st.integers(0, 3)) == 0:
        maxterms, maxvars, index = max(maxterms, 8) if maxterms > 1 else 1, 6, st.one_of(index, st.integers(-40, 40), st.integers(0, 6))
        minexp, maxexp = (-14 if minexp < 0 else minexp), 14
        if maxcoeff > 1:
            maxcoeff = draw(st.sampled_from([maxcoeff, 300, 10**12, 2**70]))
    for _ in range(draw(st.integers(0, maxterms))):
        vs = draw(st.lists(index, max_size=maxvars, unique=True))
        mon = tuple((i, draw(st.integers(minexp, maxexp).filter(bool))) for i in vs)
        c = draw(st.integers(-maxcoeff, maxcoeff).filter(bool))
        terms.append((c, mon))
    return tuple(terms)


def build(spec):
    """Through the public arithmetic, in the given order."""
    ans = Polynomial.zero()
    for c, mon in spec:
        t = Polynomial.one() * c
        for i, e in mon:
            t = t * Polynomial.monomial(i, e)
        ans = ans + t
    return ans


def build_raw(spec):
    d = {}
    for c, mon in spec:
        k = tuple(sorted(mon))
        d[k] = d.get(k, 0) + c
    return Polynomial({HashableDict(dict(k)): v for k, v in d.items() if v})


def model(spec):
    ans = {}
    for c, mon in spec:
        ans = padd(ans, {tuple(sorted(mon)): c})
    return ans


def same(p, m):
    assert type(p) is Polynomial, type(p)
    assert model_of(p) == m, (p, m)


def label(*specs):
    for s in specs:
        if any(e < 0 for _, m in s for _, e in m):
            return 'laurent'
    if any(len(s) > 1 for s in specs):
        return 'multi-term'
    return False


@law(st.tuples(st_poly(wide=True), st_poly(wide=True)), quick=1000, thorough=15000, shards=(2, 2))
def add_sub_neg(a, b):
    p, q, m, n = build(a), build(b), model(a), model(b)
    same(p, m)
    same(q, n)
    same(p + q, padd(m, n))
    same(q + p, padd(m, n))
    same(p - q, padd(m, n, -1))
    same(-p, pscale(m, -1))
    same(p - p, {})
    same(p + (-p), {})
    same((p + q) - q, m)
    same(p, m)
    same(q, n)
    assert (p == q) == (m == n) and (p != q) == (m != n)
    if len(padd(m, n)) < len(m) + len(n):
        return 'cancellation/merge'
    return label(a, b)


@law(st.tuples(st_poly(wide=True), st_poly(maxterms=3, wide=True), st_poly(maxterms=3)), quick=1000, thorough=10000)
def mul_ring(a, b, c):
    p, q, r = build(a), build(b), build(c)
    m, n, o = model(a), model(b), model(c)
    same(p * q, pmul(m, n))
    same(q * p, pmul(m, n))
    same(p * q * r, pmul(pmul(m, n), o))
    same(p * (q * r), pmul(pmul(m, n), o))
    same(p * (q + r), pmul(m, padd(n, o)))
    same((p + q) * r, pmul(padd(m, n), o))
    same(p * Polynomial.one(), m)
    same(p * Polynomial.zero(), {})
    same(p ^ q, padd(padd(m, n), pmul({((0, 1),): 1}, pmul(m, n))))
    same((p ^ q) ^ r, model_of(p ^ (q ^ r)))
    same((p - q) * (p + q), padd(pmul(m, m), pmul(n, n), -1))
    same(p, m)
    if len(pmul(m, n)) < len(m) * len(n):
        return 'cancellation/merge'
    return label(a, b, c)


@law(st.tuples(st_poly(wide=True), st.one_of(st.integers(-7, 7), st.integers(-2**80, 2**80))), quick=1200, thorough=6000)
def int_operands(a, k):
    p, m = build(a), model(a)
    c = {(): k} if k else {}
    same(p + k, padd(m, c))
    same(k + p, padd(m, c))
    same(p - k, padd(m, c, -1))
    same(k - p, padd(c, m, -1))
    same(p * k, pscale(m, k))
    same(k * p, pscale(m, k))
    assert (p == k) == (m == c)
    assert (k == p) == (m == c)
    assert (p != k) == (m != c)
    if m == c:
        assert hash(p) == hash(k) and len({p, k}) == 1
    q = p - p + k
    assert q == k and hash(q) == hash(k) and {q: 1}[k] == 1
    same(sum([p, p, k]), padd(pscale(m, 2), c))
    return 'int' if a and k else False


@law(st.one_of(st.tuples(st_poly(maxterms=3, maxcoeff=4), st.integers(0, 5)), st.tuples(st_poly(maxterms=2, maxcoeff=3), st.integers(6, 12)),
               st.tuples(st_poly(wide=True), st.integers(0, 2))), quick=700, thorough=4000)
def power(a, k):
    p, m = build(a), model(a)
    same(p ** k, ppow(m, k))
    if k:
        same(p ** k, model_of(p * p ** (k - 1)))
    return 'power' if k > 1 and len(m) > 1 else False


@law(st.tuples(st_poly(maxterms=1, maxcoeff=1, wide=True), st.integers(-12, 12)), quick=700, thorough=3000)
def monomial_inverse(a, k):
    if not a:
        return False
    p, m = build(a), model(a)
    (key, c), = m.items()
    want = {tuple((i, e * k) for i, e in key) if k else (): c ** abs(k)}
    same(p ** k * p ** (-k), {(): 1})
    same(p ** k, want)
    return 'inverse' if k < 0 else False


@law(st.tuples(st_poly(maxterms=5, wide=True), st.permutations(range(8)), st.permutations(range(6)), st_poly(maxterms=2)), quick=900, thorough=8000, shards=(2, 2))
def value_semantics(a, order, vorder, b):
    """Equal values computed in different orders: equality, hash, text, truth value, nnz agree."""
    p = build(a)
    shuffled = tuple(a[i] for i in order if i < len(a))
    shuffled = tuple((c, tuple(m[i] for i in vorder if i < len(m))) for c, m in shuffled)
    others = [build(shuffled), build_raw(a), (build(b) + build(shuffled)) - build(b), -(-build(shuffled))]
    m = model(a)
    for q in others:
        same(q, m)
        assert p == q and not (p != q)
        assert hash(p) == hash(q), (p, q)
        assert str(p) == str(q), (str(p), str(q))
    assert len({p, *others}) == 1
    assert bool(p) == bool(m) and p.is_zero() == (not m)
    assert p.nnz() == len(p) == len(m)
    assert p.is_integer() == (set(m) <= {()})
    assert p.constant_term() == m.get((), 0)
    assert p.total_degree() == (max(sum(e for _, e in k) for k in m) if m else None)
    c = model(b)
    if c != m:
        assert p != build(b) and not p == build(b)
    return 'reordered' if len(a) > 1 or any(len(t[1]) > 1 for t in a) else False


def parse(text):
    """Reads the printed form back."""
    def letter(t):
        base, _, e = t.partition('^')
        e = int(e) if e else 1
        if base == 'β':
            return (0, e)
        if base == 'x':
            return (BIG, e)
        if base == 'y':
            return (-BIG, e)
        kind, _, num = base.partition('_')
        return (int(num) if kind == 'x' else -int(num), e)
    ans = {}
    if text == '0':
        return ans
    sign = 1
    if text.startswith('-'):
        sign, text = -1, text[1:]
    text = text.replace(' - ', ' + \0')
    for k, chunk in enumerate(text.strip().split(' + ')):
        s = sign if k == 0 else 1
        if chunk.startswith('\0'):
            s, chunk = -1, chunk[1:]
        # a coefficient is glued to the first letter
        chunk = chunk.strip()
        digits = ''
        while chunk and chunk[0].isdigit():
            digits, chunk = digits + chunk[0], chunk[1:]
        c = s * (int(digits) if digits else 1)
        mon = tuple(sorted(letter(t) for t in chunk.split()))
        assert mon not in ans, 'repeated monomial'
        ans[mon] = c
    return ans


@law(st.tuples(st_poly(maxterms=5, maxcoeff=12, wide=True)), quick=1000, thorough=5000)
def printing(a):
    p, m = build(a), model(a)
    assert parse(str(p)) == m, (str(p), m)
    return label(a)


@law(st.tuples(st.lists(st.tuples(st.sampled_from(['+', '-', '*', '^', 'neg', 'int+', 'int*']), st.integers(0, 9), st.integers(0, 9), st.integers(-3, 3)), min_size=1, max_size=16).map(tuple),
               st.lists(st_poly(maxterms=2, maxcoeff=3, minexp=-1, maxexp=2), min_size=2, max_size=3).map(tuple)), quick=500, thorough=5000)
def history(ops, starts):
    """Random straight-line programs; every earlier value must keep its value."""
    vals = [build(s) for s in starts]
    models = [model(s) for s in starts]
    for op, i, j, k in ops:
        i, j = i % len(vals), j % len(vals)
        p, q, m, n = vals[i], vals[j], models[i], models[j]
        if op in '*^' and len(m) * len(n) > 150:
            continue
        if op == '+':
            r, o = p + q, padd(m, n)
        elif op == '-':
            r, o = p - q, padd(m, n, -1)
        elif op == '*':
            r, o = p * q, pmul(m, n)
        elif op == '^':
            r, o = p ^ q, padd(padd(m, n), pmul({((0, 1),): 1}, pmul(m, n)))
        elif op == 'neg':
            r, o = -p, pscale(m, -1)
        elif op == 'int+':
            r, o = k + p, padd(m, {(): k} if k else {})
        else:
            r, o = k * p, pscale(m, k)
        vals.append(r)
        models.append(o)
    for v, o in zip(vals, models):
        same(v, o)
    return 'program' if len(vals) > len(starts) + 1 else False


@law(exhaustive=lambda tier: [(i, j) for i in range(13) for j in range(13)])
def named_variables(i, j):
    """X, Y and beta are the variables they name; products of two variables commute in every respect."""
    p, q = X(i), Y(-j)
    same(p, {((i, 1),): 1})
    same(q, {((-j, 1),): 1})
    same(beta, {((0, 1),): 1})
    same(X(), {((BIG, 1),): 1})
    same(Y(), {((-BIG, 1),): 1})
    same(Polynomial.x(i) * Polynomial.y(j), pmul(model_of(p), model_of(q)))
    for a, b in [(X(i), X(j)), (X(i), Y(-j)), (Y(-i), Y(-j))]:
        assert a * b == b * a and hash(a * b) == hash(b * a) and str(a * b) == str(b * a), (a * b, b * a)
    return 'pair'
