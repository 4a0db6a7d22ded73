"""C03: formal linear combinations are a module; exact linear algebra."""
from fractions import Fraction

from harness import law
from hypothesis import strategies as st
from lib import model_of
from polynomials import Polynomial
from vectors import Vector

RULE = 'Non-trivial: operands with at least two terms, cancellation, a polynomial coefficient or a rank deficient system.'

KEY = st.sampled_from(['a', 'b', 'c', 'd', 'e'])
TKEY = st.lists(st.integers(1, 3), max_size=2).map(tuple)
NKEY = st.sampled_from([1, 2, 3, 4, 6, -1, 0])
COEFF = st.one_of(st.integers(-3, 3), st.lists(st.tuples(st.integers(-2, 3), st.integers(-2, 2)), min_size=1, max_size=2).map(tuple))


def st_vec(key=KEY, coeff=COEFF, size=4):
    return st.integers(0, size).flatmap(lambda k: st.lists(st.tuples(key, coeff), min_size=k, max_size=size)).map(tuple)


WIDEKEY = st.sampled_from(list('abcdefghij'))
WIDE = st.one_of(st.integers(-3, 3), st.integers(-3, 3), st.integers(-2**70, 2**70), COEFF)


def coeff(c):
    """spec -> coefficient of the code: an int, or a polynomial in beta"""
    if isinstance(c, int):
        return c
    ans = Polynomial.zero()
    for e, v in c:
        ans = ans + Polynomial.monomial(0, e) * v
    return ans


def cmodel(c):
    """model of a coefficient: {beta exponent: value}"""
    if isinstance(c, int):
        return {0: c} if c else {}
    ans = {}
    for e, v in c:
        ans[e] = ans.get(e, 0) + v
    return {e: v for e, v in ans.items() if v}


def cadd(c, d, s=1):
    ans = dict(c)
    for e, v in d.items():
        ans[e] = ans.get(e, 0) + s * v
    return {e: v for e, v in ans.items() if v}


def cmul(c, d):
    ans = {}
    for e, v in c.items():
        for f, w in d.items():
            ans[e + f] = ans.get(e + f, 0) + v * w
    return {e: v for e, v in ans.items() if v}


def build(spec, multiplier=None):
    ans = Vector({}, None, multiplier)
    for k, c in spec:
        ans = ans + Vector({k: coeff(c)}, None, multiplier)
    return ans


def model(spec):
    ans = {}
    for k, c in spec:
        ans[k] = cadd(ans.get(k, {}), cmodel(c))
    return {k: c for k, c in ans.items() if c}


def madd(m, n, s=1):
    ans = dict(m)
    for k, c in n.items():
        ans[k] = cadd(ans.get(k, {}), c, s)
    return {k: c for k, c in ans.items() if c}


def mscale(m, c):
    ans = {k: cmul(d, c) for k, d in m.items()}
    return {k: d for k, d in ans.items() if d}


def read(v):
    ans = {}
    for k, c in v.items():
        if isinstance(c, int):
            d = {0: c} if c else {}
        else:
            d = {}
            for mon, x in model_of(c).items():
                assert len(mon) <= 1 and (not mon or mon[0][0] == 0)
                d[mon[0][1] if mon else 0] = x
        assert d, 'stored zero coefficient'
        ans[k] = d
    return ans


def same(v, m):
    assert type(v) is Vector
    assert read(v) == m, (v, m)
    assert len(v) == len(m) and set(v) == set(m) == set(v.keys())
    assert v.is_zero() == (not m)
    for k in m:
        assert v[k] != 0


@law(st.one_of(st.tuples(st_vec(), st_vec(), COEFF), st.tuples(st_vec(WIDEKEY, WIDE, 12), st_vec(WIDEKEY, WIDE, 12), COEFF)), quick=1500, thorough=12000)
def module(a, b, c):
    v, w, m, n = build(a), build(b), model(a), model(b)
    k, kk = coeff(c), cmodel(c)
    same(v, m)
    same(v + w, madd(m, n))
    same(w + v, madd(m, n))
    same(v - w, madd(m, n, -1))
    same(-v, mscale(m, {0: -1}))
    same(v - v, {})
    same(v + (-v), {})
    same((v + w) - w, m)
    same(v + 0, m)
    same(0 + v, m)
    same(v - 0, m)
    same(sum([v, w, v]), madd(madd(m, m), n))
    same(v * k, mscale(m, kk))
    same(k * v, mscale(m, kk))
    same((v + w) * k, mscale(madd(m, n), kk))
    assert v['no such key'] == 0
    same(v, m)
    same(w, n)
    if len(madd(m, n)) < len(set(m) | set(n)):
        return 'cancellation'
    return 'module' if len(m) > 1 else False


LARGE = st.tuples(*[st_vec(WIDEKEY, st.one_of(st.integers(0, 2), COEFF), 9)] * 2, st.permutations(range(10)), st_vec(size=2))


@law(st.one_of(st.tuples(st_vec(), st_vec(), st.permutations(range(5)), st_vec(size=2)), LARGE), quick=1500, thorough=10000)
def value_semantics(a, b, order, c):
    """Equality, hash, text and positivity depend on the value only."""
    v, w, m, n = build(a), build(b), model(a), model(b)
    x = build(c)
    u = (x + build(tuple(a[i] for i in order if i < len(a)))) - x
    same(u, m)
    assert u == v and v == u and hash(u) == hash(v) and str(u) == str(v)
    assert (v == w) == (m == n)
    assert (str(v) == str(w)) == (m == n), (str(v), m, n)
    pos = all(y > 0 for d in m.values() for y in d.values())
    assert v.is_nonnegative() == pos
    assert v.is_positive() == (pos and bool(m))
    assert v.is_singleton() == (list(m.values()) == [{0: 1}])
    assert (v == 0) == (not m)
    return 'reordered' if len(m) > 1 else False


@law(st.tuples(st_vec(coeff=st.integers(-3, 3)), st_vec(coeff=st.integers(-3, 3)), st.integers(1, 5)), quick=500, thorough=4000)
def integer_division_and_text(a, b, k):
    v, m = build(a), model(a)
    q = v // k
    assert dict(q.items()) == {i: c[0] // k for i, c in m.items() if c[0] // k}
    same((v * k) // k, m)
    text = str(v)
    want = {i: c[0] for i, c in m.items()}
    got = {}
    if text != '0':
        text = ('+ ' if not text.startswith('-') else '') + text.replace('-', '- ', 1) if text.startswith('-') else '+ ' + text
        tokens = text.split()
        for s, t in zip(tokens[::2], tokens[1::2]):
            num, _, key = t.rpartition('*')
            got[key.strip("'")] = (-1 if s == '-' else 1) * (int(num) if num else 1)
    assert got == want, (str(v), want)
    return 'integer' if len(m) > 1 else False


def concat(x, y):
    return [(x + y, 1)]


def twisted(x, y):
    return [(x + y, 2), (y + x, -1)]


def mprod(m, n, rule):
    ans = {}
    for x, c in m.items():
        for y, d in n.items():
            for z, e in rule(x, y):
                ans[z] = cadd(ans.get(z, {}), cmul(cmul(c, d), {0: e}))
    return {k: c for k, c in ans.items() if c}


@law(st.tuples(st_vec(TKEY, size=3), st_vec(TKEY, size=3), st_vec(TKEY, size=2), st.booleans(), TKEY), quick=700, thorough=6000)
def bilinear_product(a, b, c, flag, key):
    rule = twisted if flag else concat
    v, w, u = build(a, rule), build(b, rule), build(c, rule)
    m, n, o = model(a), model(b), model(c)
    same(v * w, mprod(m, n, rule))
    same((v + w) * u, madd(mprod(m, o, rule), mprod(n, o, rule)))
    same(u * (v + w), madd(mprod(o, m, rule), mprod(o, n, rule)))
    same(v * key, mprod(m, {key: {0: 1}}, rule))
    if m and n:
        # one summand with the basis product is enough
        p, q = build(a), build(b)
        for x, y, s in ((v + q, m, 1), (p + w, m, 1), (v - q, m, -1), (p - w, m, -1)):
            same(x * u, mprod(madd(m, n, s), o, rule))
    same(v * 1, m)
    same(v, m)
    return 'product' if len(m) > 1 and len(n) > 1 else False


@law(st.tuples(st_vec(NKEY, size=3), st_vec(NKEY, size=3)), quick=500, thorough=5000)
def key_product(a, b):
    """Without a multiplier, basis elements multiply as their keys."""
    v, w, m, n = build(a), build(b), model(a), model(b)
    same(v * w, mprod(m, n, lambda x, y: [(x * y, 1)]))
    return 'product' if len(m) > 1 and len(n) > 1 else False


@law(st.tuples(st_vec(TKEY, coeff=st.one_of(st.integers(-2, 2)), size=3), st.integers(1, 6)), quick=300, thorough=3000)
def powers(a, k):
    v, m = build(a, concat), model(a)
    want = m
    for _ in range(k - 1):
        want = mprod(want, m, concat)
    same(v ** k, want)
    same(v, m)
    return 'power' if k > 1 and len(m) > 1 else False


@law(st.tuples(st.lists(st.tuples(st.sampled_from('+-*n'), st.integers(0, 9), st.integers(0, 9), st.integers(-2, 2)), min_size=1, max_size=8).map(tuple),
               st.lists(st_vec(size=3), min_size=2, max_size=3).map(tuple)), quick=400, thorough=4000)
def history(ops, starts):
    """Straight-line programs: earlier values keep their value."""
    vals, models = [build(s) for s in starts], [model(s) for s in starts]
    for op, i, j, k in ops:
        i, j = i % len(vals), j % len(vals)
        v, w, m, n = vals[i], vals[j], models[i], models[j]
        if op == '+':
            r, o = v + w, madd(m, n)
        elif op == '-':
            r, o = v - w, madd(m, n, -1)
        elif op == '*':
            r, o = k * v, mscale(m, {0: k} if k else {})
        else:
            r, o = -v, mscale(m, {0: -1})
        vals.append(r)
        models.append(o)
    for v, m in zip(vals, models):
        same(v, m)
    return 'program' if len(ops) > 2 else False


def rank(rows):
    rows = [[Fraction(x) for x in r] for r in rows]
    r = 0
    n = len(rows[0]) if rows else 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                f = rows[i][c] / rows[r][c]
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        r += 1
    return r


@st.composite
def st_matrix(draw):
    big = draw(st.sampled_from([5, 5, 5, 9]))
    m, n = draw(st.integers(1, big)), draw(st.integers(1, big))
    entry = draw(st.sampled_from([st.integers(-2, 2), st.integers(-12, 12), st.sampled_from([0, 0, 1, -1, 6, 4]), st.sampled_from([0, 0, 0, 0, 10**9, 2, -3])]))
    rows = [draw(st.lists(entry, min_size=n, max_size=n)) for _ in range(m)]
    if m > 1 and draw(st.booleans()):
        f, g = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
        rows[-1] = [f * x + g * y for x, y in zip(rows[0], rows[(m - 1) // 2])]
    return (tuple(tuple(r) for r in rows),)


@law(st_matrix(), quick=1500, thorough=15000)
def row_reduction(rows):
    matrix = [list(r) for r in rows]
    red = Vector.rref(matrix)
    assert matrix == [list(r) for r in rows], 'argument changed'
    assert len(red) == len(rows) and all(len(r) == len(rows[0]) for r in red)
    assert all(type(x) is int for r in red for x in r)
    pivots = [next((j for j, x in enumerate(r) if x), None) for r in red]
    for p, q in zip(pivots, pivots[1:]):
        assert q is None or (p is not None and p < q), 'not in echelon form'
    r = rank(rows)
    assert rank(red) == r == rank([list(x) for x in rows] + red)
    return 'deficient' if r < min(len(rows), len(rows[0])) else 'full' if r > 1 else False


@st.composite
def st_span(draw):
    if draw(st.integers(0, 3)):
        args = draw(st.lists(st_vec(coeff=st.integers(-4, 4)), max_size=4))
    else:
        args = draw(st.lists(st_vec(WIDEKEY, st.integers(-9, 9), 9), min_size=2, max_size=8))
    if args and draw(st.booleans()):
        target = ()
        for a in args:
            c = draw(st.integers(-3, 3))
            target += tuple((k, c * x) for k, x in a)
        if draw(st.booleans()):
            d = draw(st.sampled_from([2, 3]))
            args = [tuple((k, d * x) for k, x in a) for a in args]
        if draw(st.integers(0, 2)) == 0:
            target += ((draw(KEY), draw(st.sampled_from([1, -1]))),)
    else:
        target = draw(st_vec(coeff=st.integers(-4, 4)))
    return target, tuple(args)


@law(st_span(), quick=1500, thorough=12000)
def expressibility(target, args):
    v, vs = build(target), [build(a) for a in args]
    keys = 'abcdefghij'
    rows = [[w[k] for k in keys] for w in vs]
    want = rank(rows + [[v[k] for k in keys]]) == rank(rows)
    assert bool(v.is_expressable(*vs)) == want
    for w, a in zip(vs, args):
        same(w, model(a))
    return ('yes' if want else 'no') if not v.is_zero() and vs else False
