"""C26: strip operators and the box operator algebra."""
from boxes import BoxOperator, c as col, r as row
from dualops import sh_horizontal_strip, sh_vertical_strip
from harness import law
from hypothesis import strategies as st
from lib import cellset, model_of, padd, partitions_upto, pmul, st_partition
from polynomials import X

RULE = 'Non-trivial: the strip can be added, or the algebra elements have at least two terms.'


def m_strip(mu, a, b, horizontal):
    """the strict shape whose new cells are a row (column) segment on diagonals a..b, or None"""
    found = set()
    if horizontal:
        for i in range(1, len(mu) + 2):
            nu = list(mu) + [0]
            if nu[i - 1] == a:
                nu[i - 1] += b - a + 1
                found.add(tuple(nu))
    else:
        for h in range(1, len(mu) + 2):
            k = h + b - a
            if k <= len(mu) + 1:
                nu = list(mu) + [0]
                if nu[h - 1] == b and nu[k - 1] == a:
                    for i in range(h, k + 1):
                        nu[i - 1] += 1
                    found.add(tuple(nu))
    ans = set()
    for nu in found:
        while nu and nu[-1] == 0:
            nu = nu[:-1]
        if 0 in nu or any(nu[i] <= nu[i + 1] for i in range(len(nu) - 1)):
            continue
        new = cellset(nu, True) - cellset(mu, True)
        assert cellset(mu, True) <= cellset(nu, True)
        if sorted(j - i for i, j in new) == list(range(a, b + 1)) and len({c[0 if horizontal else 1] for c in new}) == 1:
            ans.add(nu)
    assert len(ans) <= 1
    return ans.pop() if ans else None


def strips(mu, a, b):
    h, v = sh_horizontal_strip(a, b)(mu), sh_vertical_strip(a, b)(mu)
    assert h == m_strip(mu, a, b, True), (h, m_strip(mu, a, b, True))
    assert v == m_strip(mu, a, b, False), (v, m_strip(mu, a, b, False))
    assert sh_horizontal_strip(a, b)(None) is None and sh_vertical_strip(a, b)(None) is None
    if a == b:
        assert h == v
    return ('h' if h else '') + ('v' if v else '')


def exh(tier):
    for mu in partitions_upto(14 if tier == 'quick' else 20, None, None, True):
        top = (mu[0] if mu else 0) + 2
        for a in range(top + 1):
            for b in range(a, top + 2):
                yield mu, a, b


@law(st.tuples(st_partition(40, None, None, True), st.integers(0, 12), st.integers(0, 7)).map(lambda t: (t[0], t[1], t[1] + t[2])),
     quick=2000, thorough=15000, exhaustive=exh, shards=(2, 3))
def strip(mu, a, b):
    return strips(mu, a, b)


WORD = st.lists(st.integers(-4, 4), max_size=5).map(tuple)


def _thin(w):
    ans = ()
    for i in w:
        if not ans or abs(ans[-1]) != abs(i):
            ans += (i,)
    return ans


SCALAR = st.one_of(st.integers(-2, 3), st.tuples(st.integers(-2, 2), st.integers(1, 2), st.integers(-2, 2)).map(lambda t: t))
ELEMENT = st.lists(st.tuples(st.integers(0, 2), st.one_of(WORD, WORD.map(_thin), WORD.map(_thin)), SCALAR), min_size=1, max_size=4).map(tuple)


def scalar(s):
    if isinstance(s, int):
        return s, ({(): s} if s else {})
    i, e, v = s
    from polynomials import Polynomial
    return Polynomial.monomial(i, e) * v, ({((i, e),): v} if v else {})


def ok(w):
    return not any(w[i] == w[i + 1] or w[i] == -w[i + 1] for i in range(len(w) - 1))


def build(spec):
    f, m = BoxOperator(), {}
    for b, w, s in spec:
        if not ok(w):
            continue
        x, p = scalar(s)
        f = f + BoxOperator(b, *w) * x
        key = (b,) + w
        m[key] = padd(m.get(key, {}), p)
    return f, {k: p for k, p in m.items() if p}


def read(f):
    assert type(f) == BoxOperator
    ans = {k: model_of(c) for k, c in f.vector.items()}
    assert all(ans.values())
    return ans


def m_add(u, v, s=1):
    ans = dict(u)
    for k, p in v.items():
        ans[k] = padd(ans.get(k, {}), p, s)
    return {k: p for k, p in ans.items() if p}


def m_mul(u, v):
    ans = {}
    for a, p in u.items():
        for b, q in v.items():
            w = a[1:] + b[1:]
            if ok(w):
                key = (a[0] + b[0],) + w
                ans[key] = padd(ans.get(key, {}), pmul(p, q))
    return {k: p for k, p in ans.items() if p}


@law(st.tuples(ELEMENT, ELEMENT, ELEMENT), quick=500, thorough=4000, shards=(2, 3))
def algebra(s, t, u):
    f, F = build(s)
    g, G = build(t)
    h, H = build(u)
    assert read(f) == F
    assert read(f + g) == m_add(F, G) and read(f - g) == m_add(F, G, -1)
    assert read(-f) == m_add({}, F, -1)
    fg = f * g
    assert read(fg) == m_mul(F, G)
    assert read(fg * h) == read(f * (g * h)) == m_mul(m_mul(F, G), H)
    assert read(f * (g + h)) == read(fg + f * h)
    assert read((f + g) * h) == read(f * h + g * h)
    assert (f == g) == (F == G) and (f - f) == 0 and (f == 0) == (not F)
    one = BoxOperator(0)
    assert one * f == f and f * one == f
    assert read(f) == F and read(g) == G
    return 'algebra' if len(F) > 1 and len(G) > 1 else False


@law(st.tuples(ELEMENT, SCALAR, st.integers(-3, 3), st.sampled_from(('r', 'c', 'R', 'C')), st.integers(0, 4)), quick=500, thorough=4000)
def operands(s, x, k, letter, i):
    """Scalars and strings on either side; generators."""
    f, F = build(s)
    v, p = scalar(x)
    S = {(0,): p} if p else {}
    K = {(0,): {(): k}} if k else {}
    assert read(f * v) == m_mul(F, S)
    assert read(k * f) == m_mul(F, K) and read(f + k) == m_add(F, K) and read(k + f) == m_add(F, K)
    assert read(f - k) == m_add(F, K, -1) and read(k - f) == m_add(K, F, -1)
    assert read(f + v) == m_add(F, S) and read(f - v) == m_add(F, S, -1)
    if not isinstance(x, int):
        assert read(v * f) == m_mul(F, S)
    gen = (row if letter in 'rR' else col)(i)
    L = {(0, i if letter in 'rR' else -i): {(): 1}}
    assert read(gen) == L
    name = '%s%d' % (letter, i)
    assert read(f * name) == m_mul(F, L) and read(name * f) == m_mul(L, F)
    assert read(f * gen) == m_mul(F, L)
    return 'terms' if len(F) > 1 else False


def m_filter(F, n):
    ans = {}
    for k, p in F.items():
        if all(sum(1 for y in k[1:] if abs(y) == abs(x)) <= n - abs(x) + 1 for x in k[1:]):
            ans[k] = p
    return ans


@law(st.tuples(ELEMENT, ELEMENT, st.integers(0, 4)), quick=300, thorough=2000)
def filtering(s, t, n):
    f, F = build(s)
    g, G = build(t)
    assert read((f * g).filter(n)) == m_filter(m_mul(F, G), n)
    assert read(f.filter(n)) == m_filter(F, n) and read(f) == F
    assert f.filter(n).filter(n) == f.filter(n)
    assert read(f.filter(n) * g) == m_mul(m_filter(F, n), G)
    return 'filter' if m_filter(F, n) != F else False


@law(st.tuples(st.integers(0, 2), WORD), quick=200, thorough=1000)
def construction(b, w):
    for f in (BoxOperator(b, *w), BoxOperator((b,) + w), BoxOperator([b] + list(w))):
        assert list(f.vector.items()) == [((b,) + w, 1)]
    assert BoxOperator() == 0
    return 'word' if len(w) > 1 else False


@law(exhaustive=lambda tier: ((n,) for n in range(2 if tier == 'quick' else 3)), quick=0)
def commutator(n):
    def product(v):
        F = {(0,): {(): 1}}
        for i in range(n, -n - 1, -1):
            F = m_mul(F, {(0,): {(): 1}, (0, i): {((v, 1),): 1}})
        return F
    L, R = product(1), product(-1)
    # words with too high multiplicity are dropped at the end
    want = m_filter(m_add(m_mul(L, R), m_mul(R, L), -1), n)
    # the library names its two variables x_1 and x_{-1}
    assert read(BoxOperator.commutator(n)) == want
    return 'n=%d' % n
