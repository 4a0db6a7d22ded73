"""C25: box adding and removing operators."""
from harness import law
from hypothesis import strategies as st
from lib import cellset, model_of, padd, partitions_upto, pmul, pscale, st_partition
from operators import (operator_AL, operator_AR, operator_C, operator_R, operator_shifted_add, operator_shifted_column_remove,
                       operator_shifted_row_remove)
from polynomials import Polynomial, X, Y
from vectors import Vector

RULE = 'Non-trivial: the operator changes a shape, on a formal sum with a coefficient other than 1 or at least two terms.'
BETA = {((0, 1),): 1}
MINUS = {((0, 1),): -1}


def shape_of(s):
    """set of shifted cells -> strict partition or None"""
    rows = {}
    for i, j in s:
        rows.setdefault(i, []).append(j)
    ans = []
    for i in range(1, len(rows) + 1):
        if i not in rows or sorted(rows[i]) != list(range(i, i + len(rows[i]))):
            return None
        ans.append(len(rows[i]))
    if any(ans[k] <= ans[k + 1] for k in range(len(ans) - 1)):
        return None
    return tuple(ans)


def m_add(mu, d):
    """{shape: poly}"""
    s = cellset(mu, True)
    for c in s:
        if c[1] - c[0] == d and shape_of(s - {c}) is not None:
            return {mu: BETA}
    for i in range(1, len(mu) + 2):
        t = shape_of(s | {(i, i + d)})
        if t is not None and (i, i + d) not in s:
            return {t: {(): 1}}
    return {}


def m_remove(mu, d, row):
    s = cellset(mu, True)
    ans = {}
    coeff = {(): 1}
    for c in s:
        if c[1] - c[0] == d and shape_of(s - {c}) is not None:
            while c in s:
                s = s - {c}
                t = shape_of(s)
                if t is None:
                    break
                ans[t] = coeff
                coeff = pmul(coeff, MINUS)
                c = (c[0], c[1] - 1) if row else (c[0] - 1, c[1])
            return ans
    return ans


def apply(step, v):
    ans = {}
    for mu, p in v.items():
        for nu, q in step(mu).items():
            ans[nu] = padd(ans.get(nu, {}), pmul(p, q))
    return {k: p for k, p in ans.items() if p}


def vadd(u, v, f):
    ans = dict(u)
    for k, p in v.items():
        ans[k] = padd(ans.get(k, {}), pmul(p, f))
    return {k: p for k, p in ans.items() if p}


def build_poly(spec):
    if isinstance(spec, int):
        return spec, ({(): spec} if spec else {})
    p, m = Polynomial.zero(), {}
    for i, e, c in spec:
        p = p + Polynomial.monomial(i, e) * c
        m = padd(m, {(((i, e),) if e else ()): c} if c else {})
    return p, m


def build(spec):
    v, m = Vector(), {}
    for mu, c in spec:
        p, q = build_poly(c)
        v = v + Vector({mu: p})
        m[mu] = padd(m.get(mu, {}), q)
    return v, {k: p for k, p in m.items() if p}


def read(v):
    if isinstance(v, int):
        assert v == 0
        return {}
    if isinstance(v, Polynomial):
        assert v == 0
        return {}
    ans = {k: model_of(c) for k, c in v.items()}
    assert all(ans.values())
    return ans


SHAPE = st_partition(14, None, None, True)
COEFF = st.one_of(st.integers(-3, 3), st.lists(st.tuples(st.integers(-2, 2), st.integers(0, 2), st.integers(-3, 3)), min_size=1, max_size=2).map(tuple))
SUM = st.lists(st.tuples(SHAPE, COEFF), max_size=4).map(tuple)

OPS = {
    'add': (operator_shifted_add, m_add),
    'row': (operator_shifted_row_remove, lambda mu, d: m_remove(mu, d, True)),
    'col': (operator_shifted_column_remove, lambda mu, d: m_remove(mu, d, False)),
}


@law(st.tuples(st.sampled_from(sorted(OPS)), st.integers(-4, 12), SUM), quick=1500, thorough=10000, shards=(2, 3))
def elementary(name, d, spec):
    op, model = OPS[name]
    v, m = build(spec)
    op = op(d)
    got = op(v)
    want = apply(lambda mu: model(mu, abs(d)), m)
    assert read(got) == want, (got, want)
    assert read(v) == m, 'argument changed'
    assert read(op(v)) == want
    total = {}
    for mu, p in m.items():
        total = vadd(total, read(op(mu)), p)
    assert total == want, 'not linear'
    return name if want and len(spec) > 1 else False


def exh(tier):
    for mu in partitions_upto(18 if tier == 'quick' else 24, None, None, True):
        for d in range((mu[0] if mu else 0) + 2):
            yield mu, d


@law(exhaustive=exh, quick=0, shards=(1, 2))
def single(mu, d):
    """Every operator on every small shape, given as a tuple or as a vector."""
    hit = False
    for name, (op, model) in OPS.items():
        for i in (d, -d):
            want = model(mu, d)
            assert read(op(i)(mu)) == want, (name, op(i)(mu), want)
            assert read(op(i)(Vector({mu: 1}))) == want
        hit = hit or bool(want)
    return 'shape' if hit else False


def m_composite(name, n, f, v):
    if name == 'AL':
        order, step = range(n + 1), m_add
    elif name == 'AR':
        order, step = range(n, -1, -1), m_add
    elif name == 'R':
        order, step = range(n + 1), OPS['row'][1]
    else:
        order, step = range(n, 0, -1), OPS['col'][1]
    for i in order:
        v = vadd(v, apply(lambda mu: step(mu, i), v), f)
    return v


COMP = {'AL': operator_AL, 'AR': operator_AR, 'R': operator_R, 'C': operator_C}
VARS = {'default': None, 'x1': X(1), 'y2': Y(-2), 'beta': X(0), 'one': X(1) * 0 + 1, '-1': -1, 'mix': X(1) + 2 * X(0)}


@law(st.tuples(st.sampled_from(sorted(COMP)), st.integers(0, 5), st.sampled_from(sorted(VARS)),
               st.lists(st.tuples(st_partition(15, None, None, True), COEFF), max_size=3).map(tuple)), quick=500, thorough=4000, shards=(2, 3))
def composite(name, n, var, spec):
    """Ordered products of (1 + variable * elementary operator)."""
    v, m = build(spec)
    if var == 'default':
        op, f = COMP[name](n), model_of(X() if name in 'RC' else Y())
    else:
        op, f = COMP[name](n, VARS[var]), model_of(VARS[var])
    want = m_composite(name, n, f, m)
    assert read(op(v)) == want
    assert read(v) == m
    if len(spec) == 1 and spec[0][1] == 1:
        assert read(op(spec[0][0])) == want
    return name if len(want) > len(m) else False


@law(st.tuples(st.integers(0, 5), st_partition(12, None, None, True)), quick=100, thorough=600,
     exhaustive=lambda tier: ((n, mu) for n in range(4) for mu in partitions_upto(6, None, None, True)))
def commuting(n, mu):
    """AL after AR, with two different variables, commute."""
    def f(x, u):
        return operator_AL(n, x)(operator_AR(n, x)(u))
    a, b = f(X(1), f(X(2), mu)), f(X(2), f(X(1), mu))
    assert read(a) == read(b)
    return 'n=%d' % n if len(a) > 1 else False
