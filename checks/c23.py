"""C23: Cauchy identities."""
import functools
from collections import defaultdict

from harness import law
from hypothesis import strategies as st
from lib import contains, distinct_perms, is_partition, partitions_upto, subshapes, sym_model, trim
from symmetric import SymmetricPolynomial as SP

RULE = 'Non-trivial: at least one x and y variable, degree bound at least 2; labelled by whether both skewing shapes are nonempty.'
PAIRS = {
    'G': (False, SP.stable_grothendieck_doublebar, SP.dual_stable_grothendieck, SP.stable_grothendieck),
    'GP': (True, SP.stable_grothendieck_p_doublebar, SP.dual_stable_grothendieck_q, SP.stable_grothendieck_p),
    'GQ': (True, SP.stable_grothendieck_q_doublebar, SP.dual_stable_grothendieck_p, SP.stable_grothendieck_q),
}


def add(d, k, v):
    if v:
        d[k] = d.get(k, 0) + v
        if not d[k]:
            del d[k]


@functools.lru_cache(None)
def kernel(shifted, p, q, top):
    """{(x exponents, y exponents, beta exponent): coeff} up to x-degree top"""
    ans = {((0,) * p, (0,) * q, 0): 1}
    for i in range(p):
        for j in range(q):
            # one factor as series in x_i: list over x power of {(y power, beta power): coeff}
            one = [defaultdict(int) for _ in range(top + 1)]
            for k in range(top + 1):
                if not shifted:
                    one[k][(k, 0)] += 1
                    continue
                # (1 + b x + x y) / ((1 + b x)(1 - x y)): sum of (x y)^k times (1 + xy/(1+bx))
                one[k][(k, 0)] += 1
                for m in range(top - k):
                    one[k + 1 + m][(k + 1, m)] += (-1) ** m
            new = {}
            for (a, b, e), c in ans.items():
                for k in range(top - sum(a) + 1):
                    for (y, z), v in one[k].items():
                        add(new, (a[:i] + (a[i] + k,) + a[i + 1:], b[:j] + (b[j] + y,) + b[j + 1:], e + z), c * v)
            ans = new
    return ans


def full(f, n):
    return [(a, d) for mu, d in f.items() for a in distinct_perms(tuple(mu) + (0,) * (n - len(mu)))]


def both(name, p, q, top, l1, l2, straight=False):
    strict, bar, dual, plain = PAIRS[name]
    lhs = {}
    first = plain if straight else bar
    for mu in partitions_upto(top + sum(l1), None, None, strict):
        if contains(mu, l1) and contains(mu, l2):
            a = sym_model(first(p, mu, l1), p)
            b = sym_model(dual(q, mu, l2), q)
            for x, d in a.items():
                if sum(x) <= top:
                    for y, e in b.items():
                        for s, u in d.items():
                            for t, v in e.items():
                                add(lhs, (x, y, s + t), u * v)
    rhs = {}
    K = kernel(strict, p, q, top)
    for kappa in subshapes(l2, strict):
        if not contains(l1, kappa):
            continue
        a = [(x, d) for x, d in full(sym_model(first(p, l2, kappa), p), p) if sum(x) <= top]
        b = full(sym_model(dual(q, l1, kappa), q), q)
        if not a or not b:
            continue
        for (kx, ky, ke), c in K.items():
            for x, d in a:
                if sum(kx) + sum(x) > top:
                    continue
                xx = tuple(i + j for i, j in zip(kx, x))
                if not is_partition(xx):
                    continue
                for y, e in b:
                    yy = tuple(i + j for i, j in zip(ky, y))
                    if is_partition(yy):
                        for s, u in d.items():
                            for t, v in e.items():
                                add(rhs, (trim(xx), trim(yy), ke + s + t), c * u * v)
    return lhs, rhs


@st.composite
def st_case(draw, tier, straight=False):
    name = draw(st.sampled_from(('G', 'GP', 'GQ')))
    p, q = draw(st.sampled_from(((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (0, 2), (2, 0)) + (((3, 3), (2, 4)) if tier != 'quick' else ())))
    top = draw(st.integers(1, {0: 5, 1: 6, 2: 6, 3: 6, 4: 5, 5: 3, 6: 3}[p + q] + (1 if tier != 'quick' and p + q < 5 else 0) + (2 if straight and p + q < 5 else 0)))
    if straight:
        return name, p, q, top
    shapes = partitions_upto(4 if p + q < 5 else 3, None, None, PAIRS[name][0])
    return name, p, q, top, draw(st.sampled_from(shapes)), draw(st.sampled_from(shapes))


def exh(tier):
    for name in ('G', 'GP', 'GQ'):
        shapes = partitions_upto(2 if tier == 'quick' else 3, None, None, PAIRS[name][0])
        for p, q in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for l1 in shapes:
                for l2 in shapes:
                    yield name, p, q, 3, l1, l2


@law(lambda tier: st_case(tier), quick=500, thorough=4000, exhaustive=exh, shards=(4, 6))
def skew(name, p, q, top, l1, l2):
    """Sum over mu of F_{mu//l1}(x) f_{mu/l2}(y) = kernel times sum over kappa of F_{l2//kappa}(x) f_{l1/kappa}(y)."""
    lhs, rhs = both(name, p, q, top, l1, l2)
    assert lhs == rhs
    if p and q and top > 1:
        return name + (' skew' if l1 and l2 else ' half' if l1 or l2 else '')
    return False


@law(lambda tier: st_case(tier, True), quick=80, thorough=200, shards=(2, 3))
def straight(name, p, q, top):
    """The straight identity, to higher degree."""
    lhs, rhs = both(name, p, q, top, (), (), True)
    assert lhs == rhs
    return name if p and q and top > 1 else False
