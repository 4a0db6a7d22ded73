"""Oracles for the symmetric function checks (C17-C24, C31, C38): exact numeric formulas and weight tables."""
import functools
import itertools
from fractions import Fraction

from lib import contains, sv_transfer, table_to_sym, transfer, trim

# name: (strict shapes, tableau kind, set-valued, diagonal flag)
KINDS = {
    's': (False, 'ss', False, True), 'S': (False, 'marked', False, True),
    'P': (True, 'shifted', False, False), 'Q': (True, 'shifted', False, True),
    'G': (False, 'ss', True, True), 'GS': (False, 'marked', True, True),
    'GP': (True, 'shifted', True, False), 'GQ': (True, 'shifted', True, True),
    'g': (False, 'rpp', False, True), 'gp': (True, 'mrpp', False, False), 'gq': (True, 'mrpp', False, True),
}
LOWEST = {'G': 's', 'GS': 'S', 'GP': 'P', 'GQ': 'Q'}
HIGHEST = {'g': 's', 'gs': 'S', 'gp': 'P', 'gq': 'Q'}


def stair(mu, nu):
    """the shifted skew shape of gs and js"""
    n = len(mu)
    return tuple(mu[i] + n - i for i in range(n)), tuple((nu[i] if i < len(nu) else 0) + n - i for i in range(n))


def table(name, n, mu, nu):
    strict, kind, sv, diag = KINDS[name]
    if sv:
        return sv_transfer(kind, n, mu, nu, diag)
    return transfer(kind, n, mu, nu, diag)


@functools.lru_cache(50000)
def model(name, n, mu, nu=()):
    """{partition: {beta exponent: coefficient}} of the function, from tableaux"""
    if name in ('gs',):
        if not contains(mu, nu):
            return {}
        return model('gq', n, *stair(mu, nu))
    size = sum(mu) - sum(nu)
    t = table(name, n, mu, nu)
    if name in ('s', 'S', 'P', 'Q'):
        return table_to_sym(t, lambda d: (0, 1))
    if name[0] == 'G':
        return table_to_sym(t, lambda d: (d - size, 1))
    return table_to_sym(t, lambda d: (size - d, -1 if (size - d) % 2 else 1))


def negated(f):
    return {mu: {e: -v if e % 2 else v for e, v in d.items()} for mu, d in f.items()}


def bounded(f, top):
    return {mu: d for mu, d in f.items() if sum(mu) <= top}


# ------------------------------------------------------------ numeric values

def pw(b, e):
    return Fraction(b) ** e


def mono_value(mu, xs):
    """monomial symmetric polynomial of a partition at numbers xs"""
    return _mono(tuple(mu) + (0,) * (len(xs) - len(mu)), tuple(xs)) if len(mu) <= len(xs) else 0


@functools.lru_cache(200000)
def _mono(parts, xs):
    if not xs:
        return 1
    ans = 0
    for k, a in enumerate(parts):
        if k and parts[k - 1] == a:
            continue
        ans += xs[-1] ** a * _mono(parts[:k] + parts[k + 1:], xs[:-1])
    return ans


def sym_value(f, xs, b):
    """value of a sym model at numbers xs, beta = b"""
    return sum(sum(c * pw(b, e) for e, c in d.items()) * mono_value(mu, xs) for mu, d in f.items())


def det(m):
    m = [list(map(Fraction, r)) for r in m]
    ans = Fraction(1)
    n = len(m)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i]), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            ans = -ans
        ans *= m[i][i]
        for r in range(i + 1, n):
            q = m[r][i] / m[i][i]
            if q:
                for c in range(i, n):
                    m[r][c] -= q * m[i][c]
    return ans


def pfaffian(m):
    n = len(m)
    if n == 0:
        return Fraction(1)
    if n % 2:
        return Fraction(0)
    ans = Fraction(0)
    for j in range(1, n):
        if m[0][j]:
            keep = [k for k in range(1, n) if k != j]
            ans += (-1) ** (j - 1) * m[0][j] * pfaffian([[m[a][c] for c in keep] for a in keep])
    return ans


def series(xs, top, q):
    """h_k (q False) or q_k (q True) of xs for k = 0 .. top"""
    a = [Fraction(1)] + [Fraction(0)] * top
    for x in xs:
        for k in range(1, top + 1):
            a[k] += x * a[k - 1]
        if q:
            for k in range(top, 0, -1):
                a[k] += x * a[k - 1]
    return a


def schur_value(mu, nu, xs, q=False):
    """Jacobi-Trudi determinant: s (or S when q) of a skew shape at xs"""
    l = max(len(mu), len(nu))
    mu, nu = tuple(mu) + (0,) * (l - len(mu)), tuple(nu) + (0,) * (l - len(nu))
    h = series(xs, sum(mu) + l + 1, q)
    return det([[h[mu[i] - nu[j] - i + j] if mu[i] - nu[j] - i + j >= 0 else 0 for j in range(l)] for i in range(l)])


def schur_q_value(mu, nu, xs):
    """Jozefiak-Pragacz pfaffian: Q of a skew strict shape at xs"""
    mu, nu = list(mu), list(nu)
    if (len(mu) + len(nu)) % 2:
        nu = nu + [0]
    h = series(xs, 2 * sum(mu) + 2, True)

    def one(k):
        return h[k] if k >= 0 else Fraction(0)

    def two(a, b):
        return one(a) * one(b) + 2 * sum((-1) ** i * one(a + i) * one(b - i) for i in range(1, b + 1))
    l, m = len(mu), len(nu)
    N = l + m
    M = [[Fraction(0)] * N for _ in range(N)]
    for i in range(l):
        for j in range(i + 1, l):
            M[i][j] = two(mu[i], mu[j])
        for j in range(m):
            M[i][l + j] = one(mu[i] - nu[m - 1 - j])
    for i in range(N):
        for j in range(i):
            M[i][j] = -M[j][i]
    return pfaffian(M)


def grothendieck_value(mu, xs, b):
    """bialternant formula of G at distinct nonzero xs, beta = b"""
    n = len(xs)
    if len(mu) > n:
        return Fraction(0)
    mu = tuple(mu) + (0,) * (n - len(mu))
    num = det([[xs[i] ** (mu[j] + n - 1 - j) * (1 + b * xs[i]) ** j for j in range(n)] for i in range(n)])
    den = Fraction(1)
    for i in range(n):
        for j in range(i + 1, n):
            den *= xs[i] - xs[j]
    return num / den


def shifted_value(mu, xs, b, q):
    """Ikeda-Naruse formula of GP (GQ when q) at xs with distinct formal differences; b = 0 gives P, Q"""
    n, l = len(xs), len(mu)
    if l > n:
        return Fraction(0)
    xs = [Fraction(x) for x in xs]
    ans = Fraction(0)
    for w in itertools.permutations(range(n), l):
        rest = [k for k in range(n) if k not in w]
        t = Fraction(1)
        for k, i in enumerate(w):
            x = xs[i]
            t *= x ** mu[k]
            if q:
                t *= 2 + b * x
            for j in list(w[k + 1:]) + rest:
                y = xs[j]
                t *= (x + y + b * x * y) * (1 + b * y) / (x - y)
        ans += t
    return ans
