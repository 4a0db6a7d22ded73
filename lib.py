"""Independent oracles and generators shared by the checks.

Nothing in this file calls the code under test except the small converters
at the end, which only read results through their public interface.
"""
import functools
import itertools
from collections import defaultdict
from fractions import Fraction  # noqa

from hypothesis import strategies as st


# ---------------------------------------------------------------- partitions

@functools.lru_cache(None)
def partitions_of(n, maxpart=None, strict=False):
    maxpart = n if maxpart is None else maxpart
    if n == 0:
        return ((),)
    ans = []
    for a in range(min(n, maxpart), 0, -1):
        for rest in partitions_of(n - a, a - 1 if strict else a, strict):
            ans.append((a,) + rest)
    return tuple(ans)


@functools.lru_cache(None)
def partitions_upto(n, maxrows=None, maxpart=None, strict=False):
    return tuple(
        mu for k in range(n + 1) for mu in partitions_of(k, None, strict)
        if (maxrows is None or len(mu) <= maxrows) and (maxpart is None or not mu or mu[0] <= maxpart)
    )


def contains(mu, nu):
    return all((mu[i] if i < len(mu) else 0) >= a for i, a in enumerate(nu))


def trim(mu):
    mu = tuple(mu)
    while mu and mu[-1] == 0:
        mu = mu[:-1]
    return mu


@functools.lru_cache(None)
def subshapes(mu, strict=False):
    """All (strict) partitions inside mu."""
    return tuple(nu for nu in partitions_upto(sum(mu), len(mu), mu[0] if mu else 0, strict) if contains(mu, nu))


def cells(mu, nu=(), shifted=False):
    ans = []
    for i, a in enumerate(mu):
        b = nu[i] if i < len(nu) else 0
        off = i if shifted else 0
        ans += [(i + 1, off + j + 1) for j in range(b, a)]
    return ans


def cellset(mu, shifted=False):
    return frozenset(cells(mu, (), shifted))


def transpose(mu):
    return tuple(sum(1 for a in mu if a > j) for j in range(mu[0])) if mu else ()


def st_partition(maxsize, maxrows=None, maxpart=None, strict=False):
    return st.sampled_from(partitions_upto(maxsize, maxrows, maxpart, strict))


@st.composite
def st_skew(draw, maxsize, maxrows=None, maxpart=None, strict=False, maxskew=None, stray=0):
    """(mu, nu) with nu inside mu; with probability about stray/10 an arbitrary nu instead."""
    mu = draw(st_partition(maxsize, maxrows, maxpart, strict))
    if stray and draw(st.integers(0, 9)) >= 10 - stray:
        nu = draw(st_partition(min(maxsize, sum(mu) + 1), maxrows, maxpart, strict))
        if maxskew is None or sum(mu) - sum(nu) <= maxskew or not contains(mu, nu):
            return mu, nu
    subs = subshapes(mu, strict)
    if maxskew is not None:
        subs = tuple(x for x in subs if sum(mu) - sum(x) <= maxskew)
    nu = draw(st.sampled_from(subs))
    return mu, nu


# ------------------------------------------------------------------ fillings
# letters are encoded 2i for i and 2i-1 for i'

def enc(v):
    return 2 * v if v > 0 else -2 * v - 1


def dec(x):
    return x // 2 if x % 2 == 0 else -(x + 1) // 2


def row_marked(a, b):
    return a[-1] < b[0] or (a[-1] == b[0] and a[-1] % 2 == 0)


def col_marked(a, b):
    return a[-1] < b[0] or (a[-1] == b[0] and a[-1] % 2 == 1)


def weak(a, b):
    return a[-1] <= b[0]


def subsets(letters):
    letters = sorted(letters)
    return [tuple(c) for k in range(1, len(letters) + 1) for c in itertools.combinations(letters, k)]


def fillings(cellist, alphabet, row, col):
    """All maps cell -> entry (sorted tuple of letters) obeying row/col on adjacent cells.
    alphabet: cell -> list of entries."""
    cellist = sorted(cellist)
    index = {c: k for k, c in enumerate(cellist)}
    left = [index.get((i, j - 1)) for i, j in cellist]
    below = [index.get((i - 1, j)) for i, j in cellist]
    entries = [alphabet(c) for c in cellist]
    cur = [None] * len(cellist)

    def rec(k):
        if k == len(cellist):
            yield tuple(cur)
            return
        for e in entries[k]:
            if left[k] is not None and not row(cur[left[k]], e):
                continue
            if below[k] is not None and not col(cur[below[k]], e):
                continue
            cur[k] = e
            yield from rec(k + 1)

    for f in rec(0):
        yield dict(zip(cellist, f))


def family(kind, n, mu, nu=(), setvalued=False, diag=True):
    """Brute force model of the tableau families, as dicts cell -> sorted tuple of ENCODED letters.
    kinds: ss, marked, shifted (diag = primes allowed on the diagonal), rpp,
    mrpp (diag = unprimed entries allowed on the diagonal)."""
    if not contains(mu, nu):
        return
    shifted = kind in ('shifted', 'mrpp')
    cs = cells(mu, nu, shifted)
    unprimed = [2 * i for i in range(1, n + 1)]
    primed = [2 * i - 1 for i in range(1, n + 1)]
    if kind in ('ss', 'rpp'):
        letters = {False: unprimed, True: unprimed}
    elif kind == 'marked':
        letters = {False: unprimed + primed, True: unprimed + primed}
    elif kind == 'shifted':
        letters = {False: unprimed + primed, True: unprimed + (primed if diag else [])}
    else:
        letters = {False: unprimed + primed, True: primed + (unprimed if diag else [])}
    options = {k: (subsets(v) if setvalued else [(x,) for x in sorted(v)]) for k, v in letters.items()}

    def alphabet(c):
        return options[shifted and c[0] == c[1]]

    if kind in ('rpp', 'mrpp'):
        row = col = weak
    else:
        row, col = row_marked, col_marked
    yield from fillings(cs, alphabet, row, col)


def content_weight(f, n):
    w = [0] * n
    for e in f.values():
        for x in e:
            w[(x + 1) // 2 - 1] += 1
    return tuple(w)


def rpp_weight(f, n):
    """distinct columns for unprimed plus distinct rows for primed letters."""
    a = [set() for _ in range(n)]
    for (i, j), e in f.items():
        for x in e:
            a[(x + 1) // 2 - 1].add(('c', j) if x % 2 == 0 else ('r', i))
    return tuple(len(s) for s in a)


def decode_filling(f):
    """encoded filling -> {cell: sorted tuple of signed ints}"""
    return {c: tuple(sorted(dec(x) for x in e)) for c, e in f.items()}


def freeze(boxes):
    return tuple(sorted(boxes.items()))


@functools.lru_cache(20000)
def weight_table(kind, n, mu, nu, setvalued, diag):
    """{weight: number of fillings} over ALL weights (not only partitions)."""
    ans = defaultdict(int)
    w = rpp_weight if kind in ('rpp', 'mrpp') else content_weight
    for f in family(kind, n, mu, nu, setvalued, diag):
        ans[w(f, n)] += 1
    return dict(ans)


# ------------------------------------------------- independent transfer model
# Number of fillings by weight, computed letter by letter on shapes; used where
# direct enumeration is too large.  One letter i contributes a pair of shapes
# lam <= mu (the cells whose largest entry is >= i ...).  For plain (non set
# valued) families the step lam -> mu is legal iff the one-letter filling of
# mu/lam exists, so the oracle is literally family(kind, 1, mu, lam).

@functools.lru_cache(None)
def one_letter(kind, mu, nu, diag):
    return weight_table(kind, 1, mu, nu, False, diag)


@functools.lru_cache(20000)
def transfer(kind, n, mu, nu, diag=True):
    strict = kind in ('shifted', 'mrpp')
    if not contains(mu, nu):
        return {}
    if n == 0:
        return {(): 1} if mu == nu else {}
    ans = defaultdict(int)
    for lam in subshapes(mu, strict):
        if not contains(lam, nu):
            continue
        step = one_letter(kind, mu, lam, diag)
        if not step:
            continue
        for w, c in transfer(kind, n - 1, lam, nu, diag).items():
            for (m,), d in step.items():
                ans[w + (m,)] += c * d
    return dict(ans)


# --------------------------------------------------------------- polynomials
# models: dict {tuple(sorted((index, power), ...)) : coeff}

def padd(p, q, s=1):
    ans = dict(p)
    for k, v in q.items():
        ans[k] = ans.get(k, 0) + s * v
        if ans[k] == 0:
            del ans[k]
    return ans


def mmul(a, b):
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
        if d[i] == 0:
            del d[i]
    return tuple(sorted(d.items()))


def pmul(p, q):
    ans = {}
    for a, x in p.items():
        for b, y in q.items():
            k = mmul(a, b)
            ans[k] = ans.get(k, 0) + x * y
    return {k: v for k, v in ans.items() if v}


def ppow(p, k):
    ans = {(): 1}
    for _ in range(k):
        ans = pmul(ans, p)
    return ans


def pscale(p, c):
    return {k: v * c for k, v in p.items()} if c else {}


def model_of(p):
    """Polynomial (or int) of the code under test -> model dict. Raises on stored zeros."""
    if isinstance(p, int):
        return {(): int(p)} if p else {}
    ans = {}
    for k in p.coeffs:
        c = p.coeffs[k]
        assert c != 0, 'stored zero coefficient'
        assert all(e != 0 for e in k.values()), 'stored zero exponent'
        key = tuple(sorted(k.items()))
        assert key not in ans
        ans[key] = c
    return ans


def sym_model(f, n=None):
    """SymmetricPolynomial -> {partition: {beta exponent: coeff}}"""
    ans = {}
    if isinstance(f, int):
        assert f == 0
        return ans
    for mon, c in f.items():
        if n is not None:
            assert mon.order() == n, 'wrong number of variables'
        mu = mon.index()
        d = beta_model(c)
        assert d, 'stored zero'
        assert mu not in ans
        ans[mu] = d
    return ans


def beta_model(c):
    if isinstance(c, int):
        return {0: c} if c else {}
    d = {}
    for k, v in model_of(c).items():
        assert len(k) <= 1 and (not k or k[0][0] == 0), 'unexpected variable'
        d[k[0][1] if k else 0] = v
    return d


def sadd(f, g, coeff=None):
    """f + coeff * g for sym models; coeff {beta exp: int}"""
    coeff = {0: 1} if coeff is None else coeff
    ans = {mu: dict(d) for mu, d in f.items()}
    for mu, d in g.items():
        t = ans.setdefault(mu, {})
        for e, v in d.items():
            for ce, cv in coeff.items():
                t[e + ce] = t.get(e + ce, 0) + v * cv
    return {mu: {e: v for e, v in d.items() if v} for mu, d in ans.items() if any(d.values())}


def is_partition(w):
    return all(w[i] >= w[i + 1] for i in range(len(w) - 1))


def table_to_sym(table, beta_of):
    """{weight: count} -> sym model with beta exponent beta_of(degree) and sign sign."""
    ans = {}
    for w, c in table.items():
        if is_partition(w):
            e, s = beta_of(sum(w))
            ans[trim(w)] = {e: c * s}
    return ans


@functools.lru_cache(None)
def distinct_perms(alpha):
    return tuple(sorted(set(itertools.permutations(alpha))))


def expand(f, n):
    """sym model -> full expansion {exponent tuple length n: {beta: coeff}}"""
    ans = {}
    for mu, d in f.items():
        for a in distinct_perms(tuple(mu) + (0,) * (n - len(mu))):
            ans[a] = dict(d)
    return ans


def smul(f, g, n):
    """product of sym models in n variables, by partition exponents only."""
    F, G = expand(f, n), expand(g, n)
    ans = {}
    for a, x in F.items():
        for b, y in G.items():
            c = tuple(i + j for i, j in zip(a, b))
            if not is_partition(c):
                continue
            t = ans.setdefault(trim(c), {})
            for e1, v1 in x.items():
                for e2, v2 in y.items():
                    t[e1 + e2] = t.get(e1 + e2, 0) + v1 * v2
    return {mu: {e: v for e, v in d.items() if v} for mu, d in ans.items() if any(d.values())}


# ------------------------------------------- letter-by-letter set-valued model

def removable(mu, shifted):
    """cells (i, j) whose removal leaves a (strict) partition"""
    ans = []
    for i, a in enumerate(mu):
        nxt = mu[i + 1] if i + 1 < len(mu) else 0
        if a - 1 > nxt or (a - 1 == nxt and (not shifted or nxt == 0)):
            ans.append((i + 1, a + (i if shifted else 0)))
    return ans


def drop(mu, rows):
    return trim(tuple(a - (1 if i + 1 in rows else 0) for i, a in enumerate(mu)))


@functools.lru_cache(None)
def corner_deletions(mu, shifted):
    """all shapes obtained by deleting a set of removable cells"""
    c = removable(mu, shifted)
    ans = []
    for k in range(len(c) + 1):
        for s in itertools.combinations(c, k):
            ans.append(drop(mu, {i for i, j in s}))
    return tuple(ans)


@functools.lru_cache(20000)
def sv_transfer(kind, n, mu, nu, diag=True):
    """{weight: number} of set-valued tableaux of the kinds ss, marked, shifted, one letter at a time."""
    if not contains(mu, nu):
        return {}
    shifted = kind == 'shifted'
    letters = [x for x in range(1, 2 * n + 1) if kind != 'ss' or x % 2 == 0]
    state = {nu: {(): 1}}
    shapes = [lam for lam in subshapes(mu, shifted) if contains(lam, nu)]
    for x in letters:
        new = {}
        for lam, table in state.items():
            for kap in corner_deletions(lam, shifted):
                if not contains(kap, nu):
                    continue
                for big in shapes:
                    if not contains(big, lam):
                        continue
                    strip = cells(big, kap, shifted)
                    if not one_letter_ok(strip, x, shifted, diag):
                        continue
                    t = new.setdefault(big, defaultdict(int))
                    for w, c in table.items():
                        if kind == 'ss' or x % 2:
                            v = w + (len(strip),)
                        else:
                            v = w[:-1] + (w[-1] + len(strip),)
                        t[v] += c
        state = new
    return dict(state.get(mu, {}))


def one_letter_ok(strip, x, shifted, diag):
    if x % 2:
        if shifted and not diag and any(i == j for i, j in strip):
            return False
        return len({i for i, j in strip}) == len(strip)
    return len({j for i, j in strip}) == len(strip)


# --------------------------------------------------------- cases for tableaux

def st_tableau_case(strict, limits, maxsize, maxrows=None, stray=1):
    """(n, mu, nu): limits[n] bounds the number of cells of mu/nu (n = 0.. len-1)."""
    @st.composite
    def build(draw):
        n = draw(st.sampled_from([k for k in range(len(limits)) for _ in range(1 + min(k, 2))]))
        mu, nu = draw(st_skew(maxsize, maxrows, None, strict, limits[n], stray))
        if contains(mu, nu) and sum(mu) - sum(nu) > limits[n]:
            nu = mu
        return n, mu, nu
    return build()


def all_tableau_cases(strict, limits, maxsize):
    shapes = partitions_upto(maxsize, None, None, strict)
    for mu in shapes:
        for nu in shapes:
            if sum(nu) > sum(mu) + 1:
                continue
            if not contains(mu, nu):
                yield 2, mu, nu
                continue
            for n in range(len(limits)):
                if sum(mu) - sum(nu) <= limits[n]:
                    yield n, mu, nu


def boxes_of(t):
    """Tableau -> frozen cell map, read through iteration."""
    return tuple((( i, j), v) for i, j, v in t)


def as_set(result):
    """collection of tableaux -> set of frozen cell maps; fails on repetitions"""
    items = [boxes_of(t) for t in result]
    ans = set(items)
    assert len(ans) == len(items), 'a tableau is listed twice'
    return ans


def model_set(kind, n, mu, nu, setvalued=False, diag=True):
    return {freeze(decode_filling(f)) for f in family(kind, n, mu, nu, setvalued, diag)}


CAP = 8000


def too_many(kind, n, mu, nu, setvalued=False, diag=True, cap=None):
    """number of expected tableaux above the cap (so the case is skipped as trivial)"""
    t = sv_transfer(kind, n, mu, nu, diag) if setvalued else transfer(kind, n, mu, nu, diag)
    return sum(t.values()) > (cap or CAP)


@functools.lru_cache(None)
def count_standard(mu, nu, shifted):
    if mu == nu:
        return 1
    return sum(count_standard(lam, nu, shifted) for lam in (drop(mu, {i}) for i, j in removable(mu, shifted)) if contains(lam, nu))


# ------------------------------------------------ random large marked tableaux

@st.composite
def st_big_setvalued(draw, letters, maxrow, maxrows, shifted=True, primes=True, diag=True, setvalued=True, straight=False):
    """A random (skew) set-valued marked tableau, grown letter by letter, as items of {cell: signed entries}."""
    n = draw(st.sampled_from(letters))
    nu = () if straight else draw(st.sampled_from(partitions_upto(8, maxrows, maxrow, shifted)))
    old = list(nu) + [0] * (maxrows - len(nu))
    m = {}
    for x in range(1, 2 * n + 1):
        if x % 2 and not primes:
            continue
        v = x // 2 if x % 2 == 0 else -(x + 1) // 2
        extra = [0] * maxrows
        if setvalued:
            for i, j in removable(trim(tuple(old)), shifted):
                if (i, j) in m and not (x % 2 and shifted and not diag and i == j) and draw(st.integers(0, 2)) == 0:
                    extra[i - 1] = 1
                    m[(i, j)] = m[(i, j)] + (v,)
        new = list(old)
        for i in range(maxrows):
            off = i if shifted else 0
            hi = maxrow
            if x % 2 == 0:
                if i:
                    hi = min(hi, old[i - 1] - (1 if shifted else 0) - extra[i - 1])
            else:
                hi = min(hi, old[i] + 1 - extra[i])
                if i:
                    hi = min(hi, new[i - 1] - (1 if shifted else 0))
            if shifted and not diag and x % 2 and old[i] == 0:
                hi = 0
            if hi > old[i]:
                top = min(hi, old[i] + 3)
                new[i] = draw(st.integers(old[i], top))
                for j in range(old[i], new[i]):
                    m[(i + 1, off + j + 1)] = (v,)
        old = new
    return n, freeze({c: tuple(sorted(e)) for c, e in m.items()}), trim(tuple(old)), nu


def valid_marked(m, diag=True, shifted=True):
    """semistandardness of {cell: signed entries} and entries without repetition"""
    e = {c: tuple(sorted(enc(x) for x in v)) for c, v in m.items()}
    for (i, j), v in e.items():
        if len(set(v)) < len(v):
            return False
        if shifted and i == j and not diag and any(x % 2 for x in v):
            return False
        if (i, j + 1) in e and not row_marked(v, e[(i, j + 1)]):
            return False
        if (i + 1, j) in e and not col_marked(v, e[(i + 1, j)]):
            return False
    return True
