"""C13: KOG and KLG tableaux, their counts, and the one-letter co-Pieri tables."""
import itertools
from collections import Counter

from harness import law
from hypothesis import strategies as st
from lib import as_set, boxes_of, cells, contains, corner_deletions, dec, decode_filling, family, freeze, partitions_upto, st_partition, subshapes, trim
from tableaux import Tableau

RULE = 'Non-trivial: at least two tableaux occur.'


def rim_shapes(mu, bound):
    """strict nu containing mu whose added cells have no two on a diagonal, at most bound of them in row one"""
    ans = []

    def rec(nu, i):
        top = len(mu) + 1
        if i > top:
            ans.append(trim(nu))
            return
        old = mu[i - 1] if i <= len(mu) else 0
        limit = old + bound if i == 1 else nu[i - 2] - 1
        for a in range(old, max(limit, old) + 1):
            if i > 1 and a >= nu[i - 2] and a > 0:
                continue
            rec(nu + (a,), i + 1)
    rec((), 1)
    good = []
    for nu in ans:
        c = cells(nu, mu, True)
        if len({j - i for i, j in c}) == len(c):
            good.append(nu)
    return good


def labelings(rim, letters, ok, used):
    """assignments of letters to the rim cells; ok(cell, letter, partial) decides"""
    rim = sorted(rim, key=lambda c: (c[1] - c[0]))
    cur = {}

    def rec(k):
        if k == len(rim):
            if used(cur.values()):
                yield dict(cur)
            return
        for x in letters:
            if ok(rim[k], x, cur):
                cur[rim[k]] = x
                yield from rec(k + 1)
                del cur[rim[k]]
    yield from rec(0)


def increasing(c, x, cur):
    i, j = c
    for (k, l), y in cur.items():
        if k == i and ((l < j and y >= x) or (l > j and y <= x)):
            return False
        if l == j and ((k < i and y >= x) or (k > i and y <= x)):
            return False
    return True


def kog_model(rim, p):
    def ok(c, x, cur):
        if not increasing(c, x, cur):
            return False
        # cells come from south-west to north-east, so the cells already filled include all those south-west of c
        sw = [y for (k, l), y in cur.items() if k >= c[0] and l <= c[1]]
        return all(x <= y for y in sw) or all(x >= y for y in sw)
    for f in labelings(rim, range(1, p + 1), ok, lambda v: set(v) == set(range(1, p + 1))):
        yield freeze({c: (x,) for c, x in f.items()})


def klg_model(rim, p):
    def ok(c, x, cur):
        if x % 2 and c[0] == c[1]:
            return False
        if not increasing(c, x, cur):
            return False
        sw = [y for (k, l), y in cur.items() if k >= c[0] and l <= c[1]]
        return all(x <= y for y in sw) if x % 2 else all(x >= y for y in sw)
    for f in labelings(rim, range(1, 2 * p + 1), ok, lambda v: {(x + 1) // 2 for x in v} == set(range(1, p + 1))):
        yield freeze({c: (dec(x),) for c, x in f.items()})


def st_case(name):
    def f(tier):
        q = tier == 'quick'
        big = st.tuples(st.integers(0, 3 if q else 4), st_partition(16 if q else 22, 3 if q else 4, None, True))
        wide = st.tuples(st.integers(0, (5 if q else 6) - FIRST[name]), st_partition(12 if q else 16, 2, None, True))
        return st.one_of(big, wide)
    return f


def exh(name):
    def f(tier):
        for mu in partitions_upto(6 if tier == 'quick' else 8, None, None, True):
            for p in range((6 if tier == 'quick' else 7) - 2 * FIRST[name]):
                yield p, mu
    return f


MODELS = {'KOG': kog_model, 'KLG': klg_model}
FIRST = {'KOG': 0, 'KLG': 1}


def check(name, p, mu):
    model = {}
    shapes = rim_shapes(mu, p + FIRST[name] + 1)
    for nu in shapes:
        rim = cells(nu, mu, True)
        tabs = list(MODELS[name](rim, p))
        if tabs:
            model[nu] = tabs
    gen = {'KOG': (Tableau.KOG, Tableau.KOG_by_shape, Tableau.KOG_counts_by_shape, Tableau.KOG_counts),
           'KLG': (Tableau.KLG, Tableau.KLG_by_shape, Tableau.KLG_counts_by_shape, Tableau.KLG_counts)}[name]
    have = as_set(gen[0](p, mu))
    want = {t for tabs in model.values() for t in tabs}
    assert have == want, (name, 'missing', sorted(want - have)[:2], 'extra', sorted(have - want)[:2])
    by_shape = gen[1](p, mu)
    assert {nu: as_set(t) for nu, t in by_shape.items() if t} == {nu: set(t) for nu, t in model.items()}
    counts = {nu: c for nu, c in gen[2](p, mu).items() if c}
    assert counts == {nu: len(t) for nu, t in model.items()}, (name, counts)
    for nu in shapes:
        assert gen[3](nu, mu, p) == len(model.get(nu, ())), (nu, p)
    return name + str(p) if len(want) > 1 else False


@law(st_case('KOG'), quick=120, thorough=500, exhaustive=exh('KOG'), shards=(2, 4))
def kog(p, mu):
    return check('KOG', p, mu)


@law(st_case('KLG'), quick=80, thorough=400, exhaustive=exh('KLG'), shards=(3, 4))
def klg(p, mu):
    return check('KLG', p, mu)


@st.composite
def st_pair(draw, size):
    mu = draw(st_partition(size, 5, None, True))
    # a random rim on mu, chosen row by row from the bottom
    p = draw(st.integers(0, 7))
    top = draw(st.integers(0, p + 1))
    nu = []
    prev = None
    rows = mu + (0,)
    for i, a in enumerate(rows):
        if i == 0:
            nu.append(a + top)
        else:
            # the new part may reach mu_{i-1} (touching below the previous row's first added cell)
            hi = max(a, min(rows[i - 1], nu[i - 1] - 1))
            nu.append(draw(st.integers(a, hi)))
    return trim(nu), mu, p


@law(lambda tier: st_pair(24 if tier == 'quick' else 30), quick=400, thorough=3000, shards=(2, 3))
def counts_of_one_rim(nu, mu, p):
    """Counts of larger single rims."""
    rim = cells(nu, mu, True)
    if not contains(nu, mu) or any(nu[i] <= nu[i + 1] for i in range(len(nu) - 1)) or len({j - i for i, j in rim}) < len(rim):
        return False
    if len(rim) > 8 or p > 6:
        return False
    a = sum(1 for _ in kog_model(rim, p))
    assert Tableau.KOG_counts(nu, mu, p) == a
    b = sum(1 for _ in klg_model(rim, p))
    assert Tableau.KLG_counts(nu, mu, p) == b
    return 'p=%d rim=%d' % (p, len(rim)) if a + b > 1 else False


def st_copieri(tier):
    @st.composite
    def build(draw):
        nu = draw(st_partition(14 if tier == 'quick' else 18, None, None, True))
        subs = [x for x in subshapes(nu, True) if sum(nu) - sum(x) <= 7]
        lam = draw(st.sampled_from(subs))
        if draw(st.integers(0, 9)) == 0:
            lam = draw(st_partition(sum(nu) + 2, None, None, True))
        return nu, lam, draw(st.booleans())
    return build()


def exh_copieri(tier):
    top = 7 if tier == 'quick' else 9
    for nu in partitions_upto(top, None, None, True):
        for lam in partitions_upto(top, None, None, True):
            for d in (True, False):
                yield nu, lam, d


@law(st_copieri, quick=500, thorough=4000, exhaustive=exh_copieri, shards=(1, 3))
def copieri(nu, lam, diag):
    want = {}
    for kap in corner_deletions(lam, True):
        for f in family('shifted', 1, nu, kap, True, diag):
            r = sum(len(e) for e in f.values())
            want.setdefault(r, Counter())[freeze(decode_filling(f))] += 1
    got = Tableau.shifted_setvalued_copieri(nu, lam, diag)
    have = {r: Counter(boxes_of(t) for t in tabs) for r, tabs in got.items() if tabs}
    assert have == want, (have, want)
    return 'copieri' if sum(len(v) for v in want.values()) > 1 else False
