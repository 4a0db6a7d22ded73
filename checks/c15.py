"""C15: valued-set tableaux and their transitions."""
import itertools

from harness import law
from hypothesis import strategies as st
from lib import boxes_of, cells, contains, family, freeze, decode_filling, partitions_upto, st_partition, subshapes, too_many
from tableaux import Tableau
from vst import ValuedSetTableau

RULE = 'Non-trivial: the transition moves the tableau, or (generator) more than one tableau is expected.'


def key(v):
    return boxes_of(v.tableau), boxes_of(v.grouping)


def joins(m, c):
    """may the cell continue its group?"""
    i, j = c
    x = m[c]
    return m.get((i, j + 1)) == x if x > 0 else m.get((i - 1, j)) == x


def model_all(n, mu, nu, diag):
    ans = set()
    for f in family('shifted', n, mu, nu, False, diag):
        m = {c: v[0] for c, v in decode_filling(f).items()}
        free = [c for c in sorted(m) if joins(m, c)]
        for bits in itertools.product((0, 1), repeat=len(free)):
            g = dict.fromkeys(m, 0)
            g.update(zip(free, bits))
            ans.add((freeze({c: (x,) for c, x in m.items()}), freeze({c: (x,) for c, x in g.items()})))
    return ans


def weight_of(t, g, n):
    w = [0] * n
    for (c, v), (_, b) in zip(t, g):
        if not b[0]:
            w[abs(v[0]) - 1] += 1
    return tuple(w)


def st_shape(size, limits):
    @st.composite
    def build(draw):
        n = draw(st.sampled_from(range(1, len(limits))))
        mu = draw(st_partition(size, None, None, True))
        nu = draw(st.sampled_from([x for x in subshapes(mu, True) if sum(mu) - sum(x) <= limits[n]]))
        return n, mu, nu, draw(st.booleans())
    return build()


def exh(tier):
    top = 7 if tier == 'quick' else 8
    for mu in partitions_upto(top, None, None, True):
        for nu in subshapes(mu, True):
            for n, most in ((1, 9), (2, 7 if tier == 'quick' else 8), (3, 5), (4, 3)):
                if sum(mu) - sum(nu) <= most:
                    yield n, mu, nu, True
                    yield n, mu, nu, False


@law(lambda tier: st_shape(16, (0, 8, 6, 4, 3)), quick=200, thorough=2500, exhaustive=exh, shards=(2, 3))
def generator(n, mu, nu, diag):
    if too_many('shifted', n, mu, nu, False, diag, 1500):
        return False
    got = [key(v) for v in ValuedSetTableau.all(n, mu, nu, diag)]
    assert len(set(got)) == len(got), 'listed twice'
    want = model_all(n, mu, nu, diag)
    assert set(got) == want, ('missing', sorted(want - set(got))[:1], 'extra', sorted(set(got) - want)[:1])
    for v in itertools.islice(ValuedSetTableau.all(n, mu, nu, diag), 60):
        t, g = key(v)
        assert tuple(v.weight(n)) == weight_of(t, g, n)
        assert v.is_semistandard()
        assert v == ValuedSetTableau(Tableau(dict(t)), Tableau(dict(g))) and hash(v) == hash(ValuedSetTableau(dict(t), dict(g)))
        assert v.diagonal_primes() == sum(1 for (i, j), x in t if i == j and x[0] < 0)
        text = repr(v)
        assert all(str(abs(x[0])) in text for c, x in t)
    return 'generator' if len(want) > 1 else False


def random_vst(draw, size, limits, weights=(2, 2, 2, 3, 3, 4)):
    n = draw(st.sampled_from(weights))
    mu = draw(st_partition(size, None, None, True))
    subs = [x for x in subshapes(mu, True) if sum(mu) - sum(x) <= limits[n]]
    nu = draw(st.sampled_from(subs))
    return n, mu, nu


@st.composite
def st_vst(draw, size, limits, letters):
    """A random valued-set tableau, built cell by cell along the shape, so that large shapes are cheap."""
    n = draw(st.sampled_from(letters))
    mu = draw(st_partition(size, None, None, True))
    nu = draw(st.sampled_from([x for x in subshapes(mu, True) if sum(mu) - sum(x) <= limits]))
    diag = draw(st.booleans())
    # peel strips of 1', 1, 2', 2, ... starting from nu
    shape = list(nu) + [0] * (len(mu) - len(nu))
    m = {}
    for x in range(1, 2 * n + 1):
        last = x >= 2 * n - 1
        old = list(shape)
        for i in range(len(mu)):
            # candidates for the new end of row i
            above = old[i - 1] if i else None
            hi = mu[i]
            if x % 2 == 0:
                # horizontal strip: stay left of the old end of the row below (row i-1), shifted
                if i:
                    hi = min(hi, old[i - 1] - 1)
            else:
                hi = min(hi, old[i] + 1)
                if i:
                    hi = min(hi, shape[i - 1] - 1)
            if hi > old[i]:
                lo = old[i]
                new = hi if last else draw(st.integers(lo, hi))
                if x % 2 and not diag and old[i] == 0 and new > 0:
                    new = 0
                shape[i] = new
                for j in range(old[i], new):
                    m[(i + 1, i + j + 1)] = (x + 1) // 2 * (-1 if x % 2 else 1)
    free = [c for c in sorted(m) if joins(m, c)]
    g = dict.fromkeys(m, 0)
    for c in free:
        g[c] = draw(st.integers(0, 1))
    return freeze(m), freeze(g), n, diag


def valid(m, diag):
    for (i, j), x in m.items():
        e = 2 * x if x > 0 else -2 * x - 1
        if i == j and x < 0 and not diag:
            return False
        for c, bad in (((i, j + 1), 1), ((i + 1, j), 0)):
            if c in m:
                y = m[c]
                f = 2 * y if y > 0 else -2 * y - 1
                if f < e or (f == e and e % 2 == bad):
                    return False
    return True


def check_transition(m, g, n, i):
    v = ValuedSetTableau(dict(m), dict(g))
    before = key(v)
    w = weight_of(before[0], before[1], n)
    u = v.transition(i)
    assert key(v) == before, 'argument changed'
    t, h = key(u)
    new = {c: x[0] for c, x in t}
    old = {c: x[0] for c, x in before[0]}
    flags = {c: x[0] for c, x in h}
    assert set(new) == set(old) == set(flags), 'shape changed'
    assert valid(new, True), ('not semistandard', t)
    assert all(flags[c] in (0, 1) for c in flags)
    assert all(joins(new, c) for c in flags if flags[c]), 'group does not join'
    expected = list(w)
    expected[i - 1], expected[i] = w[i], w[i - 1]
    assert weight_of(t, h, n) == tuple(expected), ('weight', w, weight_of(t, h, n))
    assert tuple(u.weight(n)) == tuple(expected)
    for c in old:
        if abs(old[c]) not in (i, i + 1):
            assert new[c] == old[c] and flags[c] == dict(before[1])[c][0], ('other letters', c)
        else:
            assert abs(new[c]) in (i, i + 1)
    dp = lambda s: sum(1 for c in s if c[0] == c[1] and s[c] < 0)
    assert dp(new) == dp(old), 'diagonal primes'
    assert key(u.transition(i)) == before, 'not an involution'
    f = v.forward_transition(i)
    assert key(f.backward_transition(i)) == before, 'forward then backward'
    mid, _ = f.middle_transition(i)
    back, _ = mid.middle_transition(i)
    assert key(back) == key(f), 'middle twice'
    return key(u) != before


@law(lambda tier: st.tuples(st.one_of(st_vst(18, 14, (2,)), st_vst(24, 20, (2, 3)), st_vst(18, 12, (3, 4))), st.integers(0, 9), st.sampled_from((0, 0, 0, 1, 2, 3, 5, 9))),
     quick=2500, thorough=25000, shards=(4, 8), weight=3)
def transitions(case, i, shift):
    m, g, n, diag = case
    m, g = dict(m), dict(g)
    if not valid(m, diag):
        return False
    i = 1 + i % (n - 1) + shift
    n += shift
    m = {c: x + shift if x > 0 else x - shift for c, x in m.items()}
    moved = check_transition(freeze(m), freeze(g), n, i)
    return 'n=%d i=%d cells=%s' % (n, i, '>9' if len(m) > 9 else '<=9') if moved else False


def exh_transition(tier):
    top = 6 if tier == "quick" else 8
    for mu in partitions_upto(top + 1, None, None, True):
        for nu in subshapes(mu, True):
            for n, most in ((2, top), (3, top - 1 if tier == 'quick' else top)):
                if sum(mu) - sum(nu) <= most:
                    yield n, mu, nu


@law(exhaustive=exh_transition, quick=0, thorough=0, shards=(4, 8), weight=2)
def all_transitions(n, mu, nu):
    count = 0
    for t, g in sorted(model_all(n, mu, nu, True)):
        for i in range(1, n):
            count += bool(check_transition(freeze({c: x[0] for c, x in t}), freeze({c: x[0] for c, x in g}), n, i))
    return 'shape' if count else False


def exh_intermediate(tier):
    top, most = (6, 5) if tier == 'quick' else (8, 7)
    for mu in partitions_upto(top, None, None, True):
        for nu in subshapes(mu, True):
            if sum(mu) - sum(nu) <= most:
                yield mu, nu


@law(exhaustive=exh_intermediate, quick=0, thorough=0, shards=(2, 4))
def intermediate(mu, nu):
    """For two letters, forward transitions reach exactly the intermediate tableaux, backward ones return."""
    start = {key(v): v for v in ValuedSetTableau.all(2, mu, nu, True)}
    listed = [key(v) for v in ValuedSetTableau.all_interstandard(mu, nu)]
    images = {}
    for k, v in start.items():
        f = v.forward_transition(1)
        assert f.is_interstandard()
        assert key(f) not in images
        images[key(f)] = k
        mid, _ = f.middle_transition(1)
        assert mid.is_interstandard()
        assert key(f.backward_transition(1)) == k
    assert len(set(listed)) == len(listed) and set(listed) == set(images)
    cs = sorted(cells(mu, nu, True))
    if len(cs) <= 4:
        for vals in itertools.product((-2, -1, 1, 2), repeat=len(cs)):
            m = dict(zip(cs, vals))
            free = [c for c in cs if joins(m, c)]
            for bits in itertools.product((0, 1), repeat=len(free)):
                g = dict.fromkeys(cs, 0)
                g.update(zip(free, bits))
                v = ValuedSetTableau(dict(m), dict(g))
                assert v.is_interstandard() == (key(v) in images)
                assert v.is_semistandard() == valid(m, True)
    return 'shape' if len(start) > 1 else False


@st.composite
def st_wide_shape(draw, most):
    mu = tuple(sorted(draw(st.sets(st.integers(1, 9), min_size=1, max_size=4)), reverse=True))
    nu, free = [], most
    for i in reversed(range(len(mu))):
        low = nu[0] + 1 if nu and nu[0] else 0
        take = draw(st.integers(0, max(0, min(free, mu[i] - low))))
        nu.insert(0, mu[i] - take)
        free -= take
    return mu, tuple(a for a in nu if a)


@law(lambda tier: st_wide_shape(6 if tier == 'quick' else 7), quick=150, thorough=500, shards=(1, 4))
def intermediate_larger(mu, nu):
    if any(a <= b for a, b in zip(nu, nu[1:])) or not contains(mu, nu) or sum(mu) - sum(nu) > 7:
        return False
    return intermediate(mu, nu)


def groups_of(m, g):
    """maximal chains of cells, first to last: unprimed ones run right, primed ones run down (row index falling)"""
    inner = {}
    for c in m:
        if g[c]:
            inner[c] = (c[0], c[1] + 1) if m[c] > 0 else (c[0] - 1, c[1])
    targets = set(inner.values())
    ans = []
    for c in sorted(m):
        if c not in targets:
            chain = [c]
            while chain[-1] in inner:
                chain.append(inner[chain[-1]])
            ans.append(chain)
    return ans


@law(lambda tier: st.one_of(st_vst(14, 10, (1, 2, 3)), st_vst(16, 14, (3, 4)), st_vst(24, 16, (4, 5))), quick=1500, thorough=6000, shards=(2, 3))
def predicates(m, g, n, diag):
    """Group structure: starts, ends, singletons, primed groups and the weight they define."""
    m = {c: x[0] if isinstance(x, tuple) else x for c, x in dict(m).items()}
    g = dict(g)
    v = ValuedSetTableau(dict(m), dict(g))
    chains = groups_of(m, g)
    assert sorted(c for ch in chains for c in ch) == sorted(m)
    ends = {ch[-1] for ch in chains}
    starts = {ch[0] for ch in chains}
    single = [ch[0] for ch in chains if len(ch) == 1]
    for i in range(1, 9):
        for j in range(1, 9):
            c = (i, j)
            assert bool(v.is_group_end(i, j)) == (c in ends) and bool(v.is_group_start(i, j)) == (c in starts)
            assert bool(v.is_singleton(i, j)) == (c in single)
    index = {c: k for k, ch in enumerate(chains) for c in ch}
    for c in m:
        for d in m:
            if abs(c[0] - d[0]) + abs(c[1] - d[1]) == 1:
                assert bool(v.in_same_group(*c, *d)) == (index[c] == index[d])
    for args in ((), (1,), (2,), (1, 2), (-1,)):
        vals = {abs(a) for a in args} or set(range(1, n + 1))
        assert sorted(v.singletons(*args)) == sorted(c for c in single if abs(m[c]) in vals)
        assert v.diagonal_singletons(*args) == sorted(i for i, j in single if i == j and abs(m[i, j]) in vals)
        assert v.primed_groups(*args) == sum(1 for ch in chains if m[ch[0]] < 0 and abs(m[ch[0]]) in vals)
        if args:
            assert v.primed_diagonal_cells(*args) == sorted(i for i, j in m if i == j and m[i, j] < 0 and abs(m[i, j]) in vals)
    weight = [0] * n
    for ch in chains:
        weight[abs(m[ch[0]]) - 1] += 1
    assert tuple(v.weight(n)) == tuple(weight)
    assert v.is_highest_weight() == all(g[c] == 0 for c in m)
    assert v.diagonal_primes() == sum(1 for i, j in m if i == j and m[i, j] < 0)
    # a singleton may always stand alone, so its prime can be removed
    for u, where in ((v.unprime(), set(single)), (v.unprime_diagonal(), {c for c in single if c[0] == c[1]})):
        t, h = key(u)
        assert dict(t) == {c: (abs(x) if c in where else x,) for c, x in m.items()}
        assert dict(h) == {c: (x,) for c, x in g.items()}
    assert key(v) == (freeze({c: (x,) for c, x in m.items()}), freeze({c: (x,) for c, x in g.items()}))
    return 'n=%d' % n if len(chains) < len(m) and len(m) > 3 else False
