"""C28: Demazure product and enumeration of words."""
import functools

from harness import law
from hypothesis import strategies as st
import fresh
import permlib as P
from permlib import all_perms, at, inv, mul, st_perm
from permutations import Permutation

RULE = 'Non-trivial: the product is not the group product / the enumeration yields more than one object.'


def W(w):
    return Permutation(*w)


def val(p):
    assert type(p) == Permutation
    return tuple(p.oneline)


@law(st.one_of(st.tuples(st_perm(7, True), st_perm(7, True), st_perm(5, True)), st.tuples(st_perm(10, True), st_perm(10, True), st_perm(5)),
               st.tuples(st_perm(11), st_perm(11), st_perm(6, True))), quick=600, thorough=6000, shards=(2, 3),
     exhaustive=lambda tier: ((u, v, ()) for u in all_perms(3, True) for v in all_perms(3, True)))
def demazure(u, v, w):
    p, q, r = W(u), W(v), W(w)
    pq = p % q
    assert val(pq) == P.demazure(u, v)
    assert pq % r == p % (q % r)
    assert pq.inverse() == q.inverse() % p.inverse()
    assert p % Permutation() == p == Permutation() % p
    for i in range(max(len(u), len(v)) + 1):
        s = Permutation.s_i(i)
        assert p % s == (p if i in p.right_descent_set else p * s)
        assert s % p == (p if i in p.left_descent_set else s * p)
    assert max(len(p), len(q)) <= len(pq) <= len(p) + len(q)
    assert p.right_descent_set <= (q % p).right_descent_set and p.left_descent_set <= pq.left_descent_set
    return 'hecke' if pq != p * q else False


@law(exhaustive=lambda tier: ((n, s) for n in range(8 if tier == 'quick' else 9) for s in (False, True) if n < (6 if s else 9)), quick=0)
def elements(n, signed):
    """Every (signed) permutation of rank at most n exactly once."""
    got = [val(p) for p in Permutation.all(n, signed)]
    assert len(got) == len(set(got)) and set(got) == set(all_perms(n, signed))
    return 'n=%d' % n if n > 1 else False


def all_short(tier):
    for w in all_perms(4, True):
        if P.number_of_words(w) < (300 if tier == 'quick' else 3000):
            yield w,
    for w in all_perms(5):
        yield w,


@law(st.tuples(st.one_of(st_perm(6, True), P.st_short_perm(10, 8), P.st_short_perm(8, 8, True)).filter(lambda w: P.number_of_words(w) < 2000)), quick=250, thorough=800, exhaustive=all_short, shards=(2, 3))
def reduced_words(w):
    p = W(w)
    want = P.reduced_words(w)
    first = list(p.get_reduced_words())
    assert len(first) == len(want) and set(first) == want
    again = list(W(w).reduced_words)
    assert len(again) == len(want) and set(again) == want
    assert p.get_reduced_word() in want
    return 'words' if len(want) > 1 else False


@law(st.tuples(st.lists(st.tuples(st.integers(0, 4), st_perm(5, True).filter(lambda w: P.number_of_words(w) < 200), st.integers(0, 30)),
                        min_size=1, max_size=6).map(tuple), st.booleans()), quick=200, thorough=1500)
def reduced_words_history(steps, pin):
    """Partially consumed or abandoned enumerations in any interleaving."""
    fresh_permutation = fresh.world('permutations').permutations.Permutation

    def W(w):
        return fresh_permutation(*w)

    live = []
    for k, w, amount in steps:
        if pin:
            w = steps[0][1]
        if k < 3 or not live:
            live.append((w, iter(W(w).get_reduced_words()), []))
        v, it, seen = live[amount % len(live)]
        for _ in range(amount):
            x = next(it, None)
            if x is None:
                break
            seen.append(x)
    for v, it, seen in reversed(live):
        got = list(W(v).get_reduced_words())     # while the others are unfinished
        assert len(got) == len(set(got)) and set(got) == P.reduced_words(v)
    for v, it, seen in live:
        seen.extend(it)
        assert len(seen) == len(set(seen)) and set(seen) == P.reduced_words(v)
        got = list(W(v).get_reduced_words())
        assert len(got) == len(set(got)) and set(got) == P.reduced_words(v)
    return 'interleaved' if len(live) > 1 else False


# ----------------------------------------------------- Hecke word levels

def parts_needed(word, good):
    """least number of nonempty consecutive good factors"""
    best = [0] + [None] * len(word)
    for j in range(1, len(word) + 1):
        best[j] = min(best[i] for i in range(j) if good(word[i:j])) + 1
    return best[-1]


def decreasing(v):
    return all(v[i] > v[i + 1] for i in range(len(v) - 1))


def increasing(v):
    return all(v[i] < v[i + 1] for i in range(len(v) - 1))


def valley(v):
    return any(decreasing(v[:i]) and increasing(v[i:]) for i in range(len(v) + 1))


@functools.lru_cache(None)
def level(kind, n, bound, hecke, k):
    """(element, word) pairs of length k; element reached by the Hecke action"""
    if k == 0:
        return frozenset({(P.minfpf(n) if kind == 'symplectic' else (), ())})
    ans = set()
    for z, w in level(kind, n, bound, hecke, k - 1):
        for i in range(0 if kind == 'orthogonal' else 1, n):
            v = w + (i,)
            if kind == 'hecke':
                y = P.dem(z, i)
            elif kind == 'orthogonal':
                y = P.conj_dem(z, i)
            else:
                if at(z, i) == i + 1:
                    continue
                y = z if at(z, i) > at(z, i + 1) else mul(mul(P.s(i), z), P.s(i))
            if not hecke and y == z:
                continue
            if bound is not None and parts_needed(v, valley if kind == 'orthogonal' else decreasing) > bound:
                continue
            ans.add((y, v))
    return frozenset(ans)


def levels_of(kind, n, lb, bound, hecke, Permutation=Permutation):
    if kind == 'hecke':
        return Permutation.hecke_levels(n, lb, bound)
    if kind == 'symplectic':
        return Permutation.symplectic_hecke_levels(n, lb, bound, hecke)
    return Permutation.involution_hecke_levels(n, lb, bound, hecke)


def words_of(kind, n, lb, bound):
    if kind == 'hecke':
        return Permutation.hecke_words(n, lb, bound)
    if kind == 'symplectic':
        return Permutation.symplectic_hecke_words(n, lb, bound)
    return Permutation.involution_hecke_words(n, lb, bound)


def read(lev):
    got = [(val(p), tuple(w)) for p, w in lev]
    assert len(got) == len(set(got))
    return set(got)


LIMIT = {'hecke': {0: 3, 1: 6, 2: 6, 3: 7, 4: 5, 5: 4, 6: 4}, 'symplectic': {0: 3, 2: 4, 4: 5, 6: 4, 8: 3}, 'orthogonal': {0: 3, 1: 5, 2: 6, 3: 5, 4: 4, 5: 4}}


@st.composite
def st_config(draw, long=True):
    kind = draw(st.sampled_from(sorted(LIMIT)))
    n = draw(st.sampled_from(sorted(LIMIT[kind])))
    bound = draw(st.one_of(st.none(), st.integers(0 if kind == 'orthogonal' else 1, 4)))
    hecke = True if kind == 'hecke' else draw(st.booleans())
    return kind, n, draw(st.integers(0, LIMIT[kind][n])), bound, hecke


@law(st_config(), quick=250, thorough=1500, shards=(2, 3), exhaustive=lambda tier: (
    (kind, n, min(LIMIT[kind][n], 4) if tier == 'quick' else LIMIT[kind][n], bound, hecke)
    for kind in LIMIT for n in LIMIT[kind] for bound in (None, 1, 2, 3) for hecke in ((True,) if kind == 'hecke' else (True, False))))
def word_levels(kind, n, lb, bound, hecke):
    """The level enumerations list exactly the words, once each, level by level."""
    want = [level(kind, n, bound, hecke, k) for k in range(lb + 1)]
    while want and not want[-1]:
        want.pop()
    got = [read(x) for x in levels_of(kind, n, lb, bound, hecke)]
    assert got == want, (len(got), len(want))
    if hecke:
        flat = list(words_of(kind, n, lb, bound))
        assert len(flat) == sum(map(len, want)) and set(flat) == {w for x in want for _, w in x}
    return kind if len(want) > 2 else False


def finite(tier):
    quick = tier == 'quick'
    for kind in ('hecke', 'symplectic', 'orthogonal'):
        for n in (0, 2, 4, 6, 8) if kind == 'symplectic' else range(7):
            for bound in range(0 if kind == 'orthogonal' else 1, 5):
                size = (2 * n if kind == 'orthogonal' else n - 1) * bound
                if size <= (10 if quick else 12):
                    for hecke in (True,) if kind == 'hecke' else (True, False):
                        yield kind, n, bound, hecke


@law(exhaustive=finite, quick=0, shards=(2, 3))
def no_length_bound(kind, n, bound, hecke):
    """Words with few runs are finite in number: without a length bound all of them are listed."""
    want, k = [], 0
    while not k or want[-1]:
        want.append(level(kind, n, bound, hecke, k))
        k += 1
    got = [read(x) for x in levels_of(kind, n, None, bound, hecke)]
    assert got == want[:-1], (len(got), len(want))
    if hecke:
        flat = list(words_of(kind, n, None, bound))
        assert len(flat) == sum(map(len, want)) and set(flat) == {w for x in want for _, w in x}
    for z in sorted({z for x in want for z, _ in x})[:4]:
        fn = {'hecke': Permutation.get_hecke_words, 'symplectic': Permutation.get_symplectic_hecke_words,
              'orthogonal': Permutation.get_involution_hecke_words}[kind]
        if hecke and len(z) == n:
            got = list(fn(W(z), None, bound))
            assert len(got) == len(set(got)) and set(got) == {w for x in want for y, w in x if y == z}
    return kind if len(want) > 2 else False


@law(st.tuples(st.sampled_from(('hecke', 'symplectic', 'orthogonal')), st.integers(0, 2000), st.integers(0, 5),
               st.one_of(st.none(), st.integers(1, 3))), quick=250, thorough=1500, shards=(1, 2))
def words_of_element(kind, index, lb, bound):
    """get_*_hecke_words lists the words of one element."""
    if kind == 'hecke':
        pool = all_perms(4)
    elif kind == 'symplectic':
        pool = P.all_fpf(4) + P.all_fpf(6)
    else:
        pool = P.all_involutions(3, True)
    z = pool[index % len(pool)]
    n = len(z)
    lb = min(lb, LIMIT[kind][n] if n in LIMIT[kind] else 4)
    fn = {'hecke': Permutation.get_hecke_words, 'symplectic': Permutation.get_symplectic_hecke_words,
          'orthogonal': Permutation.get_involution_hecke_words}[kind]
    got = list(fn(W(z), lb, bound))
    want = {w for k in range(lb + 1) for y, w in level(kind, n, bound, True, k) if y == z}
    assert len(got) == len(want) and set(got) == want
    return kind if len(want) > 1 else False


STEP = st.tuples(st.integers(0, 3), st_config(), st.integers(0, 5), st.integers(0, 5))


@law(st.tuples(st.lists(STEP, min_size=3, max_size=14).map(tuple), st.integers(0, 3)), quick=250, thorough=2000, shards=(3, 4))
def levels_history(steps, focus):
    """Level enumerations advanced, abandoned and restarted in any interleaving, with any bounds."""
    fresh_permutation = fresh.world('permutations').permutations.Permutation

    def run(config):
        return levels_of(*config, fresh_permutation)

    def get(lev):
        got = [(tuple(p.oneline), tuple(w)) for p, w in lev]
        assert len(got) == len(set(got))
        return set(got)

    live = []
    interleaved = False
    pin = steps[0][1]
    for k, config, which, amount in steps:
        if k == 0 or not live:
            if focus:
                # same enumeration, other length bound
                config = pin[:2] + (max(config[2], LIMIT[pin[0]][pin[1]] - 1),) + pin[3:]
                config = config[:2] + (min(config[2], LIMIT[pin[0]][pin[1]]),) + config[3:]
            live.append([config, run(config), 0])
        else:
            cur = live[which % len(live)]
            interleaved = interleaved or len(live) > 1
            kind, n, lb, bound, hecke = cur[0]
            for _ in range(amount):
                x = next(cur[1], None)
                want = level(kind, n, bound, hecke, cur[2]) if cur[2] <= lb else frozenset()
                assert (get(x) if x is not None else set()) == want, (cur[0], cur[2])
                if x is None:
                    break
                cur[2] += 1
    for (kind, n, lb, bound, hecke), it, pos in live:
        for x in it:
            assert get(x) == level(kind, n, bound, hecke, pos)
            pos += 1
        assert pos == lb + 1 or not level(kind, n, bound, hecke, pos)
        again = [get(x) for x in run((kind, n, lb, bound, hecke))]
        assert again == [level(kind, n, bound, hecke, k) for k in range(pos)]
    return 'interleaved' if interleaved else False
