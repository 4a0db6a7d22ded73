"""C08: growth diagrams."""
import bisect

from harness import law
from hypothesis import strategies as st
from insertion import InsertionAlgorithm
from lib import contains, trim
from partitions import Partition
from tableaux import Tableau

RULE = 'Non-trivial: at least three nonzero entries (letters).'


def rsk_rows(word):
    rows = []
    for x in word:
        for row in rows:
            k = bisect.bisect_right(row, x)
            if k == len(row):
                row.append(x)
                break
            row[k], x = x, row[k]
        else:
            rows.append([x])
    return rows


def rsk_shape(word):
    return tuple(len(r) for r in rsk_rows(word))


def biword(d, i, j):
    """Second row of the two line array of the matrix restricted to rows <= i, columns <= j."""
    return [b for (a, b) in sorted(d) if a <= i and b <= j for _ in range(d[(a, b)])]


@st.composite
def st_matrix(draw, zero_one=False):
    top = draw(st.sampled_from([5, 5, 5, 8]))
    n, m = draw(st.integers(0, top)), draw(st.integers(0, top))
    entries = draw(st.sampled_from([[0, 0, 0, 1, 1, 2, 3], [0, 0, 0, 0, 0, 1, 9], [0, 1, 2, 3, 4, 5]]))
    d = {}
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            v = draw(st.sampled_from([0, 1])) if zero_one else draw(st.sampled_from(entries))
            if v:
                d[(i, j)] = v
    return tuple(sorted(d.items())), n, m


@law(st_matrix(), quick=400, thorough=5000)
def rsk(items, n, m):
    """Every entry of the diagram is the RSK shape of the matrix restricted to the rectangle below it."""
    d = dict(items)
    g = Partition.growth_diagram(dict(d), m, n)
    assert len(g) == n + 1 and all(len(r) == m + 1 for r in g)
    for i in range(n + 1):
        for j in range(m + 1):
            assert tuple(g[i][j]) == rsk_shape(biword(d, i, j)), (i, j)
    nn, mm = max([0] + [i for i, j in d]), max([0] + [j for i, j in d])
    assert Partition.growth_diagram(dict(d)) == [r[:mm + 1] for r in g[:nn + 1]]
    t = Partition.growth_diagram({(j, i): v for (i, j), v in d.items()}, n, m)
    assert all(t[j][i] == g[i][j] for i in range(n + 1) for j in range(m + 1)), 'transpose'
    for i in range(1, n + 1):
        for j in range(m + 1):
            assert strip(g[i][j], g[i - 1][j])
    for i in range(n + 1):
        for j in range(1, m + 1):
            assert strip(g[i][j], g[i][j - 1])
    return 'matrix' if len(d) > 2 else False


def strip(mu, nu):
    return contains(mu, nu) and all(mu[i] <= nu[i - 1] for i in range(1, len(mu)) if i - 1 < len(nu)) and len(mu) <= len(nu) + 1


@law(st.tuples(st.sets(st.tuples(st.integers(1, 9), st.integers(1, 9)), max_size=20).map(lambda s: tuple(sorted(s)))), quick=300, thorough=3000)
def zero_one_sets(positions):
    """A set of positions means the 0/1 matrix with ones there."""
    d = {p: 1 for p in positions}
    assert Partition.growth_diagram(set(positions)) == Partition.growth_diagram(d)
    if len({i for i, j in d}) == len(d) == len({j for i, j in d}):
        # a partial permutation: boundary shapes are those of the insertion and recording tableaux
        g = Partition.growth_diagram(d)
        rows = rsk_rows(biword(d, 99, 99))
        for j in range(len(g[0])):
            assert g[-1][j] == trim(tuple(sum(1 for x in r if x <= j) for r in rows))
        return 'permutation' if len(d) > 2 else False
    return 'set' if len(d) > 2 else False


def check_shifted(word):
    before = tuple(word)
    g, e, c, r = Partition.shifted_growth_diagram(word)
    assert tuple(word) == before
    got = Tableau.from_shifted_growth_diagram(g, e, c)
    want = InsertionAlgorithm.orthogonal_hecke(tuple(word))
    assert got[0] == want[0], ('insertion tableau', got[0], want[0])
    assert got[1] == want[1], ('recording tableau', got[1], want[1])
    assert len(g) == max(word, default=0) + 1 and all(len(x) == len(word) + 1 for x in g)
    for row in g:
        for mu in row:
            assert all(mu[i] > mu[i + 1] for i in range(len(mu) - 1))
    for i in range(len(g)):
        # row i only depends on the letters at most i
        for j in range(len(word)):
            assert contains(g[i][j + 1], g[i][j])
            assert sum(g[i][j + 1]) - sum(g[i][j]) <= 1
        if i:
            assert all(contains(x, y) for x, y in zip(g[i], g[i - 1]))


def words(tier):
    import itertools
    top = 6 if tier == 'quick' else 7
    for n in range(top):
        for w in itertools.product(range(1, 4 if n > 4 else 5), repeat=n):
            yield (w,)


WORD = st.one_of(st.lists(st.integers(1, 7), max_size=12), st.lists(st.integers(1, 12), min_size=8, max_size=26), st.permutations(range(1, 9)),
                 st.lists(st.integers(1, 4), min_size=8, max_size=22)).map(tuple)


@law(st.tuples(WORD), quick=500, thorough=6000, exhaustive=words, shards=(2, 4))
def shifted_growth_is_insertion(word):
    check_shifted(word)
    return 'word' if len(word) > 2 else False


@law(st.tuples(st.one_of(st.lists(st.integers(1, 5), max_size=9).map(tuple), WORD), st.integers(0, 25)), quick=200, thorough=2000)
def shifted_growth_is_local(word, k):
    """Dropping later letters, or letters above a bound, restricts the diagram."""
    g, e, c, r = Partition.shifted_growth_diagram(word)
    k = k % (len(word) + 1)
    h, f, d, _ = Partition.shifted_growth_diagram(word[:k], m=k, n=max(word, default=0))
    assert [row[:k + 1] for row in g] == h and [row[:k + 1] for row in e] == f and [row[:k + 1] for row in c] == d
    return 'prefix' if 2 < k < len(word) else False
