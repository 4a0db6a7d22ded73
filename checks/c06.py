"""C06: elementary (shifted) diagram surgery."""
import itertools

from harness import law
from hypothesis import strategies as st
from lib import cells, cellset, contains, partitions_upto, st_partition, st_skew, subshapes, transpose, trim
from partitions import Partition

RULE = 'Non-trivial: a shape with at least two rows (or a skew shape with a cell removed).'


def get(mu, i):
    return mu[i] if i < len(mu) else 0


def is_shape(mu, strict):
    return type(mu) is tuple and all(a > 0 for a in mu) and all(
        mu[i] > mu[i + 1] or (mu[i] == mu[i + 1] and not strict) for i in range(len(mu) - 1))


def shapes(strict, small, large):
    return lambda tier: [(mu,) for mu in partitions_upto(small if tier == 'quick' else large, None, None, strict)]


def lab(mu):
    return 'rows' if len(mu) > 1 else False


@law(st.tuples(st_partition(36, 9)), quick=200, thorough=3000, exhaustive=shapes(False, 12, 16))
def transpose_and_shape(mu):
    t = Partition.transpose(mu)
    assert t == transpose(mu) and Partition.transpose(t) == mu
    assert Partition.shape(mu) == cellset(mu)
    assert {(j, i) for i, j in Partition.shape(mu)} == Partition.shape(t)
    assert Partition.from_shape(Partition.shape(mu)) == mu
    assert Partition.is_partition(mu) and Partition.trim(mu + (0, 0)) == mu
    assert Partition.is_strict(mu) == Partition.is_strict_partition(mu) == (len(set(mu)) == len(mu))
    for i in range(0, len(mu) + 3):
        assert Partition.get(mu, i) == (mu[i - 1] if 1 <= i <= len(mu) else 0)
        for j in range(0, get(mu, 0) + 2):
            assert bool(Partition.isin(mu, i, j)) == ((i, j) in cellset(mu))
    return lab(mu)


@law(st.tuples(st_partition(20, None, None, True)), quick=200, thorough=2000, exhaustive=shapes(True, 19, 23))
def shifted_shape(mu):
    s = cellset(mu, True)
    assert Partition.shifted_shape(mu) == s
    assert Partition.from_shape(s) == mu
    for i in range(0, len(mu) + 3):
        for j in range(0, get(mu, 0) + 3):
            assert bool(Partition.isin_shifted(mu, i, j)) == bool(Partition.isin(mu, i, j, True)) == ((i, j) in s)
    assert Partition.is_strict(mu)
    # addable and removable cells on each diagonal
    for d in range(0, get(mu, 0) + 3):
        add = [i for i in range(1, len(mu) + 2)
               if get(mu, i - 1) == d and (i == 1 or mu[i - 2] > d + 1)]
        rem = [i for i in range(1, len(mu) + 1)
               if mu[i - 1] == d + 1 and (i == len(mu) or mu[i] < d) ] if d else [i for i in range(1, len(mu) + 1) if mu[i - 1] == 1]
        assert Partition.find_shifted_outer_corner(mu, d) == (add[0] if add else None), ('outer', d)
        assert Partition.find_shifted_inner_corner(mu, d) == (rem[0] if rem else None), ('inner', d)
    return lab(mu)


@law(st.tuples(st.lists(st.integers(0, 9), max_size=10).map(tuple)), quick=300, thorough=3000)
def sorting_and_predicates(t):
    assert Partition.sort(t) == tuple(sorted(t, reverse=True))
    assert Partition.sort(t, trim=True) == tuple(x for x in sorted(t, reverse=True) if x)
    assert Partition.trim(t) == trim(t)
    assert Partition.trim(list(t)) == trim(t)
    assert bool(Partition.is_partition(t)) == all(t[i] >= t[i + 1] for i in range(len(t) - 1))
    assert bool(Partition.is_strict_partition(t)) == all(t[i] > t[i + 1] for i in range(len(t) - 1))
    return 'unsorted' if tuple(sorted(t, reverse=True)) != t else lab(t)


@law(st.tuples(st_partition(20), st_partition(20)), quick=600, thorough=5000,
     exhaustive=lambda tier: itertools.product(partitions_upto(6 if tier == 'quick' else 8), repeat=2))
def containment_and_union(mu, nu):
    assert bool(Partition.contains(mu, nu)) == (cellset(nu) <= cellset(mu))
    if len(nu) <= len(mu):
        zeros = (len(mu) - len(nu)) * (0,)
        for k in {0, 1, len(zeros)}:
            assert bool(Partition.contains(mu, nu + zeros[:k])) == contains(mu, nu), 'zeros'
    u = Partition.union(mu, nu)
    assert is_shape(u, False) and cellset(u) == cellset(mu) | cellset(nu)
    if len(set(mu)) == len(mu) and len(set(nu)) == len(nu):
        assert cellset(u, True) == cellset(mu, True) | cellset(nu, True)
        for a in (mu, list(mu), cellset(mu, True)):
            for b in (Partition.shifted_shape(nu), sorted(cellset(nu, True))):
                assert Partition.merge_shifted(a, b) == u
    return 'contained' if contains(mu, nu) and nu else 'incomparable' if not contains(nu, mu) else False


def nested(strict, small, large):
    return lambda tier: [(mu, nu) for mu in partitions_upto(small if tier == 'quick' else large, None, None, strict)
                         for nu in subshapes(mu, strict)]


@law(st_skew(18), quick=300, thorough=4000, exhaustive=nested(False, 7, 10))
def skew_cells(mu, nu):
    s = frozenset(cells(mu, nu))
    assert Partition.skew(mu, nu) == s
    a, b = Partition.from_skew(s)
    check_from_skew(s, a, b, False)
    key = Partition.skew_key(mu, nu)
    check_key(s, key, False)
    return 'skew' if nu and mu != nu else lab(mu)


@law(st_skew(24, strict=True), quick=300, thorough=4000, exhaustive=nested(True, 11, 15))
def shifted_skew_cells(mu, nu):
    s = frozenset(cells(mu, nu, True))
    assert Partition.skew(mu, nu, shifted=True) == s == Partition.shifted_shape(mu, nu)
    a, b = Partition.from_skew(s, shifted=True)
    check_from_skew(s, a, b, True)
    check_key(s, Partition.skew_key(mu, nu, True), True)
    return 'skew' if nu and mu != nu else lab(mu)


def check_from_skew(s, a, b, shifted):
    """The recovered pair is nested and has the given cells, pushed left until the last row starts
    in the first column (on the diagonal)."""
    assert is_shape(a, shifted) and is_shape(b, shifted) and contains(a, b)
    t = frozenset(cells(a, b, shifted))
    if not s:
        assert not t
        return
    last = max(i for i, j in s)
    c = min(j for i, j in s if i == last) - (last if shifted else 1)
    assert t == {(i, j - c) for i, j in s}, (a, b)


def check_key(s, key, shifted):
    """A translate of the cells that depends on the cells up to such translation only, and (shifted)
    keeps diagonal cells on the diagonal and off-diagonal cells off it."""
    key = tuple(key)
    assert key == tuple(sorted(set(key)))
    assert len(key) == len(s)
    if s:
        di = min(i for i, j in s) - min(i for i, j in key)
        dj = min(j for i, j in s) - min(j for i, j in key)
        assert {(i - di, j - dj) for i, j in s} == set(key)


@law(exhaustive=lambda tier: [(n, shifted) for n in range(4, 8 if tier == 'quick' else 10) for shifted in (False, True)])
def skew_keys_identify_translates_only(n, shifted):
    """Shapes with one key have cell sets that are translates; shifted ones keep their diagonal cells."""
    groups = {}
    for mu in partitions_upto(n, None, None, shifted):
        for nu in subshapes(mu, shifted):
            groups.setdefault(Partition.skew_key(mu, nu, shifted), []).append(cells(mu, nu, shifted))
    for key, members in groups.items():
        norm = set()
        for s in members:
            di, dj = (min(x) for x in zip(*s)) if s else (0, 0)
            norm.add((frozenset((i - di, j - dj) for i, j in s), frozenset((i - di, j - dj) for i, j in s if i == j and shifted)))
        assert len(norm) == 1, (key, members)
    return 'groups'


@law(st.tuples(st_partition(20, 8)), quick=200, thorough=2000, exhaustive=shapes(False, 11, 14))
def inner_corners(mu):
    rows = [i for i in range(1, len(mu) + 1) if mu[i - 1] > get(mu, i)]
    for i in range(1, len(mu) + 2):
        if i in rows:
            nu = Partition.remove_inner_corner(mu, i)
            assert is_shape(nu, False) and cellset(nu) == cellset(mu) - {(i, mu[i - 1])}
        else:
            try:
                Partition.remove_inner_corner(mu, i)
            except Exception:
                pass
            else:
                raise AssertionError('row %s has no removable cell' % i)
    got = list(Partition.remove_inner_corners(mu))
    want = [trim(tuple(a - (i + 1 in sub) for i, a in enumerate(mu))) for k in range(len(rows) + 1) for sub in itertools.combinations(rows, k)]
    assert len(got) == len(set(got)) and set(got) == set(want)
    for i in range(1, len(mu) + 2):
        if i == 1 or mu[i - 2] > get(mu, i - 1):
            want = tuple(sorted(mu[:i - 1] + (get(mu, i - 1) + 1,) + mu[i:], reverse=True))
            assert Partition.add(mu, i) == want
            assert Partition.add_box_to_row(mu, i) == want
            assert Partition.add_box_to_column(mu, get(mu, i - 1) + 1, False) == want
    return lab(mu)


@law(st.tuples(st_partition(22, None, None, True)), quick=200, thorough=2000, exhaustive=shapes(True, 17, 21))
def shifted_inner_corners(mu):
    rows = [i for i in range(1, len(mu) + 1) if mu[i - 1] > get(mu, i) + 1 or (i == len(mu) and mu[i - 1] == 1)]
    for i in range(1, len(mu) + 2):
        nu = Partition.remove_shifted_inner_corner(mu, i)
        if i in rows:
            assert is_shape(nu, True) and cellset(nu, True) == cellset(mu, True) - {(i, i + mu[i - 1] - 1)}
        else:
            assert nu is None, (i, nu)
    got = list(Partition.remove_shifted_inner_corners(mu))
    want = [trim(tuple(a - (i + 1 in sub) for i, a in enumerate(mu))) for k in range(len(rows) + 1) for sub in itertools.combinations(rows, k)]
    assert len(got) == len(set(got)) and set(got) == set(want)
    for i in range(1, len(mu) + 2):
        if i == 1 or mu[i - 2] > get(mu, i - 1) + 1:
            want = mu[:i - 1] + (get(mu, i - 1) + 1,) + mu[i:]
            assert Partition.add(mu, i) == want and is_shape(want, True)
            assert Partition.add_box_to_row(mu, i) == want
            assert Partition.add_box_to_column(mu, i + get(mu, i - 1), True) == want
    return lab(mu)


@law(exhaustive=lambda tier: [(n, mu) for n in range(9 if tier == 'quick' else 12) for mu in partitions_upto(n * (n + 1) // 2, None, n, True)])
def complement_in_staircase(n, mu):
    assert Partition.complement(n, mu) == tuple(sorted(set(range(1, n + 1)) - set(mu), reverse=True))
    return lab(mu)


@law(exhaustive=shapes(True, 20, 24))
def decrements(mu):
    want = mu
    if mu:
        i = next(i for i in range(len(mu)) if mu[i] - 1 > get(mu, i + 1) or i == len(mu) - 1)
        nu = Partition.decrement_one(mu)
        assert nu == trim(mu[:i] + (mu[i] - 1,) + mu[i + 1:]) and is_shape(nu, True)
        want = next(w for k in range(1, len(mu) + 1)
                    for w in [trim(tuple(a - (j < k) for j, a in enumerate(mu)))] if is_shape(w, True))
    assert Partition.decrement_strict(mu) == want
    return lab(mu)


def picture(text, french):
    """cells shown in a picture: {(row, column): char}"""
    ans = {}
    lines = text.split('\n') if text else []
    assert len({len(x) for x in lines}) <= 1, 'ragged picture'
    for k, line in enumerate(reversed(lines) if french else lines):
        for p, ch in enumerate(line):
            if ch != ' ':
                assert p % 2 == 0
                ans[(k + 1, p // 2 + 1)] = ch
    return ans


def want_picture(mu, nu, shifted):
    inner = set(cells(nu, (), shifted))
    return {c: '.' if c in inner else '*' for c in cells(mu, (), shifted)}


@law(st.one_of(st.tuples(st_skew(12), st.just(False)), st.tuples(st_skew(12, strict=True), st.booleans())).map(lambda t: (t[0][0], t[0][1], t[1])),
     quick=300, thorough=2000)
def pictures(mu, nu, shifted):
    f = Partition.FRENCH
    assert picture(Partition.printable(mu, nu, shifted=shifted), f) == want_picture(mu, nu, shifted)
    assert picture(Partition.printable(mu, shifted=shifted), f) == want_picture(mu, (), shifted)
    assert Partition.printable(None) is None
    return lab(mu)


@law(st.booleans().flatmap(lambda s: st.tuples(st.lists(st_partition(9, None, None, s), min_size=1, max_size=4).map(tuple), st.just(s))), quick=300, thorough=2000)
def picture_rows(shapes, shifted):
    """Several shapes side by side, joined by arrows."""
    f = Partition.FRENCH
    text = Partition.shifted_printables(*shapes) if shifted else Partition.printables(*shapes)
    columns = [[] for _ in shapes]
    widths = [max([2 * (a + (i if shifted else 0)) for i, a in enumerate(mu)] or [0]) for mu in shapes]
    lines = text.split('\n')
    for line in lines:
        for k, w in enumerate(widths):
            if k:
                gap, line = line[:9], line[9:]
                assert gap in ('   ->    ', ' ' * 9)
            columns[k].append(line[:w])
            line = line[w:]
        assert line == ''
    base = lines[-1] if f else lines[0]
    assert base.count('->') == len(shapes) - 1
    height = max(1, max(map(len, shapes)))
    for mu, col in zip(shapes, columns):
        assert len(col) == height and len({len(x) for x in col}) == 1
        blank, rows = (col[:height - len(mu)], col[height - len(mu):]) if f else (col[len(mu):], col[:len(mu)])
        assert not ''.join(blank).strip()
        assert picture('\n'.join(rows), f) == want_picture(mu, (), shifted)
    return 'several' if len(shapes) > 1 else False
