"""C07: shifted rims and strip decompositions."""
import itertools

from harness import law
from hypothesis import strategies as st
from lib import cells, partitions_upto, st_partition, trim
from partitions import Partition

RULE = 'Non-trivial: the shape has at least two rows, or the rim at least two cells.'


def get(mu, i):
    return mu[i] if i < len(mu) else 0


def rim_shapes(mu, bound):
    """Strict lam with mu inside lam, lam/mu without two cells on one diagonal, lam_1 - mu_1 <= bound."""
    options = [range(get(mu, 0), get(mu, 0) + bound + 1)]
    for i in range(1, len(mu) + 1):
        # row i may extend over cells whose north-west neighbour (row i-1) is not new: lam_i <= mu_{i-1}
        options.append(range(get(mu, i), mu[i - 1] + 1))
    for lam in itertools.product(*options):
        lam = trim(lam)
        if all(lam[i] > lam[i + 1] for i in range(len(lam) - 1)) and all(lam):
            yield lam


def rim_size(mu, bound):
    ans = bound + 1
    for i in range(1, len(mu) + 1):
        ans *= mu[i - 1] - get(mu, i) + 1
    return ans


def check_rims(mu, bound, got):
    want = [tuple(sorted(cells(lam, mu, True))) for lam in rim_shapes(mu, bound)]
    got = list(got)
    assert len(set(got)) == len(got), 'repeated rim'
    assert set(got) == set(want), (sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3])
    for r in got:
        diagonals = [j - i for i, j in r]
        assert len(set(diagonals)) == len(diagonals)


def small(tier):
    for mu in partitions_upto(14 if tier == 'quick' else 18, None, None, True):
        for b in range(6):
            yield mu, b


@law(st.tuples(st_partition(34, None, None, True), st.integers(0, 9)).filter(lambda t: rim_size(*t) <= 6000), quick=200, thorough=3000, exhaustive=small)
def rims(mu, bound):
    check_rims(mu, bound, Partition.rims(mu, bound))
    if bound == 1:
        check_rims(mu, 1, Partition.rims(mu))
        check_rims(mu, 1, Partition.rims(mu + (0,)))
    return 'rows' if len(mu) > 1 else 'row' if mu else False


@law(st.tuples(st.lists(st.tuples(st_partition(12, None, None, True), st.integers(0, 4), st.one_of(st.none(), st.integers(0, 4))), min_size=2, max_size=6).map(tuple)), quick=200, thorough=2000)
def rims_history(calls):
    """Repeated, mutated-list and abandoned enumerations do not disturb later ones."""
    for mu, b, stop in calls:
        it = Partition.rims(mu, b)
        if stop is None:
            check_rims(mu, b, it)
        else:
            list(itertools.islice(it, stop))
    for mu, b, stop in calls:
        check_rims(mu, b, Partition.rims(mu, b))
    return 'history'


def strips(mu):
    for nu in itertools.product(*[(a, a - 1) for a in mu]):
        if all(nu[i] > nu[i + 1] for i in range(len(nu) - 1)):
            yield trim(nu)


def ribbons_removed(mu):
    for nu in itertools.product(*[range(get(mu, i + 1), mu[i] + 1) for i in range(len(mu))]):
        nu = trim(nu)
        if all(nu) and all(nu[i] > nu[i + 1] for i in range(len(nu) - 1)):
            yield nu


def exactly(got, want):
    got, want = list(got), list(want)
    assert len(set(got)) == len(got), 'repeated'
    assert set(got) == set(want), (sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3])


@law(st.tuples(st_partition(40, None, None, True)).filter(lambda t: rim_size(t[0], 0) <= 4000), quick=400, thorough=2500, exhaustive=lambda tier: [(mu,) for mu in partitions_upto(18 if tier == 'quick' else 22, None, None, True)])
def decompositions(mu):
    """Twice, so that cached answers are checked too."""
    for _ in range(2):
        exactly(Partition.decompose_shifted_shape_by_vertical_strips(mu), set(strips(mu)))
        exactly(Partition.decompose_shifted_shape_by_rims(mu), set(ribbons_removed(mu)))
    return 'rows' if len(mu) > 1 else False


def terminal(rim):
    """Walk the rim from its last cell (first row, last column) while consecutive cells are adjacent."""
    order = sorted(rim, key=lambda c: (-c[0], c[1]))
    ans = order[-1:]
    for c in reversed(order[:-1]):
        a, b = c, ans[0]
        if len(ans) == 3 or abs(a[0] - b[0]) + abs(a[1] - b[1]) != 1:
            break
        ans.insert(0, c)
    return tuple(ans)


@law(st.tuples(st_partition(28, None, None, True), st.integers(0, 7), st.integers(0, 10**6)), quick=500, thorough=4000,
     exhaustive=lambda tier: [(mu, b, None) for mu in partitions_upto(10 if tier == 'quick' else 13, None, None, True) for b in range(4)])
def terminal_part(mu, bound, pick):
    shapes = list(rim_shapes(mu, bound))
    shapes = shapes if pick is None else [shapes[pick % len(shapes)]]
    for lam in shapes:
        rim = cells(lam, mu, True)
        got = Partition.rim_terminal_part(tuple(sorted(rim)))
        assert tuple(got) == terminal(rim), (rim, got)
        assert tuple(Partition.rim_terminal_part(list(reversed(rim)))) == terminal(rim)
    return 'rim' if any(sum(lam) > sum(mu) + 1 for lam in shapes) else False
