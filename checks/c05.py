"""C05: partition and composition enumerators."""
import itertools

from harness import law
from hypothesis import strategies as st
from lib import contains, partitions_of, partitions_upto, st_partition, subshapes
from partitions import Partition

RULE = 'Non-trivial: more than one object is expected.'

BOUND = st.one_of(st.none(), st.integers(0, 9))
QUERY = st.tuples(st.integers(0, 9), BOUND, BOUND, st.booleans(), st.booleans())


def expected(n, max_part, max_row, strict, even):
    return [mu for mu in partitions_of(n, None, strict)
            if (max_part is None or not mu or mu[0] <= max_part)
            and (max_row is None or len(mu) <= max_row)
            and (not even or all(a % 2 == 0 for a in mu))]


def exactly(got, want):
    got, want = list(got), list(want)
    assert len(got) == len(set(got)), 'repeated: %s' % [x for x in got if got.count(x) > 1][:3]
    assert set(got) == set(want), (sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4])
    return len(want)


def all_queries(tier):
    top = 12 if tier == 'quick' else 14
    for n in range(top):
        for p in [None] + list(range(n + 2)):
            for r in [None] + list(range(n + 2)):
                for s, e in itertools.product([False, True], repeat=2):
                    yield n, p, r, s, e


LARGE = st.integers(9, 20)
LBOUND = st.one_of(st.none(), st.integers(0, 22))


@law(st.tuples(LARGE, LBOUND, LBOUND, st.booleans(), st.booleans()), quick=150, thorough=1500, exhaustive=all_queries)
def generate(n, max_part, max_row, strict, even):
    k = exactly(Partition.generate(n, max_part=max_part, max_row=max_row, strict=strict, even_parts=even),
                expected(n, max_part, max_row, strict, even))
    exactly(Partition.all(n, max_part=max_part, max_row=max_row, strict=strict, even_parts=even),
            [mu for i in range(n + 1) for mu in expected(i, max_part, max_row, strict, even)])
    return 'several' if k > 1 else False


@law(st.tuples(st.lists(st.tuples(st.sampled_from(['generate', 'all']), QUERY, st.one_of(st.none(), st.integers(0, 5))), min_size=1, max_size=8).map(tuple)),
     quick=300, thorough=2500)
def call_order(calls):
    """Any sequence of enumerations, some abandoned half way, some interleaved; then all again in full."""
    pending = []
    for name, (n, p, r, s, e), stop in calls:
        f = getattr(Partition, name)(n, max_part=p, max_row=r, strict=s, even_parts=e)
        want = expected(n, p, r, s, e) if name == 'generate' else [mu for i in range(n + 1) for mu in expected(i, p, r, s, e)]
        if stop is not None:
            head = list(itertools.islice(f, stop))
            assert len(head) == min(stop, len(want)) and set(head) <= set(want)
            pending.append((f, head, want))
        else:
            exactly(f, want)
    for f, head, want in reversed(pending):
        exactly(head + list(f), want)
    for name, (n, p, r, s, e), stop in calls:
        exactly(Partition.generate(n, max_part=p, max_row=r, strict=s, even_parts=e), expected(n, p, r, s, e))
    return 'history' if len(calls) > 1 else False


@st.composite
def st_between(draw):
    mu = draw(st.one_of(st_partition(9, 5), st_partition(14, None, None), st_partition(20, None, None, True)))
    return mu, draw(st.sampled_from(subshapes(mu))), draw(st.booleans())


def small_pairs(tier):
    for mu in partitions_upto(5 if tier == 'quick' else 7):
        for nu in subshapes(mu):
            for strict in (False, True):
                yield mu, nu, strict


@law(st_between(), quick=300, thorough=4000, exhaustive=small_pairs)
def subpartitions(mu, nu, strict):
    k = exactly(Partition.subpartitions(mu, nu, strict=strict), [x for x in subshapes(mu, strict) if contains(x, nu)])
    if not nu:
        exactly(Partition.subpartitions(mu, strict=strict), subshapes(mu, strict))
        exactly(Partition.subpartitions(list(mu), strict=strict), subshapes(mu, strict))
    return 'skew' if k > 1 and nu else 'straight' if k > 1 else False


@law(st.booleans().flatmap(lambda s: st.tuples(st_partition(40, 9, None, s), st.just(s))), quick=300, thorough=3000,
     exhaustive=lambda tier: [(mu, s) for s in (False, True) for mu in partitions_upto(9 if tier == 'quick' else 12, None, None, s)])
def successors(mu, strict):
    """At most one box added in each existing row, giving a (strict) partition."""
    want = []
    for bits in itertools.product([0, 1], repeat=len(mu)):
        nu = tuple(a + b for a, b in zip(mu, bits))
        if all(nu[i] > nu[i + 1] or (nu[i] == nu[i + 1] and not strict) for i in range(len(nu) - 1)):
            want.append((nu, bits))
    want = [nu for nu, bits in want]
    k = exactly(Partition.successors(mu, strict), want)
    exactly(Partition.successors(mu + (0,), strict), want)
    return 'several' if k > 1 else False


def comps(n):
    return [()] if n == 0 else [(k,) + c for k in range(1, n + 1) for c in comps(n - k)]


@law(exhaustive=lambda tier: [(n,) for n in range(14 if tier == 'quick' else 16)])
def compositions(n):
    exactly(Partition.compositions(n), comps(n))
    k = exactly(Partition.peak_compositions(n), [a for a in comps(n) if all(x >= 2 for x in a[:-1])])
    return 'several' if k > 1 else False


@law(st.tuples(st_partition(28, None, None, True)), quick=200, thorough=1500, exhaustive=lambda tier: [(mu,) for mu in partitions_upto(14 if tier == 'quick' else 15, None, None, True)])
def ribbon_complements(mu):
    """Strict shapes inside mu whose complement has no two cells on one diagonal."""
    want = [nu for nu in subshapes(mu, True)
            if all((nu[i] if i < len(nu) else 0) >= mu[i + 1] for i in range(len(mu) - 1))]
    return 'several' if exactly(Partition.shifted_ribbon_complements(mu), want) > 1 else False


@law(exhaustive=lambda tier: [(n,) for n in range(9 if tier == 'quick' else 11)])
def ribbons(n):
    """All pairs (outer, inner) of strict shapes with first part n whose difference is a (possibly
    disconnected) ribbon."""
    want = []
    for rest in partitions_upto(n * (n - 1) // 2, None, n - 1, True) if n else [()]:
        nu = ((n,) if n else ()) + rest
        for lam in subshapes(nu, True):
            if all((lam[i] if i < len(lam) else 0) >= nu[i + 1] for i in range(len(nu) - 1)):
                want.append((nu, lam))
    return 'several' if exactly(Partition.shifted_ribbons(n), want) > 1 else False


@law(exhaustive=lambda tier: [(a,) for n in range(13 if tier == 'quick' else 16) for a in comps(n)])
def ribbon_of_composition(alpha):
    """The connected ribbon with the given row lengths, lowest row on the diagonal."""
    nu, lam = Partition.shifted_ribbon(alpha)
    want_nu = tuple(sum(alpha[i:]) for i in range(len(alpha)))
    assert (tuple(nu), tuple(lam)) == (want_nu, want_nu[1:])
    return 'ribbon' if len(alpha) > 1 else False
