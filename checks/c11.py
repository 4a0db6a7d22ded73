"""C11: reverse plane partitions."""
from harness import law
from hypothesis import strategies as st
from lib import (all_tableau_cases, as_set, boxes_of, contains, model_set, st_tableau_case, subshapes, partitions_upto)
from tableaux import MarkedReversePlanePartition, ReversePlanePartition, Tableau

RULE = 'Non-trivial: more than one filling is expected, or the inner shape is not contained in the outer one.'

LIM = {'rpp': (4, 9, 8, 7, 5, 4, 4, 3), 'mrpp': (4, 8, 6, 5, 3, 3, 2)}
EXH = {'rpp': {'quick': 5, 'thorough': 6}, 'mrpp': {'quick': 6, 'thorough': 8}}


def check_weight(t, n):
    rows, cols = [set() for _ in range(n)], [set() for _ in range(n)]
    for (i, j), v in boxes_of(t):
        for x in v:
            (cols if x > 0 else rows)[abs(x) - 1].add(j if x > 0 else i)
    assert tuple(t.weight(n)) == tuple(len(a) + len(b) for a, b in zip(rows, cols)), (t, n)


def compare(result, kind, n, mu, nu, diag=True):
    want = model_set(kind, n, mu, nu, False, diag)
    result = list(result)
    have = as_set(result)
    assert have == want, ('missing', sorted(want - have)[:2], 'extra', sorted(have - want)[:2])
    for t in result:
        check_weight(t, n)
        check_weight(t, n + 1)
    if mu == nu:
        assert have == {()}
    if not contains(mu, nu):
        assert not have
        return 'not contained'
    if len(want) < 2:
        return False
    return '%s n=%d' % ('skew' if nu else 'straight', n)


@law(lambda tier: st_tableau_case(False, LIM['rpp'], 12 if tier == 'quick' else 15), quick=600, thorough=4000,
     exhaustive=lambda tier: all_tableau_cases(False, LIM['rpp'], EXH['rpp'][tier]), shards=(2, 4))
def rpp(n, mu, nu):
    a = Tableau.semistandard_rpp(n, mu, nu)
    assert all(isinstance(t, ReversePlanePartition) for t in a)
    return compare(a, 'rpp', n, mu, nu)


def exh_marked(tier):
    for c in all_tableau_cases(True, LIM['mrpp'], EXH['mrpp'][tier]):
        yield c + (True,)
        yield c + (False,)


@law(lambda tier: st.tuples(st_tableau_case(True, LIM['mrpp'], 14 if tier == 'quick' else 17), st.booleans()).map(lambda x: x[0] + (x[1],)),
     quick=500, thorough=3000, exhaustive=exh_marked, shards=(3, 5))
def marked_rpp(n, mu, nu, diag):
    a = Tableau.semistandard_marked_rpp(n, mu, nu, diag)
    assert all(isinstance(t, MarkedReversePlanePartition) for t in a)
    label = compare(a, 'mrpp', n, mu, nu, diag)
    assert as_set(a) == as_set(Tableau.semistandard_shifted_rpp(n, mu, nu, diag))
    if diag:
        assert as_set(a) == as_set(Tableau.semistandard_marked_rpp(n, mu, nu))
    return label and '%s diag=%s' % (label, diag)


@st.composite
def st_filling(draw):
    n = draw(st.integers(1, 5))
    cs = draw(st.sets(st.tuples(st.integers(1, 5), st.integers(1, 5)), min_size=1, max_size=9))
    return n, tuple((c, draw(st.sampled_from([x for a in range(1, n + 1) for x in (a, -a)]))) for c in sorted(cs))


@law(st_filling(), quick=300, thorough=4000)
def weights_of_any_filling(n, items):
    """The weights depend only on the contents, whatever the order the cells are given in."""
    for order in (items, tuple(reversed(items))):
        check_weight(MarkedReversePlanePartition(dict(order)), n)
        check_weight(ReversePlanePartition({c: abs(v) for c, v in order}), n)
    t = MarkedReversePlanePartition()
    for c, v in items:
        t = t.add(c[0], c[1], v)
    check_weight(t, n)
    return 'filling' if len(items) > 2 else False
