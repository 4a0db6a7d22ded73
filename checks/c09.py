"""C09: unshifted semistandard, set-valued, marked and standard generators."""
from harness import law
from hypothesis import strategies as st
from lib import (all_tableau_cases, as_set, boxes_of, cells, contains, model_set, partitions_upto, removable, drop, freeze, too_many, count_standard,
                 st_skew, st_tableau_case, subshapes, transpose)
from tableaux import Tableau

RULE = 'Non-trivial: more than one tableau is expected, or the inner shape is not contained in the outer one.'

LIM = {
    'ss': (4, 9, 8, 7, 6, 5, 4, 4, 3),
    'ss_sv': (4, 8, 7, 5, 4, 3, 2, 2),
    'marked': (4, 8, 7, 5, 4, 3, 3, 2),
    'marked_sv': (4, 7, 5, 4, 2, 2, 1),
}
EXH = {'quick': 4, 'thorough': 6}


def compare(get, kind, n, mu, nu, setvalued):
    if too_many(kind, n, mu, nu, setvalued):
        return False
    got = get()
    want = model_set(kind, n, mu, nu, setvalued)
    have = as_set(got)
    assert have == want, ('missing', sorted(want - have)[:2], 'extra', sorted(have - want)[:2])
    if mu == nu:
        assert have == {()}
    if not contains(mu, nu):
        assert not have
        return 'not contained'
    if len(want) < 2:
        return False
    return '%s n=%d %s' % ('skew' if nu else 'straight', n, 'large' if len(want) > 50 else 'small')


@law(lambda tier: st_tableau_case(False, LIM['ss'], 12 if tier == 'quick' else 16), quick=700, thorough=6000,
     exhaustive=lambda tier: all_tableau_cases(False, LIM['ss'], EXH[tier]), shards=(1, 3))
def semistandard(n, mu, nu):
    return compare(lambda: Tableau.semistandard(n, mu, nu), 'ss', n, mu, nu, False)


@law(lambda tier: st_tableau_case(False, LIM['ss_sv'], 11 if tier == 'quick' else 14), quick=500, thorough=3000,
     exhaustive=lambda tier: all_tableau_cases(False, LIM['ss_sv'], EXH[tier]), shards=(2, 3))
def setvalued(n, mu, nu):
    def get():
        a = Tableau.semistandard_setvalued(n, mu, nu)
        assert as_set(a) == as_set(Tableau.semistandard(n, mu, nu, True))
        return a
    return compare(get, 'ss', n, mu, nu, True)


@law(lambda tier: st_tableau_case(False, LIM['marked'], 11 if tier == 'quick' else 14), quick=400, thorough=2500,
     exhaustive=lambda tier: all_tableau_cases(False, LIM['marked'], EXH[tier]), shards=(2, 3))
def marked(n, mu, nu):
    return compare(lambda: Tableau.semistandard_marked(n, mu, nu), 'marked', n, mu, nu, False)


@law(lambda tier: st_tableau_case(False, LIM['marked_sv'], 10 if tier == 'quick' else 13), quick=300, thorough=2000,
     exhaustive=lambda tier: all_tableau_cases(False, LIM['marked_sv'], EXH[tier]), shards=(2, 3))
def marked_setvalued(n, mu, nu):
    def get():
        a = Tableau.semistandard_marked_setvalued(n, mu, nu)
        assert as_set(a) == as_set(Tableau.semistandard_marked(n, mu, nu, True))
        return a
    return compare(get, 'marked', n, mu, nu, True)


def standard_model(mu, nu, shifted=False):
    """chains of shapes from mu down to nu by removing one removable cell at a time"""
    if mu == nu:
        return [{}]
    ans = []
    k = sum(mu) - sum(nu)
    for (i, j) in removable(mu, shifted):
        lam = drop(mu, {i})
        if contains(lam, nu):
            for f in standard_model(lam, nu, shifted):
                ans.append(dict(f, **{}) | {(i, j): (k,)})
    return ans


def st_standard(tier):
    big = 18 if tier == 'quick' else 18

    @st.composite
    def build(draw):
        return draw(st_skew(big, None, None, False, 7, 1))
    return build()


@law(st_standard, quick=400, thorough=3000,
     exhaustive=lambda tier: ((mu, nu) for mu in partitions_upto(6) for nu in partitions_upto(6) if sum(nu) <= sum(mu)))
def standard(mu, nu):
    if contains(mu, nu) and count_standard(mu, nu, False) > 2000:
        return False
    got = as_set(Tableau.standard(mu, nu))
    if not contains(mu, nu):
        assert not got
        return 'not contained'
    model = [freeze(f) for f in standard_model(mu, nu)]
    want = set(model)
    assert len(want) == len(model)
    assert got == want, ('missing', sorted(want - got)[:2], 'extra', sorted(got - want)[:2])
    return ('skew' if nu else 'straight') if len(want) > 1 else False


@law(st_tableau_case(False, (4, 6, 6, 5, 4), 9), quick=150, thorough=1500)
def order_of_calls(n, mu, nu):
    """The same answer again after other members of the family were generated, also with default arguments."""
    first = as_set(Tableau.semistandard(n, mu, nu))
    Tableau.semistandard(n, mu, nu, True)
    Tableau.semistandard(n + 1, mu, nu)
    Tableau.semistandard_marked(min(n, 2), mu, nu)
    assert as_set(Tableau.semistandard(n, mu, nu)) == first
    assert as_set(Tableau.semistandard(n, mu)) == as_set(Tableau.semistandard(n, mu, ()))
    transposed = {freeze({(j, i): v for (i, j), v in t}) for t in as_set(Tableau.semistandard(n, transpose(mu), transpose(nu)))}
    for t in first & transposed:
        # strictly increasing along both directions
        d = dict(t)
        assert all(d[c] < d[e] for c in d for e in ((c[0] + 1, c[1]), (c[0], c[1] + 1)) if e in d)
    return 'calls' if len(first) > 1 else False
