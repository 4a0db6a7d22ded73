"""C10: shifted marked tableau generators."""
from c09 import standard_model
from harness import LAWS, law
from hypothesis import strategies as st
from lib import (all_tableau_cases, as_set, contains, freeze, model_set, partitions_upto, st_skew, st_tableau_case, too_many, count_standard)
from tableaux import Tableau
import itertools

LAWS.clear()
RULE = 'Non-trivial: more than one tableau is expected, or the inner shape is not contained in the outer one.'

LIM = {'plain': (4, 10, 8, 6, 4, 4, 3, 2, 2), 'sv': (4, 8, 5, 4, 3, 2, 1)}
EXH = {'quick': 6, 'thorough': 8}


def with_flag(tier_strategy):
    return lambda tier: st.tuples(tier_strategy(tier), st.booleans()).map(lambda x: x[0] + (x[1],))


def exh(name):
    def f(tier):
        for c in all_tableau_cases(True, LIM[name], EXH[tier]):
            for d in (True, False):
                yield c + (d,)
    return f


def compare(get, n, mu, nu, setvalued, diag):
    if too_many('shifted', n, mu, nu, setvalued, diag):
        return False
    got = get()
    want = model_set('shifted', n, mu, nu, setvalued, diag)
    have = as_set(got)
    assert have == want, ('missing', sorted(want - have)[:2], 'extra', sorted(have - want)[:2])
    if mu == nu:
        assert have == {()}
    if not contains(mu, nu):
        assert not have
        return 'not contained'
    if len(want) < 2:
        return False
    return '%s n=%d diag=%s' % ('skew' if nu else 'straight', n, diag)


@law(with_flag(lambda tier: st_tableau_case(True, LIM['plain'], 16 if tier == 'quick' else 20)), quick=700, thorough=5000,
     exhaustive=exh('plain'), shards=(2, 4))
def shifted_marked(n, mu, nu, diag):
    def get():
        a = Tableau.semistandard_shifted_marked(n, mu, nu, diag)
        b = Tableau.semistandard_shifted(n, mu, nu, diag)
        assert as_set(a) == as_set(b)
        if diag:
            assert as_set(Tableau.semistandard_shifted_marked(n, mu, nu)) == as_set(a)
        return a
    return compare(get, n, mu, nu, False, diag)


@law(with_flag(lambda tier: st_tableau_case(True, LIM['sv'], 14 if tier == 'quick' else 17)), quick=300, thorough=2500,
     exhaustive=exh('sv'), shards=(4, 4))
def shifted_setvalued(n, mu, nu, diag):
    def get():
        a = Tableau.semistandard_shifted_marked_setvalued(n, mu, nu, diag)
        assert as_set(a) == as_set(Tableau.semistandard_shifted_setvalued(n, mu, nu, diag))
        assert as_set(a) == as_set(Tableau.semistandard_shifted(n, mu, nu, diag, True))
        return a
    return compare(get, n, mu, nu, True, diag)


def st_standard(tier):
    return st.tuples(st_skew(16 if tier == 'quick' else 20, None, None, True, 6, 1), st.booleans()).map(lambda x: x[0] + (x[1],))


def exh_standard(tier):
    top = 7 if tier == 'quick' else 8
    for mu in partitions_upto(top, None, None, True):
        for nu in partitions_upto(top, None, None, True):
            if sum(nu) <= sum(mu) and sum(mu) - sum(nu) <= 7:
                yield mu, nu, True
                yield mu, nu, False


@law(st_standard, quick=300, thorough=2500, exhaustive=exh_standard, shards=(1, 3))
def standard_shifted(mu, nu, diag):
    if contains(mu, nu) and count_standard(mu, nu, True) * 2 ** (sum(mu) - sum(nu)) > 20000:
        return False
    got = as_set(Tableau.standard_shifted_marked(mu, nu, diag))
    if not diag:
        assert got == as_set(Tableau.standard_shifted_marked(mu, nu))
    if not contains(mu, nu):
        assert not got
        return 'not contained'
    want = set()
    for f in standard_model(mu, nu, True):
        cs = sorted(f)
        for signs in itertools.product(*[(1,) if (i == j and not diag) else (1, -1) for i, j in cs]):
            want.add(freeze({c: (s * f[c][0],) for c, s in zip(cs, signs)}))
    assert got == want, ('missing', sorted(want - got)[:2], 'extra', sorted(got - want)[:2])
    return ('skew' if nu else 'straight') if len(want) > 1 else False
