"""C12: fast counting against enumeration."""
from harness import law
from hypothesis import strategies as st
from lib import (all_tableau_cases, contains, is_partition, st_skew, sv_transfer, too_many, transfer, trim, weight_table,
                 st_tableau_case)
from tableaux import Tableau

RULE = 'Non-trivial: at least two weights occur, or the inner shape is not contained in the outer one.'

# name -> (oracle kind, set-valued, has diagonal flag, strict shapes, counter, generator)
FAMILIES = {
    'ss': ('ss', False, False, False, lambda n, m, k, d: Tableau.count_semistandard(n, m, k), lambda n, m, k, d: Tableau.semistandard(n, m, k)),
    'sv': ('ss', True, False, False, lambda n, m, k, d: Tableau.count_semistandard_setvalued(n, m, k), lambda n, m, k, d: Tableau.semistandard_setvalued(n, m, k)),
    'marked': ('marked', False, False, False, lambda n, m, k, d: Tableau.count_semistandard_marked(n, m, k), lambda n, m, k, d: Tableau.semistandard_marked(n, m, k)),
    'marked_sv': ('marked', True, False, False, lambda n, m, k, d: Tableau.count_semistandard_marked_setvalued(n, m, k), lambda n, m, k, d: Tableau.semistandard_marked_setvalued(n, m, k)),
    'shifted': ('shifted', False, True, True, lambda n, m, k, d: Tableau.count_semistandard_shifted_marked(n, m, k, d), lambda n, m, k, d: Tableau.semistandard_shifted_marked(n, m, k, d)),
    'shifted_sv': ('shifted', True, True, True, lambda n, m, k, d: Tableau.count_semistandard_shifted_marked_setvalued(n, m, k, d), lambda n, m, k, d: Tableau.semistandard_shifted_marked_setvalued(n, m, k, d)),
    'rpp': ('rpp', False, False, False, lambda n, m, k, d: Tableau.count_semistandard_rpp(n, m, k), lambda n, m, k, d: Tableau.semistandard_rpp(n, m, k)),
    'mrpp': ('mrpp', False, True, True, lambda n, m, k, d: Tableau.count_semistandard_marked_rpp(n, m, k, d), lambda n, m, k, d: Tableau.semistandard_marked_rpp(n, m, k, d)),
}


def oracle(name, n, mu, nu, diag):
    kind, sv = FAMILIES[name][:2]
    return sv_transfer(kind, n, mu, nu, diag) if sv else transfer(kind, n, mu, nu, diag)


def read(counts):
    ans = {}
    for k in counts:
        if counts[k]:
            assert k == trim(k) and is_partition(k), ('key', k)
            ans[k] = counts[k]
    return ans


def check(name, n, mu, nu, diag):
    table = oracle(name, n, mu, nu, diag)
    want = {trim(w): c for w, c in table.items() if is_partition(w)}
    got = read(FAMILIES[name][4](n, mu, nu, diag))
    assert got == want, (name, 'extra', {k: (v, want.get(k, 0)) for k, v in got.items() if want.get(k) != v},
                         'missing', {k: v for k, v in want.items() if k not in got})
    if not contains(mu, nu):
        assert not got
        return 'not contained'
    if mu == nu:
        assert got == {(): 1}
    # the oracle itself: symmetric in the weight
    for w, c in table.items():
        assert table.get(tuple(sorted(w, reverse=True))) == c, 'oracle not symmetric'
    return '%s n=%d' % (name, n) if len(want) > 1 else False


LIM = {
    'ss': (5, 12, 11, 10, 9, 8, 7, 6, 6), 'sv': (5, 11, 9, 8, 7, 6, 5, 4), 'marked': (5, 9, 9, 8, 7, 6, 5), 'marked_sv': (5, 9, 8, 6, 5, 4, 3),
    'shifted': (5, 13, 12, 11, 9, 8, 7, 6), 'shifted_sv': (5, 12, 10, 8, 6, 4, 3, 3), 'rpp': (5, 11, 9, 8, 7, 6, 5, 5), 'mrpp': (5, 11, 9, 7, 6, 5, 4, 4),
}
SIZE = {'ss': 14, 'sv': 13, 'marked': 12, 'marked_sv': 11, 'shifted': 18, 'shifted_sv': 14, 'rpp': 13, 'mrpp': 17}


@st.composite
def st_case(draw, names, extra=0):
    name = draw(st.sampled_from(names))
    n, mu, nu = draw(st_tableau_case(FAMILIES[name][3], LIM[name], SIZE[name] + extra))
    diag = draw(st.booleans()) if FAMILIES[name][2] else True
    return name, n, mu, nu, diag


def exh(names, q, t):
    def f(tier):
        for name in names:
            strict = FAMILIES[name][3]
            size = (q if tier == 'quick' else t) + (2 if strict else 0)
            for c in all_tableau_cases(strict, LIM[name][:4], size):
                yield (name,) + c + (True,)
                if FAMILIES[name][2]:
                    yield (name,) + c + (False,)
    return f


def make(fname, names, quick, thorough, q, t):
    def body(name, n, mu, nu, diag):
        return check(name, n, mu, nu, diag)
    body.__name__ = fname
    law(lambda tier: st_case(names, 0 if tier == 'quick' else 2), quick=quick, thorough=thorough,
        exhaustive=exh(names, q, t), shards=(2, 3))(body)


make('plain', ('ss', 'marked'), 400, 2000, 5, 6)
make('setvalued', ('sv', 'marked_sv'), 300, 1500, 4, 5)
make('shifted_plain', ('shifted',), 500, 2500, 6, 7)
make('shifted_setvalued', ('shifted_sv',), 300, 1500, 5, 6)
make('reverse', ('rpp', 'mrpp'), 400, 2000, 5, 6)


SMALL = {
    'ss': (4, 8, 7, 6, 5), 'sv': (4, 7, 5, 4), 'marked': (4, 7, 6, 4), 'marked_sv': (4, 6, 4, 2),
    'shifted': (4, 8, 7, 5, 4), 'shifted_sv': (4, 7, 5, 3), 'rpp': (4, 8, 7, 5, 4), 'mrpp': (4, 8, 5, 4),
}


@st.composite
def st_small(draw):
    name = draw(st.sampled_from(sorted(FAMILIES)))
    n, mu, nu = draw(st_tableau_case(FAMILIES[name][3], SMALL[name], 10))
    return name, n, mu, nu, draw(st.booleans()) if FAMILIES[name][2] else True


@law(st_small(), quick=700, thorough=5000, shards=(1, 3))
def counts_and_generated_tableaux(name, n, mu, nu, diag):
    """The weights of the tableaux generated by the library itself, all of them, permuted or not."""
    kind, sv = FAMILIES[name][:2]
    if too_many(kind, n, mu, nu, sv, diag, 4000):
        return False
    seen = {}
    for t in FAMILIES[name][5](n, mu, nu, diag):
        w = tuple(t.weight(n))
        assert len(w) == n
        seen[w] = seen.get(w, 0) + 1
    got = read(FAMILIES[name][4](n, mu, nu, diag))
    for w, c in seen.items():
        assert got.get(trim(tuple(sorted(w, reverse=True))), 0) == c, (w, c)
    assert all(k + (0,) * (n - len(k)) in seen for k in got)
    return name if len(seen) > 1 else False
