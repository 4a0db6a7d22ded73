"""C30: Rothe diagrams, codes, shapes and Grassmannian elements."""
from harness import law
from hypothesis import strategies as st
from lib import partitions_upto, st_partition, subshapes, transpose, trim
import permlib as P
from permlib import all_fpf, all_involutions, all_perms, at, inv, mul, st_fpf, st_involution, st_perm
from permutations import Permutation

RULE = 'Non-trivial: the shape (or diagram) is nonempty.'


def W(w):
    return Permutation(*w)


def val(p):
    assert type(p) == Permutation
    return tuple(p.oneline)


def sort_shape(code):
    return tuple(sorted((a for a in code if a), reverse=True))


def diagram(w):
    """cells (i, w(j)) with i < j and w(i) > w(j)"""
    n = len(w)
    return {(i, w[j - 1]) for i in range(1, n + 1) for j in range(i + 1, n + 1) if w[i - 1] > w[j - 1]}


def listed(cells):
    cells = [tuple(c) for c in cells]
    assert len(cells) == len(set(cells))
    return set(cells)


def row_counts(cells, n):
    return tuple(sum(1 for c in cells if c[0] == i) for i in range(1, n + 1))


def exh(tier):
    return ((w,) for w in all_perms(6 if tier == 'quick' else 7))


def pictures(cells, text):
    """The text shows exactly the cells."""
    if not cells:
        assert text == ''
        return
    rows, cols = max(c[0] for c in cells), max(c[1] for c in cells)
    lines = text.split('\n')
    assert len(lines) == rows and all(len(x) == cols for x in lines)
    assert {(i + 1, j + 1) for i, x in enumerate(lines) for j, ch in enumerate(x) if ch == '*'} == cells
    assert set(text) <= set('*. \n')


@law(st.tuples(st.one_of(st_perm(10), st_perm(15))), quick=500, thorough=4000, exhaustive=exh, shards=(2, 3))
def plain(w):
    p = W(w)
    n = len(w)
    d = listed(p.rothe_diagram())
    assert d == diagram(w) and len(d) == p.length
    assert tuple(p.code()) == row_counts(d, n)
    assert p.shape() == sort_shape(inv_code(w))
    assert sum(p.shape()) == p.length
    assert {(j, i) for i, j in d} == listed(p.inverse().rothe_diagram())
    pictures(d, Permutation.print_diagram(sorted(d), sep='.'))
    if d:
        pictures(d, '\n'.join(reversed(Permutation.print_diagram(sorted(d), french=True, sep='.').split('\n'))))
    # recognised exactly when the inverse has at most one descent k and moves 1, ..., k
    assert p.is_grassmannian() == (len(P.ldes(w)) <= 1 and (not w or inv(w)[0] > 1))
    assert p.is_grassmannian() == (val(Permutation.get_grassmannian(*p.shape())) == w)
    return 'grassmannian' if w and p.is_grassmannian() else 'code' if w else False


def inv_code(w):
    v = inv(w)
    return row_counts(diagram(v), len(v))


def inv_exh(tier):
    return ((w,) for w in all_involutions(7 if tier == 'quick' else 8))


@law(st.tuples(st.one_of(st_involution(10), st_involution(15))), quick=500, thorough=4000, exhaustive=inv_exh, shards=(2, 3))
def involution(z):
    p = W(z)
    n = len(z)
    d = {(i, j) for i, j in diagram(z) if i >= j}
    assert listed(p.involution_rothe_diagram()) == d
    assert len(d) == p.involution_length == P.ilen(z)
    assert tuple(p.involution_code()) == row_counts(d, n)
    assert p.involution_shape() == transpose(sort_shape(row_counts(d, n)))
    mu = p.involution_shape()
    assert sum(mu) == P.ilen(z)
    # recognised exactly when z = (1, b_1)(2, b_2)...(r, b_r) with r < b_1 < ... < b_r
    pairs = sorted((i, at(z, i)) for i in range(1, n + 1) if i < at(z, i))
    r = len(pairs)
    gr = [a for a, _ in pairs] == list(range(1, r + 1)) and all(b > r for _, b in pairs) and pairs == sorted(pairs, key=lambda c: c[1])
    assert p.is_inv_grassmannian() == gr
    if gr:
        assert mu == tuple(b - r for _, b in reversed(pairs))
    return 'grassmannian' if pairs and gr else 'code' if pairs else False


def fpf_exh(tier):
    return ((z,) for z in all_fpf(0) + all_fpf(2) + all_fpf(4) + all_fpf(6) + all_fpf(8) + (() if tier == 'quick' else all_fpf(10)))


@law(st.tuples(st.one_of(st_fpf(6), st_fpf(8))), quick=500, thorough=4000, exhaustive=fpf_exh, shards=(2, 3))
def fpf(z):
    p = W(z)
    n = len(z)
    d = {(i, j) for i, j in diagram(z) if i > j}
    assert listed(p.fpf_rothe_diagram()) == d == listed(p.involution_rothe_diagram(True))
    assert len(d) == p.fpf_involution_length == P.flen(z)
    assert tuple(p.fpf_involution_code()) == row_counts(d, n)
    mu = p.fpf_involution_shape()
    assert mu == transpose(sort_shape(row_counts(d, n)))
    assert strict(mu)
    gr = P.fpf_trim(z) == P.fpf_trim(fpf_of(mu))
    assert p.is_fpf_grassmannian() == gr
    return 'grassmannian' if d and gr else 'code' if d else False


@law(st.tuples(st_perm(7, True)), quick=500, thorough=4000)
def not_fpf(w):
    """Only unsigned fixed-point-free involutions can be FPF-Grassmannian."""
    if P.is_fpf(w) and all(a > 0 for a in w):
        return False
    assert not W(w).is_fpf_grassmannian()
    return 'rejected'


def fpf_of(mu):
    """(1, b_1)...(r, b_r) with b_i - r - 1 the parts, other points paired off in order from the top"""
    if not mu:
        return ()
    r = len(mu)
    n = r + 1 + mu[0]
    n += n % 2
    pairs = [(j + 1, r + 1 + a) for j, a in enumerate(reversed(mu))]
    used = {x for c in pairs for x in c}
    rest = [x for x in range(n, 0, -1) if x not in used]
    pairs += [(rest[k + 1], rest[k]) for k in range(0, len(rest), 2)]
    w = list(range(1, n + 1))
    for a, b in pairs:
        w[a - 1], w[b - 1] = b, a
    return tuple(w)


def strict(mu):
    return all(mu[i] > mu[i + 1] for i in range(len(mu) - 1))


@law(st.tuples(st_partition(32, None, None, False), st_partition(36, None, None, True)), quick=500, thorough=3000, shards=(2, 3),
     exhaustive=lambda tier: [(mu, ()) for mu in partitions_upto(9)] + [((), mu) for mu in partitions_upto(14, None, None, True)])
def from_shape(mu, lam):
    """The elements attached to a partition have that shape and are recognised."""
    p = Permutation.get_grassmannian(*mu)
    v = inv(val(p))
    k = len(mu)
    assert all(at(v, i) < at(v, i + 1) for i in range(1, len(v)) if i != k)
    assert tuple(at(v, k + 1 - i) - (k + 1 - i) for i in range(1, k + 1)) == mu
    assert p.shape() == mu and p.is_grassmannian() and p.length == sum(mu)
    y = Permutation.get_inv_grassmannian(*lam)
    assert P.is_involution(val(y)) and y.involution_shape() == lam and y.involution_length == sum(lam)
    assert y.is_inv_grassmannian()
    assert all(y(j) == len(lam) + a for j, a in enumerate(reversed(lam), 1))
    assert len(y.pair()) == len(lam)
    x = Permutation.get_fpf_grassmannian(*lam)
    assert P.is_fpf(val(x)) and x.fpf_involution_shape() == lam and x.fpf_involution_length == sum(lam)
    assert x.is_fpf_grassmannian()
    for k in (2, 4):
        assert W(P.fpf_pad(val(x), x.rank + k)).is_fpf_grassmannian()
    return 'shapes' if mu or lam else False


@law(exhaustive=lambda tier: ((n,) for n in range(8 if tier == 'quick' else 10)), quick=0)
def listings(n):
    """The listings contain the element of each shape inside the staircase exactly once, so every one of the rank."""
    def got(items):
        items = [val(p) for p in items]
        assert len(items) == len(set(items))
        return set(items)
    g = got(Permutation.grassmannians(n))
    delta = tuple(range(n - 1, 0, -1))
    assert g == {val(Permutation.get_grassmannian(*mu)) for mu in subshapes(delta)}
    small = n if n < 8 else 7
    # every Grassmannian permutation of S_n occurs
    assert {w for w in g if len(w) <= small} >= {w for w in all_perms(small) if len(P.ldes(w)) <= 1 and (not w or inv(w)[0] > 1) and fits(w, n)}
    g = got(Permutation.inv_grassmannians(n))
    assert g >= {z for z in all_involutions(small) if W(z).is_inv_grassmannian()}
    assert g == {val(Permutation.get_inv_grassmannian(*mu)) for mu in subshapes(tuple(range(n - 1, 0, -2)), True)}
    if n % 2 == 0:
        g = got(Permutation.fpf_grassmannians(n))
        assert {P.fpf_trim(z) for z in g} == {P.fpf_trim(fpf_of(mu)) for mu in subshapes(tuple(range(n - 2, 0, -2)), True)}
        assert {P.fpf_trim(z) for z in g} >= {P.fpf_trim(z) for z in all_fpf(n) if W(z).is_fpf_grassmannian()}
    return 'n=%d' % n if n > 2 else False


def fits(w, n):
    mu = W(w).shape()
    return all(a <= n - 1 - i for i, a in enumerate(mu)) and len(mu) <= n - 1
