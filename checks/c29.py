"""C29: involutions, atoms and involution words."""
from harness import law
from hypothesis import strategies as st
import fresh
import permlib as P
from permlib import all_fpf, all_involutions, inv, mul, norm, st_fpf, st_involution, st_perm
from permutations import Permutation

RULE = 'Non-trivial: the involution has at least two involution words (or atoms).'


def W(w):
    return Permutation(*w)


def val(p):
    assert type(p) == Permutation
    return tuple(p.oneline)


def distinct(items):
    items = list(items)
    assert len(items) == len(set(items)), items
    return set(items)


@law(exhaustive=lambda tier: ((n, kind) for n in range(7 if tier == 'quick' else 9) for kind in ('plain', 'signed', 'fpf')
                              if n < {'plain': 9, 'signed': 6, 'fpf': 11}[kind]), quick=0)
def listing(n, kind):
    """Every involution of rank n (signed, fixed-point-free) exactly once."""
    if kind == 'fpf':
        n = 2 * (n // 2)
        want = set(all_fpf(n))
        assert distinct(val(p) for p in Permutation.involutions(n, False, True)) == want
        assert distinct(val(p) for p in Permutation.fpf_involutions(n)) == want
        assert list(Permutation.fpf_involutions(n + 1)) == [] == list(Permutation.involutions(n + 1, fpf=True))
        return 'fpf' if n > 2 else False
    got = distinct(val(p) for p in Permutation.involutions(n, kind == 'signed'))
    if n < 8:
        assert got == set(all_involutions(n, kind == 'signed'))
    else:
        assert all(P.is_involution(z) for z in got) and len(got) == 764
    return kind if n > 2 else False


def exh(tier):
    for z in all_involutions(4 if tier == 'quick' else 5, True):
        yield z,
    for z in all_involutions(6 if tier == 'quick' else 7):
        if P.count_inv_words(z) < (3000 if tier == 'quick' else 20000):
            yield z,


SMALL = st.one_of(st_involution(7), st_involution(5, True), P.st_short_involution(10, 6), P.st_short_involution(8, 6, True)).filter(lambda z: P.count_inv_words(z) < 3000)


@law(st.tuples(SMALL), quick=600, thorough=3000, exhaustive=exh, shards=(3, 4))
def involution_words(z):
    p = W(z)
    want = P.inv_words(z)
    got = distinct(p.get_involution_words())
    assert got == want
    assert distinct(W(z).involution_words) == want
    assert p.involution_length == P.ilen(z) and all(len(w) == p.involution_length for w in want)
    for w in (p.get_involution_word(), p.involution_word):
        assert w in want
    atoms = distinct(val(a) for a in p.get_atoms())
    assert atoms == {P.of_word(w) for w in want}
    assert sum(P.number_of_words(a) for a in atoms) == len(want)
    assert val(p.get_min_atom()) in atoms
    for w in sorted(want)[:40]:
        assert val(Permutation.from_involution_word(w)) == z
        assert val(Permutation.from_involution_word(w, strict=False)) == z
        assert val(Permutation.from_involution_word(list(w))) == z
    return 'signed' if min(z, default=1) < 0 and len(want) > 1 else 'plain' if len(want) > 1 else False


def exh_atoms(tier):
    for n, signed in ((6, False), (4, True)) if tier == 'quick' else ((7, False), (4, True)):
        for z in all_involutions(n, signed):
            yield n, signed, z


@law(exhaustive=exh_atoms, quick=0, shards=(1, 2))
def atoms(n, signed, z):
    """Exactly the minimal length w with w^{-1} o w = z, found by searching the whole group."""
    want = P.atom_table(n, signed)[z]
    p = W(z)
    got = distinct(val(a) for a in p.get_atoms())
    assert got == want
    for a in p.get_atoms():
        assert a.inverse() % a == p and len(a) == p.involution_length
    m = val(p.get_min_atom())
    assert m in want
    if not signed:
        assert inv(m) + tuple(range(len(m) + 1, n + 1)) == max(inv(a) + tuple(range(len(a) + 1, n + 1)) for a in want)
    return ('signed' if signed else 'plain') if len(want) > 1 else False


@st.composite
def st_near_word(draw, low, high, descents):
    """mostly ascending steps, so that long reduced words occur"""
    z, word = draw(st.just(())), ()
    if descents == 'fpf':
        z = P.minfpf(high + 1 + (high + 1) % 2)
    for _ in range(draw(st.integers(0, 8))):
        up = [i for i in range(low, high + 1) if i not in P.rdes(z)]
        if draw(st.integers(0, 11)) and up:
            i = draw(st.sampled_from(up))
        else:
            i = draw(st.integers(low, high))
        word += (i,)
        z = P.conj_dem(z, i) if descents == 'inv' else mul(mul(P.s(i), z), P.s(i))
    return word


@law(st.tuples(st.one_of(st_near_word(0, 4, 'inv'), st_near_word(0, 8, 'inv'))), quick=1500, thorough=8000, shards=(1, 2))
def from_word(word):
    """A word builds an involution in strict mode exactly when it is reduced."""
    z, ok = (), True
    y = ()
    for i in word:
        ok = ok and i not in P.rdes(z)
        z = P.conj_dem(z, i)
        y = P.inv_down(y, i)
    got = Permutation.from_involution_word(word)
    assert (got is None) == (not ok)
    if ok:
        assert val(got) == z and P.ilen(z) == len(word)
        assert word in set(got.get_involution_words()) if P.count_inv_words(z) < 2000 else True
    # non-strict mode conjugates (or multiplies) by every letter in turn
    assert val(Permutation.from_involution_word(word, False)) == y
    return 'reduced' if ok and len(word) > 2 else 'not reduced' if not ok else False


def exh_fpf(tier):
    for n in range(0, 7 if tier == 'quick' else 9, 2):
        for z in all_fpf(n):
            if P.count_fpf_words(z) < 40000:
                yield z,


@law(st.tuples(st.one_of(st_fpf(4), P.st_short_fpf(6, 6)).filter(lambda z: P.count_fpf_words(z) < 2000)), quick=500, thorough=3000, exhaustive=exh_fpf, shards=(2, 3))
def fpf_words(z):
    p = W(z)
    want = P.fpf_words(z)
    got = distinct(p.get_fpf_involution_words())
    assert got == want
    assert distinct(W(z).fpf_involution_words) == want
    assert p.fpf_involution_length == P.flen(z) and all(len(w) == P.flen(z) for w in want)
    assert p.get_fpf_involution_word() in want and p.fpf_involution_word in want
    atoms = distinct(val(a) for a in p.get_fpf_atoms())
    assert atoms == {P.of_word(w) for w in want}
    if len(z) <= 6:
        assert atoms == P.fpf_atom_table(len(z)).get(z)
    for w in sorted(want)[:40]:
        for strict in (True, False):
            q = val(Permutation.from_fpf_involution_word(w, strict))
            assert P.fpf_trim(q) == P.fpf_trim(z) and q == P.fpf_pad(P.fpf_trim(z), len(q))
            assert len(q) >= (max(w) + 1 if w else 0)
    return 'fpf' if len(want) > 1 else False


@law(st.tuples(st.one_of(st_near_word(1, 6, 'fpf'), st_near_word(1, 10, 'fpf'))), quick=1500, thorough=8000)
def from_fpf_word(word):
    n = max(word) + 1 if word else 0
    z = P.minfpf(n + n % 2)
    y, ok = z, True
    for i in word:
        ok = ok and P.at(y, i) < P.at(y, i + 1) and P.at(y, i) != i + 1
        y = mul(mul(P.s(i), y), P.s(i))
    got = Permutation.from_fpf_involution_word(word)
    assert (got is None) == (not ok)
    if ok:
        assert val(got) == y and P.flen(y) == len(word)
    assert val(Permutation.from_fpf_involution_word(word, strict=False)) == y
    return 'reduced' if ok and len(word) > 2 else 'not reduced' if not ok else False


def length_d(w):
    n = len(w)
    return sum(w[i] > w[j] for i in range(n) for j in range(i + 1, n)) + sum(w[i] + w[j] < 0 for i in range(n) for j in range(i + 1, n))


def s_d(i):
    return (-2, -1) if i == 0 else P.s(i)


def atoms_d(z):
    """type D: minimal length w in the even signed group with w^{-1} o w = z, by descent"""
    d = [i for i in range(len(z)) if length_d(mul(z, s_d(i))) < length_d(z)]
    if not d:
        return {()}
    ans = set()
    for i in d:
        zs, sz = mul(z, s_d(i)), mul(s_d(i), z)
        ans |= {mul(a, s_d(i)) for a in atoms_d(zs if zs == sz else mul(s_d(i), zs))}
    return ans


@law(exhaustive=lambda tier: ((z,) for z in all_involutions(4 if tier == 'quick' else 5, True) if sum(a < 0 for a in z) % 2 == 0), quick=0)
def even_signed_atoms(z):
    got = [val(a) for a in W(z).get_atoms_d()]
    assert set(got) == atoms_d(z)
    return 'atoms' if len(set(got)) > 1 else False


@law(st.tuples(st.lists(st.tuples(SMALL.filter(lambda z: P.count_inv_words(z) < 200), st.integers(0, 20)), min_size=1, max_size=5).map(tuple)), quick=150, thorough=1500)
def history(steps):
    """Partially consumed word enumerations do not disturb later ones."""
    fresh_permutation = fresh.world('permutations').permutations.Permutation

    def W(z):
        return fresh_permutation(*z)

    live = [(z, iter(W(z).get_involution_words()), []) for z, _ in steps]
    for k, (_, amount) in enumerate(steps):
        z, it, seen = live[amount % len(live)]
        for _ in range(amount):
            x = next(it, None)
            if x is None:
                break
            seen.append(x)
    for z, it, seen in live:
        seen.extend(it)
        assert len(seen) == len(set(seen)) and set(seen) == P.inv_words(z)
        assert distinct(W(z).get_involution_words()) == P.inv_words(z)
    return 'interleaved' if len(steps) > 1 else False
