"""C37: results do not depend on earlier calls."""
import functools
import operator

from harness import law
from hypothesis import strategies as st
import fresh
from lib import partitions_upto

RULE = 'Non-trivial: at least two calls of the history belong to the same group of functions, or a value was combined and checked again.'

PARTS = partitions_upto(4, 3)
STRICT = partitions_upto(5, 2, None, True)
SMALL = partitions_upto(3, 2)
SSMALL = partitions_upto(3, 2, None, True)
PERMS = ((1,), (2, 1), (1, 3, 2), (2, 3, 1), (3, 1, 2), (3, 2, 1), (2, 1, 4, 3), (1, 4, 2, 3), (3, 1, 4, 2), (2, 4, 1, 3))
SIGNED = ((-1,), (-1, -2), (2, 1), (-2, -1), (1, -2), (-1, 2, -3), (3, 2, 1), (-3, 2, -1), (2, 1, -3), (-1, -2, -3))
INVOL = ((2, 1), (1, 3, 2), (3, 2, 1), (2, 1, 4, 3), (1, 4, 3, 2), (4, 2, 3, 1), (3, 4, 1, 2), (4, 3, 2, 1))
FPF = ((2, 1), (2, 1, 4, 3), (3, 4, 1, 2), (4, 3, 2, 1), (2, 1, 5, 6, 3, 4), (3, 4, 1, 2, 6, 5), (3, 5, 1, 6, 2, 4))


# ------------------------------------------------------------ plain form of a result

def plain(x):
    t = type(x).__name__
    if x is None or isinstance(x, (int, str, float)):
        return x
    if t == 'Polynomial':
        return ('poly', tuple(sorted((tuple(sorted(k.items())), c) for k, c in x.coeffs.items() if c)))
    if t == 'SymmetricMonomial':
        return ('mono', x.order(), tuple(x.index()))
    if t in ('SymmetricPolynomial', 'Vector'):
        return (t, tuple(sorted(((plain(k), plain(v)) for k, v in x.items() if plain(v) not in (0, ('poly', ()))), key=repr)))
    if t == 'Tableau' or t.endswith('PlanePartition'):
        return (t, tuple(sorted(x.boxes.items())))
    if t == 'Permutation':
        return ('perm', tuple(x.oneline))
    if t == 'ValuedSetTableau':
        return ('vst', plain(x.tableau), plain(x.grouping))
    if isinstance(x, tuple):
        return tuple(map(plain, x))
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((plain(k), plain(v)) for k, v in x.items() if not (isinstance(v, int) and v == 0)), key=repr)))
    if isinstance(x, (list, set, frozenset)) or hasattr(x, '__next__'):
        return ('bag', tuple(sorted(map(plain, x), key=repr)))
    raise TypeError(t)


# ------------------------------------------------------------------ catalogue

CALLS = []


def add(group, fn, *pools):
    CALLS.append((group, fn, pools))


N = (1, 2, 3)
N2 = (1, 2)
BOOLS = (False, True)
BOUND = (None, 2, 3, 4, 5)


def sp(name):
    return lambda w, *a: getattr(w.symmetric.SymmetricPolynomial, name)(*a)


for nm in ('schur', 'schur_s'):
    add(nm[:5], sp(nm), N, PARTS)
    add(nm[:5], sp(nm), N, PARTS, SMALL)
for nm in ('schur_q', 'schur_p'):
    add('schur', sp(nm), N, STRICT)
    add('schur', sp(nm), N, STRICT, SSMALL)
for nm in ('stable_grothendieck', 'stable_grothendieck_s'):
    for suffix in ('', '_doublebar'):
        add('stable', sp(nm + suffix), N2, PARTS)
        add('stable', sp(nm + suffix), N2, PARTS, SMALL)
        add('stable', sp(nm + suffix), N2, PARTS, SMALL, BOUND)
for nm in ('stable_grothendieck_p', 'stable_grothendieck_q'):
    for suffix in ('', '_doublebar'):
        add('stable', sp(nm + suffix), N2, STRICT)
        add('stable', sp(nm + suffix), N2, STRICT, SSMALL)
        add('stable', sp(nm + suffix), N2, STRICT, SSMALL, BOUND)
for nm, pool in (('', PARTS), ('_p', STRICT), ('_q', STRICT)):
    add('stable', sp('mn_stable_grothendieck' + nm), N2, pool)
    add('dual', sp('mp_dual_stable_grothendieck' + nm), N, pool)
    add('dual', sp('dual_stable_grothendieck' + nm), N, pool)
    add('dual', sp('dual_stable_grothendieck' + nm), N, pool, SSMALL)
    add('dual', sp('slow_transposed_dual_stable_grothendieck' + nm), N2, pool)
    add('dual', (lambda nm: lambda w, n, mu, b: getattr(w.symmetric.SymmetricPolynomial, 'slow_transposed_dual_stable_grothendieck' + nm)(
        n, mu, (), (w.polynomials.beta, -1 * w.polynomials.beta, w.polynomials.beta ** 2)[b]))(nm), N2, pool, (0, 1, 2))
add('dual', sp('dual_stable_grothendieck_s'), N2, PARTS)
add('dual', sp('slow_transposed_dual_stable_grothendieck_s'), N2, PARTS)


def expansion(name, source, *extra):
    def fn(w, n, mu):
        c = w.symmetric.SymmetricPolynomial
        return getattr(c, name)(getattr(c, source)(n, mu, *extra))
    return fn


for nm, src, pool, extra in (
        ('schur_expansion', 'schur_p', STRICT, ()), ('schur_expansion', 'schur', PARTS, ()), ('grothendieck_expansion', 'stable_grothendieck_p', STRICT, ()),
        ('mn_grothendieck_expansion', 'mn_stable_grothendieck_q', STRICT, ()), ('dual_grothendieck_expansion', 'dual_stable_grothendieck_q', STRICT, ()),
        ('j_expansion', 'slow_transposed_dual_stable_grothendieck_p', STRICT, ()), ('gp_expansion', 'dual_stable_grothendieck_q', STRICT, ()),
        ('gq_expansion', 'dual_stable_grothendieck_q', STRICT, ()), ('P_expansion', 'schur_q', STRICT, ()), ('Q_expansion', 'schur_q', STRICT, ()),
        ('GP_expansion', 'stable_grothendieck_q', STRICT, ()), ('GQ_expansion', 'stable_grothendieck_q', STRICT, ()),
        ('jp_expansion', 'slow_transposed_dual_stable_grothendieck_q', STRICT, ()), ('mp_gp_expansion', 'mp_dual_stable_grothendieck_q', STRICT, ()),
        ('mn_GP_expansion', 'mn_stable_grothendieck_q', STRICT, ())):
    add('expansion', expansion(nm, src, *extra), N2, pool)


def tab(name):
    return lambda w, *a: getattr(w.tableaux.Tableau, name)(*a)


for nm in ('semistandard', 'semistandard_setvalued', 'semistandard_rpp', 'count_semistandard', 'count_semistandard_setvalued', 'count_semistandard_rpp',
           'semistandard_marked', 'count_semistandard_marked', 'count_semistandard_marked_setvalued'):
    add('tableaux', tab(nm), N2, PARTS)
    add('tableaux', tab(nm), N2, PARTS, SMALL)
for nm in ('semistandard', 'count_semistandard', 'semistandard_marked', 'count_semistandard_marked'):
    add('tableaux', tab(nm), N2, PARTS, SMALL, BOOLS)
for nm in ('semistandard_shifted', 'semistandard_shifted_marked', 'semistandard_shifted_setvalued', 'semistandard_shifted_marked_setvalued',
           'semistandard_shifted_rpp', 'semistandard_marked_rpp', 'count_semistandard_shifted_marked', 'count_semistandard_shifted_marked_setvalued',
           'count_semistandard_marked_rpp'):
    add('shifted tableaux', tab(nm), N2, STRICT)
    add('shifted tableaux', tab(nm), N2, STRICT, SSMALL, BOOLS)
for nm in ('semistandard_shifted_marked', 'count_semistandard_shifted_marked'):
    add('shifted tableaux', tab(nm), N2, STRICT, SSMALL, BOOLS, BOOLS)
add('tableaux', tab('standard'), PARTS)
add('tableaux', tab('standard'), PARTS, SMALL)
add('shifted tableaux', tab('standard_shifted_marked'), STRICT)
add('shifted tableaux', tab('standard_shifted_marked'), STRICT, SSMALL, BOOLS)
for nm in ('KOG', 'KLG', 'KOG_by_shape', 'KLG_by_shape', 'KOG_counts_by_shape', 'KLG_counts_by_shape'):
    add('kog', tab(nm), (0, 1, 2, 3), STRICT)
for nm in ('KOG_counts', 'KLG_counts'):
    add('kog', tab(nm), STRICT, SSMALL, (0, 1, 2, 3))
add('kog', tab('shifted_setvalued_copieri'), STRICT, SSMALL, BOOLS)


def part(name):
    return lambda w, *a: getattr(w.partitions.Partition, name)(*a)


for nm in ('decompose_shifted_shape_by_vertical_strips', 'decompose_shifted_shape_by_rims', 'rims', 'shifted_ribbon_complements'):
    add('rims', (lambda nm: lambda w, mu, *a: getattr(w.partitions.Partition, nm)(mu, *a))(nm), tuple(mu for mu in STRICT if mu))
add('partitions', part('shifted_ribbons'), (1, 2, 3, 4))
add('partitions', part('generate'), (0, 1, 2, 3, 4, 5))
add('partitions', lambda w, n, s: w.partitions.Partition.all(n, strict=s), (0, 2, 4), BOOLS)
add('partitions', part('compositions'), (0, 1, 2, 3, 4))
add('partitions', lambda w, mu, s: w.partitions.Partition.subpartitions(mu, strict=s), STRICT, BOOLS)


def perm(name, *args, **kw):
    return lambda w, p, *a: getattr(w.permutations.Permutation(*p), name)(*(args + a), **kw)


def perm_property(name):
    return lambda w, p: getattr(w.permutations.Permutation(*p), name)


for nm in ('get_reduced_words', 'get_atoms', 'rothe_diagram', 'code', 'shape'):
    add('words', perm(nm), PERMS if nm != 'get_atoms' else INVOL)
add('words', perm('get_reduced_words'), SIGNED)
for nm in ('get_involution_words', 'get_atoms', 'get_min_atom', 'get_involution_word', 'involution_code', 'involution_shape'):
    add('involutions', perm(nm), INVOL)
add('involutions', perm('get_atoms'), tuple(w for w in SIGNED if w not in ((3, 2, 1),)))
add('involutions', perm('get_atoms_d'), ((-1, -2), (2, 1), (-2, -1), (3, 2, 1), (-3, 2, -1)))
add('involutions', perm('get_involution_words'), SIGNED)
for nm in ('get_fpf_involution_words', 'get_fpf_atoms', 'get_fpf_involution_word', 'fpf_involution_shape'):
    add('fpf', perm(nm), FPF)
add('hecke words', perm('get_hecke_words'), PERMS, (2, 3, 4), (None, 1, 2, 3))
add('hecke words', perm('get_involution_hecke_words'), INVOL, (2, 3, 4), (None, 1, 2))
add('hecke words', perm('get_symplectic_hecke_words'), FPF[:4], (2, 3, 4), (None, 1, 2))
add('hecke words', lambda w, n, b, a: w.permutations.Permutation.hecke_words(n, b, a), (1, 2, 3), (1, 2, 3, 4), (None, 1, 2))
add('hecke words', lambda w, n, b, a: w.permutations.Permutation.involution_hecke_words(n, b, a), (1, 2, 3), (1, 2, 3, 4), (None, 1, 2))
add('hecke words', lambda w, n, b, a, h: w.permutations.Permutation.symplectic_hecke_words(n, b, a, h), (2, 4), (1, 2, 3), (None, 1, 2), BOOLS)
add('hecke words', lambda w, n, b, a: list(map(list, w.permutations.Permutation.hecke_levels(n, b, a))), (2, 3), (1, 2, 3), (None, 1, 2))
add('hecke words', lambda w, n, b, a: list(map(list, w.permutations.Permutation.involution_hecke_levels(n, b, a))), (2, 3), (1, 2, 3), (None, 1, 2))
add('hecke words', lambda w, n, b, a: list(map(list, w.permutations.Permutation.symplectic_hecke_levels(n, b, a))), (2, 4), (1, 2, 3), (None, 1, 2))
add('hecke functions', perm('stable_grothendieck'), PERMS[:7], N2, (3, 4, 5))
add('hecke functions', perm('involution_stable_grothendieck'), INVOL[:5], N2, (2, 3, 4))
add('hecke functions', perm('signed_involution_stable_grothendieck'), INVOL[:5], N2, (2, 3))
add('hecke functions', perm('symplectic_stable_grothendieck'), FPF[:4], N2, (2, 3, 4))
add('words', lambda w, n, s: w.permutations.Permutation.all(n, s), (1, 2, 3), BOOLS)
add('involutions', lambda w, n, s, f: w.permutations.Permutation.involutions(n, s, f), (1, 2, 3, 4), (False,), (False,))
add('fpf', lambda w, n: w.permutations.Permutation.fpf_involutions(n), (2, 4))
add('fpf', lambda w, n: w.permutations.Permutation.fpf_grassmannians(n), (2, 4, 6))
add('involutions', lambda w, n: w.permutations.Permutation.inv_grassmannians(n), (1, 2, 3, 4))
for nm in ('bruhat_covers', 'involution_bruhat_covers'):
    add('covers', perm(nm), INVOL)
add('covers', perm('upper_involution_transitions'), INVOL, (1, 2, 3))
add('covers', lambda w, a, b: w.permutations.Permutation(*a) % w.permutations.Permutation(*b), PERMS, PERMS)
add('covers', lambda w, a, b: w.permutations.Permutation(*a) * w.permutations.Permutation(*b), SIGNED, SIGNED)

WORDS = ((), (1,), (1, 2, 1), (2, 1, 2), (1, 1, 2), (2, 2, 1), (1, 3, 2, 2), (3, 1, 2, 1), (2, 1, 1, 3), (1, 2, 1, 2, 1))
SWORDS = ((), (2,), (2, 1), (2, 3), (2, 4, 1), (2, 1, 2), (2, 2, 3), (4, 2, 3, 3), (2, 3, 1, 2))


def ins(name):
    return lambda w, word: getattr(w.insertion.InsertionAlgorithm, name)(word)


add('insertion', ins('hecke'), WORDS)
add('insertion', ins('orthogonal_hecke'), WORDS)
add('insertion', ins('symplectic_hecke'), SWORDS)
add('insertion', lambda w, word: w.insertion.InsertionAlgorithm.hecke(word, None, False), WORDS)
add('insertion', lambda w, word: w.insertion.InsertionAlgorithm.inverse_hecke(*w.insertion.InsertionAlgorithm.hecke(word)), WORDS)
add('insertion', lambda w, word, i: w.words.Word.f_crystal_operator(i, word), WORDS, (1, 2))
add('insertion', lambda w, word: w.words.Word.quasisymmetrize(word, w.words.Word.decreasing_zeta), WORDS)
add('valued sets', lambda w, n, mu, nu, d: w.vst.ValuedSetTableau.all(n, mu, nu, d), N2, STRICT[:6], SSMALL[:3], BOOLS)
add('valued sets', lambda w, mu, nu: w.vst.ValuedSetTableau.all_interstandard(mu, nu), STRICT[:6], SSMALL[:3])
add('valued sets', lambda w, mu, d: [v.transition(1) for v in w.vst.ValuedSetTableau.all(2, mu, (), d)], STRICT[:6], BOOLS)
add('valued sets', lambda w, mu: [v.forward_transition(1) for v in w.vst.ValuedSetTableau.all(2, mu, (), True)], STRICT[:6])
add('monomials', lambda w, n, mu, nu: w.symmetric.SymmetricMonomial(n, mu) * w.symmetric.SymmetricMonomial(n, nu), (3, 4), partitions_upto(3, 3), partitions_upto(3, 3))
add('monomials', lambda w, n, mu: w.symmetric.SymmetricMonomial(n, mu).polynomial(), (3,), partitions_upto(3, 3))
add('operators', lambda w, mu, i: w.operators.operator_AL(i)(mu), STRICT, (1, 2))
add('operators', lambda w, mu, i: w.operators.operator_AR(i)(mu), STRICT, (1, 2))
add('operators', lambda w, mu, i: w.operators.operator_R(i)(mu), STRICT, (1, 2))
add('operators', lambda w, mu, i: w.operators.operator_C(i)(mu), STRICT, (1, 2))

# bounds and elementary operations
MAYBE = (None, 1, 2, 3)
add('bounds', lambda w, n, a, b, s, e: w.partitions.Partition.generate(n, a, b, s, e), (0, 2, 3, 4, 5, 6), MAYBE, MAYBE, BOOLS, BOOLS)
add('bounds', lambda w, n, a, b, s, e: w.partitions.Partition.all(n, a, b, s, e), (0, 2, 4), MAYBE, MAYBE, BOOLS, BOOLS)
add('bounds', part('generate'), (2, 3, 4, 5), MAYBE)
add('bounds', lambda w, mu, nu, s: w.partitions.Partition.subpartitions(mu, nu, strict=s), STRICT, SSMALL, BOOLS)
add('bounds', part('peak_compositions'), (0, 1, 2, 3, 4, 5))
add('bounds', part('rims'), tuple(mu for mu in STRICT if mu), (1, 2, 3, 4))
for nm in ('transpose', 'successors', 'remove_inner_corners', 'shape', 'printable', 'trim'):
    add('surgery', part(nm), PARTS)
for nm in ('remove_shifted_inner_corners', 'shifted_shape'):
    add('surgery', part(nm), STRICT)
add('surgery', part('skew'), PARTS, SMALL, (False,))
add('surgery', part('skew'), STRICT, SSMALL, (True,))
add('growth', lambda w, p: w.partitions.Partition.growth_diagram({(i + 1, a): 1 for i, a in enumerate(p)}), PERMS)
add('growth', lambda w, p, c: w.partitions.Partition.growth_diagram({(i + 1, a): c + a % 2 for i, a in enumerate(p)}), ((1,), (2, 1), (1, 1), (2, 1, 2), (3, 1, 1)), (0, 1, 2))
RED = ((), (1,), (1, 2), (2, 1), (1, 3), (2, 1, 3), (2, 3, 1), (1, 3, 2))
add('growth', lambda w, a: w.partitions.Partition.shifted_growth_diagram(a), RED)

# permutations
for nm in ('fpf_involution_bruhat_covers', 'fpf_involution_code', 'fpf_rothe_diagram'):
    add('fpf', perm(nm), FPF)
for nm in ('length', 'left_descent_set', 'right_descent_set', 'oneline', 'rank'):
    add('statistics', perm_property(nm), SIGNED + PERMS)
for nm in ('inverse', 'get_reduced_word', 'fix', 'neg', 'pair'):
    add('statistics', perm(nm), SIGNED + PERMS)
for nm in ('get_grassmannian',):
    add('grassmannian', (lambda nm: lambda w, mu: getattr(w.permutations.Permutation, nm)(*mu))(nm), PARTS)
for nm in ('get_inv_grassmannian', 'get_fpf_grassmannian'):
    add('grassmannian', (lambda nm: lambda w, mu: getattr(w.permutations.Permutation, nm)(*mu))(nm), STRICT)
add('grassmannian', lambda w, n, s: w.permutations.Permutation.longest_element(n, s), (0, 1, 2, 3, 4), BOOLS)
add('grassmannian', lambda w, p: [w.permutations.Permutation(*p).is_grassmannian(), w.permutations.Permutation(*p).is_inv_grassmannian()], INVOL)
add('covers', lambda w, p, i, j: w.permutations.Permutation(*p).tau(i, i + j), INVOL, (1, 2, 3), (1, 2, 3))
add('covers', perm('lower_involution_transitions'), INVOL, (1, 2, 3))
add('bumps', lambda w, a, i, j: w.permutations.Permutation.little_bump(a, i, i + j), RED, (1, 2, 3), (1, 2, 3))
add('bumps', lambda w, a, i, j: w.permutations.Permutation.involution_little_bump(a, i, i + j), RED, (1, 2, 3), (1, 2, 3))

# insertion with records, crystals, words
RECORDS = (None, (1, 2, 3), (1, 1, 2), (1, 2, 2), (2, 3, 3), (1, 1, 1))
RWORDS = ((2, 1, 2), (2, 1, 3), (3, 2, 1), (2, 3, 1), (2, 2, 2))
for nm in ('hecke', 'orthogonal_hecke', 'symplectic_hecke'):
    add('insertion', (lambda nm: lambda w, a, r, m: getattr(w.insertion.InsertionAlgorithm, nm)(a, r, m))(nm), RWORDS, RECORDS, BOOLS)
    add('insertion', (lambda nm: lambda w, a, m: getattr(w.insertion.InsertionAlgorithm, 'inverse_' + nm)(
        *getattr(w.insertion.InsertionAlgorithm, nm)(a, None, m), m))(nm), SWORDS, BOOLS)
add('crystals', lambda w, a, k, d: w.crystals.WordCrystalGenerator.get_increasing_factorizations(a, k, d), WORDS, (0, 1, 2, 3), BOOLS)
add('crystals', lambda w, p, k, l, d: w.crystals.WordCrystalGenerator(p, k, l, d).edges, PERMS[:6], (1, 2), (1, 2, 3), BOOLS)
add('crystals', lambda w, mu, n, s: w.crystals.TableauCrystalGenerator(mu, n, setvalued=s).edges, tuple(mu for mu in SMALL if mu), (1, 2), BOOLS)
add('crystals', lambda w, a, i: w.words.Word.e_crystal_operator(i, a), WORDS, (1, 2))
add('words', lambda w, a: [w.words.Word.ascents(a), w.words.Word.peaks(a), w.words.Word.descent_set(a)], WORDS)
for nm in ('wiring_diagram', 'involution_wiring_diagram', 'fpf_involution_wiring_diagram'):
    add('diagrams', (lambda nm: lambda w, a: getattr(w.words.Word, nm)(a))(nm), WORDS)
add('diagrams', lambda w, mu: [repr(t) for t in w.tableaux.Tableau.semistandard(2, mu)], SMALL)
for nm in ('increasing_zeta', 'unimodal_zeta', 'weakly_decreasing_zeta'):
    add('diagrams', (lambda nm: lambda w, a: w.words.Word.quasisymmetrize(a, getattr(w.words.Word, nm)))(nm), WORDS)
add('valued sets', lambda w, n, mu, d, i: [v.transition(i) for v in w.vst.ValuedSetTableau.all(n, mu, (), d)], (2, 3), STRICT[:5], BOOLS, (1,))

GROUPS = sorted({c[0] for c in CALLS})


@functools.lru_cache(None)
def alone(k, choice):
    """The result in a process where nothing was computed before."""
    w = fresh.world()
    _, fn, pools = CALLS[k]
    try:
        return plain(fn(w, *[p[c % len(p)] for p, c in zip(pools, choice)]))
    except Exception as e:
        return ('raises', type(e).__name__)


def choice_of(k, seeds):
    pools = CALLS[k][2]
    return tuple(s % len(p) for s, p in zip(seeds, pools))


def combine(op, a, b):
    """Arithmetic on returned values; results of incompatible values are not of interest."""
    ta, tb = type(a).__name__, type(b).__name__
    if ta == tb == 'Tableau':
        return (a.transpose(), a.add(1, 1, 1), a.standardize() if a else a, repr(a))[op % 4]
    if ta == tb == 'Permutation':
        return (a * b, a % b, a.inverse(), a * a)[op % 4]
    if ta == tb and ta in ('Polynomial', 'SymmetricPolynomial', 'Vector'):
        if ta == 'SymmetricPolynomial' and {m.order() for m in a} | {m.order() for m in b} not in ({1}, {2}, {3}):
            return None
        if ta == 'Vector' and len({type(k) for k in list(a) + list(b)}) > 1:
            return None
        if op % 7 in (2, 5) and (ta == 'Vector' or len(list(a.items() if ta != 'Polynomial' else a.coeffs)) > 12
                                 or len(list(b.items() if ta != 'Polynomial' else b.coeffs)) > 12):
            return None
        fs = (operator.add, operator.sub, operator.mul, operator.iadd, operator.isub, operator.imul, lambda a, b: (-1 * a, hash(a), repr(a)))
        return fs[op % 7](a, b)
    return None


def scalars(a):
    if type(a).__name__ in ('Polynomial', 'SymmetricPolynomial', 'Vector'):
        b = a
        b *= 3
        b += b
        b -= a
        return b
    return None


def members(x):
    if isinstance(x, (list, set, frozenset, tuple)):
        return [y for y in x if type(y).__name__ in ('Tableau', 'Permutation', 'Polynomial', 'SymmetricPolynomial', 'Vector')][:2]
    return [x]


STEP = st.one_of(
    st.tuples(st.just('call'), st.integers(0, 10 ** 4), st.tuples(*[st.integers(0, 50)] * 5)),
    st.tuples(st.just('call'), st.integers(0, 10 ** 4), st.tuples(*[st.integers(0, 50)] * 5)),
    st.tuples(st.just('repeat'), st.integers(0, 20), st.tuples(*[st.integers(0, 3)] * 5)),
    st.tuples(st.just('combine'), st.integers(0, 6), st.tuples(st.integers(0, 20), st.integers(0, 20))),
    st.tuples(st.just('advance'), st.integers(0, 10), st.tuples(st.integers(1, 4))),
)


def run_history(group, steps):
    w = fresh.world()
    pool = list(range(len(CALLS))) if group is None else [k for k in range(len(CALLS)) if CALLS[k][0] == group]
    done = []      # (value, plain form)
    live = []      # [iterator, partial list, k, choice]
    made = []      # (k, choice)
    groups = []
    combined = 0

    def call(k, choice):
        made.append((k, choice))
        groups.append(CALLS[k][0])
        want = alone(k, choice)
        try:
            x = CALLS[k][1](w, *[p[c] for p, c in zip(CALLS[k][2], choice)])
            if hasattr(x, '__next__'):
                live.append([x, [], k, choice])
                return
            got = plain(x)
        except Exception as e:
            assert want == ('raises', type(e).__name__), (k, choice, want, repr(e))
            return
        assert got == want, (CALLS[k][0], choice, got, want)
        done.append((x, got))
        for y in members(x):
            if y is not x:
                done.append((y, plain(y)))

    def advance(entry, amount):
        try:
            while amount:
                entry[1].append(next(entry[0]))
                amount -= 1
        except StopIteration:
            live.remove(entry)
            k, choice = entry[2], entry[3]
            assert plain(entry[1]) == alone(k, choice), (CALLS[k][0], choice)

    for kind, a, b in steps:
        if kind == 'call' or (kind == 'repeat' and not made):
            k = pool[a % len(pool)]
            call(k, choice_of(k, b + (0, 0)))
        elif kind == 'repeat':
            # the same function again, with slightly different arguments
            k, choice = made[a % len(made)]
            call(k, choice_of(k, tuple(c + s for c, s in zip(choice, b))))
        elif kind == 'combine' and done:
            x, y = done[b[0] % len(done)][0], done[b[1] % len(done)][0]
            z = combine(a, x, y) if type(x) == type(y) else scalars(x)
            combined += z is not None
            if type(z) == type(x) and len(repr(plain(z))) < 4000:
                done.append((z, plain(z)))
        elif kind == 'advance' and live:
            advance(live[a % len(live)], b[0])
        for x, form in done:
            assert plain(x) == form, ('a value returned earlier has changed', form, plain(x))
    unfinished = live[::2]
    for entry in [e for e in reversed(live) if e not in unfinished]:
        advance(entry, 10 ** 6)
    for k, choice in made[:6]:
        x = CALLS[k][1]
        try:
            got = plain(x(w, *[p[c] for p, c in zip(CALLS[k][2], choice)]))
        except Exception as e:
            got = ('raises', type(e).__name__)
        assert got == alone(k, choice), ('repeated call', CALLS[k][0], choice)
    for entry in unfinished:
        advance(entry, 10 ** 6)
    if combined:
        return 'combined'
    return 'related' if len(groups) > len(set(groups)) else False


@law(st.tuples(st.sampled_from(GROUPS), st.lists(STEP, min_size=2, max_size=9).map(tuple)), quick=800, thorough=6000, shards=(6, 6))
def within_group(group, steps):
    return run_history(group, steps)


@law(st.tuples(st.lists(STEP, min_size=4, max_size=14).map(tuple)), quick=400, thorough=5000, shards=(2, 2))
def across_modules(steps):
    return run_history(None, steps)


@functools.lru_cache(None)
def generators():
    """the entries of the catalogue that return iterators, by group"""
    w = fresh.world()
    ans = {}
    for k, (group, fn, pools) in enumerate(CALLS):
        for c in range(3):
            try:
                x = fn(w, *[p[-1 - c % len(p)] for p in pools])
            except Exception:
                continue
            if hasattr(x, '__next__'):
                ans.setdefault(group, []).append(k)
            break
    return sorted((k, tuple(v)) for k, v in ans.items())


@law(st.tuples(st.integers(0, 100), st.lists(st.tuples(st.integers(0, 100), st.tuples(*[st.integers(0, 50)] * 5), st.sampled_from([(0, 0, 0, 0, 0)] * 3 + [(1, 0, 0, 0, 0), (0, 1, 0, 0, 0), (0, 0, 1, 0, 0), (0, 0, 0, 1, 0)]), st.booleans()), min_size=1, max_size=3).map(tuple),
               st.lists(st.tuples(st.integers(0, 3), st.integers(0, 5)), max_size=8).map(tuple)), quick=600, thorough=6000, shards=(2, 4))
def iterators(group, openings, moves):
    """Iterators opened side by side on the same or neighbouring arguments, advanced in turns, some abandoned:
    each lists what it lists alone, and so does a later call."""
    w = fresh.world()
    gens = generators()
    ks = gens[group % len(gens)][1]
    calls = []
    for a, seeds, shift, same in openings:
        k = ks[a % len(ks)]
        choice = choice_of(k, seeds)
        calls.append((k, choice))
        if same:
            calls.append((k, choice_of(k, tuple(c + s for c, s in zip(choice, shift)))))
    open_, want = [], []
    for k, choice in calls:
        _, fn, pools = CALLS[k]
        r = alone(k, choice)
        if r[0] == 'raises':
            return False
        open_.append(iter(fn(w, *[p[c] for p, c in zip(pools, choice)])))
        want.append(r)
    got = [[] for _ in open_]
    finished = set()
    for i, amount in moves:
        i %= len(open_)
        for _ in range(amount):
            try:
                got[i].append(next(open_[i]))
            except StopIteration:
                finished.add(i)
                break
    for (k, choice), r in reversed(list(zip(calls, want))):
        _, fn, pools = CALLS[k]
        assert plain(fn(w, *[p[c] for p, c in zip(pools, choice)])) == r, ('with others unfinished', CALLS[k][0], choice)
    for i, it in enumerate(open_):
        got[i].extend(it)
        assert plain(got[i]) == want[i], (CALLS[calls[i][0]][0], calls[i][1])
    part = sum(1 for i, x in enumerate(got) if x and i not in finished)
    return gens[group % len(gens)][0] if part and len(open_) > 1 else False


# ------------------------------------------------- operands keep their value

def make(w, kind, spec):
    """A value of a kind built in one step from a list of integer triples."""
    P, V = w.polynomials, w.vectors
    if kind == 'polynomial':
        H = type(next(iter(P.X(1).coeffs)))
        coeffs = {}
        for a, b, c in spec:
            if c:
                coeffs[H({k: e for k, e in ((a % 9 + 1, b % 3), (-(a // 9), 1)) if k and e})] = c
        return P.Polynomial(coeffs)
    if kind == 'vector':
        return V.Vector({(a, b): c for a, b, c in spec})
    if kind == 'symmetric':
        M = w.symmetric.SymmetricMonomial
        return w.symmetric.SymmetricPolynomial({M(3, tuple(sorted((a % 4, b % 4), reverse=True))): c for a, b, c in spec})
    if kind == 'box':
        ans = w.boxes.BoxOperator()
        for a, b, c in spec[:6]:
            ans = ans + w.boxes.BoxOperator(a % 2, b % 4 - 1, b % 4 + 1) * c
        return ans
    if kind == 'tableau':
        return w.tableaux.Tableau({(a % 5 + 1, b + 1): c or 1 for a, b, c in spec})
    line = sorted(range(1, 6), key=lambda k: (spec[k][2] if k < len(spec) else 0, k))
    return w.permutations.Permutation(*line)


def kind_plain(kind, x):
    return plain(x.vector) if kind == 'box' else plain(x)


OPERATIONS = {
    'polynomial': (operator.add, operator.sub, operator.mul, operator.xor, operator.iadd, operator.isub, operator.imul,
                   lambda f, g: f + 2, lambda f, g: 3 - f, lambda f, g: f * -1, lambda f, g: -f, lambda f, g: f.substitute(1, g),
                   lambda f, g: f.truncate(1), lambda f, g: f.coefficient(2, 1), lambda f, g: f({1: 2, 3: g}), lambda f, g: f ** 2,
                   lambda f, g: f % 2, lambda f, g: f // 2, lambda f, g: f == g, lambda f, g: f < g, lambda f, g: (hash(f), repr(f))),
    'vector': (operator.add, operator.sub, operator.iadd, operator.isub, lambda f, g: f * 3, lambda f, g: -f, lambda f, g: f // 2,
               lambda f, g: f.is_expressable(g), lambda f, g: f == g, lambda f, g: (hash(f), repr(f)), lambda f, g: f.is_positive(),
               lambda f, g: 0 + f, lambda f, g: sum([f, g, f])),
    'symmetric': (operator.add, operator.sub, operator.mul, operator.iadd, operator.isub, operator.imul, lambda f, g: f * 2,
                  lambda f, g: f.truncate(2), lambda f, g: f.lowest_degree_terms(), lambda f, g: f.highest_degree_terms(),
                  lambda f, g: f == g, lambda f, g: (hash(f), repr(f)), lambda f, g: f.polynomial(), lambda f, g: f.serialize()),
    'box': (operator.add, operator.sub, operator.mul, operator.iadd, operator.isub, operator.imul, lambda f, g: f * 2, lambda f, g: 1 - f,
            lambda f, g: f.filter(2), lambda f, g: f == g, lambda f, g: repr(f), lambda f, g: -f),
    'tableau': (lambda t, u: t.add(1, 1, 2), lambda t, u: t.set(2, 2, 3), lambda t, u: t.transpose(), lambda t, u: t.negate(),
                lambda t, u: t.double(), lambda t, u: t.apply(abs), lambda t, u: repr(t), lambda t, u: t.get_row(1), lambda t, u: t.get_column(1),
                lambda t, u: t.standardize(), lambda t, u: t == u, lambda t, u: t < u, lambda t, u: hash(t),
                lambda t, u: [t.remove(i, j) for i, j, v in t], lambda t, u: [t.replace(i, j, 7) for i, j, v in t],
                lambda t, u: [t.clear(i, j) for i, j, v in t], lambda t, u: t.weight(), lambda t, u: t.counter()),
    'permutation': (operator.mul, operator.mod, lambda v, w: v.inverse(), lambda v, w: v ** 3, lambda v, w: v ** -2, lambda v, w: len(v),
                    lambda v, w: v.right_descent_set, lambda v, w: v.left_descent_set, lambda v, w: v.reduced_word, lambda v, w: v == w,
                    lambda v, w: v < w, lambda v, w: repr(v), lambda v, w: v.cycles, lambda v, w: v.code(), lambda v, w: v.star(),
                    operator.imul, lambda v, w: v.tau(1, 2) if v.is_involution() else None, lambda v, w: v.rothe_diagram(), lambda v, w: v.shape()),
}
SPEC = st.integers(0, 30).flatmap(lambda k: st.lists(st.tuples(st.integers(0, 30), st.integers(0, 4), st.integers(-3, 3)), min_size=k, max_size=k)).map(tuple)


@law(st.sampled_from(sorted(OPERATIONS)).flatmap(lambda k: st.tuples(st.just(k), st.lists(SPEC, min_size=2, max_size=3).map(tuple),
     st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 40)), min_size=1, max_size=5).map(tuple))),
     quick=600, thorough=5000, shards=(1, 4))
def operands_unchanged(kind, specs, ops):
    """A chain of operations on values of any length leaves every earlier value as it was."""
    w = fresh.world()
    values = [make(w, kind, s) for s in specs]
    forms = [kind_plain(kind, x) for x in values]
    again = [make(w, kind, s) for s in specs]
    for i, j, k in ops:
        x, y = values[i % len(values)], values[j % len(values)]
        op = OPERATIONS[kind][k % len(OPERATIONS[kind])]
        if kind in ('polynomial', 'symmetric', 'box') and op in (operator.mul, operator.imul, operator.xor) or k % len(OPERATIONS[kind]) in (11, 14, 15) and kind == 'polynomial':
            if max(len(repr(x)), len(repr(y))) > 400:
                continue
        r = op(x, y)
        if type(r) == type(x) and len(repr(r)) < 4000:
            values.append(r)
            forms.append(kind_plain(kind, r))
        for v, form in zip(values, forms):
            assert kind_plain(kind, v) == form, (kind, k % len(OPERATIONS[kind]), form, kind_plain(kind, v))
    for v, u in zip(values, again):
        assert v == u and repr(v) == repr(u)
    return kind if max(map(len, specs)) > 1 else False
