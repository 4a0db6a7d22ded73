"""C16: unpriming the diagonal of shifted set-valued tableaux."""
from collections import Counter

from harness import law
from hypothesis import strategies as st
from insertion import InsertionAlgorithm
from lib import boxes_of, cellset, contains, decode_filling, family, freeze, partitions_upto, st_big_setvalued, valid_marked
from tableaux import Tableau

RULE = 'Non-trivial: some diagonal cell has at least two entries, one of them primed.'


def shape_rows(m):
    rows = {}
    for i, j in m:
        rows[i] = rows.get(i, 0) + 1
    return rows


def check(items, strict):
    m = dict(items)
    t = Tableau(dict(m))
    s = InsertionAlgorithm.unprime_diagonal(t)
    assert boxes_of(t) == freeze(m), 'argument changed'
    new = dict(boxes_of(s))
    assert set(m) <= set(new), 'boxes lost'
    assert Counter(abs(x) for v in new.values() for x in v) == Counter(abs(x) for v in m.values() for x in v), 'content'
    mixed = [c for c, v in m.items() if c[0] == c[1] and len(v) > 1 and min(v) < 0]
    if not mixed:
        assert new == m
    rows = shape_rows(new)
    top = max([0] + list(rows))
    assert top == max([0] + [i for i, j in m]), 'a new row'
    for i in range(1, top + 1):
        assert sorted(j for a, j in new if a == i) == list(range(i, i + rows[i])), 'not a shifted shape'
        assert i == 1 or rows[i] < rows[i - 1]
    for (i, j), v in new.items():
        if i == j and len(v) > 1 and min(v) < 0:
            assert len([x for x in v if x < 0]) == 1 and -min(v) > max(v), ('mixed diagonal cell', v)
    assert s.is_semistandard(diagonal_primes=True)
    # a single primed entry is left alone, and unpriming again changes nothing
    for (i, j), v in m.items():
        if i == j and len(v) == 1:
            assert new[(i, j)] == v or v[0] > 0 or new[(i, j)][0] == v[0]
    again = InsertionAlgorithm.unprime_diagonal(s)
    assert again == s, 'not idempotent'
    if strict:
        assert valid_marked(new), 'not a set-valued marked tableau'
        old = shape_rows(m)
        assert all(0 <= rows[i] - old[i] <= 1 for i in rows), 'more than one new box in a row'
    return bool(mixed)


@law(st_big_setvalued((1, 1, 2, 2, 2), 12, 5, straight=True), quick=600, thorough=6000, shards=(1, 3))
def two_letters(n, items, mu, nu):
    """At most two letters: the result is again set-valued and gains at most one box in each row."""
    return 'n=%d' % n if check(items, True) else False


@law(st_big_setvalued((3, 3, 4, 5), 9, 5, straight=True), quick=1200, thorough=12000, shards=(2, 4))
def more_letters(n, items, mu, nu):
    return 'n=%d' % n if check(items, False) else False


def exh(tier):
    for n, top in ((1, 9), (2, 7 if tier == 'quick' else 9), (3, 4 if tier == 'quick' else 5), (4, 2 if tier == 'quick' else 3)):
        for mu in partitions_upto(top, None, None, True):
            yield n, mu


@law(exhaustive=exh, quick=0, shards=(2, 4))
def all_small(n, mu):
    """Every tableau of the shape; tableaux with the same unpriming differ only in primes."""
    seen = {}
    for f in family('shifted', n, mu, (), True, True):
        m = decode_filling(f)
        check(freeze(m), n <= 2)
        key = boxes_of(InsertionAlgorithm.unprime_diagonal(Tableau(m)))
        seen.setdefault(key, []).append(m)
    return 'n=%d' % n if len(seen) > 1 else False


def exh3(tier):
    for mu in partitions_upto(4, None, None, True):
        for f in family('shifted', 3, mu, (), True, True):
            m = decode_filling(f)
            if any(i == j and len(v) > 1 and v[0] < 0 for (i, j), v in m.items()):
                yield (freeze(m),)


@law(exhaustive=exh3, quick=0, shards=(2, 2))
def three_letters(items):
    """The strong form for three letters on at most four cells (see known_findings.txt)."""
    return 'n=3' if check(items, True) else False
