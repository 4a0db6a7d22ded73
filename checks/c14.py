"""C14: tableaux as immutable values: edits, readings, predicates, parsing and rendering."""
import functools
import itertools

from harness import law
from hypothesis import strategies as st
from lib import (st_big_setvalued, boxes_of, cells, col_marked, contains, enc, family, freeze, partitions_upto, row_marked, sv_transfer,
                 transfer, decode_filling, subshapes)
from tableaux import MarkedReversePlanePartition, ReversePlanePartition, Tableau

RULE = 'Non-trivial: at least two cells (edit histories: at least two successful edits).'

VALUES = st.one_of(st.sampled_from([x for a in range(1, 8) for x in (a, -a)]), st.sampled_from([x for a in range(8, 24) for x in (a, -a)]))
SMALL = st.tuples(st.integers(1, 4), st.integers(1, 4))
CELL = st.one_of(SMALL, SMALL, st.tuples(st.integers(1, 12), st.integers(1, 12)))
ENTRY = st.one_of(st.lists(VALUES, min_size=1, max_size=3), st.lists(VALUES, min_size=1, max_size=3), st.lists(VALUES, min_size=4, max_size=6)).map(lambda v: tuple(sorted(v)))
MAP = st.one_of(st.dictionaries(SMALL, ENTRY, max_size=8), st.dictionaries(CELL, ENTRY, max_size=14)).map(freeze)


def snapshot(t):
    return boxes_of(t), hash(t), len(t), tuple(sorted(t.boxes.items())), type(t)


OPS = st.one_of(
    st.tuples(st.just('add'), CELL, VALUES),
    st.tuples(st.just('set'), CELL, st.one_of(VALUES, ENTRY)),
    st.tuples(st.just('replace'), CELL, st.one_of(VALUES, ENTRY)),
    st.tuples(st.just('remove'), CELL, st.one_of(st.none(), st.integers(0, 2))),
    st.tuples(st.just('clear'), CELL, st.none()),
    st.tuples(st.just('pop'), st.none(), st.none()),
    st.tuples(st.sampled_from(['transpose', 'double', 'halve', 'shift']), st.none(), st.none()),
    st.tuples(st.just('negate'), st.none(), st.booleans()),
    st.tuples(st.sampled_from(['get_row', 'get_column']), st.integers(1, 4), st.tuples(st.one_of(st.none(), st.integers(0, 5)), st.one_of(st.none(), st.integers(0, 5)))),
)


def tup(v):
    return v if type(v) is tuple else (v,)


def step(t, m, op, a, b):
    """-> (new tableau, new model) or None when the operation does not apply"""
    m = dict(m)
    if op in ('add', 'set', 'replace', 'remove', 'clear'):
        here = a in m
        if op == 'add':
            m[a] = tuple(sorted(m.get(a, ()) + tup(b)))
            return t.add(a[0], a[1], b), m
        if op == 'set':
            m[a] = tup(b)
            return t.set(a[0], a[1], b), m
        if not here:
            return None
        if op == 'replace':
            m[a] = tup(b)
            return t.replace(a[0], a[1], b), m
        if op == 'clear':
            del m[a]
            return t.clear(*a), m
        if b is None:
            del m[a]
            return t.remove(*a), m
        v = m[a][b % len(m[a])]
        rest = list(m[a])
        rest.remove(v)
        if rest:
            m[a] = tuple(rest)
        else:
            del m[a]
        return t.remove(a[0], a[1], v), m
    if op == 'pop':
        entries = [(abs(x), x, c) for c, v in m.items() for x in v]
        if not entries:
            return None
        top = max(entries)[0]
        tops = [e for e in entries if e[0] == top]
        if len(tops) > 1 or len(set(m[tops[0][2]])) < len(m[tops[0][2]]):
            return None
        _, x, c = tops[0]
        assert t.last() == x
        s, record = t.pop()
        old = m[c] if len(m[c]) > 1 else m[c][0]
        assert tuple(record) == (c[0], c[1], old)
        rest = tuple(y for y in m[c] if y != x)
        if rest:
            m[c] = rest
        else:
            del m[c]
        return s, m
    if op == 'transpose':
        return t.transpose(), {(j, i): v for (i, j), v in m.items()}
    if op == 'double':
        return t.double(), {c: tuple(2 * x for x in v) for c, v in m.items()}
    if op == 'halve':
        if any(x % 2 for v in m.values() for x in v):
            return None
        return t.halve(), {c: tuple(x // 2 for x in v) for c, v in m.items()}
    if op == 'shift':
        return t.apply(lambda x: x + 20), {c: tuple(x + 20 for x in v) for c, v in m.items()}
    if op == 'negate':
        return t.negate(b) if b is not True else t.negate(), {c: v if b and c[0] == c[1] else tuple(sorted(-x for x in v)) for c, v in m.items()}
    k = 1 if op == 'get_row' else 0
    lo, hi = b[1], b[0]
    m = {c: v for c, v in m.items() if c[1 - k] == a and (hi is None or c[k] < hi) and (lo is None or c[k] > lo)}
    return getattr(t, op)(a, before=hi, after=lo), m


@law(st.tuples(MAP, st.lists(OPS, max_size=12).map(tuple)), quick=700, thorough=12000, shards=(2, 4))
def edits(items, ops):
    """A history of edits against a plain cell map; every earlier tableau stays as it was."""
    source = dict(items)
    t = Tableau(source)
    m = dict(items)
    source.clear()
    source[(1, 1)] = (99,)
    history = []
    done = 0
    for op, a, b in ops:
        snap = snapshot(t)
        history.append((t, snap))
        result = step(t, m, op, a, b)
        if result is not None:
            done += 1
            t, m = result
        assert boxes_of(t) == freeze(m), (op, a, b)
        fresh = Tableau(dict(m))
        assert t == fresh and hash(t) == hash(fresh) and len(t) == len(fresh) and not (t < fresh) and not (fresh < t)
        assert repr(t) == repr(fresh)
    for old, snap in history:
        assert snapshot(old) == snap, 'an earlier tableau changed'
    return 'history' if done > 1 else False


@law(st.tuples(MAP, MAP, MAP), quick=300, thorough=4000)
def order_and_equality(x, y, z):
    a, b, c = Tableau(dict(x)), Tableau(dict(reversed(y))), Tableau(dict(z))
    assert (a == b) == (x == y) and (a != b) == (x != y)
    assert a == Tableau(dict(reversed(x))) and hash(a) == hash(Tableau(dict(reversed(x))))
    for p, q in itertools.permutations((a, b, c), 2):
        assert not (p < q and q < p)
        if len(p) != len(q):
            assert (p < q) == (len(p) < len(q))
        w1 = [enc(v) for i, j, e in p for v in e]
        w2 = [enc(v) for i, j, e in q for v in e]
        if len(p) == len(q):
            assert (p < q) == (w1 < w2)
    for p, q, r in itertools.permutations((a, b, c)):
        if p < q and q < r:
            assert p < r
    assert not a < a
    assert len({a, b, c}) == len({x, y, z})
    return 'triple' if len({x, y, z}) > 1 else False


def queries_of(items):
    m = dict(items)
    t = Tableau(dict(items))
    entries = [(x, c) for c, v in sorted(m.items()) for x in v]
    assert t.size() == len(m) and len(t) == len(entries) and bool(t) == bool(m)
    assert t.abs_sum() == sum(abs(x) for x, _ in entries)
    assert t.setvalued_excess() == len(entries) - len(m)
    assert t.values() == {x for x, _ in entries}
    count = {}
    for x, _ in entries:
        count[x] = count.get(x, 0) + 1
    assert t.counter() == count
    top = max([0] + [abs(x) for x, _ in entries])
    w = tuple(count.get(a, 0) + count.get(-a, 0) for a in range(1, top + 1))
    assert tuple(t.weight()) == w
    assert tuple(t.weight(top + 2)) == w + (0, 0)
    assert tuple(t.weight(top)) == w
    assert t.max_row() == max([0] + [i for i, j in m]) and t.max_column() == max([0] + [j for i, j in m])
    for k in range(1, 6):
        row = [j for i, j in m if i == k]
        col = [i for i, j in m if j == k]
        assert t.max_column(k) == max([0] + row) and t.max_row(k) == max([0] + col)
        assert t.last_box_in_row(k) == (max(row) if row else None)
        assert t.last_box_in_column(k) == (max(col) if col else None)
    for a in range(1, 9):
        for x in (a, -a):
            assert sorted(t.find(x)) == sorted({c for y, c in entries if y == x})
    for i in range(1, 6):
        for j in range(1, 6):
            v = m.get((i, j))
            assert ((i, j) in t) == t.contains_box(i, j) == (v is not None)
            assert t.get(i, j, unpack=False) == v
            assert t.get(i, j) == (v[0] if v and len(v) == 1 else v)
            if v is None:
                assert t.get(i, j, default=7) == 7
    shape = tuple(sum(1 for i, j in m if i == k) for k in range(1, t.max_row() + 1))
    assert tuple(t.shape()) == shape
    if entries and not any((-x in count) for x in count if abs(x) == top):
        assert abs(t.last()) == top and t.last() in count
    order = sorted(m, key=lambda c: (-c[0], c[1]))
    rw = tuple(x for c in order for x in m[c])
    cw = tuple(x for c in sorted(m, key=lambda c: (c[1], -c[0])) for x in m[c])
    assert tuple(t.row_reading_word()) == rw
    assert tuple(t.column_reading_word()) == cw
    assert tuple(t.shifted_reading_word()) == tuple(-x for x in cw[::-1] if x < 0) + tuple(x for x in rw if x > 0)


@law(st.tuples(MAP), quick=400, thorough=6000)
def queries(items):
    queries_of(items)
    return 'map' if len(items) > 1 else False


def st_word(tier):
    return st.tuples(st.one_of(st.lists(st.integers(1, 9), max_size=12), st.lists(st.integers(1, 20), max_size=24)).map(tuple))


@law(st_word, quick=200, thorough=2000)
def from_row_reading_word(word):
    t = Tableau.from_row_reading_word(word)
    assert tuple(t.row_reading_word()) == tuple(word)
    runs = sum(1 for k in range(len(word)) if k == 0 or word[k - 1] > word[k])
    assert t.max_row() == runs and all(len(v) == 1 for i, j, v in t)
    for (i, j), v in boxes_of(t):
        assert j == 1 or (i, j - 1) in t
    return 'word' if runs > 1 else False


@functools.lru_cache(2000)
def some_family(kind, n, mu, nu, sv):
    return tuple(freeze(decode_filling(f)) for f in itertools.islice(family(kind, n, mu, nu, sv, True), 400))


@st.composite
def st_semistandard(draw):
    kind, sv = draw(st.sampled_from(['ss', 'marked', 'shifted', 'shifted'])), draw(st.booleans())
    mu = draw(st.sampled_from(partitions_upto(9, None, None, kind == 'shifted')))
    nu = draw(st.sampled_from([x for x in subshapes(mu, kind == 'shifted') if sum(mu) - sum(x) <= (5 if sv else 6)]))
    n = draw(st.integers(1, 3))
    fs = some_family(kind, n, mu, nu, sv)
    if not fs:
        return kind, ()
    return kind, draw(st.sampled_from(fs))


@st.composite
def st_large(draw):
    shifted = draw(st.booleans())
    n, items, _, _ = draw(st_big_setvalued((2, 4, 6), 9, 5, shifted=shifted, primes=draw(st.booleans()), diag=draw(st.booleans()), setvalued=draw(st.booleans())))
    return 'large', items


@law(st.one_of(st_semistandard(), st_large()), quick=600, thorough=8000, shards=(1, 3))
def standardisation(kind, items):
    """Ordered relabelling that keeps primes; descents are the i with i+1 before i in the reading word."""
    t = Tableau(dict(items))
    queries_of(items)
    s = t.standardize()
    m = dict(items)
    n = len(t)
    where = {}
    for (i, j), v in boxes_of(s):
        for x in v:
            assert abs(x) not in where
            where[abs(x)] = (x > 0, (i, j))
    assert sorted(where) == list(range(1, n + 1))
    assert {c: tuple(len([x for x in v if x > 0]) for _ in [0]) for c, v in boxes_of(s)} == {c: tuple(len([x for x in v if x > 0]) for _ in [0]) for c, v in items}
    entries = sorted(((enc(x), (i if x < 0 else j)), x > 0, (i, j)) for (i, j), v in items for x in v)
    for k, (_, sign, c) in enumerate(entries):
        assert where[k + 1] == (sign, c), (k + 1, where[k + 1], c)
    assert s.is_semistandard(True)
    diag = any(i == j and min(v) < 0 for (i, j), v in items)
    assert s.is_standard() == (not diag)
    assert s.standardize() == s
    word = list(s.shifted_reading_word())
    des = {k for k in range(1, n) if word.index(k + 1) < word.index(k)}
    assert set(s.descent_set()) == des, (des, s)
    # equal letters never give a descent
    for k in range(1, n):
        if entries[k - 1][0][0] == entries[k][0][0]:
            assert k not in des
    return kind if n > 1 else False


@st.composite
def st_near(draw):
    kind, items = draw(st.one_of(st_semistandard(), st_large()))
    m = dict(items)
    if m and draw(st.booleans()):
        c = draw(st.sampled_from(sorted(m)))
        m[c] = draw(ENTRY)
    return freeze(m), draw(st.booleans())


@law(st.one_of(st_near(), st.tuples(MAP, st.booleans())), quick=600, thorough=8000, shards=(1, 3))
def semistandard_test(items, diag):
    t = Tableau(dict(items))
    m = {c: tuple(sorted(enc(x) for x in v)) for c, v in items}
    ok = True
    for (i, j), v in m.items():
        if i == j and not diag and any(x % 2 for x in v):
            ok = False
        if (i, j + 1) in m and not row_marked(v, m[(i, j + 1)]):
            ok = False
        if (i + 1, j) in m and not col_marked(v, m[(i + 1, j)]):
            ok = False
    assert bool(t.is_semistandard(diag)) == ok
    if not diag:
        assert bool(t.is_semistandard()) == ok
        letters = sorted(abs(x) for c, v in items for x in v)
        assert bool(t.is_standard()) == (ok and letters == list(range(1, len(letters) + 1)))
    cols = sorted(m, key=lambda c: (c[1], c[0]))
    sup = all(dict(items)[c] == (k + 1,) for k, c in enumerate(cols))
    assert bool(t.is_shifted_column_superstandard()) == sup
    return ('yes' if ok else 'no') if len(items) > 1 else False


@law(st.tuples(st.sampled_from(partitions_upto(12, None, None, True)), st.integers(0, 3), CELL, st.integers(1, 9)), quick=150, thorough=1000)
def superstandard(mu, change, cell, v):
    m = {c: k + 1 for k, c in enumerate(sorted(cells(mu, (), True), key=lambda c: (c[1], c[0])))}
    good = True
    if not change and cell in m:
        good = m[cell] == v
        m[cell] = v
    assert bool(Tableau(m).is_shifted_column_superstandard()) == good
    return 'shifted' if len(m) > 1 else False


def text(v):
    return ','.join(str(x) if x > 0 else "%d'" % -x for x in v)


@law(st.tuples(MAP, st.booleans()), quick=400, thorough=5000)
def parse_and_render(items, semicolons):
    m = {c: v for c, v in items}
    t = Tableau(dict(m))
    rows = max([0] + [i for i, j in m])
    source = []
    for i in range(1, rows + 1):
        width = max([0] + [j for a, j in m if a == i])
        source.append('  '.join(text(m[(i, j)]) if (i, j) in m else '.' for j in range(1, width + 1)) or '.')
    parsed = Tableau((';' if semicolons else '\n').join(source))
    assert parsed == t, source
    array = t.string_array
    assert len(array) == rows
    from tableaux import FRENCH
    order = list(reversed(array)) if FRENCH else list(array)
    width = max([0] + [j for i, j in m])
    for i, row in enumerate(order):
        assert len(row) == width
        for j, x in enumerate(row):
            v = m.get((i + 1, j + 1))
            want = '.' if v is None else text(sorted(v, key=lambda y: (abs(y), y)))
            assert x.strip() == want, (x, want)
    for j in range(width):
        assert len({len(row[j]) for row in array}) <= 1, 'column not aligned'
    assert Tableau('\n'.join(' '.join(row) for row in order)) == t
    assert repr(t).strip('\n').split('\n') == [' '.join(row) for row in array] or not m
    assert t.string_array == array
    tex = t.tex()
    body = tex[tex.index('}') + 1:tex.rindex('\\end')].strip()
    got = [[tuple(int(y) for y in x.strip().split(',')) for x in line.strip().split('&')] for line in body.split('\\\\')] if m else []
    assert got == [[m[(i, j)] for j in sorted(j for a, j in m if a == i)] for i in sorted({a for a, j in m}, reverse=True)]
    assert dict(t.serialize()) == m and Tableau(t.serialize()) == t
    return 'text' if len(m) > 1 else False


@law(st.tuples(MAP, st.lists(st.tuples(CELL, VALUES), max_size=4).map(tuple)), quick=150, thorough=1500)
def subclasses(items, adds):
    """Edits of (marked) reverse plane partitions stay in their class and follow the same model."""
    for cls in (ReversePlanePartition, MarkedReversePlanePartition):
        t, m = cls(dict(items)), dict(items)
        for c, v in adds:
            s, (u, m) = t, step(t, m, 'add', c, v)
            before = boxes_of(s)
            assert type(u) is cls and boxes_of(u) == freeze(m)
            assert boxes_of(s) == before
            t = u
        assert t == cls(dict(m)) and hash(t) == hash(cls(dict(m)))
        if m:
            c = sorted(m)[0]
            u = t.remove(*c)
            assert type(u) is cls and boxes_of(u) == freeze({k: v for k, v in m.items() if k != c})
    return 'subclass' if len(adds) > 1 else False
