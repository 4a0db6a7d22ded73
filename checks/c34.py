"""C34: Hecke, orthogonal and symplectic Hecke insertion."""
import itertools

from harness import law
from hypothesis import strategies as st
import fresh
import permlib as P
from insertion import FState, HState, InsertionAlgorithm
from tableaux import Tableau

RULE = 'Non-trivial: some letter of the word bumps or some box holds several recorded values.'


# ------------------------------------------------------------- plain models

def hecke_model(word):
    """Hecke row insertion; returns {cell: letter}, {cell: tuple of indices}."""
    rows, q = [], {}
    for k, a in enumerate(word):
        r = 0
        while True:
            if r == len(rows):
                rows.append([])
            row = rows[r]
            c = next((c for c, b in enumerate(row) if b > a), None)
            above = (lambda c: r == 0 or rows[r - 1][c] < a)
            if c is None:
                if (not row or row[-1] < a) and (r == 0 or (len(row) < len(rows[r - 1]) and above(len(row)))):
                    row.append(a)
                    cell = (r, len(row) - 1)
                else:
                    col = len(row) - 1
                    cell = (max(i for i in range(len(rows)) if len(rows[i]) > col), col)
                break
            b = row[c]
            if (c == 0 or row[c - 1] < a) and above(c):
                row[c] = a
            a = b
            r += 1
        if not rows[-1]:
            rows.pop()
        cell = (cell[0] + 1, cell[1] + 1)
        q[cell] = q.get(cell, ()) + (k + 1,)
    return {(i + 1, j + 1): a for i, row in enumerate(rows) for j, a in enumerate(row)}, q


def symplectic_model(word):
    p, q = {}, {}
    for k, a in enumerate(word):
        i = j = 1
        by_row, diagonal, steps = True, False, 0
        while True:
            steps += 1
            if by_row:
                cols = []
                while (i, i + len(cols)) in p:
                    cols.append(i + len(cols))
                c = next((c for c in cols if p[i, c] > a), None)
                if c is None:
                    cell = (i, i + len(cols))
                    if all(p[i, x] < a for x in cols) and all(v < a for (x, y), v in p.items() if y == cell[1]):
                        p[cell] = a
                    break
                b = p[i, c]
                roof = i == 1 or p[i - 1, c] < a
                if c == i:
                    diagonal = True
                    by_row, j = False, i + 1
                    if (a - b) % 2:
                        b += 1
                    elif roof:
                        p[i, i] = a
                elif p[i, c - 1] < a and roof:
                    p[i, c] = a
                    i += 1
                elif c == i + 1 and (i + 1, i + 1) not in p:
                    by_row, j = False, i + 1
                else:
                    i += 1
                a = b
            else:
                h = 0
                while (h + 1, j) in p:
                    h += 1
                r = next((r for r in range(1, h + 1) if p[r, j] > a), None)
                if r is None:
                    cell = (h + 1, j)
                    if all(p[x, j] < a for x in range(1, h + 1)) and all(v < a for (x, y), v in p.items() if x == h + 1):
                        p[cell] = a
                    break
                b = p[r, j]
                if r == j:
                    diagonal = True
                if (r == j or p[r, j - 1] < a) and (r == 1 or p[r - 1, j] < a):
                    p[r, j] = a
                a = b
                j += 1
        added = cell in p and p[cell] is not None and cell not in q
        primed = diagonal or (not added and cell[0] == cell[1])
        if not added:
            if primed:
                cell = (cell[0] - 1, max(y for x, y in p if x == cell[0] - 1))
            else:
                cell = (max(x for x, y in p if y == cell[1] - 1), cell[1] - 1)
        q.setdefault(cell, ())
        q[cell] = tuple(sorted(q[cell] + (-k - 1 if primed else k + 1,)))
    return p, q


def single(boxes):
    return {c: (v,) for c, v in boxes.items()}


# --------------------------------------------------------- plain definitions

def code(v):
    return 2 * v if v > 0 else -1 - 2 * v


def semistandard(q, sets):
    for (i, j), v in q.items():
        if i == j and any(x < 0 for x in v) and sets == 'shifted':
            return False
    for (i, j), v in q.items():
        top = max(code(x) for x in v)
        if (i, j + 1) in q:
            low = min(code(x) for x in q[i, j + 1])
            if low < top or (low == top and top % 2):
                return False
        if (i + 1, j) in q:
            low = min(code(x) for x in q[i + 1, j])
            if low < top or (low == top and top % 2 == 0):
                return False
    return True


def rows_word(p):
    return tuple(p[c] for c in sorted(p, key=lambda c: (-c[0], c[1])))


def increasing(p):
    return all(p.get((i, j + 1), v + 1) > v and p.get((i + 1, j), v + 1) > v for (i, j), v in p.items())


def shape_ok(cells, shifted):
    rows = {}
    for i, j in cells:
        rows.setdefault(i, []).append(j)
    if sorted(rows) != list(range(1, len(rows) + 1)):
        return False
    lens = []
    for i in sorted(rows):
        start = i if shifted else 1
        if sorted(rows[i]) != list(range(start, start + len(rows[i]))):
            return False
        lens.append(len(rows[i]))
    return all(a > b if shifted else a >= b for a, b in zip(lens, lens[1:]))


def descents(q, shifted):
    where = {abs(v): (c, v > 0) for c, vals in q.items() for v in vals}
    ans = set()
    for i in range(1, len(where)):
        (a, up), (b, vp) = where[i], where[i + 1]
        if (up and not vp) or (up and vp and b[0] > a[0]) or (not up and not vp and b[1] > a[1]):
            ans.add(i)
    return ans


def make_record(word, jumps, multi):
    """the weakly increasing record with the given slack at every position"""
    rec = []
    for k in range(len(word)):
        must = 0
        if k and (word[k - 1] > word[k] if multi else word[k - 1] <= word[k]):
            must = 1
        rec.append((rec[-1] if rec else 1) + must + (jumps[k] if k < len(jumps) else 0))
    return tuple(rec)


def flip(q, kind):
    """the recording tableau of the set-valued mode"""
    if kind == 'hecke':
        return {(j, i): v for (i, j), v in q.items()}
    return {(i, j): tuple(sorted(-x if i != j else x for x in v)) for (i, j), v in q.items()}


def relabel(q, rec):
    return {c: tuple(sorted(rec[x - 1] if x > 0 else -rec[-x - 1] for x in v)) for c, v in q.items()}


ALG = {
    'hecke': (InsertionAlgorithm.hecke, InsertionAlgorithm.inverse_hecke),
    'orthogonal': (InsertionAlgorithm.orthogonal_hecke, InsertionAlgorithm.inverse_orthogonal_hecke),
    'symplectic': (InsertionAlgorithm.symplectic_hecke, InsertionAlgorithm.inverse_symplectic_hecke),
}


def model(kind, word):
    if kind == 'hecke':
        return hecke_model(word)
    if kind == 'symplectic':
        return symplectic_model(word)
    p, q = symplectic_model(tuple(2 * a for a in word))
    assert all(v % 2 == 0 for v in p.values())
    return {c: v // 2 for c, v in p.items()}, q


def same_class(kind, u, v):
    if kind == 'hecke':
        return P.hecke_of(u) == P.hecke_of(v)
    if kind == 'orthogonal':
        return P.inv_hecke_of(u) == P.inv_hecke_of(v)
    n = max(u + v, default=0) + 2
    n += n % 2
    return P.inv_hecke_of(u, P.minfpf(n)) == P.inv_hecke_of(v, P.minfpf(n))


def check_word(kind, word, jumps, multi):
    fwd, back = ALG[kind]
    rec = make_record(word, jumps, multi)
    p0, q0 = model(kind, word)
    p, q = fwd(word, rec, multi) if not multi else fwd(word, rec)
    shifted = kind != 'hecke'
    pwant = p0 if multi or shifted else {(j, i): v for (i, j), v in p0.items()}
    qstd = q0 if multi else flip(q0, kind)
    assert p.boxes == single(pwant), (p.boxes, pwant)
    assert q.boxes == relabel(qstd, rec), (q.boxes, relabel(qstd, rec))
    # theorems which do not mention the algorithm
    assert set(p.boxes) == set(q.boxes) and shape_ok(set(p.boxes), shifted)
    assert increasing(pwant)
    assert same_class(kind, rows_word(p0), word)
    assert semistandard(q.boxes, 'shifted' if shifted else '')
    if not multi:
        assert all(len(set(v)) == len(v) for v in q.boxes.values())
    n = max(rec, default=0)
    assert q.weight(n) == tuple(rec.count(a + 1) for a in range(n))
    # inverse
    assert back(p, q, multi) == (word, rec)
    # standard recording tableau and descents
    p1, q1 = fwd(word)
    assert p1.boxes == single(p0) and q1.boxes == q0
    assert q1.is_standard()
    desc = {i + 1 for i in range(len(word) - 1) if word[i] > word[i + 1]}
    assert q1.descent_set() == desc == descents(q0, shifted)
    p2, q2 = fwd(word, None, False)
    assert p2.boxes == single(pwant if not multi or shifted else {(j, i): v for (i, j), v in p0.items()}) and q2.boxes == flip(q0, kind)
    assert back(p2, q2, False) == (word, tuple(range(1, len(word) + 1)))
    assert back(p1, q1) == (word, tuple(range(1, len(word) + 1)))
    big = any(len(v) > 1 for v in q0.values())
    return ('repeated' if big else 'plain') if len(word) > 1 else False


def letters(n, m):
    return st.lists(st.integers(1, m), max_size=n).map(tuple)


def jumps(n):
    return st.one_of(st.just(()), st.lists(st.sampled_from((0, 0, 0, 1, 2)), max_size=n).map(tuple))


def hecke_words(tier):
    for m, n in ((2, 6), (3, 5), (4, 4)) if tier == 'quick' else ((2, 9), (3, 7), (4, 6), (5, 5)):
        for k in range(n + 1):
            for w in itertools.product(range(1, m + 1), repeat=k):
                for multi in (True, False):
                    yield w, (), multi


WORDS = st.one_of(letters(9, 4), letters(14, 8), letters(25, 5), st.permutations(range(1, 10)).map(tuple))


@law(st.tuples(WORDS, jumps(12), st.booleans()), quick=1500, thorough=8000, shards=(3, 4), exhaustive=hecke_words)
def hecke(word, slack, multi):
    return check_word('hecke', word, slack, multi)


@law(st.tuples(WORDS, jumps(12), st.booleans()), quick=1500, thorough=8000, shards=(3, 4), exhaustive=hecke_words)
def orthogonal(word, slack, multi):
    return check_word('orthogonal', word, slack, multi)


def to_symplectic(seeds, rank):
    """turn any integers into a symplectic Hecke word"""
    z, word = P.minfpf(2 * rank), []
    for a in seeds:
        ok = [i for i in range(1, 2 * rank) if P.at(z, i) != i + 1]
        if not ok:
            break
        i = ok[a % len(ok)]
        z = P.conj_dem(z, i)
        z = z + tuple(range(len(z) + 1, 2 * rank + 1))
        word.append(i)
    return tuple(word)


def symplectic_words(tier):
    def grow(z, word, n, rank):
        yield word
        if n:
            for i in range(1, 2 * rank):
                if P.at(z, i) != i + 1:
                    yield from grow(P.conj_dem(z, i), word + (i,), n - 1, rank)
    for rank, n in ((2, 5), (3, 4)) if tier == 'quick' else ((2, 8), (3, 6), (4, 5)):
        for w in grow(P.minfpf(2 * rank), (), n, rank):
            for multi in (True, False):
                yield w, (), multi


SYMP = st.builds(to_symplectic, st.lists(st.integers(0, 1000), max_size=20), st.integers(2, 6))


@law(st.tuples(SYMP, jumps(12), st.booleans()), quick=1500, thorough=8000, shards=(3, 4), exhaustive=symplectic_words)
def symplectic(word, slack, multi):
    return check_word('symplectic', word, slack, multi)


# ------------------------------------------------------------- the other way

def grow_recording(choices, shifted, shape=None):
    """A standard set-valued (marked shifted) tableau from a list of integers."""
    q = {}
    goal = None if shape is None else {(i + 1, (i if shifted else 0) + j + 1) for i, a in enumerate(shape) for j in range(a)}
    k = 0
    while True:
        moves = []
        rows = [sum(1 for c in q if c[0] == i) for i in range(1, len(q) + 2)]
        for i, a in enumerate(rows):
            if i and rows[i - 1] == 0:
                break
            if i == 0 or (rows[i - 1] > a + 1 if shifted else rows[i - 1] > a):
                cell = (i + 1, (i if shifted else 0) + a + 1)
                if goal is None or cell in goal:
                    moves.append(cell)
        if goal is not None and not moves:
            break
        if goal is None and k >= len(choices):
            break
        if k < len(choices):
            moves += [c for c in q if (c[0], c[1] + 1) not in q and (c[0] + 1, c[1]) not in q]
        seed = choices[k] if k < len(choices) else 0
        cell = moves[seed % len(moves)]
        k += 1
        primed = shifted and cell[0] != cell[1] and (seed // len(moves)) % 2
        q[cell] = tuple(sorted(q.get(cell, ()) + (-k if primed else k,)))
    return q


def fill_increasing(cells, steps):
    p = {}
    for n, c in enumerate(sorted(cells, key=lambda c: (c[0] + c[1], c[0]))):
        p[c] = max(p.get((c[0] - 1, c[1]), 0), p.get((c[0], c[1] - 1), 0)) + 1 + (steps[n] if n < len(steps) else 0)
    return p


def check_pair(kind, p, qstd, slack, multi):
    """(p, qstd) in the row convention; every such pair must come from exactly one word."""
    fwd, back = ALG[kind]
    n = sum(map(len, qstd.values()))
    desc = descents(qstd, kind != 'hecke')
    rec = []
    for k in range(1, n + 1):
        must = int(k > 1 and ((k - 1 in desc) if multi else (k - 1 not in desc)))
        rec.append((rec[-1] if rec else 1) + must + (slack[k - 1] if k <= len(slack) else 0))
    if not multi:
        pp = {(j, i): v for (i, j), v in p.items()} if kind == 'hecke' else p
        qq = relabel(flip(qstd, kind), rec)
    else:
        pp, qq = p, relabel(qstd, rec)
    pt, qt = Tableau(pp), Tableau(qq)
    word, record = back(pt, qt, multi)
    assert record == tuple(rec), (record, rec)
    assert len(word) == n and all(type(a) == int and a > 0 for a in word)
    assert pt.boxes == single(pp) and qt.boxes == qq
    p0, q0 = model(kind, word)
    assert p0 == p and q0 == qstd
    assert fwd(word, record, multi) == (pt, qt)
    return ('repeated' if n > len(qstd) else 'plain') if n > 1 else False


CHOICES = st.lists(st.integers(0, 10 ** 6), max_size=14).map(tuple)
STEPS = st.one_of(st.just(()), st.lists(st.sampled_from((0, 0, 1, 2)), max_size=14).map(tuple))


@law(st.tuples(CHOICES, STEPS, jumps(14), st.booleans()), quick=1500, thorough=8000, shards=(2, 4))
def inverse_hecke(choices, steps, slack, multi):
    q = grow_recording(choices, False)
    return check_pair('hecke', fill_increasing(set(q), steps), q, slack, multi)


@law(st.tuples(CHOICES, STEPS, jumps(14), st.booleans()), quick=1500, thorough=8000, shards=(2, 4))
def inverse_orthogonal(choices, steps, slack, multi):
    q = grow_recording(choices, True)
    return check_pair('orthogonal', fill_increasing(set(q), steps), q, slack, multi)


@law(st.tuples(SYMP, CHOICES, jumps(14), st.booleans()), quick=1500, thorough=8000, shards=(2, 4))
def inverse_symplectic(word, choices, slack, multi):
    p, _ = symplectic_model(word)
    rows = {}
    for i, j in p:
        rows[i] = rows.get(i, 0) + 1
    q = grow_recording(choices, True, [rows[i] for i in sorted(rows)])
    return check_pair('symplectic', p, q, slack, multi)


# ------------------------------------------------------------------ histories

@law(st.tuples(letters(8, 4), letters(8, 4)), quick=500, thorough=3000)
def continued(u, v):
    """Inserting in two runs is the same as inserting once."""
    for state, scale in ((HState, 1), (FState, 2)):
        a = tuple(scale * x for x in u)
        b = tuple(scale * x for x in v)
        p, q = state.insertion_tableaux(*a)
        p2, q2 = state.insertion_tableaux(*b, p=p, q=q)
        assert (p2, q2) == state.insertion_tableaux(*(a + b)) == state.insertion_tableaux(a + b)
        p0, q0 = (hecke_model if scale == 1 else symplectic_model)(a)
        assert p.boxes == single(p0) and q.boxes == q0
        assert state.inverse_insertion(p2, q2) == a + b
    return 'two' if u and v else False


@law(st.tuples(st.sampled_from(['hecke', 'orthogonal', 'symplectic']), letters(10, 5)), quick=500, thorough=3000)
def bumping(kind, word):
    """The steps of inserting one letter, taken singly: first and last state, equality and undoing of steps."""
    if not word:
        return False
    if kind == 'symplectic':
        word = to_symplectic(word, 3)
    w = tuple(2 * a for a in word) if kind == 'orthogonal' else word
    cls = HState if kind == 'hecke' else FState
    mod = hecke_model if kind == 'hecke' else symplectic_model
    p = cls.insertion_tableaux(*w[:-1])[0]
    before = dict(p.boxes)
    start = cls(p)
    assert start.is_terminal() and not start.is_initial()
    assert start == cls(p) and hash(start) == hash(cls(p)) and repr(start) == repr(p)
    assert start.next() == (start, None) and list(start.path()) == []
    first = start.add(w[-1])
    assert first.is_initial() and not first.is_terminal() and first != start
    t, v = first.pop()
    assert t == p and v == w[-1] and first.outer in first
    states = [first]
    boxes = []
    for s, box in first.path():
        assert s == states[-1].next()[0] and box == states[-1].next()[1]
        assert not s.is_initial()
        states.append(s)
        boxes.append(box)
    final, path = start.insert(w[-1])
    assert path == boxes and final == states[-1] and hash(final) == hash(states[-1])
    assert final.is_terminal() and final.boxes == single(mod(w)[0])
    assert all(not s.is_terminal() for s in states[:-1])
    for a, b in list(zip(states, states[1:]))[:-1]:
        assert b.previous()[0] == a, (a.boxes, b.boxes)
    assert first.previous() == (first, None)
    assert p.boxes == before
    return 'steps' if len(boxes) > 1 else 'one step'


@law(st.tuples(st.lists(st.tuples(st.sampled_from(sorted(ALG)), letters(6, 3), jumps(6), st.booleans()), min_size=2, max_size=8).map(tuple)),
     quick=150, thorough=1200, shards=(1, 2))
def history(calls):
    """In a process with nothing cached, every call answers as the models do, whatever came before."""
    w = fresh.world('insertion')
    alg = w.insertion.InsertionAlgorithm
    done = []
    for kind, word, slack, multi in calls:
        if kind == 'symplectic':
            word = to_symplectic(word, 3)
        rec = make_record(word, slack, multi)
        fwd = {'hecke': alg.hecke, 'orthogonal': alg.orthogonal_hecke, 'symplectic': alg.symplectic_hecke}[kind]
        p0, q0 = model(kind, word)
        p, q = fwd(word, rec, multi)
        qq = relabel(q0 if multi else flip(q0, kind), rec)
        pp = single({(j, i): v for (i, j), v in p0.items()} if kind == 'hecke' and not multi else p0)
        assert p.boxes == pp and q.boxes == qq
        done.append((p, q, pp, qq))
        assert all(a.boxes == c and b.boxes == d for a, b, c, d in done)
    return 'history'
