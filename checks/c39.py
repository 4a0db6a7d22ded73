"""C39: statistics of words, quasisymmetrisation, wiring diagrams."""
import itertools

from harness import law
from hypothesis import strategies as st
from vectors import Vector
from words import Word

RULE = 'Non-trivial: a word of length at least 3 (statistics: with a repeated letter or both an ascent and a descent).'

WORDS = st.one_of(st.lists(st.integers(1, 5), max_size=9), st.lists(st.integers(1, 3), max_size=16), st.lists(st.integers(1, 15), max_size=14)).map(tuple)


def all_words(letters, size):
    for k in range(size + 1):
        yield from itertools.product(range(1, letters + 1), repeat=k)


def exh_words(tier):
    for w in all_words(4, 5 if tier == 'quick' else 7):
        yield (w,)


def strictly(w, up):
    return all((w[b] - w[a]) * up > 0 for a in range(len(w)) for b in range(a + 1, len(w)))


def weakly(w, up):
    return all((w[b] - w[a]) * up >= 0 for a in range(len(w)) for b in range(a + 1, len(w)))


def fewest_factors(w):
    """least number of consecutive factors without an inner letter that is >= both neighbours"""
    best = [0] + [None] * len(w)
    for j in range(1, len(w) + 1):
        best[j] = min(best[i] + 1 for i in range(j)
                      if not any(w[k] >= w[k - 1] and w[k] >= w[k + 1] for k in range(i + 1, j - 1)))
    return best[-1]


def kind_of(w):
    if len(w) < 3:
        return False
    up = any(a < b for a, b in zip(w, w[1:]))
    down = any(a > b for a, b in zip(w, w[1:]))
    if len(set(w)) < len(w):
        return 'repeats' + ('+up' if up else '') + ('+down' if down else '')
    return 'mixed' if up and down else False


@law(st.tuples(WORDS), quick=600, thorough=4000, exhaustive=exh_words)
def statistics(w):
    for v in (w, list(w)):
        d = Word.descent_set(v)
        assert type(d) == set and d == {i for i in range(1, len(w)) if w[i - 1] > w[i]}
        assert Word.ascents(v) == len([i for i in range(1, len(w)) if w[i - 1] <= w[i]])
        assert Word.ascents(v) + len(d) == max(0, len(w) - 1)
        assert Word.peaks(v) == fewest_factors(w)
        assert tuple(v) == w
    return kind_of(w)


@law(st.tuples(WORDS), quick=600, thorough=4000, exhaustive=exh_words)
def zetas(w):
    for v in (w, list(w)):
        assert Word.increasing_zeta(v) == int(strictly(w, 1))
        assert Word.decreasing_zeta(v) == int(strictly(w, -1))
        assert Word.weakly_increasing_zeta(v) == int(weakly(w, 1))
        assert Word.weakly_decreasing_zeta(v) == int(weakly(w, -1))
        for fn, down, up in (
            (Word.unimodal_zeta, strictly, strictly), (Word.right_weakly_unimodal_zeta, strictly, weakly),
            (Word.left_weakly_unimodal_zeta, weakly, strictly), (Word.weakly_unimodal_zeta, weakly, weakly),
        ):
            want = sum(1 for i in range(len(w) + 1) if down(w[:i], -1) and up(w[i:], 1))
            assert fn(v) == want, fn.__name__
    return kind_of(w)


NAMED = ('increasing_zeta', 'decreasing_zeta', 'weakly_increasing_zeta', 'weakly_decreasing_zeta', 'unimodal_zeta',
         'right_weakly_unimodal_zeta', 'left_weakly_unimodal_zeta', 'weakly_unimodal_zeta')


def compositions(n):
    for k in range(n and 1, n + 1):
        for cut in itertools.combinations(range(1, n), k - 1 if k else 0):
            b = (0,) + cut + (n,)
            yield tuple(y - x for x, y in zip(b, b[1:]))
    if n == 0:
        pass


def model_quasi(w, zeta):
    ans = {}
    if not w:
        return {(): 1}
    for c in compositions(len(w)):
        p, i = 1, 0
        for part in c:
            p *= zeta(w[i:i + part])
            i += part
        if p:
            ans[c] = p
    return ans


def weigh(salt):
    """an arbitrary integer weight on words, often zero"""
    def zeta(u):
        h = salt
        for a in u:
            h = (h * 31 + 7 * a + 3) % 1009
        return (h % 7) - 3 if h % 3 else 0
    return zeta


@law(st.tuples(st.one_of(st.lists(st.integers(1, 4), max_size=8), st.lists(st.integers(1, 12), max_size=9)).map(tuple), st.one_of(st.sampled_from(NAMED), st.integers(0, 1000))),
     quick=600, thorough=4000,
     exhaustive=lambda tier: ((w, z) for w in all_words(3, 4 if tier == 'quick' else 6) for z in NAMED + (5,)))
def quasisymmetrize(w, z):
    """The coefficient of a composition is the product of the weights of the factors it cuts."""
    zeta = weigh(z) if isinstance(z, int) else getattr(Word, z)
    model = {'increasing_zeta': lambda u: int(strictly(u, 1)), 'decreasing_zeta': lambda u: int(strictly(u, -1)),
             'weakly_increasing_zeta': lambda u: int(weakly(u, 1)), 'weakly_decreasing_zeta': lambda u: int(weakly(u, -1))}.get(z, zeta)
    got = Word.quasisymmetrize(w, zeta)
    assert isinstance(got, Vector)
    assert dict(got.items()) == model_quasi(w, model)
    assert dict(Word.quasisymmetrize(w, zeta).items()) == model_quasi(w, model)
    return ('arbitrary' if isinstance(z, int) else z) if len(w) >= 3 and got else False


# --------------------------------------------------------------- diagrams

BOX, BAR, CUP = '█', '│', '╰───╯'
CROSS = ((' ╲ ╱    '), ('  ╳     '), (' ╱ ╲    '))


def steps(lines, n, extra=''):
    """cut the picture into the blocks of one letter each, top first"""
    assert len(lines) % 4 == 0
    for k in range(0, len(lines), 4):
        yield lines[k:k + 4]


def permute(word, n):
    w = list(range(1, n + 1))
    for i in word:
        w[i - 1], w[i] = w[i], w[i - 1]
    return tuple(w)


def split(picture, n):
    lines = picture.split('\n')
    assert lines[0] == '' and lines[-1] == ''
    assert lines[1] == (BOX + '   ') * n
    assert lines[-3] == '' and lines[-2] == '   '.join(str(i) for i in range(1, n + 1)), lines[-2]
    return lines[2:-3]


def column_of_cross(block, n):
    found = [j for j in range(1, n) if all(block[r][4 * j - 4:4 * j + 4] == CROSS[r] for r in range(3))]
    assert len(found) <= 1
    return found[0] if found else None


def check_label(block, n, position, labels, extra=0):
    assert block[1][4 * n:] == str(position) + (': ' + str(labels[position]) if labels else ''), block[1]
    assert all(block[r][4 * n:] == '' for r in (0, 2, 3))


def labels_for(w, flag):
    return [''] + ['L%d' % (7 * i % 5) for i in range(len(w))] if flag else None


@law(st.tuples(st.one_of(st.lists(st.one_of(st.integers(1, 6), st.none()), max_size=9), st.lists(st.one_of(st.integers(1, 8), st.none()), max_size=16)).map(tuple), st.booleans()), quick=400, thorough=2500,
     exhaustive=lambda tier: ((w, b) for w in all_words(3, 4 if tier == 'quick' else 6) for b in (False, True)))
def wiring(w, flag):
    """One step per letter (a gap for None); following the strands gives the permutation."""
    letters = [i for i in w if i is not None]
    n = max(letters) + 1 if letters else 1
    labels = labels_for(w, flag)
    picture = Word.wiring_diagram(w, labels)
    if labels is None:
        assert picture == Word.wiring_diagram(w)
    lines = split(picture, n)
    blocks = list(steps(lines, n))
    assert len(blocks) == len(w)
    where = list(range(n + 1))     # strand (numbered at the top) sitting in each column
    for k, block in enumerate(blocks):
        position = len(w) - k
        check_label(block, n, position, labels)
        assert block[3] == (BOX + '   ') * n
        j = column_of_cross(block, n)
        assert j == w[position - 1]
        for r in range(3):
            for c in range(1, n + 1):
                if j is None or c not in (j, j + 1):
                    assert block[r][4 * c - 4:4 * c] == BAR + '   '
        if j is not None:
            where[j], where[j + 1] = where[j + 1], where[j]
    # top to bottom reads the word backwards: column c at the bottom holds strand w^-1(c)
    down = tuple(where[1:])
    perm = permute(letters, n)
    assert tuple(perm[s - 1] for s in down) == tuple(range(1, n + 1))
    return ('labels' if flag else 'plain') + ('+gap' if len(letters) < len(w) else '') if len(letters) >= 3 else False


def conj(y, i):
    """s_i y s_i for y in one-line form"""
    v = [j + (1 if j == i else -1 if j == i + 1 else 0) for j in y]
    v[i - 1], v[i] = v[i], v[i - 1]
    return v


@st.composite
def st_invol(draw):
    n = draw(st.one_of(st.integers(2, 6), st.integers(7, 8)))
    w, y = [], list(range(1, n + 1))
    if draw(st.integers(0, 3)) == 0:
        return tuple(draw(st.lists(st.integers(1, n - 1), max_size=6))), draw(st.booleans())
    for _ in range(draw(st.one_of(st.integers(0, 9), st.integers(10, 16)))):
        ups = [i for i in range(1, n) if y[i - 1] < y[i]]
        if not ups:
            break
        i = draw(st.sampled_from(ups))
        z = conj(y, i)
        if z == y:
            z[i - 1], z[i] = z[i], z[i - 1]
        y = z
        w.append(i)
    return tuple(w), draw(st.booleans())


@law(st_invol(), quick=500, thorough=3000, exhaustive=lambda tier: ((w, b) for w in all_words(3, 4 if tier == 'quick' else 6) for b in (False, True)))
def involution_wiring(w, flag):
    """A letter that commutes with the involution so far is an arc, any other a crossing; the
    steps drawn build the involution of the word."""
    n = max(w) + 1 if w else 1
    labels = labels_for(w, flag)
    picture = Word.involution_wiring_diagram(w, labels)
    if labels is None:
        assert picture == Word.involution_wiring_diagram(w)
    lines = split(picture, n) if w else picture.split('\n')[2:-3]
    blocks = list(steps(lines, n))
    assert len(blocks) == len(w)
    y = list(range(1, n + 1))
    arcs = 0
    blank = set()
    kinds = {}
    for position in range(1, len(w) + 1):
        i = w[position - 1]
        z = conj(y, i)
        kinds[position] = z == y
        if z == y:
            z[i - 1], z[i] = z[i], z[i - 1]
        y = z
    for k, block in enumerate(blocks):
        position = len(w) - k
        i = w[position - 1]
        check_label(block, n, position, labels)
        if kinds[position]:
            arcs += 1
            assert all(block[r][4 * i - 4:4 * i + 4] == (BAR + '   ') * 2 for r in range(3))
            assert block[3][4 * i - 4:4 * i + 3] == CUP + '  '
            inside = {i, i + 1}
        else:
            assert column_of_cross(block, n) == i
            inside = {i, i + 1}
        for c in range(1, n + 1):
            # columns closed by an arc higher up are left empty
            if c not in inside:
                for r in range(3):
                    assert block[r][4 * c - 4:4 * c] == ('    ' if c in blank else BAR + '   ')
            if not (kinds[position] and c in inside):
                assert block[3][4 * c - 4:4 * c] == ('    ' if c in blank else BOX + '   ')
        if kinds[position]:
            blank |= inside
    return '%d arcs' % min(arcs, 2) + ('+labels' if flag else '') if len(w) >= 3 else False


@st.composite
def st_fpf(draw):
    top = draw(st.one_of(st.integers(1, 6), st.integers(7, 11)))
    return tuple(draw(st.lists(st.integers(1, top), max_size=draw(st.sampled_from((8, 15)))))), draw(st.booleans())


@law(st_fpf(), quick=500, thorough=3000, exhaustive=lambda tier: ((w, b) for w in all_words(3, 4 if tier == 'quick' else 6) for b in (False, True)))
def fpf_wiring(w, flag):
    """The strands run down to the cups (1 2)(3 4)...: each cup drawn joins the ends of a cycle of the
    fixed point free involution, and it is drawn when another cycle begins inside it."""
    m = max(w) + 1 if w else 1
    n = m + m % 2
    labels = labels_for(w, flag)
    picture = Word.fpf_involution_wiring_diagram(w, labels)
    if labels is None:
        assert picture == Word.fpf_involution_wiring_diagram(w)
    lines = picture.split('\n')
    assert lines[0] == lines[-1] == lines[-3] == ''
    assert lines[-2] == '   '.join(str(i) for i in range(1, n + 1))
    body, cups = lines[1:-6], lines[-6:-3]
    assert body[0].rstrip() == ((BOX + '   ') * n).rstrip()
    blocks = list(steps(body[1:], n))
    assert len(blocks) == len(w)
    where = list(range(n + 1))
    for k, block in enumerate(blocks):
        position = len(w) - k
        assert block[1][4 * n:] == str(position) + (': ' + str(labels[position]) if labels else '')
        j = column_of_cross(block, n)
        assert j == w[position - 1]
        assert block[3] == (BOX + '   ') * n
        for r in range(3):
            for c in range(1, n + 1):
                if c not in (j, j + 1):
                    assert block[r][4 * c - 4:4 * c] == BAR + '   '
        where[j], where[j + 1] = where[j + 1], where[j]
    cycles = [tuple(sorted((where[2 * k + 1], where[2 * k + 2]))) for k in range(n // 2)]
    # the model: conjugate 21 43 65 ... by the letters in turn
    y = [i + 1 if i % 2 else i - 1 for i in range(1, n + 1)]
    for i in w:
        y = conj(y, i)
    assert set(cycles) == {tuple(sorted((i, y[i - 1]))) for i in range(1, n + 1)}
    assert cups[0] == cups[1] == (BAR + '   ') * n
    want = ''
    for a, b in cycles:
        drawn = any(a < c < b for c, _ in cycles)
        want += CUP + '   ' if drawn else (BOX + '   ') * 2
    assert cups[2] == want, (cups[2], want)
    return ('odd' if m % 2 else 'even') + ('+labels' if flag else '') if len(w) >= 3 else False
