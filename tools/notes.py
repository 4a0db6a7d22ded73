"""Per property: the deciding oracle and the bounds (used by gen.py for MANIFEST.json)."""
_T = {
 'C01': ('exponent-dictionary model, ring axioms, histories of mixed operations', 'up to 14 variables, exponents -12..12, coefficients to 1e12, 187 terms'),
 'C02': ('exact evaluation at random rational points and dictionary algebra', 'up to 8 terms, negative exponents, substitutions of zero and of non-polynomials'),
 'C03': ('exact Gaussian elimination over Fraction, dictionary model of vectors', 'matrices to 9x9, integer and polynomial coefficients'),
 'C04': ('expansion into ordinary polynomials by distinct permutations', 'up to 9 variables, parts to 30, powers to 6'),
 'C05': ('brute force over tuples, cell sets for ribbons, call histories', 'all sizes to 8-13, random to 20 with every bound and flag'),
 'C06': ('sets of cells', 'partitions with up to 22 parts or columns'),
 'C07': ('definition of rims and vertical strips as filters over all shapes', 'strict shapes to 6 rows, first row to 34'),
 'C08': ('own RSK and shifted Hecke insertion; local rules at every corner', 'words to 26 letters, matrices to 8x8'),
 'C09': ('backtracking enumeration of all fillings of the skew diagram', 'to 8 letters and 12 columns/rows, about 1e4 tableaux per case'),
 'C10': ('backtracking enumeration of all marked fillings of the shifted skew diagram', 'to 8 letters, 5 rows, 16 columns'),
 'C11': ('backtracking enumeration of plane partitions and their weights', 'to 7 letters, 12 rows, 14 columns'),
 'C12': ('enumeration by the oracle and by the library, symmetry of the weight table', 'to 8 letters, 14 rows'),
 'C13': ('definitions as filters over all fillings of a rim', 'counts to 25 columns, tableaux to 9 cells'),
 'C14': ('model-based: edit histories against a dictionary, readings and parsers by definition', 'cells to 12x12, entries to 23, histories of 12 edits'),
 'C15': ('involution, weight and bijection laws over generated valued-set tableaux; groups recomputed', 'shapes to 24 boxes, 5 letters'),
 'C16': ('invariants (content, primes, semistandardness) and injectivity over whole shapes', 'to 5 letters; 48 listed three-letter inputs are known findings'),
 'C17': ('generating functions of own fillings, determinants, symmetrisation formulas', 'to 6 variables, parts to 16'),
 'C18': ('generating functions of own fillings, branching and product identities', 'to 6 variables, parts to 14, degree bounds to 14'),
 'C19': ('corner inclusion sums computed by own code, inversion', 'to 5 variables, parts to 14'),
 'C20': ('generating functions of own plane partitions, coproducts', 'to 7 variables, parts to 14'),
 'C21': ('omega on the Schur expansion and tableau sums by own code', 'to 5 variables, degree to about 12'),
 'C22': ('random combinations are expanded and compared with their coefficients; re-summation', 'to 6 variables, size to 14 in one variable, 5-9 in more'),
 'C23': ('both sides as truncated power series by own code, skew forms', 'three plus three variables, total degree to 6-8'),
 'C24': ('products compared with combinations, coefficients against closed strip formulas', 'to 4 variables, parts to 16'),
 'C25': ('cell-set definitions of the elementary operators, composites as ordered products', 'random strict shapes, indices beyond the shape'),
 'C26': ('strip operators by definition; box algebra against matrices on shapes', 'random words of generators'),
 'C27': ('Cayley graph search, signed tuples', 'all elements to rank 4/5, random to rank 9'),
 'C28': ('Demazure product by definition, level by level search of all words', 'all elements to rank 4, random larger'),
 'C29': ('search over all words and elements', 'all (fixed-point-free) involutions to rank 5/6, random larger'),
 'C30': ('codes and diagrams as cell sets, round trips', 'random elements to rank 9-12'),
 'C31': ('brute force Hecke factorizations, Grassmannian identities', 'all elements to rank 3/4, random 5'),
 'C32': ('own Bruhat order and covers, search over words', 'all elements to rank 4-5, random to 9'),
 'C33': ('bracketing rule and crystal axioms by own code', 'random words and tuples of words'),
 'C34': ('own insertion models, closure under the relations, round trips in both directions', 'words to about 14 letters, tableaux grown at random'),
 'C35': ('reading word bracketing by own code, crystal axioms, components, intertwining with insertion', 'shapes to 12 boxes, about 8 extra entries'),
 'C36': ('operators applied to every vertex, Yamanouchi counts', 'graphs with up to about 400 vertices'),
 'C37': ('programs of calls run in one process and call by call in fresh interpreters', 'up to 12 calls per program'),
 'C38': ('documented names against the documented library function and the oracle polynomials', 'to 3 variables, shapes to size 8'),
 'C39': ('definitions; wiring pictures are parsed and strands traced', 'words to 16 letters'),
}
NOTES = {k: {'technique': a, 'level_note': 'Holds on every generated case. Bounds: %s; plus small exhaustive domains. Trusts the independent oracle in /verif/checks and the preconditions described in DESIGN.md.' % b}
         for k, (a, b) in _T.items()}
