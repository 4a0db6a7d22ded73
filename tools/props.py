"""Source of properties.jsonl (see tools/gen.py)."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
        },
    })


prop("C01", "Laurent polynomials in beta, x_i, y_i form a commutative ring",
     "Sums, differences, negatives, products, non-negative integer powers and the K-theoretic sum a+b+beta*a*b of the multivariate (Laurent) integer polynomials are exactly the mathematical ones, mixing freely with Python integers on either side. Negative powers of monomials with coefficient +-1 are their true inverse powers. Zero terms never survive, so equality, truth value, hashing and printed form depend only on the polynomial's value and not on how it was computed.",
     ["inputs"], "all pairs/triples of integer Laurent polynomials (any number of variables, any sign of exponents and coefficients) and all exponents",
     "The tests never test the polynomial ring directly; only the handful of polynomials arising in symmetric function identities are touched, almost never with cancellation, negative exponents, y-variables or mixed int operands.",
     ["polynomials.py"], [("Polynomial arithmetic", "Polynomial.__add__/__mul__/__pow__/__xor__/__eq__/__hash__/__repr__")])

prop("C02", "Polynomial substitution, evaluation, slicing and scalar division are exact",
     "Substituting an expression for a variable, evaluating at a partial assignment, extracting the coefficient of a power of a variable or of a monomial, truncating by total degree, and reducing or dividing coefficients by an integer all return what the same operation on the underlying formal sum gives. In particular substitution and evaluation are ring homomorphisms, the coefficient slices reassemble the polynomial, and truncation keeps exactly the terms of degree at most the bound.",
     ["inputs"], "all integer Laurent polynomials, variables, powers, bounds, assignments and scalars (non-negative exponents where a non-invertible value is substituted)",
     "Only beta -> -beta substitution and coefficient(0, d) are reached indirectly by the tests, on polynomials with few terms.",
     ["polynomials.py"], [("slicing and substitution", "Polynomial.substitute/__call__/coefficient/truncate/__mod__/__floordiv__/__truediv__/divide_linear/__getitem__")])

prop("C03", "Formal linear combinations form a module; linear algebra on them is exact",
     "Formal linear combinations (integer or polynomial coefficients) add, subtract, negate, scale, multiply bilinearly (by a supplied basis product or by concatenation-like key products) and take powers exactly, never keep a zero coefficient, and compare, hash, print and answer positivity questions according to value only. Integer row reduction returns an echelon matrix with the same rational row space, and the expressibility query answers yes exactly when the vector is a rational combination of the given vectors.",
     ["inputs"], "all finite formal sums, all scalars/powers, all integer matrices and tuples of vectors",
     "tests/test_vectors.py compares two fixed vectors; row reduction and expressibility are never tested, and cancellation to zero is only reached by accident.",
     ["vectors.py"], [("module operations", "Vector.__add__/__sub__/__mul__/__pow__/__floordiv__"), ("row reduction", "Vector.rref, Vector.is_expressable")])

prop("C04", "Symmetric polynomial arithmetic agrees with the expanded polynomials",
     "Expanding a symmetric polynomial in n variables into an ordinary polynomial is a ring homomorphism: sums, differences, scalar multiples, products and powers of monomial symmetric polynomials and of their combinations expand to the same operation on the expansions. Degree truncation, extraction of lowest or highest degree parts, serialisation, equality and hashing are consistent with that expansion.",
     ["inputs"], "all n, all partitions with at most n parts, all integer/polynomial coefficients, all pairs of symmetric polynomials in the same number of variables",
     "Tests multiply a few small monomial symmetric polynomials; repeated parts, more factors than variables, cancellation and beta-polynomial coefficients are not swept.",
     ["symmetric.py"], [("monomial product", "SymmetricMonomial._multiply/_destandardize"), ("vector layer", "SymmetricPolynomial.polynomial/truncate/lowest_degree_terms/serialize/__eq__")])

prop("C05", "Partition enumerators are complete, duplicate free and filter correctly",
     "The generators of partitions of n or up to n (with optional bounds on part size and number of parts, strictness, evenness), of partitions between an inner and an outer shape, of compositions and peak compositions, of partitions with at most one more box in each existing row, and of (possibly disconnected) shifted ribbon shapes of given first part list exactly the objects satisfying the stated conditions, each once. The answer does not depend on which enumerations ran before.",
     ["inputs", "histories"], "all sizes, all combinations of the optional bounds and flags, all inner/outer shapes, all call orders",
     "tests/test_partitions.py compares a few sizes with literal lists and uses few flag combinations; combinations of bounds and repeated calls are not covered.",
     ["partitions.py"], [("enumerators", "Partition.generate/all/subpartitions/successors/compositions/peak_compositions/shifted_ribbons/shifted_ribbon_complements")])

prop("C06", "Elementary partition and (shifted) diagram surgery is correct",
     "Transpose, containment, union, trimming, sorting, strictness, membership of a cell, (shifted) diagrams of straight and skew shapes, recovering a skew shape from its cells (pushed left to the boundary or diagonal), complement in a staircase, adding a box to a row or column, removing any set of inner corners, finding the addable or removable cell on a diagonal and the decrement operations all agree with their definition on sets of cells. Results are always valid trimmed shapes of the right size, and textual pictures of ordinary and shifted shapes show exactly the cells.",
     ["inputs"], "all partitions and strict partitions, all rows, columns, diagonals, cells and all nested pairs of shapes",
     "Unit tests evaluate these on a few literals; edge positions (first/last row, single row, equal or adjacent parts, empty shape) are only sampled.",
     ["partitions.py"], [("shape surgery", "Partition.transpose/complement/contains/skew/from_skew/remove_inner_corners/remove_shifted_inner_corners/find_shifted_*_corner/add_box_to_*")])

prop("C07", "Shifted rims and strip decompositions enumerate exactly the right shapes",
     "For a strict partition, the rims listed under a first-row bound are exactly the cell sets, each once and in sorted order, that extend it to a larger strict partition without two added cells on a common diagonal (no 2x2 block) and with at most that many added cells in the first row. The vertical-strip (rim) decompositions list exactly the strict shapes inside it whose complement has at most one cell in each row (on each diagonal), each once. The terminal part of a rim is its last connected piece of at most three cells at the end of its lowest-numbered row.",
     ["inputs"], "all strict partitions and all first-row bounds",
     "Tests check a handful of small literal shapes.",
     ["partitions.py"], [("rims", "Partition.rims/_rims_helper/rim_terminal_part"), ("decompositions", "Partition.decompose_shifted_shape_by_vertical_strips/by_rims")])

prop("C08", "Growth diagrams compute RSK and shifted Hecke insertion",
     "The growth diagram of a non-negative integer matrix has as its boundary the shape sequences of the two tableaux of the RSK correspondence (Schensted insertion), transposing the matrix transposes the diagram, and every step is a horizontal strip growth. The shifted growth diagram of an involution word produces the same pair of tableaux as inserting the word directly with the orthogonal insertion algorithm.",
     ["inputs"], "all finite 0/1 and non-negative integer matrices; all (reduced and non-reduced) words covered by the shifted rule",
     "Tests compare a few random or small words and one literal diagram.",
     ["partitions.py", "tableaux.py"], [("growth rules", "Partition.growth_diagram/shifted_growth_diagram"), ("read-off", "Tableau.from_shifted_growth_diagram")])

prop("C09", "Semistandard, set-valued and standard tableau generators are exact",
     "For every (skew) shape and entry bound, the unshifted generators of semistandard, set-valued, marked, marked set-valued and standard tableaux return exactly the set of fillings of the skew diagram that satisfy the defining row and column conditions, each once; they give the single empty tableau for equal shapes and nothing when the inner shape is not contained in the outer one.",
     ["inputs"], "all partitions mu, nu, all entry bounds, all variants",
     "tests/test_tableaux.py lists literal sets for a few tiny shapes.",
     ["tableaux.py"], [("recursive generators", "Tableau._semistandard/_semistandard_marked/_standard"), ("strip enumeration", "Tableau._horizontal_strips/_vertical_strips")])

prop("C10", "Shifted marked tableau generators are exact",
     "For every strict (skew) shape, entry bound and diagonal-prime setting, the generators of shifted marked, shifted marked set-valued and standard shifted marked tableaux return exactly the fillings of the shifted skew diagram with entries 1'<1<2'<2<... that weakly increase along rows and columns with no unprimed entry repeated in a column, no primed entry repeated in a row, and no primed diagonal entry when these are disallowed. Each filling appears once.",
     ["inputs"], "all strict partitions mu, nu, all entry bounds, set-valued or not, diagonal primes allowed or not",
     "Literal sets for a few tiny straight shapes; skew shapes touching the diagonal are barely sampled.",
     ["tableaux.py"], [("recursive generators", "Tableau._semistandard_shifted_marked/_standard_shifted_marked"), ("strips", "Tableau._shifted_horizontal_strips/_shifted_vertical_strips")])

prop("C11", "Reverse plane partition generators and weights are exact",
     "The generator of reverse plane partitions returns exactly the weakly increasing fillings of the (skew) diagram, and the marked shifted version exactly the fillings of the shifted (skew) diagram by 1'<1<2'<2<... that weakly increase along rows and columns, with unprimed diagonal entries only when allowed. The weight of such an object counts, per value, distinct columns of unprimed entries plus distinct rows of primed entries.",
     ["inputs"], "all (strict) partitions mu, nu, all entry bounds, both diagonal settings",
     "Literal expectations for a few tiny shapes.",
     ["tableaux.py"], [("generators", "Tableau._semistandard_rpp/_semistandard_marked_rpp, ReversePlanePartition.weight, MarkedReversePlanePartition.weight")])

prop("C12", "Fast tableau counting agrees with enumeration",
     "For every tableau family (semistandard, set-valued, marked, marked set-valued, shifted marked, shifted marked set-valued, reverse plane partitions, marked reverse plane partitions) and every (skew) shape, entry bound and diagonal option, the counting function maps each partition weight to the number of tableaux of that family having that weight, and to nothing else. Moreover the number of tableaux with a given weight does not change when the weight is permuted.",
     ["inputs"], "all families, shapes, inner shapes, entry bounds, flags",
     "Tests compare fast and slow functions on small straight shapes and few skew ones, mostly through symmetric functions.",
     ["tableaux.py"], [("weight counters", "Tableau._count_semistandard*/count_semistandard*")])

prop("C13", "KOG/KLG tableau enumerators and their counts agree",
     "For every strict partition and content bound, the recursive counts of KOG and KLG tableaux (by outer shape, or for one given pair of shapes) equal the number of tableaux produced by the corresponding enumerator, whose members are distinct, fill exactly a rim of the partition with content of exactly the requested size, and are exactly the fillings satisfying the defining (Buch-Ravikumar) reading conditions. The single-row set-valued co-Pieri tables list, for each weight, exactly the one-letter shifted set-valued tableaux over all ways to delete removable corners from the inner shape.",
     ["inputs"], "all strict partitions, all content bounds, all outer shapes",
     "Tests compare counts with enumeration on a few small sizes.",
     ["tableaux.py", "partitions.py"], [("enumerators", "Tableau.KOG/KLG/_KOG_helper/_KLG_helper"), ("counts", "Tableau._KOG_count_helper/_KLG_count_helper/KOG_counts*/KLG_counts*"), ("copieri", "Tableau.shifted_setvalued_copieri")])

prop("C14", "Tableaux are immutable values; edits, readings and printing are faithful",
     "Any sequence of edit operations (add, set, replace, remove, clear, pop, transpose, apply, negate, double, halve, row/column restriction) on a tableau returns the tableau that the same edits on a plain cell map give and leaves the original unchanged; equality, hashing, ordering and length depend only on the contents. Shape, weight, size, content counts, reading words, search and extreme-entry queries, the semistandardness and standardness tests, standardisation and descents, text parsing and text rendering agree with their definitions.",
     ["inputs", "histories"], "all tableaux (straight, skew, shifted, set- and multiset-valued, primed) and all edit sequences",
     "Tests evaluate reading words and standardisation on a few tableaux; edit operations, immutability, parsing and rendering are not tested.",
     ["tableaux.py"], [("value semantics", "Tableau.__init__/add/remove/set/replace/clear/pop"), ("readings", "Tableau.row_reading_word/standardize/descent_set/is_semistandard/weight/decode_string_input/string_array")])

prop("C15", "Valued-set tableau transitions are weight-swapping involutions",
     "For every valued-set tableau of a straight or skew strict shape, the transition in positions i, i+1 is an involution on the set of valued-set tableaux of that shape and entry bound, exchanging the i-th and (i+1)-st weight entries and leaving the rest of the weight and the primedness rules on the diagonal intact; the generators list each valued-set tableau exactly once. With two letters the forward transition is a bijection onto the intermediate tableaux, undone by the backward one. Group starts, ends, singletons and group counts describe the groups the tableau is divided into, and removing primes from singletons changes nothing else.",
     ["inputs"], "all strict shapes, entry bounds, values i and all valued-set tableaux",
     "tests/test_vst.py runs a fixed exhaustive set for two letters and small shapes only.",
     ["vst.py"], [("transitions", "ValuedSetTableau.forward_transition/middle_transition/backward_transition/transition"), ("generator", "ValuedSetTableau.all")])

prop("C16", "Diagonal unpriming of shifted set-valued tableaux preserves weight",
     "Removing primes from the diagonal of a shifted set-valued marked tableau whose diagonal may contain primes yields a semistandard (weakly increasing) shifted filling that contains the original boxes, has no new row, carries the same multiset of absolute values, and on whose diagonal no cell mixes primed and unprimed entries unless its only prime is its largest entry in absolute value. Tableaux without mixed diagonal cells are unchanged and unpriming twice changes nothing more. With at most two letters the result is again a set-valued marked tableau with at most one new box in each row; with three letters on at most four cells this holds apart from the inputs listed as known findings.",
     ["inputs"], "all strict shapes, entry bounds and shifted set-valued tableaux",
     "tests/test_unpriming.py exercises a couple of sizes.",
     ["insertion.py"], [("unpriming", "InsertionAlgorithm.unprime_diagonal/setvalued_column_insert")])

prop("C17", "Schur s, P, Q, S functions equal their tableau generating functions",
     "The (skew) Schur, Schur P, Schur Q and Schur S polynomials in n variables are the generating functions of semistandard, shifted marked (without/with diagonal primes) and marked tableaux of that shape, equal 1 for equal shapes and 0 when the inner shape is not contained in the outer. They satisfy the determinantal, power-of-two (Q=2^l P), branching (adding a variable), stability and product identities that characterise them.",
     ["inputs"], "all n, all (strict) partitions mu, nu",
     "Tests check literal expansions for a few shapes; skew shapes and many variables are not swept.",
     ["symmetric.py", "tableaux.py"], [("functions", "SymmetricPolynomial.schur/schur_p/schur_q/schur_s")])

prop("C18", "G, GP, GQ, GS equal their set-valued tableau generating functions",
     "The (skew) stable Grothendieck polynomials G, GP, GQ and GS in n variables are the beta-weighted generating functions of set-valued, shifted set-valued (without/with diagonal primes) and marked set-valued tableaux, homogeneous when beta has degree -1, with lowest degree part s, P, Q, S. Setting the last variable to zero gives the same function in fewer variables, the degree bound returns exactly the terms of degree up to the bound, and negating beta gives the mn_ variants. The slow variants that list the tableaux agree.",
     ["inputs"], "all n, all (strict) partitions mu, nu, all degree bounds",
     "Tests check fast against slow functions on small straight shapes; degree bounds, skew shapes and stability are barely sampled.",
     ["symmetric.py", "tableaux.py"], [("functions", "SymmetricPolynomial.stable_grothendieck/_p/_q/_s, mn_*"), ("assembly", "SymmetricPolynomial._vectorize")])

prop("C19", "Double-bar skew functions are corner inclusion sums and can be undone",
     "The double-bar skew version of each of G, GP, GQ, GS is the sum, over all ways to remove a set of removable corners of the inner shape, of beta to the number of removed boxes times the ordinary skew function, and vanishes unless the inner shape is contained in the outer. Conversely the ordinary skew function is the alternating combination of double-bar functions, and the double-bar functions give the coproduct: splitting the variables into two groups expresses the function as the sum over intermediate shapes of products.",
     ["inputs"], "all n, all (strict) partitions mu, nu, degree bounds and variable splittings",
     "Tests check tiny shapes at fixed n.",
     ["symmetric.py", "partitions.py"], [("double bar", "SymmetricPolynomial.stable_grothendieck*_doublebar, Partition.remove_inner_corners/remove_shifted_inner_corners")])

prop("C20", "g, gp, gq, gs equal their reverse plane partition generating functions",
     "The (skew) dual stable Grothendieck polynomials g, gp, gq in n variables are the sign/beta-weighted generating functions of reverse plane partitions and marked shifted reverse plane partitions (diagonal primed only, resp. unrestricted) counted by column/row weight, with top degree part s, P, Q; gs is gq of the shape enlarged by a staircase over that staircase. Setting the last variable to zero gives the function in fewer variables, splitting the variables expresses the function through skew functions, and negating beta gives the mp_ variants. The slow variants that list the plane partitions agree, and the refinement by diagonal entries splits the function into the contributions of each diagonal.",
     ["inputs"], "all n, all (strict) partitions mu, nu",
     "Tests check fast against slow functions on small straight shapes.",
     ["symmetric.py", "tableaux.py"], [("functions", "SymmetricPolynomial.dual_stable_grothendieck/_p/_q/_s, mp_*")])

prop("C21", "j, jp, jq, js are the omega-conjugates of g, gp, gq, gs",
     "The functions jp, jq and js are the images of gp, gq and gs, and j the image of g of the transposed shape, under the standard involution omega exchanging a Schur function with that of the transposed shape, for straight and skew shapes and any number of variables (restricting the image in enough variables); passing beta as the beta argument gives exactly this, the default -beta gives it with beta negated. They are stable under setting the last variable to zero.",
     ["inputs"], "all n, all (strict) partitions mu, nu",
     "Tests check a few small straight shapes.",
     ["symmetric.py"], [("functions", "SymmetricPolynomial.slow_transposed_dual_stable_grothendieck/_p/_q/_s"), ("omega", "SymmetricPolynomial.omega_schur_expansion")])

prop("C22", "Basis expansions are inverse to forming linear combinations",
     "For each of the bases s, G, g, j (partitions) and P, Q, S, GP, GQ, GS, gp, gq, gs, jp, jq, js (strict partitions), and the mn_/mp_ variants, expanding a finite linear combination (integer or beta-polynomial coefficients) of elements with at most n rows in n variables returns exactly the coefficients it was built from. Functions from one family expand in any other whose integral span contains them, the expansion re-sums to its input and is linear, and expanding zero gives the empty combination. The expansion of combinations of gp functions into products of one-row gp functions re-sums as well.",
     ["inputs"], "all families, all n, all finite combinations of basis elements with at most n rows",
     "Tests expand single basis elements or a few products.",
     ["symmetric.py"], [("triangular solver", "SymmetricPolynomial._expansion and the *_expansion wrappers")])

prop("C23", "Cauchy identities pair G, GP, GQ with g, gq, gp",
     "Truncated to any degree, the sum over shapes of G_lambda(x) g_lambda(y), of GP_lambda(x) gq_lambda(y) and of GQ_lambda(x) gp_lambda(y) equals the corresponding Cauchy kernel, for any numbers of x and y variables. The skew forms (double-bar functions on the x side, shapes inside two given partitions) hold as well.",
     ["inputs", "configurations"], "all numbers of variables, all truncation degrees, all pairs of skewing partitions",
     "Tests check a few fixed variable counts and degrees.",
     ["symmetric.py", "tableaux.py"], [("both sides", "SymmetricPolynomial.stable_grothendieck*(_doublebar), dual_stable_grothendieck*")])

prop("C24", "Pieri rules for GP, GQ, gp and gq hold with the computed coefficients",
     "Multiplying GQ_mu or GP_mu by the one-row function of size p expands with coefficients given by the KLG, respectively KOG, counts times the matching power of beta; multiplying gp_mu or gq_mu by a one-row function expands with the single-row set-valued co-Pieri coefficients. GQ expands into GP and gp/gq into each other by the strip formulas, and ordinary s, P and Q one-row products follow the classical strip rules.",
     ["inputs"], "all strict partitions mu, all p, enough variables",
     "Tests verify a handful of small shapes.",
     ["tableaux.py", "symmetric.py"], [("coefficients", "Tableau.KOG_counts/KLG_counts/shifted_setvalued_copieri"), ("functions", "SymmetricPolynomial.stable_grothendieck_p/_q, dual_stable_grothendieck_p/_q")])

prop("C25", "Box adding/removing operators on shifted shapes act linearly and correctly",
     "The operators that add a box on a diagonal, or remove a run of boxes along a row or column, act linearly on formal sums of strict partitions with polynomial coefficients, and on a single shape give exactly the addable/removable cell result with the stated powers of beta. The composite operators are the ordered products over all diagonals of 1 + variable times the elementary operators, (the row/column operator C over the positive diagonals), and the generating strip operators (AL after AR) with different variables commute.",
     ["inputs"], "all indices, all strict partitions, all formal sums with integer/polynomial coefficients",
     "Tests apply each elementary operator to a few literal shapes, with unit coefficients for the removal operators.",
     ["operators.py"], [("operators", "operator_shifted_add/operator_shifted_row_remove/operator_shifted_column_remove/operator_AL/AR/R/C")])

prop("C26", "Strip operators and the box operator algebra obey their definitions",
     "Adding a horizontal (vertical) strip on diagonals a..b to a strict shape yields the larger strict shape whose new cells are exactly a row (column) segment on those diagonals when that is possible and reports impossibility otherwise. The free box-operator algebra is an associative bilinear algebra over integer and polynomial scalars in which words with two equal or opposite adjacent letters vanish, with string and integer operands accepted on either side, the commutator of two generating products included.",
     ["inputs"], "all strict shapes and intervals a<=b; all elements of the algebra",
     "Tests check commutation for small ranges and two literal products.",
     ["dualops.py", "boxes.py"], [("strips", "sh_horizontal_strip/sh_vertical_strip"), ("algebra", "BoxOperator.__add__/__mul__/filter")])

prop("C27", "Signed permutations form a Coxeter group with correct statistics",
     "Composition, inversion, integer powers, identity, simple and general reflections, cycles, longest elements, equality and hashing of (signed) permutations follow the hyperoctahedral group, independent of trailing fixed points. Length, left and right descent sets, a reduced word, fixed/negated points and cycle decompositions agree with their definitions: length is the least number of simple reflections, and i is a right descent exactly when multiplying by s_i shortens.",
     ["inputs"], "all signed and unsigned permutations of all sizes, all exponents and generator words",
     "Tests evaluate literals of size at most 4.",
     ["permutations.py"], [("group", "Permutation.__mul__/inverse/__pow__/s_i/reflection_*/longest_element"), ("statistics", "Permutation.__len__/right_descent_set/left_descent_set/get_reduced_word/cyc")])

prop("C28", "Demazure product and word enumerations are exact and complete",
     "The Demazure (0-Hecke) product is associative with w*s = w when s is a right descent, and all permutations, all reduced words and all Hecke, orthogonal and symplectic Hecke words up to given length and ascent/peak bounds are enumerated exactly once per (element, word). Results do not depend on bounds used in earlier calls.",
     ["inputs", "histories"], "all signed permutations, ranks, length bounds, ascent/peak bounds and call orders",
     "Tests compare counts for single calls of fixed size.",
     ["permutations.py"], [("Demazure", "Permutation.__mod__"), ("levels", "Permutation.hecke_levels/symplectic_hecke_levels/involution_hecke_levels/get_reduced_words")])

prop("C29", "Involutions, their atoms and involution words are exact",
     "All involutions (signed or not, with or without fixed points) are listed exactly once; the involution and fixed-point-free lengths equal the length of every involution word; the atoms of an involution are exactly the minimal length elements whose inverse-times-self Demazure product is the involution; the involution words are exactly the reduced words of atoms, and building an involution from such a word returns it. The analogous statements hold for fixed-point-free involutions.",
     ["inputs"], "all (signed) involutions and fixed-point-free involutions",
     "Tests check ranks up to 4 for counts.",
     ["permutations.py"], [("atoms", "Permutation.get_atoms/get_fpf_atoms/get_min_atom"), ("words", "Permutation.get_involution_words/get_fpf_involution_words/from_involution_word/from_fpf_involution_word"), ("listing", "Permutation.involutions/fpf_involutions")])

prop("C30", "Codes, diagrams, shapes and Grassmannian elements match",
     "The Rothe diagram, code and shape of a permutation (and their involution and fixed-point-free versions) have the sizes given by the corresponding length and agree cell by cell with their definition. The Grassmannian, inverse-Grassmannian-type involution and fixed-point-free involution attached to a (strict) partition have that shape and are recognised as such, distinct partitions give distinct elements, and exactly these elements are recognised; the listings by rank contain exactly once the element of each shape inside the staircase of the rank, hence every Grassmannian element of that rank. Fixed-point-free elements are taken up to trailing 2-cycles.",
     ["inputs"], "all permutations, involutions, fixed-point-free involutions, and (strict) partitions",
     "Tests check small ranks for one direction.",
     ["permutations.py"], [("codes", "Permutation.code/involution_code/fpf_involution_code/rothe_diagram"), ("Grassmannian", "Permutation.get_grassmannian/get_inv_grassmannian/get_fpf_grassmannian/is_*/shape/involution_shape/fpf_involution_shape")])

prop("C31", "Stable Grothendieck functions of permutations match Hecke factorizations",
     "The (symplectic, involution, signed involution) stable Grothendieck polynomial of a permutation in n variables, up to a degree bound, is the beta-weighted count of factorizations of its Hecke words into n decreasing (resp. unimodal) factors, is symmetric and stable in n, and is independent of earlier calls. For the Grassmannian element of a partition it equals the G function of the transposed partition, for the (fixed-point-free) involution of a strict partition the GP function of that partition, and for the longest signed element the GS function of the staircase; the top-level G, GP and GS functions accept either a permutation or a partition accordingly.",
     ["inputs", "histories"], "all permutations, involutions, fixed-point-free involutions, variable counts and degree bounds",
     "Tests check Grassmannian cases of small rank.",
     ["permutations.py", "words.py", "utils.py"], [("functions", "Permutation.stable_grothendieck/symplectic_stable_grothendieck/involution_stable_grothendieck/signed_involution_stable_grothendieck/_symmetrize"), ("quasisymmetrisation", "Word.quasisymmetrize")])

prop("C32", "Little bumps, Bruhat covers and transitions obey their defining relations",
     "A Little bump of a reduced (involution, fixed-point-free involution) word returns a reduced word of the same length and with the same descent set, obtained by raising entries by at most one (two in the fixed-point-free case), keeps the recording tableau, and is the identity when the requested positions do not give a covered element; bumps at a covered element are injective. The listed Bruhat covers of a permutation, involution or fixed-point-free involution are exactly the elements covered by it, and the transition listings and operators satisfy the stated cover conditions.",
     ["inputs"], "all reduced words, all pairs of positions, all permutations/involutions",
     "Tests check ranks up to 4 or 5 for some cases.",
     ["permutations.py"], [("bumps", "Permutation.little_push/little_bump, involution_*, fpf_involution_*"), ("covers", "Permutation.bruhat_covers/involution_bruhat_covers/fpf_involution_bruhat_covers/tau/*_transitions")])

prop("C33", "Crystal operators on words and factorizations satisfy the crystal axioms",
     "The raising and lowering operators on words follow the bracketing rule: they are mutually inverse where defined, change exactly one letter i to i+1 (or back), shift the weight accordingly, have string lengths given by bracketing and preserve the word's plactic recording tableau; on tuples of words they act on the concatenation and keep the factor lengths. Operators with distant indices commute.",
     ["inputs"], "all words, tuples of words and indices",
     "Tests check a few words.",
     ["words.py"], [("operators", "Word.e_crystal_operator/f_crystal_operator")])

prop("C34", "Hecke, orthogonal and symplectic Hecke insertion are bijective",
     "Inserting any word (any symplectic Hecke word for the symplectic algorithm) with any compatible recording sequence, and then inserting in reverse, returns the word and sequence; both tableaux have the same shape. The insertion tableau is increasing and its reading word is in the same Hecke (orthogonal, symplectic) class as the word, the recording tableau is a semistandard set-valued (or multiset-valued) tableau with weight given by the recording sequence, and descents of the word correspond to descents of the recording tableau.",
     ["inputs", "histories"], "all words, all compatible recording sequences, both set-valued and multiset-valued modes",
     "Tests check exhaustive small words in one mode and random ones in another; histories through the insertion cache are not exercised.",
     ["insertion.py"], [("forward", "InsertionAlgorithm.hecke/orthogonal_hecke/symplectic_hecke, HState, FState"), ("inverse", "InsertionAlgorithm.inverse_*")])

prop("C35", "Crystal operators on tableaux are inverse, weight shifting and intertwined",
     "On semistandard set-valued and multiset-valued tableaux the raising and lowering operators are mutually inverse where defined, keep the shape and family, and move one unit of weight between i and i+1, with string lengths determined by weight so each string is reversed-weight symmetric. The column-wise crystal reading word determines the multiset-valued tableau and Hecke insertion intertwines the operators on factorizations and recording tableaux.",
     ["inputs"], "all semistandard set-valued and multiset-valued tableaux, all indices",
     "Tests check small shapes in one mode.",
     ["tableaux.py", "crystals.py", "insertion.py"], [("operators", "Tableau.e_crystal_operator/f_crystal_operator/crystal_reading_word/from_crystal_reading_word")])

prop("C36", "Crystal graph generators build the right vertex sets, edges and components",
     "The word, tableau and shifted crystal generators contain each increasing factorization / tableau of the requested kind exactly once, their edges are exactly the pairs related by the lowering operator with the right label, every component is a connected component of that graph, and strings are maximal chains. Factorizations and two-row arrays convert back and forth without loss.",
     ["inputs", "configurations"], "all permutations, shapes, ranks, lengths and modes",
     "Tests check one or two graphs.",
     ["crystals.py"], [("graphs", "CrystalMixin.edges/components/istrings, WordCrystalGenerator, TableauCrystalGenerator, ShiftedCrystalGenerator")])

prop("C37", "Results do not depend on earlier calls",
     "Every public computation returns the same value whatever sequence of other computations preceded it, including partially consumed enumerations, repeated calls, calls with different bounds and calls whose results the caller went on to combine arithmetically. Arithmetic on returned values never alters values returned earlier.",
     ["histories", "inputs"], "all sequences of public calls over all modules",
     "Each test runs a fixed call order; the many module level caches keyed by argument subsets are only hit in that order.",
     ["cached.py", "symmetric.py", "tableaux.py", "permutations.py", "partitions.py", "insertion.py"], [("memoisation", "cached.cached_value and module level caches"), ("level caches", "Permutation.*_levels")])

prop("C38", "The documented top-level API exists and agrees with the library",
     "Every name used in the README's usage section is importable from the documented place and computes the documented object: each long name agrees with its short name and with the corresponding library function for all shapes, the shifted ribbon helper agrees with the library's version, and results serialise to plain data from which they can be rebuilt.",
     ["inputs", "configurations"], "all documented names, all shapes, variable counts and optional arguments",
     "tests/test_readme.py has one fixed script (part of it failing on the pinned tree).",
     ["utils.py", "README.md", "symmetric.py", "tableaux.py"], [("aliases", "utils.py module level names"), ("serialisation", "SymmetricPolynomial.serialize, Tableau.serialize")])

prop("C39", "Word statistics, wiring diagrams and quasisymmetrisation are exact",
     "Descent sets, ascents, peak counts and the monotonicity/unimodality weights of words agree with their definitions, and quasisymmetrising a word under a weight returns, for every composition, the sum over the corresponding consecutive factorization of the product of weights. Wiring diagrams render for every word with one labelled step per letter; following the strands from top to bottom gives the permutation of the word; in the involution diagram a step is an arc exactly when its letter commutes with the involution built so far; in the fixed-point-free diagram the strands run down to the pairs (1 2)(3 4)... so that paired ends are the cycles of the involution of the word.",
     ["inputs"], "all words and all weight functions on words",
     "Tests call these indirectly on Hecke words only.",
     ["words.py"], [("statistics", "Word.descent_set/ascents/peaks/*_zeta/quasisymmetrize/wiring_diagram")])
