#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run from anywhere."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, observe=observe, note=note, technique=technique))

I = 'include/dataframe/'
F = I + 'functional/'
S = 'src/functional/'

prop('C01', 'A Serie stores exactly the items written to it',
 'After any history of constructions (sized, from values, copy, clone, assignment), whole-item writes, scalar writes and resizes, a Serie reports the count, item size, total size and every item and scalar exactly (bit for bit) as the values last written; a fresh or resized Serie holds only zeros. '
 'An indexed write past the end, an item of the wrong length, and a checked scalar read past the end are refused with an error and change nothing.',
 ['histories', 'inputs'], 'every history of construct / write / resize / copy operations, every item size, count and bit pattern, and every out-of-range index',
 'Tests read back a handful of literal Series; aliasing, resizing and refused writes are properties of histories, and index arithmetic errors show only for particular (item size, index) pairs.',
 [I+'Serie.h', I+'inline/Serie.hxx', 'src/Serie.cxx'],
 [('flat item-major storage', 'src/Serie.cxx Serie::value/setValue/reCount'), ('checked typed accessors', I+'inline/Serie.hxx Serie::get/set')],
 ['Serie::get/value/scalar/asArray/count/itemSize/size'],
 'stateful model-based testing against an array-of-items reference model; assumes well-formed value arrays (length a multiple of the item size)',
 'stateful model-based property testing against a reference model, with shrinking')

prop('C02', 'Operations are pure: inputs untouched, results independent, repeatable',
 'No operation of the library modifies a Serie, array or data frame passed to it by const reference, whatever else has been computed before. '
 'The Series it returns share no storage with their inputs or with one another, so a later write to either side is never visible on the other, and a copy, clone or assigned Serie is independent of its source. '
 'Applying the same operation again to the same inputs gives bit-identical results, regardless of the operations performed in between.',
 ['programs', 'histories', 'inputs'], 'every program made of library operations over a pool of Series, with writes and repeated calls interleaved',
 'A test calls an operation once on fresh inputs; hidden state, caching and aliasing show only across a sequence of calls and writes.',
 [I+'Serie.h', F, S, 'src/view'], [('results are built into new Series', 'every operation under functional/'), ('deep copies', 'src/Serie.cxx copy constructor, operator=, clone')],
 ['asArray() snapshots of every live Serie after every step'],
 'random programs over all operations of the library with a snapshot of every live Serie compared after every step; operations whose callbacks are user code are exercised with pure callbacks',
 'stateful random-program generation with snapshot, aliasing and repeat-call oracles')

prop('C03', 'map, apply and if_then_else transform item by item',
 'Mapping a function over one Serie, or over several Series of equal count, calls it once per item in increasing index order with the item(s) at that index and the index, and returns the Serie whose i-th item is exactly the i-th result. '
 'Scalar results give item size 1, array results give item size equal to their length, and array results of inconsistent lengths are refused with an error. '
 'apply behaves as map, map of a plain list gives the result of each element, and if_then_else gives, for each item, the result of the branch its condition selects.',
 ['inputs', 'programs'], 'every count, item size, value and callback shape (scalar or array in, scalar or array out, one or several Series)',
 'Tests map over at most a few items with one callback shape each; wrong index, wrong item or a dropped item depend on count, item size and arity.',
 [F+'map.h', F+'utils/apply.h', F+'conditional/if.h', I+'utils/utils.h'], [('result flattening and item size inference', F+'map.h __map__ and the multi-Serie branch of map')],
 ['returned Serie', 'the recorded (item, index) calls'],
 'compares results and the recorded call sequence with a reference model over generated Series and callbacks',
 'property-based testing against a reference model with recorded callbacks')

prop('C04', 'Selection operations keep exactly the right items, in order',
 'filter, cut and findAll return exactly the items satisfying the predicate, and reject exactly the others, unchanged, in original order and with the same item size; partition returns both parts. '
 'check flags with 1 the items satisfying the condition and 0 the others, and find returns the first satisfying item with its index, or reports that there is none; contains of a plain list is true of its elements only. '
 'On several Series of equal count (filter, filterAll, reject, rejectAll) the predicate sees the items of each index together and every Serie keeps the items of the same indices.',
 ['inputs', 'programs'], 'every Serie (count, item size, values), every predicate on value and index, every number of Series',
 'Tests use a few items and one predicate; boundary effects at the first or last item, at particular counts or for empty selections are not sampled.',
 [F+'filter.h', F+'find.h', F+'utils/cut.h', F+'utils/partition.h', F+'utils/reject.h', F+'conditional/check.h', I+'utils/utils.h'], [('index list then gather', F+'filter.h __filter__'), ('multi-Serie selection', F+'filter.h filter/filterAll, '+F+'utils/reject.h reject/rejectAll')],
 ['returned Series', 'predicate call arguments'],
 'bitwise comparison with a reference selection over generated Series and table-driven predicates',
 'property-based testing against a reference model')

prop('C05', 'forEach and reduce visit every item once, in order',
 'forEach on one Serie or on several Series of equal count calls the callback exactly once per index, in increasing order, with the item(s) of that index (as a number for item size 1 where the callback accepts a number, as an array otherwise) and that index. '
 'reduce returns the left fold of its callback over the items in order starting from the given initial value, and returns the initial value for an empty Serie.',
 ['inputs', 'programs'], 'every count, item size, value, initial value and (non-commutative, index-dependent) callback',
 'Tests reduce with sums of a few numbers, for which a wrong order, start or index is invisible.',
 [F+'forEach.h', F+'reduce.h'], [('dispatch on the callback kind', F+'forEach.h forEach'), ('left fold', F+'reduce.h reduce')],
 ['recorded callback arguments', 'fold result'],
 'the callbacks record every call; the fold uses non-commutative, index-dependent callbacks',
 'property-based testing against a reference fold with recorded callbacks')

prop('C06', 'Pipelines and adaptors equal direct application',
 'pipe(x, f1, ..., fn), the pipeline made by make_pipe, and the member form give exactly fn(...f1(x)); compose(f1, ..., fn) applies its functions from the last to the first; nesting pipelines or compositions changes nothing. '
 'The operations generated by make_<operation> (and makeFind, makeFindAll, make_reduce) give exactly what calling the operation directly gives, can be reused any number of times, and keep working after the arguments they were made from are gone.',
 ['programs', 'inputs'], 'every sequence of stages (including none-commuting ones), every input Serie and every reuse of the same pipeline object',
 'Tests pipe two or three stages once; order and reuse errors need non-commuting stages and repeated calls.',
 [F+'pipe.h', F+'utils/compose.h', F+'macros.h', I+'inline/Serie.hxx'], [('recursive application', F+'pipe.h pipe/make_pipe'), ('nested functors', F+'utils/compose.h compose'), ('generated adaptors', F+'macros.h MAKE_OP')],
 ['resulting Serie or value'],
 'random stage sequences compared with step by step application; adaptors compared with the direct call, each used several times',
 'metamorphic property testing over random stage sequences')

prop('C07', 'zip and unzip are exact inverses',
 'Zipping Series of equal count gives a Serie whose i-th item is the concatenation, in argument order, of their i-th items, and the variadic and vector forms agree. '
 'Unzipping any Serie by item sizes that add up to its item size gives back the corresponding slices of every item, so unzip undoes zip and zip undoes unzip exactly. The results have the space dimension of the first (or only) Serie given.',
 ['inputs'], 'every number of Series, every combination of item sizes, counts and values',
 'Tests zip two or three small Series; offset errors depend on the combination of item sizes and position of a Serie in the list.',
 [F+'utils/zip.h', F+'utils/unzip.h'], [('offset bookkeeping', F+'utils/zip.h zip/zipVector, '+F+'utils/unzip.h unzip')],
 ['returned Series'],
 'round trip in both directions and bitwise comparison with a reference model',
 'round-trip and model-based property testing')

prop('C08', 'concat, merge and partition_n keep every item once, in order',
 'concat, and merge in concatenation mode, give the items of the first Serie followed by those of the next ones; merge in interleave mode gives, index by index, the item of each Serie that still has one. '
 'partition_n cuts a Serie into consecutive parts whose counts differ by at most one, larger parts first (a single Serie gives no trailing empty part, several Series of equal count are each cut into exactly n parts), and concatenating the parts gives the Serie back.',
 ['inputs'], 'every number of Series, counts (equal or not, empty or not), item sizes, values and number of parts',
 'Tests use two short Series and one n; remainders, empty Series and n larger than the count are where such code breaks.',
 [F+'utils/concat.h', F+'merge.h', F+'utils/partition_n.h'], [('copy loops', F+'merge.h merge'), ('base size and remainder', F+'utils/partition_n.h partition_n')],
 ['returned Series'],
 'bitwise comparison with a reference model plus the concat(partition_n) round trip',
 'round-trip and model-based property testing')

prop('C09', 'sort returns an ordered permutation of the items',
 'sort returns a permutation of the items of its input (whole items are moved, none lost, duplicated or altered) in an order consistent with the given comparator, for scalar as well as vector items. '
 'Without comparator the order is increasing for scalars and lexicographic for vectors.',
 ['inputs', 'programs'], 'every Serie without NaN (counts far beyond a few items, many duplicates, signed zeros, infinities) and every strict weak ordering',
 'Tests sort at most five items; large inputs, ties and custom comparators on scalars take other paths.',
 [F+'utils/sort.h'], [('sort of extracted items', F+'utils/sort.h sort')],
 ['returned Serie'],
 'both directions checked: ordered by the comparator and a permutation of the input items (as multisets of bit patterns)',
 'property-based testing with an order-and-permutation oracle')

prop('C10', 'Element-wise arithmetic is correct for every item',
 'add, sub (two Series, lists, or a number), mult, scale, negate, div (by a number or item-wise) and weigthedSum give, at every item and component, the value of the corresponding arithmetic expression on the inputs at that place (for lists: the first combined with all the others; a scalar multiplier or divider Serie applies to every component of its item). '
 'Item-wise division by a divider smaller in magnitude than 1e-10 gives 0.',
 ['inputs'], 'every count, item size, number of Series, finite values of any magnitude, including the same Serie passed twice',
 'Tests add a few literal numbers; component mix-ups, dropped terms and special-value shortcuts depend on item size, list length and values.',
 [F+'math/add.h', F+'math/sub.h', F+'math/mult.h', F+'math/div.h', F+'math/scale.h', F+'math/negate.h', F+'math/weightedSum.h', S+'math'], [('per-item loops', S+'math/*.cxx')],
 ['returned Serie'],
 'exact comparison for integer and dyadic values, relative tolerance 1e-9 otherwise',
 'property-based testing against a reference model; algebraic laws as cross-checks')

prop('C11', 'Comparisons report exactly the differences there are',
 'equals is true exactly when the two Series are valid and have the same item size, count, space dimension and values; approximatelyEquals when all corresponding values differ by at most the given epsilon; equalsAll when all Series are equal, and approximatelyEqualsAll (of any number of Series, with or without epsilon) when each is approximately equal to the next one. '
 'equalityMask and approximateEqualityMask flag with 1 exactly the items all of whose components are equal (within epsilon), and 0 the others.',
 ['inputs'], 'every pair or list of Series, differing nowhere or at one arbitrary position, component or attribute, and every epsilon',
 'Tests compare a few numbers differing at one chosen place; a skipped position or component is invisible to them.',
 [F+'math/equals.h'], [('attribute and value comparison', F+'math/equals.h equals/approximatelyEquals/equalityMask/approximateEqualityMask')],
 ['returned boolean or mask'],
 'Series are generated together with mutants that differ at exactly one place (value, component, count, item size, dimension)',
 'property-based testing with single-point mutants and a reference comparison')

prop('C12', 'minMax bounds are tight; normalize maps onto the unit range',
 'minMax gives, for each component, the smallest and the largest value of that component over all items (both attained). '
 'Normalizing a non-constant scalar Serie is the affine map sending the smallest value to 0 and the largest to 1; normalizing vectors gives, for each non-zero vector, the unit vector with the same direction. An empty Serie gives empty bounds and an empty result.',
 ['inputs'], 'every count, item size and finite values (infinities too for minMax)',
 'Tests use a few positive numbers; extremes at the first or last item, negative-only data and single items are separate cases.',
 [F+'math/minMax.h', F+'math/normalize.h', S+'math/minMax.cxx', S+'math/normalize.cxx'], [('running extremes', S+'math/minMax.cxx minMax'), ('affine map and vector scaling', S+'math/normalize.cxx normalize')],
 ['returned bounds and Serie'],
 'exact comparison of the bounds, relative tolerance 1e-9 for the normalized values',
 'property-based testing against a reference model')

prop('C13', 'mean and covariance are the population statistics',
 'mean gives, as a number for scalars and as an array otherwise, the arithmetic mean of every component over all items. '
 'covariance of two scalar Series is the population covariance: symmetric, bilinear, unchanged by adding constants, zero for constants, and equal to the variance when both are the same Serie.',
 ['inputs'], 'every non-empty Serie with finite values of bounded magnitude, every item size and count',
 'Tests use a few numbers; index or normalisation errors cancel on symmetric data.',
 [F+'stats/mean.h', F+'stats/covariance.h', S+'stats/mean.cxx', S+'stats/covariance.cxx'], [('sums divided by the count', S+'stats/mean.cxx mean, '+S+'stats/covariance.cxx covariance')],
 ['returned numbers'],
 'long double reference with tolerance proportional to the magnitude of the summed terms, plus the algebraic laws',
 'property-based testing against a higher-precision reference and metamorphic laws')

prop('C14', 'Quantiles interpolate the order statistics; outliers complement inliers',
 'quantile(q) of a non-empty scalar Serie is the linear interpolation of its sorted values at position q(n-1), whatever the order of the items; it is monotone in q and reaches the minimum at 0 and the maximum at 1; q25, q50, q75 and IQR are the corresponding quantiles and their spread. '
 'For a mustache m, outliers are exactly the values, in original order, below q25 - m*IQR or above q75 + m*IQR; isOutliers flags exactly those with 1 and the others with 0, and notOutliers are exactly the others.',
 ['inputs'], 'every non-empty scalar Serie of finite values (any order and magnitude, duplicates, one or two items; infinities too for the quantiles), every q in [0,1] and every mustache',
 'Tests check a couple of quantiles of short lists; interpolation and boundary errors need q and n combinations.',
 [F+'stats/quantile.h', S+'stats/quantile.cxx'], [('sorted interpolation', S+'stats/quantile.cxx quantile'), ('mustache bounds', S+'stats/quantile.cxx outliers/isOutliers/notOutliers')],
 ['returned numbers and Series'],
 'reference interpolation with relative tolerance 1e-9; values within rounding of a mustache bound accept either side (consistently)',
 'property-based testing against a reference model and metamorphic laws')

prop('C15', 'Binning counts every value exactly once, in its bin',
 'bins returns one count per bin; the counts add up to the number of values, and each value is counted in the equal-width bin of the range that contains it (lower bound included, the upper bound and anything above it counted in the last bin, and everything in the first bin if the range is reduced to the single value present). '
 'Without range, the range runs from the smallest to the largest value; zero bins give no Serie, and an empty Serie gives zero counts.',
 ['inputs'], 'every scalar Serie with values at or above the lower bound, every number of bins and range',
 'Tests bin a dozen literals into a few bins; values on bin edges, constant data and the extreme values are the interesting cases.',
 [F+'stats/bins.h', S+'stats/bins.cxx'], [('index = floor((v-start)/width), clamped', S+'stats/bins.cxx bins')],
 ['returned counts'],
 'exact for dyadic ranges; otherwise a value within rounding of a bin edge may be counted on either side of it',
 'property-based testing against a reference histogram')

prop('C16', 'dot, cross and norm satisfy the algebra of vectors',
 'For every item: dot gives the sum of products of the components (of two Series, or of a Serie and a constant vector), norm the Euclidean length and norm2 its square, for any item size including scalars. '
 'cross gives the 3D vector product: orthogonal to both operands, antisymmetric, right-handed.',
 ['inputs'], 'every count, item size and finite values whose products neither overflow nor underflow, including the same Serie passed twice',
 'Tests use a few axis-aligned vectors, for which swapped or dropped components often give the same result.',
 [F+'algebra/dot.h', F+'algebra/cross.h', F+'algebra/norm.h', S+'algebra/dot.cxx', S+'algebra/cross.cxx', S+'algebra/norm.cxx'], [('per-item products', S+'algebra/dot.cxx, cross.cxx, norm.cxx')],
 ['returned Serie'],
 'exact comparison on integers, relative tolerance 1e-9 otherwise',
 'property-based testing against a reference model and algebraic laws')

prop('C17', 'det, inv and transpose agree with matrix algebra',
 'For every item (symmetric 2D/3D matrices stored as upper triangle, or full matrices stored by rows): det is the determinant (2D and 3D), inv of a well-conditioned 3D matrix is the matrix whose product with the item is the identity, in the same storage, and transpose (2D and 3D full matrices) exchanges rows and columns and is its own inverse.',
 ['inputs'], 'every count and every matrix entry of moderate magnitude, symmetric or not',
 'Tests use identity, diagonal or symmetric examples, blind to swapped off-diagonal entries.',
 [F+'algebra/det.h', F+'algebra/inv.h', F+'algebra/transpose.h', S+'algebra/det.cxx', S+'algebra/inv.cxx', S+'algebra/transpose.cxx'], [('cofactor formulas', S+'algebra/det.cxx, inv.cxx'), ('index permutation', S+'algebra/transpose.cxx')],
 ['returned Serie'],
 'exact determinants on integers; inverse checked by the residual of the product with a condition-scaled tolerance; matrices with |det| below 1e-10 are refused by the code and excluded',
 'property-based testing against reference linear algebra and residual oracles')

prop('C18', 'Eigen decompositions reconstruct the symmetric matrix',
 'For every symmetric 2D or 3D matrix item, the eigenvalues come in decreasing order, the eigenvectors (stored one after the other, in the order of the eigenvalues) are orthonormal, and each vector v with its value l satisfies M v = l v within the accuracy of the solver (0.5% of the off-diagonal magnitude of M); each eigenvalue is the quotient v.Mv of its vector to rounding. '
 'The eigenvalues add up to the trace, and eigenValues, eigenVectors and eigenSystem agree with one another.',
 ['inputs'], 'every count and every symmetric matrix: generic, diagonal, degenerate, rank-deficient, huge or tiny entries, mixed scales',
 'Tests check two matrices with tidy eigenvalues; ordering, pairing and convergence errors depend on the matrix.',
 [F+'algebra/eigen.h', S+'algebra/eigen.cxx'], [('Jacobi rotations and sorting', S+'algebra/eigen.cxx symmetricEigen')],
 ['returned values and vectors'],
 'residual, orthonormality, trace and ordering oracles; the tolerance is the guaranteed bound of the stopping criterion, so smaller inaccuracies are not reported',
 'property-based testing with residual, orthonormality and consistency oracles')

prop('C19', 'Matrix and Vector views implement matrix-vector algebra',
 'A Matrix view reads back its coefficients by row and column; symmetric packing expands to the symmetric full matrix and back; trace, transpose, isSymmetric, matrix-vector and matrix-matrix products are those of linear algebra for any order. '
 'Vector operations (add, sub, mult by number or component-wise, dot, norm, normalize, indexing) are those of vector algebra, modify only their own vector and chain; results stay valid after the operands are gone.',
 ['inputs', 'programs'], 'every matrix order (1 and up), every coefficient, every chain of vector operations',
 'Tests use one or two small matrices; index formulas must hold for every order and temporaries must not dangle.',
 [I+'view/Matrix.h', I+'view/Vector.h', 'src/view/Matrix.cxx', 'src/view/Vector.cxx'], [('row-major and packed indices', 'src/view/Matrix.cxx index/indexS'), ('value semantics', I+'view/Matrix.h')],
 ['at(), array(), length(), products'],
 'exact comparison on integers, relative tolerance 1e-9 otherwise; sizes must match (mismatches are covered by C27)',
 'property-based testing against a reference model, under AddressSanitizer')

prop('C20', 'Triangle mesh normals, areas and valences are geometrically right',
 'For every triangle of a mesh, its normal is the cross product of its two edges leaving its first vertex (so its length is twice the area, and swapping two vertices flips it), and its area is that of the triangle; neither depends on where the other triangles are, on translation of the mesh, nor (for the area) on the starting vertex. '
 'The valence of a vertex is the number of triangle corners referring to it, over all triangles.',
 ['inputs'], 'every mesh: any vertex positions, any triangles with in-range vertex indices (shared, repeated, unreferenced or last vertices), degenerate triangles included',
 'Tests use one triangle at the origin.',
 [F+'geo/normals.h', F+'geo/areas.h', S+'geo/normals.cxx', S+'geo/areas.cxx', 'src/attributes/Valence.cxx'], [('edge cross product', S+'geo/normals.cxx normals'), ('half norm', S+'geo/areas.cxx areas'), ('corner counting', 'src/attributes/Valence.cxx')],
 ['returned Series'],
 'reference geometry, exact on integers, relative tolerance 1e-9 otherwise',
 'property-based testing against reference geometry and metamorphic laws')

prop('C21', 'Cartesian grids contain exactly the right points',
 'A grid from dimensions or from two opposite points with n1, n2, n3 points per axis has n1*n2*n3 points of 3 coordinates, ordered with the first axis varying fastest, evenly spaced along each axis. '
 'The grid from points runs exactly from the first to the opposite point along every axis with at least two points; the grid from dimensions spans exactly the box of these dimensions around the center. An axis with one point (or not listed) stays at one constant coordinate within the box.',
 ['inputs'], 'every number of axes (1 to 3), numbers of points per axis, centers, dimensions and opposite points',
 'Tests do not cover grids at all.',
 [F+'geo/cartesian_grid.h'], [('spacing and triple loop', F+'geo/cartesian_grid.h from_dims/from_points')],
 ['returned Serie'],
 'reference grid with relative tolerance 1e-9 of the box size',
 'property-based testing against a reference grid')

prop('C22', 'InSAR projection and fringes',
 'insar gives, for every displacement vector, its projection on (dot product with) the line-of-sight vector. '
 'fringes gives, for every value and positive fringe spacing s, a value in [0, s] that differs from the input by a whole multiple of s.',
 ['inputs'], 'every displacement Serie, line of sight and positive fringe spacing, negative displacements included',
 'Tests do not cover these operations.',
 [F+'geo/insar.h', S+'geo/insar.cxx'], [('constant dot product', S+'geo/insar.cxx insar'), ('fractional part', S+'geo/insar.cxx fringes')],
 ['returned Serie'],
 'reference projection; wrapped difference compared with the nearest multiple with tolerance scaled by the magnitude of the value',
 'property-based testing against a reference model and a congruence oracle')

prop('C23', 'Memoized functions are indistinguishable from the original',
 'A memoized function returns, for every history of calls (repeated, interleaved, with equal, similar or differently laid out Series, before and after clearing its cache), exactly what the wrapped pure function returns for that argument. '
 'It calls the wrapped function at most once per distinct argument between two cache clears, and its results are not affected by later changes to an argument or to a returned Serie.',
 ['histories', 'inputs'], 'every history of calls and cache clears over a pool of arguments, including arguments equal in values but not in layout, NaN and signed zeros',
 'The test calls one function twice; key collisions need pairs of near-identical arguments.',
 [F+'utils/memoize.h'], [('cache keyed by the whole Serie', F+'utils/memoize.h Memoized::make_key')],
 ['returned Serie', 'number of calls of the wrapped function'],
 'histories of calls over pools of near-identical Series (same values with another item size, dimension or count split, prefixes, permutations, NaN, -0)',
 'stateful property testing against the unmemoized function')

prop('C24', 'Parallel execution equals sequential execution in every schedule',
 'Executing an item-wise function in parallel on any number of cores gives exactly the Serie the function gives sequentially, items in order, whatever the order in which the parallel jobs start and finish. '
 'Every item is processed exactly once, in consecutive chunks, and an error raised in any job, or a job returning the wrong number of items, is reported to the caller as an error.',
 ['schedules', 'inputs', 'fault_sequences'], 'every completion order of the jobs, number of cores (1, fewer or more than items), Serie, and set of failing jobs',
 'Tests do not run it at all, and a race or ordering error shows only under particular completion orders.',
 [F+'utils/parallel_execute.h', F+'utils/partition_n.h'], [('ordered futures', F+'utils/parallel_execute.h parallel_execute')],
 ['returned Serie or exception', 'chunks seen by the functor'],
 'job completion order is forced to generated permutations through gates inside the functor; a part of the cases runs free. Interleavings inside the standard library are not controlled; thread sanitizer build in the thorough tier',
 'property-based testing with generated schedules (gated jobs) and injected faults')

prop('C25', 'A Dataframe behaves as a map from names to Series',
 'After any history of add, set, create, del, clear, write-through access and setCount, a data frame contains exactly the names added and not deleted, each with the last Serie stored under it (a copy: later changes of the source do not show), and looking up a missing name in a const data frame gives an invalid Serie and adds nothing. '
 'setCount to a new non-zero count resizes every contained Serie to that many zero items and keeps their item size; setting the current count or zero changes nothing.',
 ['histories', 'inputs'], 'every history of data frame operations over any names and Series, invalid Series included',
 'Tests add a few Series and look them up; replacement, deletion and resizing interact over histories.',
 [I+'Dataframe.h', 'src/Dataframe.cxx', 'src/utils/nameOfSerie.cxx'], [('name to Serie map', 'src/Dataframe.cxx'), ('count adoption and resizing', 'src/Dataframe.cxx add/setCount')],
 ['series(), contains, get, operator[] after every step'],
 'stateful comparison with a map model after every step. The count a data frame adopts from its first added Serie is part of the model',
 'stateful model-based property testing')

prop('C26', 'Every attribute a Manager advertises exists and is right',
 'Every name a Manager lists for an item size resolves to a valid Serie of that item size holding the right values: the stored Serie of that name if there is one (stored names win), else the component, coordinate, eigenvalue, eigenvector, normal, area, valence or user-defined attribute the name designates, computed from the current content of the data frame. '
 'contains answers true exactly for the listed names, a name designating nothing (a normal of positions and indices that make no mesh, say) resolves to an invalid Serie and is not listed, and the listing is exactly what the data frame and the decomposers provide, without duplicates. '
 'Each decomposer given to a Manager is destroyed exactly once, whatever is done with the Manager.',
 ['configurations', 'inputs', 'histories'], 'every data frame content (names, item sizes, 2D or 3D), every set and order of decomposers, and later changes of the data frame',
 'Tests list the names of one data frame and resolve a few; most advertised names are never resolved.',
 [I+'attributes', 'src/attributes'], [('listing', 'src/attributes/Manager.cxx names/contains'), ('resolution', 'src/attributes/Manager.cxx serie'), ('decomposers', 'src/attributes/*.cxx')],
 ['names(), serie(), contains()'],
 'reference decomposition for every kind of decomposer; names are generated so that no two sources advertise the same name except stored ones',
 'model-based property testing over generated configurations')

prop('C27', 'Incompatible inputs are refused with an error, never processed',
 'Operations given Series that do not fit together (different counts, or different item sizes where these must agree), an item size they are not defined for, invalid Series, sizes or parameters out of their documented range (sizes that do not fit in 32 bits too), values that do not fill a Matrix view, Vector views of different lengths, or a singular matrix to invert, signal it by an exception (insar, fringes, inv of a non 3D matrix, dot with a vector of another length and mesh operations by an invalid Serie). '
 'They never return a result computed from part of the data, crash, or read or write out of bounds, and their inputs are left unchanged.',
 ['inputs'], 'every operation with a documented or implemented precondition, and every kind and position of mismatch (which argument, by how much, scalar or vector, empty or not)',
 'Tests check a handful of mismatches; each operation has its own checks for each argument.',
 [F, S, I+'utils.h', 'src/view/Matrix.cxx'], [('count check', I+'utils.h countAndCheck'), ('precondition checks', 'head of each operation')],
 ['exception or invalid result', 'sanitizer reports'],
 'each law breaks exactly one precondition of a valid call; only preconditions the code checks are claimed',
 'property-based testing with single-precondition violations under AddressSanitizer')

prop('C28', 'Random Series are reproducible and in range',
 'random with a given seed always returns the same Serie, whatever was generated before; every value lies between the given bounds, the count and item size are as requested, and asking for more items with the same seed extends the same sequence. '
 'Different seeds give different Series, components vary independently (no repeated or constant values in a Serie of several values over a non-empty range), and values spread over the whole range.',
 ['inputs', 'histories'], 'every seed, count, item size and range, and any history of other generations in between',
 'Tests do not cover it.',
 [F+'math/random.h', S+'math/random.cxx'], [('generator seeded per call', S+'math/random.cxx random')],
 ['returned Serie'],
 'statistical parts use thresholds whose false alarm probability is below 1e-9 for the fixed seeds used',
 'property-based testing with metamorphic and distribution oracles')

prop('C29', 'Printing writes the complete value to the chosen stream',
 'Streaming an array, a list of names, a Serie or a list of Series into an output stream writes to that stream only, and what is written contains the count, item size and dimension (for a Serie) and every value, in order, as formatted by that stream (an invalid Serie has none, whatever its count was set to); the stream can be chained. '
 'The print utility writes the same information for each Serie on standard output; dump of a Serie or print of an array writes every item, and dump of a data frame every name with its item size and count, on standard error; messages go complete to their standard stream; toString of a Vector lists every component. Printing changes neither the Serie nor the stream formatting.',
 ['inputs'], 'every Serie, array and list (empty, single, long), every stream and its formatting state',
 'Tests print to the terminal and check nothing.',
 [I+'types.h', I+'inline/Serie.hxx', F+'utils/print.h', 'src/Serie.cxx', 'src/Dataframe.cxx', I+'utils/utils.h', 'src/view/Vector.cxx'], [('stream operators', I+'types.h, '+I+'inline/Serie.hxx'), ('print', F+'utils/print.h'), ('dump', 'src/Serie.cxx, src/Dataframe.cxx'), ('messages', I+'utils/utils.h'), ('Vector as text', 'src/view/Vector.cxx')],
 ['characters written to the stream, standard output and standard error'],
 'the numbers are parsed back from the text between the brackets; labels and white space are not judged',
 'property-based testing with a parse-back (round-trip) oracle')

prop('C30', 'The space dimension survives every operation on items',
 'A Serie keeps the space dimension it was built with through copy, clone, assignment, resizing and storage in a data frame, and operations that transform, select, reorder, split, join, zip, or combine arithmetically the items of Series of the same dimension (including eigen decompositions, transposition and parallel or piped execution) return non-empty Series with that dimension. When the Series combined have different dimensions the result takes that of the first (a division, that of the Serie divided). '
 'So a 2D matrix Serie is still treated as 2D after any chain of such operations.',
 ['programs', 'inputs'], 'every chain of operations starting from 1D, 2D or 3D Series',
 'Tests only use the default dimension.',
 [I+'Serie.h', 'src/Serie.cxx', F, S], [('dimension passed to the result', 'each operation constructing a Serie')],
 ['dimension() of every result', 'eigenvalues of a 2D Serie after a chain'],
 'all listed operations, alone and in random chains; results that are invalid Series (for example the map of an empty Serie) have no dimension to check',
 'property-based testing over random operation chains')

prop('C31', 'The headers combine freely in programs of several source files',
 'A source file that includes any of the headers of the library, in any order and any number of times, each on its own to begin with, compiles. '
 'Any number of such source files, whatever each of them includes, link with the library into one program. '
 'An operation gives the same result from whichever source file it is called and whatever headers surround it, so including one more header never changes, hides or makes ambiguous a call that was valid.',
 ['programs'], 'every set and order of headers in each source file, every number of source files and every mix of calls',
 'Each test is a single source file with one fixed set of headers: functions defined twice, missing includes, ambiguous overloads and macro leaks show only for other sets, orders and numbers of files.',
 [I, F, I+'attributes'], [('include guards and inline definitions', 'every header'), ('overloads sharing a name across headers', F+'map.h, '+I+'utils/utils.h, '+F+'macros.h')],
 ['compiler and linker status of the generated program', 'results its files compute'],
 'programs of 1 to 4 source files made of about fifty kinds of calls with known results; built with g++ -std=gnu++20 and the two includes the build of the repository adds',
 'generative testing of whole programs (compile, link, run against expected results), with shrinking of the failing program')

prop('C32', 'Operations can be used from several threads on shared data',
 'Any operations of the library can run at the same time in several threads, or in the jobs of parallel_execute, on the same Series, arrays, data frame, attribute manager, pipelines and compositions, as long as none of these is being written to: there is no data race, and each call gives bit for bit what it gives when run alone. '
 'Threads that write each to their own Series and data frames, even when these are copies of shared ones, never affect one another or the shared originals. '
 '(The cache of a memoized function is written to by its calls, so one memoized function is not meant to be shared between threads.)',
 ['schedules', 'programs', 'inputs'], 'every set of operations, every inputs shared or copied between threads, every number of threads and every interleaving of them',
 'The tests are sequential (one calls parallel_execute with a pure function): scratch space or caches shared between calls are invisible until two threads meet in the same operation.',
 [F, S, 'src/attributes', 'src/Serie.cxx', 'src/Dataframe.cxx', F+'utils/parallel_execute.h'], [('operations keep no state between calls', 'every operation under functional/ and attributes/'), ('copies own their storage', 'src/Serie.cxx copy constructor, operator=')],
 ['ThreadSanitizer reports', 'results of the threads against the same calls made alone'],
 'ThreadSanitizer build of the library; a race is reported when both accesses happen without ordering, whatever their timing, but the accesses themselves depend on the generated calls; memoized functions are not shared',
 'property-based generation of concurrent programs, ThreadSanitizer and differential oracle (concurrent run against run alone), with shrinking')

prop('C33', 'Errors of user functions reach the caller and leave nothing behind',
 'When a function given to an operation (map, apply, filter, reject, cut, partition, find, check, if_then_else, forEach, reduce, sort, pipe, compose, memoize, parallel_execute, a user-defined decomposer, ...) throws, at whichever call and whatever the type of the error, the operation ends with that very error and gives no result (parallel_execute reports the standard error of a job by an error whose message quotes it). '
 'A sequential operation does not call the function again after it threw. The inputs are left as they were, nothing is leaked, and the same operation, pipeline, composition or memoized function used again gives what it would have given had the failure never happened (a failed call is never memoized).',
 ['crash_points', 'fault_sequences', 'inputs', 'histories'], 'every operation that calls user functions, every call at which the function throws, and every type of error',
 'The tests give functions that always succeed; a swallowed, replaced or remembered failure shows only when a chosen call of a chosen function throws.',
 [F+'map.h', F+'filter.h', F+'forEach.h', F+'utils', F+'conditional', I+'attributes/UserDefinedDecomposer.h'], [('user functions are called directly, results are built aside', 'every higher-order operation under functional/'), ('errors of the jobs', F+'utils/parallel_execute.h'), ('results are stored after they are computed', F+'utils/memoize.h Memoized::operator()')],
 ['the error caught by the caller', 'calls of the function', 'results of later calls', 'live heap blocks'],
 'fault injection by the n-th call of the user functions; assumes the user functions themselves release what they own',
 'property-based testing with injected faults (n-th call throws) against a fault-free run, with shrinking')

prop('C34', 'When memory runs out, operations fail cleanly',
 'If an allocation fails during any operation of the library, the caller gets std::bad_alloc (or the operation completes with the right result): inputs are left as they were and every block allocated meanwhile is released. '
 'A Serie or data frame being written (assigned, resized, added to) then stays as it was before the failed write, except that resizing a data frame may have resized some of its Series already; in particular a Serie always holds exactly count x itemSize values and a data frame never gains a name. '
 'A memoized function does not remember a call that failed.',
 ['crash_points', 'histories', 'inputs'], 'every operation and history of writes, and every allocation in it that may fail',
 'The tests never run out of memory; every allocation is a separate crash point, and an object left inconsistent by one shows only if that very allocation fails.',
 ['src/Serie.cxx', 'src/Dataframe.cxx', S+'algebra/eigen.cxx', F+'utils/memoize.h', F], [('storage replaced before the counts', 'src/Serie.cxx operator=, reCount'), ('insertion of complete Series', 'src/Dataframe.cxx add'), ('owned work arrays', S+'algebra/eigen.cxx symmetricEigen')],
 ['operator new and delete (replaced by the harness)', 'Serie::count/itemSize/asArray', 'Dataframe::series'],
 'fault injection by the n-th allocation (operator new replaced in the harness); output streams are excluded, since they swallow failures, and so is the hand-over of decomposers to a Manager by bare pointers',
 'property-based testing with injected faults (n-th allocation fails) against a fault-free run and a reference model, with shrinking')

prop('C35', 'Operations take any kind of callable, and treat it as the function it is',
 'An operation that takes a function of the user (map, apply, filter, reject, cut, partition, find, findAll, check, if_then_else, forEach, reduce, sort, pipe, compose, memoize, parallel_execute, their member forms and make_ forms) gives the same result whatever kind of callable computes it: lambda, function, pointer to function, function object or std::function, constant or not, named or temporary, noexcept or not, taking its arguments by value or by reference, with an index of any integral type, and returning any number. A predicate may answer by anything usable as a condition (filter, reject and cut of one Serie take a bool only). '
 'Operations on items make exactly the calls their meaning asks for, each once and in order: one per item with that item and its index (find stops at the first item accepted, if_then_else calls only the branch chosen, reduce hands over the previous result unchanged). '
 'An operation that calls the function right away calls the very object it was given, so that state kept in a function object or a mutable lambda is seen by the caller; what a function does to its own copies of its arguments never reaches the Series.',
 ['inputs', 'programs'], 'every operation that takes a function, every kind of callable and every Series',
 'The tests use plain constant lambdas with one or two argument types; a copy of the callable, an extra call or a kind that does not compile shows only with another kind.',
 [F+'map.h', F+'filter.h', F+'forEach.h', F+'reduce.h', F+'find.h', F+'conditional', F+'utils', I+'inline/Serie.hxx'], [('callback traits that choose between numbers and items', I+'Serie.h details::callback_traits, '+F+'filter.h, '+F+'reduce.h'), ('callbacks passed on by reference', I+'inline/Serie.hxx, '+F+'macros.h MAKE_OP')],
 ['results', 'the calls a function receives, with their arguments and order', 'the state of the object given'],
 'about seventy operations with functions and twenty-six kinds of callables; predicates must return bool (the library asserts it), make_ forms call constant objects, and filter, reject, cut and reduce do not take templates of operators',
 'property-based testing with a metamorphic relation (same function, other kind of callable) and a reference model of the calls, with shrinking; compile probes')

prop('C36', 'What an operation gives for an item does not depend on the other items',
 'Operations that work item by item (copy, map, apply, if_then_else, check, zip, unzip, add, sub, mult, div, scale, negate, weigthedSum, masks, dot, cross, norms, matrix and eigen operations, insar, fringes, normals, areas, attributes, pipelines, ...) give for any selection of the items - consecutive or not, in any order, with repetitions, one alone - bit for bit what they give for these items among all the others, however many and whatever these are; a Serie is refused only if one of its items alone would be. '
 'Operations that do the same to every component (add, sub, mult, div, scale, negate, concat, merge, partition_n, minMax, mean, ...) give for some of the components what they give for these among the others. '
 'Selections by a predicate on items (filter, reject, cut, partition, findAll) keep of a whole what they keep of its parts, and results that describe the items as a set (minMax, quantiles, bins, sort, outliers, equality, mean and covariance up to rounding) do not depend on their order.',
 ['inputs', 'histories'], 'every item-wise, component-wise, selecting or aggregating operation, every Series and every selection, permutation or cut',
 'The tests compare a few short Series with written results; a value that leaks from a neighbour, a fast path taken from some size on or a result that depends on the order needs the same items in another company.',
 [F, S, 'src/attributes', I+'inline/Serie.hxx'], [('one call per item, results pushed in order', F+'map.h, src/functional/math, src/functional/algebra'), ('component-wise loops', S+'math, '+S+'stats'), ('sorting before ranking', S+'stats/quantile.cxx, '+S+'stats/bins.cxx')],
 ['results of the operation on all items and on some of them'],
 'about ninety operations; Series of at most 210000 values; random generators, reductions with user functions, formatting and operations on positions of neighbours (grids) are excluded as they are not item-wise',
 'property-based testing with metamorphic relations (selection, projection on components, partition, permutation), with shrinking')

prop('C37', 'Results do not depend on the unit in which quantities are expressed',
 'Multiplying all the values given to an operation, and its parameters of the same nature, by a power of two multiplies its result by the power of it that the meaning of the operation tells: once for moves, sums, means, quantiles, minima and maxima, norms, eigenvalues, outliers, fringes, grids, random numbers between scaled bounds; twice for products, covariances, cross products, squared norms, normals and areas; as often as the order for determinants; not at all for eigenvectors, normalized values, comparisons, masks, counts and valences. '
 'A product of two quantities of different natures follows both units, and odd or even operations follow a change of sign. So no operation treats small or large quantities apart, but for the thresholds documented: dividers within 1e-10 of zero, determinants within 1e-10 when inverting, and the epsilon of approximate comparisons.',
 ['inputs'], 'every operation on quantities, every Series of finite values and every unit as long as nothing overflows or underflows',
 'The tests use a few numbers close to 1: a threshold, a cut-off or a rounding in absolute terms shows only for quantities much smaller or larger.',
 [F, S, 'src/attributes', 'src/view'], [('homogeneous expressions without thresholds', S+'math, '+S+'algebra, '+S+'stats, '+S+'geo'), ('relative stopping test of the eigen solver', S+'algebra/eigen.cxx'), ('accessors of attributes', 'src/attributes')],
 ['results of the operation in both units'],
 'about eighty operations; units between 2^-120 and 2^120; formatting is excluded',
 'property-based testing with a metamorphic relation (homogeneity), with shrinking')

NA = []

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    import glob
    have = {os.path.basename(x)[:3].upper() for x in glob.glob(os.path.join(ROOT, 'harness', 'c[0-9][0-9]_*.*'))}
    checks, na = [], list(NA)
    for p in P:
        if p['id'] in have:
            checks.append({'property': p['id'],
                'quick_cmd': 'python3 check.py ' + p['id'],
                'thorough_cmd': 'python3 check.py ' + p['id'] + ' --tier thorough',
                'evidence_file': 'evidence/' + p['id'] + '.json',
                'technique': p['technique'], 'level': 'exploration',
                'level_note': 'Search over generated inputs, not a proof: ' + p['note'] + '.'})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet'})
    man = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'One engine (harness/pbt.hpp), one harness per property (C31: generated programs, harness/c31_programs.py); see DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1); f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
if __name__ == '__main__':
    main()
