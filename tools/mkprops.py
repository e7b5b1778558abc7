#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
R = "lie_nn/_src/"
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[R + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "tensor_product is the ordered Kronecker product, whatever the input forms",
 "For any two representations of the same group, in any mix of forms (generic, tabulated irrep, irrep with multiplicity, reduced with or without a change of basis), tensor_product(a, b) has the common algebra, continuous generators Xa⊗1 + 1⊗Xb and discrete generators Ha⊗Hb, a being the slow and b the fast Kronecker factor. It assumes only that tabulated Clebsch-Gordan coefficients intertwine their own generators. tensor_power(a, n) multiplies exactly n factors.",
 ["inputs"], "all pairs of representation forms, groups, dimensions, multiplicities, irrep contents and change-of-basis matrices; all powers n",
 "Tests compare X (never H) for ReducedRep x ReducedRep without a change of basis and a few small irreps, and only the result type for two other overloads; the remaining overloads, a non-trivial Q, several distinct irreps on both sides and discrete generators are not exercised.",
 ["tensor_product.py", "reduced_rep.py", "util.py"],
 [("ten dispatched overloads", "tensor_product.py: tensor_product"), ("repeated squaring", "tensor_product.py: tensor_power")],
 ["X, H, A of the returned representation"])
prop("C02", "Direct sums, multiplicities and reduced reps are block-diagonal in listed order",
 "direct_sum(a, b), an irrep taken with a multiplicity, and a reduced representation act block-diagonally on every generator, continuous and discrete alike: one block per summand copy, in the order listed, no block lost or overlapped, whatever the sizes of the summands. A reduced representation with change of basis Q acts as Q·blocks·Q⁻¹.",
 ["inputs"], "all lists of summands, multiplicities (also 0), dimensions and invertible Q",
 "Tests see two or three blocks of small irreps through X only; discrete generators of reduced representations, unequal block sizes with Q, and multiplicity zero are not compared with a reference.",
 ["reduced_rep.py", "direct_sum.py", "util.py"],
 [("generators of MulIrrep and ReducedRep", "reduced_rep.py"), ("matrix direct sum", "util.py: direct_sum, block_diagonal")])
prop("C03", "Changes of basis, of algebra, of form and conjugation act on every generator",
 "change_basis(rep, Q) acts by QXQ⁻¹ and QHQ⁻¹ whatever the form of rep, composing on the left of a change of basis already present; change_algebra(rep, Q) replaces X_i by Q_ia X_a and A by Q·Q·A·Q⁻¹ and leaves H as it is; conjugate(rep) conjugates X and H; GenericRep.from_rep keeps A, X and H. The algebra is carried over unchanged by all but change_algebra.",
 ["inputs"], "all representations in all forms and all invertible (also complex, non-unitary) matrices Q",
 "One test per function with one SU2 or SO3 representation and one matrix; H is empty in all of them and Q is never complex.",
 ["change_basis.py", "change_algebra.py", "conjugate.py", "rep.py"],
 [("change_basis overloads", "change_basis.py"), ("change_algebra", "change_algebra.py"), ("conjugate", "conjugate.py"), ("GenericRep.from_rep", "rep.py")])
prop("C04", "A group product acts factor by factor",
 "group_product(a, b) has as algebra the block sum of the two algebras (a first, no cross terms), as continuous generators X_a⊗1 followed by 1⊗X_b, and as discrete generators H_a⊗1 followed by 1⊗H_b; the product of tabulated irreps obeys the same rule and group_product of three nests to the left. The Clebsch-Gordan coefficients of product irreps are the Kronecker products of the factors' coefficients, in the same order.",
 ["inputs"], "all pairs and triples of representations, in particular with different dimensions, different Lie dimensions and discrete generators on either side",
 "Tests use SU2xSU2 and SO3xZ2xZ2 with the bracket and CG identities only, so a swap of equal factors, misplaced discrete generators or the generic overload are invisible.",
 ["group_product.py"], [("generic and tabulated group_product", "group_product.py")])
prop("C05", "exp_map multiplies generators in the documented order",
 "exp_map(c, k) is the matrix H_1^{k_1} H_2^{k_2} … H_n^{k_n} · exp(Σ_a c_a X_a) for every representation, every real parameter vector c and all integers k, in that order. The JAX implementation multiplies in the same order.",
 ["inputs"], "all representations (several non-commuting discrete generators) and parameters",
 "A single test calls exp_map, on SO3, with no discrete parameter.",
 ["rep.py", "jax_utils.py"], [("Rep.exp_map", "rep.py"), ("exp_map", "jax_utils.py")])
prop("C06", "Generators, algebra and dimensions always have mutually consistent shapes",
 "For every representation the library can construct, X has shape (L, d, d), H has shape (n, d, d) and A has shape (L, L, L), where d is the reported dim and L the reported lie_dim. This holds for every label, for groups without continuous or without discrete generators, and for multiplicity zero.",
 ["inputs"], "all labels of all tabulated families, all composites (multiplicity, reduced, products, sums, changes of basis)",
 "Tests only instantiate the first seven labels of each family; empty generator sets are shaped arrays nobody compares.",
 ["rep.py", "reduced_rep.py", "irreps/su2.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/su2_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py", "finite.py", "group_product.py"],
 [("X, H, A and dim of each class", "the files above")])
prop("C07", "Clebsch-Gordan arrays have shape (paths, d1, d2, d3), also with no path",
 "For any three representations of one group, the Clebsch-Gordan array has four axes: number of independent paths, then the dimensions of the first, second and third representation in argument order. When the third does not occur in the product the array has zero paths and the other three axes keep their sizes.",
 ["inputs"], "all triples of labels of all tabulated families, product groups, and generic representations",
 "Tests take the first four labels of each family; larger labels, multiplicities above one and mixed-dimension triples are not reached.",
 ["clebsch_gordan.py", "irreps/su2.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/su2_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py", "group_product.py"],
 [("clebsch_gordan of each class", "irreps/*.py"), ("generic overload", "clebsch_gordan.py")])
prop("C08", "No operation modifies the representations or arrays it is given",
 "Every public function and method leaves the arrays, lists, sets and representation objects passed to it exactly as they were, including arrays owned by a representation it is given. Calling an operation therefore never changes what a representation returns afterwards.",
 ["inputs", "histories"], "all public operations, all argument values, all sequences of calls",
 "Tests look at results, never at the arguments afterwards, and mostly use tabulated irreps whose arrays are rebuilt at each access.",
 ["util.py", "rep.py", "reduced_rep.py", "tensor_product.py", "group_product.py", "reduced_tensor_product.py", "irreps/so13.py", "irreps/sun.py"],
 [("functions work on copies or fresh arrays", "whole package")])
prop("C09", "Results are reproducible: no hidden randomness, clock or hash-order dependence",
 "Apart from the documented random permutation helper and the reduction of an unknown representation, every operation is a deterministic function of its arguments: no random numbers, no clock, no process environment, and no dependence on the iteration order of sets in any ordered result. In particular bases, CG coefficients and the order of irreps come out identical in every run.",
 ["inputs", "configurations"], "all operations, all hash seeds and set insertion histories, all processes",
 "A test process has one hash seed and small integer sets whose iteration order happens to be sorted; the order of larger index sets is never exercised.",
 ["reduced_tensor_product.py", "util.py", "discrete_groups/perm.py", "irreps/sun.py"],
 [("sorting before materialising a set", "reduced_tensor_product.py, irreps/sun.py")])
prop("C10", "Operations keep no hidden state: history never changes a result",
 "No operation changes process-wide settings (numpy print or error state, random seeds), module- or class-level data or default arguments, and no cached value can be altered by a caller or by the library after it has been stored. Caches are keyed by everything the cached value depends on, so the result of a call is independent of the calls made before it.",
 ["histories"], "all sequences of public calls, including calls that fail",
 "Tests run each operation a few times in one fixed order and do not inspect global settings or reuse results.",
 ["rep.py", "util.py", "reduced_tensor_product.py", "irreps/sun.py"],
 [("lru_cache on pure helpers with immutable keys", "reduced_tensor_product.py"), ("context managers for numpy state", "rep.py, util.py")])
prop("C11", "Operations combining two representations refuse different groups",
 "tensor_product, direct_sum, infer_change_of_basis, the generic Clebsch-Gordan computation, building a reduced representation from irreps, and the product of two irreps refuse (by raising) representations whose algebras differ, in every combination of input forms. Where both are available, tensor_product and direct_sum of generic representations also refuse different numbers of discrete generators.",
 ["inputs"], "all pairs of representations of different groups, in all forms, in both argument orders",
 "No test passes representations of different groups.",
 ["tensor_product.py", "direct_sum.py", "infer_change_of_basis.py", "clebsch_gordan.py", "reduced_rep.py", "irreps/su2.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/su2_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py", "group_product.py"],
 [("algebra comparison before combining", "the files above"), ("isinstance guard in irrep products", "irreps/*.py")])
prop("C12", "Every combination of forms is supported and known structure is kept",
 "Each binary or unary operation accepts every combination of representation forms through exactly one most specific implementation, also when an irrep occurs several times. Products of tabulated, multiple or reduced representations, their changes of basis and their reductions stay reduced representations (with irreps listed as a tuple or list of irreps with multiplicity); as soon as a generic representation is involved the result is generic.",
 ["inputs"], "all ordered pairs of forms for each operation",
 "Tests check the result type of five of the sixteen pairs.",
 ["tensor_product.py", "change_basis.py", "reduce.py", "direct_sum.py", "conjugate.py", "clebsch_gordan.py", "group_product.py"],
 [("multiple dispatch tables", "the files above")])
prop("C13", "Irrep products list exactly the irreps the coefficients couple to",
 "For every pair of labels of SU2, SO3, O3, Z2, SL2C, SO13 and products of such irreps, the product of irreps yields irreps of the same class whose dimensions add up to d1·d2 and whose parity labels multiply. The Clebsch-Gordan array of three labels has at least one path exactly when the third is listed in the product of the first two.",
 ["inputs"], "all pairs and triples of labels (unbounded)",
 "Tests take triples of the first four labels of each family, where ranges are short and steps of one or two often coincide.",
 ["irreps/su2.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/z2.py", "irreps/sl2c.py", "irreps/so13.py", "group_product.py"],
 [("__mul__ of each class", "irreps/*.py"), ("guard in clebsch_gordan", "irreps/*.py")])
prop("C14", "Irreps are totally ordered and enumerated once each, trivial first",
 "Within each tabulated family '<' is a strict total order: exactly one of a<b, b<a, a==b holds for any two labels. The family iterator yields every label exactly once, in increasing order, starting with the trivial representation.",
 ["inputs"], "all pairs of labels; the whole infinite enumeration",
 "Tests compare neighbours among the first ten labels of each iterator.",
 ["irreps/su2.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/su2_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py", "irrep.py"],
 [("__lt__ and iterator of each class", "irreps/*.py")])
prop("C15", "A label that names no irrep is rejected at construction, valid ones are accepted",
 "Constructing an irrep of SU2, SU2Real, SO3, O3, Z2, SL2C, SO13, SUN, SU2_, SU3 or SU4 raises when its label names no representation: negative or non-integer weights, a parity other than ±1, l+k odd for SO13, weights not non-increasing, not ending in 0 or of the wrong length. Every label that names a representation is accepted.",
 ["inputs"], "all labels, valid and invalid",
 "Tests only build valid labels.",
 ["irreps/su2.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/su2_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py"],
 [("__post_init__ of each class", "irreps/*.py")])
prop("C16", "Label strings are parsed completely or rejected",
 "from_string of an irrep class, of an irrep with multiplicity ('3x1') and of a reduced representation ('1+2x0') yields exactly the labels and multiplicities written, in the order written, ignoring surrounding blanks. A string with missing, extra or trailing characters raises; it never yields a different representation.",
 ["inputs"], "all strings",
 "One test parses one string.",
 ["irreps/su2.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py", "reduced_rep.py"],
 [("from_string", "irreps/*.py, reduced_rep.py")])
prop("C17", "Verdicts and reductions take continuous and discrete generators into account",
 "is_unitary, is_irreducible, is_real, make_explicitly_real, reduce, infer_change_of_basis and the generic Clebsch-Gordan computation depend on both the continuous and the discrete generators of every representation they are given; is_trivial additionally depends on the dimension, and check_representation_triplet fails when any of the algebra, continuous or discrete relations fails. No generator is left out.",
 ["inputs"], "all representations, in particular those where only the discrete part violates the property",
 "In the tests the discrete part is absent or a multiple of the identity, so a verdict ignoring it is never wrong.",
 ["properties.py", "is_irreducible.py", "real.py", "reduce.py", "infer_change_of_basis.py", "rep.py", "util.py"],
 [("concatenation of X and H", "the files above")])
prop("C18", "Imaginary parts are never dropped silently",
 "No operation narrows a possibly complex array to real (taking the real part, storing into a real container, converting the type) unless on that path it has established that the imaginary part vanishes, or it keeps the imaginary part separately. Complex generators, algebras and changes of basis therefore survive every operation.",
 ["inputs"], "all inputs with non-zero imaginary parts",
 "Most tested families are real, or complex in X only; block_diagonal and complex Q in products are untested.",
 ["tensor_product.py", "group_product.py", "util.py", "reduced_rep.py", "irreps/so3_real.py", "irreps/su2_real.py", "irreps/so13.py", "real.py"],
 [("result dtypes of containers", "the files above"), ("imaginary part assertions", "irreps/*.py")])
prop("C19", "Degenerate generator counts and multiplicities are supported everywhere",
 "Operations on representations keep working when there are no continuous generators, no discrete generators, neither, or when a multiplicity is zero: they return correctly shaped empty arrays or the right answer instead of failing on an empty collection. This covers generators, exp_map, sums, products, reductions, change-of-basis inference and the consistency checks.",
 ["inputs"], "all representations with an empty set of generators of either kind, zero multiplicities",
 "Finite groups are only touched by group products with SO3; no test has lie_dim 0 in a reduction, a sum or a check, nor multiplicity 0.",
 ["reduced_rep.py", "util.py", "rep.py", "infer_change_of_basis.py", "reduce.py", "direct_sum.py", "tensor_product.py", "finite.py"],
 [("guards before stacking and concatenating", "the files above")])
prop("C20", "Inferred algebras and intertwiners are verified before they are returned",
 "infer_change_of_basis returns intertwiners only after checking them against all continuous and discrete generators of both representations, and raises otherwise; an algebra inferred from generators is returned only if it reproduces all brackets, otherwise None is returned (and no representation is built). A real-looking result of make_explicitly_real is returned only after its generators were found real. The consistency checks (check_algebra_vs_generators, check_representation_triplet) accept no algebra, generators or coefficients which violate the relation for a single generator or bracket.",
 ["inputs"], "all inputs, in particular ill-conditioned and inconsistent ones",
 "Tests only use inputs for which the numerical inference succeeds.",
 ["infer_change_of_basis.py", "util.py", "rep.py", "real.py"],
 [("assert_allclose before return", "infer_change_of_basis.py"), ("check_algebra_vs_generators gate", "util.py")])
prop("C21", "Basis blocks stay paired with their irreps and multiplicities",
 "Throughout the reduced tensor product computation, the i-th block of basis vectors always belongs to the i-th irrep and its multiplicity axis has the announced length, through products, sorting, merging, reshaping and restriction by permutation symmetry. The representation returned with a basis lists irreps in the order in which the basis columns are concatenated. Without a permutation symmetry the basis spans the whole tensor product: no coupling is left out or repeated.",
 ["inputs"], "all formulas, irreps and permutation symmetries",
 "One equivariance test with SO3 and one fully symmetric cubic formula.",
 ["reduced_tensor_product.py"],
 [("IrrepsArray operations", "reduced_tensor_product.py: IrrepsArray"), ("construction of new lists", "reduced_tensor_product.py: reduce_basis_product, constrain_rotation_basis_by_permutation_basis")])
prop("C22", "Every family implements its interface or refuses loudly",
 "Each exported irrep family provides labels, dimension, order, enumeration, product, Clebsch-Gordan coefficients, generators and algebra. An operation that is not available raises an exception; it never returns an exception object, None or an unrelated value in place of a result.",
 ["inputs"], "all families and all interface operations, all control paths",
 "Unexported and partially implemented families are not tested at all.",
 ["irrep.py", "rep.py", "irreps/su2.py", "irreps/so3_real.py", "irreps/o3_real.py", "irreps/su2_real.py", "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py", "irreps/son.py", "irreps/spn.py", "finite.py", "group_product.py"],
 [("abstract methods of Rep and TabulatedIrrep", "rep.py, irrep.py")])
prop("C23", "create_trivial gives the trivial representation of the same group",
 "create_trivial of any representation returns a representation of the same group (same algebra, same number of continuous and discrete generators) of dimension 1 on which every continuous generator acts by 0 and every discrete generator by 1. is_trivial is true exactly of the one-dimensional representations on which they act so.",
 ["inputs"], "all forms of representations and all groups, including those with discrete generators or none of a kind",
 "Tests check it for nine tabulated families only; generic, multiple, reduced, product and finite-group representations are untested.",
 ["rep.py", "irrep.py", "reduced_rep.py", "finite.py", "group_product.py"],
 [("create_trivial", "the files above")])
prop("C24", "Rational rounding respects its denominator bound and keeps exact inputs",
 "Limiting a normalised fraction to denominators up to a bound returns it unchanged when its denominator is at most the bound, and otherwise a fraction whose denominator does not exceed the bound.",
 ["inputs"], "all integer fractions and all bounds, elementwise on arrays",
 "Random tests with the default bound never hit the boundary case denominator == bound or other bounds.",
 ["util.py"], [("limit_denominator", "util.py")])
prop("C25", "Every multiplicity copy and every label of a loop nest is computed",
 "When several independent couplings of the same irreps exist, the coefficients of each one are computed for all states; no copy is left at its initial value because work for an earlier copy exhausted shared bookkeeping.",
 ["inputs"], "all triples of irreps with multiplicity greater than one",
 "Tests contain no product with multiplicity greater than one.",
 ["irreps/sun.py"], [("state worklist per multiplicity", "irreps/sun.py: clebsch_gordan_matrix")])

# listed, not claimed
prop("C30", "Tabulated generators satisfy the bracket relations of the algebra",
 "For every label of every tabulated family, [X_i, X_j] = A_ijk X_k.",
 ["inputs"], "all labels", "Tests check the first seven labels of each family.",
 ["irreps/su2.py", "irreps/sun.py", "irreps/sl2c.py", "irreps/so13.py"], [("continuous_generators", "irreps/*.py")])
prop("C31", "Tabulated Clebsch-Gordan coefficients are equivariant",
 "For every triple of labels the tabulated coefficients intertwine the product of the first two representations with the third.",
 ["inputs"], "all triples of labels", "Tests check the first four labels of each family.",
 ["irreps/su2.py", "irreps/so3_real.py", "irreps/sun.py", "irreps/sl2c.py"], [("clebsch_gordan", "irreps/*.py")])
prop("C32", "Null spaces and orthonormalisation are numerically complete",
 "nullspace, gram_schmidt, extend_basis and basis_intersection return orthonormal bases of the exact dimension.",
 ["inputs"], "all matrices", "Random matrices of one size.", ["util.py"], [("nullspace", "util.py")])
prop("C33", "reduce splits a representation into irreducible summands",
 "Every summand returned by reduce is irreducible and the change of basis is invertible.",
 ["inputs"], "all representations", "One representation.", ["reduce.py", "util.py"], [("decompose_rep_into_irreps", "util.py")])
prop("C34", "Permutation-symmetric bases span exactly the symmetric tensors",
 "reduced_tensor_product_basis returns a complete equivariant basis of the tensors with the announced permutation symmetry.",
 ["inputs"], "all formulas", "One formula.", ["reduced_tensor_product.py"], [("_reduced_tensor_product_basis", "reduced_tensor_product.py")])
prop("C35", "Permutation encodings round-trip",
 "to_int and from_int are inverse bijections, sign is multiplicative, to_cycles is canonical.",
 ["inputs"], "all permutations", "No test.", ["discrete_groups/perm.py"], [("from_int, to_int, sign", "discrete_groups/perm.py")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
