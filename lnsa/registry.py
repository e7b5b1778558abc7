"""Which analyses decide which property."""
from . import v_values, v_effects, v_family, v_struct, v_shape, v_iface, v_gate, v_parse, v_repro, v_copies, v_blocks

INTERP = ("Abstract interpretation of the source (parsed on every run, never imported or executed): representations are arbitrary elements of "
          "their form - arrays are leaves of a value-numbering domain with symbolic shapes, irreps are instances of an arbitrary subclass of "
          "TabulatedIrrep of which only the contract is known - undecided branches are partitioned, and the value numbers the code computes are "
          "compared with those of the definition by random interpretation over a finite field (a difference at one interpretation which "
          "satisfies the path's assumptions refutes, agreement at several proves up to a negligible probability). ")
META = {}
TASKS = {}


def reg(pid, rule, what, tasks, assumptions=()):
    META[pid] = {"rule": rule, "explanation": INTERP + what, "assumptions": list(assumptions)}
    TASKS[pid] = tasks


def tasks(pid, tier):
    return TASKS[pid](tier)


CG = "Clebsch-Gordan coefficients of a tabulated irrep intertwine its generators (the contract of TabulatedIrrep)"
DIMS = "matrices inverted by the code are invertible; multiplicities are enumerated (0 to 3), dimensions of irreps inside reduced representations are 1 to 3"
reg("C01", v_values.RULE01, "Every ordered pair of forms and tensor_power for exponents 0 to 4 (5) are analysed.", v_values.c01, [CG, DIMS])
reg("C02", v_values.RULE02, "Multiplicities, reduced representations, direct sums of all pairs of forms and the matrix helpers are analysed.", v_values.c02, [DIMS])
reg("C03", v_values.RULE03, "change_basis (once and twice), change_algebra, conjugate and from_rep are analysed on every form.", v_values.c03, [DIMS])
reg("C04", v_values.RULE04, "group_product of pairs and triples and the coefficients of product irreps are analysed.", v_values.c04, [DIMS])
reg("C05", v_values.RULE05, "Rep.exp_map with 0 to 3 discrete generators and arbitrary integer powers, and the JAX version for sample powers, are analysed.",
    v_values.c05, ["the JAX matrix_power is analysed for the listed powers only (its loop of 32 steps is unrolled)"])
EFF = "Every public operation is analysed on every form of input (the workload of v_work.py: unary operations on each form, binary operations on each pair of forms, utilities on arbitrary arrays, families with symbolic labels, finite groups, permutations). "
UNSEEN = "effects on paths the analysis gives up on (listed as undecided) are seen up to the point where it gives up"
reg("C08", v_effects.RULE08, EFF + "Aliasing follows numpy's view rules.", v_effects.c08, [UNSEEN])
reg("C10", v_effects.RULE10, EFF + "Values returned by cached functions are owned by the cache.", v_effects.c10, [UNSEEN])
reg("C18", v_effects.RULE18, EFF + "Whether a value may be complex is tracked per input it derives from; conditions of the path which establish that an imaginary part vanishes are taken into account.", v_effects.c18,
    [UNSEEN, "narrowing of values computed by the tabulated families from their own constants (not from inputs) is left to their own assertions"])

FAM = "Each family method is analysed once with symbolic labels; its partition of the label space (path conditions and summarised results) is read as a decision table and compared, at every point of a grid of labels, with the table the property prescribes. "
GRID = "agreement is established at the labels of the grid (0 to 4; thorough: 0 to 9, 6 or 4 by number of labels; parities both); the paths found by the analysis cover all labels"
reg("C13", v_family.RULE13, FAM, v_family.c13, [GRID, "for SO13 only the product is compared (its coefficients need numerical linear algebra)", "for SU2Real only integer labels are compared"])
reg("C14", v_family.RULE14, FAM, v_family.c14, [GRID])
reg("C15", v_family.RULE15, FAM + "Labels that are not integers are analysed as symbolic floats.", v_family.c15, [GRID])

reg("C16", v_parse.RULE16, "from_string is summarised once for an arbitrary string (conditions and results are expressions over it: stripped, matched, split, converted) and "
    "for each number of parts it is split into; the partition is read as a decision table at strings of the label grammar and at their neighbours one character away.",
    v_parse.c16, ["agreement is established at the listed strings (hundreds per class); the paths found by the analysis cover all strings",
                  "signs, underscores and blanks inside a number, which int() accepts, are left open", "reduced representations of up to 3 (thorough: 4) terms"])

reg("C11", v_struct.RULE11, "Every combining operation is analysed with two representations whose algebras are two unrelated arrays, of equal and of different dimension, for every pair of forms; irreps of different families are multiplied.",
    v_struct.c11, ["a condition which relates the two algebras is taken to compare them (a comparison with a tolerance of 1e-2 or more is not)"])

reg("C12", v_struct.RULE12, EFF + "The dispatch tables are built from the decorators of the current source; reduce is analysed with two irreps found numerically, in every relation to each other.",
    v_struct.c12, [UNSEEN, "an exception on a path whose condition is about the values of the arrays is not reported"])
reg("C19", v_struct.RULE19, "Every operation is analysed on every form with no continuous, no discrete and no generators at all, on multiplicity zero in every form that has one, and the numerical helpers on empty collections.",
    v_struct.c19, [UNSEEN, "an exception on a path whose condition is about the values of the arrays is not reported"])

reg("C06", v_shape.RULE06, EFF + "The shapes of the results are polynomials in the symbolic sizes; a shape is refuted by a size assignment which satisfies the path's assumptions.",
    v_shape.c06, [UNSEEN])
reg("C07", v_shape.RULE07, EFF, v_shape.c07, [UNSEEN, CG])
reg("C22", v_iface.RULE22, EFF + "The kinds of the returned values are decided by the interpretation; returned exception classes, missing returns and missing members are decided on the syntax tree.",
    v_iface.c22, [UNSEEN])
reg("C23", v_shape.RULE23, "create_trivial and is_trivial are analysed on every form and family.", v_shape.c23, [UNSEEN])

GATE = ("The values of the input leaves are chosen in the interpretation so that exactly one generator (or bracket) breaks the relation, the numerical solvers "
        "being arbitrary functions; the conditions of each returning path are evaluated there. ")
reg("C17", v_gate.RULE17, "Every entry of every generator is varied in the interpretation and the arrays the result is a function of are compared. " + GATE, v_gate.c17,
    ["dimensions 2 (thorough: and 3), 0 to 2 (3) generators of each kind"])
reg("C20", v_gate.RULE20, GATE, v_gate.c20, ["dimensions 1 to 5, 0 to 3 generators of each kind", "a tolerance of 1e-2 or less is taken to compare for equality"])

reg("C09", v_repro.RULE09, EFF + "Reads of entropy sources on any path and anywhere in the syntax tree are attributed to the functions they are reachable from; operations on sets of known "
    "content are analysed under three iteration orders of every set and their summarised results compared path by path; results are evaluated with different contents of unwritten buffers.",
    v_repro.c09, [UNSEEN, "sets whose content is not known are followed through list(), tuple() and comprehensions only"])

reg("C25", v_copies.RULE25, "nullspace returns any mu rows (an opaque array), so the worklist is followed once per coupling with mu = 1, 2, 3 on small labels; every slice of the summarised array is "
    "evaluated with generic couplings and with the row of one coupling replaced.", v_copies.c25, ["labels of SU(2) and SU(3) of dimension 6 or less, up to 3 couplings"])

reg("C21", v_blocks.RULE21, "Irreps are arbitrary irreps with a fixed product table in which the same irrep arises in several ways, their coefficients are opaque arrays and basis_intersection returns "
    "an opaque mixing matrix; the blocks summarised from the source are compared with the couplings to the announced irrep (span over the multiplicity only, by random interpretation).", v_blocks.c21,
    ["up to 4 indices, dimensions up to 5", "any order of coupling the indices is accepted"])

NUM = "it quantifies over numerical values (floating-point results, ranks, spectra) that no sound static argument in reach can bound: "
NA = {
    "C24": "it quantifies over runtime integers and over the number of iterations of a continued-fraction loop: the bound follows from a nonlinear integer invariant that no abstract domain in "
           "reach infers, and evaluating unrolled summaries at sample fractions (built and dropped) is a runtime test in disguise",
    "C30": NUM + "the entries of the tabulated generators are numerical tables and formulas in the label; deciding the bracket relation means evaluating them",
    "C31": NUM + "the coefficients come from factorial sums and linear solves; deciding equivariance means evaluating them",
    "C32": NUM + "dimensions of null spaces depend on singular values against a tolerance",
    "C33": NUM + "irreducibility of the summands depends on eigenvalues of a random commutant element",
    "C34": NUM + "completeness is a rank statement about numerically computed bases",
    "C35": "it is an arithmetic identity over all permutations (loops over digits); a static argument needs an inductive proof of the encoding, not a dataflow fact",
}
