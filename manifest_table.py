_STD = ('Contracts on the real functions; obligations are generated by symbolic execution of the functions in /repo (any dimension, any values, real arithmetic) '
        'and discharged by z3. Contracts outside the symbolic subset are run as bounded checks (random and degenerate instances of the same contract), labelled bounded in the evidence. '
        'numpy primitives, Cython kernels by contract, the engine and real-for-float arithmetic are trusted. ')
CLAIMED = {
 'P01': ('proof', 'Every obligation of the contracts on identity_quadratic is discharged for all dimensions and values in real arithmetic; floats, numpy semantics and the engine are trusted.'),
 'P02': ('proof', _STD + 'Proved: unweighted, weighted (zero and infinite weights included), block (l1_l2, linf_l2, l1_l1, linf_linf) and group lasso seminorms (one or two groups of any size, free groups included), cones, linear terms. Bounded: svd, slope, mixed and sparse group lasso, group lasso epigraphs.'),
 'P03': ('proof', _STD + 'Proved: unweighted, weighted (zero and infinite weights included), block (l1_l2, linf_l2, l1_l1, linf_linf) and group lasso seminorms (one or two groups of any size, free groups included). Bounded: svd, slope, sparse group penalties, block_sum and block_max of other rows.'),
 'P04': ('proof', _STD + 'Proved: unweighted, weighted (zero and infinite weights included), block (l1_l2, linf_l2, l1_l1, linf_linf) and group lasso seminorms (one or two groups of any size, free groups included). Bounded: svd, slope, sparse group penalties, block_sum and block_max of other rows.'),
 'P05': ('proof', _STD + 'Proved: the pairs of unweighted, weighted (zero and infinite weights included), block (l1_l2, linf_l2, l1_l1, linf_linf) and group lasso seminorms (one or two groups of any size, free groups included), Hoelder\'s inequality included. Bounded: the other pairs and the smooth conjugate.'),
 'P06': ('proof', _STD + 'Proved: orthant cones, l2 epigraphs and polars. Bounded: l1, sup, group lasso and svd epigraphs.'),
 'P07': ('proof', _STD + 'Proved: the generic proximal bookkeeping of seminorms, cones, simplex and maximum, of weighted, block and group lasso seminorms, with the norm-specific maps under contract. Bounded: the remaining atoms and nonsmooth.solve.'),
 'P08': ('proof', _STD + 'The combinators are proved over abstract transforms known only by their contract. Bounded: sparse matrices, index-array selectors, reshape, difference operators, multiscale, factored matrices of a matrix.'),
 'P09': ('proof', _STD + 'The combinators are proved over abstract transforms known only by their contract. Bounded: sparse matrices, index-array selectors, reshape, difference operators, multiscale, factored matrices of a matrix.'),
 'P10': ('proof', _STD + 'Proved: gradient = derivative of the value, Hessian = derivative of the gradient for the saturated losses (symbolic differentiation of the real value code). Bounded: Cox, stacked, multinomial parts; logistic beyond a linear predictor of 100.'),
 'P11': ('proof', _STD + 'Proved: value of the saturated losses against the documented negative log likelihood. Bounded: Cox, multinomial.'),
 'P12': ('proof', _STD + 'Proved: transforms, unweighted seminorms, cones, saturated losses, identity quadratics (each call repeated among all the others, with copies compared). Bounded: group, block, weighted, svd, slope atoms, sparse transforms, composed glm objects.'),
 'P13': ('proof', _STD + 'The chain rule is proved for an arbitrary loss known only by its contract and abstract transforms; the real losses are run bounded.'),
 'P14': ('proof', _STD + 'Proved for arbitrary losses and penalties known only by their contract (FISTA by contract): simple, container (direct and through the dual), separable, dual, ADMM, quasi-Newton subproblem, numerical conjugate. Bounded: agreement of the solved forms on real losses and penalties, selected coordinates, shapes.'),
 'P15': ('proof', _STD + 'The loops of FISTA.backtrack and FISTA.fit are cut by invariant (arbitrary iteration of the real source), the composite is known only by its contract and fit is checked against the contract of backtrack. Bounded: monitored whole runs on real problems. Termination of backtracking is not claimed.'),
 'P16': ('proof', _STD + 'Proved for arbitrary losses and penalties known only by their contract, the solver by contract (it may also fail), two solves in a row. Bounded: the same on real losses and penalties with the real solver.'),
 'P17': ('proof', _STD + 'Proved: KKT checks, strong sets, sub-problems, ridge gradients, start of the path and level sequences of the lasso, group lasso and sparse group lasso paths (up to two or three groups of any size), and strong_rules, basil_inner_loop and warm_start with their loops cut by invariant for a path known only by these contracts (solver by contract). Bounded: whole runs, subsampled paths and multiresponse block paths against an independent oracle of the optimality conditions. Termination is not claimed.'),
 'P18': ('proof', _STD + 'Proved: weights and subsamples of the sum-over-cases losses. Bounded: Cox, stacked, index-array subsampling of some losses.'),
 'P19': ('proof', _STD + 'Proved: decoding, fit (simple_problem.solve by its contract, property P14), scores, R2 (scipy quantiles by contract), accuracy, labels and probabilities of the gaussian, huber, huber_svm, logistic, probit and cloglog estimators. Bounded: cox and multinomial estimators, cloning, whole fits with the real solver.'),
 'P20': ('proof', 'The Cython source is turned into Python text mechanically on every run (C types, cimports and declarations are dropped; casts are kept) and that text is symbolically executed with every loop cut by an invariant; z3 discharges every obligation for arrays of any length. The text is also run against the compiled kernels. Trusted: the extraction, the Cython compiler, numpy primitives by contract (argsort returns a sorting permutation, sums do not depend on the order), real-for-float arithmetic.'),
 'P21': ('proof', 'Every obligation of the contracts on the linear-constraint atoms is discharged for all dimensions and values in real arithmetic; orthonormal rows are a precondition used by a built-in rewriting rule; floats, numpy semantics and the engine are trusted.'),
}
NA = {}
