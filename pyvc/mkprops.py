import json
L=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    L.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
I=["inputs"]; IC=["inputs","configurations"]; IH=["inputs","histories"]
prop("P01","Identity-quadratic terms obey their algebra",
 "A term coef/2*||x-center||^2 + <linear,x> + constant keeps its value as a function of x when it is collapsed, evaluated, added to another such term or to nothing, or re-expressed about an offset (there up to an additive constant only), and its conjugate is the convex conjugate of that function. None of these operations modifies its operands. A missing center, linear term or coefficient means zero.",
 IC,"all dimensions, all real coefficients (positive where a conjugate is asked for), centers, linear terms, offsets and points, every combination of absent fields",
 "tests sample a few random vectors and mostly check that calls do not fail; the identities quantify over all vectors and over every absent/present combination",
 ["regreg/identity_quadratic.py"],[("identity_quadratic.objective/collapsed/__add__/recenter/get_conjugate","regreg/identity_quadratic.py")])
prop("P02","Penalties and constraints evaluate to their documented formulas",
 "Each penalty (l1, l2, sup, positive part, maximum, group, block, sparse-group, mixed, sorted-l1, weighted, nuclear and operator norms, linear terms, zero) evaluated at x in penalised form is lagrange times its documented formula at the offset argument (x minus the offset), plus its own quadratic term. In bound form it is zero when that formula is at most the bound and infinite when it clearly exceeds it, and the cone and simplex constraints are zero exactly on the set they name.",
 IC,"all points (zeros, ties, negative entries included), all weights, group structures, shapes, offsets, lagrange and bound values",
 "tests evaluate penalties at a few gaussian draws, mostly through solver agreement; ties, zeros, groups of size one and boundary points are measure zero for those draws",
 ["regreg/atoms/seminorms.py","regreg/atoms/cones.py","regreg/atoms/group_lasso.py","regreg/atoms/block_norms.py","regreg/atoms/weighted_atoms.py","regreg/atoms/sparse_group_lasso.py","regreg/atoms/mixed_lasso.py","regreg/atoms/slope.py","regreg/atoms/svd_norms.py","regreg/atoms/simplex.py","regreg/atoms/sparse_group_block.py"],
 [("seminorm_fn/constraint of every atom class","regreg/atoms/*.py"),("seminorm.seminorm, nonsmooth_objective","regreg/atoms/seminorms.py")])
prop("P03","Penalised proximal maps return the exact minimiser",
 "For every penalty in Lagrange form, every point v and every positive quadratic coefficient L, the proximal map returns the unique minimiser over x of L/2*||x-v||^2 + lagrange*penalty(x). It returns an array of the shape of v with finite entries, whatever the ties, zeros or magnitudes in v.",
 IC,"all v (zeros, ties, any scale), all L>0, lagrange>=0, weights, group structures",
 "tests compare different solvers with each other on gaussian data, so a shared error or an error on a measure-zero set (ties, zeros, exactly at a threshold) is invisible",
 ["regreg/atoms/seminorms.py","regreg/atoms/group_lasso.py","regreg/atoms/block_norms.py","regreg/atoms/weighted_atoms.py","regreg/atoms/sparse_group_lasso.py","regreg/atoms/mixed_lasso.py","regreg/atoms/slope.py","regreg/atoms/svd_norms.py","regreg/atoms/sparse_group_block.py","regreg/atoms/projl1_cython.pyx","regreg/atoms/mixed_lasso_cython.pyx","regreg/atoms/_isotonic_py.py"],
 [("lagrange_prox of every atom class","regreg/atoms/*.py"),("projl1, prox_group_lasso, mixed_lasso prox kernels","regreg/atoms/*.pyx")])
prop("P04","Constrained proximal maps return the nearest feasible point",
 "For every penalty in bound form, every point v and quadratic coefficient L, the proximal map returns the Euclidean projection of v on the set where the penalty is at most the bound. The result does not depend on L, is feasible, and equals v when v is already feasible.",
 IC,"all v (feasible, boundary, far away, ties, zeros), all bounds > 0, weights, group structures",
 "tests check projections only on gaussian draws and against other code of the same package",
 ["regreg/atoms/seminorms.py","regreg/atoms/group_lasso.py","regreg/atoms/block_norms.py","regreg/atoms/weighted_atoms.py","regreg/atoms/sparse_group_lasso.py","regreg/atoms/simplex.py","regreg/atoms/svd_norms.py","regreg/atoms/projl1_cython.pyx","regreg/atoms/piecewise_linear.pyx","regreg/atoms/slope.py"],
 [("bound_prox of every atom class","regreg/atoms/*.py"),("projl1, projl1_epigraph, find_solution_piecewise_linear","regreg/atoms/*.pyx")])
prop("P05","Conjugates pair each penalty with its dual norm, bound with Lagrange",
 "The conjugate of a penalty in Lagrange form is the dual norm's ball of that radius (and of a bound form, the dual norm times the bound), with offsets and linear terms exchanged, so that Fenchel's inequality holds everywhere and is tight at proximal points. Conjugating twice gives back the same function, and the two proximal maps split every point exactly: v = prox(v) + conjugate part.",
 IC,"all atoms, both forms, all points, offsets, linear terms, quadratic coefficients > 0",
 "tests check the Moreau identity on gaussian draws for a list of atoms, never Fenchel's inequality, biconjugation with offsets, or degenerate points",
 ["regreg/atoms/seminorms.py","regreg/atoms/cones.py","regreg/atoms/__init__.py","regreg/problems/composite.py"],
 [("conjugate/dual properties","regreg/atoms/seminorms.py"),("conjugate_seminorm_pairs, conjugate_cone_pairs","regreg/atoms"),("set_quadratic/offset bookkeeping","regreg/problems/composite.py")])
prop("P06","Cone projections are exact and split with their polars",
 "For every cone, the cone projection of any point is its nearest point in the cone: it is feasible, leaves feasible points unchanged, and leaves a residual that is orthogonal to it and lies in the polar cone. The paired polar cone's projection is exactly that residual.",
 IC,"all cones (nonnegative, nonpositive, zero, free, epigraphs and epigraph polars of l1, l2, sup and matrix norms), all points including the apex, boundary and interior",
 "tests use gaussian points, which never hit the apex, the boundary or points already inside some of the cones",
 ["regreg/atoms/cones.py","regreg/atoms/svd_norms.py","regreg/atoms/projl1_cython.pyx"],
 [("cone_prox of every cone class","regreg/atoms/cones.py"),("projl1_epigraph","regreg/atoms/projl1_cython.pyx")])
prop("P07","Proximal calls honour offsets, linear terms and quadratics exactly",
 "Asking any composite (penalty, constraint, cone, affine penalty, smooth-free problem) for its proximal point under a quadratic minimises the sum of that quadratic, the composite's own quadratic and linear terms, and the penalty evaluated at the offset argument. The composite's stored quadratic and offset, and the quadratic passed in, are the same before and after.",
 IC,"all atoms in both forms, all offsets, stored quadratics, passed quadratics with any combination of center, linear term and coefficient",
 "tests use a handful of combinations and compare solvers; the bookkeeping has to be right for every combination of absent and present terms",
 ["regreg/atoms/seminorms.py","regreg/atoms/cones.py","regreg/atoms/__init__.py","regreg/problems/composite.py","regreg/identity_quadratic.py"],
 [("proximal, latexify-free argument handling","regreg/atoms/seminorms.py"),("composite.apply_offset, proximal_optimum, proximal_step","regreg/problems/composite.py")])
prop("P08","Every linear transform's adjoint is its transpose",
 "For each linear or affine transform and all vectors x, u of conforming shape, <u, linear part of the transform at x> equals <adjoint at u, x>. Both maps are linear, and declared input and output shapes are those actually produced.",
 IC,"all x, u, all matrices, index sets, scalings, stackings, compositions, sparse and dense, one and two dimensional inputs where supported",
 "tests check it for a few random matrices; the identity has to hold for every shape, index set and composition",
 ["regreg/affine/__init__.py","regreg/affine/block_maps.py","regreg/affine/fused_lasso.py","regreg/affine/multiscale.py","regreg/affine/factored_matrix.py","regreg/affine/image2d.py"],
 [("linear_map/adjoint_map of every transform","regreg/affine")])
prop("P09","Transform combinators compute the matrix expression they denote",
 "Composition, stacking, row and column blocks, sums, scalar multiples, selections, residuals, low-rank factorisations, difference operators and normalisation of transforms act on every vector exactly as the matrix expression they denote. The full map is the linear map plus the constant offset, which is reported exactly.",
 IC,"all matrices and vectors, all combinators and nestings, with and without offsets",
 "tests check a few combinations at fixed small shapes",
 ["regreg/affine/__init__.py","regreg/affine/block_maps.py","regreg/affine/fused_lasso.py","regreg/affine/multiscale.py","regreg/affine/factored_matrix.py"],
 [("composition, product, scalar_multiply, vstack, hstack, normalize, selector, residual, block maps","regreg/affine")])
prop("P10","Losses report consistent values, gradients and curvature",
 "For each smooth loss, at every point the reported gradient is the derivative of the reported value, value-only, gradient-only and combined requests agree, and where a Hessian is offered it is the derivative of the gradient (for the probit and complementary log-log links: the expected information). A scale coefficient multiplies value and gradient alike, and offsets shift the argument.",
 IC,"all points, responses, trials, case weights, coefficients, offsets, and all request modes",
 "tests compare finite differences at a few gaussian points for some losses; the saturated regions (large arguments), kinks and weights are not sampled",
 ["regreg/smooth/glm.py","regreg/smooth/binary.py","regreg/smooth/mglm.py","regreg/smooth/cox.py","regreg/smooth/quadratic.py","regreg/smooth/losses.py","regreg/smooth/__init__.py"],
 [("smooth_objective, hessian of every loss class","regreg/smooth")])
prop("P11","Losses equal their documented negative log-likelihoods",
 "Each loss (gaussian, logistic, probit, complementary log-log, Poisson, Huber, huberised SVM, Cox with Breslow ties, multinomial and stacked losses, quadratic forms) equals its documented formula in the natural parameter, up to an additive constant that does not depend on the parameter. Case weights multiply individual contributions, and predictions are the mean function of the natural parameter.",
 IC,"all natural parameters, responses, trials, case weights, event times with ties, censoring",
 "tests check a few random samples against other code paths, mostly unweighted and untied",
 ["regreg/smooth/glm.py","regreg/smooth/binary.py","regreg/smooth/mglm.py","regreg/smooth/cox.py","regreg/smooth/cox_utils.pyx","regreg/smooth/cox_fns.c","regreg/smooth/quadratic.py"],
 [("smooth_objective, mean_function of every loss class","regreg/smooth"),("cox C kernels","regreg/smooth/cox_fns.c")])
prop("P12","Evaluation never changes its arguments, weights, data or earlier results",
 "Evaluating a loss, penalty, proximal map, transform or problem leaves every argument array and every array held by the object (data, weights, offsets, matrices) unchanged. Repeating a call with the same arguments returns the same numbers, and arrays returned earlier do not change later. A copy evaluates to the same numbers as its original, and changing the copy leaves the original alone.",
 IH,"all argument values, all call sequences",
 "tests call each function once per object and do not compare inputs before and after or hold on to earlier results",
 ["regreg/smooth/glm.py","regreg/smooth/binary.py","regreg/smooth/mglm.py","regreg/smooth/cox.py","regreg/atoms/seminorms.py","regreg/affine/__init__.py","regreg/atoms/group_lasso.py","regreg/identity_quadratic.py"],
 [("in-place arithmetic on arguments and cached work arrays","regreg/smooth, regreg/atoms, regreg/affine")])
prop("P13","Losses composed with linear maps obey the chain rule",
 "A loss in a linear predictor X b + offset has value loss(Xb+offset), gradient X' times the loss gradient there, and Hessian X' W X; sums, scalings and restrictions of smooth functions have the sum, multiple and restriction of their gradients. Case weights given to the model multiply each observation's contribution exactly once.",
 IC,"all design matrices, parameters, offsets, weights, numbers of summands",
 "tests sample a few designs; the identity is over all of them and all modes",
 ["regreg/smooth/__init__.py","regreg/smooth/glm.py","regreg/smooth/losses.py"],
 [("affine_smooth, smooth.sum/scale/linear","regreg/smooth/__init__.py"),("glm.smooth_objective/hessian/gradient","regreg/smooth/glm.py")])
prop("P14","Assembled problems have exactly the objective of their parts",
 "A problem built from a loss and one or more penalties (simple, container, separable, dual and split forms) reports as objective the sum of its parts including quadratic terms, its smooth part's gradient is the parts' gradient, and its proximal step minimises the parts' non-smooth sum. A dual or split form attains the same optimum as the primal.",
 IC,"all losses, penalties, block partitions, quadratic terms, points",
 "tests compare solutions of particular random problems to moderate tolerance",
 ["regreg/problems/simple.py","regreg/problems/container.py","regreg/problems/separable.py","regreg/problems/dual_problem.py","regreg/problems/conjugate.py","regreg/problems/admm.py","regreg/problems/composite.py"],
 [("smooth_objective, nonsmooth_objective, objective, proximal, latexify","regreg/problems")])
prop("P15","Accelerated gradient steps honour backtracking and never increase monotonically",
 "Each accepted step of the first-order solver is the proximal-gradient step at the current Lipschitz estimate, accepted only when the quadratic upper bound holds (or its gradient form, when the two values agree to 1e-10; or a fixed step was requested). When monotonicity is enforced, after the first two iterations the accepted objective never exceeds the previous one by more than 1e-10 of it. The returned point satisfies the stopping rule, or the iteration limit was reached, or a warning was given, and reported objective values are those of the returned points.",
 IH,"all convex composites, starting points, step sizes, iteration histories",
 "tests look only at final answers of convergent runs",
 ["regreg/algorithms.py","regreg/problems/composite.py"],
 [("FISTA.fit","regreg/algorithms.py"),("composite.proximal_step","regreg/problems/composite.py")])
prop("P16","Solving under an extra quadratic is exact and leaves the problem unchanged",
 "Solving any problem with an added quadratic minimises the problem's objective plus that quadratic. Afterwards the problem's own quadratic term and data are what they were (only the stored solution changes), also when solving is repeated or the solver fails.",
 IH,"all problems, quadratics (absent, zero or not), repeated calls",
 "tests do not compare the problem before and after",
 ["regreg/problems/composite.py","regreg/problems/simple.py","regreg/problems/container.py","regreg/problems/separable.py","regreg/smooth/__init__.py","regreg/smooth/quadratic.py"],
 [("solve methods","regreg/problems")])
prop("P17","Regularisation paths solve every penalty level they report",
 "For each penalty level on a path, the reported coefficients satisfy the optimality (KKT) conditions of the full problem at that level, no discarded variable violates them, and the first level is the smallest at which the penalised coefficients are all zero. Levels are decreasing over the requested range. (Conditions hold up to the tolerance of the code's KKT checks and of the solver of the sub-problems; requested levels start at or above the first level.)",
 IH,"all data sets, penalty factors, unpenalised terms, group structures, screening histories",
 "tests run paths on random data and compare to loose tolerances",
 ["regreg/paths/__init__.py","regreg/paths/lasso.py","regreg/paths/group_lasso.py","regreg/paths/sparse_group_lasso.py","regreg/paths/basil.py"],
 [("warm_start, strong set, KKT checks, default lagrange sequence","regreg/paths")])
prop("P18","Subsampling and case weights select exactly the chosen observations",
 "The loss restricted to a subset of cases equals the loss built from those cases alone, with their own responses, offsets, trials and weights; integer case weights equal repetition and zero weights equal removal. The original loss is unaffected by making or using the restriction.",
 IC,"all losses, subsets, weights, parameters",
 "tests check a few losses on one subset without weights",
 ["regreg/smooth/glm.py","regreg/smooth/mglm.py","regreg/smooth/binary.py","regreg/smooth/cox.py"],
 [("subsample, latexify-free copies, case_weights","regreg/smooth/glm.py")])
prop("P19","Estimator wrappers predict and score in original units",
 "Estimators decode packed responses (labels, offsets, case weights) exactly, fit the penalised likelihood of those data, predict from the linear predictor plus nothing else, and score with the stated loss over the stated cases. Class labels round-trip, and user data passed in is unchanged.",
 IC,"all responses, label sets, weights, offsets, designs",
 "tests only run the estimators through smoke fits",
 ["regreg/sklearn/base.py","regreg/sklearn/gaussian.py","regreg/sklearn/logistic.py","regreg/sklearn/huber.py","regreg/sklearn/multinomial.py","regreg/sklearn/probit.py","regreg/sklearn/cloglog.py","regreg/sklearn/huber_svm.py","regreg/sklearn/cox.py"],
 [("fit, predict, score, _normalize, loss factories","regreg/sklearn/base.py")])
prop("P20","Compiled threshold kernels find the exact root and projection",
 "The kernels that find the threshold of a sorted piecewise-linear equation, project on an l1 ball or an l1 epigraph, and solve the mixed-lasso proximal, bound, dual and epigraph problems return, in exact arithmetic, the root or projection for every nonempty input with finite entries and weights; the mixed-lasso seminorm kernels return the seminorm and its dual. They terminate, stay within the arrays' bounds and leave the input arrays unchanged (work buffers, zeroed on entry, excepted).",
 I,"all arrays of any length (ties, zeros, negative entries), all bounds and coefficients within the stated preconditions",
 "tests compare on gaussian draws with loose tolerance; ties and exact breakpoints are never sampled",
 ["regreg/atoms/projl1_cython.pyx","regreg/atoms/piecewise_linear.pyx","regreg/atoms/mixed_lasso_cython.pyx"],
 [("find_solution_piecewise_linear*, projl1, projl1_epigraph, soft_threshold, mixed_lasso_*, seminorm_mixed_lasso*","regreg/atoms/*.pyx")])
prop("P21","Linear-constraint atoms project exactly on the subspace they name",
 "A linear-constraint atom built from any orthonormal basis is zero on the spanned subspace (or its orthogonal complement, where that is the one named) and infinite off it, and its proximal map is the orthogonal projection on that subspace. The two complementary atoms are conjugate to each other and their projections sum to the identity.",
 I,"all orthonormal bases, points, offsets",
 "tests use one random basis and compare solvers",
 ["regreg/atoms/linear_constraints.py"],
 [("projection, projection_complement","regreg/atoms/linear_constraints.py")])
for p in L: assert len(p["title"])<=80,(p["id"],len(p["title"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in L))
