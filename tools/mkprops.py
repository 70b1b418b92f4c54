"""Writes properties.jsonl (kept as a script so that long texts stay readable)."""
import json
S='jaxopt/_src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
  if len(title)>80: print(id,len(title))
  a=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech])
  a.update(kw)
  P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('P01','Proximal operators return the exact minimiser of their documented objective',
 'For every finite input (array or pytree of any size), non-negative regularisation strengths (scalar, or per-coordinate where documented) and scaling >= 0, each proximal operator (identity, lasso, non-negative lasso, elastic net, group lasso, ridge, non-negative ridge) returns finite values attaining the minimum of the objective in its documentation, in exact arithmetic; omitted strengths default to 1. A proximal operator made from a projection returns that projection whatever the scaling.',
 ['inputs','configurations'],'all finite x of every dimension, all strengths >= 0 and scalings >= 0, all competitors y; scalar, per-coordinate and default strengths; array and two-leaf pytree inputs',
 'Tests compare a handful of random vectors with an exact subgradient or CVXPY value at one scaling; optimality is a statement over every input, every competitor and boundary cases (zero vector, zero strength, ties) they do not enumerate.',
 ['prox.py'],[('closed-form proximal operators','prox.py')])
p('P02','Box, orthant, ball, sphere and half-space projections are exact',
 'For every finite input, projecting onto the non-negative orthant, a box, a hypercube, the l-infinity ball, the l2 ball, the l2 sphere (from a non-zero input), a hyperplane or a half-space returns a feasible point at least as close to the input as every other feasible point, and leaves feasible inputs unchanged (l2 sphere aside); parameters may be scalars or pytrees where documented.',
 ['inputs','configurations'],'all inputs of every dimension, all radii/bounds/normals (non-empty set), all competing feasible points',
 'Tests check random points against a generic solver or idempotence; closeness quantifies over all feasible points and degenerate inputs (zero vector, points on the boundary).',
 ['projection.py'],[('closed-form projections','projection.py')])
p('P03','Simplex, l1 and box-section projections satisfy their optimality conditions',
 'For every finite input, projection onto the simplex, the l1 ball and the l1 sphere (positive radius) returns a feasible point at minimal distance, ties and zero coordinates included, and the cardinality-constrained simplex projection returns a feasible point with at most the requested number of non-zeros at minimal distance. Box-section projection returns a point of the clipped-line form determined by its dual variable that lies in the box, with the constraint met up to the bisection tolerance.',
 ['inputs','configurations'],'all real inputs (values unbounded) and positive radii; sizes bounded where sorting is involved',
 'Tests use random vectors, which almost never contain ties, zeros or interior points of the ball.',
 ['projection.py','bisection.py'],[('sort-and-threshold projections','projection.py'),('bisection on the dual variable','projection.py')])
p('P04','Hand-written derivative rules equal the derivative of what they annotate',
 'Wherever the function is differentiable, the forward- and reverse-mode derivatives of simplex and cardinality-constrained simplex projections, and of isotonic regression, equal the derivative of the mathematical map in every tangent direction; l1 and l2 ball and sphere, box, hyperplane, half-space and box-section projections and the group-lasso proximal operator differentiate, with respect to the point and every parameter, to the derivative of the active branch (finite, also at the origin). The gradients of the smoothed maxima used by the transport projections equal the maximisers they stand for.',
 ['inputs'],'all inputs away from ties/kinks and all tangent directions; sizes bounded where sorting is involved',
 'Tests compare a Jacobian with finite differences at a few random points of a few sizes; supports other than the sampled ones are not exercised.',
 ['projection.py','isotonic.py'],[('custom JVP rules','projection.py'),('isotonic JVP','isotonic.py')])
p('P05','Losses equal their documented formulas and are valid convex surrogates',
 'For every label and finite logit, each classification/regression loss (huber, binary and multiclass logistic, binary and multiclass sparsemax, hinge, perceptron) equals its documented formula, is non-negative and convex in the prediction, and its derivative is the documented link minus the target (predicted probability minus label for the logistic and sparsemax losses, clipped residual for huber); sparse plus and sparse sigmoid satisfy their piecewise definitions with one the derivative of the other. A Fenchel-Young loss built from a regularised max function has gradient equal to the regularised prediction minus the label.',
 ['inputs'],'all logits, labels, delta > 0, all pairs of points for convexity; multiclass losses for all logit values at bounded class counts where a sort is involved',
 'Tests check a few values and Fenchel-Young identities at sampled points.',
 ['loss.py'],[('loss formulas','loss.py')])
p('P06','Objectives equal their definitions and their advertised constants are bounds',
 'Least-squares, ridge, logistic, multiclass logistic and SVM-dual objectives equal their documented formulas for every data set and weight (intercept variants included), and the sub-function/linear-operator decomposition used for coordinate descent recomposes to the same objective for every parameter. The per-coordinate Lipschitz constants they advertise upper-bound the corresponding second derivatives.',
 ['inputs'],'all weights and data of every (or bounded) size, all regularisation strengths >= 0',
 'Tests compare a few random data sets; the Lipschitz bound and the recomposition are statements about all parameters.',
 ['objective.py','linear_operator.py'],[('objectives and CompositeLinearFunction2','objective.py')])
p('P07','Every loop strategy computes the same bounded while-loop',
 'The loop combinator returns the state obtained by applying the body while the condition holds and fewer than the maximum number of iterations have been executed - never one more or less - whether unrolled, jitted or both, for every body and condition, including a condition false at the start.',
 ['programs','configurations','inputs'],'all conditions and bodies (uninterpreted), all iteration limits up to the stated bound for unrolled strategies and unbounded for the compiled loop',
 'Tests run one or two concrete loops; off-by-one errors hide at particular stop iterations of one strategy.',
 ['loop.py'],[('while loop implementations','loop.py')])
p('P08','Solvers stop exactly by tolerance, iteration limit or line-search failure',
 'Running an iterative solver from given initial parameters equals initialising the state and applying updates until the reported error is at most the tolerance or the iteration limit is reached - with a limit of zero returning the initial parameters and state - identically for every jit/unroll setting; solvers told to stop on failed line searches also stop after the first failed one. Running over an iterator initialises on the first batch, performs one update per further batch and stops at the end of the data or at the iteration limit.',
 ['programs','configurations','histories'],'all update rules (uninterpreted), all initial points, tolerances, error sequences, iteration limits up to a bound',
 'Tests check final values for specific solvers, not that the number and order of updates is right for every error sequence and switch combination.',
 ['base.py','loop.py','bisection.py','lbfgs.py','lbfgsb.py','broyden.py','levenberg_marquardt.py','bfgs.py'],[('run loop','base.py'),('stopping conditions','lbfgs.py')])
p('P09','Value, gradient and auxiliary plumbing agree for every objective flavour',
 'However the objective is supplied - plain, with auxiliary output, or returning value and gradient itself - the value, gradient and auxiliary data a solver sees equal those of the user function at the same parameters and arguments, with auxiliary output None when absent.',
 ['programs','configurations','inputs'],'all objectives (uninterpreted), all arguments, every combination of the two flags',
 'Tests check that solvers run with each flag, not that each derived function agrees on every input.',
 ['base.py'],[('derived objective functions','base.py')])
p('P10','Implicit differentiation satisfies the implicit function theorem',
 'For every optimality condition or fixed point, derivatives of the decorated solver with respect to every argument equal minus the inverse Jacobian (in the solution) applied to the Jacobian in that argument, in forward and reverse mode, with positional arguments, auxiliary outputs, None arguments and - wherever the optimality function accepts them by keyword - keyword arguments each receiving their own derivative and the initial guess receiving zero.',
 ['programs','inputs','configurations'],'all optimality functions (uninterpreted derivatives), all solutions, cotangents/tangents and argument layouts listed, for invertible Jacobians',
 'Tests check ridge-regression style problems where many mistakes (transposes, swapped arguments) cancel because Jacobians are symmetric.',
 ['implicit_diff.py'],[('root_vjp/root_jvp/custom_root','implicit_diff.py')])
p('P11','Optimality maps vanish exactly at solutions',
 'For each solver the advertised optimality map is the quantity that characterises its solutions: the gradient for smooth solvers, the fixed-point residual for (proximal, projected, mirror) gradient steps and fixed-point/Anderson solvers, the KKT residuals (stationarity, feasibility, complementarity) for constrained problems, the bisected function for bisection and the normal-equation residual for nonlinear least squares; the l2 optimality error is the l2 norm of that map.',
 ['programs','inputs','configurations'],'all objectives, prox/projection/residual functions (uninterpreted) and all points',
 'Tests only evaluate the map at computed solutions of specific problems, where wrong maps that also vanish there pass.',
 ['base.py','proximal_gradient.py','projected_gradient.py','mirror_descent.py','implicit_diff.py','gradient_descent.py','fixed_point_iteration.py','gauss_newton.py','levenberg_marquardt.py'],[('optimality functions','base.py')])
p('P12','Linear solvers solve the system they are given',
 'For every invertible operator, right-hand side, optional ridge and pytree structure, the dense, Cholesky, QR, inverse, CG, GMRES and BiCGSTAB solvers return x with (A + ridge I) x = b, and the normal-equation solvers x with (A^T A + ridge I) x = A^T b, given a convergent inner Krylov routine.',
 ['inputs','configurations'],'all matrices/operators (values unbounded, sizes bounded for dense factorisations), right-hand sides and ridges',
 'Tests use a few random symmetric or square systems without checking every ridge/pytree combination.',
 ['linear_solve.py'],[('solvers','linear_solve.py')])
p('P13','Linear operators are linear maps with matching adjoints',
 'For every operator and vectors, matvec and rmatvec are adjoint, normal_matvec is their composition, element/row/column operations and incremental updates agree with the full products, and norms/diagonals equal those of the represented matrix, including the ridge-augmented and functional operators.',
 ['inputs'],'all matrices, vectors, rows/columns and increments',
 'Tests check a random dense matrix; adjointness and incremental consistency are for all vectors and positions.',
 ['linear_operator.py'],[('linear operators','linear_operator.py')])
p('P14','Backtracking line search returns a step satisfying the requested condition',
 'For every objective, point and direction, whenever the backtracking line search reports success the returned step satisfies the configured condition (Armijo, Goldstein, Wolfe or strong Wolfe) up to the tolerance, failure is reported exactly when the iteration limit is reached without success, and the returned step, parameters, value, gradient and auxiliary data belong to the same point, with the step never above the maximum stepsize.',
 ['programs','inputs','configurations','histories'],'all objectives (uninterpreted value/gradient), points, directions, constants; every reachable line-search state, all four conditions',
 'Tests run a few smooth functions; the guarantee must hold for every function and every history of trial steps.',
 ['backtracking_linesearch.py','linesearch_util.py'],[('trial step acceptance','backtracking_linesearch.py')])
p('P15','Zoom line search returns a step satisfying the strong Wolfe conditions',
 'For every objective, point and descent direction, whenever the zoom line search reports success the returned step satisfies sufficient decrease (or its approximate variant) and, below the maximal stepsize, the strong curvature condition within tolerance; success and failure are exclusive, the step lies between 0 and the maximal stepsize, every zoom iteration at least shrinks its interval inside itself, and step, parameters, value, gradient and auxiliary data agree.',
 ['programs','inputs','configurations','histories'],'all objectives (uninterpreted), every reachable bracketing/zooming state',
 'Tests cover a few functions from SciPy; bracket bookkeeping errors appear only in particular histories.',
 ['zoom_linesearch.py'],[('bracketing and zooming','zoom_linesearch.py')])
p('P16','Hager-Zhang line search success implies its acceptance conditions',
 'The Hager-Zhang line search reports success exactly when the step it returns satisfies the Wolfe or approximate Wolfe conditions, never together with a failure, and step, parameters, value, gradient and auxiliary data agree. Its interval always brackets a minimum along the line (low and descending on the left, ascending or too high on the right), every update keeps it inside the previous one, and the search for it ends when the objective reaches minus infinity or NaN.',
 ['programs','inputs','histories'],'all objectives (uninterpreted), every reachable bracket state',
 'Tests cover a few functions.',
 ['hager_zhang_linesearch.py'],[('bracket update','hager_zhang_linesearch.py')])
p('P17','Proximal, projected and mirror gradient steps follow their update equations',
 'For every smooth objective and proximal/projection operator, one (accelerated or plain) proximal-gradient, projected-gradient, gradient-descent or mirror-descent update returns the operator applied to the gradient step at the current (extrapolated) point with the reported stepsize; with line search, an accepted step satisfies the sufficient-decrease inequality; the reported error is the documented scaled displacement, so zero error means a fixed point.',
 ['programs','inputs','configurations','histories'],'all objectives and operators (uninterpreted), all states, stepsizes, accelerated or not',
 'Tests check convergence on a few convex problems, which tolerates wrong momentum, error or stepsize bookkeeping.',
 ['proximal_gradient.py','projected_gradient.py','gradient_descent.py','mirror_descent.py'],[('update','proximal_gradient.py')])
p('P18','Quasi-Newton curvature updates satisfy the secant equation and stay symmetric',
 'For every pair of iterates and gradients, the BFGS inverse-Hessian update keeps symmetry and satisfies the secant equation (and is skipped when undefined), the L-BFGS two-loop product equals the matrix recursion over the stored pairs in age order and satisfies the secant equation for the newest pair, the limited memory keeps exactly the most recent pairs, and the Broyden inverse-Jacobian product satisfies its secant equation while its memory is not full.',
 ['inputs','histories','configurations'],'all curvature pairs of every dimension, all history contents and write positions; history sizes bounded',
 'Tests compare one history against a dense formula; wrap-around positions, zero pairs and gamma scaling for all histories are not.',
 ['bfgs.py','lbfgs.py','broyden.py'],[('two-loop recursion, history updates','lbfgs.py'),('BFGS update','bfgs.py'),('Broyden product','broyden.py')])
p('P19','Quasi-Newton and conjugate-gradient updates keep a consistent state',
 'After every gradient-descent, L-BFGS, BFGS, nonlinear-CG or Broyden update, the stored value, gradient, auxiliary data and iteration counter describe the returned parameters, the error is the norm of the optimality residual there, and the next direction obeys the documented formula (for nonlinear CG, each of the three beta rules when its denominator is not tiny, never negative).',
 ['programs','inputs','histories','configurations'],'all objectives (uninterpreted) and states; line searches taken by contract or with a fixed stepsize',
 'Tests check final convergence; stale state is masked by convergence.',
 ['bfgs.py','lbfgs.py','lbfgsb.py','nonlinear_cg.py','broyden.py','gradient_descent.py'],[('update','lbfgs.py')])
p('P20','Stochastic line-search solvers keep bounded stepsizes and correct updates',
 'For every objective and state, ArmijoSGD accepts only stepsizes satisfying the Armijo (or Goldstein) condition unless its line search ran out of trials, keeps them in (0, max stepsize], and moves along the negative gradient with the documented momentum; PolyakSGD uses the documented Polyak stepsize clipped at the maximum and its parameters stay finite whenever values and gradients are.',
 ['programs','inputs','histories','configurations'],'all objectives (uninterpreted), states and hyper-parameters',
 'Tests run a few convex problems and never hit the degenerate (zero-gradient) steps.',
 ['armijo_sgd.py','polyak_sgd.py'],[('update','polyak_sgd.py'),('Armijo line search','armijo_sgd.py')])
p('P21','Anderson acceleration combines the stored iterates affinely',
 'For every fixed-point map and history, Anderson acceleration keeps exactly the most recent iterates and residuals with their Gram matrix, and its extrapolation is the affine combination (weights summing to one) minimising the regularised residual norm, mixed with the documented damping; before enough history it performs plain fixed-point steps.',
 ['programs','inputs','histories','configurations'],'all maps (uninterpreted), all histories; history sizes bounded',
 'Tests check convergence only.',
 ['anderson.py','anderson_wrapper.py'],[('history update, extrapolation','anderson.py')])
p('P22','Gauss-Newton and Levenberg-Marquardt solve the right system and never get worse',
 'For every residual function, the Gauss-Newton step solves the normal equations; each Levenberg-Marquardt step solves the damped normal equations (plus half the geodesic acceleration when enabled), accepted steps strictly decrease the loss and rejected steps leave parameters, residual, gradient and loss unchanged even when the trial is not finite, while the damping moves in the documented direction and stays positive.',
 ['programs','inputs','histories','configurations'],'all residual functions (uninterpreted residual and Jacobian), states, damping values; each linear solver option',
 'Tests run NIST problems; rejection paths and non-finite trials are rare there.',
 ['gauss_newton.py','levenberg_marquardt.py'],[('update','levenberg_marquardt.py')])
p('P23','Bound-constrained solvers never leave the box',
 'From any starting point inside the box, every iterate of projected gradient on a box, BoxCDQP and L-BFGS-B (any line search, default maximal step) satisfies the bounds, for every objective; BoxCDQP never increases its objective, and the error L-BFGS-B reports is the infinity norm of the projected gradient.',
 ['programs','inputs','histories'],'all objectives, bounds, states',
 'Tests check final solutions of a few problems; feasibility must hold at every iterate.',
 ['lbfgsb.py','cd_qp.py','projected_gradient.py'],[('Cauchy point, subspace step','lbfgsb.py'),('coordinate update','cd_qp.py')])
p('P24','Bisection keeps a sign-changing bracket and halves it every iteration',
 'For every continuous function with a sign change between the bounds (increasing or decreasing), each bisection update keeps a bracket whose ends have opposite signs, has half the width of the previous one and whose midpoint is the returned parameter, and the error reported is the absolute function value there.',
 ['programs','inputs','histories'],'all functions (uninterpreted), brackets and states, both monotonicities',
 'Tests bisect a few functions.',
 ['bisection.py'],[('update','bisection.py')])
p('P25','Quadratic-program solvers report solved only at KKT points',
 'The equality-constrained QP solver returns a primal-dual pair satisfying the KKT system; each operator-splitting QP iteration obeys the documented update, its residuals describe the returned primal and dual variables, reported inequality multipliers are the positive and negative parts of the dual, bounded variables stay in their box, multipliers are complementary to the bounds, and a problem is reported solved only when both residuals are within tolerance and infeasible only with a non-trivial certificate. The problem with separate equalities and inequalities is converted to the boxed form and back without changing its solutions or multipliers, and the CVXPY wrapper passes on the documented problem.',
 ['inputs','histories','configurations'],'all problem data, states and sizes (sizes bounded where constraint blocks are stacked or factorised), the forms in which a problem can be given, conversions between the two formulations',
 'Tests compare final solutions with CVXPY on random feasible problems.',
 ['eq_qp.py','osqp.py','cvxpy_wrapper.py'],[('ADMM step and termination','osqp.py')])
p('P26','Tree arithmetic equals vector arithmetic on the flattened leaves',
 'For every pytree, the tree utilities (add, sub, mul, div, scalar operations, dot products, norms, sums, maps to zeros/ones, conditional selection) equal the corresponding operation on the concatenation of the leaves and keep the structure.',
 ['inputs','configurations'],'all leaf values, all sizes; the pytree layouts listed',
 'Tests check a few trees.',
 ['tree_util.py'],[('tree utilities','tree_util.py')])
p('P27','Isotonic regression returns the closest monotone sequence',
 'For every real or integer input sequence, isotonic regression returns the non-increasing (or, when requested, non-decreasing) sequence closest to it, clipped to the given bounds, and its forward- and reverse-mode derivatives average the tangent over the blocks of equal values.',
 ['inputs'],'all real inputs, lengths bounded',
 'Tests compare with scikit-learn on random vectors.',
 ['isotonic.py'],[('pool adjacent violators','isotonic.py')])
p('P28','Block coordinate descent keeps predictions in step with its parameters',
 'For every block update order and data, after each pass the maintained predictions equal the linear operator applied to the current parameters, each block update is the proximal step with the advertised block stepsize, and the reported error is the Euclidean norm of the block displacements.',
 ['inputs','histories','configurations'],'all data, parameters and smooth sub-functions (uninterpreted), blocks bounded',
 'Tests check final solutions.',
 ['block_cd.py'],[('coordinate loop','block_cd.py')])
p('P29','Fixed-point iteration and iterative refinement follow their residual invariants',
 'For every map, fixed-point iteration returns the map applied to the previous parameters with error equal to the displacement norm; iterative refinement recomputes, at every update, the target residual as the right-hand side minus the operator applied to the current parameters (warm starts included, and whatever residual the state carried), so that an exact inner solver converges in one step.',
 ['programs','inputs','histories'],'all maps/operators and states',
 'Tests start refinement from zero only.',
 ['fixed_point_iteration.py','iterative_refinement.py'],[('update','iterative_refinement.py')])
p('P30','Wrapped optimisers receive and return data unchanged',
 'The Optax wrapper applies exactly one gradient transformation step per update with the gradient at the current parameters; the SciPy wrappers convert pytrees to flat vectors and back losslessly (values, gradients, Jacobians and bounds in matching order) for every tree layout, pass on the configured options without modifying those of the caller, and report the statistics of the driver.',
 ['inputs','configurations','programs'],'all gradient transformations and SciPy drivers (uninterpreted), tree layouts listed, all values',
 'Tests check final results.',
 ['optax_wrapper.py','scipy_wrappers.py'],[('update','optax_wrapper.py'),('conversions','scipy_wrappers.py')])
p('P31','Perturbed optimisers are Monte-Carlo averages with the matching gradient',
 'A perturbed argmax, max or general function equals the average of the original function over the noise-shifted inputs, and for every input and output shape its forward- and reverse-mode derivative is the documented score-function estimator for the same noise samples (with the control variate when asked for; the perturbed argmax in the case of the max).',
 ['programs','inputs'],'all functions (uninterpreted), inputs and noise draws; sample counts bounded',
 'Tests check statistical closeness only.',
 ['perturbations.py'],[('perturbed functions','perturbations.py')])
p('P32','Transport and polyhedral projections solve the problem they document',
 'The (KL or Euclidean) projection onto the transport or Birkhoff polytope minimises the documented dual or semi-dual objective and returns the plan belonging to the dual point it finds: non-negative, and meeting row and column marginals exactly when that point is stationary. Projections onto affine sets and polyhedra return the primal solution of the quadratic program with the identity as quadratic term, and report an empty polyhedron when asked to check.',
 ['inputs','configurations'],'all similarity matrices, positive marginals and sizes (sizes bounded for the Euclidean semi-dual); inner solvers taken by contract',
 'Tests check a few random matrices.',
 ['projection.py'],[('transport duals','projection.py'),('affine sets and polyhedra','projection.py')])
p('P40','Jitted, vmapped and accelerator execution give the same results',
 'Running a solver under jit, vmap or on GPU/TPU gives the same result as eager CPU execution up to floating-point rounding.',
 ['configurations','programs'],'all solvers and inputs under every transformation and backend',
 'Tests sample some combinations on CPU.',
 ['base.py'],[('jit/vmap compatible loops','loop.py')])
p('P41','Solvers converge to a solution within their iteration limits',
 'On problems satisfying the documented assumptions (convexity, smoothness, invertibility) the iterates converge to a solution at the documented rate.',
 ['inputs','histories'],'all problems in the documented classes, all starting points',
 'Tests check a few instances.',
 ['lbfgs.py','proximal_gradient.py'],[('update rules','proximal_gradient.py')])
p('P42','Results are accurate in floating point',
 'Returned values differ from the exact-arithmetic result by a small multiple of machine epsilon, without overflow or catastrophic cancellation.',
 ['inputs'],'all floating-point inputs of every dtype',
 'Tests check a few tolerances.',
 ['prox.py','loss.py'],[('numerically careful formulas','loss.py')])
if __name__=='__main__':
  with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
  print(len(P))
