"""P11: the advertised optimality map of every solver is the quantity characterising its solutions.

Objectives, residuals, proximal operators, projections, constraint functions and fixed-point maps are uninterpreted, so each
contract fixes the map for every problem; sizes are symbolic unless a `fix` is given."""
from .common import *
from .p09 import objective, FLAV, sgd
import jaxopt
from jaxopt._src import base, implicit_diff as idf, objective as obj, eq_qp, osqp, cvxpy_wrapper, scipy_wrappers

S = 'jaxopt._src.'
clip = lambda x, lo, hi: tmap(lambda x, l, h: jnp.minimum(jnp.maximum(x, l), h), x, lo, hi)
MAKE = dict(
    GradientDescent=lambda kw: jaxopt.GradientDescent(stepsize=0.25, **kw),
    LBFGS=lambda kw: jaxopt.LBFGS(**kw), BFGS=lambda kw: jaxopt.BFGS(**kw), NonlinearCG=lambda kw: jaxopt.NonlinearCG(**kw),
    ArmijoSGD=lambda kw: jaxopt.ArmijoSGD(**kw), PolyakSGD=lambda kw: jaxopt.PolyakSGD(**kw),
    OptaxSolver=lambda kw: jaxopt.OptaxSolver(opt=sgd(), **kw),
    ScipyMinimize=lambda kw: jaxopt.ScipyMinimize(method='BFGS', **kw))
SM = ['gradient_descent.GradientDescent', 'proximal_gradient.ProximalGradient', 'lbfgs.LBFGS', 'bfgs.BFGS', 'nonlinear_cg.NonlinearCG', 'armijo_sgd.ArmijoSGD', 'polyak_sgd.PolyakSGD', 'optax_wrapper.OptaxSolver', 'scipy_wrappers.ScipyMinimize']
OPT = lambda *n: [S + m + '.optimality_fun' for m in n]
L2 = [S + 'base.Solver.l2_optimality_error']


def norm_of(c, name, got, r):
  c.sq_nonneg(name, r)
  c.ensure_eq('l2 optimality error is the norm of the residual', got, norm(r))


@contract('P11', 'smooth', cfgs=grid(which=list(MAKE), **FLAV, lay=['arr', 'tree']), funcs=OPT(*SM) + L2, runs=8)
def smooth(c, which, vg, has_aux, lay):
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  s = MAKE[which](dict(fun=fun, value_and_grad=flag, has_aux=has_aux))
  x, a, k = tree(c, 'x', lay), c.real('a', ('m',)), c.real('key')
  g = grad(x, a, k)
  c.ensure_eq('gradient', s.optimality_fun(x, a, key=k), g)
  norm_of(c, 'gradient', s.l2_optimality_error(x, a, key=k), g)


@contract('P11', 'proximal', cfgs=grid(which=['prox', 'proj'], **FLAV, lay=['arr', 'tree']), funcs=OPT('proximal_gradient.ProximalGradient', 'projected_gradient.ProjectedGradient') + L2, runs=8)
def proximal(c, which, vg, has_aux, lay):
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  P = c.fun('prox', 'like0')
  kw = dict(fun=fun, value_and_grad=flag, has_aux=has_aux)
  if which == 'prox':
    s, ref = jaxopt.ProximalGradient(prox=lambda x, h, s=7.0: P(x, h, s), **kw), lambda x, h: P(x, h, 1.0)
  else:
    s, ref = jaxopt.ProjectedGradient(projection=lambda x, h: P(x, h), **kw), lambda x, h: P(x, h)
  x, a, k, h = tree(c, 'x', lay), c.real('a', ('m',)), c.real('key'), c.real('hyper')
  r = sub(ref(sub(x, grad(x, a, k)), h), x)
  c.ensure_eq('prox-gradient fixed-point residual', s.optimality_fun(x, h, a, key=k), r)
  norm_of(c, 'residual', s.l2_optimality_error(x, h, a, key=k), r)


@contract('P11', 'bounds', cfgs=grid(which=['LBFGSB', 'ScipyBoundedMinimize'], bnd=['tree', 'none'], **FLAV, lay=['arr', 'tree']), funcs=OPT('lbfgsb.LBFGSB', 'scipy_wrappers.ScipyBoundedMinimize') + L2, runs=8)
def bounds(c, which, bnd, vg, has_aux, lay):
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  kw = dict(fun=fun, value_and_grad=flag, has_aux=has_aux)
  s = jaxopt.LBFGSB(**kw) if which == 'LBFGSB' else jaxopt.ScipyBoundedMinimize(method='L-BFGS-B', **kw)
  x, a, k = tree(c, 'x', lay), c.real('a', ('m',)), c.real('key')
  g = grad(x, a, k)
  if bnd == 'none':
    b, r = None, g
  else:
    b = (tree(c, 'lo', lay), tree(c, 'hi', lay))
    c.assume('lo<=hi', alltrue(tmap(lambda l, h: l <= h, *b)))
    r = sub(clip(sub(x, g), *b), x)
  c.ensure_eq('projected-gradient fixed-point residual', s.optimality_fun(x, b, a, key=k), r)
  norm_of(c, 'residual', s.l2_optimality_error(x, b, a, key=k), r)


@contract('P11', 'box cd', funcs=OPT('cd_qp.BoxCDQP') + L2)
def box_cd(c):
  Q, q, lo, hi, x = c.real('Q', ('n', 'n')), c.real('c', ('n',)), c.real('lo', ('n',)), c.real('hi', ('n',)), c.real('x', ('n',))
  c.assume('lo<=hi', jnp.all(lo <= hi))
  s = jaxopt.BoxCDQP()
  r = clip(x - (Q @ x + q), lo, hi) - x
  c.ensure_eq('residual', s.optimality_fun(x, (Q, q), (lo, hi)), r)
  norm_of(c, 'residual', s.l2_optimality_error(x, (Q, q), (lo, hi)), r)


@contract('P11', 'mirror', cfgs=grid(aux=[False, True], lay=['arr', 'tree']), funcs=OPT('mirror_descent.MirrorDescent') + L2, runs=10)
def mirror(c, aux, lay):
  f, P, A = c.fun('f', ()), c.fun('proj', 'like0'), c.fun('aux', ())
  fun = (lambda x, a: (f(x, a), A(x, a))) if aux else (lambda x, a: f(x, a))
  s = jaxopt.MirrorDescent(fun=fun, projection_grad=lambda x, g, s, h: P(x, g, s, h), stepsize=0.3, has_aux=aux)
  x, a, h = tree(c, 'x', lay), c.real('a', ('m',)), c.real('h')
  r = sub(P(x, jax.grad(lambda x: f(x, a))(x), 1.0, h), x)
  c.ensure_eq('residual', s.optimality_fun(x, h, a), r)
  norm_of(c, 'residual', s.l2_optimality_error(x, h, a), r)


@contract('P11', 'fixed point', cfgs=grid(which=['FixedPointIteration', 'AndersonAcceleration'], aux=[False, True], lay=['arr', 'tree']), runs=10,
          funcs=OPT('fixed_point_iteration.FixedPointIteration', 'anderson.AndersonAcceleration') + L2)
def fixed_point(c, which, aux, lay):
  T, A = c.fun('T', 'like0'), c.fun('aux', ())
  fun = (lambda x, a: (T(x, a), A(x, a))) if aux else (lambda x, a: T(x, a))
  s = getattr(jaxopt, which)(fixed_point_fun=fun, has_aux=aux)
  x, a = tree(c, 'x', lay), c.real('a', ('m',))
  r = sub(T(x, a), x)
  c.ensure_eq('residual', s.optimality_fun(x, a), r)
  norm_of(c, 'residual', s.l2_optimality_error(x, a), r)


@contract('P11', 'anderson wrapper', cfgs=grid(lay=['arr', 'tree']), funcs=OPT('anderson_wrapper.AndersonWrapper') + L2)
def wrapper(c, lay):
  g, P = c.fun('g', 'like0'), c.fun('prox', 'like0')
  f = c.fun('f', ())
  inner = jaxopt.ProximalGradient(fun=lambda x, a: (f(x, a), g(x, a)), value_and_grad=True, prox=lambda x, h, s=7.0: P(x, h, s))
  s = jaxopt.AndersonWrapper(inner)
  x, a, h = tree(c, 'x', lay), c.real('a', ('m',)), c.real('h')
  r = sub(P(sub(x, g(x, a)), h, 1.0), x)
  c.ensure_eq('the wrapped solver\'s residual', s.optimality_fun(x, h, a), r)
  norm_of(c, 'residual', s.l2_optimality_error(x, h, a), r)


@contract('P11', 'roots', cfgs=grid(which=['Broyden', 'Bisection', 'ScipyRootFinding'], aux=[False, True]), funcs=OPT('broyden.Broyden', 'bisection.Bisection', 'scipy_wrappers.ScipyRootFinding') + L2)
def roots(c, which, aux):
  F, A = c.fun('F', 'like0'), c.fun('aux', ())
  fun = (lambda x, a: (F(x, a), A(x, a))) if aux else (lambda x, a: F(x, a))
  a = c.real('a', ('m',))
  if which == 'Broyden':
    s, x = jaxopt.Broyden(fun=fun, has_aux=aux), c.real('x', ('n',))
  elif which == 'Bisection':
    s, x = jaxopt.Bisection(optimality_fun=fun, lower=-1.0, upper=1.0, has_aux=aux), c.real('x')
  else:
    s, x = jaxopt.ScipyRootFinding(optimality_fun=fun, method='hybr', has_aux=aux), c.real('x', ('n',))
  r = F(x, a)
  c.ensure_eq('the function itself', s.optimality_fun(x, a), r)
  norm_of(c, 'residual', s.l2_optimality_error(x, a), r)


@contract('P11', 'least squares', cfgs=grid(which=['GaussNewton', 'LevenbergMarquardt'], aux=[False, True], lay=['arr', 'tree']), funcs=[S + 'gauss_newton.GaussNewton.__post_init__', S + 'levenberg_marquardt.LevenbergMarquardt.optimality_fun'] + L2, runs=8)
def least_squares(c, which, aux, lay):
  R, A = c.fun('R', ('m',)), c.fun('aux', ())
  fun = (lambda x, a: (R(x, a), A(x, a))) if aux else (lambda x, a: R(x, a))
  s = getattr(jaxopt, which)(residual_fun=fun, has_aux=aux)
  x, a = tree(c, 'x', lay), c.real('a')
  r = jax.vjp(lambda z: R(z, a), x)[1](R(x, a))[0]
  c.ensure_eq('normal-equation residual', s.optimality_fun(x, a), r)
  norm_of(c, 'residual', s.l2_optimality_error(x, a), r)


RHO = dict(  # scipy's documentation of least_squares: rho(z) with z the squared scaled residual
    linear=lambda z: z, huber=lambda z: jnp.where(z <= 1, z, 2 * jnp.sqrt(jnp.where(z <= 1, 1.0, z)) - 1), soft_l1=lambda z: 2 * (jnp.sqrt(1 + z) - 1),
    cauchy=lambda z: jnp.log(1 + z), arctan=lambda z: jnp.arctan(z))


@contract('P11', 'scipy losses', cfgs=grid(loss=list(RHO)), runs=20)
def scipy_losses(c, loss):
  t = c.real('t')
  c.ensure_eq('documented loss of the squared residual', scipy_wrappers.LS_RHO_FUNS[loss](t), RHO[loss](t * t))


@contract('P11', 'scipy least squares', cfgs=grid(loss=list(RHO), bnd=['unbounded', 'tree', 'none'], aux=[False, True]), fix=[{'n': 2, 'm': 2, 'a': 1}], runs=6,
          funcs=OPT('scipy_wrappers.ScipyLeastSquares', 'scipy_wrappers.ScipyBoundedLeastSquares') + [S + 'scipy_wrappers.ScipyLeastSquares._cost_fun'] + L2)
def scipy_least_squares(c, loss, bnd, aux):
  """The gradient of (a positive multiple of) the documented cost, mapped through the box when there is one."""
  R, A = c.fun('R', ('m',)), c.fun('aux', ())
  fun = (lambda x, a: (R(x, a), A(x, a))) if aux else (lambda x, a: R(x, a))
  scale = 2.0
  cls = jaxopt.ScipyLeastSquares if bnd == 'unbounded' else jaxopt.ScipyBoundedLeastSquares
  s = cls(fun=fun, has_aux=aux, loss=loss, method='trf', options={'f_scale': scale}, jit=False)
  x, a = c.real('x', ('n',)), c.real('a')
  res = R(x, a)
  m = 2 if c.symbolic else res.shape[0]
  rho = scipy_wrappers.LS_RHO_FUNS[loss]
  dcost = jax.vmap(jax.grad(lambda t: 0.5 * scale ** 2 * rho(t / scale)))(res) / m
  g = jax.vjp(lambda z: R(z, a), x)[1](dcost)[0]
  if bnd == 'tree':
    b = (c.real('lo', ('n',)), c.real('hi', ('n',)))
    c.assume('lo<=hi', jnp.all(b[0] <= b[1]))
    args, r = (b, a), clip(x - g, *b) - x
  else:
    args, r = ((a,) if bnd == 'unbounded' else (None, a)), g
  c.ensure_eq('residual', s.optimality_fun(x, *args), r)


@contract('P11', 'block cd', cfgs=grid(b=[False, True]), fix=[{'n': 2, 'm': 2}], funcs=OPT('block_cd.BlockCoordinateDescent') + L2)
def block_cd(c, b):
  P = c.fun('prox', ())
  A, y, x, h = c.real('A', ('m', 'n')), c.real('y', ('m',)), c.real('x', ('n',)), c.real('h')
  s = jaxopt.BlockCoordinateDescent(fun=obj.least_squares, block_prox=lambda x, h, s=1.0: P(x, h, s))
  g = jax.grad(obj.least_squares)(x, (A, y))
  r = jnp.stack([P((x - g)[i], h, 1.0) for i in range(2)]) - x
  c.ensure_eq('residual', s.optimality_fun(x, h, (A, y)), r)


# ------------------------------------------------------------------------------------------------ KKT residuals
@contract('P11', 'kkt', cfgs=grid(eq=[True, False], ineq=[True, False], lay=['arr', 'tree']), funcs=[S + 'implicit_diff.make_kkt_optimality_fun'])
def kkt(c, eq, ineq, lay):
  f, h, g = c.fun('f', ()), c.fun('h', ('p',)), c.fun('g', ('q',))
  x, to, te, ti = tree(c, 'x', lay), c.real('to', ('a',)), c.real('te', ('b',)), c.real('ti', ('e',))
  y = c.real('y', ('p',)) if eq else None
  mu = c.real('mu', ('q',)) if ineq else None
  F = idf.make_kkt_optimality_fun(lambda x, t: f(x, t), lambda x, t: h(x, t), (lambda x, t: g(x, t)) if ineq else None)
  r = F(base.KKTSolution(x, y, mu), to, te, ti)
  st = jax.grad(lambda x: f(x, to))(x)
  if eq:
    st = add(st, jax.vjp(lambda x: h(x, te), x)[1](y)[0])
  if ineq:
    st = add(st, jax.vjp(lambda x: g(x, ti), x)[1](mu)[0])
  c.ensure_eq('stationarity of the Lagrangian', r[0], st)
  c.ensure_eq('primal feasibility', r[1], h(x, te) if eq else None)
  c.ensure_eq('complementary slackness', r[2], g(x, ti) * mu if ineq else None)


@contract('P11', 'eq qp', cfgs=grid(how=['matrix', 'matvec', 'fun']), fix=[{'n': 2, 'p': 1}, {'n': 3, 'p': 2}], funcs=[S + 'eq_qp._make_eq_qp_optimality_fun', S + 'eq_qp.extract_Qc_from_obj'] + L2)
def eqqp(c, how):
  Q, q, A, b = c.real('Q', ('n', 'n')), c.real('c', ('n',)), c.real('A', ('p', 'n')), c.real('b', ('p',))
  Q = Q + Q.T
  x, y = c.real('x', ('n',)), c.real('y', ('p',))
  if how == 'matrix':
    s, po, pe = jaxopt.EqualityConstrainedQP(), (Q, q), (A, b)
  elif how == 'matvec':
    s, po, pe = jaxopt.EqualityConstrainedQP(matvec_Q=lambda Q, x: Q @ x, matvec_A=lambda A, x: A @ x), (Q, q), (A, b)
  else:
    s, po, pe = jaxopt.EqualityConstrainedQP(fun=lambda x, p: 0.5 * jnp.vdot(x, p[0] @ x) + jnp.vdot(p[1], x) + 3.0), (Q, q), (A, b)
  k = base.KKTSolution(x, y, None)
  r = s.optimality_fun(k, po, pe)
  ref = (Q @ x + q + A.T @ y, A @ x - b)
  c.ensure_eq('stationarity', r[0], ref[0])
  c.ensure_eq('primal feasibility', r[1], ref[1])
  norm_of(c, 'residual', s.l2_optimality_error(k, po, pe), ref)


@contract('P11', 'box osqp', cfgs=grid(how=['matrix', 'matvec', 'fun'], inf=['none', 'upper', 'lower']), fix=[{'n': 2, 'p': 2}], funcs=[S + 'osqp._make_osqp_optimality_fun', S + 'osqp.BoxOSQP.l2_optimality_error'])
def boxosqp(c, how, inf):
  Q, q, A = c.real('Q', ('n', 'n')), c.real('c', ('n',)), c.real('A', ('p', 'n'))
  Q = Q + Q.T
  l, u = c.real('l', ('p',)), c.real('u', ('p',))
  x, z, y, mu, phi = c.real('x', ('n',)), c.real('z', ('p',)), c.real('y', ('p',)), c.real('mu', ('p',)), c.real('phi', ('p',))
  mask = np.array([True, False])
  uu = jnp.where(mask, jnp.inf, u) if inf == 'upper' else u
  ll = jnp.where(mask, -jnp.inf, l) if inf == 'lower' else l
  kw = dict(matrix={}, matvec=dict(matvec_Q=lambda Q, x: Q @ x, matvec_A=lambda A, x: A @ x), fun=dict(fun=lambda x, p: 0.5 * jnp.vdot(x, p[0] @ x) + jnp.vdot(p[1], x)))[how]
  s = jaxopt.BoxOSQP(**kw)
  k = base.KKTSolution((x, z), y, (mu, phi))
  r = s.optimality_fun(k, (Q, q), A, (ll, uu))
  muf, phif = jnp.where(mask, 0.0, mu) if inf == 'upper' else mu, jnp.where(mask, 0.0, phi) if inf == 'lower' else phi   # multipliers of constraints at infinity play no part
  ref = ((Q @ x + q + A.T @ y, -y + muf - phif), A @ x - z,
         (jnp.where(mask, 0.0, (z - u) * mu) if inf == 'upper' else (z - u) * mu, jnp.where(mask, 0.0, (l - z) * phi) if inf == 'lower' else (l - z) * phi))
  c.ensure_eq('stationarity', r[0], ref[0])
  c.ensure_eq('primal feasibility', r[1], ref[1])
  c.ensure_eq('complementary slackness', r[2], ref[2])
  norm_of(c, 'residual', s.l2_optimality_error(k, (Q, q), A, (ll, uu)), ref)


@contract('P11', 'cvxpy', cfgs=grid(which=['CvxpyQP'], eq=[True, False], ineq=[True, False]), fix=[{'n': 2, 'p': 2, 'q': 2}], funcs=[S + 'cvxpy_wrapper._make_cvxpy_qp_optimality_fun'])
def qps(c, which, eq, ineq):
  Q, q, A, b, G, h = c.real('Q', ('n', 'n')), c.real('c', ('n',)), c.real('A', ('p', 'n')), c.real('b', ('p',)), c.real('G', ('q', 'n')), c.real('h', ('q',))
  Q = Q + Q.T
  x, y, mu = c.real('x', ('n',)), (c.real('y', ('p',)) if eq else None), (c.real('mu', ('q',)) if ineq else None)
  s = getattr(jaxopt, which)()
  r = s.optimality_fun(base.KKTSolution(x, y, mu), (Q, q), (A, b) if eq else None, (G, h) if ineq else None)
  c.ensure_eq('stationarity', r[0], Q @ x + q + (A.T @ y if eq else 0.0) + (G.T @ mu if ineq else 0.0))
  c.ensure_eq('primal feasibility', r[1], A @ x - b if eq else None)
  c.ensure_eq('complementary slackness', r[2], (G @ x - h) * mu if ineq else None)
