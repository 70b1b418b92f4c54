"""P22: Gauss-Newton and Levenberg-Marquardt.  Residual function (and its derivatives) uninterpreted, state arbitrary subject to
the invariant proved by the same contracts (residual, gradient, value and Jacobian stored are those of the parameters).
Inner linear solvers are the library's own (cg through lax.custom_linear_solve, dense ones through the factorisations' contracts)."""
import functools
from .common import *
from jaxopt import GaussNewton, LevenbergMarquardt, linear_solve
from jaxopt._src import linear_solve as ls

S = 'jaxopt._src.'
GN = [S + 'gauss_newton.GaussNewton.' + n for n in ('init_state', 'update', '_jtj_op', '_jt_op', '__post_init__')]
LM = [S + 'levenberg_marquardt.LevenbergMarquardt.' + n for n in ('init_state', 'update', 'update_state_using_delta_params', 'update_state_using_gain_ratio', '_jt_op', '_jtj_op', '_jtj_diag_op', '_d2fvv_op', '_solve_linear_eqs', '__post_init__')]
BIG = 2.0 ** 32
cg = functools.partial(linear_solve.solve_cg, tol=1e-13)


def residual(c, aux, special=False, m='m'):
  r, A = c.fun('r', (m,), special=special), c.fun('aux', ())
  fun = (lambda x, a: (r(x, a), {'k': A(x, a)})) if aux else (lambda x, a: r(x, a))
  return fun, r, (lambda x, a: {'k': A(x, a)} if aux else None)


def half_sq(v):
  return 0.5 * jnp.sum(v * v)


class At:
  """Everything the documentation defines at a point."""

  def __init__(self, r, x, a):
    f = lambda z: r(z, a)
    self.f, self.x = f, x
    self.r = f(x)
    self.value = half_sq(self.r)
    self.jt = lambda v: jax.vjp(f, x)[1](v)[0]
    self.jv = lambda v: jax.jvp(f, (x,), (v,))[1]
    self.grad = self.jt(self.r)

  def jac(self):
    return jax.jacfwd(self.f)(self.x)

  def hess(self):
    return jax.jacfwd(jax.jacfwd(self.f))(self.x)


@contract('P22', 'gauss-newton', cfgs=grid(aux=[False, True], lay=['arr', 'tree']), funcs=GN, runs=6)
def gauss_newton(c, aux, lay):
  fun, r, A = residual(c, aux)
  x, a = tree(c, 'x', lay), c.real('a')
  sol = GaussNewton(residual_fun=fun, has_aux=aux)
  p = At(r, x, a)
  st0 = sol.init_state(x, a)
  c.ensure('first iteration runs', (st0.error == jnp.inf) & (st0.iter_num == 0))
  c.ensure_eq('init residual', st0.residual, p.r)
  c.ensure_eq('init value', st0.value, p.value)
  c.ensure_eq('init gradient', st0.gradient, p.grad)
  c.ensure_eq('init aux', st0.aux, A(x, a))
  c.ensure_eq('optimality function is the normal-equation residual', sol.optimality_fun(x, a), p.grad)
  if not c.symbolic:
    sol.update(x, c.like('st', st0), a)
    return                                  # a singular JtJ is outside the domain of the step; cg would stop early
  y, n = sol.update(x, c.like('st', st0), a)
  d = sub(x, y)
  c.ensure_eq('step solves the normal equations', p.jt(p.jv(d)), p.grad)
  c.ensure_eq('delta', n.delta, d)
  c.sq_nonneg('displacement', d)
  c.ensure_eq('error is the displacement norm', n.error, norm(d))
  c.ensure_eq('residual', n.residual, p.r)
  c.ensure_eq('value', n.value, p.value)
  c.ensure_eq('gradient', n.gradient, p.grad)
  c.ensure_eq('aux', n.aux, A(x, a))


def lm_state(c, sol, x, a, p, materialize, geodesic, A):
  # fields not set below keep the values of a fixed small problem (init_state itself is verified at fixed sizes)
  st0 = LevenbergMarquardt(residual_fun=lambda z: z).init_state(jnp.ones(1))
  st = st0._replace(delta=c.like('st_delta', x), aux=tmap(lambda l: c.like('st_aux', l), A(x, a)), iter_num=c.int('it', lo=0, hi=9))
  mu, inc = c.real('mu'), c.real('inc')
  if not c.symbolic:
    mu, inc = jnp.abs(mu) + 0.25, jnp.asarray(2.0)
  c.assume('damping positive', (mu > 0) & (inc >= 2))
  kw = {}
  if materialize:
    J = p.jac()
    kw = dict(jac=J, jt=J.T, jtj=J.T @ J)
    if geodesic:
      kw['hess_res'] = p.hess()
  return st0, st._replace(damping_factor=mu, increase_factor=inc, residual=p.r, value=p.value, gradient=p.grad, **kw), mu, inc


def post(c, r, x, a, A, aux_old, y, n, st, mu, inc, p, delta, extra_ok, materialize, geodesic):
  """The documented consequences of a trial displacement delta."""
  q = At(r, x + delta, a)
  pred = 0.5 * jnp.sum(delta * (mu * delta - p.grad))
  rho = (p.value - q.value) / jnp.where(pred > 0, pred, 1.0)
  ok = (pred > 0) & (q.value < p.value) & extra_ok
  w = lambda s, t: tmap(lambda u, v: jnp.where(ok, u, v), s, t)
  c.ensure_eq('parameters: the trial point when it improves, else unchanged', y, w(x + delta, x))
  c.ensure_eq('residual of the returned parameters', n.residual, w(q.r, p.r))
  c.ensure_eq('value of the returned parameters', n.value, w(q.value, p.value))
  c.ensure_eq('gradient of the returned parameters', n.gradient, w(q.grad, p.grad))
  c.ensure_eq('aux of the returned parameters', n.aux, w(A(x + delta, a), aux_old))
  g2 = w(q.grad, p.grad)
  c.sq_nonneg('gradient', g2)
  c.ensure_eq('error is the gradient norm', n.error, norm(g2))
  if materialize:
    J = w(q.jac(), p.jac())
    c.ensure_eq('jacobian', n.jac, J)
    c.ensure_eq('jacobian transpose', n.jt, J.T)
    c.ensure_eq('normal matrix', n.jtj, w(q.jac().T @ q.jac(), p.jac().T @ p.jac()))
    if geodesic:
      c.ensure_eq('residual hessian', n.hess_res, w(q.hess(), p.hess()))
  down = jnp.maximum(1 / 3, 1 - (2 * rho - 1) ** 3)
  c.ensure_eq('damping', n.damping_factor, jnp.where(ok, mu * down, jnp.minimum(mu * inc, BIG)))
  c.ensure_eq('increase factor', jnp.asarray(n.increase_factor, float), jnp.where(ok, 2.0, jnp.minimum(2 * inc, BIG)))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)


@contract('P22', 'lm/init', cfgs={**grid(aux=[False, True], mat=[True], geo=[False, True], jac=[False, True]), **grid(aux=[False, True], mat=[False], geo=[False], jac=[False])}, fix=[{'n': 2, 'm': 2}], funcs=LM)
def lm_init(c, aux, mat, geo, jac):
  fun, r, A = residual(c, aux)
  x, a = c.real('x', ('n',)), c.real('a')
  p = At(r, x, a)
  kw = {}
  if jac:
    kw['jac_fun'] = lambda z, a: At(r, z, a).jac()
  sol = LevenbergMarquardt(residual_fun=fun, has_aux=aux, materialize_jac=mat, geodesic=geo, damping_parameter=0.125, solver='cholesky' if mat else cg, **kw)
  st = sol.init_state(x, a)
  c.ensure_eq('residual', st.residual, p.r)
  c.ensure_eq('value', st.value, p.value)
  c.ensure_eq('gradient', st.gradient, p.grad)
  c.ensure_eq('aux', st.aux, A(x, a))
  c.ensure_eq('damping: scaled by the largest diagonal entry of JtJ', st.damping_factor, 0.125 * jnp.max((p.jac() ** 2).sum(0)))
  c.ensure('counter', st.iter_num == 0)
  c.sq_nonneg('gradient', p.grad)
  c.ensure_eq('error', st.error, norm(p.grad))
  if mat:
    c.ensure_eq('jacobian', st.jac, p.jac())
    c.ensure_eq('normal matrix', st.jtj, p.jac().T @ p.jac())
    if geo:
      c.ensure_eq('residual hessian', st.hess_res, p.hess())
  c.ensure_eq('optimality function', sol.optimality_fun(x, a), p.grad)


@contract('P22', 'lm/matrix free', cfgs=grid(aux=[False, True]), funcs=LM, runs=8)
def lm_free(c, aux):
  fun, r, A = residual(c, aux)
  x, a = c.real('x', ('n',)), c.real('a')
  p = At(r, x, a)
  sol = LevenbergMarquardt(residual_fun=fun, has_aux=aux, solver=cg)
  st0, st, mu, inc = lm_state(c, sol, x, a, p, False, False, A)
  y, n = sol.update(x, st, a)
  d = n.delta
  c.ensure_eq('step solves the damped normal equations', p.jt(p.jv(d)) + mu * d, -p.grad)
  post(c, r, x, a, A, st.aux, y, n, st, mu, inc, p, d, True, False, False)


@contract('P22', 'lm/non-finite trial', cfgs=grid(mat=[False, True], geo=[False]), fix=[{'n': 1, 'm': 1}], funcs=LM, runs=8)
def lm_special(c, mat, geo):
  """A trial point where the residual overflows or is undefined is rejected and leaves no trace."""
  fun, r, A = residual(c, False, True)
  x, a = c.real('x', ('n',)), c.real('a')
  p = At(r, x, a)
  sol = LevenbergMarquardt(residual_fun=fun, solver='cholesky' if mat else cg, materialize_jac=mat, geodesic=geo)
  st0, st, mu, inc = lm_state(c, sol, x, a, p, mat, geo, A)
  fin = lambda v: jnp.all(jnp.isfinite(v))
  c.assume('finite at the current point', fin(p.r) & fin(p.grad) & fin(p.jac()) & (fin(p.hess()) if geo else True))
  y, n = sol.update(x, st, a)
  bad = ~fin(r(x + n.delta, a))
  c.ensure_eq('parameters', y, x, when=bad)
  for k in ('residual', 'value', 'gradient') + (('jac', 'jt', 'jtj') if mat else ()) + (('hess_res',) if geo and mat else ()):
    c.ensure_eq(k, getattr(n, k), getattr(st, k), when=bad)
  c.ensure_eq('damping grows', n.damping_factor, jnp.minimum(mu * inc, BIG), when=bad)
  c.ensure('damping positive', n.damping_factor > 0)


@contract('P22', 'lm/materialised', cfgs=grid(ls=['cholesky', 'lu', 'inv', 'qr'], aux=[False], jac=[False, True]), fix=[{'n': 2, 'm': 2}], funcs=LM, runs=8)
def lm_mat(c, ls, aux, jac):
  fun, r, A = residual(c, aux)
  x, a = c.real('x', ('n',)), c.real('a')
  p = At(r, x, a)
  kw = {'jac_fun': lambda z, a: At(r, z, a).jac()} if jac else {}
  sol = LevenbergMarquardt(residual_fun=fun, has_aux=aux, solver=ls, materialize_jac=True, **kw)
  st0, st, mu, inc = lm_state(c, sol, x, a, p, True, False, A)
  y, n = sol.update(x, st, a)
  d = n.delta
  J = p.jac()
  c.ensure_eq('step solves the damped normal equations', (J.T @ J) @ d + mu * d, -p.grad)
  post(c, r, x, a, A, st.aux, y, n, st, mu, inc, p, d, True, True, False)


@contract('P22', 'lm/direct solver without materialised jacobian', cfgs=grid(ls=['cholesky', 'lu', 'inv']), fix=[{'n': 2, 'm': 2}], funcs=LM, runs=8)
def lm_direct(c, ls):
  fun, r, A = residual(c, False)
  x, a = c.real('x', ('n',)), c.real('a')
  p = At(r, x, a)
  sol = LevenbergMarquardt(residual_fun=fun, solver=ls, materialize_jac=False)
  st0, st, mu, inc = lm_state(c, sol, x, a, p, False, False, A)
  y, n = sol.update(x, st, a)
  d = n.delta
  c.ensure_eq('step solves the damped normal equations', p.jt(p.jv(d)) + mu * d, -p.grad)
  post(c, r, x, a, A, st.aux, y, n, st, mu, inc, p, d, True, False, False)


@contract('P22', 'lm/geodesic', cfgs=grid(ls=['cg', 'cholesky', 'lu', 'inv', 'qr']), fix=[{'n': 1, 'm': 2}], funcs=LM, runs=8)
def lm_geo(c, ls):
  """One parameter: velocity and acceleration in closed form."""
  fun, r, A = residual(c, False)
  x, a = c.real('x', ('n',)), c.real('a')
  p = At(r, x, a)
  mat = ls != 'cg'
  sol = LevenbergMarquardt(residual_fun=fun, solver=cg if ls == 'cg' else ls, materialize_jac=mat, geodesic=True)
  st0, st, mu, inc = lm_state(c, sol, x, a, p, mat, True, A)
  y, n = sol.update(x, st, a)
  J, H = p.jac()[:, 0], p.hess()[:, 0, 0]
  M = jnp.sum(J * J) + mu
  v = jnp.sum(J * p.r) / M
  acc = jnp.sum(J * H) * v * v / M
  c.ensure_eq('displacement: velocity plus half the acceleration', n.delta, -(v + 0.5 * acc)[None])
  if ls in ('cg', 'inv'):
    ok = (jnp.abs(acc) <= 0.75 * jnp.abs(v)) & (jnp.sum(n.delta * (mu * n.delta - p.grad)) > 0)
    q = At(r, x + n.delta, a)
    c.ensure_eq('parameters', y, jnp.where(ok & (q.value < p.value), x + n.delta, x))
  if mat:
    c.ensure_eq('residual hessian of the returned parameters', n.hess_res, At(r, y, a).hess())


@contract('P22', 'lm/geodesic, solver by contract', cfgs=grid(aux=[False, True]), funcs=LM, runs=8)
def lm_geo_stub(c, aux):
  """Any number of parameters; the linear solver is an uninterpreted function of the right-hand side, the ridge and the operator's action."""
  fun, r, A = residual(c, aux)
  x, a = c.real('x', ('n',)), c.real('a')
  p = At(r, x, a)
  h, probe = c.fun('solve', 'like0'), c.real('probe', ('n',))
  sol = LevenbergMarquardt(residual_fun=fun, has_aux=aux, geodesic=True, solver=lambda mv, b, ridge=None, init=None: h(b, ridge, mv(probe)))
  st0, st, mu, inc = lm_state(c, sol, x, a, p, False, True, A)
  y, n = sol.update(x, st, a)
  act = p.jt(p.jv(probe))
  v = h(p.grad, mu, act)
  rpp = jax.jvp(lambda z: jax.jvp(p.f, (z,), (v,))[1], (x,), (v,))[1]
  acc = h(p.jt(rpp), mu, act)
  c.sq_nonneg('v', v)
  c.sq_nonneg('acc', acc)
  c.ensure_eq('displacement: velocity plus half the acceleration', n.delta, -(v + 0.5 * acc))
  q = At(r, x + n.delta, a)
  ratio = norm(acc) / norm(v)
  post(c, r, x, a, A, st.aux, y, n, st, mu, inc, p, n.delta, ratio <= 0.75, False, True)


@contract('P22', 'lm/consequences', mode='proof', funcs=[])
def lm_lemma(c):
  """What the update equations above imply: the loss never increases, strictly decreases on acceptance, the damping stays positive."""
  v0, v1, pred, mu, inc = c.real('v0'), c.real('v1'), c.real('pred'), c.real('mu'), c.real('inc')
  extra = c.bool('extra')
  c.assume('state', (mu > 0) & (inc >= 2))
  ok = (pred > 0) & (v1 < v0) & extra
  rho = (v0 - v1) / jnp.where(pred > 0, pred, 1.0)
  mu1 = jnp.where(ok, mu * jnp.maximum(1 / 3, 1 - (2 * rho - 1) ** 3), jnp.minimum(mu * inc, BIG))
  inc1 = jnp.where(ok, 2.0, jnp.minimum(2 * inc, BIG))
  val = jnp.where(ok, v1, v0)
  c.ensure('loss never increases', val <= v0)
  c.ensure('accepted steps strictly decrease the loss', ~ok | (val < v0))
  c.ensure('damping stays positive', mu1 > 0)
  c.ensure('increase factor stays at least 2', inc1 >= 2)
  c.ensure('damping grows on rejection below the cap', ok | (mu1 >= jnp.minimum(2 * mu, BIG)))
  c.ensure('damping at most doubles on acceptance', ~ok | (mu1 <= 2 * mu))
