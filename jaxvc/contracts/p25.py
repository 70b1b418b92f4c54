"""P25: quadratic-program solvers report solved only at KKT points.

All problem data, iterates and sizes are arbitrary (sizes fixed only where constraint blocks are concatenated); bounds may
be infinite. Linear systems are taken by contract: the inner solver returns a solution of the system it is handed, and the
contracts check that this is the documented system."""
from .common import *
from jaxopt import BoxOSQP, OSQP, EqualityConstrainedQP
from jaxopt import base
from jaxopt.base import KKTSolution
import jaxopt._src.osqp as OS
import jaxopt._src.eq_qp as EQ
import jaxopt._src.iterative_refinement as IR

S = 'jaxopt._src.'
BX = [S + 'osqp.BoxOSQP.' + n for n in ('init_state', 'init_params', '_get_full_KKT_solution', '_update_stepsize', '_compute_residuals', '_compute_error', '_check_dual_infeasability',
                                        '_check_primal_infeasability', '_check_infeasability', '_check_termination_conditions', '_solve_linear_system', '_admm_step', 'update',
                                        'l2_optimality_error', '__post_init__')] + [S + 'osqp.' + n for n in ('extract_Qc_from_obj', '_make_osqp_optimality_fun', 'projection_box')]
LS = [S + 'osqp.OSQPIndirectSolver.' + n for n in ('init_state', 'update_stepsize', 'run', '_init_state_precond', '_matvec_precond')] + \
     [S + 'osqp.OSQPLUSolver.' + n for n in ('init_state', 'update_stepsize', 'run', '_lu_factor_dense', '_lu_factor_pytree')]
OQ = [S + 'osqp.OSQP_to_BoxOSQP.' + n for n in ('transform_matvec', '_pytree_concat', 'transform', '_pytree_split', 'inverse_transform')] + [S + 'osqp.OSQP.' + n for n in ('__init__', 'init_params', 'run', 'l2_optimality_error')]
EC = [S + 'eq_qp.' + n for n in ('EqualityConstrainedQP.run', 'EqualityConstrainedQP._refined_solve', 'EqualityConstrainedQP.__post_init__', 'EqualityConstrainedQP.l2_optimality_error', 'extract_Qc_from_obj', '_make_eq_qp_optimality_fun')]
POS = dict(draw=lambda r, s: abs(r.normal(size=s)) + 0.1)


def dense(M, v):
  return jnp.sum(M * v[None, :], 1)


def denseT(M, v):
  return jnp.sum(M * v[:, None], 0)


class Problem:
  """min 0.5 x'Qx + c'x  s.t. l <= Ax <= u, presented to the solver in one of its supported forms."""

  def __init__(self, c, form, n='n', m='m'):
    self.form = form
    if c.symbolic:
      Q = c.real('Q', (n, n))
    else:
      Q = c.real('Q', (n, n))
      Q = Q @ Q.T + 0.1 * jnp.eye(Q.shape[0])
    A = c.real('A', (m, n))
    q = c.real('c', (n,))
    if form == 'tree':
      Q2, A2, q2 = c.real('Q2', ('k', 'k')), c.real('A2', ('h', 'k')), c.real('c2', ('k',))
      Q2 = Q2 if c.symbolic else Q2 @ Q2.T + 0.1 * jnp.eye(Q2.shape[0])
      Q, A, q = {'a': Q, 'b': Q2}, {'a': A, 'b': A2}, {'a': q, 'b': q2}
    self.Qm, self.Am, self.c = Q, A, q
    self.Q = lambda x: tmap(dense, Q, x)
    if form == 'fun':
      # the gradient of 0.5 x'Qx is (Q + Q')x / 2: equal to Qx for symmetric Q
      self.Q = lambda x: 0.5 * (dense(Q, x) + denseT(Q, x))
    self.A = lambda x: tmap(dense, A, x)
    self.AT = lambda y: tmap(denseT, A, y)
    self.kw, self.obj, self.eq = {}, (Q, q), A
    if form == 'matvec':
      self.kw = dict(matvec_Q=lambda P, x: P['m'] @ x, matvec_A=lambda P, x: P['m'] @ x)
      self.obj, self.eq = ({'m': Q}, q), {'m': A}
    if form == 'fun':
      self.kw = dict(fun=lambda x, p: 0.5 * jnp.vdot(x, p['Q'] @ x) + jnp.vdot(p['c'], x) + p['k'])
      self.obj = {'Q': Q, 'c': q, 'k': c.real('const')}

  def x(self, c, name):
    return c.like(name, self.c)

  def z(self, c, name, **kw):
    if self.form == 'tree':
      return {'a': c.real(name + 'a', ('m',), **kw), 'b': c.real(name + 'b', ('h',), **kw)}
    return c.real(name, ('m',), **kw)


def both(f, *ts):
  return [f(*ls) for ls in zip(*[leaves(t) for t in ts])]


def bounds(c, P):
  """l <= u, possibly infinite, l < inf and u > -inf"""
  l, u = P.z(c, 'l'), P.z(c, 'u')
  if not c.symbolic:
    l, u = tmap(jnp.minimum, l, u), tmap(jnp.maximum, l, u)
  for lo, hi in zip(leaves(l), leaves(u)):
    c.assume('bounds', jnp.all(lo <= hi))
  flag = lambda name, t: tmap(lambda v, k: c.bool(name + k, v.shape), t, {'a': '1', 'b': '2'} if P.form == 'tree' else '')
  li, ui = flag('linf', l), flag('uinf', u)
  return tmap(lambda v, b: jnp.where(b, -jnp.inf, v), l, li), tmap(lambda v, b: jnp.where(b, jnp.inf, v), u, ui)


def stub_linear(c, sol):
  """The inner linear solver of the ADMM step: an uninterpreted function of the right-hand side and of its state."""
  F = c.fun('linear', 'like0')
  sol._eq_qp_solve_impl.run = lambda b, osqp_state: (F(b, osqp_state.solver_state), osqp_state.solver_state)
  sol._eq_qp_solve_impl.update_stepsize = lambda ss, rho: rho
  if c.symbolic:   # concatenates leaves of unknown sizes: by contract (P26)
    c.patch(OS, 'tree_inf_norm', lambda t: functools_max([jnp.max(jnp.abs(v)) for v in leaves(t)]))
  return F


def state_of(c, P, sol, x, z, y, lu):
  st0 = sol.init_state(KKTSolution((x, z), y, (y, y)), P.obj, P.eq, lu)
  return st0


FORMS = ['dense', 'matvec', 'fun', 'tree']


@contract('P25', 'osqp/init', cfgs=grid(form=FORMS), funcs=BX, runs=10)
def init(c, form):
  P = Problem(c, form)
  x, z, y, lu = P.x(c, 'x'), P.z(c, 'z'), P.z(c, 'y'), bounds(c, P)
  sol = BoxOSQP(**P.kw)
  st = state_of(c, P, sol, x, z, y, lu)
  c.ensure_eq('primal residual', st.primal_residuals, sub(P.A(x), z))
  c.ensure_eq('dual residual', st.dual_residuals, add(add(P.Q(x), P.c), P.AT(y)))
  c.ensure_eq('stepsize', jnp.asarray(st.rho_bar), jnp.asarray(0.1))
  c.ensure('unsolved', jnp.asarray(st.status == BoxOSQP.UNSOLVED))
  c.ensure('first iteration runs', jnp.asarray(st.error == jnp.inf))
  ip = sol.init_params(x, P.obj, P.eq, lu)
  c.ensure_eq('initial x', ip.primal[0], x)
  c.ensure_eq('initial z is A x clipped to the box', ip.primal[1], tmap(lambda v, l, u: jnp.minimum(jnp.maximum(v, l), u), P.A(x), *lu))
  c.ensure_eq('initial multipliers', (ip.dual_eq, ip.dual_ineq), (zeros(y), (zeros(y), zeros(y))))
  if form != 'fun':
    ip = sol.init_params(None, P.obj, P.eq, lu)
    c.ensure_eq('default start is zero', ip.primal[0], zeros(x))


@contract('P25', 'osqp/update', cfgs={k: v for k, v in grid(form=FORMS, check=[False, True]).items() if not (v['check'] and v['form'] == 'tree')}, funcs=BX, runs=10, timeout=60)
def update(c, form, check):
  """One iteration from any state: the documented ADMM formulas, residuals of the new pair, multipliers, box, status."""
  P = Problem(c, form)
  x, z, y, (l, u) = P.x(c, 'x'), P.z(c, 'z'), P.z(c, 'y'), bounds(c, P)
  sg, al, tol = 0.25, 1.5, 0.125
  sol = BoxOSQP(sigma=sg, momentum=al, tol=tol, rho_min=0.0625, rho_max=8.0, stepsize_updates_frequency=3, termination_check_frequency=2, check_primal_dual_infeasability=check, **P.kw)
  F = stub_linear(c, sol)
  st0 = state_of(c, P, sol, x, z, y, (l, u))
  st = c.like('st', st0)._replace(solver_state=c.real('ss'), status=c.int('status', (), lo=0, hi=4), error=c.real('err'))
  rho = c.real('rho', (), draw=lambda r, s: np.exp(r.normal(size=s)))
  c.assume('stepsize', (rho >= 0.0625) & (rho <= 8))
  c.assume('counter', st.iter_num >= 0)
  st = st._replace(rho_bar=rho)
  p, n = sol.update(KKTSolution((x, z), y, (y, y)), st, P.obj, P.eq, (l, u))
  (xn, zn), yn, (mu, phi) = p.primal, p.dual_eq, p.dual_ineq
  # line 3 of the algorithm: right-hand side of the linear system
  xb = F(add(sub(scale(sg, x), P.c), P.AT(axpy(scale(rho, z), -1.0, y))), st.solver_state)
  zb = P.A(xb)
  zm = axpy(z, al, sub(zb, z))
  free = axpy(zm, 1 / rho, y)
  c.ensure_eq('x step', xn, axpy(x, al, sub(xb, x)))
  c.ensure_eq('z step', zn, tmap(lambda v, a, b: jnp.minimum(jnp.maximum(v, a), b), free, l, u))
  c.ensure_eq('y step', yn, axpy(y, rho, sub(zm, zn)))
  for k, (zi, li, ui, yi, mi, pi) in enumerate(zip(*map(leaves, (zn, l, u, yn, mu, phi)))):
    c.ensure('in the box %d' % k, (li <= zi) & (zi <= ui))
    c.ensure_eq('positive part %d' % k, mi, jnp.maximum(yi, 0.0))
    c.ensure_eq('negative part %d' % k, pi, jnp.maximum(-yi, 0.0))
  pr, dr = sub(P.A(xn), zn), add(add(P.Q(xn), P.c), P.AT(yn))
  c.ensure_eq('primal residual', n.primal_residuals, pr)
  c.ensure_eq('dual residual', n.dual_residuals, dr)
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  checked = st.iter_num % 2 == 0
  c.ensure_eq('status kept between checks', n.status, st.status, when=~checked)
  c.ensure_eq('error kept between checks', n.error, st.error, when=~checked)
  c.ensure('stepsize range', (n.rho_bar >= 0.0625) & (n.rho_bar <= 8.0))
  c.ensure_eq('stepsize kept between updates', n.rho_bar, rho, when=st.iter_num % 3 != 0)
  c.ensure_eq('linear solver told about a new stepsize', n.solver_state, n.rho_bar, when=st.iter_num % 3 == 0)
  solved = checked & (n.status == BoxOSQP.SOLVED)
  big = lambda t: functools_max([jnp.max(jnp.abs(v)) for v in leaves(t)])
  c.ensure('solved: primal residuals within tolerance', big(pr) <= tol, when=solved)
  c.ensure('solved: dual residuals within tolerance', big(dr) <= tol, when=solved)
  c.ensure('known status', (n.status >= 0) & (n.status <= 3), when=checked)
  if not check:
    c.ensure_eq('error is the largest residual', n.error, jnp.maximum(big(pr), big(dr)), when=checked)
    c.ensure('solved or not', (n.status == BoxOSQP.SOLVED) == (n.error <= tol), when=checked)


def functools_max(xs):
  r = xs[0]
  for x in xs[1:]:
    r = jnp.maximum(r, x)
  return r


@contract('P25', 'osqp/complementarity', cfgs=grid(form=FORMS), funcs=BX, runs=10, timeout=60)
def complementarity(c, form):
  """After any iteration a positive multiplier means the upper bound is attained, a negative one the lower bound:
  with the two residuals within tolerance this is a KKT point of the problem."""
  P = Problem(c, form)
  x, z, y, (l, u) = P.x(c, 'x'), P.z(c, 'z'), P.z(c, 'y'), bounds(c, P)
  sol = BoxOSQP(**P.kw)
  F = stub_linear(c, sol)
  st0 = state_of(c, P, sol, x, z, y, (l, u))
  rho = c.real('rho', (), draw=lambda r, s: np.exp(r.normal(size=s)))
  c.assume('stepsize', rho > 0)
  st = c.like('st', st0)._replace(solver_state=c.real('ss'), rho_bar=rho, status=c.int('status', (), lo=0, hi=2), error=c.real('err'))
  p, _ = sol.update(KKTSolution((x, z), y, (y, y)), st, P.obj, P.eq, (l, u))
  eps = 0.0 if c.symbolic else 1e-9
  for k, (zi, li, ui, yi) in enumerate(zip(*map(leaves, (p.primal[1], l, u, p.dual_eq)))):
    c.ensure('positive multiplier at the upper bound %d' % k, ~(yi > eps) | (zi == ui))
    c.ensure('negative multiplier at the lower bound %d' % k, ~(yi < -eps) | (zi == li))


# ------------------------------------------------------------------------------------------------ infeasibility certificates
@contract('P25', 'osqp/infeasibility', cfgs=grid(form=['dense', 'matvec', 'fun', 'tree'], kind=['dual', 'primal']), funcs=BX, runs=20, timeout=60)
def infeasibility(c, form, kind):
  """A problem is reported infeasible only with a non-zero certificate: for the dual, a direction dx along which the
  quadratic and linear terms do not grow and no finite bound is crossed; for the primal, a combination dy of the
  constraints, without components towards infinite bounds, that vanishes on every x and whose support value is not
  positive - each up to the configured relative tolerance."""
  P = Problem(c, form)
  x, z, y, (l, u) = P.x(c, 'x'), P.z(c, 'z'), P.z(c, 'y'), bounds(c, P)
  x1, z1, y1 = P.x(c, 'x1'), P.z(c, 'z1'), P.z(c, 'y1')
  dt, pt = 0.25, 0.125
  if not c.symbolic and c.bool('aim'):   # concrete runs: aim at the boundary cases as well
    y1 = tmap(lambda v, w: v + jnp.sign(w - v), y, y1)
  sol = BoxOSQP(dual_infeasible_tol=dt, primal_infeasible_tol=pt, check_primal_dual_infeasability=True, **P.kw)
  stub_linear(c, sol)
  e, s0 = c.real('e'), c.int('s', (), lo=0, hi=2)
  c.assume('status', (s0 >= 0) & (s0 <= 1))
  pQ, cc = OS.extract_Qc_from_obj(x, P.obj, sol.fun)
  old, new = KKTSolution((x, z), y, None), KKTSolution((x1, z1), y1, None)
  err, status = sol._check_infeasability(old, new, e, s0, sol.matvec_Q(pQ), cc, sol.matvec_A(P.eq), l, u)
  big = lambda t: functools_max([jnp.max(jnp.abs(v)) for v in leaves(t)])
  c.ensure('otherwise unchanged', ((status == s0) & (err == e)) | (((status == BoxOSQP.DUAL_INFEASIBLE) | (status == BoxOSQP.PRIMAL_INFEASIBLE)) & (err == 0)))
  if kind == 'dual':
    w = status == BoxOSQP.DUAL_INFEASIBLE
    dx = sub(x1, x)
    eps = dt * big(dx)
    c.ensure('direction is not zero', eps > 0, when=w)
    c.ensure('quadratic term', big(P.Q(dx)) <= eps, when=w)
    c.ensure_le('linear term', dot(P.c, dx), eps, when=w)
    for k, (a, lo, hi) in enumerate(zip(*map(leaves, (P.A(dx), l, u)))):
      c.ensure('lower bounds %d' % k, jnp.all((lo == -jnp.inf) | (a >= -eps)), when=w)
      c.ensure('upper bounds %d' % k, jnp.all((hi == jnp.inf) | (a <= eps)), when=w)
  else:
    w = status == BoxOSQP.PRIMAL_INFEASIBLE
    dy = tmap(lambda d, hi: jnp.where(hi == jnp.inf, -jnp.maximum(-d, 0.0), d), sub(y1, y), u)
    dy = tmap(lambda d, lo: jnp.where(lo == -jnp.inf, jnp.maximum(d, 0.0), d), dy, l)
    eps = pt * big(dy)
    c.ensure('combination is not zero', eps > 0, when=w)
    c.ensure('vanishes', big(P.AT(dy)) <= eps, when=w)
    sup = tmap(lambda d, lo, hi: jnp.where(lo == -jnp.inf, 0.0, lo) * -jnp.maximum(-d, 0.0) + jnp.where(hi == jnp.inf, 0.0, hi) * jnp.maximum(d, 0.0), dy, l, u)
    c.ensure_le('support value', tsum(sup), eps, when=w)


# ------------------------------------------------------------------------------------------------ linear systems of the ADMM step
def linear(c, which, form, upd):
  P = Problem(c, form)
  sg = 0.25
  sol = BoxOSQP(sigma=sg, eq_qp_solve=which, tol=1e-2, **P.kw)
  im = sol._eq_qp_solve_impl
  rho, rho1 = c.real('rho', (), **POS), c.real('rho1', (), **POS)
  c.assume('stepsizes', (rho > 0) & (rho1 > 0))
  b, x0 = P.x(c, 'b'), P.x(c, 'x0')
  pQ = (P.obj, P.c, 0.0) if form == 'fun' else P.obj[0]
  init, r = x0, rho
  if c.symbolic:
    c.patch(OS, 'tree_inf_norm', lambda t: functools_max([jnp.max(jnp.abs(v)) for v in leaves(t)]))
    if which == 'lu':
      c.patch(jax.scipy.linalg, 'lu_factor', lambda M: (M, jnp.zeros(M.shape[0], int)))
      c.patch(jax.scipy.linalg, 'lu_solve', lambda f, b, check_finite=True: jax.lax.custom_linear_solve(lambda v: f[0] @ v, b, lambda op, b: b))
    else:
      def cg(op, b, x0=None, M=None, **kw):
        v = c.like('probe', b)
        c.ensure_eq('warm start', x0, init)
        if which == 'cg':
          c.ensure_eq('no preconditioner', M(v), v)
        else:
          for k, (l_, Q, A, vi) in enumerate(zip(leaves(M(v)), leaves(P.Qm), leaves(P.Am), leaves(v))):
            d = jnp.sum(jnp.eye(Q.shape[0]) * Q, 1) + sg + r * jnp.sum(A * A, 0)
            c.assume('positive diagonal %d' % k, d > 0)
            c.ensure_eq('Jacobi preconditioner %d' % k, l_ * d, vi)
        return jax.lax.custom_linear_solve(op, b, lambda op, b: b), None
      import jax.scipy.sparse.linalg as SL
      c.patch(SL, 'cg', cg)
  ss = im.init_state(x0, pQ, P.eq, sg, rho)
  if upd:
    ss = im.update_stepsize(ss, rho1)
    r = rho1
  z = P.z(c, 'z')
  st = OS.BoxOSQPState(iter_num=0, error=jnp.inf, status=0, primal_residuals=zeros(z) if not c.symbolic else z, dual_residuals=x0, rho_bar=r, solver_state=ss)
  x, ss2 = im.run(b, st)
  K = lambda x: add(axpy(P.Q(x), sg, x), scale(r, P.AT(P.A(x))))
  if c.symbolic or which == 'lu':   # the conjugate gradient stops early by design: a tolerance relative to the residuals
    c.ensure_eq('solves', K(x), b, tol=1e-6)
  if which != 'lu':
    c.ensure_eq('next warm start', ss2[0], x)
    c.ensure_eq('stepsize kept', ss2[1][3], r)
  else:
    x2, _ = im.run(scale(2.0, b), st._replace(solver_state=ss2))
    c.ensure_eq('solves again', K(x2), scale(2.0, b), tol=1e-6)


@contract('P25', 'osqp/linear solver', cfgs=grid(form=FORMS, upd=[False, True]), funcs=LS, runs=10, timeout=60)
def linear_cg(c, form, upd):
  """run returns a solution of (Q + sigma I + rho A'A) x = b for the current stepsize, whatever the stepsize history."""
  linear(c, 'cg', form, upd)


@contract('P25', 'osqp/linear solver, factorised', cfgs=grid(which=['cg+jacobi', 'lu'], form=['dense', 'tree'], upd=[False, True]), funcs=LS, runs=10, timeout=60, fix=[{'n': 2, 'm': 1, 'k': 1, 'h': 2}, {'n': 1, 'm': 2, 'k': 2, 'h': 1}])
def linear_fixed(c, which, form, upd):
  linear(c, which, form, upd)


# ------------------------------------------------------------------------------------------------ optimality maps
@contract('P25', 'osqp/optimality', cfgs=grid(form=FORMS), funcs=BX + [S + 'implicit_diff.make_kkt_optimality_fun'], runs=10, timeout=60)
def optimality(c, form):
  """The residual used for implicit differentiation and l2_optimality_error is the gradient of the Lagrangian, A x - z and
  the complementarity products; infinite bounds contribute nothing."""
  P = Problem(c, form)
  x, z, y, (l, u) = P.x(c, 'x'), P.z(c, 'z'), P.z(c, 'y'), bounds(c, P)
  mu, phi = P.z(c, 'mu'), P.z(c, 'phi')
  sol = BoxOSQP(**P.kw)
  r = sol.optimality_fun(KKTSolution((x, z), y, (mu, phi)), P.obj, P.eq, (l, u))
  gx, gz = r.primal
  sym = (lambda v: tmap(lambda Q, w: 0.5 * (dense(Q, w) + denseT(Q, w)), P.Qm, v))
  c.ensure_eq('stationarity in x', gx, add(add(sym(x), P.c), P.AT(y)))
  fin_u, fin_l = tmap(lambda b: (b != jnp.inf), u), tmap(lambda b: (b != -jnp.inf), l)
  c.ensure_eq('stationarity in z', gz, tmap(lambda y, m, f, a, b: -y + jnp.where(a, m, 0.0) - jnp.where(b, f, 0.0), y, mu, phi, fin_u, fin_l))
  c.ensure_eq('feasibility', r.dual_eq, sub(P.A(x), z))
  c.ensure_eq('complementarity', r.dual_ineq, (tmap(lambda m, z, b, a: jnp.where(a, m * (z - b), 0.0), mu, z, u, fin_u), tmap(lambda f, z, b, a: jnp.where(a, f * (b - z), 0.0), phi, z, l, fin_l)))


# ------------------------------------------------------------------------------------------------ equality-constrained QP
class EqProblem(Problem):
  pass


@contract('P25', 'eq_qp', cfgs=grid(form=FORMS, init=['none', 'given'], refine=[False, True]), funcs=EC, runs=6, run_time=6, timeout=60)
def eq_qp(c, form, init, refine):
  if form == 'fun' and init == 'none':
    c.ensure('documented: init_params needed', jnp.asarray(True))
    return
  P = Problem(c, form)
  b = P.z(c, 'b')
  if not c.symbolic:   # consistent constraints
    b = P.A(P.x(c, 'feasible'))
  x0, y0 = P.x(c, 'x0'), P.z(c, 'y0')
  ip = KKTSolution(x0, y0, None) if init == 'given' else None
  kw = dict(P.kw)
  seen = []
  if c.symbolic:
    def solve(mv, t, init=None, tol=None, maxiter=None):
      seen.append((tol, maxiter))
      if ip is None:
        c.ensure('no warm start', jnp.asarray(init is None))
      else:
        c.ensure_eq('warm start', tuple(init), (x0, y0))
      return jax.lax.custom_linear_solve(mv, t, lambda mv, t: t)
    kw.update(solve=solve, jit=False)
    if refine:   # iterative refinement by contract (P29): a converged run solves the system of matvec_A
      class Refinement:
        def __init__(self, matvec_A, matvec_A_bar, solve, maxiter, tol):
          v = (c.like('px', x0), c.like('py', y0))
          Qv, Av, ATv = P.Q(v[0]), P.A(v[0]), P.AT(v[1])
          c.ensure_eq('operator', matvec_A(None, v), (add(Qv, ATv), Av))
          c.ensure_eq('regularised operator', matvec_A_bar(None, v), (add(add(Qv, ATv), scale(0.5, v[0])), axpy(Av, -0.5, v[1])))
          c.ensure('limits', jnp.asarray(maxiter == 13 and tol == 0.25 and solve.keywords == dict(maxiter=7, tol=0.25)))
          self.mv = matvec_A
        def run(self, init_params, A, b):
          return solve(lambda v: self.mv(A, v), b, init=init_params), None
      c.patch(EQ, 'IterativeRefinement', Refinement)
    kw.update(tol=0.25, maxiter=7, refine_maxiter=13)
  else:
    kw.update(tol=1e-12, refine_maxiter=60)
  if refine:
    kw.update(refine_regularization=0.5 if c.symbolic else 1e-3)
  sol = EqualityConstrainedQP(**kw)
  # the solver itself, without the implicit-differentiation wrapper (P10)
  run = (lambda *a: EqualityConstrainedQP.run(sol, *a)) if c.symbolic else sol.run
  p, st = run(ip, P.obj, (P.eq, b))
  c.ensure_eq('stationary', add(add(P.Q(p.primal), P.c), P.AT(p.dual_eq)), zeros(P.c), tol=1e-3)
  c.ensure_eq('feasible', P.A(p.primal), b, tol=1e-3)
  c.ensure('no inequality multipliers', jnp.asarray(p.dual_ineq is None))
  if c.symbolic and not refine:
    c.ensure('limits', jnp.asarray(seen == [(0.25, 7)]))
  w, v = P.x(c, 'w'), P.z(c, 'v')
  r = sol.optimality_fun(KKTSolution(w, v, None), P.obj, (P.eq, b))
  sym = (lambda t: tmap(lambda Q, s: 0.5 * (dense(Q, s) + denseT(Q, s)), P.Qm, t))
  c.ensure_eq('optimality: stationarity', r.primal, add(add(sym(w), P.c), P.AT(v)))
  c.ensure_eq('optimality: feasibility', r.dual_eq, sub(P.A(w), b))


# ------------------------------------------------------------------------------------------------ OSQP: equalities and inequalities as one box
def _osqp(c, form, parts, warm):
  """OSQP hands BoxOSQP the box b <= Ax <= b, -inf <= Gx <= h over the stacked rows, and reads x, the rows' multipliers and
  the positive part of the multipliers back: a KKT point of the box problem is a KKT point of the original one."""
  tree = form == 'tree'
  n, m, k = 'n', 'm', 'k'
  mk = (lambda name, *s: {'a': c.real(name + 'a', s), 'b': c.real(name + 'b', s)}) if tree else (lambda name, *s: c.real(name, s))
  Q, q, A, b, G, h = mk('Q', n, n), mk('c', n), mk('A', m, n), mk('b', m), mk('G', k, n), mk('h', k)
  eq, ineq = parts != 'ineq', parts != 'eq'
  kw = {}
  mv = lambda P, x: P['m'] @ x
  if 'matvec_A' in form and eq:
    kw['matvec_A'] = mv
  if 'matvec_G' in form and ineq:
    kw['matvec_G'] = mv
  boxed = bool(kw)
  pe = ({'m': A} if 'matvec_A' in kw else A, b) if eq else None
  pi = ({'m': G} if 'matvec_G' in kw else G, h) if ineq else None
  sol = OSQP(jit=False, tol=0.25, maxiter=11, **kw) if c.symbolic else OSQP(tol=1e-9, maxiter=20000, **kw)
  x0, ye0, yi0 = mk('x0', n), mk('ye0', m), mk('yi0', k)
  x, ye, yi, z_e, z_i = mk('x', n), mk('ye', m), mk('yi', k), mk('ze', m), mk('zi', k)
  D, DT = (lambda M, v: tmap(dense, M, v)), (lambda M, v: tmap(denseT, M, v))
  relu = lambda t: tmap(lambda v: jnp.maximum(v, 0.0), t)
  rows = [r for r, p in ((0, eq), (1, ineq)) if p]

  def stack(*ts):
    ts = [ts[r] for r in rows]
    return list(ts) if boxed else tmap(lambda *l: jnp.concatenate(l), *ts)
  ip = KKTSolution(x0, ye0 if eq else None, yi0 if ineq else None) if warm else None
  y = stack(ye, yi)
  box_run = {}

  def run(init, params_obj, params_eq, params_ineq):
    op = OS._make_linear_operator(sol.matvec_A_box)(params_eq)
    c.ensure_eq('objective', params_obj, (Q, q))
    c.ensure_eq('operator', op(x), stack(D(A, x), D(G, x)))
    c.ensure_eq('adjoint operator', op.rmatvec(x, y), add(DT(A, ye) if eq else zeros(x), DT(G, yi) if ineq else zeros(x)))
    l, u = params_ineq
    c.ensure_eq('upper bounds', u, stack(b, h))
    inf = lambda t: tmap(lambda v: v == -jnp.inf, t)
    li, want = inf(l), stack(tmap(lambda v: jnp.zeros(v.shape, bool), b), tmap(lambda v: jnp.ones(v.shape, bool), h))
    for i, (p, w) in enumerate(zip(leaves(li), leaves(want))):
      c.ensure('only inequalities are unbounded below %d' % i, p == w)
    c.ensure_eq('lower bounds', tmap(lambda v, w: jnp.where(w, 0.0, v), l, want), stack(b, zeros(h)))
    c.ensure_eq('warm start x', init.primal[0], x0 if warm else zeros(x0))
    if warm:
      c.ensure_eq('warm start z', init.primal[1], stack(D(A, x0), D(G, x0)))
      c.ensure_eq('warm start y', init.dual_eq, stack(ye0, yi0))
      c.ensure_eq('warm start multipliers', init.dual_ineq, (relu(stack(ye0, yi0)), relu(scale(-1.0, stack(ye0, yi0)))))
    else:
      c.ensure_eq('default multipliers', (init.dual_eq, init.dual_ineq), (zeros(y), (zeros(y), zeros(y))))
    return base.OptStep(KKTSolution((x, stack(z_e, z_i)), y, (relu(y), relu(scale(-1.0, y)))), box_run['state'])
  box_run['state'] = OS.BoxOSQPState(c.int('it'), c.real('err'), c.int('status'), x, x, c.real('rho'), c.real('ss'))
  c.ensure('limits', jnp.asarray((sol._box_osqp.tol, sol._box_osqp.maxiter) == ((0.25, 11) if c.symbolic else (1e-9, 20000))))
  sol._box_osqp.run = run
  p, st = sol.run(ip, (Q, q), pe, pi)
  c.ensure_eq('x', p.primal, x)
  c.ensure('absent constraints have no multipliers', jnp.asarray((p.dual_eq is None) == (not eq) and (p.dual_ineq is None) == (not ineq)))
  if eq:
    c.ensure_eq('multipliers of the equalities', p.dual_eq, ye)
  if ineq:
    c.ensure_eq('multipliers of the inequalities', p.dual_ineq, relu(yi))
  bs = box_run['state']
  c.ensure_eq('state', (st.iter_num, st.error, st.status), (bs.iter_num, bs.error, bs.status))
  # the error reported to users is that of the box problem at the given point
  seen = []
  sol._box_osqp.l2_optimality_error = lambda params, **hp: (seen.append((params, hp)), 7.0)[1]
  full = KKTSolution(x0, ye0 if eq else None, yi0 if ineq else None)
  c.ensure('l2 error of the box problem', jnp.asarray(sol.l2_optimality_error(full, (Q, q), pe, pi) == 7.0))
  params, hp = seen[0]
  c.ensure_eq('l2 error point', params, KKTSolution((x0, stack(D(A, x0), D(G, x0))), stack(ye0, yi0), (relu(stack(ye0, yi0)), relu(scale(-1.0, stack(ye0, yi0))))))
  c.ensure_eq('l2 error problem', hp['params_obj'], (Q, q))
  c.ensure_eq('l2 error bounds', hp['params_ineq'][1], stack(b, h))


@contract('P25', 'osqp/two kinds of constraints, matvec', cfgs=grid(form=['matvec_A', 'matvec_G', 'matvec_A+matvec_G'], parts=['eq+ineq'], warm=[False, True]), funcs=OQ, runs=6, timeout=60)
def osqp_matvec(c, form, parts, warm):
  _osqp(c, form, parts, warm)


@contract('P25', 'osqp/one kind of constraints', cfgs={**grid(form=['matvec_A', 'dense', 'tree'], parts=['eq'], warm=[False, True]), **grid(form=['matvec_G', 'dense', 'tree'], parts=['ineq'], warm=[False, True])}, funcs=OQ, runs=6, timeout=60)
def osqp_one(c, form, parts, warm):
  _osqp(c, form, parts, warm)


@contract('P25', 'osqp/two kinds of constraints, stacked', cfgs=grid(form=['dense', 'tree'], parts=['eq+ineq'], warm=[False, True]), funcs=OQ, runs=6, timeout=60,
          fix=[{'n': 2, 'm': 1, 'k': 2}, {'n': 2, 'm': 2, 'k': 1}])
def osqp_stacked(c, form, parts, warm):
  _osqp(c, form, parts, warm)


# ------------------------------------------------------------------------------------------------ CVXPY wrapper
class Expr:
  """Stand-in for a CVXPY expression: evaluated at one arbitrary value of the variable."""

  def __init__(self, value):
    self.v = value
  __array_priority__ = 1000
  shape = property(lambda s: s.v.shape)
  T = property(lambda s: Expr(s.v.T))
  __add__ = __radd__ = lambda s, o: Expr(s.v + val(o))
  __mul__ = __rmul__ = lambda s, o: Expr(s.v * val(o))
  __sub__ = lambda s, o: Expr(s.v - val(o))
  __rsub__ = lambda s, o: Expr(val(o) - s.v)
  __neg__ = lambda s: Expr(-s.v)
  __truediv__ = lambda s, o: Expr(s.v / val(o))
  __matmul__ = lambda s, o: Expr(s.v @ val(o))
  __rmatmul__ = lambda s, o: Expr(val(o) @ s.v)
  __eq__ = lambda s, o: Con('eq', s.v - val(o))
  __le__ = lambda s, o: Con('le', s.v - val(o))
  __ge__ = lambda s, o: Con('ge', s.v - val(o))
  __hash__ = None


def val(o):
  return o.v if isinstance(o, Expr) else o


class Con:
  def __init__(self, kind, res):
    self.kind, self.res = kind, res


@contract('P25', 'cvxpy wrapper', cfgs=grid(parts=['eq', 'ineq', 'eq+ineq', 'none']), fix=[{'n': 2, 'm': 1, 'k': 2}, {'n': 1, 'm': 2, 'k': 1}], runs=6,
          funcs=[S + 'cvxpy_wrapper.' + n for n in ('CvxpyQP.run', '_check_params', '_make_cvxpy_qp_optimality_fun', 'CvxpyQP.__post_init__')])
def cvxpy(c, parts):
  """The problem handed to CVXPY is the documented one and its solution and multipliers are returned unchanged; the
  optimality function is the gradient of the Lagrangian and the constraint residuals."""
  import sys, types
  from jaxopt import CvxpyQP
  Q, q, A, b, G, h = c.real('Q', ('n', 'n')), c.real('c', ('n',)), c.real('A', ('m', 'n')), c.real('b', ('m',)), c.real('G', ('k', 'n')), c.real('h', ('k',))
  eq, ineq = parts in ('eq', 'eq+ineq'), parts in ('ineq', 'eq+ineq')
  pe, pi = (A, b) if eq else None, (G, h) if ineq else None
  x, xs, y, z = c.real('x', ('n',)), c.real('sol', ('n',)), c.real('y', ('m',)), c.real('z', ('k',))
  n = x.shape[0]
  seen = []
  cp = types.ModuleType('cvxpy')

  def Variable(s):
    c.ensure('one variable of the right size', jnp.asarray(not seen and s in (n, (n,))))
    e = Expr(x)
    seen.append(e)
    return e

  class Problem_:
    def __init__(self, obj, constraints=()):
      self.obj, self.constraints = obj, list(constraints)
    def solve(self, **kw):
      c.ensure('configured solver', jnp.asarray(kw.get('solver') == 'ECOS'))
      c.ensure_eq('objective', self.obj, 0.5 * jnp.sum(x * dense(Q, x)) + jnp.sum(q * x))
      want = ([('eq', dense(A, x) - b, y)] if eq else []) + ([('le', dense(G, x) - h, z)] if ineq else [])
      c.ensure('constraints', jnp.asarray(sorted(k.kind for k in self.constraints) == [w[0] for w in want]))
      for k in self.constraints:
        kind, res, dual = [w for w in want if w[0] == k.kind][0]
        c.ensure_eq('constraint ' + kind, k.res, res)
        k.dual_value = dual
      seen[0].value = xs
      self.status = 'optimal'
  cp.Variable, cp.Problem, cp.Minimize = Variable, Problem_, lambda e: val(e)
  cp.quad_form = lambda v, M: Expr(jnp.sum(v.v * dense(val(M), v.v)))
  old = sys.modules.get('cvxpy')
  sys.modules['cvxpy'] = cp
  sol = CvxpyQP(solver='ECOS')
  try:
    p, st = CvxpyQP.run(sol, None, (Q, q), pe, pi)
  finally:
    if old is None:
      del sys.modules['cvxpy']
    else:
      sys.modules['cvxpy'] = old
  c.ensure_eq('solution', p.primal, xs)
  c.ensure('absent constraints have no multipliers', jnp.asarray((p.dual_eq is None) == (not eq) and (p.dual_ineq is None) == (not ineq)))
  if eq:
    c.ensure_eq('multipliers of the equalities', p.dual_eq, y)
  if ineq:
    c.ensure_eq('multipliers of the inequalities', p.dual_ineq, z)
  r = sol.optimality_fun(KKTSolution(x, y if eq else None, z if ineq else None), (Q, q), pe, pi)
  want = 0.5 * (dense(Q, x) + denseT(Q, x)) + q
  if eq:
    want = want + denseT(A, y)
    c.ensure_eq('optimality: equalities', r.dual_eq, dense(A, x) - b)
  if ineq:
    want = want + denseT(G, z)
    c.ensure_eq('optimality: complementarity', r.dual_ineq, z * (dense(G, x) - h))
  c.ensure_eq('optimality: stationarity', r.primal, want)
