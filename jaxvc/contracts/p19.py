"""P19: after every update the stored value, gradient, aux and counter describe the returned parameters, the error is the norm of
the optimality residual there and the direction obeys the documented formula.  Objective, gradient and aux are uninterpreted,
the incoming state is any state satisfying the invariant being proved (value = f(x), gradient = g(x)), and the line search is
known only by its contract."""
from .lsearch import problem
from .stubls import *
from jaxopt import LBFGS, BFGS, NonlinearCG, Broyden, GradientDescent

S = 'jaxopt._src.'
INC, MAXS, MINS = 1.5, 1.25, 1e-3


def solver_kwargs(c, mode, f, g, A, aux):
  """(constructor arguments, function of (prev stepsize, iter_num, value, grad) giving the expected step)."""
  if mode.startswith('ls-'):
    strategy = mode[3:]
    ls, h = stub(c, f, g, A, aux)
    return dict(linesearch=ls, linesearch_init=strategy, max_stepsize=MAXS, min_stepsize=MINS, increase_factor=INC), lambda prev, it, v, gr: h(init_step(strategy, prev, MAXS, MINS, INC), v, gr), ls
  if mode == 'const':
    return dict(stepsize=0.375), lambda prev, it, v, gr: jnp.asarray(0.375), None
  sch = c.fun('schedule', ())
  return dict(stepsize=lambda it: sch(it)), lambda prev, it, v, gr: sch(it), None


def recursion(v, pairs, gamma):
  """Matrix recursion H+ = (I - rho s y^T) H (I - rho y s^T) + rho s s^T applied to v, oldest pair first."""
  if not pairs:
    return scale(gamma, v)
  (s, y, r) = pairs[-1]
  w = axpy(v, -r * dot(s, v), y)
  u = recursion(w, pairs[:-1], gamma)
  u = axpy(u, -r * dot(y, u), s)
  return axpy(u, r * dot(s, v), s)


def pick(h, i):
  return tmap(lambda l: l[i], h)


@contract('P19', 'init', cfgs=grid(solver=['LBFGS', 'BFGS', 'NonlinearCG', 'Broyden', 'GradientDescent'], aux=[False, True], lay=['arr', 'tree']), fix=[{'n': 2, 'nv': 1}],
          funcs=[S + 'lbfgs.LBFGS.init_state', S + 'bfgs.BFGS.init_state', S + 'nonlinear_cg.NonlinearCG.init_state', S + 'broyden.Broyden.init_state', S + 'proximal_gradient.ProximalGradient.init_state'])
def init(c, solver, aux, lay):
  if solver == 'Broyden':
    F, A = c.fun('F', 'like0'), c.fun('aux', ())
    sol = Broyden(fun=(lambda x, a: (F(x, a), {'k': A(x, a)})) if aux else (lambda x, a: F(x, a)), has_aux=aux)
    f, g = F, None
  else:
    fun, vg, f, g, A = problem(c, 'fun', aux)
    sol = {'LBFGS': LBFGS, 'BFGS': BFGS, 'NonlinearCG': NonlinearCG, 'GradientDescent': GradientDescent}[solver](fun=fun, has_aux=aux)
  x, a = tree(c, 'x', lay), c.real('a')
  st = sol.init_state(x, a)
  c.ensure('counter', st.iter_num == 0)
  c.ensure('error is infinite', st.error == jnp.inf)
  c.ensure_eq('aux', st.aux, auxof(A, aux, x, a))
  if solver == 'GradientDescent':
    return
  c.ensure_eq('value', st.value, f(x, a))
  if g is not None:
    c.ensure_eq('gradient', st.grad, g(x, a))
  if solver == 'NonlinearCG':
    c.ensure_eq('first direction is steepest descent', st.descent_direction, scale(-1.0, g(x, a)))
  if solver == 'BFGS':
    c.ensure_eq('identity', st.H, jnp.eye(3 if lay == 'tree' else 2))
  if solver == 'LBFGS':
    z = [jnp.zeros_like(l) for l in leaves((st.s_history, st.y_history, st.rho_history))]
    c.ensure_eq('empty memory', leaves((st.s_history, st.y_history, st.rho_history)), z)
    c.ensure_eq('gamma', st.gamma, jnp.asarray(1.0))


def common(c, st, n, y, f, g, A, aux, a, s, ls):
  fy, gy = f(y, a), g(y, a)
  c.ensure_eq('value at the returned point', n.value, fy)
  c.ensure_eq('gradient at the returned point', n.grad, gy)
  c.ensure_eq('aux at the returned point', n.aux, auxof(A, aux, y, a))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  c.ensure_eq('stepsize', n.stepsize, s)
  c.ensure_eq('error is the gradient norm at the returned point', n.error, norm(gy))
  if ls is not None:
    c.ensure_eq('line-search iterations are added up', n.num_linesearch_iter, st.num_linesearch_iter + ls.iters)
  return gy


LS = ['ls-max', 'ls-current', 'ls-increase']


@contract('P19', 'lbfgs', cfgs={**grid(mode=LS + ['const', 'callable'], m=[2], it=[0, 3], gamma=[True], flavour=['fun', 'both'], aux=[False, True], lay=['arr']),
                                **grid(mode=['ls-increase', 'const'], m=[1, 2], it=[0, 1, 2, 3], gamma=[False, True], flavour=['both'], aux=[True], lay=['tree']),
                                **grid(mode=['const'], m=[3], it=[0, 1, 2, 4, 5], gamma=[True], flavour=['both'], aux=[False], lay=['arr'])},
          funcs=[S + 'lbfgs.LBFGS.update', S + 'lbfgs.inv_hessian_product', S + 'lbfgs.compute_gamma', S + 'linesearch_util._init_stepsize'], runs=10)
def lbfgs(c, mode, m, it, gamma, flavour, aux, lay):
  fun, vg, f, g, A = problem(c, flavour, aux)
  kw, step, ls = solver_kwargs(c, mode, f, g, A, aux)
  sol = LBFGS(fun=fun, value_and_grad=vg, has_aux=aux, history_size=m, use_gamma=gamma, **kw)
  x, a = tree(c, 'x', lay), c.real('a')
  st = sol.init_state(x, a)
  st = c.like('st', st)._replace(value=f(x, a), grad=g(x, a), iter_num=jnp.asarray(it), failed_linesearch=jnp.asarray(False))
  y, n = sol.update(x, st, a)
  # stored pairs, oldest first: slot k of the circular buffer was written at an iteration congruent to k modulo m
  order = [(it + k) % m for k in range(m)]
  pairs = [(pick(st.s_history, k), pick(st.y_history, k), st.rho_history[k]) for k in order]
  d = recursion(scale(-1.0, g(x, a)), pairs, st.gamma)
  s = step(st.stepsize, st.iter_num, f(x, a), g(x, a))
  c.ensure_eq('parameters: step along the L-BFGS direction', y, axpy(x, s, d))
  gy = common(c, st, n, y, f, g, A, aux, a, s, ls)
  sk, yk = sub(y, x), sub(gy, g(x, a))
  slot = it % m
  for k in range(m):
    c.ensure_eq('memory slot %d: parameter difference' % k, pick(n.s_history, k), sk if k == slot else pick(st.s_history, k))
    c.ensure_eq('memory slot %d: gradient difference' % k, pick(n.y_history, k), yk if k == slot else pick(st.y_history, k))
    sy = dot(sk, yk)
    c.ensure_eq('memory slot %d: rho' % k, n.rho_history[k], jnp.where(sy == 0, 0.0, 1 / jnp.where(sy == 0, 1.0, sy)) if k == slot else st.rho_history[k], when=jnp.asarray(c.symbolic) | (jnp.abs(sy) > 1e-10))
  yy = sq(yk)
  c.ensure_eq('gamma', n.gamma, jnp.where(yy > 0, dot(sk, yk) / jnp.where(yy > 0, yy, 1.0), 1.0) if gamma else jnp.asarray(1.0), when=jnp.asarray(c.symbolic) | (yy > 1e-12))
  if ls is not None:
    c.ensure('line-search failure is reported', n.failed_linesearch == ls.failed)
  else:
    c.ensure('no line search, no failure', ~n.failed_linesearch)


@contract('P19', 'bfgs', cfgs=grid(mode=LS + ['const', 'callable'], flavour=['fun', 'both'], aux=[False, True], lay=['arr', 'tree']), fix=[{'n': 2, 'nv': 1}],
          funcs=[S + 'bfgs.BFGS.update', S + 'bfgs.pytree_to_flat_array', S + 'linesearch_util._init_stepsize'], runs=10)
def bfgs(c, mode, flavour, aux, lay):
  fun, vg, f, g, A = problem(c, flavour, aux)
  kw, step, ls = solver_kwargs(c, mode, f, g, A, aux)
  sol = BFGS(fun=fun, value_and_grad=vg, has_aux=aux, **kw)
  x, a = tree(c, 'x', lay), c.real('a')
  st = sol.init_state(x, a)
  st = c.like('st', st)._replace(value=f(x, a), grad=g(x, a))
  y, n = sol.update(x, st, a)
  flat = lambda t: jnp.concatenate([l.reshape(-1) for l in leaves(t)])
  s = step(st.stepsize, st.iter_num, f(x, a), g(x, a))
  c.ensure_eq('parameters: step along -H g', flat(y), flat(x) - s * (st.H * flat(g(x, a))[None, :]).sum(1))
  common(c, st, n, y, f, g, A, aux, a, s, ls)


@contract('P19', 'nonlinear_cg', cfgs=grid(mode=LS, method=['polak-ribiere', 'fletcher-reeves', 'hestenes-stiefel'], flavour=['fun', 'both'], aux=[False, True], lay=['arr', 'tree']),
          funcs=[S + 'nonlinear_cg.NonlinearCG.update', S + 'linesearch_util._init_stepsize'], runs=10)
def nonlinear_cg(c, mode, method, flavour, aux, lay):
  fun, vg, f, g, A = problem(c, flavour, aux)
  kw, step, ls = solver_kwargs(c, mode, f, g, A, aux)
  sol = NonlinearCG(fun=fun, value_and_grad=vg, has_aux=aux, method=method, **kw)
  x, a = tree(c, 'x', lay), c.real('a')
  st = sol.init_state(x, a)
  st = c.like('st', st)._replace(value=f(x, a), grad=g(x, a))
  y, n = sol.update(x, st, a)
  s = step(st.stepsize, st.iter_num, f(x, a), g(x, a))
  c.ensure_eq('parameters: step along the stored direction', y, axpy(x, s, st.descent_direction))
  gy = common(c, st, n, y, f, g, A, aux, a, s, ls)
  g0, d = g(x, a), st.descent_direction
  num, den = {'polak-ribiere': (dot(sub(gy, g0), gy), dot(g0, g0)), 'fletcher-reeves': (dot(gy, gy), dot(g0, g0)),
              'hestenes-stiefel': (dot(sub(gy, g0), gy), dot(d, sub(gy, g0)))}[method]
  # the documented ratio, whenever its denominator is not tiny; never negative
  beta = jnp.where(num > 0, num, 0.0) / jnp.where(den >= 1e-6, den, 1.0)
  c.ensure_eq('direction: -g + beta d with the documented beta', n.descent_direction, axpy(scale(-1.0, gy), beta, d), when=den >= 1e-6)


@contract('P19', 'broyden', cfgs=grid(mode=['const', 'callable'], m=[1, 2], it=[0, 1, 3], aux=[False, True], lay=['arr', 'tree']),
          funcs=[S + 'broyden.Broyden.update', S + 'broyden.inv_jacobian_product'], runs=10)
def broyden(c, mode, m, it, aux, lay):
  F, A = c.fun('F', 'like0'), c.fun('aux', ())
  kw, step, _ = solver_kwargs(c, mode, None, None, None, aux)
  sol = Broyden(fun=(lambda x, a: (F(x, a), {'k': A(x, a)})) if aux else (lambda x, a: F(x, a)), has_aux=aux, history_size=m, **kw)
  x, a = tree(c, 'x', lay), c.real('a')
  st = sol.init_state(x, a)
  st = c.like('st', st)._replace(value=F(x, a), iter_num=jnp.asarray(it))
  y, n = sol.update(x, st, a)
  B = lambda v: add(scale(st.gamma, v), summed([scale(dot(pick(st.d_history, k), v), pick(st.c_history, k)) for k in range(m)]))
  s = step(st.stepsize, st.iter_num, None, None)
  c.ensure_eq('parameters: step along -B F', y, axpy(x, -s, B(F(x, a))))
  c.ensure_eq('value', n.value, F(y, a))
  c.ensure_eq('aux', n.aux, auxof(A, aux, y, a))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  c.ensure_eq('error is the residual norm', n.error, norm(F(y, a)))
  c.ensure_eq('stepsize', n.stepsize, s)


def summed(ts):
  r = ts[0]
  for t in ts[1:]:
    r = add(r, t)
  return r


@contract('P19', 'warm start from a step', cfgs=grid(solver=['LBFGS', 'LBFGSB', 'Broyden'], aux=[False, True], lay=['arr', 'tree']), fix=[{'n': 2, 'nv': 1}],
          funcs=[S + 'lbfgs.LBFGS.init_state', S + 'lbfgsb.LBFGSB.init_state', S + 'broyden.Broyden.init_state'])
def warm(c, solver, aux, lay):
  """init_state on the OptStep of an earlier run keeps what was learnt and evaluates the objective at its parameters."""
  import jaxopt
  x, y, a = tree(c, 'x', lay), tree(c, 'y', lay), c.real('a')
  if solver == 'Broyden':
    f, A = c.fun('F', 'like0'), c.fun('aux', ())
    sol, g = Broyden(fun=(lambda x, a: (f(x, a), {'k': A(x, a)})) if aux else (lambda x, a: f(x, a)), has_aux=aux, history_size=2), None
    keep = ['d_history', 'c_history', 'gamma', 'iter_num', 'stepsize']
  else:
    fun, vg, f, g, A = problem(c, 'fun', aux)
    sol = {'LBFGS': LBFGS, 'LBFGSB': jaxopt.LBFGSB}[solver](fun=fun, has_aux=aux, history_size=2)
    keep = ['s_history', 'y_history', 'iter_num', 'stepsize'] + (['rho_history', 'gamma'] if solver == 'LBFGS' else ['num_updates', 'theta'])
  extra = (None,) if solver == 'LBFGSB' else ()
  old = c.like('old', sol.init_state(x, *extra, a))
  st = sol.init_state(jaxopt.OptStep(y, old), *extra, a)
  for k in keep:
    c.ensure_eq('kept: ' + k, leaves(getattr(st, k)), leaves(getattr(old, k)))
  c.ensure_eq('value', st.value, f(y, a))
  if g is not None:
    c.ensure_eq('gradient', st.grad, g(y, a))
  c.ensure_eq('aux', st.aux, auxof(A, aux, y, a))
  c.ensure('not failed', ~st.failed_linesearch)
