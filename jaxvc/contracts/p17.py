"""P17: proximal, projected, plain and mirror gradient steps.

The objective (value, gradient) and the proximal/projection operator are uninterpreted; states are arbitrary."""
from .common import *
import jaxopt
from jaxopt import MirrorDescent

F = 'jaxopt._src.'
PGF = [F + 'proximal_gradient.ProximalGradient.' + n for n in ('init_state', 'update', '_update', '_update_accel', '_iter', '_prox_grad', '_error')] + [F + 'proximal_gradient.fista_line_search']
EPS = float(np.finfo(np.float64).eps)


def make(c, which, **kw):
  """(solver, operator(x, hyper, scale), hyper, objective value, gradient, extra positional arguments)"""
  f, g, PR = c.fun('f', ()), c.fun('g', 'like0'), c.fun('prox', 'like0')
  val = lambda x, a: f(x, a)
  both = lambda x, a: (f(x, a), g(x, a))
  kw = dict(fun=both, value_and_grad=True, jit=True, **kw)
  a = c.real('a', ('m',))
  if which == 'prox':
    h = c.real('hyper')
    return jaxopt.ProximalGradient(prox=lambda x, h, s=1.0: PR(x, h, s), **kw), (lambda x, s: PR(x, h, s)), val, g, (h, a), a
  if which == 'proj':
    h = c.real('hyper')
    return jaxopt.ProjectedGradient(projection=lambda x, h: PR(x, h), **kw), (lambda x, s: PR(x, h)), val, g, (h, a), a
  return jaxopt.GradientDescent(**kw), (lambda x, s: x), val, g, (a,), a


def state(c, s, x, args):
  st = s.init_state(x, *args)
  return c.like('st', st)._replace(**({'velocity': c.like('vel', x)} if st.velocity is not None else {}))


def momentum(c, st, n, x, p, acc):
  if acc:
    c.ensure_eq('t', n.t, (1 + jnp.sqrt(1 + 4 * st.t ** 2)) / 2)
    c.ensure_eq('velocity', n.velocity, axpy(p, (st.t - 1) / n.t, sub(p, x)))


@contract('P17', 'fixed stepsize', cfgs=grid(which=['prox', 'proj', 'plain'], acc=[True, False], step=['const', 'schedule'], lay=['arr', 'tree']), funcs=PGF, runs=15)
def fixed(c, which, acc, step, lay):
  if step == 'const':
    s = c.real('stepsize', (), lo=0.01, hi=2)
    # a symbolic constant stepsize: the solver only compares it with zero, so give it through the schedule of iteration 0
    sched = 0.75
    eta = lambda t: 0.75
  else:
    S = c.fun('schedule', ())
    sched = lambda t: 0.1 + S(t) ** 2
    eta = sched
  slv, op, val, g, args, a = make(c, which, acceleration=acc, stepsize=sched)
  x = tree(c, 'x', lay)
  st = state(c, slv, x, args)
  c.assume('t>=1', st.t >= 1)
  p, n = slv.update(x, st, *args)
  y = st.velocity if acc else x
  e = eta(st.iter_num)
  c.ensure_eq('params', p, op(axpy(y, -e, g(y, a)), e))
  c.ensure_eq('stepsize', n.stepsize, jnp.asarray(e))
  c.sq_nonneg('displacement', sub(p, x))
  c.ensure_eq('error', n.error * n.stepsize, norm(sub(p, x)))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  momentum(c, st, n, x, p, acc)


@contract('P17', 'line search', cfgs=grid(which=['prox', 'proj', 'plain'], acc=[True, False], maxls=[0, 1, 2, 3]), funcs=PGF, while_unroll=5, runs=15)
def search(c, which, acc, maxls):
  """The trial steps are stepsize * decrease_factor^k; the first one satisfying
       f(x+) <= f(y) + <grad f(y), x+ - y> + |x+ - y|^2 / (2 s)      (up to rounding / s)
  is taken, the last one when none does."""
  slv, op, val, g, args, a = make(c, which, acceleration=acc, maxls=maxls, decrease_factor=0.7)
  x = c.real('x', ('n',))
  st = state(c, slv, x, args)
  c.assume('t>=1', st.t >= 1)
  c.assume('stepsize>0', st.stepsize > 0)
  p, n = slv.update(x, st, *args)
  y = st.velocity if acc else x
  gy, fy = g(y, a), val(y, a)
  cand = []
  for k in range(maxls + 1):
    s = st.stepsize
    for _ in range(k):
      s = s * 0.7
    xk = op(axpy(y, -s, gy), s)
    d = sub(xk, y)
    ok = s * (val(xk, a) - fy) <= s * dot(d, gy) + 0.5 * sq(d) + EPS
    cand.append((ok, xk, s))
  _, px, ps = cand[-1]
  for ok, xk, s in reversed(cand[:-1]):
    px, ps = tmap(lambda u, v: jnp.where(ok, u, v), xk, px), jnp.where(ok, s, ps)
  c.ensure_eq('params', p, px)
  c.ensure_eq('next stepsize', n.stepsize, jnp.where(ps <= 1e-6, 1.0, ps / 0.7))
  c.sq_nonneg('displacement', sub(p, x))
  c.ensure_eq('error', n.error * n.stepsize, norm(sub(p, x)))
  momentum(c, st, n, x, p, acc)


@contract('P17', 'line search/any length', cfgs=grid(which=['prox', 'plain'], acc=[False, True]), funcs=PGF, runs=15)
def search_any(c, which, acc):
  """Default iteration limit, any number of trials: the new point is a prox-gradient step with a positive step."""
  slv, op, val, g, args, a = make(c, which, acceleration=acc)
  x = c.real('x', ('n',))
  st = state(c, slv, x, args)
  c.assume('t>=1', st.t >= 1)
  c.assume('stepsize>0', st.stepsize > 0)
  p, n = slv.update(x, st, *args)
  c.ensure('positive stepsize', n.stepsize > 0)
  c.sq_nonneg('displacement', sub(p, x))
  c.ensure_eq('error', n.error * n.stepsize, norm(sub(p, x)))
  momentum(c, st, n, x, p, acc)


@contract('P17', 'init', cfgs=grid(which=['prox', 'proj', 'plain'], acc=[True, False]), funcs=PGF)
def init(c, which, acc):
  slv, op, val, g, args, a = make(c, which, acceleration=acc)
  x = c.real('x', ('n',))
  st = slv.init_state(x, *args)
  c.ensure_eq('t', st.t, jnp.asarray(1.0))
  c.ensure_eq('counter', st.iter_num, jnp.asarray(0))
  c.ensure('first iteration runs', st.error == jnp.inf)
  if acc:
    c.ensure_eq('extrapolated point', st.velocity, x)


@contract('P17', 'mirror descent', cfgs=grid(step=['const', 'schedule'], how=['given', 'made'], aux=[False, True], lay=['arr', 'tree']),
          funcs=[F + 'mirror_descent.MirrorDescent.' + n for n in ('update', '_update', '_error', '_stepsize', 'make_projection_grad')], runs=15)
def mirror(c, step, how, aux, lay):
  f, PR, M, A = c.fun('f', ()), c.fun('proj', 'like0'), c.fun('mirror', 'like0'), c.fun('aux', ())
  fun = (lambda x, a: (f(x, a), A(x, a))) if aux else (lambda x, a: f(x, a))
  if step == 'const':
    sched, eta = 0.75, lambda t: 0.75
  else:
    S = c.fun('schedule', ())
    sched = eta = lambda t: 0.1 + S(t) ** 2
  if how == 'made':
    pg = MirrorDescent.make_projection_grad(lambda y, h: PR(y, h), lambda x: M(x))
    ref = lambda x, g, s, h: PR(axpy(M(x), -s, g), h)
  else:
    pg = ref = lambda x, g, s, h: PR(x, g, s, h)
  slv = MirrorDescent(fun=fun, projection_grad=pg, stepsize=sched, has_aux=aux)
  x, a, h = tree(c, 'x', lay), c.real('a', ('m',)), c.real('h')
  st = c.like('st', slv.init_state(x, h, a))
  p, n = slv.update(x, st, h, a)
  e = eta(st.iter_num)
  g = jax.grad(lambda x: f(x, a))(x)
  c.ensure_eq('params', p, ref(x, g, e, h))
  c.sq_nonneg('displacement', sub(p, x))
  c.ensure_eq('error', n.error * e, norm(sub(p, x)))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  c.ensure_eq('aux', n.aux, A(x, a) if aux else None)
