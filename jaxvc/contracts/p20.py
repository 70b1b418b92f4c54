"""P20: stochastic line-search solvers.  Objective, gradient and auxiliary data uninterpreted, states arbitrary."""
from .lsearch import problem, auxof
from .common import *
from jaxopt import ArmijoSGD, PolyakSGD

S = 'jaxopt._src.'
AF = [S + 'armijo_sgd.' + n for n in ('ArmijoSGD.init_state', 'ArmijoSGD.update', 'ArmijoSGD.reset_stepsize', 'armijo_line_search', 'wolfe_cond_violated', 'curvature_cond_violated')]
PF = [S + 'polyak_sgd.PolyakSGD.init_state', S + 'polyak_sgd.PolyakSGD.update']
AGG, DEC, INC, MAXS = 0.75, 0.5, 1.5, 2.0
EPS = float(np.finfo(np.float64).eps)


def pre(c, on):
  """A pre-update hook that moves the parameters (and leaves the state alone)."""
  if not on:
    return None, lambda x, a: x
  P = c.fun('pre', 'like0')
  return (lambda x, st, a: (P(x, a), st)), P


@contract('P20', 'armijo', cfgs={**grid(option=['increase', 'conservative', 'goldstein'], maxls=[1, 2], momentum=[0.0, 0.5], flavour=['fun', 'both'], aux=[False, True], hook=[False], lay=['arr']),
                                 **grid(option=['increase', 'conservative', 'goldstein'], maxls=[2], momentum=[0.0, 0.5], flavour=['both'], aux=[True], hook=[True], lay=['tree']),
                                 **grid(option=['increase', 'conservative'], maxls=[3, 5], momentum=[0.0], flavour=['both'], aux=[False], hook=[False], lay=['arr'])},
          funcs=AF, runs=12, while_unroll=17, decide=True, timeout=20)
def armijo(c, option, maxls, momentum, flavour, aux, hook, lay):
  fun, vg, f, g, A = problem(c, flavour, aux)
  pu, P = pre(c, hook)
  sol = ArmijoSGD(fun=fun, value_and_grad=vg, has_aux=aux, aggressiveness=AGG, decrease_factor=DEC, increase_factor=INC, reset_option=option, momentum=momentum, max_stepsize=MAXS, maxls=maxls, pre_update=pu)
  x, a = tree(c, 'x', lay), c.real('a')
  st0 = sol.init_state(x, a)
  st = c.like('st', st0)._replace(**({'velocity': c.like('vel', x)} if momentum else {}))
  if not c.symbolic:
    st = st._replace(stepsize=jnp.clip(jnp.abs(st.stepsize), 1e-3, MAXS))
  c.assume('previous stepsize', (st.stepsize > 0) & (st.stepsize <= MAXS))
  y, n = sol.update(x, st, a)
  x1 = P(x, a)
  f0, g0 = f(x1, a), g(x1, a)
  q = sq(g0)
  phi = lambda s: f(axpy(x1, -s, g0), a)
  decrease = lambda s: phi(s) <= f0 - (1 - AGG) * s * q + EPS
  curvature = lambda s: phi(s) >= f0 - AGG * s * q
  s, s0 = n.stepsize, st.stepsize
  if option == 'increase':
    s0 = jnp.minimum(INC * s0, MAXS)
  c.ensure('stepsize range', (s > 0) & (s <= MAXS))
  if option != 'goldstein':
    trials = [s0 * DEC ** k for k in range(maxls + 1)]
    c.ensure('Armijo condition, or the smallest step tried', decrease(s) | (s == trials[-1]))
    # the first trial satisfying the condition: no step is refused that was acceptable
    want = trials[-1]
    for t in trials[-2::-1]:
      want = jnp.where(decrease(t), t, want)
    c.ensure_eq('largest acceptable trial', s, want)
  else:
    t, ok = s0, jnp.asarray(False)
    for _ in range(maxls):
      bad = ~decrease(t)
      u = jnp.where(bad, DEC * t, t)
      bad2 = ~curvature(u)
      t, ok = jnp.where(ok, t, jnp.where(bad2, jnp.minimum(INC * u, MAXS), u)), ok | ~(bad | bad2)
    c.ensure('Armijo and Goldstein conditions, or the trials are exhausted', (decrease(s) & curvature(s)) | ~ok)
    c.ensure_eq('documented trial sequence', s, t)
  step = axpy(x1, -s, g0)
  if momentum:
    c.ensure_eq('heavy-ball step', y, axpy(step, momentum, st.velocity))
    c.ensure_eq('velocity is the displacement', n.velocity, sub(y, x1))
  else:
    c.ensure_eq('gradient step', y, step)
    c.ensure_eq('value at the returned parameters', n.value, f(y, a))
    c.ensure('no velocity', jnp.asarray(n.velocity is None))
  c.ensure_eq('aux of the current batch', n.aux, auxof(A, aux, x1, a))
  c.ensure_eq('error', n.error, norm(g0))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)


@contract('P20', 'init', cfgs=grid(which=['armijo', 'polyak'], momentum=[0.0, 0.5], aux=[False, True], lay=['arr', 'tree']), funcs=[AF[0], PF[0]])
def init(c, which, momentum, aux, lay):
  fun, vg, f, g, A = problem(c, 'both', aux)
  kw = dict(fun=fun, value_and_grad=vg, has_aux=aux, momentum=momentum, max_stepsize=MAXS)
  sol = ArmijoSGD(**kw) if which == 'armijo' else PolyakSGD(**kw)
  x, a = tree(c, 'x', lay), c.real('a')
  st = sol.init_state(x, a)
  c.ensure_eq('aux', st.aux, auxof(A, aux, x, a))
  c.ensure('counter and stepsize', (st.iter_num == 0) & (st.stepsize > 0) & (st.stepsize <= MAXS))
  if momentum:
    c.ensure_eq('zero velocity', st.velocity, zeros(x))


@contract('P20', 'polyak', cfgs={**grid(variant=['SPS_max', 'SPS+'], delta=[0.0, 0.25], momentum=[0.0, 0.5], flavour=['fun', 'both'], aux=[False, True], hook=[False], lay=['arr']),
                                 **grid(variant=['SPS_max', 'SPS+'], delta=[0.0], momentum=[0.0, 0.5], flavour=['both'], aux=[True], hook=[True], lay=['tree'])}, funcs=PF, runs=12, timeout=20)
def polyak(c, variant, delta, momentum, flavour, aux, hook, lay):
  fun, vg, f, g, A = problem(c, flavour, aux)
  pu, P = pre(c, hook)
  fmin = -0.5
  sol = PolyakSGD(fun=fun, value_and_grad=vg, has_aux=aux, fun_min=fmin, variant=variant, delta=delta, momentum=momentum, max_stepsize=MAXS, pre_update=pu)
  x, a = tree(c, 'x', lay), c.real('a')
  st = c.like('st', sol.init_state(x, a))._replace(**({'velocity': c.like('vel', x)} if momentum else {}))
  y, n = sol.update(x, st, a)
  x1 = P(x, a)
  f0, g0 = f(x1, a), g(x1, a)
  q = sq(g0)
  s = n.stepsize
  c.sq_nonneg('gradient', g0)
  if variant == 'SPS_max':
    den = q + delta
    want = jnp.minimum((f0 - fmin) / jnp.where(den > 0, den, 1.0), MAXS)
    c.ensure_eq('documented stepsize', s, want, when=den > 0)
    c.ensure('at most the maximum', s <= MAXS)
    c.ensure('non-negative above the lower bound', s >= 0, when=f0 >= fmin)
  else:
    want = jnp.maximum(f0 - fmin, 0.0) / jnp.where(q > EPS, q, 1.0)
    c.ensure_eq('documented stepsize', s, jnp.where(q > EPS, want, 0.0))
    c.ensure('non-negative', s >= 0)
  c.ensure_finite('stepsize finite', s)
  c.ensure_finite('parameters finite', y)
  v = axpy(scale(momentum, st.velocity), -s, g0) if momentum else scale(-s, g0)
  c.ensure_eq('step', y, add(x1, v))
  if momentum:
    c.ensure_eq('velocity', n.velocity, v)
  c.ensure_eq('value of the current batch', n.value, f0)
  c.ensure_eq('aux of the current batch', n.aux, auxof(A, aux, x1, a))
  c.ensure_eq('error', n.error, norm(g0))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
