"""P30: wrapped optimisers receive and return data unchanged.

External optimisers (Optax transformations, SciPy drivers) are taken by contract: they are arbitrary functions, and the
contracts fix everything that crosses the boundary. NumPy calls in the SciPy bridge are read as the jax.numpy functions of
the same name, so that the bridge can be traced with symbolic values."""
import types
from .common import *
from .p09 import objective, FLAV
from jaxopt import base, OptaxSolver, ScipyMinimize, ScipyBoundedMinimize, ScipyRootFinding, ScipyLeastSquares, ScipyBoundedLeastSquares
import jaxopt._src.scipy_wrappers as SW

S = 'jaxopt._src.'
OX = [S + 'optax_wrapper.OptaxSolver.' + n for n in ('init_state', '_apply_updates', 'update', '__post_init__')]
SC = [S + 'scipy_wrappers.' + n for n in ('jnp_to_onp', 'make_onp_to_jnp', 'pytree_topology_from_example', 'PyTreeTopology.sizes')]


@contract('P30', 'optax/update', cfgs=grid(**FLAV, lay=['arr', 'tree'], pre=[False, True]), funcs=OX, runs=8)
def optax_update(c, vg, has_aux, lay, pre):
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  x, a, k = tree(c, 'x', lay), c.real('a', ('m',)), c.real('key')
  D, NS, I, PX, PS = c.fun('delta', 'like0'), c.fun('next', 'like0'), c.fun('init', 'like0'), c.fun('prex', 'like0'), c.fun('pres', 'like0')
  opt = types.SimpleNamespace(init=lambda p: I(p), update=lambda g, st, p=None, **kw: (D(g, st, p), NS(st, g, p)))

  def hook(p, st, *args, **kw):
    c.ensure_eq('hook arguments', (args[0], kw['key']), (a, k))
    return PX(p, st.internal_state), st._replace(internal_state=PS(st.internal_state, p), iter_num=st.iter_num + 2)
  s = OptaxSolver(fun=fun, opt=opt, value_and_grad=flag, has_aux=has_aux, pre_update=hook if pre else None, jit=False)
  st0 = s.init_state(x, a, key=k)
  c.ensure_eq('initial internal state', st0.internal_state, I(x))
  c.ensure('counter starts at zero', jnp.asarray(st0.iter_num == 0))
  c.ensure('first iteration runs', jnp.asarray(st0.error == jnp.inf))
  if has_aux:
    c.ensure_eq('initial aux', st0.aux, aux(x, a, k))
  st = st0._replace(internal_state=tree(c, 'inner', lay), iter_num=c.int('it'), error=c.real('err'), value=c.real('val'))
  p, n = s.update(x, st, a, key=k)
  q, inner, it = x, st.internal_state, st.iter_num
  if pre:
    q, inner, it = PX(x, inner), PS(inner, x), it + 2
  g = grad(q, a, k)
  c.ensure_eq('parameters', p, add(q, D(g, inner, q)))
  c.ensure_eq('internal state', n.internal_state, NS(inner, g, q))
  c.ensure_eq('counter', n.iter_num, it + 1)
  c.ensure_eq('value', n.value, val(q, a, k))
  c.ensure_eq('error', n.error, norm(g))
  if has_aux:
    c.ensure_eq('aux', n.aux, aux(q, a, k))


# ------------------------------------------------------------------------------------------------ SciPy bridge
class Bridge:
  """numpy as seen by the bridge: jax.numpy on values, numpy on sizes."""
  float64, float32, inf, ndarray = np.float64, np.float32, np.inf, np.ndarray
  cumsum, prod = staticmethod(np.cumsum), staticmethod(np.prod)

  def __getattr__(self, name):
    return getattr(jnp, name)


LAYS = ['arr', 'scalar', 'list', 'dict', 'nested']
DIMS = [{'n': 2, 'm': 1}, {'n': 1, 'm': 3}]


def layout(c, name, lay):
  r = lambda k, *s: c.real(name + k, s)
  return {'arr': lambda: r('', 'n'), 'scalar': lambda: r(''), 'list': lambda: [r('0', 'n'), r('1')],
          'dict': lambda: {'w': r('w', 'n', 'm'), 'b': r('b', 'm')}, 'nested': lambda: ({'z': r('z', 'm', 'n'), 'a': r('a')}, [r('l', 'n')])}[lay]()


def flat(t):
  return jnp.concatenate([jnp.reshape(v, (-1,)) for v in leaves(t)])


def unflat(v, like):
  out, i = [], 0
  for l in leaves(like):
    n = int(np.prod(l.shape))
    out.append(jnp.reshape(v[i:i + n], l.shape))
    i += n
  return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(like), out)


def vec(c, name, like):
  n = sum(int(np.prod(l.shape)) for l in leaves(like))
  return c.real(name, (n,))


def same_structure(c, name, a, b):
  st = jax.tree_util.tree_structure
  c.ensure(name, jnp.asarray(st(a) == st(b) and all(jnp.shape(u) == jnp.shape(v) for u, v in zip(leaves(a), leaves(b)))))


@contract('P30', 'scipy/minimize', cfgs={**grid(lay=LAYS, bnd=['none', 'box'], has_aux=[False], vg=['auto']), **grid(lay=['dict'], bnd=['absent'], **FLAV)}, fix=DIMS, runs=4,
          funcs=SC + [S + 'scipy_wrappers.' + n for n in ('ScipyMinimize._run', 'ScipyMinimize.run', 'ScipyBoundedMinimize.run', 'ScipyMinimize.__post_init__')])
def minimize(c, lay, bnd, vg, has_aux):
  if c.symbolic:
    c.patch(SW, 'onp', Bridge())
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  x0, a, k = layout(c, 'x', lay), c.real('a', ('m',)), c.real('key')
  v, xs, lo, hi = vec(c, 'v', x0), vec(c, 'xs', x0), layout(c, 'lo', lay), layout(c, 'hi', lay)
  seen = []
  res = types.SimpleNamespace(x=xs, fun=c.real('fval'), success=c.bool('ok'), status=c.int('status'), nit=c.int('nit'), nfev=c.int('nfev'), njev=c.int('njev'))
  if not c.symbolic:
    res.x = np.asarray(res.x)

  def driver(f, x, args=(), method=None, jac=None, tol=None, bounds=None, callback=None, options=None, **kw):
    conv = (lambda t: t) if c.symbolic else np.asarray
    c.ensure_eq('start', x, flat(x0))
    y, g = f(conv(v))
    p = unflat(v, x0)
    c.ensure_eq('value', y, val(p, a, k))
    c.ensure_eq('gradient', g, flat(grad(p, a, k)))
    c.ensure('options', jnp.asarray(jac is True and method == 'SLSQP' and tol == 0.5 and options == {'ftol': 0.25, 'maxiter': 9} and not kw and args == ()))
    c.ensure('bounds given', jnp.asarray((bounds is not None) == (bnd == 'box')))
    if bnd == 'box':
      c.ensure_eq('lower bounds', bounds.lb, flat(lo))
      c.ensure_eq('upper bounds', bounds.ub, flat(hi))
    callback(conv(v))
    return res
  c.patch(SW.osp.optimize, 'minimize', driver, always=True)
  c.patch(SW.osp.optimize, 'Bounds', lambda lb, ub, **kw: types.SimpleNamespace(lb=lb, ub=ub), always=True)
  kw = dict(fun=fun, value_and_grad=flag, has_aux=has_aux, method='SLSQP', tol=0.5, options={'ftol': 0.25}, maxiter=9, callback=seen.append, jit=False)
  if bnd == 'absent':
    p, info = ScipyMinimize.run(ScipyMinimize(**kw), x0, a, key=k)
  else:
    p, info = ScipyBoundedMinimize.run(ScipyBoundedMinimize(**kw), x0, (lo, hi) if bnd == 'box' else None, a, key=k)
  same_structure(c, 'structure of the solution', p, x0)
  c.ensure_eq('solution', p, unflat(xs, x0))
  c.ensure('one call of the callback', jnp.asarray(len(seen) == 1))
  same_structure(c, 'structure seen by the callback', seen[0], x0)
  c.ensure_eq('point seen by the callback', seen[0], unflat(v, x0))
  c.ensure_eq('statistics', (info.fun_val, info.success, info.status, info.iter_num, info.num_fun_eval, info.num_jac_eval, info.num_hess_eval),
              (res.fun, res.success, res.status, res.nit, res.nfev, res.njev, jnp.asarray(0)))


@contract('P30', 'scipy/root', cfgs=grid(lay=LAYS, has_aux=[False, True], rev=[True, False]), fix=DIMS, runs=4,
          funcs=SC + [S + 'scipy_wrappers.' + n for n in ('make_jac_jnp_to_onp', 'ScipyRootFinding.run', 'ScipyRootFinding.__post_init__')])
def root(c, lay, has_aux, rev):
  if c.symbolic:
    c.patch(SW, 'onp', Bridge())
  F = c.fun('F', 'like0')
  x0, a, k = layout(c, 'x', lay), c.real('a', ('m',)), c.real('key')
  v, d, xs = vec(c, 'v', x0), vec(c, 'd', x0), vec(c, 'xs', x0)
  res = types.SimpleNamespace(x=xs if c.symbolic else np.asarray(xs), fun=vec(c, 'fval', x0), success=c.bool('ok'), status=c.int('status'), nit=c.int('nit'), nfev=c.int('nfev'))

  def driver(f, x, args=(), method='hybr', jac=None, tol=None, callback=None, options=None):
    c.ensure_eq('start', x, flat(x0))
    y, J = f(v if c.symbolic else np.asarray(v), *args)
    p = unflat(v, x0)
    val, tan = jax.jvp(lambda p: F(p, a, k), (p,), (unflat(d, x0),))
    c.ensure_eq('residual', y, flat(val))
    c.ensure_eq('Jacobian', jnp.asarray(J) @ d, flat(tan))
    c.ensure('options', jnp.asarray(jac is True and method == 'lm' and tol == 0.5 and options == {'xtol': 0.25} and callback is None))
    return res
  c.patch(SW.osp.optimize, 'root', driver, always=True)
  fun = (lambda x, a, key: (F(x, a, key), jnp.sum(a))) if has_aux else (lambda x, a, key: F(x, a, key))
  s = ScipyRootFinding(optimality_fun=fun, has_aux=has_aux, use_jacrev=rev, method='lm', tol=0.5, options={'xtol': 0.25}, jit=False)
  p, info = ScipyRootFinding.run(s, x0, a, key=k)
  same_structure(c, 'structure of the solution', p, x0)
  c.ensure_eq('solution', p, unflat(xs, x0))
  c.ensure_eq('statistics', (info.fun_val, info.success, info.status, info.iter_num, info.num_fun_eval), (res.fun, res.success, res.status, res.nit, res.nfev))


@contract('P30', 'scipy/least squares', cfgs={**grid(lay=LAYS, bnd=['box'], has_aux=[False], rev=[True], loss=['linear']), **grid(lay=['dict'], bnd=['none', 'absent'], has_aux=[False, True], rev=[True, False], loss=['huber'])}, fix=DIMS, runs=4,
          funcs=SC + [S + 'scipy_wrappers.' + n for n in ('make_jac_jnp_to_onp', 'ScipyLeastSquares._run', 'ScipyLeastSquares.run', 'ScipyBoundedLeastSquares.run', 'ScipyLeastSquares.__post_init__')])
def least_squares(c, lay, bnd, has_aux, rev, loss):
  if c.symbolic:
    c.patch(SW, 'onp', Bridge())
  F = c.fun('F', ('m',))
  x0, a, k = layout(c, 'x', lay), c.real('a', ('m',)), c.real('key')
  v, d, xs, lo, hi = vec(c, 'v', x0), vec(c, 'd', x0), vec(c, 'xs', x0), layout(c, 'lo', lay), layout(c, 'hi', lay)
  G = lambda x: F(x, a, k)
  res = types.SimpleNamespace(x=xs if c.symbolic else np.asarray(xs), fun=c.real('fval', ('m',)), cost=c.real('cost'), optimality=c.real('opt'), success=c.bool('ok'), status=c.int('status'), njev=c.int('njev'), nfev=c.int('nfev'))

  def driver(f, x, jac=None, bounds=None, method=None, loss=None, **kw):
    w = v if c.symbolic else np.asarray(v)
    c.ensure_eq('start', x, flat(x0))
    p = unflat(v, x0)
    val, tan = jax.jvp(G, (p,), (unflat(d, x0),))
    c.ensure_eq('residuals', f(w), val)
    c.ensure_eq('Jacobian', jnp.asarray(jac(w)) @ d, tan)
    c.ensure('options', jnp.asarray(method == 'dogbox' and loss == want and kw == {**SW.LS_DEFAULT_OPTIONS, 'f_scale': 2.0, 'max_nfev': 9}))
    if bnd == 'box':
      c.ensure_eq('lower bounds', bounds[0], flat(lo))
      c.ensure_eq('upper bounds', bounds[1], flat(hi))
    else:
      c.ensure('no bounds', jnp.asarray(tuple(bounds) == (-np.inf, np.inf)))
    return res
  want = loss
  c.patch(SW.osp.optimize, 'least_squares', driver, always=True)
  fun = (lambda x, a, key: (F(x, a, key), jnp.sum(a))) if has_aux else (lambda x, a, key: F(x, a, key))
  kw = dict(fun=fun, has_aux=has_aux, use_jacrev=rev, method='dogbox', loss=loss, options={'f_scale': 2.0, 'max_nfev': 9}, jit=False)
  if bnd == 'absent':
    p, info = ScipyLeastSquares.run(ScipyLeastSquares(**kw), x0, a, key=k)
  else:
    p, info = ScipyBoundedLeastSquares.run(ScipyBoundedLeastSquares(**kw), x0, (lo, hi) if bnd == 'box' else None, a, key=k)
  same_structure(c, 'structure of the solution', p, x0)
  c.ensure_eq('solution', p, unflat(xs, x0))
  c.ensure_eq('statistics', (info.cost_val, info.fun_val, info.success, info.status, info.num_fun_eval, info.num_jac_eval, info.error),
              (res.cost, res.fun, res.success, res.status, res.nfev, res.njev, res.optimality))


@contract('P30', 'caller\'s dictionaries', runs=1)
def dictionaries(c):
  """Constructing a solver neither changes the caller's option dictionary nor the module's defaults."""
  o, f = {'gtol': 0.5}, lambda x: jnp.sum(x)
  for _ in range(2):
    s = ScipyMinimize(fun=f, options=o, maxiter=7)
  c.ensure('minimize', jnp.asarray(o == {'gtol': 0.5} and s.options == {'gtol': 0.5, 'maxiter': 7}))
  o, before = {'x_scale': [1.0, 2.0]}, dict(SW.LS_DEFAULT_OPTIONS)
  for _ in range(2):
    s = ScipyLeastSquares(fun=lambda x: x, options=o)
  c.ensure('least squares', jnp.asarray(o == {'x_scale': [1.0, 2.0]}))
  s = ScipyLeastSquares(fun=lambda x: x)
  s.options['ftol'] = 0.5
  c.ensure('defaults', jnp.asarray(SW.LS_DEFAULT_OPTIONS == before))
  SW.LS_DEFAULT_OPTIONS.update(before)
