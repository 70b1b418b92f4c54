"""P01: proximal operators are exact minimisers of their documented objectives."""
from .common import *
from jaxopt import prox

F = 'jaxopt._src.prox.'
NN = dict(draw=lambda r, s: np.abs(r.normal(size=s)) * (r.random() > 0.2))


def strengths(c, how, x, name='lam'):
  """(argument given to the operator, per-leaf value) for each documented way of giving a strength."""
  if how == 'default':
    return None, tmap(lambda l: 1.0, x)
  if how == 'pyfloat':
    return 0.7, tmap(lambda l: 0.7, x)
  if how == 'pyint':
    return 2, tmap(lambda l: 2.0, x)
  if how == 'scalar':
    v = c.real(name, (), **NN)
    c.assume(name + '>=0', v >= 0)
    return v, tmap(lambda l: v, x)
  v = c.like(name, x, lo=0)
  c.assume(name + '>=0', tmap(lambda l: l >= 0, v))
  return v, v


def scaling(c, how):
  if how == 'default':
    return (), 1.0
  s = c.real('scaling', (), **NN)
  c.assume('scaling>=0', s >= 0)
  return (s,), s


LAY = ['arr', 'tree', 'nest', 'scalar']


@contract('P01', 'prox_none', cfgs=grid(lay=['arr', 'tree']), funcs=[F + 'prox_none'])
def none(c, lay):
  x = tree(c, 'x', lay)
  c.ensure_eq('identity', prox.prox_none(x, None, 2.5), x)
  c.ensure_eq('identity/default', prox.prox_none(x), x)


@contract('P01', 'prox_lasso', cfgs=grid(lay=LAY, how=['default', 'pyfloat', 'pyint', 'scalar', 'tree'], sc=['default', 'given']), funcs=[F + 'prox_lasso'])
def lasso(c, lay, how, sc):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay)
  arg, lam = strengths(c, how, x)
  s_args, s = scaling(c, sc)
  p = prox.prox_lasso(x, arg, *s_args)
  c.ensure_finite('finite', p)
  obj = lambda t: tmap(lambda xx, tt, l: 0.5 * (xx - tt) ** 2 + s * l * jnp.abs(tt), x, t, lam)
  c.ensure_le('minimises', obj(p), obj(y))


@contract('P01', 'prox_non_negative_lasso', cfgs=grid(lay=LAY, how=['default', 'scalar'], sc=['default', 'given']),
          funcs=[F + 'prox_non_negative_lasso'])
def nnlasso(c, lay, how, sc):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay, lo=0)
  c.assume('y>=0', tmap(lambda l: l >= 0, y))
  arg, lam = strengths(c, how, x)
  s_args, s = scaling(c, sc)
  p = prox.prox_non_negative_lasso(x, arg, *s_args)
  c.ensure_finite('finite', p)
  c.ensure('feasible', tmap(lambda l: l >= 0, p))
  obj = lambda t: tmap(lambda xx, tt, l: 0.5 * (xx - tt) ** 2 + s * l * jnp.abs(tt), x, t, lam)
  c.ensure_le('minimises', obj(p), obj(y))


@contract('P01', 'prox_elastic_net', cfgs=grid(lay=LAY, how=['default', 'pyfloat', 'tree', 'pyint', 'scalar', 'mixed'], sc=['default', 'given']),
          funcs=[F + 'prox_elastic_net'])
def elastic(c, lay, how, sc):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay)
  if how == 'mixed':
    (a1, lam), (a2, gam) = strengths(c, 'pyfloat', x), strengths(c, 'tree', x, 'gam')
  else:
    (a1, lam), (a2, gam) = strengths(c, how, x), strengths(c, how, x, 'gam')
  s_args, s = scaling(c, sc)
  p = prox.prox_elastic_net(x, None if how == 'default' else (a1, a2), *s_args)
  c.ensure_finite('finite', p)
  obj = lambda t: tmap(lambda xx, tt, l, g: 0.5 * (xx - tt) ** 2 + s * l * (jnp.abs(tt) + g * 0.5 * tt * tt), x, t, lam, gam)
  c.ensure_le('minimises', obj(p), obj(y))


@contract('P01', 'prox_group_lasso', cfgs=grid(lay=['arr', 'tree', 'scalar'], how=['default', 'scalar'], sc=['default', 'given']),
          funcs=[F + 'prox_group_lasso'], cost=10)
def glasso(c, lay, how, sc):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay)
  arg = None
  lam = 1.0
  if how == 'scalar':
    arg = lam = c.real('lam', (), **NN)
    c.assume('lam>=0', lam >= 0)
  s_args, s = scaling(c, sc)
  p = prox.prox_group_lasso(x, arg, *s_args)
  c.cauchy_schwarz('xy', x, y)
  # at the zero vector the minimiser is zero (the operator divides by the norm there)
  c.ensure_finite('finite', p)
  obj = lambda t: 0.5 * sq(sub(x, t)) + s * lam * norm(t)
  n, m, t = norm(x), norm(y), s * lam
  best = jnp.where(n > t, t * n - 0.5 * t * t, 0.5 * n * n)
  c.lemma('value at the result', eq=(obj(p), best))
  c.lemma('value elsewhere', le=(0.5 * (n - m) ** 2 + t * m, obj(y)))
  c.ensure_le('minimises', obj(p), obj(y))


@contract('P01', 'prox_ridge', cfgs=grid(lay=LAY, how=['default', 'scalar'], sc=['default', 'given']), funcs=[F + 'prox_ridge'])
def ridge(c, lay, how, sc):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay)
  arg, lam = strengths(c, how, x)
  s_args, s = scaling(c, sc)
  p = prox.prox_ridge(x, arg, *s_args)
  c.ensure_finite('finite', p)
  obj = lambda t: tmap(lambda xx, tt, l: 0.5 * (xx - tt) ** 2 + s * l * 0.5 * tt ** 2, x, t, lam)
  c.ensure_le('minimises', obj(p), obj(y))


@contract('P01', 'prox_non_negative_ridge', cfgs=grid(lay=LAY, how=['default', 'scalar'], sc=['default', 'given']),
          funcs=[F + 'prox_non_negative_ridge'])
def nnridge(c, lay, how, sc):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay, lo=0)
  c.assume('y>=0', tmap(lambda l: l >= 0, y))
  arg, lam = strengths(c, how, x)
  s_args, s = scaling(c, sc)
  p = prox.prox_non_negative_ridge(x, arg, *s_args)
  c.ensure_finite('finite', p)
  c.ensure('feasible', tmap(lambda l: l >= 0, p))
  obj = lambda t: tmap(lambda xx, tt, l: 0.5 * (xx - tt) ** 2 + s * l * 0.5 * tt ** 2, x, t, lam)
  c.ensure_le('minimises', obj(p), obj(y))


@contract('P01', 'make_prox_from_projection', cfgs=grid(lay=['arr', 'tree']), funcs=[F + 'make_prox_from_projection'])
def from_projection(c, lay):
  x = tree(c, 'x', lay)
  h = c.real('h', (3,))
  s = c.real('scaling')
  proj = c.fun('proj', 'like0')
  op = prox.make_prox_from_projection(proj)
  c.ensure_eq('projection', op(x, h, s), proj(x, h))
  c.ensure_eq('projection/default', op(x, hyperparams=h), proj(x, h))
