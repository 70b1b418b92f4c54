"""P02: closed-form projections are exact: feasible, and no farther than any other feasible point."""
from .common import *
from jaxopt import projection as P

F = 'jaxopt._src.projection.'
LAY = ['arr', 'tree', 'nest', 'scalar']
POS = dict(draw=lambda r, s: np.abs(r.normal(size=s)) + 0.01)


def d2(x, p):
  return tmap(lambda a, b: (a - b) ** 2, x, p)


@contract('P02', 'projection_non_negative', cfgs=grid(lay=LAY), funcs=[F + 'projection_non_negative'])
def nonneg(c, lay):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay, lo=0)
  c.assume('y feasible', tmap(lambda l: l >= 0, y))
  p = P.projection_non_negative(x)
  c.ensure_finite('finite', p)
  c.ensure('feasible', tmap(lambda l: l >= 0, p))
  c.ensure_le('closest', d2(x, p), d2(x, y))
  c.ensure_eq('hyperparams ignored', P.projection_non_negative(x, 3.0), p)


def bounds(c, how, x):
  if how == 'scalar':
    lo, hi = c.real('lo', ()), c.real('hi', ())
    c.assume('lo<=hi', lo <= hi)
    full = lambda v: tmap(lambda l: l * 0 + v, x)
    return (lo, hi), full(lo), full(hi)
  if how == 'pyfloat':
    full = lambda v: tmap(lambda l: l * 0 + v, x)
    return (-0.5, 2.0), full(-0.5), full(2.0)
  lo, hi = c.like('lo', x), c.like('hi', x)
  c.assume('lo<=hi', tmap(lambda a, b: a <= b, lo, hi))
  return (lo, hi), lo, hi


@contract('P02', 'projection_box', cfgs={**grid(lay=LAY, how=['tree']), **grid(lay=['arr', 'nest', 'tree'], how=['scalar']),
                                         **grid(lay=LAY, how=['pyfloat'])}, funcs=[F + 'projection_box'])
def box(c, lay, how):
  x, y0 = tree(c, 'x', lay), tree(c, 'y', lay)
  arg, lo, hi = bounds(c, how, x)
  y = tmap(lambda a, l, h: jnp.where(a < l, l, jnp.where(a > h, h, a)), y0, lo, hi)   # every point of the box is one of these
  p = P.projection_box(x, arg)
  c.ensure_finite('finite', p)
  c.ensure('feasible', tmap(lambda a, l, h: (l <= a) & (a <= h), p, lo, hi))
  c.ensure_le('closest', d2(x, p), d2(x, y))


@contract('P02', 'projection_box_one_sided', cfgs=grid(side=['lower', 'upper']), funcs=[F + 'projection_box'])
def box_one_sided(c, side):
  """Infinite bounds mean no bound."""
  x, y, b = c.real('x', ('n',)), c.real('y', ('n',)), c.real('b', ('n',))
  inf = jnp.full_like(b, jnp.inf)
  if side == 'lower':
    p = P.projection_box(x, (b, inf))
    ok = lambda t: t >= b
  else:
    p = P.projection_box(x, (-inf, b))
    ok = lambda t: t <= b
  c.ensure_finite('finite', p)
  c.ensure('feasible', ok(p))
  c.ensure('closest', ((x - p) ** 2 <= (x - y) ** 2) | ~ok(y))


@contract('P02', 'projection_hypercube', cfgs=grid(lay=LAY, how=['default', 'given']), funcs=[F + 'projection_hypercube'])
def hypercube(c, lay, how):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay)
  unit = 1.0
  if how == 'given':
    unit = c.real('unit', (), **POS)
    c.assume('unit>=0', unit >= 0)
  p = P.projection_hypercube(x, unit) if how == 'given' else P.projection_hypercube(x)
  c.ensure('feasible', tmap(lambda a: (0 <= a) & (a <= unit), p))
  c.ensure('closest', tmap(lambda a, b, z: ((a - b) ** 2 <= (a - z) ** 2) | (z < 0) | (z > unit), x, p, y))


@contract('P02', 'projection_linf_ball', cfgs=grid(lay=LAY, how=['default', 'given']), funcs=[F + 'projection_linf_ball'])
def linf(c, lay, how):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay)
  r = 1.0
  if how == 'given':
    r = c.real('radius', (), **POS)
    c.assume('radius>=0', r >= 0)
  p = P.projection_linf_ball(x, r) if how == 'given' else P.projection_linf_ball(x)
  c.ensure('feasible', tmap(lambda a: jnp.abs(a) <= r, p))
  c.ensure('closest', tmap(lambda a, b, z: ((a - b) ** 2 <= (a - z) ** 2) | (jnp.abs(z) > r), x, p, y))


@contract('P02', 'projection_l2_ball', cfgs=grid(lay=['arr', 'tree', 'scalar'], how=['default', 'given']), funcs=[F + 'projection_l2_ball'], cost=10)
def l2ball(c, lay, how):
  x, y0 = tree(c, 'x', lay), tree(c, 'y', lay)
  r = 1.0
  if how == 'given':
    r = c.real('radius', (), **POS)
    c.assume('radius>0', r > 0)
  # every point of the ball is y0 or (when y0 lies outside) some other y0: restrict by the guard
  inball = sq(y0) <= r * r
  p = P.projection_l2_ball(x, r) if how == 'given' else P.projection_l2_ball(x)
  c.cauchy_schwarz('xy', x, y0)
  c.ensure_finite('finite', p)
  c.ensure_le('feasible', sq(p), r * r)
  c.ensure_le('closest', sq(sub(x, p)), sq(sub(x, y0)), when=inball)
  c.ensure_eq('identity inside', p, x, when=sq(x) <= r * r)


@contract('P02', 'projection_l2_sphere', cfgs=grid(lay=['arr', 'tree', 'scalar'], how=['default', 'given']), funcs=[F + 'projection_l2_sphere'], cost=10)
def l2sphere(c, lay, how):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay)
  c.assume('x nonzero', sq(x) > 0)
  r = 1.0
  if how == 'given':
    r = c.real('radius', (), **POS)
    c.assume('radius>=0', r >= 0)
  p = P.projection_l2_sphere(x, r) if how == 'given' else P.projection_l2_sphere(x)
  c.cauchy_schwarz('xy', x, y)
  c.ensure_finite('finite', p)
  c.ensure_eq('feasible', sq(p), r * r)
  c.ensure('closest', (sq(sub(x, p)) <= sq(sub(x, y))) | (sq(y) != r * r))


@contract('P02', 'projection_hyperplane', cfgs=grid(lay=['arr', 'tree', 'scalar']), funcs=[F + 'projection_hyperplane'])
def hyperplane(c, lay):
  x, y, a = tree(c, 'x', lay), tree(c, 'y', lay), tree(c, 'a', lay)
  b = c.real('b')
  c.assume('a nonzero', sq(a) > 0)
  p = P.projection_hyperplane(x, (a, b))
  c.ensure_finite('finite', p)
  c.ensure_eq('feasible', dot(a, p), b)
  c.sq_nonneg('p-y', sub(p, y))
  c.ensure('closest', (sq(sub(x, p)) <= sq(sub(x, y))) | (dot(a, y) != b))


@contract('P02', 'projection_halfspace', cfgs=grid(lay=['arr', 'tree', 'scalar']), funcs=[F + 'projection_halfspace'])
def halfspace(c, lay):
  x, y, a = tree(c, 'x', lay), tree(c, 'y', lay), tree(c, 'a', lay)
  b = c.real('b')
  c.assume('a nonzero', sq(a) > 0)
  p = P.projection_halfspace(x, (a, b))
  c.ensure_finite('finite', p)
  c.ensure_le('feasible', dot(a, p), b)
  c.sq_nonneg('p-y', sub(p, y))
  c.ensure('closest', (sq(sub(x, p)) <= sq(sub(x, y))) | (dot(a, y) > b))


@contract('P02', 'projection_halfspace_inside', cfgs=grid(lay=['arr', 'tree']), funcs=[F + 'projection_halfspace'])
def halfspace_inside(c, lay):
  x, a = tree(c, 'x', lay), tree(c, 'a', lay)
  b = c.real('b')
  c.assume('a nonzero', sq(a) > 0)
  c.assume('x feasible', dot(a, x) <= b)
  c.ensure_eq('identity', P.projection_halfspace(x, (a, b)), x)
