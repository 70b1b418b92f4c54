"""P03: simplex, l1 and box-section projections.

Optimality is stated by the (necessary and sufficient) first-order certificate of each convex problem, e.g. for the simplex
    p >= 0, sum p = v, and p_j > 0  implies  x_i - p_i <= x_j - p_j  for all i, j."""
from .common import *
from jaxopt import projection as P

F = 'jaxopt._src.projection.'
POS = dict(draw=lambda r, s: np.abs(r.normal(size=s)) + 0.05)


def xdraw(r, s):
  x = r.normal(size=s) * np.exp(r.uniform(-1, 1))
  k = r.integers(0, 5)
  if k == 0:
    x = np.round(x)          # ties, zeros
  elif k == 1:
    x = np.where(r.random(s) < .5, 0., x)
  elif k == 2:
    x = x * 0 + x.flat[0]
  elif k == 3:
    x = x * 0.1
  return x


def radius(c, how):
  if how == 'default':
    return (), 1.0
  if how == 'none':                       # what a solver passes when it is given no hyperparameters
    return (None,), 1.0
  v = c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  return (v,), v


def simplex_certificate(c, x, p, v, pre='', when=None):
  c.ensure(pre + 'non-negative', p >= 0)
  c.ensure_eq(pre + 'sum', jnp.sum(p), v * jnp.ones(()))
  n = x.shape[0]
  r = x - p
  for j in range(n):
    for i in range(n):
      if i != j:
        c.ensure(pre + 'optimal[%d,%d]' % (i, j), (p[j] <= 0) | (r[i] <= r[j] + (0 if c.symbolic else 1e-9)))


SZ = [{'n': 1}, {'n': 2}, {'n': 3}]


@contract('P03', 'projection_simplex', cfgs=grid(how=['default', 'none', 'given']), fix=SZ, fix_thorough=[{'n': 4}], funcs=[F + 'projection_simplex', F + '_projection_unit_simplex'])
def simplex(c, how):
  x = c.real('x', ('n',), draw=xdraw)
  args, v = radius(c, how)
  p = P.projection_simplex(x, *args)
  c.ensure_finite('finite', p)
  simplex_certificate(c, x, p, v)


@contract('P03', 'projection_l1_sphere', cfgs=grid(how=['default', 'given']), fix=SZ, fix_thorough=[{'n': 4}], funcs=[F + 'projection_l1_sphere'])
def l1_sphere(c, how):
  x = c.real('x', ('n',), draw=xdraw)
  args, v = radius(c, how)
  p = P.projection_l1_sphere(x, *args)
  c.ensure('sign', p * x >= 0)
  simplex_certificate(c, jnp.abs(x), jnp.abs(p), v)


@contract('P03', 'projection_l1_ball', cfgs=grid(how=['default', 'given']), fix=SZ, fix_thorough=[{'n': 4}], funcs=[F + 'projection_l1_ball'])
def l1_ball(c, how):
  x = c.real('x', ('n',), draw=xdraw)
  args, v = radius(c, how)
  p = P.projection_l1_ball(x, *args)
  inside = jnp.sum(jnp.abs(x)) <= v
  c.ensure_eq('identity inside', p, x, when=inside)
  c.ensure('sign', p * x >= 0)
  a, b = jnp.abs(x), jnp.abs(p)
  c.ensure_eq('on the sphere', jnp.sum(b), v * jnp.ones(()), when=~inside)
  r = a - b
  n = x.shape[0]
  for j in range(n):
    for i in range(n):
      if i != j:
        c.ensure('optimal[%d,%d]' % (i, j), (b[j] <= 0) | (r[i] <= r[j]))


@contract('P03', 'projection_sparse_simplex', cfgs=grid(k=[1, 2], how=['default', 'none', 'given']), fix=[{'n': 3}], fix_thorough=[{'n': 4}],
          funcs=[F + 'projection_sparse_simplex', F + '_projection_unit_sparse_simplex'])
def sparse_simplex(c, k, how):
  """Optimal support: the k largest entries (Kyrillidis et al.); on it, the simplex certificate."""
  x = c.real('x', ('n',), draw=xdraw)
  args, v = radius(c, how)
  p = P.projection_sparse_simplex(x, k, value=v) if args else P.projection_sparse_simplex(x, k)
  n = x.shape[0]
  c.ensure('non-negative', p >= 0)
  c.ensure_eq('sum', jnp.sum(p), v * jnp.ones(()))
  nnz = jnp.sum(jnp.where(p > 0, 1, 0))
  c.ensure('cardinality', nnz <= k)
  for j in range(n):
    for i in range(n):
      if i != j:
        c.ensure('support is the largest entries[%d,%d]' % (i, j), (p[j] <= 0) | (p[i] > 0) | (x[i] <= x[j]))
        c.ensure('optimal on the support[%d,%d]' % (i, j), (p[j] <= 0) | (p[i] <= 0) | (x[i] - p[i] == x[j] - p[j])) if c.symbolic else \
            c.ensure('optimal on the support[%d,%d]' % (i, j), (p[j] <= 0) | (p[i] <= 0) | (jnp.abs(x[i] - p[i] - x[j] + p[j]) < 1e-9))
        c.ensure('support is full enough[%d,%d]' % (i, j), (p[j] <= 0) | (p[i] > 0) | (nnz >= k) | (x[i] <= x[j] - p[j] + (0 if c.symbolic else 1e-9)))


@contract('P03', 'projection_box_section', funcs=[F + 'projection_box_section', F + '_root_proj_box_sec', 'jaxopt._src.bisection.Bisection.run'],
          run_dims=[{'n': 2}, {'n': 3}, {'n': 4}], runs=60)
def box_section(c):
  x, w = c.real('x', ('n',)), c.real('w', ('n',), **POS)
  al, wid = c.real('alpha', ('n',)), c.real('width', ('n',), lo=0)
  cc = c.real('frac', (), lo=0, hi=1)
  be = al + wid
  c.assume('w>0', w > 0)
  c.assume('alpha<=beta', wid >= 0)
  c.assume('feasible', (cc >= 0) & (cc <= 1))
  target = jnp.dot(w, al) + cc * jnp.dot(w, wid)       # every feasible value of the constraint
  p = P.projection_box_section(x, (al, be, w, target))
  c.ensure('in the box', (al <= p) & (p <= be))
  # p = clip(w tau + x, alpha, beta) for a common tau: bounds on tau from any two coordinates are consistent
  t = (p - x) / w
  c.ensure('common multiplier', ~(p > al)[:, None] | ~(p < be)[None, :] | (t[:, None] <= t[None, :] + (0 if c.symbolic else 1e-6)))


@contract('P03', 'projection_box_section/constraint', mode='bounded', funcs=[F + 'projection_box_section'], run_dims=[{'n': 2}, {'n': 3}, {'n': 5}], runs=80, run_time=40)
def box_section_constraint(c):
  """Bounded: the constraint is met up to what 30 halvings of the initial bracket allow."""
  x, w = c.real('x', ('n',)), c.real('w', ('n',), **POS)
  al, wid = c.real('alpha', ('n',)), c.real('width', ('n',), lo=0, hi=3)
  cc = c.real('frac', (), lo=0, hi=1)
  be = al + wid
  target = jnp.dot(w, al) + cc * jnp.dot(w, wid)
  p = P.projection_box_section(x, (al, be, w, target))
  width = jnp.max((be - x) / w) - jnp.min((al - x) / w)
  c.ensure('constraint', jnp.abs(jnp.dot(w, p) - target) <= 1.1e-5 + jnp.dot(w, w) * width * 2.0 ** -29)
