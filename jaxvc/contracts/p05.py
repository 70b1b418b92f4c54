"""P05: classification and regression losses.

Every loss equals its documented formula, is non-negative, and has the documented link minus the target as derivative; convexity
is stated through the second derivative (smooth losses), the monotonicity of the gradient (once-differentiable losses) or the
defining inequality along chords (piecewise-linear losses).  Binary and regression losses are decided for all reals; multiclass
ones at 1 to 3 classes (4 in the thorough tier) with an arbitrary label."""
from .common import *
from jaxopt import loss as L
from jaxopt._src import loss as L_
from jaxopt import projection as P

M = 'jaxopt._src.loss.'
SZ = dict(fix=[{'n': 1}, {'n': 2}, {'n': 3}], fix_thorough=[{'n': 4}])


def scores(r, s):
  x = r.normal(size=s) * np.exp(r.uniform(-1, 2))
  k = r.integers(0, 4)
  return np.round(x) if k == 0 else x * 0 + (x.flat[0] if x.size else 0) if k == 1 else x


def clampd(x, d):
  return jnp.where(x > d, d, jnp.where(x < -d, -d, x))


# ------------------------------------------------------------------------------------------------ regression
@contract('P05', 'huber', cfgs=grid(delta=['default', 'given']), funcs=[M + 'huber_loss'])
def huber(c, delta):
  t, x, y = c.real('target'), c.real('pred', draw=scores), c.real('pred2', draw=scores)
  if delta == 'default':
    d, f = 1.0, lambda p: L.huber_loss(t, p)
  else:
    d = c.real('delta', draw=lambda r, s: abs(r.normal(size=s)) + 0.01)
    c.assume('delta>0', d > 0)
    f = lambda p: L.huber_loss(t, p, d)
  r = jnp.abs(t - x)
  v = f(x)
  c.ensure_eq('quadratic part', v, 0.5 * (t - x) ** 2, when=r <= d)
  c.ensure_eq('linear part', v, d * (r - 0.5 * d), when=r > d)
  c.ensure('non-negative', v >= 0)
  c.ensure_eq('derivative is the clipped residual', jax.grad(f)(x), clampd(x - t, d))
  c.ensure_le('convex: the tangent lies below', v + clampd(x - t, d) * (y - x), f(y))


# ------------------------------------------------------------------------------------------------ binary
def label(c):
  y = c.int('label', lo=0, hi=2)
  c.assume('label', (y == 0) | (y == 1))
  return y


@contract('P05', 'binary logistic', cfgs=grid(y=['int', 0, 1]), funcs=[M + 'binary_logistic_loss'])
def binary_logistic(c, y):
  y = label(c) if y == 'int' else y
  x = c.real('logit', draw=scores)
  f = lambda z: L.binary_logistic_loss(y, z)
  p = 1 / (1 + jnp.exp(-x))
  c.ensure_eq('formula (label 1)', f(x), jnp.log(1 + jnp.exp(-x)), when=jnp.asarray(y) == 1)
  c.ensure_eq('formula (label 0)', f(x), jnp.log(1 + jnp.exp(x)), when=jnp.asarray(y) == 0)
  c.ensure('non-negative', f(x) >= 0)
  c.ensure_eq('derivative is probability minus label', jax.grad(f)(x), p - y)
  h = jax.grad(jax.grad(f))(x)
  c.ensure_eq('second derivative', h, p * (1 - p))
  c.ensure('convex', h >= 0)


def splus(x):
  return jnp.where(x <= -1, 0.0, jnp.where(x >= 1, x, (x + 1) * (x + 1) / 4))


def ssig(x):
  return jnp.where(x <= -1, 0.0, jnp.where(x >= 1, 1.0, (x + 1) / 2))


@contract('P05', 'sparse plus', funcs=[M + 'sparse_plus', M + 'sparse_sigmoid'])
def sparse(c):
  x, y = c.real('x', draw=scores), c.real('y', draw=scores)
  c.ensure_eq('sparse plus formula', L.sparse_plus(x), splus(x))
  c.ensure_eq('sparse sigmoid formula', L.sparse_sigmoid(x), ssig(x))
  c.ensure_eq('one is the derivative of the other', jax.grad(L.sparse_plus)(x), ssig(x))
  c.ensure('non-negative', L.sparse_plus(x) >= 0)
  c.ensure_le('convex: the tangent lies below', L.sparse_plus(x) + ssig(x) * (y - x), L.sparse_plus(y))
  c.ensure_le('sigmoid is monotone', L.sparse_sigmoid(jnp.minimum(x, y)), L.sparse_sigmoid(jnp.maximum(x, y)))


@contract('P05', 'binary sparsemax', cfgs=grid(y=['int', 0, 1]), funcs=[M + 'binary_sparsemax_loss', M + 'sparse_plus'])
def binary_sparsemax(c, y):
  y = label(c) if y == 'int' else y
  x, z = c.real('logit', draw=scores), c.real('z', draw=scores)
  f = lambda z: L.binary_sparsemax_loss(y, z)
  s = 1.0 - 2.0 * y
  c.ensure_eq('formula', f(x), splus(s * x))
  c.ensure('non-negative', f(x) >= 0)
  c.ensure_eq('derivative is probability minus label', jax.grad(f)(x), ssig(x) - y)
  c.ensure_le('convex: the tangent lies below', f(x) + (ssig(x) - y) * (z - x), f(z))


@contract('P05', 'binary hinge and perceptron', cfgs=grid(which=['hinge', 'perceptron'], y=['int', 0, 1]), funcs=[M + 'binary_hinge_loss', M + 'binary_perceptron_loss'])
def binary_margin(c, which, y):
  y = label(c) if y == 'int' else y
  x, z, t = c.real('score', draw=scores), c.real('z', draw=scores), c.real('t', lo=0, hi=1)
  c.assume('t', (t >= 0) & (t <= 1))
  f = lambda v: (L.binary_hinge_loss if which == 'hinge' else L.binary_perceptron_loss)(y, v)
  m = (2.0 * y - 1.0) * x
  ref = (1 - m if which == 'hinge' else -m)
  c.ensure_eq('formula', f(x), jnp.where(ref > 0, ref, 0.0))
  c.ensure('non-negative', f(x) >= 0)
  c.ensure_le('convex along chords', f(t * x + (1 - t) * z), t * f(x) + (1 - t) * f(z))
  c.ensure_eq('slope', jax.grad(f)(x), jnp.where(ref > 0, 1.0 - 2.0 * y, 0.0), when=ref != 0)


# ------------------------------------------------------------------------------------------------ multiclass
def mlabel(c, n):
  y = c.int('label', lo=0, hi=n)
  c.assume('label', (y >= 0) & (y < n))
  return y


def pick(y, v):
  """v[y] without indexing"""
  return sum(jnp.where(y == i, v[i], 0.0) for i in range(v.shape[0]))


def onehot(y, n):
  return jnp.stack([jnp.where(y == i, 1.0, 0.0) for i in range(n)])


@contract('P05', 'multiclass logistic', funcs=[M + 'multiclass_logistic_loss'], **SZ)
def multi_logistic(c):
  s = c.real('logits', ('n',), draw=scores)
  n = s.shape[0]
  y = mlabel(c, n)
  v = c.real('v', ('n',))
  f = lambda z: L.multiclass_logistic_loss(y, z)
  e = jnp.exp(s)
  p = e / jnp.sum(e)
  c.ensure_eq('formula', f(s), jnp.log(sum(jnp.exp(s[i] - pick(y, s)) for i in range(n))))
  c.ensure('non-negative', f(s) >= 0)
  c.ensure_eq('derivative is probability minus label', jax.grad(f)(s), p - onehot(y, n))
  hv = jax.jvp(jax.grad(f), (s,), (v,))[1]
  c.ensure_eq('curvature', jnp.dot(v, hv), sum((p[i] * p[j] * (v[i] - v[j]) ** 2 for i in range(n) for j in range(i)), jnp.zeros(())))


def simplex_stub(c, x, points):
  """projection_simplex replaced by its contract (P03): a point of the simplex closer to x than each given feasible point."""
  p = c.like('proj', x)
  if not c.symbolic:
    return P.projection_simplex(x)
  c.assume('projection feasible', jnp.all(p >= 0) & (jnp.sum(p) == 1))
  for k, q in enumerate(points):
    c.assume('projection optimal %d' % k, jnp.dot(x - p, q - p) <= 0)
  if c.symbolic:
    c.patch(L_, 'projection_simplex', lambda z: p)
  return p


@contract('P05', 'multiclass sparsemax', funcs=[M + 'multiclass_sparsemax_loss'], **SZ)
def multi_sparsemax(c):
  """max over the simplex of <s, p> + (1 - |p|^2)/2, minus s_y: the maximiser is the projection."""
  s, q = c.real('scores', ('n',), draw=scores), c.real('q', ('n',), draw=lambda r, s: r.dirichlet(np.ones(s[0])))
  n = s.shape[0]
  y = mlabel(c, n)
  f = lambda z: L.multiclass_sparsemax_loss(y, z)
  if c.symbolic:
    c.assume('q in the simplex', jnp.all(q >= 0) & (jnp.sum(q) == 1))
  e = onehot(y, n)
  p = simplex_stub(c, s, (q, e))
  val = lambda q: jnp.dot(q, s) - pick(y, s) + 0.5 * (1 - jnp.dot(q, q))
  v = f(s)
  c.ensure_eq('formula', v, val(p))
  # val(p) - val(q) = |q - p|^2 / 2 - <s - p, q - p>
  gap = lambda q: 0.5 * jnp.dot(q - p, q - p) - jnp.dot(s - p, q - p)
  c.ensure_eq('gap identity', v - val(q), gap(q))
  c.ensure_le('conjugate: no better probability', jnp.zeros(()), gap(q))
  c.ensure_eq('gap identity at the label', v, gap(e))
  c.ensure_le('non-negative', jnp.zeros(()), gap(e))


@contract('P05', 'multiclass sparsemax derivative', funcs=[M + 'multiclass_sparsemax_loss', 'jaxopt._src.projection.projection_simplex'], fix=[{'n': 1}, {'n': 2}, {'n': 3}])
def multi_sparsemax_grad(c):
  s = c.real('scores', ('n',), draw=scores)
  n = s.shape[0]
  y = mlabel(c, n)
  c.ensure_eq('derivative is probability minus label', jax.grad(lambda z: L.multiclass_sparsemax_loss(y, z))(s), P.projection_simplex(s) - onehot(y, n))


@contract('P05', 'multiclass hinge and perceptron', cfgs=grid(which=['hinge', 'perceptron']), funcs=[M + 'multiclass_hinge_loss', M + 'multiclass_perceptron_loss'], **SZ)
def multi_margin(c, which):
  s, z, t = c.real('scores', ('n',), draw=scores), c.real('z', ('n',), draw=scores), c.real('t', lo=0, hi=1)
  c.assume('t', (t >= 0) & (t <= 1))
  n = s.shape[0]
  y = mlabel(c, n)
  f = lambda v: (L.multiclass_hinge_loss if which == 'hinge' else L.multiclass_perceptron_loss)(y, v)
  ref = [s[j] - pick(y, s) + (jnp.where(y == j, 0.0, 1.0) if which == 'hinge' else 0.0) for j in range(n)]
  m = ref[0]
  for r in ref[1:]:
    m = jnp.maximum(m, r)
  c.ensure_eq('formula', f(s), m)
  c.ensure('non-negative', f(s) >= -1e-9 if not c.symbolic else f(s) >= 0)
  c.ensure_le('convex along chords', f(t * s + (1 - t) * z), t * f(s) + (1 - t) * f(z))


@contract('P05', 'fenchel-young', cfgs=grid(lay=['vector'], arg=[False, True]), funcs=[M + 'make_fenchel_young_loss'])
def fenchel_young(c, lay, arg):
  sh = ('n',) if lay == 'vector' else ('n', 'm')
  F = c.fun('F', ())
  s, y, a = c.real('scores', sh), c.real('y', sh), c.real('a')
  extra = (a,) if arg else ()
  fy = L.make_fenchel_young_loss(max_fun=lambda s, *t: F(s, *t))
  c.ensure_eq('formula', fy(y, s, *extra), F(s, *extra) - jnp.sum(s * y))
  g = jax.grad(lambda s: fy(y, s, *extra))(s)
  c.ensure_eq('gradient is the regularised argmax minus the target', g, jax.grad(lambda s: F(s, *extra))(s) - y)


@contract('P05', 'fenchel-young/matrix', cfgs=grid(arg=[False, True]), fix=[{'n': 2, 'm': 3}], funcs=[M + 'make_fenchel_young_loss'])
def fenchel_young_matrix(c, arg):
  fenchel_young(c, 'matrix', arg)
