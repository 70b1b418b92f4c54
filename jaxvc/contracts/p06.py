"""P06: objectives equal their documented formulas, decompose as advertised, and their Lipschitz constants bound the curvature."""
from .common import *
from jaxopt import objective as O
from jaxopt._src import loss as L_
from jaxopt._src import objective as O_

M = 'jaxopt._src.objective.'
CL = ['LeastSquares', 'MulticlassLogreg', 'BinaryLogreg', 'MulticlassLinearSvmDual']
FU = [M + k + '.' + n for k in CL for n in ('subfun', 'make_linop', 'columnwise_lipschitz_const')] + [M + 'CompositeLinearFunction.__call__', M + 'MulticlassLinearSvmDual.b']
REG = dict(draw=lambda r, s: abs(r.normal(size=s)) + 0.05)


def mean(v):
  return jnp.sum(v) / v.shape[0] if isinstance(v.shape[0], int) else jnp.mean(v)


# ------------------------------------------------------------------------------------------------ formulas
@contract('P06', 'least squares', cfgs=grid(out=['vector', 'matrix']), funcs=FU + [M + 'ridge_regression'])
def least_squares(c, out):
  X, l2 = c.real('X', ('m', 'n')), c.real('l2', **REG)
  k = () if out == 'vector' else ('k',)
  w, y = c.real('w', ('n',) + k), c.real('y', ('m',) + k)
  r = X @ w - y
  v = 0.5 * jnp.mean(r * r)
  c.ensure_eq('least squares', O.least_squares(w, (X, y)), v)
  c.ensure_eq('ridge regression', O.ridge_regression(w, l2, (X, y)), v + 0.5 * l2 * jnp.sum(w * w))


@contract('P06', 'binary logreg', cfgs=grid(labels=['int', 'bool']), funcs=FU)
def binary(c, labels):
  X, w = c.real('X', ('m', 'n')), c.real('w', ('n',))
  y = c.bool('y', ('m',))
  z = X @ w
  ref = jnp.mean(jnp.where(y, jnp.log(1 + jnp.exp(-z)), jnp.log(1 + jnp.exp(z))))
  c.ensure_eq('mean logistic loss', O.binary_logreg(w, (X, y if labels == 'bool' else y.astype(int))), jnp.mean(jax.vmap(L_.binary_logistic_loss)(y, z)))
  c.ensure_eq('loss formula', jax.vmap(L_.binary_logistic_loss)(y, z), jnp.where(y, jnp.log(1 + jnp.exp(-z)), jnp.log(1 + jnp.exp(z))))


class Loss:
  """multiclass_logistic_loss (decided under P05) as an uninterpreted function of label and scores."""

  def __init__(self, c):
    f = c.fun('loss', ())
    self.f = lambda y, s: f(s, y * 1.0)
    self.v = lambda Y, S: jnp.stack([self.f(Y[i], S[i]) for i in range(S.shape[0])])
    if c.symbolic:
      c.patch(O_, '_logloss_vmap', jax.vmap(self.f))
    else:
      self.v = jax.vmap(L_.multiclass_logistic_loss)


@contract('P06', 'multiclass logreg', funcs=FU + [M + n for n in ('multiclass_logreg_with_intercept', 'l2_multiclass_logreg', 'l2_multiclass_logreg_with_intercept')], fix=[{'n': 2, 'm': 2, 'k': 2}, {'n': 1, 'm': 3, 'k': 3}])
def multiclass(c):
  l = Loss(c)
  X, W, b, l2 = c.real('X', ('m', 'n')), c.real('W', ('n', 'k')), c.real('b', ('k',)), c.real('l2', **REG)
  y = c.int('y', ('m',), lo=0, hi=W.shape[1] if not c.symbolic else 2)
  d = (X, y)
  av = lambda S: jnp.sum(l.v(y, S)) / S.shape[0]
  c.ensure_eq('plain', O.multiclass_logreg(W, d), av(X @ W))
  c.ensure_eq('intercept', O.multiclass_logreg_with_intercept((W, b), d), av(X @ W + b))
  c.ensure_eq('l2', O.l2_multiclass_logreg(W, l2, d), av(X @ W) + 0.5 * l2 * jnp.sum(W * W))
  c.ensure_eq('l2 and intercept', O.l2_multiclass_logreg_with_intercept((W, b), l2, d), av(X @ W + b) + 0.5 * l2 * jnp.sum(W * W))


@contract('P06', 'multiclass loss table', funcs=[M + '_logloss_vmap'], fix=[{'m': 2, 'k': 2}])
def table(c):
  """The vectorised loss used above is multiclass_logistic_loss row by row."""
  S, y = c.real('S', ('m', 'k')), c.int('y', ('m',), lo=0, hi=2)
  c.ensure_eq('rows', O_._logloss_vmap(y, S), jnp.stack([L_.multiclass_logistic_loss(y[i], S[i]) for i in range(2 if c.symbolic else S.shape[0])]))


@contract('P06', 'svm dual', fix=[{'n': 2, 'm': 2, 'k': 2}, {'n': 1, 'm': 2, 'k': 3}], funcs=FU)
def svm(c):
  X, Y, beta, l2 = c.real('X', ('m', 'n')), c.real('Y', ('m', 'k')), c.real('beta', ('m', 'k')), c.real('l2', **REG)
  c.assume('l2>0', l2 > 0)
  V = X.T @ Y - X.T @ beta
  c.ensure_eq('negated documented dual', O.multiclass_linear_svm_dual(beta, l2, (X, Y)), -(jnp.sum(beta * (1 - Y)) - 0.5 / l2 * jnp.sum(V * V)))


# ------------------------------------------------------------------------------------------------ decomposition used by coordinate descent
def problem(c, which):
  if which == 'svm':
    X, Y, w, l2 = c.real('X', ('m', 'n')), c.real('Y', ('m', 'k')), c.real('w', ('m', 'k')), c.real('l2', **REG)
    c.assume('l2>0', l2 > 0)
    return O.multiclass_linear_svm_dual, w, (l2, (X, Y)), X.T
  X = c.real('X', ('m', 'n'))
  if which == 'least squares':
    return O.least_squares, c.real('w', ('n',)), ((X, c.real('y', ('m',))),), X
  if which == 'binary':
    return O.binary_logreg, c.real('w', ('n',)), ((X, c.bool('y', ('m',)).astype(int)),), X
  Loss(c)
  return O.multiclass_logreg, c.real('w', ('n', 'k')), ((X, c.int('y', ('m',), lo=0, hi=2)),), X


@contract('P06', 'decomposition', cfgs=grid(which=['least squares', 'binary', 'multiclass', 'svm']), fix=[{'n': 2, 'm': 2, 'k': 2}], funcs=FU)
def decomposition(c, which):
  fun, w, args, A = problem(c, which)
  op = fun.make_linop(*args)
  b = fun.b(*args)
  c.ensure_eq('operator is the documented matrix', op.matvec(w), A @ w)
  v = fun.subfun(op.matvec(w), *args)
  if b is not None:
    v = v + jnp.sum(w * b)
  c.ensure_eq('subfun(linop(w)) + <w, b>', fun(w, *args), v)


# ------------------------------------------------------------------------------------------------ Lipschitz constants bound the block curvature
def block_curvature(f, w, j, v):
  """second derivative of f at w along v in block (row) j"""
  d = jnp.zeros(w.shape).at[j].set(v)
  return jax.jvp(jax.grad(f), (w,), (d,))[1]


@contract('P06', 'lipschitz/quadratic', cfgs=grid(which=['least squares', 'svm']), fix=[{'n': 2, 'm': 2, 'k': 2}, {'n': 2, 'm': 3, 'k': 1}], funcs=FU)
def lipschitz_quadratic(c, which):
  fun, w, args, A = problem(c, which)
  L = fun.columnwise_lipschitz_const(*args)
  for j in range(w.shape[0]):
    v = c.real('v%d' % j, w.shape[1:]) if w.ndim > 1 else c.real('v%d' % j)
    h = block_curvature(lambda z: fun(z, *args), w, j, v)[j]
    c.ensure_le('block %d' % j, jnp.sum(v * h), L[j] * jnp.sum(v * v))
    c.ensure('block %d: positive for non-zero columns' % j, L[j] > 0, when=jnp.any(A[:, j] != 0))


@contract('P06', 'lipschitz/binary', fix=[{'n': 1, 'm': 1}, {'n': 2, 'm': 2}], funcs=FU)
def lipschitz_binary(c):
  fun, w, args, X = problem(c, 'binary')
  L = fun.columnwise_lipschitz_const(*args)
  p = 1 / (1 + jnp.exp(-(X @ w)))
  m = X.shape[0]
  c.lemma('p(1-p) <= 1/4', le=(p * (1 - p), 0.25 * jnp.ones(m)))
  q = c.real('q', (m,), lo=0, hi=.25)
  c.assume('q', jnp.all((q >= 0) & (q <= 0.25)))
  for j in range(w.shape[0]):
    h = block_curvature(lambda z: fun(z, *args), w, j, 1.0)[j]
    c.ensure_eq('second derivative %d' % j, h, jnp.sum(X[:, j] ** 2 * p * (1 - p)) / m)
    # with q = p (1 - p) by the lemma
    c.ensure_le('bound %d' % j, jnp.sum(X[:, j] ** 2 * q) / m, L[j])


@contract('P06', 'lipschitz/multiclass', fix=[{'n': 1, 'm': 1, 'k': 2}, {'n': 2, 'm': 2, 'k': 2}], funcs=FU)
def lipschitz_multiclass(c):
  """Block curvature: mean_i X_ij^2 v'(diag p_i - p_i p_i')v, and v'(diag p - p p')v <= |v|^2 / 2 on the simplex."""
  X, w = c.real('X', ('m', 'n')), c.real('w', ('n', 'k'))
  y = c.int('y', ('m',), lo=0, hi=2)
  m, k = X.shape[0], w.shape[1]
  c.assume('labels', jnp.all((y >= 0) & (y < k)))
  fun, args = O.multiclass_logreg, ((X, y),)
  L = fun.columnwise_lipschitz_const(*args)
  v, q = c.real('v', (k,)), c.real('q', (k,), draw=lambda r, s: r.dirichlet(np.ones(s[0])))
  e = jnp.exp(X @ w)
  p = e / jnp.sum(e, axis=1, keepdims=True)
  form = lambda q: jnp.sum(q * v * v) - jnp.sum(q * v) ** 2
  if c.symbolic:
    c.assume('q in the simplex', jnp.all(q >= 0) & (jnp.sum(q) == 1))
  c.ensure_le('curvature of one sample', form(q), 0.5 * jnp.sum(v * v))
  t = c.real('t', (m,), lo=0, hi=1)
  c.assume('t', jnp.all(t <= 0.5 * jnp.sum(v * v)))
  for j in range(w.shape[0]):
    if m == 1:
      h = block_curvature(lambda z: fun(z, *args), w, j, v)[j]
      c.ensure_eq('block curvature %d' % j, jnp.sum(v * h), sum(X[i, j] ** 2 * form(p[i]) for i in range(m)) / m)
    c.ensure_le('bound %d' % j, jnp.sum(X[:, j] ** 2 * t) / m, L[j] * jnp.sum(v * v))
