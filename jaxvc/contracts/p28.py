"""P28: block coordinate descent keeps predictions in step with its parameters.

The sub-function is uninterpreted (value and gradient tables), the operator an arbitrary matrix, the block operator
uninterpreted; the number of samples is arbitrary, the number of blocks is one of the listed ones."""
from .common import *
from jaxopt import BlockCoordinateDescent, objective as O
from jaxopt._src.base import LinearOperator
from jaxopt._src.objective import CompositeLinearFunction

F = 'jaxopt._src.'
FU = [F + 'block_cd.BlockCoordinateDescent.' + n for n in ('init_state', 'update', '_fixed_point_fun', 'optimality_fun', '__post_init__')] + \
     [F + 'base.LinearOperator.' + n for n in ('matvec', 'rmatvec_element', 'update_matvec')]


def make(c, rank, offset):
  """an arbitrary composite function: subfun(A w, data) + <w, b>, with arbitrary advertised block constants"""
  k = () if rank == 1 else ('k',)
  S = c.fun('S', ())
  A, d, L = c.real('A', ('m', 'n')), c.real('d', ('m',)), c.real('L', ('n',), draw=lambda r, s: abs(r.normal(size=s)) + 0.5)
  B = c.real('B', ('n',) + k) if offset else None
  c.assume('constants', jnp.all(L > 0))

  class Fun(CompositeLinearFunction):
    def subfun(self, predictions, data, scale=1.0):
      return S(predictions, data['d'], scale)
    def make_linop(self, data, scale=1.0):
      return LinearOperator(data['A'])
    def columnwise_lipschitz_const(self, data, scale=1.0):
      return data['L'] * scale * scale
    def b(self, data, scale=1.0):
      return data['B'] if offset else None
  x = c.real('x', ('n',) + k)
  return Fun(), S, dict(A=A, d=d, L=L, B=B), x


def mv(A, x):
  return jnp.sum(A * x[None, :], 1) if x.ndim == 1 else jnp.sum(A[:, :, None] * x[None], 1)


def col(A, g, i):
  return jnp.sum(A[:, i] * g) if g.ndim == 1 else jnp.sum(A[:, i][:, None] * g, 0)


SIZES = [{'n': 1}, {'n': 2}, {'n': 3}]


@contract('P28', 'update', cfgs=grid(rank=[1, 2], offset=[False, True], jit=[True, False], kw=[False, True]), fix=SIZES, fix_thorough=[{'n': 4}, {'n': 5}], funcs=FU, runs=10)
def update(c, rank, offset, jit, kw):
  fun, S, data, x = make(c, rank, offset)
  k = () if rank == 1 else ('k',)
  h = c.real('h')
  P = c.fun('prox', 'like0')
  s = BlockCoordinateDescent(fun, lambda v, h, t=1.0: P(v, h, t), jit=jit)
  sc = c.real('scale', (), draw=lambda r, s: abs(r.normal(size=s)) + 0.5) if kw else 1.0
  c.assume('scale', jnp.asarray(sc) > 0)
  kwargs = dict(scale=sc) if kw else {}
  st0 = s.init_state(x, h, data, **kwargs)
  g = jax.grad(lambda p: S(p, data['d'], sc))
  A = data['A']
  c.ensure_eq('initial predictions', st0.predictions, mv(A, x))
  c.ensure_eq('initial gradient', st0.subfun_g, g(mv(A, x)))
  c.ensure_eq('initial counter', st0.iter_num, jnp.asarray(0))
  c.ensure('initial error', st0.error == jnp.inf)
  # any reachable state: predictions and sub-gradient in step with the parameters
  st = c.like('st', st0)._replace(predictions=mv(A, x), subfun_g=g(mv(A, x)))
  y, n = s.update(x, st, h, data, **kwargs)
  # reference pass, from first principles: the gradient of the whole objective at the current point
  z, disp = x, 0.0
  for i in range(x.shape[0]):
    step = 1.0 / (data['L'][i] * sc * sc)
    gi = col(A, g(mv(A, z)), i) + (data['B'][i] if offset else 0.0)
    new = P(z[i] - step * gi, h, step)
    disp = disp + jnp.sum((new - z[i]) ** 2)
    z = z.at[i].set(new)
  c.ensure_eq('one proximal step per block, in order', y, z)
  c.ensure_eq('predictions in step', n.predictions, mv(A, y))
  c.ensure_eq('sub-function gradient in step', n.subfun_g, g(mv(A, y)))
  c.sq_nonneg('displacement', sub(y, x))
  c.ensure_eq('error is the displacement norm', n.error ** 2, disp)
  c.ensure('error is not negative', n.error >= 0)
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  c.ensure_eq('evaluations', (n.num_fun_eval - st.num_fun_eval, n.num_grad_eval - st.num_grad_eval, n.num_prox_eval - st.num_prox_eval), (x.shape[0],) * 3)


@contract('P28', 'gradient of the whole objective', cfgs=grid(rank=[1, 2], offset=[False, True]), fix=SIZES, funcs=FU + [F + 'objective.CompositeLinearFunction.__call__'], runs=10)
def whole(c, rank, offset):
  """The block gradients used by update are the rows of the gradient of fun; the fixed-point residual is the advertised one."""
  fun, S, data, x = make(c, rank, offset)
  h, P = c.real('h'), c.fun('prox', 'like0')
  s = BlockCoordinateDescent(fun, lambda v, h, t=1.0: P(v, h, t))
  g = jax.grad(lambda p: S(p, data['d'], 1.0))
  A = data['A']
  G = jnp.stack([col(A, g(mv(A, x)), i) + (data['B'][i] if offset else 0.0) for i in range(x.shape[0])])
  c.ensure_eq('objective', fun(x, data), S(mv(A, x), data['d'], 1.0) + (jnp.sum(x * data['B']) if offset else 0.0))
  c.ensure_eq('gradient', jax.grad(fun)(x, data), G)
  r = jnp.stack([P(x[i] - G[i], h, 1.0) - x[i] for i in range(x.shape[0])])
  c.ensure_eq('fixed-point residual', s.optimality_fun(x, h, data), r)
