"""P13: linear operators are linear maps with matching adjoints.

The dense, functional, ridge and normal operators are decided at every size; operations on one row or column take the
position as an unknown integer and are decided at the listed sizes."""
from .common import *
from jaxopt._src import linear_operator as LO, linear_solve as LS
from jaxopt._src.base import LinearOperator

F = 'jaxopt._src.'
DN = [F + 'linear_operator.DenseLinearOperator.' + n for n in ('__call__', 'matvec', 'rmatvec', 'matvec_and_rmatvec', 'normal_matvec', 'diag', 'columns_l2_norms')]
FN = [F + 'linear_operator.FunctionalLinearOperator.' + n for n in ('__init__', '__call__', 'matvec', 'rmatvec', 'matvec_and_rmatvec', 'normal_matvec')] + [F + 'linear_operator._make_linear_operator']
BL = [F + 'base.LinearOperator.' + n for n in ('matvec', 'matvec_element', 'rmatvec', 'rmatvec_element', 'update_matvec', 'update_rmatvec', 'column_l2_norms', 'tree_flatten', 'tree_unflatten', 'shape')]
RG = [F + 'linear_solve.' + n for n in ('_make_ridge_matvec', '_make_rmatvec', '_normal_matvec', '_materialize_array')]


def mats(c, lay):
  """matrices, vectors in the domain, vectors in the range: same pytree layout"""
  if lay == 'arr':
    return c.real('A', ('m', 'n')), lambda s: c.real(s, ('n',)), lambda s: c.real(s, ('m',))
  M = {'u': c.real('Au', ('m', 'n')), 'v': [c.real('Av', ('p', 'n'))]}
  return M, lambda s: {'u': c.real(s + 'u', ('n',)), 'v': [c.real(s + 'v', ('n',))]}, lambda s: {'u': c.real(s + 'u', ('m',)), 'v': [c.real(s + 'v', ('p',))]}


def entry(A, x):
  return jnp.sum(A * x[None, :], axis=1)


def entryT(A, y):
  return jnp.sum(A * y[:, None], axis=0)


def linear_map(c, name, op, dx, dy):
  x, z, y, s = dx('x'), dx('z'), dy('y'), c.real('s')
  Ax, ATy = op.matvec(x), op.rmatvec(x, y)
  c.ensure_eq('call is matvec', op(x), Ax)
  c.ensure_eq('linear', op.matvec(axpy(x, s, z)), axpy(Ax, s, op.matvec(z)))
  c.ensure_eq('adjoint', dot(Ax, y), dot(x, ATy))
  c.ensure_eq('pair', op.matvec_and_rmatvec(x, y), (Ax, ATy))
  N = op.normal_matvec(x)
  c.ensure_eq('normal operator', N, op.rmatvec(z, Ax))
  return x, y, Ax, ATy


@contract('P13', 'dense', cfgs=grid(lay=['arr', 'tree'], made=['class', 'factory']), funcs=DN + FN[-1:])
def dense(c, lay, made):
  M, dx, dy = mats(c, lay)
  op = LO.DenseLinearOperator(M) if made == 'class' else LO._make_linear_operator(None)(M)
  x, y, Ax, ATy = linear_map(c, 'dense', op, dx, dy)
  c.ensure_eq('matrix product', Ax, tmap(entry, M, x))
  c.ensure_eq('transposed product', ATy, tmap(entryT, M, y))
  c.ensure_eq('squared column norms', op.columns_l2_norms(squared=True), tmap(lambda A: jnp.sum(A * A, 0), M))
  c.ensure_eq('column norms', op.columns_l2_norms(), tmap(lambda A: jnp.sqrt(jnp.sum(A * A, 0)), M))


@contract('P13', 'dense/diagonal', fix=[{'n': 1, 'p': 1}, {'n': 3, 'p': 2}], funcs=DN)
def diagonal(c):
  M = {'u': c.real('Au', ('n', 'n')), 'v': c.real('Av', ('p', 'p'))}
  d = LO.DenseLinearOperator(M).diag()
  for k, A in M.items():
    c.ensure_eq('diagonal ' + k, d[k], jnp.stack([A[i, i] for i in range(A.shape[0])]))


@contract('P13', 'functional', cfgs=grid(form=['matrix', 'tree', 'sum', 'affine params'], made=['class', 'factory']), funcs=FN)
def functional(c, form, made):
  if form in ('matrix', 'tree'):
    M, dx, dy = mats(c, 'arr' if form == 'matrix' else 'tree')
    f = lambda M, x: tmap(jnp.dot, M, x)
    ref, refT = (lambda x: tmap(entry, M, x)), (lambda y: tmap(entryT, M, y))
  elif form == 'sum':   # several inputs, one output
    M = (c.real('A', ('m', 'n')), c.real('B', ('m', 'p')))
    f = lambda M, x: M[0] @ x['a'] + M[1] @ x['b']
    dx = lambda s: {'a': c.real(s + 'a', ('n',)), 'b': c.real(s + 'b', ('p',))}
    dy = lambda s: c.real(s, ('m',))
    ref, refT = (lambda x: entry(M[0], x['a']) + entry(M[1], x['b'])), (lambda y: {'a': entryT(M[0], y), 'b': entryT(M[1], y)})
  else:                 # coefficients are a non-linear function of the parameters
    M = c.real('A', ('m', 'n'))
    f = lambda M, x: (M * M - 1.0) @ x
    dx, dy = (lambda s: c.real(s, ('n',))), (lambda s: c.real(s, ('m',)))
    ref, refT = (lambda x: entry(M * M - 1, x)), (lambda y: entryT(M * M - 1, y))
  op = LO.FunctionalLinearOperator(f, M) if made == 'class' else LO._make_linear_operator(f)(M)
  x, y, Ax, ATy = linear_map(c, 'fun', op, dx, dy)
  c.ensure_eq('product', Ax, ref(x))
  c.ensure_eq('transposed product', ATy, refT(y))


@contract('P13', 'ridge', cfgs=grid(lay=['arr', 'tree']), funcs=RG)
def ridge(c, lay):
  if lay == 'arr':
    A, v, y = c.real('A', ('n', 'n')), c.real('v', ('n',)), c.real('y', ('n',))
    mv, ref, refT = (lambda v: A @ v), (lambda v: entry(A, v)), (lambda v: entryT(A, v))
  else:
    A, B = c.real('A', ('n', 'n')), c.real('B', ('p', 'p'))
    v, y = {'a': c.real('va', ('n',)), 'b': c.real('vb', ('p',))}, {'a': c.real('ya', ('n',)), 'b': c.real('yb', ('p',))}
    mv = lambda v: {'a': A @ v['a'], 'b': B @ v['b']}
    ref, refT = (lambda v: {'a': entry(A, v['a']), 'b': entry(B, v['b'])}), (lambda v: {'a': entryT(A, v['a']), 'b': entryT(B, v['b'])})
  r = c.real('r')
  c.ensure_eq('A v + ridge v', LS._make_ridge_matvec(mv, ridge=r)(v), axpy(ref(v), r, v))
  c.ensure_eq('default ridge is zero', LS._make_ridge_matvec(mv)(v), ref(v))
  c.ensure_eq('transpose', LS._make_rmatvec(mv, v)(y), refT(y))
  c.ensure_eq('normal operator', LS._normal_matvec(mv, v), refT(ref(v)))
  c.ensure_eq('transpose of the ridge operator', LS._make_rmatvec(LS._make_ridge_matvec(mv, ridge=r), v)(y), axpy(refT(y), r, y))


@contract('P13', 'rectangular', funcs=RG)
def rectangular(c):
  A, v, y = c.real('A', ('m', 'n')), c.real('v', ('n',)), c.real('y', ('m',))
  c.ensure_eq('transpose', LS._make_rmatvec(lambda v: A @ v, v)(y), entryT(A, y))
  c.ensure_eq('normal operator', LS._normal_matvec(lambda v: A @ v, v), entryT(A, entry(A, v)))


@contract('P13', 'materialize', cfgs=grid(rank=[0, 1, 2]), fix=[{'m': 2, 'n': 2}, {'m': 1, 'n': 3}], funcs=RG)
def materialize(c, rank):
  if rank == 0:
    a = c.real('a')
    c.ensure_eq('slope', LS._materialize_array(lambda v: a * v, ()), a)
  elif rank == 1:
    A = c.real('A', ('m', 'n'))
    c.ensure_eq('matrix', LS._materialize_array(lambda v: A @ v, (A.shape[1],)), A)
  else:
    A, B = c.real('A', ('m', 'm')), c.real('B', ('n', 'n'))
    T = LS._materialize_array(lambda X: A @ X @ B, (A.shape[0], B.shape[0]))
    c.ensure_eq('tensor', T, jnp.stack([jnp.stack([A[i][:, None] * B[:, j][None, :] for j in range(B.shape[0])]) for i in range(A.shape[0])]))


@contract('P13', 'base operator', cfgs=grid(rank=[1, 2], via=['direct', 'pytree']), funcs=BL)
def base_all(c, rank, via):
  A = c.real('A', ('m', 'n'))
  op = LinearOperator(A)
  if via == 'pytree':
    op = LinearOperator.tree_unflatten(op.tree_flatten()[1], op.tree_flatten()[0])
  k = () if rank == 1 else ('k',)
  x, y = c.real('x', ('n',) + k), c.real('y', ('m',) + k)
  if rank == 1:
    rx, ry = entry(A, x), entryT(A, y)
  else:
    rx, ry = jnp.sum(A[:, :, None] * x[None, :, :], 1), jnp.sum(A[:, :, None] * y[:, None, :], 0)
  c.ensure_eq('matvec', op.matvec(x), rx)
  c.ensure_eq('rmatvec', op.rmatvec(y), ry)
  c.ensure_eq('adjoint', jnp.sum(op.matvec(x) * y), jnp.sum(x * op.rmatvec(y)))
  c.ensure_eq('squared norms', op.column_l2_norms(squared=True), jnp.sum(A * A, 0))
  c.ensure_eq('norms', op.column_l2_norms(), jnp.sqrt(jnp.sum(A * A, 0)))


@contract('P13', 'base operator/element', cfgs=grid(rank=[1, 2]), fix=[{'m': 1, 'n': 1, 'k': 1}, {'m': 2, 'n': 3, 'k': 2}, {'m': 3, 'n': 2, 'k': 1}], funcs=BL, fix_thorough=[{'m': 4, 'n': 5, 'k': 3}])
def base_element(c, rank):
  """Position unknown: every row / column."""
  A = c.real('A', ('m', 'n'))
  op = LinearOperator(A)
  m, n = A.shape
  k = () if rank == 1 else ('k',)
  x, y = c.real('x', ('n',) + k), c.real('y', ('m',) + k)
  d = c.real('d', k)
  i, j = c.int('i', (), lo=0, hi=m), c.int('j', (), lo=0, hi=n)
  c.assume('positions', (i >= 0) & (i < m) & (j >= 0) & (j < n))
  at = lambda v, i, N: sum(jnp.where(i == q, v[q], jnp.zeros_like(v[q])) for q in range(N))
  Ax, ATy = op.matvec(x), op.rmatvec(y)
  c.ensure_eq('element', op.matvec_element(x, i), at(Ax, i, m))
  c.ensure_eq('transposed element', op.rmatvec_element(y, j), at(ATy, j, n))
  x2 = jnp.stack([x[q] + jnp.where(j == q, d, jnp.zeros_like(d)) for q in range(n)])
  c.ensure_eq('incremental product', op.update_matvec(Ax, d, j), op.matvec(x2))
  if rank == 1:
    y2 = jnp.stack([y[q] + jnp.where(i == q, d, 0.0) for q in range(m)])
    c.ensure_eq('incremental transposed product', op.update_rmatvec(ATy, d, i), op.rmatvec(y2))
