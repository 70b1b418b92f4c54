"""P12: linear solvers solve the system they are given.

Dense solvers: the factorisations and triangular solves of lax.linalg are taken by contract (Q R = A with orthonormal Q,
solves are exact), everything from the operator to the returned array is proved. Krylov solvers: lax.custom_linear_solve
inside jax.scipy.sparse.linalg is taken by contract (the returned x satisfies operator(x) = right-hand side), so what is
proved is that the operator and right-hand side handed to it are the requested ones. Convergence of the Krylov iterations
is not covered."""
from .common import *
from jaxopt._src import linear_solve as LS

F = 'jaxopt._src.linear_solve.'
DENSE = dict(lu=LS.solve_lu, cholesky=LS.solve_cholesky, inv=LS.solve_inv, qr=LS.solve_qr)
KRYLOV = dict(cg=LS.solve_cg, normal_cg=LS.solve_normal_cg, gmres=LS.solve_gmres, bicgstab=LS.solve_bicgstab)
FU = [F + 'solve_' + k for k in list(DENSE) + list(KRYLOV)] + [F + n for n in ('_materialize_array', '_make_ridge_matvec', '_make_rmatvec', '_normal_matvec')]
POS = dict(draw=lambda r, s: abs(r.normal(size=s)) + 0.05)


def spd(c, name, n):
  """symmetric matrix (positive definite in concrete runs)"""
  if c.symbolic:
    u = {(i, j): c.real('%s%d%d' % (name, i, j)) for i in range(n) for j in range(i, n)}
    return jnp.stack([jnp.stack([u[min(i, j), max(i, j)] for j in range(n)]) for i in range(n)])
  L = c.real(name, (n, n))
  return L @ L.T + jnp.eye(n)


def general(c, name, n):
  A = c.real(name, (n, n))
  return A if c.symbolic else A + 4 * jnp.eye(n)


def option(c, ridge):
  if ridge == 'none':
    return {}, 0.0
  if ridge == 'zero':
    return dict(ridge=0.0), 0.0
  r = c.real('ridge', (), **POS)
  c.assume('ridge', r >= 0)
  return dict(ridge=r), r


RANKS = {'lu': [0, 1, 2], 'cholesky': [0, 1, 2], 'inv': [0, 1], 'qr': [0, 1]}


@contract('P12', 'dense', cfgs={k: v for k, v in grid(solver=list(DENSE), rank=[0, 1, 2], ridge=['none', 'zero', 'given']).items() if v['rank'] in RANKS[v['solver']]},
          fix=[{'n': 1}, {'n': 2}, {'n': 3}], funcs=FU, run_time=6, timeout=60)
def dense(c, solver, rank, ridge):
  f, n = DENSE[solver], c.dim('n')
  make = spd if solver == 'cholesky' else general
  kw, r = option(c, ridge)
  if rank == 0:
    a, b = c.real('a', (), **POS), c.real('b')
    c.assume('invertible', a + r != 0)
    x = f(lambda v: a * v, b, **kw)
    c.ensure_eq('solves', a * x + r * x, b)
  elif rank == 1:
    A, b = make(c, 'A', n), c.real('b', (n,))
    x = f(lambda v: A @ v, b, **kw)
    c.ensure_eq('solves', A @ x + r * x, b, tol=1e-5)
  else:
    m = 2
    A, b = make(c, 'A', n * m), c.real('b', (n, m))
    mv = lambda X: jnp.reshape(A @ jnp.reshape(X, (-1,)), X.shape)
    x = f(mv, b, **kw)
    c.ensure_eq('solves', mv(x) + r * x, b, tol=1e-5)


def operator(c, lay, sym):
  """operator, its transpose, right-hand side"""
  n = 'n'
  if lay == 'arr':
    if c.symbolic:
      A = c.real('A', (n, n))
    else:
      A = spd(c, 'A', c.dim(n)) if sym else general(c, 'A', c.dim(n))
    return (lambda v: A @ v), (lambda v: A.T @ v), c.real('b', (n,))
  if c.symbolic:
    A, B = c.real('A', (n, n)), c.real('B', ('p', n))
    C = c.real('C', ('p', 'p'))
  else:
    N, P = c.dim(n), c.dim('p')
    M = spd(c, 'A', N + P) if sym else general(c, 'A', N + P)
    A, B, C = M[:N, :N], M[N:, :N], M[N:, N:]
  D = B.T if sym else (c.real('D', (n, 'p')) if c.symbolic else M[:N, N:])
  mv = lambda v: {'u': A @ v['u'] + D @ v['v'], 'v': B @ v['u'] + C @ v['v']}
  mvt = lambda v: {'u': A.T @ v['u'] + B.T @ v['v'], 'v': D.T @ v['u'] + C.T @ v['v']}
  return mv, mvt, {'u': c.real('bu', (n,)), 'v': c.real('bv', ('p',))}


@contract('P12', 'krylov', cfgs=grid(solver=list(KRYLOV), lay=['arr', 'tree'], ridge=['none', 'zero', 'given'], init=['none', 'given']), funcs=FU, runs=6, run_time=6)
def krylov(c, solver, lay, ridge, init):
  mv, mvt, b = operator(c, lay, solver == 'cg')
  kw, r = option(c, ridge)
  if init == 'given':
    kw['init'] = c.like('init', b)
  if not c.symbolic:
    kw.update(tol=1e-12, maxiter=400)
  if c.symbolic and solver == 'gmres':   # compares the (symbolic) size with its restart parameter: taken by contract
    import jax.scipy.sparse.linalg as SL
    c.patch(SL, 'gmres', lambda op, b, x0=None, **kw: (jax.lax.custom_linear_solve(op, b, lambda op, b: b), None))
  x = KRYLOV[solver](mv, b, **kw)
  if not c.symbolic and solver == 'bicgstab':   # breakdown of the dependency's iteration (e.g. a zero right-hand side)
    c.assume('no breakdown', jnp.all(jnp.asarray([jnp.all(jnp.isfinite(l)) for l in leaves(x)])))
  if solver == 'normal_cg':
    c.ensure_eq('solves the normal equations', axpy(mvt(mv(x)), r, x), mvt(b), tol=1e-4)
  else:
    c.ensure_eq('solves', axpy(mv(x), r, x), b, tol=1e-4)


@contract('P12', 'rectangular normal equations', cfgs=grid(ridge=['none', 'given']), funcs=FU, runs=6, run_time=6)
def rectangular(c, ridge):
  A, b = c.real('A', ('m', 'n')), c.real('b', ('m',))
  kw, r = option(c, ridge)
  if not c.symbolic:
    kw.update(tol=1e-12, maxiter=400)
    if ridge == 'none':
      c.assume('full column rank', jnp.linalg.det(A.T @ A) > 1e-2)
  x = LS.solve_normal_cg(lambda v: A @ v, b, init=c.real('init', ('n',)), **kw)
  c.ensure_eq('least squares', A.T @ (A @ x) + r * x, A.T @ b, tol=1e-4)


@contract('P12', 'options reach the inner solver', cfgs=grid(solver=list(KRYLOV), init=['none', 'given']), funcs=FU, runs=4)
def options(c, solver, init):
  """The warm start and extra options are handed on unchanged."""
  seen = []
  def inner(op, b, x0=None, **kw):
    seen.append((x0, kw))
    return b, None
  names = {'normal_cg': 'cg'}
  import jax.scipy.sparse.linalg as SL
  c.patch(SL, names.get(solver, solver), inner, always=True)
  A, b = c.real('A', ('n', 'n')), c.real('b', ('n',))
  x0 = c.real('init', ('n',)) if init == 'given' else None
  KRYLOV[solver](lambda v: A @ v, b, init=x0, tol=0.25, maxiter=7)
  c.ensure('called once', jnp.asarray(len(seen) == 1))
  got, kw = seen[0]
  if x0 is None:
    c.ensure('no warm start', jnp.asarray(got is None))
  else:
    c.ensure_eq('warm start', got, x0)
  c.ensure('options', jnp.asarray(kw == dict(tol=0.25, maxiter=7)))
