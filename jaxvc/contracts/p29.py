"""P29: fixed-point iteration and iterative refinement follow their residual invariants.

Fixed point: the map is uninterpreted. Iterative refinement: operators are arbitrary matrices (or uninterpreted linear
maps given by a matrix) and the inner solver is an uninterpreted function of the operator's action, the target and the
warm start; the exact inner solver is the contract `A r = target`."""
from .common import *
import jaxopt
from jaxopt import FixedPointIteration, IterativeRefinement
from jaxopt._src.iterative_refinement import solve_iterative_refinement

F = 'jaxopt._src.'
FP = [F + 'fixed_point_iteration.FixedPointIteration.' + n for n in ('init_state', 'update', 'optimality_fun')]
IR = [F + 'iterative_refinement.IterativeRefinement.' + n for n in ('init_state', 'init_params', 'update', 'run', 'optimality_fun', 'l2_optimality_error')]


@contract('P29', 'fixed point/update', cfgs=grid(lay=['arr', 'tree', 'nest', 'scalar'], aux=[False, True], jit=[True, False]), funcs=FP)
def fpu(c, lay, aux, jit):
  T, A = c.fun('T', 'like0'), c.fun('aux', ())
  x, a, b = tree(c, 'x', lay), c.real('a', ('m',)), c.real('b')
  fun = (lambda x, a, b: (T(x, a, b), {'k': A(x, a, b)})) if aux else (lambda x, a, b: T(x, a, b))
  s = FixedPointIteration(fun, has_aux=aux, jit=jit)
  st0 = s.init_state(x, a, b=b)
  c.ensure_eq('init counter', st0.iter_num, jnp.asarray(0))
  c.ensure('first iteration runs', st0.error == jnp.inf)
  st = c.like('st', st0)
  p, n = s.update(x, st, a, b=b)
  t = T(x, a, b)
  c.ensure_eq('params', p, t)
  c.sq_nonneg('displacement', sub(t, x))
  c.ensure_eq('error', n.error, norm(sub(t, x)))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  c.ensure_eq('evaluations', n.num_fun_eval, st.num_fun_eval + 1)
  c.ensure_eq('aux', n.aux, {'k': A(x, a, b)} if aux else None)
  c.ensure_eq('optimality', s.optimality_fun(x, a, b=b), sub(t, x))
  c.ensure_eq('l2 optimality error', s.l2_optimality_error(x, a, b=b), norm(sub(t, x)))


@contract('P29', 'fixed point/run', cfgs=grid(lay=['arr', 'tree'], maxiter=[1, 2, 3]), funcs=FP, while_unroll=4)
def fpr(c, lay, maxiter):
  T = c.fun('T', 'like0')
  x, a = tree(c, 'x', lay), c.real('a', ('m',))
  s = FixedPointIteration(lambda x, a: T(x, a), maxiter=maxiter, tol=-1.0)
  p, st = s.run(x, a)
  prev = x
  for _ in range(maxiter):
    prev, x = x, T(x, a)
    c.sq_nonneg('displacement', sub(x, prev))
  c.ensure_eq('iterates of the map', p, x)
  c.ensure_eq('error', st.error, norm(sub(x, prev)))
  c.ensure_eq('counter', st.iter_num, jnp.asarray(maxiter))


@contract('P29', 'refinement/update', cfgs=grid(op=['dense', 'fun'], bar=['same', 'other'], first=[True, False]), funcs=IR)
def iru(c, op, bar, first):
  """r = b - A x holds after every update, whatever the inner solver returns and whatever target the state carried (rounding
  in the carried target must not accumulate): the residual is recomputed from the new parameters."""
  n = 'n'
  A, b, x = c.real('A', (n, n)), c.real('b', (n,)), c.real('x', (n,))
  S = c.fun('inner', 'like0')
  pbar = c.real('pbar', (n, n)) if bar == 'other' else A
  probe = c.real('probe', (n,))
  # the inner solver may only act through the operator it is given: it is represented by what it does on a probe
  solve = lambda mv, t, init=None: S(t, init, mv(probe))
  mv = lambda A, x: jnp.dot(A, x)
  kw = dict(solve=solve)
  if op == 'fun':
    kw['matvec_A'] = mv
  if bar == 'other':
    kw['matvec_A_bar'] = lambda A, x: jnp.dot(A, x) + 2 * x
  s = IterativeRefinement(**kw)
  args = (A, b) + ((pbar,) if bar == 'other' else ())
  st = s.init_state(x, *args)
  c.ensure_eq('initial target', st.target_residuals, b - A @ x)
  c.ensure_eq('correction warm start', st.init, jnp.zeros_like(b))
  if not first:
    st = c.like('st', st)
  p, nst = s.update(x, st, *args)
  act = A @ probe if bar == 'same' else pbar @ probe + 2 * probe
  c.ensure_eq('params', p, x + S(st.target_residuals, st.init, act))
  c.ensure_eq('target residual invariant', nst.target_residuals, b - A @ p)
  c.sq_nonneg('residual', b - A @ p)
  c.ensure_eq('error', nst.error, norm(b - A @ p))
  c.ensure_eq('correction warm start reset', nst.init, jnp.zeros_like(b))
  c.ensure_eq('counter', nst.iter_num, st.iter_num + 1)
  c.ensure_eq('optimality', s.optimality_fun(p, *args), b - A @ p)
  c.ensure_eq('l2 optimality error', s.l2_optimality_error(p, *args), norm(b - A @ p))


@contract('P29', 'refinement/exact inner solver', cfgs=grid(init=['given', 'none'], api=['class', 'function']), funcs=IR + [F + 'iterative_refinement.solve_iterative_refinement'])
def irx(c, init, api):
  """When the inner solver returns r with A r = target, one update reaches A x = b and the error is zero: the run stops
  after one update, from any warm start."""
  n = 'n'
  A, b = c.real('A', (n, n)), c.real('b', (n,))
  x0 = c.real('x', (n,)) if init == 'given' else None
  tol = c.real('tol', (), lo=1e-3, hi=1.0)
  c.assume('tol>0', tol > 0)
  if c.symbolic:
    # contract of an exact solver: whatever it returns satisfies mv(r) = t
    solve = lambda mv, t, init=None: jax.lax.custom_linear_solve(mv, t, lambda mv, t: t)
    start = x0 if x0 is not None else jnp.zeros_like(b)
  else:
    c.assume('invertible', jnp.abs(jnp.linalg.det(A)) > 1e-2)
    solve = lambda mv, t, init=None: jnp.linalg.solve(A + 0.0, t)
    start = x0 if x0 is not None else jnp.zeros_like(b)
  if api == 'class':
    s = IterativeRefinement(solve=solve, matvec_A=lambda A, x: jnp.dot(A, x), tol=tol)
    p, st = s.update(start, s.init_state(start, A, b), A, b)
    c.ensure_eq('exact after one update', A @ p, b, tol=1e-4)
    c.ensure_eq('zero residual', st.target_residuals, jnp.zeros_like(b), tol=1e-4)  # and error = norm of it by the update contract
  else:
    p = solve_iterative_refinement(lambda v: A @ v, b, init=x0, maxiter=1, tol=tol, solve=solve)
    c.ensure_eq('exact after one update', A @ p, b, tol=1e-4)
