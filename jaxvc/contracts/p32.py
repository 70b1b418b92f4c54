"""P32: transport, Birkhoff, affine-set and polyhedron projections.

The inner solver is taken by contract: it returns a stationary point of the objective it is given (P11/P17-P19) or a KKT
point of the quadratic program it is given (P25)."""
import types
from .common import *
import jaxopt.projection as PJ
import jaxopt._src.projection as PR
from jaxopt import BoxOSQP
from jaxopt.base import KKTSolution

F = 'jaxopt._src.projection.'
TR = [F + n for n in ('projection_transport', 'kl_projection_transport', 'projection_birkhoff', 'kl_projection_birkhoff', '_regularized_transport_dual', '_regularized_transport_semi_dual',
                      '_make_dual', '_make_semi_dual', '_max_l2', '_max_ent', '_delta_l2', '_delta_ent')]
rows, cols = (lambda M: jnp.sum(M, 1)), (lambda M: jnp.sum(M, 0))


def transport(c, kind, semi, poly, S, a, b, how):
  """Runs the real projection with a solver returning an arbitrary stationary point of the objective it is given."""
  A, B = c.real('alpha', ('n',), draw=lambda r, s: 0.3 * r.normal(size=s)), c.real('beta', ('m',), draw=lambda r, s: 0.3 * r.normal(size=s))
  seen = {}

  def make_solver(fun=None, **opts):
    def run(init_params, cost_matrix, marginals_a, marginals_b):
      seen.update(fun=fun, args=(cost_matrix, marginals_a, marginals_b), opts=opts)
      c.ensure_eq('initial dual variables', init_params, zeros(A) if semi else (zeros(A), zeros(B)))
      c.ensure_eq('cost is minus the similarity', cost_matrix, -S)
      c.ensure_eq('marginals', (marginals_a, marginals_b), (a, b))
      p = A if semi else (A, B)
      val, g = jax.value_and_grad(fun)(p, cost_matrix, marginals_a, marginals_b)
      seen.update(val=val, grad=g)
      if c.symbolic:
        for k, l in enumerate(leaves(g)):
          c.assume('stationary %d' % k, jnp.all(l == 0))
      return types.SimpleNamespace(params=p)
    return types.SimpleNamespace(run=run)
  f = getattr(PJ, ('kl_' if kind == 'kl' else '') + 'projection_' + poly)
  args = (S,) if poly == 'birkhoff' else (S, (a, b))
  if how == 'default':
    c.patch(PR, 'LBFGS', make_solver, always=True)
    P = f(*args, use_semi_dual=semi)
  else:
    P = f(*args, make_solver=make_solver, use_semi_dual=semi)
  return P, A, B, seen


def data(c, poly):
  S = c.real('S', ('n', 'm'))
  if poly == 'birkhoff':
    return S, jnp.ones(S.shape[0]), jnp.ones(S.shape[1])
  a, b = c.real('a', ('n',), draw=lambda r, s: abs(r.normal(size=s)) + 0.1), c.real('b', ('m',), draw=lambda r, s: abs(r.normal(size=s)) + 0.1)
  c.assume('marginals', jnp.all(a > 0))
  c.assume('marginals', jnp.all(b > 0))
  return S, a, b


@contract('P32', 'transport/dual', cfgs=grid(kind=['l2', 'kl'], poly=['transport', 'birkhoff'], how=['default', 'given']), funcs=TR, runs=10, timeout=60)
def dual(c, kind, poly, how):
  S, a, b = data(c, poly)
  P, A, B, seen = transport(c, kind, False, poly, S, a, b, how)
  D = A[:, None] + B[None, :] + S
  want = jnp.maximum(D, 0.0) if kind == 'l2' else jnp.exp(D - 1)
  pen = 0.5 * jnp.sum(jnp.maximum(D, 0.0) ** 2) if kind == 'l2' else jnp.sum(jnp.exp(D - 1))
  c.ensure_eq('dual objective', seen['val'], pen - dot(A, a) - dot(B, b))
  c.ensure_eq('gradient of the dual: row sums', seen['grad'][0], rows(want) - a)
  c.ensure_eq('gradient of the dual: column sums', seen['grad'][1], cols(want) - b)
  c.ensure_eq('plan of the dual point', P, want)
  c.ensure('non-negative', P >= 0)
  c.ensure_eq('plan misses the row marginals by the gradient', rows(P) - a, seen['grad'][0])
  c.ensure_eq('plan misses the column marginals by the gradient', cols(P) - b, seen['grad'][1])


@contract('P32', 'transport/semi-dual kl', cfgs=grid(kind=['kl'], poly=['transport', 'birkhoff'], how=['default', 'given']), funcs=TR, runs=10, timeout=60)
def semi_kl(c, kind, poly, how):
  S, a, b = data(c, poly)
  P, A, B, seen = transport(c, kind, True, poly, S, a, b, how)
  X = A[:, None] + S
  E = jnp.exp(X - jnp.max(X, 0)[None, :])
  want = E / cols(E)[None, :] * b[None, :]
  c.ensure_eq('plan of the dual point', P, want)
  c.ensure_eq('gradient of the semi-dual', seen['grad'], rows(want) - a)
  c.ensure('non-negative', P >= 0)
  c.ensure_eq('plan misses the row marginals by the gradient', rows(P) - a, seen['grad'])
  c.ensure_eq('column marginals', cols(P), b)


@contract('P32', 'transport/semi-dual l2', cfgs=grid(kind=['l2'], poly=['transport', 'birkhoff'], how=['default', 'given']), fix=[{'n': 2, 'm': 1}, {'n': 2, 'm': 2}], funcs=TR, runs=10, timeout=60)
def semi_l2(c, kind, poly, how):
  S, a, b = data(c, poly)
  X = PR._projection_unit_simplex
  PS = c.fun('simplex', 'like0')
  if c.symbolic:   # projection onto the unit simplex by contract (P03)
    c.patch(PR, 'projection_simplex', lambda x, value=1.0: PS(x))
  else:
    PS = PJ.projection_simplex
  P, A, B, seen = transport(c, kind, True, poly, S, a, b, how)
  X = A[:, None] + S
  W = [PS(X[:, j] / b[j]) for j in range(X.shape[1])]
  want = jnp.stack([w * b[j] for j, w in enumerate(W)], 1)
  val = sum(b[j] * (dot(X[:, j], w) - 0.5 * b[j] * dot(w, w)) for j, w in enumerate(W)) - dot(A, a)
  c.ensure_eq('semi-dual objective', seen['val'], val)
  c.ensure_eq('gradient of the semi-dual', seen['grad'], rows(want) - a)
  c.ensure_eq('plan of the dual point', P, want)


# ------------------------------------------------------------------------------------------------ affine sets, polyhedra
@contract('P32', 'projection_affine_set', funcs=[F + 'projection_affine_set'], runs=10)
def affine(c):
  """The QP handed to the equality-constrained solver has the projection as its unique solution: closer than any feasible point."""
  x, A, b, y = c.real('x', ('n',)), c.real('A', ('m', 'n')), c.real('b', ('m',)), c.real('y', ('n',))
  if not c.symbolic:
    b = A @ y
  p, nu = c.real('p', ('n',)), c.real('nu', ('m',))
  if c.symbolic:
    class QP:
      def __init__(self, matvec_Q=None, matvec_A=None, fun=None):
        v = c.real('probe', ('n',))
        c.ensure_eq('quadratic term', matvec_Q(None, v), v)
        c.ensure('matrix given', jnp.asarray(matvec_A is None and fun is None))
      def run(self, init_params=None, params_obj=None, params_eq=None):
        c.ensure('no data for the identity', jnp.asarray(params_obj[0] is None))
        c.ensure_eq('linear term', params_obj[1], -x)
        c.ensure_eq('constraints', params_eq, (A, b))
        return types.SimpleNamespace(params=KKTSolution(p, nu, None))
    c.patch(PR, 'EqualityConstrainedQP', QP)
    c.ensure_eq('primal solution returned', PJ.projection_affine_set(x, (A, b)), p)
  else:
    p = PJ.projection_affine_set(x, (A, b))
    c.ensure_eq('feasible', A @ p, b, tol=1e-2)
    c.ensure_le('closest', norm(x - p), norm(x - y) + 1e-2)


@contract('P32', 'projection_polyhedron', cfgs=grid(check=[True, False], status=[0, 1, 2, 3]), funcs=[F + 'projection_polyhedron'], runs=3)
def polyhedron(c, check, status):
  x, A, b, G, h, p = c.real('x', ('n',)), c.real('A', ('m', 'n')), c.real('b', ('m',)), c.real('G', ('k', 'n')), c.real('h', ('k',)), c.real('p', ('n',))

  class QP:
    def __init__(self, matvec_Q=None, check_primal_dual_infeasability=True, **kw):
      v = c.real('probe', ('n',))
      c.ensure_eq('quadratic term', matvec_Q(None, v), v)
      c.ensure('feasibility check', jnp.asarray(bool(check_primal_dual_infeasability) == check and not kw))
    def run(self, init_params=None, params_obj=None, params_eq=None, params_ineq=None):
      c.ensure('no data for the identity', jnp.asarray(params_obj[0] is None))
      c.ensure_eq('linear term', params_obj[1], -x)
      c.ensure_eq('equalities', params_eq, (A, b))
      c.ensure_eq('inequalities', params_ineq, (G, h))
      return KKTSolution(p, b, h), types.SimpleNamespace(status=status)
  c.patch(PR, 'OSQP', QP, always=True)
  raised, r = False, None
  try:
    r = PJ.projection_polyhedron(x, (A, b, G, h), check_feasible=check)
  except ValueError:
    raised = True
  bad = status in (BoxOSQP.PRIMAL_INFEASIBLE, BoxOSQP.DUAL_INFEASIBLE)
  c.ensure('empty polyhedra are reported when asked', jnp.asarray(raised == (check and bad)))
  if not raised:
    c.ensure_eq('primal solution returned', r, p)
