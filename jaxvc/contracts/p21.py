"""P21: Anderson acceleration combines the stored iterates affinely.

The map is uninterpreted; every history content (not only reachable ones) is covered, the invariant kept by update being
that the Gram matrix is that of the stored residuals. History sizes are the listed ones, everything else arbitrary. The
linear solve inside minimize_residuals is taken by contract (its result satisfies the system handed to it)."""
from .common import *
from jaxopt import AndersonAcceleration, AndersonWrapper
import jaxopt._src.anderson as AN
import jaxopt._src.anderson_wrapper as AW
from jaxopt._src import base

S = 'jaxopt._src.anderson.'
FU = [S + n for n in ('minimize_residuals', 'anderson_step', 'pytree_replace_elem', 'update_history')] + [S + 'AndersonAcceleration.' + n for n in ('init_state', 'update', 'optimality_fun', '__post_init__')]
FW = ['jaxopt._src.anderson_wrapper.AndersonWrapper.' + n for n in ('init_state', 'update', 'optimality_fun', '__post_init__')] + [S + n for n in ('anderson_step', 'update_history', 'pytree_replace_elem')]


def hist(c, name, x, m):
  return tmap(lambda *l: jnp.stack(l), *[c.like('%s%d' % (name, i), x) for i in range(m)])


def at(t, i):
  return tmap(lambda l: l[i], t)


def gram_of(R, m):
  return jnp.stack([jnp.stack([dot(at(R, i), at(R, j)) for j in range(m)]) for i in range(m)])


# ------------------------------------------------------------------------------------------------ the extrapolation weights
@contract('P21', 'weights', cfgs=grid(m=[2, 3]), funcs=[S + 'minimize_residuals'], timeout=60)
def weights(c, m):
  """Weights sum to one and satisfy the optimality condition of min_{sum a = 1} a'(G + ridge I)a, G any Gram matrix."""
  R = c.real('R', (m, 'n'))
  ridge = c.real('ridge', (), draw=lambda r, s: abs(r.normal(size=s)) + 0.05)
  c.assume('ridge', ridge > 0)
  if c.symbolic:   # any symmetric matrix with a solution
    u = {(i, j): c.real('g%d%d' % (i, j)) for i in range(m) for j in range(i, m)}
    G = jnp.stack([jnp.stack([u[min(i, j), max(i, j)] for j in range(m)]) for i in range(m)])
  else:
    G = gram_of(R, m)
  al = AN.minimize_residuals(G, ridge)
  lam, a = al[0], al[1:]
  c.ensure_eq('weights sum to one', jnp.sum(a), jnp.asarray(1.0), tol=1e-6)
  c.ensure_eq('stationary on the constraint', jnp.sum((G + ridge * jnp.eye(m)) * a[None, :], 1) + lam, jnp.zeros(m), tol=1e-6)


@contract('P21', 'weights minimise', cfgs=grid(m=[2, 3]), funcs=[], timeout=60)
def minimise(c, m):
  """From the two conclusions of contract weights: no other affine combination of the residuals has a smaller regularised norm."""
  R, a, b, lam = c.real('R', (m, 'n')), c.real('a', (m,)), c.real('b', (m - 1,)), c.real('lam')
  a = jnp.append(a[:-1], 1 - jnp.sum(a[:-1]))     # any two weight vectors summing to one
  b = jnp.append(b, 1 - jnp.sum(b))
  ridge = c.real('ridge', (), draw=lambda r, s: abs(r.normal(size=s)) + 0.05)
  res = lambda w: sum(w[i] * R[i] for i in range(m))
  obj = lambda w: jnp.sum(res(w) ** 2) + ridge * jnp.sum(w * w)
  stat = jnp.stack([jnp.sum(R[i] * res(a)) + ridge * a[i] for i in range(m)])
  gap = jnp.sum(res(b - a) ** 2) + ridge * jnp.sum((b - a) ** 2)
  c.ensure_eq('excess', obj(b) - obj(a), gap + 2 * jnp.sum((b - a) * stat), tol=1e-5)
  c.ensure_eq('cross term vanishes when stationary', jnp.sum((b - a) * (-lam)), jnp.asarray(0.0))


class Weights:
  """minimize_residuals by contract: an unknown vector, with a check of what it is given."""

  def __init__(self, c, m, gram, ridge):
    self.al = c.real('al', (m + 1,))
    self.calls = 0
    def stub(G, r):
      self.calls += 1
      c.ensure_eq('weights computed from the stored Gram matrix', G, gram)
      c.ensure_eq('ridge', jnp.asarray(r) * 1.0, jnp.asarray(ridge) * 1.0)
      return self.al
    c.patch(AN, 'minimize_residuals', stub)
    self.a = self.al[1:]


def extrapolation(P, R, a, beta, m):
  pa = tmap(lambda l: sum(a[i] * l[i] for i in range(m)), P)
  ra = tmap(lambda l: sum(a[i] * l[i] for i in range(m)), R)
  return axpy(pa, beta, ra)


CF = {**grid(m=[2, 3], freq=[1, 2], lay=['arr', 'tree'], aux=[False, True], pos=[0, 1, 2]), }
CF = {k: v for k, v in CF.items() if v['pos'] < v['m'] and (v['m'] == 2 or v['lay'] == 'arr')}


def check_history(c, x, st, n, P, R, pos, m, ext, resid):
  Pn = [ext if i == pos else at(P, i) for i in range(m)]
  Rn = [resid if i == pos else at(R, i) for i in range(m)]
  for i in range(m):
    c.ensure_eq('iterate slot %d' % i, at(n.params_history, i), Pn[i])
    c.ensure_eq('residual slot %d' % i, at(n.residuals_history, i), Rn[i])
    for j in range(m):
      c.ensure_eq('gram %d%d' % (i, j), n.residual_gram[i, j], dot(Rn[i], Rn[j]))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)


@contract('P21', 'update', cfgs=CF, funcs=FU, runs=12, timeout=40)
def update(c, m, freq, lay, aux, pos):
  T, A = c.fun('T', 'like0'), c.fun('aux', ())
  x, th = tree(c, 'x', lay), c.real('theta', ('p',))
  beta, ridge = 0.75, 0.125
  fun = (lambda x, th: (T(x, th), {'k': A(x, th)})) if aux else (lambda x, th: T(x, th))
  s = AndersonAcceleration(fun, history_size=m, mixing_frequency=freq, beta=beta, ridge=ridge, has_aux=aux)
  st0 = s.init_state(x, th)
  P, R = hist(c, 'P', x, m), hist(c, 'R', x, m)
  # any iteration number whose write position is pos
  q = c.int('q', (), lo=0, hi=6)
  c.assume('q', q >= 0)
  it = q * m + pos
  G = gram_of(R, m)
  st = c.like('st', st0)._replace(iter_num=it, params_history=P, residuals_history=R, residual_gram=G)
  if c.symbolic:
    w = Weights(c, m, G, ridge)
    a = w.a
  else:
    a = AN.minimize_residuals(G, ridge)[1:]
  y, n = s.update(x, st, th)
  use = (it >= m) & (it % freq == 0)
  e = extrapolation(P, R, a, beta, m)
  ext = tmap(lambda u, v: jnp.where(use, u, v), e, x)
  if c.symbolic:
    c.ensure_eq('extrapolates only with a full history, every mixing_frequency', n.params_history, tmap(lambda h, v: h.at[pos].set(v), P, ext))
    ext = at(n.params_history, pos)
  tol = {} if c.symbolic else dict(tol=1e-5)
  t = T(ext, th)
  resid = sub(t, ext)
  c.ensure_eq('parameters are the map at the extrapolated point', y, t, **tol)
  check_history(c, x, st, n, P, R, pos, m, ext, resid)
  c.sq_nonneg('residual', resid)
  c.ensure_eq('error is the residual norm', n.error, norm(resid), **tol)
  c.ensure_eq('aux', n.aux, {'k': A(ext, th)} if aux else None, **tol)
  c.ensure_eq('evaluations', n.num_fun_eval, st.num_fun_eval + 1)


@contract('P21', 'init', cfgs=grid(m=[2, 3, 5], lay=['arr', 'tree', 'nest'], aux=[False, True]), funcs=FU)
def init(c, m, lay, aux):
  T, A = c.fun('T', 'like0'), c.fun('aux', ())
  x, th = tree(c, 'x', lay), c.real('theta', ('p',))
  fun = (lambda x, th: (T(x, th), {'k': A(x, th)})) if aux else (lambda x, th: T(x, th))
  s = AndersonAcceleration(fun, history_size=m, has_aux=aux)
  st = s.init_state(x, th)
  for i in range(m):
    c.ensure_eq('iterates start at the initial point', at(st.params_history, i), x)
    c.ensure_eq('no residual yet', at(st.residuals_history, i), zeros(x))
  c.ensure_eq('gram is that of the stored residuals', st.residual_gram, jnp.zeros((m, m)))
  c.ensure_eq('counter', st.iter_num, jnp.asarray(0))
  c.ensure('first iteration runs', st.error == jnp.inf)
  c.ensure_eq('aux', st.aux, {'k': A(x, th)} if aux else None)
  c.ensure_eq('optimality', s.optimality_fun(x, th), sub(T(x, th), x))


@contract('P21', 'first steps are plain', cfgs=grid(m=[2, 3], lay=['arr', 'tree']), funcs=FU, while_unroll=4)
def plain(c, m, lay):
  T = c.fun('T', 'like0')
  x, th = tree(c, 'x', lay), c.real('theta', ('p',))
  s = AndersonAcceleration(lambda x, th: T(x, th), history_size=m)
  st, y = s.init_state(x, th), x
  for k in range(m):
    prev = y
    z, st = s.update(y, st, th)
    y = T(y, th)
    c.ensure_eq('fixed-point step %d' % k, z, y)
    c.ensure_eq('history %d' % k, at(st.params_history, k), prev)


# ------------------------------------------------------------------------------------------------ wrapper around a solver
class Inner:
  """An arbitrary inner solver: init_state and update are uninterpreted in everything they receive."""
  maxiter, tol = 77, 0.25

  def __init__(self, c, x):
    self.U, self.I, self.E, self.W = c.fun('U', 'like0'), c.fun('I', ()), c.fun('E', ()), c.fun('W', ())
    self.O = c.fun('O', 'like0')
    self.reference_signature = lambda p, th: None
    from typing import NamedTuple, Any
    import collections
    self.State = collections.namedtuple('State', 'error mem')

  def init_state(self, p, *a, **k):
    return self.State(error=self.E(p, *a), mem=self.I(p, *a))

  def update(self, p, st, *a, **k):
    return base.OptStep(self.U(p, st.mem, st.error, *a), self.State(error=self.E(p, st.mem, *a), mem=self.W(p, st.mem, *a)))

  def optimality_fun(self, p, *a, **k):
    return self.O(p, *a)


@contract('P21', 'wrapper', cfgs={k: v for k, v in grid(m=[2, 3], freq=[None, 1], lay=['arr', 'tree'], pos=[0, 1, 2]).items() if v['pos'] < v['m'] and (v['m'] == 2 or v['lay'] == 'arr')}, funcs=FW, runs=12, timeout=40)
def wrapper(c, m, freq, lay, pos):
  x, th = tree(c, 'x', lay), c.real('theta', ('p',))
  inner = Inner(c, x)
  beta, ridge = 0.75, 0.125
  s = AndersonWrapper(inner, history_size=m, mixing_frequency=freq, beta=beta, ridge=ridge)
  c.ensure('limits of the inner solver', jnp.asarray(s.maxiter == 77 and s.tol == 0.25))
  st0 = s.init_state(x, th)
  i0 = inner.init_state(x, th)
  c.ensure_eq('initial inner state', (st0.solver_state.error, st0.solver_state.mem), (i0.error, i0.mem))
  c.ensure_eq('initial error', st0.error, i0.error)
  for i in range(m):
    c.ensure_eq('iterates start at the initial point', at(st0.params_history, i), x)
    c.ensure_eq('no residual yet', at(st0.residuals_history, i), zeros(x))
  c.ensure_eq('initial gram', st0.residual_gram, jnp.zeros((m, m)))
  P, R = hist(c, 'P', x, m), hist(c, 'R', x, m)
  q = c.int('q', (), lo=0, hi=6)
  c.assume('q', q >= 0)
  it = q * m + pos
  G = gram_of(R, m)
  mem = inner.State(error=c.real('e'), mem=c.real('mem'))
  st = c.like('st', st0)._replace(iter_num=it, params_history=P, residuals_history=R, residual_gram=G, solver_state=mem)
  if c.symbolic:
    a = Weights(c, m, G, ridge).a
  else:
    a = AN.minimize_residuals(G, ridge)[1:]
  y, n = s.update(x, st, th)
  f = m if freq is None else freq
  use = (it >= m) & (it % f == 0)
  e = extrapolation(P, R, a, beta, m)
  ext = tmap(lambda u, v: jnp.where(use, u, v), e, x)
  if c.symbolic:
    c.ensure_eq('extrapolates only with a full history, every mixing_frequency', n.params_history, tmap(lambda h, v: h.at[pos].set(v), P, ext))
    ext = at(n.params_history, pos)
  tol = {} if c.symbolic else dict(tol=1e-5)
  fresh = inner.init_state(ext, th)
  ist = inner.State(*[jnp.where(use, u, v) for u, v in zip(fresh, mem)])
  z, nst = inner.update(ext, ist, th)
  c.ensure_eq('inner step from the extrapolated point, restarted after an extrapolation', y, z, **tol)
  c.ensure_eq('inner state', tuple(n.solver_state), tuple(nst), **tol)
  c.ensure_eq('error is the inner error', n.error, nst.error, **tol)
  check_history(c, x, st, n, P, R, pos, m, ext, sub(z, ext))
  c.ensure_eq('optimality', s.optimality_fun(x, th), inner.O(x, th))
