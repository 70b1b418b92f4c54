"""P14: backtracking line search.  Objective, point, direction, line-search state are arbitrary; `update` is checked
against the contract for every state reachable from `init_state` (state invariant: value_init and grad_init are those
of the starting point), and bounded unrollings of `run` are compared with the mathematical search."""
from .lsearch import *
from jaxopt import BacktrackingLineSearch

F = 'jaxopt._src.backtracking_linesearch.BacktrackingLineSearch.'
FN = [F + 'init_state', F + 'update', F + '_compute_final_grad']
CONDS = ['armijo', 'goldstein', 'wolfe', 'strong-wolfe']
C1, C2, DEC, MAXS, TOL, MAXIT = 0.1, 0.7, 0.8, 1.5, 0.25, 7


def accepted(cond, s, f0, f1, sl0, sl1, tol):
  ok = f1 <= f0 + C1 * s * sl0 + tol
  if cond == 'goldstein':
    ok = ok & (f1 >= f0 + (1 - C1) * s * sl0 - tol)
  if cond == 'wolfe':
    ok = ok & (sl1 >= C2 * sl0 - tol)
  if cond == 'strong-wolfe':
    ok = ok & (jnp.abs(sl1) <= C2 * jnp.abs(sl0) + tol)
  return ok


def make(c, cond, flavour, aux, **kw):
  fun, vg, f, g, A = problem(c, flavour, aux)
  kw = dict(dict(tol=TOL, maxiter=MAXIT), **kw)
  ls = BacktrackingLineSearch(fun=fun, value_and_grad=vg, has_aux=aux, condition=cond, c1=C1, c2=C2, decrease_factor=DEC,
                              max_stepsize=MAXS, **kw)
  return ls, f, g, A


@contract('P14', 'init', cfgs=grid(cond=CONDS, flavour=['fun', 'both', 'callable'], given=[True, False, 'value', 'grad']), funcs=FN)
def init(c, cond, flavour, given):
  ls, f, g, A = make(c, cond, flavour, False)
  x, a, s0 = c.real('x', ('n',)), c.real('a'), c.real('s0')
  if given in ('value', 'grad'):        # half of the pair: the missing half is computed
    v, gr = f(x, a), g(x, a)
    st = ls.init_state(s0, x, fun_args=(a,), **{given: v if given == 'value' else gr})
  elif given:
    v, gr = c.real('v'), c.real('gr', ('n',))
    st = ls.init_state(s0, x, v, gr, None, (a,), {})
  else:
    v, gr = f(x, a), g(x, a)
    st = ls.init_state(s0, x, fun_args=(a,))
  c.ensure_eq('starting value', st.value_init, v)
  c.ensure_eq('starting gradient', st.grad_init, gr)
  c.ensure_eq('value', st.value, v)
  c.ensure_eq('gradient', st.grad, gr)
  c.ensure_eq('params', st.params, x)
  c.ensure_eq('counter', st.iter_num, jnp.asarray(0))
  c.ensure('neither done nor failed', ~st.done & ~st.failed)
  c.ensure('first iteration runs', st.error == jnp.inf)


@contract('P14', 'update', cfgs=grid(cond=CONDS, flavour=['fun', 'both', 'callable'], aux=[False, True], direction=['given', 'steepest'], lay=['arr', 'tree']), funcs=FN, runs=12)
def update(c, cond, flavour, aux, direction, lay):
  ls, f, g, A = make(c, cond, flavour, aux)
  x, a = tree(c, 'x', lay), c.real('a')
  s = c.real('s', (), lo=0.05, hi=3.0)
  f0, g0 = f(x, a), g(x, a)
  d = tree(c, 'd', lay) if direction == 'given' else scale(-1.0, g0)
  st = ls.init_state(s, x, f0, g0, None, (a,), {})
  st = c.like('st', st, lo=0, hi=MAXIT - 1)._replace(value_init=f0, grad_init=g0, done=jnp.asarray(False), failed=jnp.asarray(False), aux=None)
  c.assume('stepsize>0', s > 0)
  c.assume('running', (st.iter_num >= 0) & (st.iter_num < MAXIT))
  ns, n = ls.update(s, st, x, f0, g0, d if direction == 'given' else None, (a,), {})
  t = jnp.minimum(s, MAXS)
  y = axpy(x, t, d)
  fy, gy = f(y, a), g(y, a)
  sl0, sl1 = dot(g0, d), dot(gy, d)
  ok = accepted(cond, t, f0, fy, sl0, sl1, TOL)
  c.ensure('success iff the condition holds', n.done == ok)
  c.ensure('failure iff the limit is reached without success', n.failed == ((st.iter_num + 1 == MAXIT) & ~ok))
  c.ensure('error within tolerance iff success', (n.error <= TOL) == ok)
  stop = n.done | n.failed
  c.ensure_eq('returned step', ns, t, when=stop)
  c.ensure_eq('next trial step', ns, t * DEC, when=~stop)
  c.ensure('step range', (ns > 0) & (ns <= MAXS))
  c.ensure_eq('params', n.params, y)
  c.ensure_eq('value', n.value, fy)
  c.ensure_eq('gradient', n.grad, gy, when=stop)
  c.ensure_eq('aux', n.aux, auxof(A, aux, y, a))
  c.ensure_eq('starting value kept', n.value_init, f0)
  c.ensure_eq('starting gradient kept', n.grad_init, g0)
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)


@contract('P14', 'non-finite trial', cfgs=grid(cond=CONDS), funcs=FN, runs=12)
def nonfinite(c, cond):
  """A trial whose value is NaN or infinite is never accepted (minus infinity aside) and the step stays finite."""
  f = c.fun('f', (), special=True)
  G = c.fun('g', 'like0')
  ls = BacktrackingLineSearch(fun=lambda x, a: (f(x, a), G(x, a)), value_and_grad=True, condition=cond, c1=C1, c2=C2, decrease_factor=DEC,
                              max_stepsize=MAXS, tol=TOL, maxiter=MAXIT)
  x, a, d, s = c.real('x', ('n',)), c.real('a'), c.real('d', ('n',)), c.real('s', (), lo=0.05, hi=3.0)
  f0, g0 = c.real('f0'), G(x, a)
  c.assume('stepsize>0', s > 0)
  st = ls.init_state(s, x, f0, g0, None, (a,), {})
  ns, n = ls.update(s, st, x, f0, g0, d, (a,), {})
  fy = f(x + jnp.minimum(s, MAXS) * d, a)
  c.ensure('not accepted', ~n.done, when=jnp.isnan(fy) | (fy == jnp.inf))
  c.ensure('step range', (ns > 0) & (ns <= MAXS))


@contract('P14', 'run', cfgs=grid(cond=CONDS, maxiter=[1, 2, 3], aux=[False, True]), funcs=FN + ['jaxopt._src.base.IterativeLineSearch.run'], while_unroll=4, runs=12)
def run(c, cond, maxiter, aux):
  """The first of s, s*dec, s*dec^2, ... meeting the condition is returned, the last one as a failure when none does."""
  ls, f, g, A = make(c, cond, 'both', aux, maxiter=maxiter)
  x, a, d, s = c.real('x', ('n',)), c.real('a'), c.real('d', ('n',)), c.real('s', (), lo=0.05, hi=3.0)
  f0, g0 = f(x, a), g(x, a)
  c.assume('stepsize>0', s > 0)
  ns, n = ls.run(s, x, f0, g0, d, (a,), {})
  t, trials = jnp.minimum(s, MAXS), []
  for k in range(maxiter):
    y = x + t * d
    trials.append((accepted(cond, t, f0, f(y, a), jnp.sum(g0 * d), jnp.sum(g(y, a) * d), TOL), t, y))
    t = t * DEC
  ok, rt, ry = trials[-1]
  done = ok
  for ok, t, y in reversed(trials[:-1]):
    rt, ry, done = jnp.where(ok, t, rt), jnp.where(ok, y, ry), ok | done
  c.ensure('success', n.done == done)
  c.ensure('failure', n.failed == ~done)
  c.ensure_eq('step', ns, rt)
  c.ensure_eq('params', n.params, ry)
  fy, gy, ay = trials[-1][2], None, None
  vals = [(ok, f(y, a), g(y, a), A(y, a)) for ok, _, y in trials]
  _, v, gr, au = vals[-1]
  for ok, v1, g1, a1 in reversed(vals[:-1]):
    v, gr, au = jnp.where(ok, v1, v), jnp.where(ok, g1, gr), jnp.where(ok, a1, au)
  c.ensure_eq('value', n.value, v)
  c.ensure_eq('gradient', n.grad, gr)
  c.ensure_eq('aux', n.aux, {'k': au} if aux else None)
