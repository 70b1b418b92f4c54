"""P08: solvers run exactly the updates they should.

`run` is checked against its definition for an arbitrary solver: `init_state` and `update` are uninterpreted, so the
contract covers every error sequence, every starting point and every tolerance.  The stopping rules that individual
solvers override are checked on those solvers' own `run`, with `update` taken by contract (uninterpreted)."""
import dataclasses
from typing import NamedTuple, Any
from .common import *
import jaxopt
from jaxopt._src import base

F = 'jaxopt._src.base.'
FUN = [F + 'IterativeSolver.run', F + 'IterativeSolver._run', F + 'IterativeSolver._cond_fun', F + 'IterativeSolver._body_fun', F + 'IterativeSolver._make_zero_step',
       F + 'IterativeSolver._get_unroll_option', 'jaxopt._src.loop.while_loop']


class St(NamedTuple):
  iter_num: Any
  error: Any
  extra: Any
  none: Any = None


@dataclasses.dataclass(eq=False)
class Any_(base.IterativeSolver):
  ini: Any
  upd: Any
  maxiter: int = 3
  tol: Any = 1e-3
  implicit_diff: bool = False
  implicit_diff_solve: Any = None
  jit: bool = True
  unroll: Any = 'auto'

  def init_state(self, params, *a, **k):
    return self.ini(params, *a, **k)

  def update(self, params, state, *a, **k):
    return base.OptStep(*self.upd(params, state, *a, **k))

  def optimality_fun(self, params, *a, **k):
    return tmap(lambda x: x * 0, params)


def mocks(c):
  U, E, X, E0, X0 = c.fun('U', 'like0'), c.fun('E', ()), c.fun('X', ('n',)), c.fun('E0', ()), c.fun('X0', ('n',))
  def ini(p, a, kw=None):
    return St(jnp.asarray(0), E0(p, a, kw), X0(p, a, kw))
  def upd(p, s, a, kw=None):
    q = U(p, s.extra, a, kw)
    return q, St(s.iter_num + 1, E(q, s.extra, a, kw), X(q, s.extra, a, kw))
  return ini, upd


def reference(ini, upd, p, tol, maxiter, stop, *a, **k):
  """Initialise; the first update always runs; later ones while the stopping rule allows and the limit is not reached."""
  s = ini(p, *a, **k)
  if maxiter == 0:
    return p, s
  p, s = upd(p, s, *a, **k)
  for _ in range(maxiter - 1):
    go = ~stop(p, s)
    q, t = upd(p, s, *a, **k)
    p, s = tmap(lambda x, y: jnp.where(go, x, y), (q, t), (p, s))
  return p, s


@contract('P08', 'run', cfgs=grid(maxiter=[0, 1, 2, 3], unroll=[True, False, 'auto'], imp=[True, False], lay=['arr', 'tree']), funcs=FUN, while_unroll=6, runs=10)
def run(c, maxiter, unroll, imp, lay):
  ini, upd = mocks(c)
  p, a, kw = tree(c, 'p', lay), c.real('a', ('m',)), c.real('kw')
  tol = c.real('tol', (), lo=0, hi=3)
  s = Any_(ini, upd, maxiter=maxiter, tol=tol, implicit_diff=imp, jit=True, unroll=unroll)
  q, t = s.run(p, a, kw=kw)
  rq, rt = reference(ini, upd, p, tol, maxiter, lambda p, s: s.error <= tol, a, kw=kw)
  c.ensure_eq('params', q, rq)
  c.ensure_eq('state', t, rt)


@contract('P08', 'run/interpreted', cfgs=grid(maxiter=[0, 1, 2, 3], stop=[0, 1, 2, 3, 9], unroll=[True, 'auto'], imp=[False]), funcs=FUN, runs=5)
def run_python(c, maxiter, stop, unroll, imp):
  """jit=False branches on concrete errors: every stop time up to the bound is enumerated, parameters stay symbolic."""
  U = c.fun('U', 'like0')
  err = lambda t: 0.5 if t < stop else 0.1
  ini = lambda p: St(0, err(0), p * 2)
  upd = lambda p, s: (U(p, s.extra), St(s.iter_num + 1, err(s.iter_num + 1), p + s.extra))
  p = c.real('p', ('n',))
  s = Any_(ini, upd, maxiter=maxiter, tol=0.1, implicit_diff=imp, jit=False, unroll=unroll)
  q, t = s.run(p)
  rp, rs = p, ini(p)
  k = 0 if maxiter == 0 else max(1, min(stop, maxiter))
  for _ in range(k):
    rp, rs = upd(rp, rs)
  c.ensure_eq('params', q, rp)
  c.ensure_eq('state', t.extra, rs.extra)
  c.ensure('iterations', jnp.asarray(t.iter_num == k))


@contract('P08', 'run/unbounded', funcs=FUN, runs=10)
def run_unbounded(c):
  """Any number of iterations: the state after t updates is G(t), its error E(t)."""
  G, E = c.fun('G', ('n',)), c.fun('E', ())
  class Counted(NamedTuple):     # the error is a function of the number of updates made
    iter_num: Any
    @property
    def error(self):
      return E(self.iter_num)
  ini = lambda p: Counted(jnp.asarray(0))
  upd = lambda p, s: (G(s.iter_num + 1), Counted(s.iter_num + 1))
  tol = c.real('tol', (), lo=0, hi=3)
  s = Any_(ini, upd, maxiter=500, tol=tol, implicit_diff=False, jit=True, unroll=False)
  q, t = s.run(c.real('p', ('n',)))
  k = t.iter_num
  c.ensure('stops only when told', (E(k) <= tol) | (k >= 500))
  c.ensure('within the limit', (1 <= k) & (k <= 500))
  c.ensure('last update was needed', (k == 1) | (E(k - 1) > tol))
  c.ensure_eq('params', q, G(k))


# ----------------------------------------------------------------------------- the solvers' own stopping rules
def make(c, which, sls, maxiter, tol):
  kw = dict(maxiter=maxiter, tol=tol, implicit_diff=False, jit=True, unroll=False)
  f_, G_, A = c.fun('f', ()), c.fun('G', 'like0'), jaxopt
  f, G = (lambda x: f_(x)), (lambda x: G_(x))
  ls = dict(stop_if_linesearch_fails=sls)
  mk = dict(
      GradientDescent=lambda: A.GradientDescent(fun=f, **kw),
      ProximalGradient=lambda: A.ProximalGradient(fun=f, prox=lambda x, h, s: x, **kw),
      ProjectedGradient=lambda: A.ProjectedGradient(fun=f, projection=lambda x, h: x, **kw),
      MirrorDescent=lambda: A.MirrorDescent(fun=f, projection_grad=lambda x, g, s, h: x, stepsize=0.1, **kw),
      LBFGS=lambda: A.LBFGS(fun=f, **kw, **ls),
      LBFGSB=lambda: A.LBFGSB(fun=f, **kw, **ls),
      BFGS=lambda: A.BFGS(fun=f, **kw),
      NonlinearCG=lambda: A.NonlinearCG(fun=f, **kw),
      Broyden=lambda: A.Broyden(fun=G, **kw, **ls),
      FixedPointIteration=lambda: A.FixedPointIteration(fixed_point_fun=G, **kw),
      AndersonAcceleration=lambda: A.AndersonAcceleration(fixed_point_fun=G, **kw),
      GaussNewton=lambda: A.GaussNewton(residual_fun=G, **kw),
      LevenbergMarquardt=lambda: A.LevenbergMarquardt(residual_fun=G, **kw),
      PolyakSGD=lambda: A.PolyakSGD(fun=f, max_stepsize=0.1, **kw),
      ArmijoSGD=lambda: A.ArmijoSGD(fun=f, **kw),
  )
  return mk[which]()


NAMES = ['GradientDescent', 'ProximalGradient', 'ProjectedGradient', 'MirrorDescent', 'LBFGS', 'LBFGSB', 'BFGS', 'NonlinearCG', 'Broyden', 'FixedPointIteration',
         'AndersonAcceleration', 'GaussNewton', 'LevenbergMarquardt', 'PolyakSGD', 'ArmijoSGD']
WITH_LS = ['LBFGS', 'LBFGSB', 'Broyden']


def own_rule(c, s, st0, stop, maxiter, params, extra=(), args=()):
  """run(s) with init_state/update replaced by an arbitrary initial state and an uninterpreted update."""
  U, E, Fl, D = c.fun('U', 'like0'), c.fun('E', ()), c.fun('Failed', (), dtype=bool), c.fun('D', ('n',))
  names = st0._fields
  def upd(p, s, *a, **k):
    q = U(p, s.iter_num)
    rep = dict(iter_num=s.iter_num + 1, error=E(q, s.iter_num))
    if 'failed_linesearch' in names:
      rep['failed_linesearch'] = Fl(q, s.iter_num)
    for x in extra:
      rep[x] = c.fun('extra_' + x, ('n',))(q, s.iter_num)
    return base.OptStep(q, s._replace(**rep))
  ini = lambda p, *a, **k: st0
  tgt = s._pg if hasattr(s, '_pg') else s
  tgt.update, tgt.init_state = upd, ini
  q, t = s.run(params, *args)
  rq, rt = reference(ini, upd, params, None, maxiter, stop)
  keep = ['iter_num', 'error'] + [x for x in ('failed_linesearch',) if x in names]
  c.ensure_eq('params', q, rq)
  c.ensure_eq('state', [getattr(t, k) for k in keep], [getattr(rt, k) for k in keep])


@contract('P08', 'solver/tolerance', cfgs=grid(which=NAMES, maxiter=[0, 1, 3]), funcs=FUN + ['jaxopt._src.lbfgs.LBFGS._cond_fun', 'jaxopt._src.lbfgsb.LBFGSB._cond_fun', 'jaxopt._src.broyden.Broyden._cond_fun'],
          fix=[{'n': 2}], while_unroll=6, runs=5)
def tolerance(c, which, maxiter):
  tol = c.real('tol', (), lo=0, hi=3)
  s = make(c, which, False, maxiter, tol)
  p = c.real('p', ('n',))
  extra = dict(LBFGSB=((p - 1, p + 1),), MirrorDescent=(None,), ProximalGradient=(None,), ProjectedGradient=(None,)).get(which, ())
  st0 = s.init_state(p, *extra)
  own_rule(c, s, st0, lambda p, st: st.error <= tol, maxiter, p, args=extra)


@contract('P08', 'solver/failed line search', cfgs=grid(which=WITH_LS, maxiter=[0, 1, 3]), funcs=FUN + ['jaxopt._src.lbfgs.LBFGS._cond_fun', 'jaxopt._src.lbfgsb.LBFGSB._cond_fun', 'jaxopt._src.broyden.Broyden._cond_fun'],
          fix=[{'n': 2}], while_unroll=6, runs=5)
def failed_ls(c, which, maxiter):
  tol = c.real('tol', (), lo=0, hi=3)
  s = make(c, which, True, maxiter, tol)
  p = c.real('p', ('n',))
  extra = dict(LBFGSB=((p - 1, p + 1),), MirrorDescent=(None,), ProximalGradient=(None,), ProjectedGradient=(None,)).get(which, ())
  st0 = s.init_state(p, *extra)
  own_rule(c, s, st0, lambda p, st: (st.error <= tol) | st.failed_linesearch, maxiter, p, args=extra)


@contract('P08', 'levenberg_marquardt/madsen-nielsen', cfgs=grid(maxiter=[1, 3]), funcs=FUN + ['jaxopt._src.levenberg_marquardt.LevenbergMarquardt._cond_fun'], fix=[{'n': 2}], while_unroll=6, runs=5)
def madsen_nielsen(c, maxiter):
  """Documented: stop when |delta|_2 <= xtol (|params|_2 + xtol) or |gradient|_inf <= gtol."""
  xtol, gtol = c.real('xtol', (), lo=0, hi=2), c.real('gtol', (), lo=0, hi=2)
  G = c.fun('G', 'like0')
  s = jaxopt.LevenbergMarquardt(residual_fun=G, maxiter=maxiter, implicit_diff=False, jit=True, unroll=False, stop_criterion='madsen-nielsen', xtol=xtol, gtol=gtol)
  p = c.real('p', ('n',))
  st0 = s.init_state(p)
  def stop(q, st):
    return (norm(st.delta) <= xtol * (norm(q) + xtol)) | jnp.all(jnp.abs(st.gradient) <= gtol)
  own_rule(c, s, st0, stop, maxiter, p, extra=('delta', 'gradient'))


# ----------------------------------------------------------------------------- iterators of batches
@dataclasses.dataclass(eq=False)
class Stoch(base.StochasticSolver):
  ini: Any
  upd: Any
  maxiter: int = 3
  jit: bool = False

  def init_state(self, params, *a, **k):
    return self.ini(params, *a, **k)

  def update(self, params, state, *a, **k):
    return base.OptStep(*self.upd(params, state, *a, **k))


@contract('P08', 'run_iterator', cfgs=grid(maxiter=[0, 1, 2, 3], batches=[1, 2, 3, 4, 5]), funcs=[F + 'StochasticSolver.run_iterator'], runs=5)
def run_iterator(c, maxiter, batches):
  U, X, X0 = c.fun('U', 'like0'), c.fun('X', ('n',)), c.fun('X0', ('n',))
  ini = lambda p, a, k=None, data=None: (0, X0(p, a, k, data))
  upd = lambda p, s, a, k=None, data=None: (U(p, s[1], a, k, data), (s[0] + 1, X(p, s[1], a, k, data)))
  p, a, k = c.real('p', ('n',)), c.real('a'), c.real('k')
  data = [c.real('batch%d' % i, ('m',)) for i in range(batches)]
  used = []
  def stream():
    for i, d in enumerate(data):
      used.append(i)
      yield d
  q, s = Stoch(ini, upd, maxiter=maxiter).run_iterator(p, stream(), a, k=k)
  rp, rs = p, ini(p, a, k=k, data=data[0])
  n = min(maxiter, batches - 1)
  for d in data[1:1 + n]:
    rp, rs = upd(rp, rs, a, k=k, data=d)
  c.ensure_eq('params', q, rp)
  c.ensure_eq('state', s[1], rs[1])
  c.ensure('one update per batch', jnp.asarray(s[0] == n))
  c.ensure('no batch wasted', jnp.asarray(len(used) == n + 1))
