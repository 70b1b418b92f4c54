"""P09: value, gradient and auxiliary plumbing, for every way of supplying the objective.

The user objective is an uninterpreted function f(params, arg, key=...) with an uninterpreted auxiliary output; its gradient is
either jax.grad of it or, when the user supplies the derivative, a second uninterpreted function (so using the wrong one shows)."""
from .common import *
import jaxopt
from jaxopt._src import base

F = 'jaxopt._src.base.'
FUNS = [F + n for n in ('_make_funs_with_aux', '_make_funs_without_aux', '_add_aux_to_fun', '_add_aux_to_value_and_grad', '_split_value_and_grad_with_aux', '_remove_aux_from_value_and_grad')]
FLAV = dict(vg=['no', 'yes', 'callable'], has_aux=[False, True])


def objective(c, vg, has_aux):
  """(fun, value_and_grad argument, reference value, reference gradient, reference aux)."""
  f, A, g = c.fun('f', ()), c.fun('aux', ('k',)), c.fun('g', 'like0')
  val = lambda x, a, key=None: f(x, a, key)
  aux = (lambda x, a, key=None: {'aux': A(x, a, key)}) if has_aux else (lambda x, a, key=None: None)
  grad = jax.grad(val) if vg == 'no' else (lambda x, a, key=None: g(x, a, key))
  out = (lambda x, a, key=None: (val(x, a, key), aux(x, a, key))) if has_aux else val
  both = lambda x, a, key=None: (out(x, a, key), grad(x, a, key))
  if vg == 'no':
    return out, False, val, grad, aux
  if vg == 'yes':
    return both, True, val, grad, aux
  return out, both, val, grad, aux


@contract('P09', 'with_aux', cfgs=grid(**FLAV, lay=['arr', 'tree']), funcs=FUNS, runs=10)
def with_aux(c, vg, has_aux, lay):
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  x, a, k = tree(c, 'x', lay), c.real('a', ('m',)), c.real('key')
  F1, G1, VG = base._make_funs_with_aux(fun, value_and_grad=flag, has_aux=has_aux)
  v, g, u = val(x, a, k), grad(x, a, k), aux(x, a, k)
  c.ensure_eq('fun', F1(x, a, key=k), (v, u))
  c.ensure_eq('grad', G1(x, a, key=k), (g, u))
  c.ensure_eq('value_and_grad', VG(x, a, key=k), ((v, u), g))


@contract('P09', 'without_aux', cfgs=grid(**FLAV, lay=['arr', 'tree']), funcs=FUNS, runs=10)
def without_aux(c, vg, has_aux, lay):
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  x, a, k = tree(c, 'x', lay), c.real('a', ('m',)), c.real('key')
  F1, G1, VG = base._make_funs_without_aux(fun, value_and_grad=flag, has_aux=has_aux)
  v, g = val(x, a, k), grad(x, a, k)
  c.ensure_eq('fun', F1(x, a, key=k), v)
  c.ensure_eq('grad', G1(x, a, key=k), g)
  c.ensure_eq('value_and_grad', VG(x, a, key=k), (v, g))


# ----------------------------------------------------------------------------- the same, seen through the solvers
def solver(which, fun, flag, has_aux):
  A = jaxopt
  kw = dict(fun=fun, value_and_grad=flag, has_aux=has_aux)
  return dict(
      GradientDescent=lambda: A.GradientDescent(stepsize=0.25, acceleration=False, **kw),
      ProximalGradient=lambda: A.ProximalGradient(prox=lambda x, h, s: x, stepsize=0.25, acceleration=False, **kw),
      ProjectedGradient=lambda: A.ProjectedGradient(projection=lambda x, h: x, stepsize=0.25, acceleration=False, **kw),
      LBFGS=lambda: A.LBFGS(stepsize=0.25, history_size=2, **kw),
      BFGS=lambda: A.BFGS(stepsize=0.25, **kw),
      NonlinearCG=lambda: A.NonlinearCG(**kw),
      PolyakSGD=lambda: A.PolyakSGD(max_stepsize=0.25, **kw),
      ArmijoSGD=lambda: A.ArmijoSGD(**kw),
      OptaxSolver=lambda: A.OptaxSolver(opt=sgd(), **kw),
      LBFGSB=lambda: A.LBFGSB(stepsize=0.25, **kw),
  )[which]()


def sgd():
  import optax
  return optax.sgd(0.25)


@contract('P09', 'solver/optimality', cfgs=grid(which=['GradientDescent', 'LBFGS', 'BFGS', 'NonlinearCG', 'PolyakSGD', 'ArmijoSGD', 'OptaxSolver', 'ProximalGradient', 'ProjectedGradient'], **FLAV),
          funcs=FUNS, runs=10)
def optimality(c, which, vg, has_aux):
  """The residual a solver drives to zero is the gradient of the objective it was given, whatever the flavour."""
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  s = solver(which, fun, flag, has_aux)
  x, a, k = c.real('x', ('n',)), c.real('a', ('m',)), c.real('key')
  if which in ('ProximalGradient', 'ProjectedGradient'):
    r = s.optimality_fun(x, None, a, key=k)
    c.ensure_eq('step along the gradient', r, -grad(x, a, k))
  else:
    c.ensure_eq('gradient', s.optimality_fun(x, a, key=k), grad(x, a, k))


@contract('P09', 'solver/state', cfgs=grid(which=['LBFGS', 'BFGS'], **FLAV), fix=[{'n': 2, 'm': 1, 'k': 1}], funcs=FUNS, runs=10)
def state(c, which, vg, has_aux):
  """A fixed-step update stores the value, gradient and auxiliary output of its new parameters."""
  fun, flag, val, grad, aux = objective(c, vg, has_aux)
  s = solver(which, fun, flag, has_aux)
  x, a, k = c.real('x', ('n',)), c.real('a', ('m',)), c.real('key')
  st = s.init_state(x, a, key=k)
  c.ensure_eq('init value', st.value, val(x, a, k))
  c.ensure_eq('init gradient', st.grad, grad(x, a, k))
  c.ensure_eq('init aux', st.aux, aux(x, a, k))
  p, n = s.update(x, st, a, key=k)
  c.ensure_eq('value', n.value, val(p, a, k))
  c.ensure_eq('gradient', n.grad, grad(p, a, k))
  c.ensure_eq('aux', n.aux, aux(p, a, k))


# ----------------------------------------------------------------------------- arguments reach the objective unchanged
def arg_solvers(c):
  A = jaxopt
  from jaxopt import prox, projection
  import optax
  f_, G_, X_, C_ = c.fun('f', ()), c.fun('G', 'like0'), c.fun('aux', ()), c.fun('R', ('r',))
  obj = lambda x, a, b: (f_(x, a, b), {'k': X_(x, a, b)})
  vec = lambda x, a, b: (G_(x, a, b), {'k': X_(x, a, b)})
  res = lambda x, a, b: C_(x, a, b)
  kw = dict(has_aux=True, maxiter=2, tol=-1.0, implicit_diff=False)
  return dict(
      GradientDescent=(obj, lambda f: A.GradientDescent(f, stepsize=0.1, acceleration=False, **kw), ()),
      AcceleratedGD=(obj, lambda f: A.GradientDescent(f, stepsize=0.1, acceleration=True, **kw), ()),
      ProximalGradient=(obj, lambda f: A.ProximalGradient(f, prox=lambda x, h, s: x * h, stepsize=0.1, **kw), (0.5,)),
      ProjectedGradient=(obj, lambda f: A.ProjectedGradient(f, projection=lambda x, h: x * h, stepsize=0.1, **kw), (0.5,)),
      MirrorDescent=(obj, lambda f: A.MirrorDescent(f, projection_grad=lambda x, g, s, h: x - s * g * h, stepsize=0.1, **kw), (0.5,)),
      LBFGS=(obj, lambda f: A.LBFGS(f, stepsize=0.1, history_size=1, **kw), ()),
      BFGS=(obj, lambda f: A.BFGS(f, stepsize=0.1, **kw), ()),
      Broyden=(vec, lambda f: A.Broyden(f, stepsize=0.1, history_size=1, **kw), ()),
      PolyakSGD=(obj, lambda f: A.PolyakSGD(f, max_stepsize=0.1, **kw), ()),
      OptaxSolver=(obj, lambda f: A.OptaxSolver(f, opt=optax.sgd(0.1), **kw), ()),
      FixedPointIteration=(vec, lambda f: A.FixedPointIteration(f, **kw), ()),
      GaussNewton=(res, lambda f: A.GaussNewton(f, maxiter=2, tol=-1.0, implicit_diff=False), ()),
  )


lm = lambda A, f, kw, **o: A.LevenbergMarquardt(f, **{**{k: v for k, v in kw.items() if k != 'has_aux'}, **o})
ARG_LS = dict(  # solvers with an inner loop: compared on sampled inputs
    ArmijoSGD=lambda A, f, kw: A.ArmijoSGD(f, **kw), NonlinearCG=lambda A, f, kw: A.NonlinearCG(f, **kw), LBFGS=lambda A, f, kw: A.LBFGS(f, **kw),
    BFGS=lambda A, f, kw: A.BFGS(f, **kw), GradientDescent=lambda A, f, kw: A.GradientDescent(f, **kw), LBFGSB=lambda A, f, kw: A.LBFGSB(f, **kw), LBFGSB_fixed=lambda A, f, kw: A.LBFGSB(f, stepsize=0.1, **kw),
    LBFGS_backtracking=lambda A, f, kw: A.LBFGS(f, linesearch='backtracking', **kw), LBFGS_hz=lambda A, f, kw: A.LBFGS(f, linesearch='hager-zhang', **kw),
    NonlinearCG_backtracking=lambda A, f, kw: A.NonlinearCG(f, linesearch='backtracking', **kw), NonlinearCG_hz=lambda A, f, kw: A.NonlinearCG(f, linesearch='hager-zhang', **kw),
    BFGS_backtracking=lambda A, f, kw: A.BFGS(f, linesearch='backtracking', **kw), BFGS_hz=lambda A, f, kw: A.BFGS(f, linesearch='hager-zhang', **kw),
    Broyden=lambda A, f, kw: A.Broyden(f, **kw), AndersonAcceleration=lambda A, f, kw: A.AndersonAcceleration(f, history_size=2, **kw),
    LevenbergMarquardt=lambda A, f, kw: lm(A, f, kw), LM_mat=lambda A, f, kw: lm(A, f, kw, materialize_jac=True, solver='cholesky'), LM_direct=lambda A, f, kw: lm(A, f, kw, solver='cholesky'),
    LM_geo=lambda A, f, kw: lm(A, f, kw, geodesic=True), LM_geo_mat=lambda A, f, kw: lm(A, f, kw, geodesic=True, materialize_jac=True, solver='cholesky'), Bisection=lambda A, f, kw: A.Bisection(f, -3.0, 4.0, maxiter=2, tol=-1.0, check_bracket=False))


def arg_protocol(c, mk, fun, extra, x, a, b):
  """The same data as a positional argument, as a keyword argument and closed over give the same states and results."""
  run = {}
  for how in ('closed over', 'positional', 'keyword', 'all keyword'):
    s = mk((lambda x: fun(x, a, b)) if how == 'closed over' else fun)
    args, kw = {'closed over': ((), {}), 'positional': ((a, b), {}), 'keyword': ((a,), dict(b=b)), 'all keyword': ((), dict(a=a, b=b))}[how]
    st = s.init_state(x, *extra, *args, **kw)
    p, st2 = s.update(x, st, *extra, *args, **kw)
    run[how] = dict(initial=st, params=p, state=st2)
    if hasattr(s, 'optimality_fun'):
      run[how].update(optimality=s.optimality_fun(p, *extra, *args, **kw), l2=s.l2_optimality_error(p, *extra, *args, **kw))
  for how in ('positional', 'keyword', 'all keyword'):
    for k, v in run['closed over'].items():
      c.ensure_eq('%s: %s' % (how, k), jax.tree_util.tree_leaves(run[how][k]), jax.tree_util.tree_leaves(v), tol=1e-6)


@contract('P09', 'arguments', cfgs=grid(which=['GradientDescent', 'AcceleratedGD', 'ProximalGradient', 'ProjectedGradient', 'MirrorDescent', 'LBFGS', 'BFGS', 'Broyden', 'PolyakSGD',
                                               'OptaxSolver', 'FixedPointIteration', 'GaussNewton']), fix=[{'n': 2, 'm': 1, 'r': 2}], runs=3, funcs=[])
def arguments(c, which):
  fun, mk, extra = arg_solvers(c)[which]
  arg_protocol(c, mk, fun, extra, c.real('x', ('n',)), c.real('a', ('m',)), c.real('b'))


VAG_LS = [k for k in sorted(ARG_LS) if k.split('_')[0] in ('ArmijoSGD', 'NonlinearCG', 'LBFGS', 'BFGS', 'GradientDescent', 'LBFGSB')]


@contract('P09', 'arguments, inner loops', cfgs={**grid(which=sorted(ARG_LS), vag=[False]), **grid(which=VAG_LS, vag=[True])}, fix=[{'n': 2}], runs=3, mode='bounded', funcs=[])
def arguments_ls(c, which, vag):
  x, a, b = c.real('x', ('n',)), c.real('a', ('n',)), c.real('b', (), lo=0.5, hi=2)
  kw = dict(has_aux=True, maxiter=2, tol=-1.0, implicit_diff=False)
  obj = lambda x, a, b: (b * jnp.sum((x - a) ** 2) + jnp.sum(jnp.cos(x * a)), {'k': jnp.sum(x) * b})
  vec = lambda x, a, b: (b * (x - a) + 0.3 * jnp.sin(x), {'k': jnp.sum(x) * b})
  fun = {'Broyden': vec, 'AndersonAcceleration': vec, **{k: (lambda x, a, b: b * (x - a) + jnp.sin(x)) for k in ARG_LS if k[:2] in ('Le', 'LM')}, 'Bisection': lambda x, a, b: (b * (x - a[0]), {'k': x * b})}.get(which, obj)
  if vag:
    fun, kw['value_and_grad'] = jax.value_and_grad(fun, has_aux=True), True
  if which == 'Bisection':
    x = x[0]
    fun = lambda x, a, b: b * (x - a[0])
  arg_protocol(c, lambda f: ARG_LS[which](jaxopt, f, kw), fun, ((-9.0 * jnp.ones(2), 9.0 * jnp.ones(2)),) if which[:6] == 'LBFGSB' else (), x, a, b)


@contract('P09', 'arguments, block coordinate descent', fix=[{'n': 2, 'd': 2}], runs=3, funcs=['jaxopt._src.block_cd.BlockCoordinateDescent.' + n for n in ('init_state', 'update', 'optimality_fun')])
def arguments_bcd(c):
  X, y, w, h = c.real('X', ('n', 'd')), c.real('y', ('n',)), c.real('w', ('d',)), c.real('h')
  s = jaxopt.BlockCoordinateDescent(jaxopt.objective.least_squares, lambda x, h, s=1.0: x * h, implicit_diff=False)
  out = []
  for args, kw in (((h, (X, y)), {}), ((h,), dict(data=(X, y))), ((), dict(hyperparams_prox=h, data=(X, y)))):
    st = s.init_state(w, *args, **kw)
    p, n = s.update(w, st, *args, **kw)
    out.append((st, p, n, s.optimality_fun(p, *args, **kw), s.l2_optimality_error(p, *args, **kw)))
  c.ensure_eq('data as keyword', out[1], out[0])
  c.ensure_eq('all keyword', out[2], out[0])


@contract('P09', 'arguments, wrapped solvers', cfgs=grid(which=['ScipyMinimize', 'ScipyBoundedMinimize', 'ScipyRootFinding', 'ScipyLeastSquares', 'ScipyBoundedLeastSquares']), fix=[{'n': 2}], runs=3, mode='bounded', funcs=[])
def arguments_scipy(c, which):
  x, a, b = c.real('x', ('n',)), c.real('a', ('n',)), c.real('b', (), lo=0.5, hi=2)
  obj = lambda x, p, q: q * jnp.sum((x - p) ** 2) + jnp.sum(jnp.cos(x * p))
  res = lambda x, p, q: q * (x - p) + 0.3 * jnp.sin(x)
  fun = obj if 'Minimize' in which else res
  cls, kw = getattr(jaxopt, which), dict(maxiter=3) if 'Minimize' in which else {}
  if which == 'ScipyRootFinding':
    kw.update(method='hybr')
  if 'Least' in which:
    kw.update(method='trf' if 'Bounded' in which else 'lm')
  extra = ((x - 0.5, x + 0.7),) if 'Bounded' in which else ()
  out = {}
  for how, args, k in (('closed over', (), {}), ('positional', (a, b), {}), ('keyword', (a,), dict(q=b)), ('all keyword', (), dict(p=a, q=b))):
    s = cls(**{'optimality_fun' if which == 'ScipyRootFinding' else 'fun': (lambda x: fun(x, a, b)) if how == 'closed over' else fun}, **kw)
    p, st = s.run(x, *extra, *args, **k)
    out[how] = [p, s.optimality_fun(p, *extra, *args, **k)]
  for how in out:
    c.ensure_eq(how, out[how], out['closed over'], tol=1e-6)
