"""P10: implicit differentiation obeys the implicit function theorem.

The optimality function F(x, *args) is uninterpreted and the decorated solver returns an arbitrary point, so the contracts hold
for every problem.  The inner linear solver is replaced by a stand-in `solve(matvec, b)` that returns an arbitrary vector u and
whose precondition is checked at the call: matvec is the transposed (reverse mode) or plain (forward mode) Jacobian of F in x at
the solution and b the negated cotangent or directional derivative.  Together with the solver's own contract matvec(u) = b (P12)
the postcondition "the derivative in every argument is u pulled back through F" is the implicit function theorem; `end to end`
states that conclusion directly with the library's real linear solvers."""
import functools
from .common import *
from .p09 import objective, sgd
import jaxopt
from jaxopt import linear_solve as LS
from jaxopt._src import base, implicit_diff as idf

S = 'jaxopt._src.'
FU = [S + 'implicit_diff.' + n for n in ('root_vjp', '_custom_root', 'custom_root', '_extract_kwargs', '_signature_bind', '_signature_bind_and_match')]
neg = lambda t: tmap(lambda l: -l, t)


class Solve:
  """Linear-solver stand-in recording that it was called once with the right system."""

  def __init__(self, c, x, matvec, b):
    self.c, self.u, self.w, self.matvec, self.b, self.calls = c, c.like('u', x), c.like('w', x), matvec, b, 0

  def __call__(self, matvec, b):
    self.calls += 1
    self.c.ensure_eq('linear system: operator', matvec(self.w), self.matvec(self.w))
    self.c.ensure_eq('linear system: right-hand side', b, self.b)
    return self.u


def tables(c, lay, aux):
  F = c.fun('F', 'like0')
  x, a, b, d = tree(c, 'x', lay), c.real('a', ('m',)), {'p': c.real('b'), 'q': c.real('bq', ('k',))}, c.real('d')
  return F, x, a, b, d


def reverse(c, F, x, args, kw, call, init, solve_holder, extra=()):
  """Derivatives of call(init, *args, **kw) in every argument equal the pull-back of the solve."""
  ct = c.like('ct', x)
  At = lambda w: jax.vjp(lambda z: F(z, *args, **kw), x)[1](w)[0]
  solve = Solve(c, x, At, neg(ct))
  solve_holder.append(solve)
  out, pull = jax.vjp(lambda i, a, k: call(i, *a, **k), init, args, kw)
  gi, ga, gk = pull(ct)
  c.ensure_eq('value is the solver\'s', out, x)
  ra, rk = jax.vjp(lambda a, k: F(x, *a, **k), args, kw)[1](solve.u)
  c.ensure_eq('initial guess gets zero', gi, zeros(gi))
  for i, (g, r) in enumerate(zip(ga, ra)):
    c.ensure_eq('derivative in argument %d' % i, g, r)
  for k in kw:
    c.ensure_eq('derivative in keyword %s' % k, gk[k], rk[k])
  c.ensure('solved once', jnp.asarray(solve.calls == 1))


CALLS = dict(
    positional=lambda f: (lambda i, a, b, d: f(i, a, b, d)),
    keyword=lambda f: (lambda i, a, b, d: f(i, d=d, b=b, a=a)),
    mixed=lambda f: (lambda i, a, b, d: f(i, a, d=d, b=b)),
    omitted=lambda f: (lambda i, a, b, d: f(i, a, b)),
    none=lambda f: (lambda i, a, b, d: f(i, a, b, None)))


@contract('P10', 'custom_root', cfgs=grid(how=list(CALLS), aux=[False, True], kind=['root', 'fixed point'], lay=['arr', 'tree']), funcs=FU + [S + 'implicit_diff.custom_fixed_point'], runs=10)
def custom_root(c, how, aux, kind, lay):
  F, x, a, b, d = tables(c, lay, aux)
  def fun(z, a, b, d=None):
    return F(z, a, b, 0.5 if d is None else d)
  opt = fun if kind == 'root' else (lambda z, a, b, d=None: sub(fun(z, a, b, d), z))
  def solver(init, a, b, d=None):
    return (x, {'aux': c.like('y', x)}) if aux else x
  held = []
  dec = (idf.custom_root if kind == 'root' else idf.custom_fixed_point)(fun, has_aux=aux, solve=lambda mv, v: held[0](mv, v))
  run = dec(solver)
  call = CALLS[how](lambda *p, **k: run(*p, **k)[0] if aux else run(*p, **k))
  G = lambda z, a, b, d: opt(z, a, b, None if how in ('omitted', 'none') else d)
  reverse(c, G, x, (a, b, d), {}, call, tree(c, 'init', lay), held)


@contract('P10', 'reference signature', cfgs=grid(how=['positional', 'keyword', 'mixed']), funcs=FU, runs=10)
def reference(c, how):
  """Catch-all solver and optimality functions are matched through the reference signature."""
  F, x, a, b, d = tables(c, 'arr', False)
  held = []
  ref = lambda params, a, b, d: None
  run = idf.custom_root(lambda z, *args: F(z, *args), solve=lambda mv, v: held[0](mv, v), reference_signature=ref)(lambda init, *args, **kw: x)
  reverse(c, lambda z, a, b, d: F(z, a, b, d), x, (a, b, d), {}, CALLS[how](run), c.real('init', ('n',)), held)


@contract('P10', 'root_vjp', cfgs=grid(lay=['arr', 'tree']), funcs=[S + 'implicit_diff.root_vjp'], runs=10)
def vjp(c, lay):
  F, x, a, b, d = tables(c, lay, False)
  ct = c.like('ct', x)
  s = Solve(c, x, lambda w: jax.vjp(lambda z: F(z, a, b, d), x)[1](w)[0], neg(ct))
  g = idf.root_vjp(lambda z, a, b, d: F(z, a, b, d), x, (a, b, d), ct, s)
  c.ensure_eq('vjps', g, jax.vjp(lambda *t: F(x, *t), a, b, d)[1](s.u))


@contract('P10', 'root_jvp', cfgs=grid(lay=['arr', 'tree']), funcs=[S + 'implicit_diff.root_jvp', S + 'implicit_diff._jvp_sol', S + 'implicit_diff._jvp_args'], runs=10)
def jvp(c, lay):
  F, x, a, b, d = tables(c, lay, False)
  t = c.like('t', (a, b, d))
  s = Solve(c, x, lambda w: jax.jvp(lambda z: F(z, a, b, d), (x,), (w,))[1], neg(jax.jvp(lambda *q: F(x, *q), (a, b, d), t)[1]))
  c.ensure_eq('jvp', idf.root_jvp(lambda z, a, b, d: F(z, a, b, d), x, (a, b, d), t, s), s.u)


# ----------------------------------------------------------------------------- every solver's run() is decorated with its own residual
A = jaxopt
def make(which, fun, kw, solve, P):
  PROX, PROJ = (lambda x, h, s=1.0: P(x, h, s)), (lambda x, h: P(x, h))
  c = dict(fun=fun, implicit_diff_solve=solve, **kw)
  nk = {k: v for k, v in c.items() if k != 'value_and_grad'}
  rn = lambda n: {**{k: v for k, v in nk.items() if k != 'fun'}, n: fun}
  return dict(
      GradientDescent=lambda: A.GradientDescent(**c), LBFGS=lambda: A.LBFGS(**c), BFGS=lambda: A.BFGS(**c),
      NonlinearCG=lambda: A.NonlinearCG(**c), PolyakSGD=lambda: A.PolyakSGD(implicit_diff=True, **c), ArmijoSGD=lambda: A.ArmijoSGD(implicit_diff=True, **c),
      OptaxSolver=lambda: A.OptaxSolver(opt=sgd(), implicit_diff=True, **c), LBFGSB=lambda: A.LBFGSB(**c),
      ProximalGradient=lambda: A.ProximalGradient(prox=PROX, **c), ProjectedGradient=lambda: A.ProjectedGradient(projection=PROJ, **c),
      MirrorDescent=lambda: A.MirrorDescent(projection_grad=lambda x, g, s, h: PROJ(sub(x, scale(s, g)), h), stepsize=0.1, **nk),
      FixedPointIteration=lambda: A.FixedPointIteration(**rn('fixed_point_fun')), AndersonAcceleration=lambda: A.AndersonAcceleration(**rn('fixed_point_fun')),
      Broyden=lambda: A.Broyden(**nk), Bisection=lambda: A.Bisection(lower=-1.0, upper=1.0, **rn('optimality_fun')),
      GaussNewton=lambda: A.GaussNewton(**rn('residual_fun')), LevenbergMarquardt=lambda: A.LevenbergMarquardt(**rn('residual_fun')),
      ScipyMinimize=lambda: A.ScipyMinimize(method='BFGS', **c), ScipyBoundedMinimize=lambda: A.ScipyBoundedMinimize(method='L-BFGS-B', **c),
      ScipyRootFinding=lambda: A.ScipyRootFinding(method='hybr', **rn('optimality_fun')),
      ScipyLeastSquares=lambda: A.ScipyLeastSquares(method='trf', **nk), ScipyBoundedLeastSquares=lambda: A.ScipyBoundedLeastSquares(method='trf', **nk),
  )[which]()



SMOOTH = ['GradientDescent', 'LBFGS', 'BFGS', 'NonlinearCG', 'PolyakSGD', 'ArmijoSGD', 'OptaxSolver', 'ScipyMinimize']
HYPER = ['ProximalGradient', 'ProjectedGradient', 'MirrorDescent']
BOUND = ['LBFGSB', 'ScipyBoundedMinimize']
MAPS = ['FixedPointIteration', 'AndersonAcceleration', 'Broyden', 'Bisection', 'ScipyRootFinding']
RES = ['GaussNewton', 'LevenbergMarquardt', 'ScipyLeastSquares', 'ScipyBoundedLeastSquares']
RUNF = [S + 'base.IterativeSolver.run', S + 'scipy_wrappers.ScipyWrapper.__post_init__']


def stub_run(c, s, cls, x):
  """Replace the optimisation loop by its weakest contract: it returns some point (and a state)."""
  return lambda self, *a, **k: base.OptStep(params=x, state=None)


@contract('P10', 'solvers', cfgs={k: v for k, v in {**grid(which=SMOOTH, vg=['no', 'callable'], aux=[False, True], kwd=[False, True]),
                                  **grid(which=HYPER + BOUND + MAPS + RES, vg=['no'], aux=[False, True], kwd=[False, True])}.items() if not (v['kwd'] and v['which'].startswith('Scipy'))},   # the SciPy wrappers refuse keyword arguments (TypeError)
          fix=[{'n': 2, 'm': 2}], funcs=FU + RUNF, runs=6)
def solvers(c, which, vg, aux, kwd):
  if which in MAPS or which in RES:
    F, Z = c.fun('F', ('m',) if which in RES else 'like0'), c.fun('aux', ())
    fun, kw = (lambda z, a, b: (F(z, a, b), Z(z, a))) if aux else (lambda z, a, b: F(z, a, b)), dict(has_aux=aux)
  else:
    f, g, Z = c.fun('f', ()), c.fun('g', 'like0'), c.fun('aux', ())
    val = lambda z, a, b: f(z, a, b)
    fun = (lambda z, a, b: (val(z, a, b), Z(z, a))) if aux else val
    kw = dict(has_aux=aux, value_and_grad=False)
    if vg == 'callable':
      kw['value_and_grad'] = (lambda z, a, b: ((f(z, a, b), Z(z, a)), g(z, a, b))) if aux else (lambda z, a, b: (f(z, a, b), g(z, a, b)))
  x = c.real('x') if which == 'Bisection' else c.real('x', ('n',))
  a, b = c.real('a'), c.real('b', ())
  held = []
  step = base.OptStep(params=x, state=jnp.zeros(()))
  stub = lambda self, *p, **k: step
  c.patch(base.IterativeSolver, '_run', stub, always=True)
  sw = jaxopt._src.scipy_wrappers
  for cl in (sw.ScipyMinimize, sw.ScipyLeastSquares):
    c.patch(cl, '_run', stub, always=True)
  c.patch(sw.ScipyRootFinding, 'run', lambda self, init_params, *args, **kwargs: step, always=True)
  s = make(which, fun, kw, lambda mv, v: held[0](mv, v), c.fun('prox', 'like0'))
  hyp = ()
  if which in HYPER:
    hyp = (c.real('h'),)
  elif which in BOUND + ['ScipyBoundedLeastSquares']:
    lo, hi = c.real('lo', ('n',)), c.real('hi', ('n',))
    c.assume('lo<hi', jnp.all(lo < hi))
    hyp = ((lo, hi),)
  if kwd:
    args, kws = hyp, dict(b=b, a=a)
  else:
    args, kws = hyp + (a, b), {}
  names = ('a', 'b')
  pos = (lambda z, *t, **k: s.optimality_fun(z, *t, *[k[n] for n in names if n in k]))
  reverse(c, pos, x, args, kws, lambda i, *t, **k: s.run(i, *t, **k).params, c.like('init', x), held)


@contract('P10', 'qp solvers', cfgs=grid(which=['EqualityConstrainedQP', 'CvxpyQP', 'BoxOSQP', 'BoxCDQP']), fix=[{'n': 2, 'p': 1, 'q': 1}], funcs=FU + RUNF, runs=6)
def qp(c, which):
  held = []
  sol = lambda mv, v: held[0](mv, v)
  Q, q, Am, b = c.real('Q', ('n', 'n')), c.real('c', ('n',)), c.real('A', ('p', 'n')), c.real('b', ('p',))
  G, h = c.real('G', ('q', 'n')), c.real('h', ('q',))
  x, y, mu = c.real('x', ('n',)), c.real('y', ('p',)), c.real('mu', ('q',))
  kkt = base.KKTSolution(x, y, mu if which == 'CvxpyQP' else None)
  args = ((Q, q), (Am, b), (G, h)) if which == 'CvxpyQP' else ((Q, q), (Am, b))
  if which == 'BoxOSQP':
    l, u = c.real('l', ('p',)), c.real('u', ('p',))
    kkt, args = base.KKTSolution((x, c.real('z', ('p',))), y, (c.real('mu1', ('p',)), c.real('phi', ('p',)))), ((Q, q), Am, (l, u))
  if which == 'BoxCDQP':
    kkt, args = x, ((Q, q), (c.real('l', ('n',)), c.real('u', ('n',))))
  step = base.OptStep(kkt, jnp.zeros(()))
  def eq_run(self, init_params=None, params_obj=None, params_eq=None):
    return step
  def cv_run(self, init_params, params_obj, params_eq=None, params_ineq=None):
    return step
  c.patch(jaxopt.EqualityConstrainedQP, 'run', eq_run, always=True)
  c.patch(jaxopt.CvxpyQP, 'run', cv_run, always=True)
  c.patch(base.IterativeSolver, '_run', lambda self, *p, **k: step, always=True)
  kw = dict(jit=False) if which != 'CvxpyQP' else {}
  s = getattr(jaxopt, which)(implicit_diff_solve=sol, **kw)
  reverse(c, s.optimality_fun, kkt, args, {}, lambda i, *t: s.run(i, *t).params, c.like('init', kkt), held)


@contract('P10', 'other solvers', cfgs=grid(which=['BlockCoordinateDescent', 'AndersonWrapper', 'IterativeRefinement'], kwd=[False, True]), fix=[{'n': 2, 'm': 2}], funcs=FU + RUNF, runs=6)
def others(c, which, kwd):
  held = []
  sol = lambda mv, v: held[0](mv, v)
  x, h = c.real('x', ('n',)), c.real('h')
  P = c.fun('prox', ())
  c.patch(base.IterativeSolver, '_run', lambda self, *p, **k: base.OptStep(x, jnp.zeros(())), always=True)
  if which == 'BlockCoordinateDescent':
    s = A.BlockCoordinateDescent(fun=A.objective.least_squares, block_prox=lambda x, h, s=1.0: P(x, h, s), implicit_diff_solve=sol)
    args, kws = (h,), dict(data=(c.real('A', ('m', 'n')), c.real('y', ('m',))))
  elif which == 'AndersonWrapper':
    f, Q = c.fun('f', ()), c.fun('proxv', 'like0')
    s = A.AndersonWrapper(A.ProximalGradient(fun=lambda x, data: f(x, data), prox=lambda x, h, s=1.0: Q(x, h, s)), implicit_diff_solve=sol)
    args, kws = (h,), dict(data=c.real('d', ('m',)))
  else:
    s = A.IterativeRefinement(implicit_diff_solve=sol) if hasattr(A, 'IterativeRefinement') else jaxopt._src.iterative_refinement.IterativeRefinement(implicit_diff_solve=sol)
    args, kws = (c.real('A', ('n', 'n')),), dict(b=c.real('b', ('n',)))
  if not kwd:
    args, kws = args + tuple(kws.values()), {}
  reverse(c, lambda z, *t, **k: s.optimality_fun(z, *t, *k.values()), x, args, kws, lambda i, *t, **k: s.run(i, *t, **k).params, c.like('init', x), held)


# ----------------------------------------------------------------------------- with the real linear solvers
REAL = dict(cg=functools.partial(LS.solve_cg, tol=1e-12), normal_cg=functools.partial(LS.solve_normal_cg, tol=1e-12), lu=LS.solve_lu, inv=LS.solve_inv, gmres=functools.partial(LS.solve_gmres, tol=1e-12), bicgstab=functools.partial(LS.solve_bicgstab, tol=1e-12), default=None)


@contract('P10', 'end to end', cfgs={**grid(ls=list(REAL), mode=['rev']), **grid(ls=[k for k in REAL if k != 'default'], mode=['fwd'])}, fix=[{'n': 2}], funcs=FU + [S + 'implicit_diff.root_jvp'], runs=6)
def end_to_end(c, ls, mode):
  """d run / d theta solves (dF/dx) J = -(dF/dtheta)."""
  F = c.fun('F', ('n',))
  x, th, H = c.real('x', ('n',)), c.real('th'), c.real('H', ('n', 'n'))
  if not c.symbolic:
    H = H + 4 * jnp.eye(H.shape[0])
  if ls == 'cg':
    H = H @ H.T if not c.symbolic else H + H.T
  opt = lambda z, t: H @ (z - x) + F(x, t)        # any Jacobian H at the solution x
  B = jax.jacfwd(lambda t: F(x, t))(th)
  if mode == 'rev':
    run = idf.custom_root(opt, solve=REAL[ls])(lambda init, t: x)
    J = jax.jacrev(lambda t: run(x, t))(th)
  else:
    J = idf.root_jvp(opt, x, (th,), (jnp.ones(()),), REAL[ls])
  if c.symbolic and mode == 'rev':
    # the transposed system is what is solved: H.T u = -e_i, J_i = u . B; H J = -B follows when H.T is regular
    W = c.real('W', ('n', 'n'))
    c.assume('inverse', jnp.all(W @ H == jnp.eye(2)) & jnp.all(H @ W == jnp.eye(2)))
    c.ensure_eq('J', J, -W @ B)
  else:
    if c.symbolic and ls == 'normal_cg':
      W = c.real('W', ('n', 'n'))
      c.assume('inverse', jnp.all(W @ H == jnp.eye(2)))
    c.ensure_eq('J', H @ J, -B)
