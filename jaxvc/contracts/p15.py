"""P15: zoom line search.  Objective and gradient uninterpreted; `update` is checked from every state satisfying the
representation invariant below, which `init_state` establishes and `update` preserves:
  running     not done, not failed; the stored point/value/gradient are the starting ones
  searching   (no interval yet)  0 <= prev < max, prev = 0 exactly before the first trial, stored value and slope are those at prev
  zooming     (interval found)   low, high in [0, max], not both zero
  safe        the safe step is 0 or a step in (0, max] with sufficient decrease within tolerance"""
from .lsearch import *
import jaxopt._src.zoom_linesearch as Z
from jaxopt._src.zoom_linesearch import ZoomLineSearch

F = 'jaxopt._src.zoom_linesearch.ZoomLineSearch.'
FN = [F + n for n in ('init_state', 'update', '_search_interval', '_zoom_into_interval', '_make_safe_step', '_keep_step', '_value_and_slope_on_line', '_decrease_error', '_curvature_error')]
C1, C2, C3, TOL, MAXS, MAXIT = 0.1, 0.7, 1e-3, 0.25, 8.0, 9


def interpolation(c, kind, st):
  """The interpolation formulas are checked against 'returns any extended real'; the three kinds split that case:
  the cubic candidate lies well inside the interval, only the quadratic one does, or neither."""
  if not c.symbolic:
    return
  left, right = jnp.minimum(st.low, st.high), jnp.maximum(st.low, st.high)
  inside = lambda m, r: (m > left + r * (right - left)) & (m < right - r * (right - left))
  mc, mq = c.real('cubic', (), special=kind != 'cubic'), c.real('quad', (), special=kind != 'quad')
  if kind == 'cubic':
    c.assume('cubic candidate inside', inside(mc, 0.2))
  else:
    c.assume('cubic candidate outside', ~inside(mc, 0.2))
    c.assume('quad candidate', inside(mq, 0.1) if kind == 'quad' else ~inside(mq, 0.1))
  for nm, m in (('_cubicmin', mc), ('_quadmin', mq)):
    if hasattr(Z, nm):
      c.patch(Z, nm, (lambda m: lambda *a: m)(m))


def make(c, flavour, aux, special=False, **kw):
  fun, vg, f, g, A = problem(c, flavour, aux, special=special)
  kw = dict(dict(tol=TOL, maxiter=MAXIT, max_stepsize=MAXS, interval_threshold=1e-3, increase_factor=2.0), **kw)
  return ZoomLineSearch(fun=fun, value_and_grad=vg, has_aux=aux, c1=C1, c2=C2, c3=C3, **kw), f, g, A


def decrease(t, f1, sl1, f0, sl0, tol):
  exact = f1 <= f0 + C1 * t * sl0 + tol
  approx = (sl1 <= (2 * C1 - 1) * sl0 + tol) & (f1 <= f0 + C3 * jnp.abs(f0) + tol)
  return exact | approx


def curvature(sl1, sl0, tol):
  return jnp.abs(sl1) <= C2 * jnp.abs(sl0) + tol


def initial(c, ls, f, g, x, a, d, aux, A):
  """A state satisfying the representation invariant."""
  f0, g0 = f(x, a), g(x, a)
  st = ls.init_state(jnp.asarray(1.0), x, f0, g0, d, (a,), {})
  st0 = st
  st = c.like('st', st, lo=0, hi=3)
  st = st._replace(params=x, value=f0, grad=g0, value_init=f0, slope_init=st0.slope_init, descent_direction=d,
                   done=jnp.asarray(False), failed=jnp.asarray(False), aux=st0.aux)
  return st, f0, g0


def invariant(c, st, phi, sl, f0, sl0, tol):
  searching = (st.prev_stepsize >= 0) & (st.prev_stepsize < MAXS) & ((st.iter_num == 0) == (st.prev_stepsize == 0))
  zooming = (st.low >= 0) & (st.high >= 0) & (st.low <= MAXS) & (st.high <= MAXS) & (st.low + st.high > 0) & (st.iter_num > 0)
  return jnp.where(st.interval_found, zooming, searching)


def safe(st, phi, sl, f0, sl0, tol):
  s = st.safe_stepsize
  return (s == 0) | ((s > 0) & (s <= MAXS) & decrease(s, phi(s), sl(s), f0, sl0, tol))


@contract('P15', 'init', cfgs=grid(flavour=['fun', 'both', 'callable'], aux=[False, True], given=[True, False, 'value', 'grad'], direction=['given', 'steepest']), funcs=FN)
def init(c, flavour, aux, given, direction):
  ls, f, g, A = make(c, flavour, aux)
  x, a = c.real('x', ('n',)), c.real('a')
  f0, g0 = f(x, a), g(x, a)
  d = c.real('d', ('n',)) if direction == 'given' else None
  args = (f0 if given in (True, 'value') else None, g0 if given in (True, 'grad') else None)
  st = ls.init_state(jnp.asarray(1.0), x, *args, d, (a,), {})
  d = -g0 if d is None else d
  c.ensure_eq('point', st.params, x)
  c.ensure_eq('value', (st.value, st.value_init), (f0, f0))
  c.ensure_eq('gradient', st.grad, g0)
  c.ensure_eq('direction', st.descent_direction, d)
  c.ensure_eq('slope', st.slope_init, jnp.sum(g0 * d))
  c.ensure_eq('aux', st.aux, auxof(A, aux, x, a))
  c.ensure_eq('previous trial is the start', (st.prev_stepsize, st.prev_value_step, st.prev_slope_step), (jnp.asarray(0.0), f0, jnp.sum(g0 * d)))
  c.ensure('searching', ~st.done & ~st.failed & ~st.interval_found & (st.iter_num == 0))
  c.ensure_eq('no safe step', st.safe_stepsize, jnp.asarray(0.0))


CFG = {**grid(phase=['search'], flavour=['fun', 'both'], aux=[False, True], safe=['none', 'some'], lay=['arr', 'tree'], kind=[None], order=[None]),
       **grid(phase=['zoom'], flavour=['fun'], aux=[False], safe=['none', 'some'], lay=['arr'], kind=['cubic', 'quad', 'bisect'], order=['up', 'down']),
       **grid(phase=['zoom'], flavour=['fun'], aux=[False], safe=['none', 'some'], lay=['arr'], kind=['bisect'], order=['equal']),
       **grid(phase=['zoom'], flavour=['fun', 'both'], aux=[True], safe=['some'], lay=['tree'], kind=['cubic'], order=['up'])}


@contract('P15', 'update', cfgs=CFG, funcs=FN, runs=15, timeout=20, decide=True)
def update(c, flavour, aux, phase, safe, lay, kind, order):
  ls, f, g, A = make(c, flavour, aux)
  x, a, d = tree(c, 'x', lay), c.real('a'), tree(c, 'd', lay)
  st, f0, g0 = initial(c, ls, f, g, x, a, d, aux, A)
  sl0 = dot(g0, d)
  st = st._replace(interval_found=jnp.asarray(phase == 'zoom'), slope_init=sl0)
  if phase == 'zoom':
    gap = jnp.exp(c.real('gap', ()))
    lo = jnp.abs(st.low)
    c.assume('interval', lo + gap <= MAXS)
    up = {'up': lo + gap, 'down': lo, 'equal': lo}[order]
    st = st._replace(low=lo + gap if order == 'down' else lo, high=up)
    interpolation(c, kind, st)
  phi = lambda s: f(axpy(x, s, d), a)
  sl = lambda s: dot(g(axpy(x, s, d), a), d)
  if safe == 'none':
    st = st._replace(safe_stepsize=jnp.asarray(0.0))
  else:
    s = st.safe_stepsize
    c.assume('safe step', (s > 0) & (s <= MAXS) & decrease(s, phi(s), sl(s), f0, sl0, TOL))
  s_in = c.real('s_in', (), lo=0.05, hi=3.0)
  c.assume('initial step positive', s_in > 0)
  c.assume('counter', (st.iter_num >= 0) & (st.iter_num < MAXIT))
  c.assume('invariant', invariant(c, st, phi, sl, f0, sl0, TOL))
  ns, n = ls.update(s_in, st, x, f0, g0, d, (a,), {})
  stop = n.done | n.failed
  c.ensure('success and failure exclusive', ~(n.done & n.failed))
  c.ensure('fails at the iteration limit unless done', n.done | n.failed, when=st.iter_num + 1 >= MAXIT)
  y = axpy(x, ns, d)
  fy, gy = f(y, a), g(y, a)
  sly = dot(gy, d)
  c.ensure('success: sufficient decrease', decrease(ns, fy, sly, f0, sl0, TOL), when=n.done)
  c.ensure('success: curvature, unless the maximal step was reached', curvature(sly, sl0, TOL) | (ns >= MAXS), when=n.done)
  c.ensure('failure with a safe step: sufficient decrease', decrease(ns, fy, sly, f0, sl0, TOL), when=n.failed & (n.safe_stepsize > 0))
  c.ensure('failure returns the safe step when there is one', ns == n.safe_stepsize, when=n.failed & (n.safe_stepsize > 0))
  c.ensure('step range', (ns >= 0) & (ns <= MAXS))
  c.ensure('positive step', ns > 0)
  c.ensure_eq('params', n.params, y, when=stop)
  c.ensure_eq('value', n.value, fy, when=stop)
  c.ensure_eq('gradient', n.grad, gy, when=stop)
  if aux:
    c.ensure_eq('aux', n.aux['k'], A(y, a), when=stop)
  c.ensure_eq('running: point kept', n.params, x, when=~stop)
  c.ensure_eq('running: value kept', n.value, f0, when=~stop)
  c.ensure_eq('running: gradient kept', n.grad, g0, when=~stop)
  c.ensure_eq('start kept', (n.value_init, n.slope_init), (f0, sl0))
  c.ensure_eq('direction kept', n.descent_direction, d)
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  c.ensure('invariant kept', invariant(c, n, phi, sl, f0, sl0, TOL), when=~stop)
  if phase == 'zoom':
    c.ensure('the interval shrinks inside itself', (jnp.minimum(n.low, n.high) >= jnp.minimum(st.low, st.high)) & (jnp.maximum(n.low, n.high) <= jnp.maximum(st.low, st.high)) & (jnp.abs(n.high - n.low) <= 0.9 * jnp.abs(st.high - st.low)))
    c.ensure('the low end never gets worse', n.value_low <= st.value_low)
    down = lambda t: t.slope_low * (t.high - t.low) <= 0
    c.ensure('the interval lies downhill from its low end', down(n), when=down(st) & ~stop)
  else:
    c.ensure('the interval lies downhill from its low end', n.slope_low * (n.high - n.low) <= 0, when=(st.prev_slope_step < 0) & n.interval_found & ~stop)
    c.ensure('the search goes on only downhill', n.prev_slope_step < 0, when=~n.interval_found & ~stop)
  c.ensure('a safe step is never forgotten', n.safe_stepsize > 0, when=st.safe_stepsize > 0)
  sn = n.safe_stepsize
  c.ensure('safe step has sufficient decrease', decrease(sn, phi(sn), sl(sn), f0, sl0, TOL) & (sn <= MAXS), when=sn > 0)


@contract('P15', 'interpolation', cfgs=grid(which=['cubic', 'quad']), funcs=['jaxopt._src.zoom_linesearch._cubicmin', 'jaxopt._src.zoom_linesearch._quadmin'], timeout=30)
def interpolation_formulas(c, which):
  """The candidates are critical points of the interpolating polynomial, checked on data sampled from an arbitrary polynomial."""
  a, A, B, C, D = c.real('a'), c.real('A'), c.real('B'), c.real('C'), c.real('D')
  u, v = c.real('u'), c.real('v')
  nm = '_cubicmin' if which == 'cubic' else '_quadmin'
  if not hasattr(Z, nm):
    c.ensure('inlined', jnp.asarray(True))
    return
  if which == 'quad':
    p = lambda t: B * t * t + C * t + D
    c.assume('data', (u != 0) & (B != 0))
    m = Z._quadmin(a, D, C, a + u, p(u)) - a
    c.ensure_eq('critical point of the parabola', 2 * B * m + C, jnp.asarray(0.0))
  else:
    p = lambda t: A * t * t * t + B * t * t + C * t + D
    c.assume('data', (u != 0) & (v != 0) & (u != v) & (A != 0) & (B * B - 3 * A * C >= 0))
    m = Z._cubicmin(a, D, C, a + u, p(u), a + v, p(v)) - a
    c.ensure_eq('critical point of the cubic', 3 * A * m * m + 2 * B * m + C, jnp.asarray(0.0))
