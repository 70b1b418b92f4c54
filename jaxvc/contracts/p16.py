"""P16: Hager-Zhang line search.  Objective and gradient uninterpreted.  A bracket [low, high] is *good* when the left end is
low enough and descending and the right end is ascending or too high:
  phi(low) <= thr, phi'(low) < 0, and phi'(high) >= 0 or phi(high) > thr     (thr = phi(0) + eps |phi(0)|)
so a point with non-negative slope lies between.  `_update` keeps a good bracket good and inside the old one (loop invariant),
`_bracket` makes one (loop invariant), `_secant2`, `init_state` and `update` use these contracts."""
from .lsearch import *
from jaxopt import HagerZhangLineSearch
import jaxopt._src.hager_zhang_linesearch as HZ

F = 'jaxopt._src.hager_zhang_linesearch.HagerZhangLineSearch.'
NM = ('init_state', 'update', '_update', '_secant', '_secant2', '_bracket', '_value_and_grad_on_line', '_satisfies_wolfe_and_approx_wolfe')
FN = [F + n for n in NM]
C1, C2, EPS = 0.1, 0.9, 1e-6
MAXIT = 6


class Setting:
  def __init__(self, c, flavour='both', aux=False, lay='arr', line=False, **kw):
    self.c, self.line = c, line and c.symbolic
    fun, vg, self.f, self.g, self.A = problem(c, flavour, aux)
    kw = dict(dict(maxiter=MAXIT, c1=C1, c2=C2), **kw)
    self.ls = HagerZhangLineSearch(fun=fun, value_and_grad=vg, has_aux=aux, **kw)
    self.x, self.a, self.d = tree(c, 'x', lay), c.real('a'), tree(c, 'd', lay)
    self.f0, self.g0 = self.f(self.x, self.a), self.g(self.x, self.a)
    if not c.symbolic:                    # concrete runs: a direction of descent
      self.d = scale(jnp.where(dot(self.g0, self.d) < 0, 1.0, -1.0), self.d)
    self.thr = self.f0 + EPS * jnp.abs(self.f0)
    self.sl0 = dot(self.g0, self.d)
    if self.line:                         # `_value_and_grad_on_line` by its contract: arbitrary value and slope at every step
      self.pv, self.ps = c.fun('phi', ()), c.fun('slope', ())

      def on_line(_self, x, t, d, *args, **kwargs):
        c.ensure_eq('line: point, direction and arguments', (x, d, args), (self.x, self.d, (self.a,)))
        return self.phi(jnp.asarray(t, float))
      c.patch(HagerZhangLineSearch, '_value_and_grad_on_line', on_line)

  def at(self, t):
    return axpy(self.x, t, self.d)

  def phi(self, t):
    if self.line:
      return self.pv(t), self.ps(t)
    y = self.at(t)
    return self.f(y, self.a), dot(self.g(y, self.a), self.d)

  def left(self, t):
    v, s = self.phi(t)
    return (v <= self.thr) & (s < 0)

  def right(self, t):
    v, s = self.phi(t)
    return (s >= 0) | (v > self.thr)

  def good(self, lo, hi):
    return (lo < hi) & self.left(lo) & self.right(hi)


def acceptable(z, t, v, s, tol=0.0):
  """(Wolfe or approximate Wolfe conditions) at step t with value v and slope s."""
  wolfe = (v <= z.f0 + C1 * t * z.sl0 + tol) & (s >= C2 * z.sl0 - tol)
  approx = (s <= (2 * C1 - 1) * z.sl0 + tol) & (s >= C2 * z.sl0 - tol) & (v <= z.thr + tol)
  return wolfe | approx


@contract('P16', 'acceptance test', cfgs=grid(lay=['arr', 'tree'], flavour=['both', 'fun']), funcs=FN[-1:], runs=15)
def acceptance(c, lay, flavour):
  z = Setting(c, flavour, lay=lay)
  t, v, s, thr, tol = c.real('t'), c.real('v'), c.real('s'), c.real('thr'), c.real('tol', (), lo=0.0)
  c.assume('tolerance', tol >= 0)
  z.thr = thr
  e = z.ls._satisfies_wolfe_and_approx_wolfe(t, v, s, z.f0, z.g0, thr, z.d)
  c.ensure('within tolerance iff the conditions hold within tolerance', (e <= tol) == acceptable(z, t, v, s, tol))


@contract('P16', 'value and slope on the line', cfgs=grid(lay=['arr', 'tree'], flavour=['both', 'fun', 'callable'], aux=[False, True]), funcs=FN[-2:-1], runs=8)
def on_line(c, lay, flavour, aux):
  z = Setting(c, flavour, aux, lay)
  t = c.real('t')
  v, s = z.ls._value_and_grad_on_line(z.x, t, z.d, z.a)
  c.ensure_eq('value', v, z.phi(t)[0])
  c.ensure_eq('slope', s, z.phi(t)[1])


@contract('P16', 'interval update', cfgs=grid(flavour=['both', 'fun']), funcs=[F + '_update'], runs=20, timeout=60)
def interval(c, flavour):
  z = Setting(c, flavour, line=True)
  lo, mid, hi = c.real('lo'), c.real('mid'), c.real('hi')
  thr = z.thr
  c.assume('good bracket', z.good(lo, hi))
  vm, sm = z.phi(mid)
  inside = (lo < mid) & (mid < hi)
  first = sm >= 0
  second = ~first & (vm <= thr)

  def inv(st):
    done, failed, low, middle, high, v, s, it = st
    vm_, sm_ = z.phi(middle)
    start = (low == lo) & (high == hi) & (middle == mid) & (it == 0) & (done == ~inside)
    return {'a good bracket within the old one': (lo <= low) & (high <= hi) & z.good(low, high),
            'value and slope are those of the trial point': done | ((v == vm_) & (s == sm_)),
            'ascending trial becomes the right end': start | ~first | (done & (low == lo) & (high == mid)),
            'low descending trial becomes the left end': start | ~second | (done & (low == mid) & (high == hi)),
            'otherwise the trial cuts the interval from the right': start | first | second | (high <= mid),
            'a trial outside is ignored': inside | start,
            'no failure on finite values': ~failed & (it >= 0)}
  loop_rule(c, inv, 'update loop')
  failed, low, high, n = z.ls._update(z.x, lo, hi, mid, thr, z.d, (z.a,), {})
  c.ensure('good bracket', z.good(low, high) | failed)
  c.ensure('within the old one', (lo <= low) & (high <= hi))
  c.ensure_eq('trial outside: unchanged', (low, high), (lo, hi), when=~inside)
  c.ensure_eq('ascending trial', (low, high), (lo, mid), when=inside & first)
  c.ensure_eq('low descending trial', (low, high), (mid, hi), when=inside & second)
  c.ensure('high descending trial cuts the interval', high <= mid, when=inside & ~first & ~second)
  c.ensure('finite values: no failure', ~failed)


class Callee:
  """`_update` by its contract."""

  def __init__(self, c, z):
    self.c, self.z, self.b, self.calls = c, z, Branches(c), 0
    if c.symbolic:
      c.patch(HagerZhangLineSearch, '_update', lambda _self, *a: self(*a))

  def __call__(self, x, low, high, middle, thr, d, args, kw):
    c, z, path = self.c, self.z, self.b.now()
    low, high = jnp.asarray(low, float), jnp.asarray(high, float)
    k = 'update%d' % self.calls
    self.calls += 1
    c.ensure_eq(k + ': called with the current point, direction and threshold', (x, d, thr, args), (z.x, z.d, z.thr, (z.a,)), when=path)
    pre = z.good(low, high)
    c.ensure(k + ': called with a good bracket', pre, when=path)
    lo, hi, n = c.real(k + '.low'), c.real(k + '.high'), c.int(k + '.calls')
    inside = (low < middle) & (middle < high)
    ok = z.good(lo, hi) & (low <= lo) & (hi <= high) & (inside | ((lo == low) & (hi == high)))
    c.assume(k, ~(path & pre) | ok)
    c.assume(k, n >= 1)
    return jnp.asarray(False), lo, hi, n


@contract('P16', 'bracketing', cfgs=grid(flavour=['both', 'fun']), funcs=[F + '_bracket'], runs=15, timeout=60)
def bracketing(c, flavour):
  z = Setting(c, flavour, line=True)
  c0 = c.real('c0', (), lo=0.1, hi=2.0)
  c.assume('first trial', c0 > 0)
  c.assume('descent direction', z.phi(jnp.asarray(0.0))[1] < 0)
  c.assume('value at zero', z.phi(jnp.asarray(0.0))[0] == z.f0)
  cal = Callee(c, z)

  def inv(st):
    done, failed, low, middle, high, v, s, best, n = st
    vm, sm = z.phi(middle)
    return {'done: a good bracket': ~done | (z.good(low, high) & (low >= 0)),
            'searching: the largest acceptable trial is known': done | ((low == 0) & (best >= 0) & (best < middle) & z.left(best)),
            'searching: value and slope are those of the trial point': done | ((v == vm) & (s == sm)),
            'no failure on finite values': ~failed}
  if c.symbolic:
    loop_rule(c, inv, 'bracket loop', cal.b)
    failed, low, high, n = z.ls._bracket(z.x, c0, z.thr, z.d, z.a)
    c.ensure('a good bracket or a failure', failed | (z.good(low, high) & (low >= 0)))


@contract('P16', 'bracketing of unbounded objectives', cfgs=grid(flavour=['both']), funcs=[F + '_bracket'], runs=4, timeout=60)
def unbounded(c, flavour):
  """The expansion never goes on past a value of minus infinity or a NaN (it would not end)."""
  if c.symbolic:
    z = Setting(c, flavour, line=True)
    z.pv, z.ps = c.fun('phi', (), special=True), c.fun('slope', (), special=True)
    c.patch(HagerZhangLineSearch, '_update', lambda _self, x, lo, hi, *a: (c.bool('u.failed'), c.real('u.low'), c.real('u.high'), c.int('u.n')))
    b = Branches(c)

    def inv(st):
      done, failed, low, middle, high, v, s, best, n = st
      return {'searching: value and slope are numbers above minus infinity': done | failed | ((v > -jnp.inf) & ~jnp.isnan(s) & (v == z.pv(middle)) & (s == z.ps(middle))),
              'done at minus infinity: that trial is the right end': ~done | failed | (v > -jnp.inf) | (high == middle)}
    loop_rule(c, inv, 'bracket loop', b)
    z.ls._bracket(z.x, c.real('c0', (), lo=0.1), z.thr, z.d, z.a)
    c.ensure('reached', True)
  else:
    c0 = jnp.maximum(c.real('c0', (), lo=0.1), 0.01)
    ns, n = HagerZhangLineSearch(fun=lambda x: -c0 * jnp.sum(x)).run(1.0, jnp.ones(2))
    c.ensure('not a success', ~n.done)


@contract('P16', 'double secant step', cfgs=grid(flavour=['both', 'fun']), funcs=[F + '_secant2', F + '_secant'], runs=15, timeout=60)
def secant2(c, flavour):
  z = Setting(c, flavour, line=True)
  lo, hi = c.real('lo'), c.real('hi')
  Callee(c, z)
  c.assume('good bracket', z.good(lo, hi))
  failed, low, high, n = z.ls._secant2(z.x, lo, hi, z.thr, z.d, z.a)
  c.ensure('good bracket or a failure', failed | z.good(low, high))
  c.ensure('within the old one', (lo <= low) & (high <= hi))


def consistent(c, z, n, ns, aux, A):
  y = z.at(ns)
  c.ensure_eq('params', n.params, y)
  c.ensure_eq('value', n.value, z.f(y, z.a))
  c.ensure_eq('gradient', n.grad, z.g(y, z.a))
  c.ensure_eq('aux', n.aux, auxof(A, aux, y, z.a))


@contract('P16', 'init', cfgs=grid(flavour=['both', 'fun'], given=[True, False, 'value', 'grad'], direction=['given', 'steepest']), funcs=[F + 'init_state'], runs=12, timeout=60)
def init(c, flavour, given, direction):
  z = Setting(c, flavour)
  if direction == 'steepest':
    z.d = scale(-1.0, z.g0)
    z.sl0 = dot(z.g0, z.d)
  seen = {}

  def bracket(_self, x, c0, thr, d, *args, **kw):
    c.ensure_eq('bracket: arguments', (x, thr, d, args), (z.x, z.thr, z.d, (z.a,)))
    c.ensure('bracket: positive first trial', c0 > 0)
    lo, hi, n, f = c.real('b.low'), c.real('b.high'), c.int('b.calls'), c.bool('b.failed')
    c.assume('bracket', f | z.good(lo, hi))
    seen.update(lo=lo, hi=hi, f=f)
    return f, lo, hi, n
  c.patch(HagerZhangLineSearch, '_bracket', bracket)
  kw = {k: v for k, v in dict(value=z.f0, grad=z.g0).items() if given in (True, k)}
  st = z.ls.init_state(0.3, z.x, descent_direction=z.d if direction == 'given' else None, fun_args=(z.a,), **kw)
  (vl, sl), (vh, sh) = z.phi(st.low), z.phi(st.high)
  t, v, s = jnp.where(vl < vh, st.low, st.high), jnp.minimum(vl, vh), jnp.where(vl < vh, sl, sh)
  c.ensure('done iff the better end is acceptable', st.done == acceptable(z, t, v, s))
  c.ensure('good bracket or a failure', st.failed | z.good(st.low, st.high) if c.symbolic else True)
  if c.symbolic:
    c.ensure_eq('bracket and failure flag are those of the search', (st.low, st.high, st.failed), (seen['lo'], seen['hi'], seen['f']))
  c.ensure_eq('starting point', (st.params, st.value, st.grad), (z.x, z.f0, z.g0))
  c.ensure_eq('counter', st.iter_num, jnp.asarray(0))


@contract('P16', 'update', cfgs=grid(flavour=['both', 'fun', 'callable'], aux=[False, True], given=[True, False], direction=['given', 'steepest']), funcs=[F + 'update'], runs=12, timeout=60)
def update(c, flavour, aux, given, direction):
  z = Setting(c, flavour, aux)
  if direction == 'steepest':
    z.d = scale(-1.0, z.g0)
    z.sl0 = dot(z.g0, z.d)
  cal = Callee(c, z)
  seen = {}

  def secant2(_self, x, low, high, thr, d, *args, **kw):
    c.ensure_eq('secant step: arguments', (x, thr, d, args), (z.x, z.thr, z.d, (z.a,)))
    pre = z.good(low, high)
    lo, hi, n, f = c.real('s.low'), c.real('s.high'), c.int('s.calls'), c.bool('s.failed')
    c.assume('secant step', ~pre | (z.good(lo, hi) & (low <= lo) & (hi <= high)))
    seen.update(f=f)
    return f, lo, hi, n
  c.patch(HagerZhangLineSearch, '_secant2', secant2)
  if c.symbolic:
    kw = dict(value=z.f0, grad=z.g0)
    st = HZ.HagerZhangLineSearchState(**{**dict(iter_num=c.int('it'), done=c.bool('done'), low=c.real('low'), high=c.real('high'), value=z.f0, error=c.real('err'),
                                        params=z.x, grad=z.g0, failed=c.bool('fl'), aux=None, num_fun_eval=c.int('nf'), num_grad_eval=c.int('ng'))})
    c.assume('state', z.good(st.low, st.high))
    (vl, sl), (vh, sh) = z.phi(st.low), z.phi(st.high)
    t0, v0, s0 = jnp.where(vl < vh, st.low, st.high), jnp.minimum(vl, vh), jnp.where(vl < vh, sl, sh)
    c.assume('state: done iff the better end is acceptable', st.done == acceptable(z, t0, v0, s0))
    c.assume('state: error', st.done == (st.error <= 0))
    c.assume('state', (st.iter_num >= 0) & (st.iter_num < MAXIT))
  else:
    st = z.ls.init_state(0.3, z.x, descent_direction=z.d if direction == 'given' else None, fun_args=(z.a,))
    c.assume('state', z.good(st.low, st.high))
  kw = dict(value=z.f0, grad=z.g0) if given else {}
  ns, n = z.ls.update(0.3, st, z.x, descent_direction=z.d if direction == 'given' else None, fun_args=(z.a,), **kw)
  consistent(c, z, n, ns, aux, z.A)
  v, s = z.phi(ns)
  c.ensure('success iff the conditions hold at the returned step', n.done == acceptable(z, ns, v, s))
  c.ensure('error is zero iff success', (n.error <= 0) == n.done)
  c.ensure('success is kept', ~st.done | n.done)
  if c.symbolic:
    c.ensure('good bracket', z.good(n.low, n.high))
    c.ensure('a failure has a cause', ~n.failed | st.failed | seen['f'] | (st.iter_num + 1 == MAXIT))
  c.ensure('failure when the limit is reached without success', n.failed, when=~n.done & (st.iter_num + 1 == MAXIT))
  c.ensure('success is not also reported as a failure', ~(n.done & n.failed))
  c.ensure('the bracket does not grow', (st.low <= n.low) & (n.high <= st.high))
  c.ensure('the returned step is one of its ends', (ns == n.low) | (ns == n.high))
  c.ensure('no end of the bracket has a smaller value', v <= jnp.minimum(z.phi(n.low)[0], z.phi(n.high)[0]) if c.symbolic else True)
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)




@contract('P16', 'run', cfgs=grid(case=['quadratic', 'quartic', 'cos'], first=[0.3, 1.0]), funcs=[F + 'update', 'jaxopt._src.base.IterativeLineSearch.run'], mode='bounded', runs=15)
def run(c, case, first):
  x, d = c.real('x', (3,)), c.real('d', (3,))
  f = {'quadratic': lambda z: 0.5 * jnp.sum(z ** 2), 'quartic': lambda z: jnp.sum(z ** 4 + z), 'cos': lambda z: jnp.sum(jnp.cos(z)) + 0.05 * jnp.sum(z ** 2)}[case]
  g0 = jax.grad(f)(x)
  d = d * jnp.where(g0 @ d < 0, 1.0, -1.0) if case != 'quadratic' else -g0
  ns, n = HagerZhangLineSearch(fun=f).run(first, x, descent_direction=d)
  y = x + ns * d
  c.ensure_eq('params', n.params, y)
  c.ensure_eq('value', n.value, f(y))
  c.ensure_eq('gradient', n.grad, jax.grad(f)(y))
  v, s, f0, s0 = f(y), jax.grad(f)(y) @ d, f(x), g0 @ d
  tol = 1e-9 * (1 + abs(f0) + abs(s0))
  wolfe = (v <= f0 + C1 * ns * s0 + tol) & (s >= C2 * s0 - tol)
  approx = (s <= (2 * C1 - 1) * s0 + tol) & (s >= C2 * s0 - tol) & (v <= f0 + EPS * abs(f0) + tol)
  c.ensure('success implies the conditions', wolfe | approx, when=n.done)
  c.ensure('success is not also reported as a failure', ~(n.done & n.failed))
