"""P27: isotonic regression.  The pool-adjacent-violators routine is plain Python over NumPy arrays (run through a host
callback); it is executed here on arbitrary real entries, every outcome of every comparison followed (all values, sizes up to
the stated ones), and each path's result is held against the optimality conditions of the projection on the monotone cone."""
import types
from .common import *
import jaxopt._src.isotonic as IS
from jaxopt.isotonic import isotonic_l2_pav

F = 'jaxopt._src.isotonic.'
PAV = [F + '_isotonic_l2_pav_numba']


class Choice(Exception):
  pass


class Sym:
  """A real number of the symbolic run; comparisons ask for an outcome and record it as the path condition."""

  def __init__(self, paths, v):
    self.p, self.v = paths, v

  def _of(self, o):
    return o.v if isinstance(o, Sym) else o

  def __add__(self, o): return Sym(self.p, self.v + self._of(o))
  __radd__ = __add__
  def __sub__(self, o): return Sym(self.p, self.v - self._of(o))
  def __rsub__(self, o): return Sym(self.p, self._of(o) - self.v)
  def __mul__(self, o): return Sym(self.p, self.v * self._of(o))
  __rmul__ = __mul__
  def __truediv__(self, o): return Sym(self.p, self.v / self._of(o))
  def __neg__(self): return Sym(self.p, -self.v)
  def __gt__(self, o): return self.p.ask(self.v > self._of(o))
  def __lt__(self, o): return self.p.ask(self.v < self._of(o))
  def __ge__(self, o): return self.p.ask(self.v >= self._of(o))
  def __le__(self, o): return self.p.ask(self.v <= self._of(o))
  def __eq__(self, o): return self.p.ask(self.v == self._of(o))
  def __ne__(self, o): return self.p.ask(self.v != self._of(o))
  __hash__ = None

  def __float__(self):
    raise Choice('a symbolic number was converted to a float')


class Paths:
  """Depth-first enumeration of the outcomes of the comparisons."""

  def __init__(self, limit=4000):
    self.limit = limit

  def ask(self, cond):
    k = len(self.conds)
    if k == len(self.choice):
      self.choice.append(True)
    out = self.choice[k]
    self.conds.append(cond if out else ~cond)
    return out

  def __call__(self, fn):
    """(path condition, result) for every path of fn()."""
    self.choice, n = [], 0
    while True:
      self.conds = []
      r = fn()
      yield self.conds, r
      n += 1
      if n > self.limit:
        raise Choice('too many paths')
      while self.choice and not self.choice[-1]:
        self.choice.pop()
      if not self.choice:
        return
      self.choice[-1] = False


class Vec(np.ndarray):
  """Object array: `astype` and `dtype` of the callee's signature are those of a float array."""

  def astype(self, *a, **k):
    return self.copy()


def numpy_on(paths):
  """NumPy with object arrays instead of float arrays."""
  ns = types.SimpleNamespace(**{k: getattr(np, k) for k in dir(np) if not k.startswith('__')})

  def full(v):
    def make(shape, *a, **k):
      r = np.empty(shape, object).view(Vec)
      r[...] = v
      return r
    return make
  ns.zeros, ns.ones, ns.empty = full(0.0), full(1.0), full(0.0)
  ns.zeros_like = lambda a, *r, **k: full(0.0)(np.shape(a))
  ns.ones_like = lambda a, *r, **k: full(1.0)(np.shape(a))
  ns.empty_like = ns.zeros_like
  ns.array = lambda a, *r, **k: np.array(a, object).view(Vec)
  ns.asarray = ns.array
  ns.copy = lambda a: a.copy()
  return ns


def pav_paths(c, y):
  """Every (path condition, result vector) of the real routine on the symbolic vector y."""
  f = getattr(IS._isotonic_l2_pav_numba, 'py_func', IS._isotonic_l2_pav_numba)
  paths = Paths()
  c.patch(IS, 'onp', numpy_on(paths))

  def go():
    v = np.empty(y.shape, object).view(Vec)
    for i in range(y.shape[0]):
      v[i] = Sym(paths, y[i])
    given = [v[i] for i in range(len(v))]
    r = f(v)
    return r, all(v[i] is given[i] for i in range(len(v)))
  for conds, (r, kept) in paths(go):
    yield conds, jnp.stack([jnp.asarray(e.v if isinstance(e, Sym) else e, float) for e in r]), kept


def conj(cs):
  r = jnp.asarray(True)
  for x in cs:
    r = r & x
  return r


def optimal(c, y, v, when, tol=1e-9):
  n = y.shape[0]
  c.ensure_le('non-increasing', v[1:], v[:-1], when=when)
  S = jnp.cumsum(y - v)
  c.ensure_le('multipliers have the right sign', S[:-1], jnp.zeros(n - 1), when=when)
  c.ensure_eq('the sum is kept', S[-1], jnp.zeros(()), when=when)
  c.ensure_eq('complementary: blocks are averages', S[:-1] * (v[:-1] - v[1:]), jnp.zeros(n - 1), when=when)


@contract('P27', 'pool adjacent violators', cfgs=grid(n=[1, 2, 3, 4, 5, 6]), funcs=PAV, runs=30, timeout=60, hard=300)
def pav(c, n):
  y = c.real('y', (n,))
  if not c.symbolic:
    optimal(c, y, jnp.asarray(IS._isotonic_l2_pav_numba(np.asarray(y, float))), None)
    return
  for conds, v, kept in pav_paths(c, y):
    c.ensure('the input array is not written', kept)
    optimal(c, y, v, conj(conds))


@contract('P27', 'optimality conditions identify the closest monotone sequence', cfgs=grid(n=[2, 3, 4]), funcs=[], runs=0, timeout=60)
def closest(c, n):
  """The conditions above imply <y - v, w - v> <= 0 for every monotone w, hence |y - w|^2 >= |y - v|^2 + |v - w|^2."""
  y, v, w = c.real('y', (n,)), c.real('v', (n,)), c.real('w', (n,))
  S = jnp.cumsum(y - v)
  if not c.symbolic:
    return
  c.assume('v', jnp.all(v[1:] <= v[:-1]))
  c.assume('v', jnp.all(S[:-1] <= 0))
  c.assume('v', S[-1] == 0)
  c.assume('v', jnp.all(S[:-1] * (v[:-1] - v[1:]) == 0))
  c.assume('w', jnp.all(w[1:] <= w[:-1]))
  c.lemma('signs', jnp.all(S[:-1] * (w[:-1] - w[1:]) <= 0))
  c.lemma('summation by parts, w', eq=(dot(y - v, w), jnp.sum(S[:-1] * (w[:-1] - w[1:])) + S[-1] * w[-1]))
  c.lemma('summation by parts, v', eq=(dot(y - v, v), jnp.sum(S[:-1] * (v[:-1] - v[1:])) + S[-1] * v[-1]))
  c.ensure_le('variational inequality', dot(y - v, w - v), 0.0)


@contract('P27', 'wrapper', cfgs=grid(increasing=[True, False, None], bounds=['default', 'low', 'high', 'both']), funcs=[F + 'isotonic_l2_pav'], runs=12)
def wrapper(c, increasing, bounds):
  y, lo, hi = c.real('y', ('n',)), c.real('lo', (), hi=0.0), c.real('hi', (), lo=0.0)
  c.assume('bounds', lo <= hi)
  P = c.fun('pav', 'like0')
  c.patch(IS, '_isotonic_l2_pav', P, always=True)
  kw = {} if bounds == 'default' else {k: v for k, v in (('y_min', lo), ('y_max', hi)) if bounds in ('both', {'y_min': 'low', 'y_max': 'high'}[k])}
  if increasing is not None:
    kw['increasing'] = increasing
  r = isotonic_l2_pav(y, **kw)
  want = -P(-y) if increasing in (True, None) else P(y)
  if 'y_min' in kw:
    want = jnp.maximum(want, lo)
  if 'y_max' in kw:
    want = jnp.minimum(want, hi)
  c.ensure_eq('sign and bounds', r, want)


@contract('P27', 'integer input', cfgs=grid(increasing=[True, False]), funcs=[F + 'isotonic_l2_pav'], runs=12, fix=[{'n': 1}, {'n': 3}])
def integers(c, increasing):
  y = c.int('y', ('n',), lo=-4, hi=4)
  out = c.real('out', ('n',))
  if c.symbolic:
    def pav(z):
      c.ensure('a floating-point sequence is passed: averages are not truncated', jnp.issubdtype(z.dtype, jnp.floating))
      c.ensure_eq('argument', z * 1.0, y * (-1.0 if increasing else 1.0))
      return out.astype(z.dtype)
    c.patch(IS, '_isotonic_l2_pav', pav)
    r = isotonic_l2_pav(y, increasing=increasing)
    c.ensure_eq('result', r, -out if increasing else out)
  else:
    c.ensure_eq('same as for floats', isotonic_l2_pav(y, increasing=increasing) * 1.0, isotonic_l2_pav(y * 1.0, increasing=increasing))


@contract('P27', 'callback', cfgs=grid(n=[1, 2, 4]), funcs=[F + '_isotonic_l2_pav'], runs=8)
def callback(c, n):
  y, out = c.real('y', (n,)), c.real('out', (n,))

  def pure_callback(f, spec, *args, **kw):
    c.ensure('the pool-adjacent-violators routine is called', f is IS._isotonic_l2_pav_numba)
    c.ensure('shape and dtype', (tuple(spec.shape) == (n,)) and spec.dtype == y.dtype)
    c.ensure_eq('argument', args, (y,))
    return out
  if c.symbolic:
    c.patch(jax, 'pure_callback', pure_callback)
    c.ensure_eq('result of the callback', IS._isotonic_l2_pav(y), out)
  else:
    optimal(c, y, IS._isotonic_l2_pav(y), None)
    for n_ in (3, 7):
      Y = jnp.asarray(np.random.default_rng(n_).normal(size=(4, n_)))
      c.ensure_eq('batches are handled row by row', jax.vmap(IS._isotonic_l2_pav)(Y), jnp.stack([IS._isotonic_l2_pav(r) for r in Y]))


def patterns(n):
  return [''.join('1' if (k >> i) & 1 else '0' for i in range(n - 1)) for k in range(2 ** (n - 1))]


@contract('P27', 'derivative', cfgs=grid(pat=[p for n in (1, 2, 3, 4) for p in patterns(n)]), funcs=[F + '_isotonic_l2_pav_jvp', F + '_jvp_isotonic_l2_jax_pav'], runs=8, timeout=60)
def derivative(c, pat):
  """At a solution with blocks of equal values (the digit 1 marks a jump), the derivative averages the tangent over each block."""
  n = len(pat) + 1
  y, t, gap, base = c.real('y', (n,)), c.real('t', (n,)), c.real('gap', (n,), lo=0.1, hi=2.0), c.real('base')
  c.assume('jumps', jnp.all(gap >= 0.1))
  steps = jnp.asarray([0.0] + [float(ch) for ch in pat]) * gap
  v = base - jnp.cumsum(steps)
  if c.symbolic:
    c.patch(jax, 'pure_callback', lambda f, spec, *a, **k: v)
  else:
    y = v
  p, d = jax.jvp(IS._isotonic_l2_pav, (y,), (t,))
  c.ensure_eq('solution', p, v)
  blocks, cur = [], [0]
  for i, ch in enumerate(pat, 1):
    if ch == '1':
      blocks.append(cur)
      cur = []
    cur.append(i)
  blocks.append(cur)
  for b in blocks:
    m = sum(t[i] for i in b) / len(b)
    for i in b:
      c.ensure_le('average over the block', jnp.abs(d[i] - m), 1.1e-8 * jnp.abs(m) + (0.0 if c.symbolic else 1e-12))
  w = c.real('w', (n,))
  g = jax.vjp(IS._isotonic_l2_pav, y)[1](w)[0]
  c.ensure_eq('reverse mode is the transpose', dot(g, t), dot(w, d))
