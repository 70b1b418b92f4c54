"""Symbolic interpreter: jaxpr of the real code -> terms.

Arrays: concrete axes are materialised as numpy object arrays, symbolic axes stay symbolic (the entry is a
term over the index variable '@k:dim' of axis k).  Reals carry IEEE special-value flags (nan/+inf/-inf);
rounding, overflow and the sign of zero are not modelled.
"""
from __future__ import annotations
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend import core as jex
try:
  from jax.extend.core import primitives  # noqa
except Exception:
  pass
from . import terms as T
from .terms import Poly, B, TRUE, FALSE, const


class Unsupported(Exception):
  pass


# ---------------------------------------------------------------- values
class V:
  __slots__ = ('f', 'nan', 'pi', 'ni')

  def __init__(self, f, nan=FALSE, pi=FALSE, ni=FALSE):
    self.f, self.nan, self.pi, self.ni = f, nan, pi, ni

  @property
  def plain(self):
    return self.nan is FALSE and self.pi is FALSE and self.ni is FALSE

  @property
  def special(self):
    return T.bor(self.nan, self.pi, self.ni)

  @property
  def inf(self):
    return T.bor(self.pi, self.ni)

  def __repr__(self):
    if self.plain:
      return repr(self.f)
    return 'V(%r | nan:%r +inf:%r -inf:%r)' % (self.f, self.nan, self.pi, self.ni)

  def key(self):
    if self.plain:
      return self.f
    return (self.f, self.nan, self.pi, self.ni)


def mkv(f, nan, pi, ni):
  if nan is TRUE or pi is TRUE or ni is TRUE:
    f = T.ZERO if hasattr(T, 'ZERO') else const(0)
  return V(f, nan, pi, ni)


ZERO = V(const(0))
ONE = V(const(1))
NAN = V(const(0), TRUE)
PINF = V(const(0), FALSE, TRUE)
NINF = V(const(0), FALSE, FALSE, TRUE)


def vconst(x):
  if isinstance(x, (bool, np.bool_)):
    return TRUE if x else FALSE
  if isinstance(x, (int, np.integer)):
    return V(const(int(x)))
  if isinstance(x, (float, np.floating)):
    if math.isnan(x):
      return NAN
    if math.isinf(x):
      return PINF if x > 0 else NINF
    if isinstance(x, np.floating) and not isinstance(x, float):
      return V(const(T.Fr(str(x))))
    return V(const(T.Fr(repr(float(x)))))
  raise Unsupported('constant %r' % (x,))


def vadd(a, b):
  if a.plain and b.plain:
    return V(a.f + b.f)
  nan = T.bor(a.nan, b.nan, T.band(a.pi, b.ni), T.band(a.ni, b.pi))
  pi = T.band(T.bor(a.pi, b.pi), T.bnot(nan))
  ni = T.band(T.bor(a.ni, b.ni), T.bnot(nan))
  return mkv(a.f + b.f, nan, pi, ni)


def vneg(a):
  return V(-a.f, a.nan, a.ni, a.pi)


def vsub(a, b):
  return vadd(a, vneg(b))


def _pos(a):
  return T.bor(a.pi, T.band(T.bnot(a.special), T.gt0(a.f)))


def _neg(a):
  return T.bor(a.ni, T.band(T.bnot(a.special), T.gt0(-a.f)))


def _zero(a):
  return T.band(T.bnot(a.special), T.eq0(a.f))


def vmul(a, b):
  if a.plain and b.plain:
    return V(a.f * b.f)
  nan = T.bor(a.nan, b.nan, T.band(a.inf, _zero(b)), T.band(b.inf, _zero(a)))
  anyinf = T.bor(a.inf, b.inf)
  same = T.bor(T.band(_pos(a), _pos(b)), T.band(_neg(a), _neg(b)))
  opp = T.bor(T.band(_pos(a), _neg(b)), T.band(_neg(a), _pos(b)))
  return mkv(a.f * b.f, nan, T.band(anyinf, same), T.band(anyinf, opp))


NONZERO = [None]     # optional oracle: Poly -> True if provably non-zero under the preconditions


def vdiv(a, b):
  if b.plain and b.f.is_const() and b.f.terms:
    if a.plain:
      return V(a.f * T.inv(b.f))
    c = b.f.cval()
    f = a.f.scale(1 / c)
    return V(f, a.nan, a.pi, a.ni) if c > 0 else V(f, a.nan, a.ni, a.pi)
  z = T.eq0(b.f) if not b.f.is_const() else (TRUE if not b.f.terms else FALSE)
  if z is not FALSE and b.plain and NONZERO[0] is not None and NONZERO[0](b.f):
    z = FALSE
  f = a.f * T.inv(b.f)
  if a.plain and b.plain:
    nan = T.band(z, T.eq0(a.f))
    pi = T.band(z, T.gt0(a.f))
    ni = T.band(z, T.gt0(-a.f))
    return mkv(f, nan, pi, ni)
  # a / inf = 0 ; inf/inf = nan ; inf / x
  fb = T.bnot(b.special)
  zb = T.band(fb, z)
  nan = T.bor(a.nan, b.nan, T.band(a.inf, b.inf), T.band(zb, _zero(a)))
  posa, nega = _pos(a), _neg(a)
  nonneg_b = T.bor(_pos(b), zb)
  pi = T.bor(T.band(zb, posa), T.band(a.pi, fb, nonneg_b), T.band(a.ni, _neg(b), T.bnot(b.inf)))
  ni = T.bor(T.band(zb, nega), T.band(a.ni, fb, nonneg_b), T.band(a.pi, _neg(b), T.bnot(b.inf)))
  f = T.ite(b.inf, 0, f)
  return mkv(f, nan, pi, ni)


def vite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if isinstance(a, B):
    return T.bite(c, a, b)
  # a branch that is known special makes its finite part irrelevant
  fa, fb = a.f, b.f
  if a.nan is TRUE or a.pi is TRUE or a.ni is TRUE:
    f = fb
  elif b.nan is TRUE or b.pi is TRUE or b.ni is TRUE:
    f = fa
  else:
    f = T.ite(c, fa, fb)
  if a.plain and b.plain:
    return V(f)
  return V(f, T.bite(c, a.nan, b.nan), T.bite(c, a.pi, b.pi), T.bite(c, a.ni, b.ni))


def vlt(a, b):
  if a.plain and b.plain:
    return T.lt(a.f, b.f)
  ok = T.bnot(T.bor(a.nan, b.nan))
  return T.band(ok, T.bor(T.band(a.ni, T.bnot(b.ni)), T.band(b.pi, T.bnot(a.pi)),
                          T.band(T.bnot(a.special), T.bnot(b.special), T.lt(a.f, b.f))))


def vle(a, b):
  if a.plain and b.plain:
    return T.le(a.f, b.f)
  ok = T.bnot(T.bor(a.nan, b.nan))
  return T.band(ok, T.bor(a.ni, b.pi, T.band(T.bnot(a.special), T.bnot(b.special), T.le(a.f, b.f))))


def veq(a, b):
  if isinstance(a, B):
    return T.biff(a, b)
  if a.plain and b.plain:
    return T.eq(a.f, b.f)
  ok = T.bnot(T.bor(a.nan, b.nan))
  return T.band(ok, T.bor(T.band(a.pi, b.pi), T.band(a.ni, b.ni),
                          T.band(T.bnot(a.special), T.bnot(b.special), T.eq(a.f, b.f))))


def same_value(a, b):
  """Equality in which nan equals nan: used for obligations 'the two results are the same'."""
  if isinstance(a, B):
    return T.biff(a, b)
  if a.plain and b.plain:
    return T.eq(a.f, b.f)
  return T.bor(T.band(a.nan, b.nan), T.band(a.pi, b.pi), T.band(a.ni, b.ni),
               T.band(T.bnot(a.special), T.bnot(b.special), T.eq(a.f, b.f)))


def vmax(a, b):
  if a.plain and b.plain:
    return V(T.ite(T.ge0(a.f - b.f), a.f, b.f))
  nan = T.bor(a.nan, b.nan)
  r = vite(vle(b, a), a, b)
  return mkv(r.f, nan, T.band(T.bor(a.pi, b.pi), T.bnot(nan)), T.band(a.ni, b.ni, T.bnot(nan)))


def vmin(a, b):
  if a.plain and b.plain:
    return V(T.ite(T.ge0(a.f - b.f), b.f, a.f))
  nan = T.bor(a.nan, b.nan)
  r = vite(vle(b, a), b, a)
  return mkv(r.f, nan, T.band(a.pi, b.pi, T.bnot(nan)), T.band(T.bor(a.ni, b.ni), T.bnot(nan)))


def vabs(a):
  f = T.ite(T.ge0(a.f), a.f, -a.f)
  if T._sign(a.f) in ('+', '0+', '0'):
    f = a.f
  return V(f, a.nan, a.inf, FALSE)


def vsign(a):
  f = T.ite(T.gt0(a.f), 1, T.ite(T.gt0(-a.f), -1, 0))
  if not a.plain:
    f = T.ite(a.pi, 1, T.ite(a.ni, -1, f))
  return V(f, a.nan)


def vsqrt(a):
  neg = T.bor(a.ni, T.band(T.bnot(a.special), T.gt0(-a.f)))
  if neg is not FALSE and a.plain and NONZERO[0] is not None and NONZERO[0](a.f, 'nonneg'):
    neg = FALSE
  return mkv(T.sqrt(a.f), T.bor(a.nan, neg), a.pi, FALSE)


def vexp(a):
  f = T.exp(a.f)
  if not a.plain:
    f = T.ite(a.ni, 0, f)
  return mkv(f, a.nan, a.pi, FALSE)


def vlog(a):
  pos = T.gt0(a.f)
  if a.plain:
    return mkv(T.log(a.f), T.gt0(-a.f), FALSE, T.eq0(a.f))
  return mkv(T.log(a.f), T.bor(a.nan, a.ni, T.band(T.bnot(a.special), T.gt0(-a.f))), a.pi, _zero(a))


def vipow(a, k):
  if a.plain:
    if k >= 0:
      return V(a.f ** k)
    return vdiv(ONE, V(a.f ** (-k)))
  r = ONE
  for _ in range(abs(k)):
    r = vmul(r, a)
  return r if k >= 0 else vdiv(ONE, r)


def vfinite(a):
  return T.bnot(a.special)


# ---------------------------------------------------------------- arrays
def dimname(d):
  return int(d) if isinstance(d, (int, np.integer)) else str(d)


class Arr:
  __slots__ = ('shape', 'data')

  def __init__(self, shape, data):
    self.shape = tuple(shape)
    if not (isinstance(data, np.ndarray) and data.dtype == object):
      d = np.empty((), object)
      d[()] = data
      data = d
    self.data = data

  @property
  def ndim(self):
    return len(self.shape)

  def symaxes(self):
    return [k for k, d in enumerate(self.shape) if isinstance(d, str)]

  def conaxes(self):
    return [k for k, d in enumerate(self.shape) if not isinstance(d, str)]

  def cshape(self):
    return tuple(d for d in self.shape if not isinstance(d, str))

  def item(self):
    assert self.shape == (), self.shape
    return self.data[()]

  def map(self, f):
    out = np.empty(self.data.shape, object)
    for i in np.ndindex(*self.data.shape):
      out[i] = f(self.data[i])
    return Arr(self.shape, out)

  def entries(self):
    return [self.data[i] for i in np.ndindex(*self.data.shape)]

  def __repr__(self):
    return 'Arr%s%s' % (self.shape, self.data.tolist() if self.data.shape else self.data[()])


def scalar(v):
  return Arr((), v)


def ixv(k, d):
  return '@%d:%s' % (k, d)


def sub_any(v, ren):
  if isinstance(v, B):
    return T.subst(v, ren)
  if v.plain:
    return V(T.subst(v.f, ren))
  return V(T.subst(v.f, ren), T.subst(v.nan, ren), T.subst(v.pi, ren), T.subst(v.ni, ren))


def rename_axes(a, mapping, newshape):
  """Move symbolic axis k to mapping[k]; concrete data left untouched."""
  ren = {}
  for k in a.symaxes():
    if mapping[k] != k:
      ren[ixv(k, a.shape[k])] = ixv(mapping[k], a.shape[k])
  if not ren:
    return Arr(newshape, a.data)
  return Arr(newshape, a.map(lambda v: sub_any(v, ren)).data)


def bcast_to(a, shape):
  """Broadcast axes of size 1 (same rank)."""
  if a.shape == shape or a.shape == ():
    return a
  if len(a.shape) != len(shape):
    raise Unsupported('elementwise on %s, %s' % (a.shape, shape))
  con = a.conaxes()
  data = a.data
  drop, tgt = [], []
  for j, k in enumerate(con):
    if a.shape[k] == shape[k]:
      tgt.append(shape[k])
    elif a.shape[k] == 1:
      if isinstance(shape[k], str):
        drop.append(j)
      else:
        tgt.append(shape[k])
    else:
      raise Unsupported('elementwise on %s, %s' % (a.shape, shape))
  for k in a.symaxes():
    if a.shape[k] != shape[k]:
      raise Unsupported('elementwise on %s, %s' % (a.shape, shape))
  if drop:
    data = data.squeeze(axis=tuple(drop))
  if not isinstance(data, np.ndarray):
    return Arr(shape, data)
  data = np.array(np.broadcast_to(data, tuple(tgt)), dtype=object)
  return Arr(shape, data)


def ew(f, *arrs):
  shape = ()
  for a in arrs:
    if len(a.shape) > len(shape):
      shape = a.shape
  if any(a.shape != () and a.shape != shape for a in arrs):
    if any(len(a.shape) not in (0, len(shape)) for a in arrs):
      raise Unsupported('elementwise on %s' % [x.shape for x in arrs])
    out = []
    for k in range(len(shape)):
      ds = [a.shape[k] for a in arrs if a.shape != () and a.shape[k] != 1]
      out.append(ds[0] if ds else 1)
    shape = tuple(out)
    arrs = [bcast_to(a, shape) for a in arrs]
  cs = tuple(d for d in shape if not isinstance(d, str))
  out = np.empty(cs, object)
  for i in np.ndindex(*cs):
    out[i] = f(*[a.data[i] if a.shape != () else a.data[()] for a in arrs])
  return Arr(shape, out)


def fresh_array(name, shape, dtype, extra=False):
  """Arbitrary array named `name`; extra=True also lets entries be nan/inf."""
  shape = tuple(dimname(d) for d in shape)
  sidx = [ixv(k, d) for k, d in enumerate(shape) if isinstance(d, str)]
  cs = tuple(d for d in shape if not isinstance(d, str))
  out = np.empty(cs, object)
  kind = np.dtype(dtype).kind
  for i in np.ndindex(*cs):
    # index tuple in axis order
    it = iter(i)
    idx = tuple(ixv(k, d) if isinstance(d, str) else next(it) for k, d in enumerate(shape))
    if kind == 'b':
      out[i] = T.bsym(name, idx)
    elif kind in 'iu':
      out[i] = V(T.isym(name, idx))
    elif extra:
      n, p, m = (T.bsym(name + s, idx) for s in ('?nan', '?pinf', '?ninf'))
      out[i] = V(T.sym(name, idx), n, T.band(p, T.bnot(n)), T.band(m, T.bnot(n), T.bnot(p)))
    else:
      out[i] = V(T.sym(name, idx))
  return Arr(shape, out)


def from_numpy(x):
  x = np.asarray(x)
  if x.dtype.kind == 'V' and 'float0' in str(x.dtype):       # tangent of an integer: no values
    x = np.zeros(x.shape, bool)
  out = np.empty(x.shape, object)
  for i in np.ndindex(*x.shape):
    v = x[i]
    if x.dtype.kind == 'f' and x.dtype != np.float64:
      v = float(str(v))
    elif hasattr(v, 'item'):
      v = v.item()
    out[i] = vconst(v)
  return Arr(x.shape, out)


def mat(a):
  """(object ndarray) for arrays without symbolic axes."""
  if a.symaxes():
    raise Unsupported('symbolic axis')
  return a.data


_fresh = itertools.count()


# ---------------------------------------------------------------- interpreter
class Interp:
  def __init__(self, prove=None, max_unroll=400):
    self.axioms = []          # (guard B, B) facts assumed from contracts of primitives
    self.assumes = []         # (path B, name, Arr of B)
    self.ensures = []         # (path B, name, kind, payload)
    self.path = [TRUE]
    self.max_unroll = max_unroll
    self.while_unroll = 0     # unroll while loops exactly up to this many iterations when their condition folds to false
    self.trusted = set()      # names of external contracts used
    self.prims = set()
    self.loops = []           # description of havocked loops
    self.prove = prove
    self.uf_extra = set()     # opaque functions that may return nan/inf
    self.decide = None
    self.entails = None      # (formula, path) -> follows from the assumptions so far

  def run(self, closed, args):
    return self.eval(closed.jaxpr, [self.read_const(c) for c in closed.consts], args)

  def read_const(self, c):
    return from_numpy(np.asarray(c)) if not isinstance(c, Arr) else c

  def eval(self, jaxpr, consts, args):
    env = {}

    def read(v):
      if hasattr(v, 'val'):
        x = np.asarray(v.val)
        return from_numpy(x)
      return env[v]
    for v, a in zip(jaxpr.constvars, consts):
      env[v] = a
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
      env[v] = a
    for eqn in jaxpr.eqns:
      ins = [read(v) for v in eqn.invars]
      name = eqn.primitive.name
      self.prims.add(name)
      h = RULES.get(name)
      if h is None:
        raise Unsupported('primitive %s' % name)
      outs = h(self, eqn, *ins)
      if not isinstance(outs, (list, tuple)):
        outs = [outs]
      for v, o in zip(eqn.outvars, outs):
        env[v] = o
    return [read(v) for v in jaxpr.outvars]

  def eval_closed(self, cj, args):
    jaxpr = cj.jaxpr if hasattr(cj, 'jaxpr') else cj
    consts = [self.read_const(c) for c in (cj.consts if hasattr(cj, 'consts') else ())]
    return self.eval(jaxpr, consts, args)


RULES = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def ew1(name, f):
  RULES[name] = lambda I, e, a: a.map(f)


def ew2(name, f):
  RULES[name] = lambda I, e, a, b: ew(f, a, b)


def isb(v):
  return isinstance(v, B)


def tonum(v):
  return V(T.ite(v, 1, 0)) if isb(v) else v


ew2('add', lambda a, b: vadd(a, b))
ew2('add_any', lambda a, b: vadd(a, b))
ew2('sub', vsub)
ew2('mul', lambda a, b: T.band(a, b) if isb(a) else vmul(a, b))
ew2('max', lambda a, b: T.bor(a, b) if isb(a) else vmax(a, b))
ew2('min', lambda a, b: T.band(a, b) if isb(a) else vmin(a, b))
ew1('neg', vneg)
ew1('abs', vabs)
ew1('sign', vsign)
ew1('sqrt', vsqrt)
ew1('rsqrt', lambda a: vdiv(ONE, vsqrt(a)))
ew1('exp', vexp)
ew1('log', vlog)
ew1('log1p', lambda a: vlog(vadd(a, ONE)))
ew1('expm1', lambda a: vsub(vexp(a), ONE))
ew1('logistic', lambda a: vdiv(ONE, vadd(ONE, vexp(vneg(a)))))
ew1('square', lambda a: vmul(a, a))
ew1('one_minus_square', lambda a: vsub(ONE, vmul(a, a)))
ew1('is_finite', vfinite)
ew1('stop_gradient', lambda a: a)
ew1('copy', lambda a: a)
ew1('copy_p', lambda a: a)
ew1('real', lambda a: a)
ew1('optimization_barrier', lambda a: a)
ew1('reduce_precision', lambda a: a)
RULES['conj'] = lambda I, e, a: a
RULES['imag'] = lambda I, e, a: a.map(lambda v: ZERO)


@rule('tanh')
def _tanh(I, e, a):
  def f(v):
    t = vexp(vmul(V(const(2)), v))
    return vdiv(vsub(t, ONE), vadd(t, ONE))
  return a.map(f)


@rule('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'lt_to', 'le_to', 'eq_to')
def _cmp(I, e, a, b):
  n = e.primitive.name
  def f(x, y):
    if isb(x):
      if n == 'eq':
        return T.biff(x, y)
      if n == 'ne':
        return T.bxor(x, y)
      x, y = tonum(x), tonum(y)
    if n == 'lt':
      return vlt(x, y)
    if n == 'le':
      return vle(x, y)
    if n == 'gt':
      return vlt(y, x)
    if n == 'ge':
      return vle(y, x)
    if n == 'eq':
      return veq(x, y)
    if n == 'ne':
      return T.bnot(veq(x, y))
    raise Unsupported(n)
  return ew(f, a, b)


def _bool2(fb):
  def f(I, e, a, b):
    def g(x, y):
      if not isb(x):
        raise Unsupported('bitwise on integers')
      return fb(x, y)
    return ew(g, a, b)
  return f


RULES['and'] = _bool2(T.band)
RULES['or'] = _bool2(T.bor)
RULES['xor'] = _bool2(T.bxor)


@rule('not')
def _not(I, e, a):
  def g(x):
    if not isb(x):
      raise Unsupported('bitwise on integers')
    return T.bnot(x)
  return a.map(g)


def _kind(aval):
  return np.dtype(aval.dtype).kind


@rule('div')
def _div(I, e, a, b):
  if _kind(e.outvars[0].aval) in 'iu':
    def f(x, y):
      if x.f.is_const() and y.f.is_const() and y.f.cval() != 0:
        q = abs(x.f.cval()) // abs(y.f.cval())
        return V(const(q if (x.f.cval() >= 0) == (y.f.cval() > 0) else -q))
      q = x.f * T.inv(y.f)
      return V(T.ite(T.ge0(q), T.ifloor(q), -T.ifloor(-q)))
    return ew(f, a, b)
  return ew(vdiv, a, b)


@rule('rem')
def _rem(I, e, a, b):
  def f(x, y):
    if x.f.is_const() and y.f.is_const() and y.f.cval() != 0:
      m, n = x.f.cval(), y.f.cval()
      r = abs(m) - abs(n) * (abs(m) // abs(n))
      return V(const(r if m >= 0 else -r))
    # sign of the dividend
    m = T.ite(T.ge0(x.f), T.imod(x.f, y.f), -T.imod(-x.f, y.f))
    return V(m)
  return ew(f, a, b)


@rule('floor')
def _floor(I, e, a):
  return a.map(lambda v: V(T.ifloor(v.f), v.nan, v.pi, v.ni))


@rule('ceil')
def _ceil(I, e, a):
  return a.map(lambda v: V(-T.ifloor(-v.f), v.nan, v.pi, v.ni))


@rule('round')
def _round(I, e, a):
  return a.map(lambda v: V(T.ifloor(v.f + const(0.5)), v.nan, v.pi, v.ni))


@rule('integer_pow')
def _ipow(I, e, a):
  return a.map(lambda v: vipow(v, e.params['y']))


@rule('pow')
def _pow(I, e, a, b):
  def f(x, y):
    if y.plain and y.f.is_const():
      c = y.f.cval()
      if c.denominator == 1:
        return vipow(x, int(c))
      if c == T.Fr(1, 2):
        return vsqrt(x)
    if x.plain and y.plain:
      return V(T.pw(x.f, y.f))
    raise Unsupported('pow')
  return ew(f, a, b)


@rule('convert_element_type')
def _conv(I, e, a):
  k = np.dtype(e.params['new_dtype']).kind
  def f(v):
    if k == 'b':
      return v if isb(v) else T.bor(v.special, T.bnot(T.eq0(v.f)))
    if isb(v):
      return tonum(v)
    if k in 'iu':
      if T.poly_is_int(v.f):
        return v
      return V(T.ite(T.ge0(v.f), T.ifloor(v.f), -T.ifloor(-v.f)))
    return v
  return a.map(f)


@rule('select_n')
def _select(I, e, c, *xs):
  if len(xs) == 2 and (not c.data.size or isb(c.data.flat[0])):
    if I.decide is not None and c.ndim == 0 and c.item() not in (TRUE, FALSE):
      d = I.decide(c.item(), I.path[-1])
      if d in (TRUE, FALSE):
        c = xs[1] if d is TRUE else xs[0]
        return c
    return ew(lambda cc, a, b: vite(cc, b, a), c, *xs)
  def f(cc, *vs):
    r = vs[-1]
    for k in range(len(vs) - 2, -1, -1):
      r = vite(T.le(cc.f, k), vs[k], r)
    return r
  return ew(f, c, *xs)


def _bad():
  raise Unsupported('shapes')


@rule('clamp')
def _clamp(I, e, lo, x, hi):
  # lax.clamp(min, x, max) = min(max(x, lo), hi)
  return ew(lambda l, v, h: vmin(vmax(v, l), h), lo, x, hi)


@rule('broadcast_in_dim')
def _bcast(I, e, a, *dyn):
  shape = tuple(dimname(d) for d in e.outvars[0].aval.shape)
  bd = e.params['broadcast_dimensions']
  mapping = {k: bd[k] for k in range(a.ndim)}
  # rename symbolic axes
  con_in = a.conaxes()
  out_con = [k for k, d in enumerate(shape) if not isinstance(d, str)]
  data = a.map(lambda v: v).data if False else a.data
  # operand concrete axis of size 1 mapped to a symbolic output axis: squeeze
  sq = [j for j, k in enumerate(con_in) if isinstance(shape[bd[k]], str)]
  if sq:
    data = data.squeeze(axis=tuple(sq))
    con_in = [k for j, k in enumerate(con_in) if j not in sq]
  newdims = [bd[k] for k in con_in]
  cs = tuple(shape[k] for k in out_con)
  tmp = [1] * len(out_con)
  for j, nd in enumerate(newdims):
    tmp[out_con.index(nd)] = data.shape[j]
  # broadcast_dimensions is increasing
  data = np.broadcast_to(data.reshape(tmp), cs)
  r = Arr(shape, np.array(data, dtype=object) if data.shape else data)
  if data.shape == ():
    r = Arr(shape, data[()])
  ren = {}
  for k in a.symaxes():
    if bd[k] != k:
      ren[ixv(k, a.shape[k])] = ixv(bd[k], a.shape[k])
  if ren:
    r = r.map(lambda v: sub_any(v, ren))
  return r


def _move(a, order, newshape):
  """order[j] = old axis placed at new axis j (None for a new axis of size 1)."""
  con_old = a.conaxes()
  con_order = [con_old.index(o) for o in order if o is not None and not isinstance(a.shape[o], str)]
  drop = [j for j in range(len(con_old)) if j not in con_order]
  data = a.data
  if drop:
    data = data.squeeze(axis=tuple(drop))
    rem = [j for j in range(len(con_old)) if j in con_order]
    con_order = [rem.index(j) for j in con_order]
  data = np.transpose(data, con_order) if con_order else data
  cs = tuple(d for d in newshape if not isinstance(d, str))
  data = data.reshape(cs)
  ren = {}
  for j, o in enumerate(order):
    if o is not None and isinstance(a.shape[o], str) and o != j:
      ren[ixv(o, a.shape[o])] = ixv(j, a.shape[o])
  r = Arr(newshape, data if data.shape else data[()])
  return r.map(lambda v: sub_any(v, ren)) if ren else r


@rule('transpose')
def _transpose(I, e, a):
  p = e.params['permutation']
  return _move(a, list(p), tuple(a.shape[k] for k in p))


@rule('squeeze')
def _squeeze(I, e, a):
  ds = set(d % max(a.ndim, 1) for d in e.params['dimensions'])
  order = [k for k in range(a.ndim) if k not in ds]
  return _move(a, order, tuple(a.shape[k] for k in order))


@rule('expand_dims')
def _expand(I, e, a):
  return _reshape_to(a, tuple(dimname(d) for d in e.outvars[0].aval.shape))


@rule('reshape')
def _reshape(I, e, a, *dyn):
  return _reshape_to(a, tuple(dimname(d) for d in e.outvars[0].aval.shape))


def _reshape_to(a, shape):
  if a.shape == shape:
    return a
  if not a.symaxes() and not any(isinstance(d, str) for d in shape):
    return Arr(shape, a.data.reshape(shape)) if shape else Arr((), a.data.reshape(())[()])
  # symbolic: allow insertion/removal of unit axes, and reshaping of concrete axes only
  old = [k for k, d in enumerate(a.shape) if d != 1]
  new = [k for k, d in enumerate(shape) if d != 1]
  if [a.shape[k] for k in old] == [shape[k] for k in new]:
    order = [None] * len(shape)
    for o, n in zip(old, new):
      order[n] = o
    return _move(a, order, shape)
  so, sn = [a.shape[k] for k in a.symaxes()], [d for d in shape if isinstance(d, str)]
  raise Unsupported('reshape %s -> %s' % (a.shape, shape))


@rule('reduce_sum')
def _rsum(I, e, a):
  return reduce_axes(a, e.params['axes'], vadd, ZERO, _vsum)


def _vsum(v, ix, d):
  if v.plain:
    return V(T.sum_over(ix, v.f, d))
  # with special values: any nan/inf poisons the sum
  ex = lambda b: T.bnot(T.forall(ix, T.bnot(b), d))
  p, m, n = ex(v.pi), ex(v.ni), ex(v.nan)
  nan = T.bor(n, T.band(p, m))
  return mkv(T.sum_over(ix, T.ite(v.special, 0, v.f), d), nan, T.band(p, T.bnot(nan)), T.band(m, T.bnot(nan)))


def reduce_axes(a, axes, f, unit, symf):
  axes = sorted(axes)
  con = a.conaxes()
  data = a.data
  caxes = [con.index(k) for k in axes if k in con]
  saxes = [k for k in axes if k not in con]
  keep = [j for j in range(len(con)) if j not in caxes]
  data2 = np.transpose(data, keep + caxes) if data.ndim else data
  ks = tuple(data.shape[j] for j in keep)
  out = np.empty(ks, object)
  for i in np.ndindex(*ks):
    sub = data2[i]
    els = [sub[j] for j in np.ndindex(*sub.shape)] if isinstance(sub, np.ndarray) else [sub]
    r = None
    for x in els:
      r = x if r is None else f(r, x)
    if r is None:
      r = unit
    for k in saxes:
      r = symf(r, ixv(k, a.shape[k]), a.shape[k])
    out[i] = r
  newshape = tuple(d for k, d in enumerate(a.shape) if k not in axes)
  ren = {}
  order = [k for k in range(a.ndim) if k not in axes]
  for j, o in enumerate(order):
    if isinstance(a.shape[o], str) and o != j:
      ren[ixv(o, a.shape[o])] = ixv(j, a.shape[o])
  r = Arr(newshape, out if out.shape else out[()])
  return r.map(lambda v: sub_any(v, ren)) if ren else r


def smax(v, ix, d):
  """Maximum over a symbolic axis of values with special cases: NaN wins, then +inf, -inf only when there is nothing else."""
  some = lambda b: T.bnot(T.forall(ix, T.bnot(b), d))
  nan = some(v.nan)
  pi = T.band(T.bnot(nan), some(v.pi))
  ni = T.forall(ix, v.ni, d)
  f = T.masked_max(ix, T.bnot(v.special), v.f, d)
  return mkv(f, nan, pi, T.band(T.bnot(nan), ni))


@rule('reduce_max')
def _rmax(I, e, a):
  def s(v, ix, d):
    if not v.plain:
      return smax(v, ix, d)
    return V(T.max_over(ix, v.f, d))
  return reduce_axes(a, e.params['axes'], vmax, NINF, s)


@rule('reduce_min')
def _rmin(I, e, a):
  def s(v, ix, d):
    if not v.plain:
      return vneg(smax(vneg(v), ix, d))
    return V(-T.max_over(ix, -v.f, d))
  return reduce_axes(a, e.params['axes'], vmin, PINF, s)


@rule('reduce_prod')
def _rprod(I, e, a):
  def s(v, ix, d):
    raise Unsupported('prod')
  return reduce_axes(a, e.params['axes'], vmul, ONE, s)


@rule('reduce_and')
def _rand(I, e, a):
  return reduce_axes(a, e.params['axes'], T.band, TRUE, lambda v, ix, d: T.forall(ix, v, d))


@rule('reduce_or')
def _ror(I, e, a):
  return reduce_axes(a, e.params['axes'], T.bor, FALSE, lambda v, ix, d: T.bnot(T.forall(ix, T.bnot(v), d)))


@rule('dot_general')
def _dot(I, e, a, b):
  (lc, rc), (lb, rb) = e.params['dimension_numbers']
  return dot_general(a, b, lc, rc, lb, rb)


def dot_general(a, b, lc, rc, lb, rb):
  lf = [k for k in range(a.ndim) if k not in lc and k not in lb]
  rf = [k for k in range(b.ndim) if k not in rc and k not in rb]
  shape = tuple([a.shape[k] for k in lb] + [a.shape[k] for k in lf] + [b.shape[k] for k in rf])
  nb, nlf = len(lb), len(lf)
  # temporary names for axes
  ra, rb_ = {}, {}
  for j, k in enumerate(lb):
    if isinstance(a.shape[k], str):
      ra[ixv(k, a.shape[k])] = ixv(j, a.shape[k])
  for j, k in enumerate(rb):
    if isinstance(b.shape[k], str):
      rb_[ixv(k, b.shape[k])] = ixv(j, b.shape[k])
  for j, k in enumerate(lf):
    if isinstance(a.shape[k], str):
      ra[ixv(k, a.shape[k])] = ixv(nb + j, a.shape[k])
  for j, k in enumerate(rf):
    if isinstance(b.shape[k], str):
      rb_[ixv(k, b.shape[k])] = ixv(nb + nlf + j, b.shape[k])
  csym = []
  for j, (k1, k2) in enumerate(zip(lc, rc)):
    d = a.shape[k1]
    if isinstance(d, str):
      t = '@c%d:%s' % (j, d)
      ra[ixv(k1, d)] = t
      rb_[ixv(k2, d)] = t
      csym.append((t, d))
  A = a.map(lambda v: sub_any(v, ra)) if ra else a
  Bm = b.map(lambda v: sub_any(v, rb_)) if rb_ else b
  cona, conb = a.conaxes(), b.conaxes()
  def order(con, x, groups):
    o = []
    for g in groups:
      o += [con.index(k) for k in g if k in con]
    return o
  oa = order(cona, a, [lb, lf, lc])
  ob = order(conb, b, [rb, rf, rc])
  da = np.transpose(A.data, oa) if A.data.ndim else A.data
  db = np.transpose(Bm.data, ob) if Bm.data.ndim else Bm.data
  cnt = lambda x, ks: len([k for k in ks if not isinstance(x.shape[k], str)])
  nbb, nla, nca = cnt(a, lb), cnt(a, lf), cnt(a, lc)
  nrb = cnt(b, rf)
  cs = tuple(d for d in shape if not isinstance(d, str))
  out = np.empty(cs, object)
  cshape = da.shape[nbb + nla:]
  for i in np.ndindex(*cs):
    ib, il, ir = i[:nbb], i[nbb:nbb + nla], i[nbb + nla:]
    r = None
    for c in np.ndindex(*cshape):
      p = vmul(*[tonum(q) if isb(q) else q for q in (da[ib + il + c], db[ib + ir + c])])
      r = p if r is None else vadd(r, p)
    if r is None:
      r = ZERO
    for t, d in csym:
      r = _vsum(r, t, d)
    out[i] = r
  return Arr(shape, out if out.shape else out[()])


@rule('iota')
def _iota(I, e, *dyn):
  shape = tuple(dimname(d) for d in e.outvars[0].aval.shape)
  k = e.params['dimension']
  cs = tuple(d for d in shape if not isinstance(d, str))
  out = np.empty(cs, object)
  con = [j for j, d in enumerate(shape) if not isinstance(d, str)]
  for i in np.ndindex(*cs):
    if isinstance(shape[k], str):
      out[i] = V(T.ix_term(ixv(k, shape[k])))
    else:
      out[i] = V(const(i[con.index(k)]))
  return Arr(shape, out if out.shape else out[()])


@rule('empty2')
def _empty2(I, e):
  # residuals of a branch not taken: the lowering fills them with zeros
  return from_numpy(np.zeros((), e.params['dtype']))


@rule('dim_as_value')
def _dimval(I, e, *a):
  d = e.params['dim']
  return scalar(V(T.dim_term(str(d))))


@rule('concatenate')
def _concat(I, e, *xs):
  k = e.params['dimension']
  if len(xs) == 1:
    return xs[0]
  if any(isinstance(x.shape[k], str) for x in xs):
    raise Unsupported("concatenate on symbolic axis")
  ax = xs[0].conaxes().index(k)
  shape = tuple(dimname(d) for d in e.outvars[0].aval.shape)
  return Arr(shape, np.concatenate([x.data for x in xs], axis=ax))


@rule('stack')
def _stack(I, e, *xs):
  shape = tuple(dimname(d) for d in e.outvars[0].aval.shape)
  k = e.params['axis']
  k = k % len(shape)
  unit = tuple(1 if j == k else d for j, d in enumerate(shape))
  ys = [_reshape_to(x, unit) for x in xs]
  ax = [j for j, d in enumerate(shape) if not isinstance(d, str)].index(k)
  return Arr(shape, np.concatenate([y.data for y in ys], axis=ax))


@rule('split')
def _split(I, e, a):
  k = e.params['axis']
  sizes = e.params['sizes']
  if isinstance(a.shape[k], str):
    if len(sizes) == 1:
      return [a]
    raise Unsupported('split')
  ax = a.conaxes().index(k)
  outs, o = [], 0
  for s in sizes:
    s = int(s)
    sl = [slice(None)] * a.data.ndim
    sl[ax] = slice(o, o + s)
    shp = a.shape[:k] + (s,) + a.shape[k + 1:]
    outs.append(Arr(shp, a.data[tuple(sl)]))
    o += s
  return outs


@rule('unstack')
def _unstack(I, e, a):
  k = e.params['axis']
  if isinstance(a.shape[k], str):
    raise Unsupported('unstack of symbolic axis')
  ax = a.conaxes().index(k)
  order = [j for j in range(a.ndim) if j != k]
  outs = []
  for t in range(a.shape[k]):
    sl = [slice(None)] * a.data.ndim
    sl[ax] = slice(t, t + 1)
    outs.append(_move(Arr(a.shape[:k] + (1,) + a.shape[k + 1:], a.data[tuple(sl)]), order, tuple(a.shape[j] for j in order)))
  return outs


@rule('slice')
def _slice(I, e, a):
  st, li, sr = e.params['start_indices'], e.params['limit_indices'], e.params['strides']
  con = a.conaxes()
  sl = []
  for k in range(a.ndim):
    s = 1 if sr is None else sr[k]
    if isinstance(a.shape[k], str):
      if dimname(st[k]) != 0 or dimname(li[k]) != a.shape[k] or s != 1:
        raise Unsupported('slice of symbolic axis')
    else:
      sl.append(slice(int(st[k]), int(li[k]), int(s)))
  d = a.data[tuple(sl)] if sl else a.data
  return Arr(tuple(dimname(x) for x in e.outvars[0].aval.shape), d)


@rule('rev')
def _rev(I, e, a):
  sl = []
  for k in a.conaxes():
    sl.append(slice(None, None, -1) if k in e.params['dimensions'] else slice(None))
  if any(isinstance(a.shape[k], str) for k in e.params['dimensions']):
    raise Unsupported('rev')
  return Arr(a.shape, a.data[tuple(sl)])


@rule('tile')
def _tile(I, e, a):
  reps = e.params['reps']
  if any(r != 1 for k, r in enumerate(reps) if isinstance(a.shape[k], str)):
    raise Unsupported('tile of a symbolic axis')
  con = a.conaxes()
  d = np.tile(a.data, tuple(reps[k] for k in con)) if con else a.data
  return Arr(tuple(n if isinstance(n, str) else n * r for n, r in zip(a.shape, reps)), d)


@rule('pad')
def _pad(I, e, a, v):
  cfg = e.params['padding_config']
  shape = tuple(dimname(d) for d in e.outvars[0].aval.shape)
  if any(isinstance(d, str) for k, d in enumerate(a.shape) if tuple(cfg[k]) != (0, 0, 0)):
    raise Unsupported('pad symbolic')
  con = a.conaxes()
  cs = tuple(d for d in shape if not isinstance(d, str))
  out = np.empty(cs, object)
  for i in np.ndindex(*cs):
    out[i] = v.item()
  for i in np.ndindex(*a.data.shape):
    j = []
    for q, k in enumerate(con):
      lo, hi, it = cfg[k]
      j.append(lo + i[q] * (it + 1))
    if all(0 <= x < s for x, s in zip(j, cs)):
      out[tuple(j)] = a.data[i]
  return Arr(shape, out)


def _clampix(v, hi):
  """clamp an integer term to [0, hi]"""
  return T.ite(T.ge0(v.f), T.ite(T.ge0(v.f - hi), const(hi), v.f), const(0)) if not v.f.is_const() else const(
      min(max(int(v.f.cval()), 0), hi))


@rule('dynamic_slice')
def _dslice(I, e, a, *starts):
  sizes = e.params['slice_sizes']
  con = a.conaxes()
  idx = []
  for k in range(a.ndim):
    if isinstance(a.shape[k], str):
      if dimname(sizes[k]) != a.shape[k]:
        raise Unsupported('dynamic_slice symbolic')
      continue
    idx.append((k, _clampix(starts[k].item(), a.shape[k] - int(sizes[k])), int(sizes[k]), a.shape[k]))
  data = a.data
  for j, (k, st, sz, n) in enumerate(idx):
    opts = range(0, n - sz + 1)
    def take(o):
      sl = [slice(None)] * data.ndim
      sl[j] = slice(o, o + sz)
      return data[tuple(sl)]
    if st.is_const():
      data2 = take(int(st.cval()))
    else:
      data2 = take(n - sz)
      for o in reversed(range(0, n - sz)):
        t = take(o)
        r = np.empty(t.shape, object)
        c = T.eq(st, o)
        for i in np.ndindex(*t.shape):
          r[i] = vite(c, t[i], data2[i])
        data2 = r
    data = data2
  shape = tuple(dimname(d) for d in e.outvars[0].aval.shape)
  return Arr(shape, data if data.shape else data[()])


@rule('dynamic_update_slice')
def _dus(I, e, a, u, *starts):
  con = a.conaxes()
  out = np.array(a.data, dtype=object)
  offs = []
  for k in con:
    offs.append(_clampix(starts[k].item(), a.shape[k] - u.shape[k]))
  for k in a.symaxes():
    if u.shape[k] != a.shape[k]:
      raise Unsupported('dus')
  ranges = []
  for j, k in enumerate(con):
    n = a.shape[k] - u.shape[k] + 1
    ranges.append([int(offs[j].cval())] if offs[j].is_const() else list(range(n)))
  for o in itertools.product(*ranges):
    c = T.band(*[TRUE if offs[j].is_const() else T.eq(offs[j], o[j]) for j in range(len(o))])
    for i in np.ndindex(*u.data.shape):
      t = tuple(x + y for x, y in zip(i, o))
      out[t] = vite(c, u.data[i], out[t])
  return Arr(a.shape, out)


@rule('gather')
def _gather(I, e, a, ind):
  dn = e.params['dimension_numbers']
  sizes = [dimname(s) for s in e.params['slice_sizes']]
  mode = e.params['mode']
  shape = tuple(dimname(d) for d in e.outvars[0].aval.shape)
  offset, coll, smap = dn.offset_dims, dn.collapsed_slice_dims, dn.start_index_map
  obd, sbd = getattr(dn, 'operand_batching_dims', ()), getattr(dn, 'start_indices_batching_dims', ())
  if any(isinstance(a.shape[k], str) for k in obd):
    raise Unsupported('batched gather')
  if ind.symaxes():
    raise Unsupported('gather with symbolic index array')
  nI = ind.ndim
  bshape = ind.shape[:-1]
  batch_pos = [k for k in range(len(shape)) if k not in offset]
  # operand dims not collapsed, in order, correspond to offset dims
  odims = [k for k in range(a.ndim) if k not in coll and k not in obd]
  for k in range(a.ndim):
    if isinstance(a.shape[k], str) and (k in smap or sizes[k] != a.shape[k]):
      raise Unsupported('gather symbolic axis')
  con = a.conaxes()
  cs = tuple(d for d in shape if not isinstance(d, str))
  out = np.empty(cs, object)
  conout = [k for k, d in enumerate(shape) if not isinstance(d, str)]
  fill = 'FILL' in str(mode).upper()
  for i in np.ndindex(*cs):
    full = {conout[j]: i[j] for j in range(len(i))}
    bidx = tuple(full[k] for k in batch_pos)
    starts = {}
    for q, k in enumerate(smap):
      starts[k] = ind.data[bidx + (q,)]
    opts = []     # per concrete operand axis: list of (cond, position)
    oob = FALSE
    for k in con:
      off = 0
      if k in odims:
        off = full[offset[odims.index(k)]]
      elif k in obd:
        off = bidx[sbd[obd.index(k)]]
      if k in starts:
        v = starts[k]
        hi = a.shape[k] - sizes[k]
        if fill:
          oob = T.bor(oob, T.lt(v.f, 0), T.lt(const(hi), v.f))
        st = _clampix(v, hi)
        if st.is_const():
          opts.append([(TRUE, int(st.cval()) + off)])
        else:
          opts.append([(T.eq(st, o), o + off) for o in range(hi + 1)])
      else:
        opts.append([(TRUE, off)])
    r = None
    for combo in itertools.product(*opts):
      c = T.band(*[x for x, _ in combo])
      v = a.data[tuple(p for _, p in combo)]
      r = v if r is None else vite(c, v, r)
    if oob is not FALSE:
      r = vite(oob, FALSE if isb(r) else (V(const(-2**31)) if _kind(e.outvars[0].aval) in 'iu' else NAN), r)
    out[i] = r
  res = Arr(shape, out if out.shape else out[()])
  ren = {}
  for k in a.symaxes():
    nk = offset[odims.index(k)]
    if nk != k:
      ren[ixv(k, a.shape[k])] = ixv(nk, a.shape[k])
  return res.map(lambda v: sub_any(v, ren)) if ren else res


@rule('scatter', 'scatter-add', 'scatter_add', 'scatter-mul', 'scatter_mul')
def _scatter(I, e, a, ind, upd):
  dn = e.params['dimension_numbers']
  obd, sbd = getattr(dn, 'operand_batching_dims', ()), getattr(dn, 'scatter_indices_batching_dims', ())
  if any(isinstance(a.shape[k], str) for k in obd):
    raise Unsupported('batched scatter')
  add = 'add' in e.primitive.name
  mul = 'mul' in e.primitive.name
  uw, iw, s2o = dn.update_window_dims, dn.inserted_window_dims, dn.scatter_dims_to_operand_dims
  if ind.symaxes():
    raise Unsupported('scatter symbolic')
  wdims = [k for k in range(a.ndim) if k not in iw and k not in obd]
  for k in a.symaxes():
    if k in s2o:
      raise Unsupported('scatter symbolic')
    if upd.shape[uw[wdims.index(k)]] != a.shape[k]:
      raise Unsupported('scatter symbolic window')
  # move update's symbolic axes to the operand's axis numbers
  ren = {}
  for k in a.symaxes():
    uk = uw[wdims.index(k)]
    if uk != k:
      ren[ixv(uk, a.shape[k])] = ixv(k, a.shape[k])
  U = upd.map(lambda v: sub_any(v, ren)) if ren else upd
  out = np.array(a.data, dtype=object)
  con = a.conaxes()
  conu = upd.conaxes()
  spos = [k for k in range(upd.ndim) if k not in uw]
  for i in np.ndindex(*upd.data.shape):
    full = {conu[j]: i[j] for j in range(len(i))}
    bidx = tuple(full[k] for k in spos)
    starts = {k: ind.data[bidx + (q,)] for q, k in enumerate(s2o)}
    opts = []
    for k in con:
      off = full[uw[wdims.index(k)]] if k in wdims else bidx[sbd[obd.index(k)]] if k in obd else 0
      if k in starts:
        st = starts[k].f
        wsz = upd.shape[uw[wdims.index(k)]] if k in wdims else 1
        hi = a.shape[k] - wsz
        if 'CLIP' in str(e.params['mode']).upper():
          st = _clampix(starts[k], hi)
        if st.is_const():
          o = int(st.cval())
          opts.append([(TRUE, o + off)] if 0 <= o <= hi else [])
        else:
          opts.append([(T.eq(st, o), o + off) for o in range(hi + 1)])
      else:
        opts.append([(TRUE, off)])
    for combo in itertools.product(*opts):
      c = T.band(*[x for x, _ in combo])
      p = tuple(q for _, q in combo)
      nv = vadd(out[p], U.data[i]) if add else (vmul(out[p], U.data[i]) if mul else U.data[i])
      out[p] = vite(c, nv, out[p])
  return Arr(a.shape, out if out.shape else out[()])


# ---- sorting and selection on concrete axes
def _lex_less(xs, ys, nk):
  """keys xs strictly before ys (nan last, stable handled by network on (key, position))"""
  r = FALSE
  for x, y in reversed(list(zip(xs[:nk], ys[:nk]))):
    if isb(x):
      x, y = tonum(x), tonum(y)
    less = T.bor(vlt(x, y), T.band(T.bnot(x.nan), y.nan))
    same = T.bor(veq(x, y), T.band(x.nan, y.nan))
    r = T.bor(less, T.band(same, r))
  return r


@rule('sort')
def _sort(I, e, *xs):
  k, nk = e.params['dimension'], e.params['num_keys']
  a = xs[0]
  if a.symaxes():
    raise Unsupported('sort symbolic')
  outs = [np.array(x.data, dtype=object) for x in xs]
  n = a.shape[k]
  others = [range(d) for j, d in enumerate(a.shape) if j != k]
  for o in itertools.product(*others):
    def pos(t):
      o2 = list(o)
      o2.insert(k, t)
      return tuple(o2)
    rows = [[x[pos(t)] for x in outs] for t in range(n)]
    # insertion (bubble) network: stable
    for i in range(n):
      for j in range(n - 1 - i):
        c = _lex_less(rows[j + 1], rows[j], nk)
        if c is FALSE:
          continue
        lo = [vite(c, q, p) for p, q in zip(rows[j], rows[j + 1])]
        hi = [vite(c, p, q) for p, q in zip(rows[j], rows[j + 1])]
        rows[j], rows[j + 1] = lo, hi
    for t in range(n):
      for x, v in zip(outs, rows[t]):
        x[pos(t)] = v
  return [Arr(x.shape, o) for x, o in zip(xs, outs)]


@rule('top_k')
def _topk(I, e, a):
  k = e.params['k']
  if a.symaxes():
    raise Unsupported('top_k symbolic')
  n = a.shape[-1]
  shp = a.shape[:-1] + (k,)
  vo, io = np.empty(shp, object), np.empty(shp, object)
  for o in np.ndindex(*a.shape[:-1]):
    rows = [[a.data[o + (t,)], V(const(t))] for t in range(n)]
    for i in range(n):
      for j in range(n - 1 - i):
        c = vlt(rows[j][0], rows[j + 1][0])
        lo = [vite(c, q, p) for p, q in zip(rows[j], rows[j + 1])]
        hi = [vite(c, p, q) for p, q in zip(rows[j], rows[j + 1])]
        rows[j], rows[j + 1] = lo, hi
    for t in range(k):
      vo[o + (t,)], io[o + (t,)] = rows[t]
  return [Arr(shp, vo), Arr(shp, io)]


@rule('argmax', 'argmin')
def _argmax(I, e, a):
  (k,) = e.params['axes']
  if a.symaxes():
    raise Unsupported('argmax symbolic')
  mx = e.primitive.name == 'argmax'
  shp = tuple(d for j, d in enumerate(a.shape) if j != k)
  out = np.empty(shp, object)
  for o in np.ndindex(*shp):
    best, bi = None, None
    for t in range(a.shape[k]):
      v = a.data[o[:k] + (t,) + o[k:]]
      v = tonum(v)
      if best is None:
        best, bi = v, V(const(t))
      else:
        c = vlt(best, v) if mx else vlt(v, best)
        c = T.bor(c, T.band(v.nan, T.bnot(best.nan)))
        best, bi = vite(c, v, best), vite(c, V(const(t)), bi)
    out[o] = bi
  return Arr(shp, out if out.shape else out[()])


@rule('cumsum', 'cumprod', 'cummax', 'cummin', 'cumlogsumexp')
def _cumsum(I, e, a):
  k = e.params['axis']
  n = e.primitive.name
  if isinstance(a.shape[k], str) or n == 'cumlogsumexp':
    raise Unsupported('cumsum symbolic')
  f = {'cumsum': vadd, 'cumprod': vmul, 'cummax': vmax, 'cummin': vmin}[n]
  ax = a.conaxes().index(k)
  out = np.array(a.data, dtype=object)
  rng = range(1, a.shape[k])
  if e.params.get('reverse'):
    rng = range(a.shape[k] - 2, -1, -1)
  d = 1 if not e.params.get('reverse') else -1
  o = np.moveaxis(out, ax, 0)
  for t in rng:
    for j in np.ndindex(*o.shape[1:]):
      o[(t,) + j] = f(o[(t - d,) + j], o[(t,) + j])
  return Arr(a.shape, out)


# ---- control flow and calls
@rule('pjit', 'jit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'remat2', 'custom_lin')
def _call(I, e, *xs):
  cj = e.params.get('jaxpr') or e.params.get('call_jaxpr')
  return I.eval_closed(cj, list(xs))


@rule('custom_jvp_call', 'custom_vjp_call', 'custom_vjp_call_jaxpr')
def _ccall(I, e, *xs):
  cj = e.params.get('call_jaxpr') or e.params.get('fun_jaxpr') or e.params.get('jaxpr')
  return I.eval_closed(cj, list(xs))


@rule('custom_linear_solve')
def _cls(I, e, *xs):
  """Contract of lax.custom_linear_solve: returns x with matvec(x) = b."""
  cl = e.params['const_lengths']
  jx = e.params['jaxprs']
  nm, nv, ns, nt = cl.matvec, cl.vecmat, cl.solve, cl.transpose_solve
  cm = xs[:nm]
  b = xs[nm + nv + ns + nt:]
  key = tuple(_argkey(a) for a in cm) + tuple(_argkey(a) for a in b)
  outs = []
  for j, v in enumerate(e.outvars[:len(b)]):
    outs.append(uf_array('linsolve%d{%s}' % (j, jaxpr_hash(jx.matvec)), key, b[j].shape, v.aval.dtype))
  Ax = I.eval_closed(jx.matvec, list(cm) + outs)
  for l, r in zip(Ax, b):
    eqs = ew(same_value, l, r)
    for idx in np.ndindex(*eqs.data.shape):
      I.axioms.append((I.path[-1], eqs.data[idx]))
  I.trusted.add('lax.custom_linear_solve (cg/gmres/bicgstab/dense solve): returned x satisfies matvec(x)=b exactly')
  return outs


def jaxpr_hash(cj):
  import hashlib
  return hashlib.sha1(str(cj).encode()).hexdigest()[:8]


def _argkey(a):
  """Hashable canonical key of an array argument of an uninterpreted function."""
  bs = tuple('~a%d:%s' % (k, a.shape[k]) for k in a.symaxes())
  ren = {ixv(k, a.shape[k]): '~a%d:%s' % (k, a.shape[k]) for k in a.symaxes()}
  ks = []
  for v in a.entries():
    if ren:
      v = sub_any(v, ren)
    t = v if isb(v) else v.key()
    if bs:
      t = ('lam', bs, t) if not isinstance(t, tuple) else tuple(('lam', bs, y) for y in t)
    ks.append(t)
  return tuple(ks)


def uf_array(name, key, shape, dtype, extra=False, sym_pairs=None):
  shape = tuple(dimname(d) for d in shape)
  cs = tuple(d for d in shape if not isinstance(d, str))
  out = np.empty(cs, object)
  kind = np.dtype(dtype).kind
  for i in np.ndindex(*cs):
    it = iter(i)
    idx = tuple(ixv(k, d) if isinstance(d, str) else next(it) for k, d in enumerate(shape))
    if sym_pairs:
      p, q = sym_pairs
      if _ixkey(idx[q]) < _ixkey(idx[p]):
        l = list(idx)
        l[p], l[q] = l[q], l[p]
        idx = tuple(l)
    if kind == 'b':
      out[i] = T.lift_ufb(name, key, idx)
    else:
      f = T.lift_uf(T.uf(name, key, idx, kind in 'iu'))
      if extra:
        n = T.ufb(name + '?nan', key, idx)
        p = T.band(T.ufb(name + '?pinf', key, idx), T.bnot(n))
        m = T.band(T.ufb(name + '?ninf', key, idx), T.bnot(n), T.bnot(p))
        out[i] = V(f, n, p, m)
      else:
        out[i] = V(f)
  return Arr(shape, out if out.shape else out[()])


def _ixkey(x):
  return (0, x, '') if isinstance(x, int) else (1, 0, x)


@rule('opaque')
def _opaque(I, e, *xs):
  p = e.params
  name, shape, nb, dtype = p['name'], tuple(dimname(d) for d in p['shape']), p['nb'], p['dtype']
  extra = name.split('/')[0] in I.uf_extra
  parts = name.split('/')
  sp = None
  if len(parts) == 3 and parts[1] == parts[2] and len(shape) == 2:
    sp = (0, 1)
  if nb == 0:
    return uf_array(name, tuple(_argkey(a) for a in xs), shape, dtype, extra, sp)
  b = xs[0].shape[:nb]
  if any(isinstance(d, str) for d in b):
    raise Unsupported('opaque batched over a symbolic axis')
  cs = tuple(b) + tuple(d for d in shape if not isinstance(d, str))
  out = np.empty(cs, object)
  for i in np.ndindex(*b):
    sub = []
    for x in xs:
      y = Arr(x.shape[nb:], x.data[i])
      ren = {ixv(k, x.shape[k]): ixv(k - nb, x.shape[k]) for k in x.symaxes()}
      sub.append(y.map(lambda v: sub_any(v, ren)) if ren else y)
    r = uf_array(name, tuple(_argkey(a) for a in sub), shape, dtype, extra, sp)
    ren = {ixv(k, r.shape[k]): ixv(k + nb, r.shape[k]) for k in r.symaxes()}
    r = r.map(lambda v: sub_any(v, ren)) if ren else r
    out[i] = r.data if r.data.shape else r.data[()]
  return Arr(tuple(b) + shape, out)


def merge_path(I, c):
  return T.band(I.path[-1], c)


@rule('cond')
def _cond(I, e, idx, *xs):
  brs = e.params['branches']
  v = idx.item()
  n = len(brs)
  if isb(v):
    conds = [T.bnot(v), v]
  else:
    conds = []
    for k in range(n):
      if n == 1:
        conds.append(TRUE)
      elif k == 0:
        conds.append(T.le(v.f, 0))
      elif k == n - 1:
        conds.append(T.le(const(n - 1), v.f))
      else:
        conds.append(T.eq(v.f, k))
  if I.decide is not None:
    conds = [c if c in (TRUE, FALSE) else I.decide(c, I.path[-1]) for c in conds]
  res = None
  for k in range(n):
    if conds[k] is FALSE:
      continue
    I.path.append(merge_path(I, conds[k]))
    if I.path[-1] is FALSE:
      I.path.pop()
      if res is None and k == n - 1:
        I.path.append(FALSE)
        r = I.eval_closed(brs[k], list(xs))
        I.path.pop()
        res = r
      continue
    r = I.eval_closed(brs[k], list(xs))
    I.path.pop()
    if res is None:
      res = r
    else:
      res = [ew(lambda a, b: vite(conds[k], b, a), p, q) for p, q in zip(res, r)]
    if conds[k] is TRUE:
      return r
  return res


@rule('while')
def _while(I, e, *xs):
  cn, bn = e.params['cond_nconsts'], e.params['body_nconsts']
  cc, bc, st = list(xs[:cn]), list(xs[cn:cn + bn]), list(xs[cn + bn:])
  cj, bj = e.params['cond_jaxpr'], e.params['body_jaxpr']
  if I.while_unroll:
    r = unroll_while(I, lambda s: I.eval_closed(cj, cc + s)[0].item(), lambda s: I.eval_closed(bj, bc + s), st)
    if r is not None:
      return r
  for it in range(I.max_unroll):
    c = I.eval_closed(cj, cc + st)[0].item()
    if I.decide is not None and c not in (TRUE, FALSE):
      c = I.decide(c, I.path[-1])
    if c is FALSE:
      return st
    if c is not TRUE:
      break
    st = I.eval_closed(bj, bc + st)
  else:
    raise Unsupported('while: more than %d concrete iterations' % I.max_unroll)
  if it > 64:
    raise Unsupported('while: condition became symbolic after unrolling')
  return havoc_loop(I, e, lambda s: I.eval_closed(cj, cc + s)[0].item(), lambda s: I.eval_closed(bj, bc + s), st)


def unroll_while(I, cond, body, st):
  """Exact unrolling when the condition becomes constantly false within the bound (a concrete iteration limit)."""
  mark = (len(I.axioms), len(I.assumes), len(I.ensures))
  live, steps = I.path[-1], []
  for it in range(I.while_unroll + 1):
    c = cond(st)
    if I.decide is not None and c not in (TRUE, FALSE):
      c = I.decide(c, live)
    if c is FALSE:
      for c, s in reversed(steps):     # the state the loop stopped in
        st = st if c is TRUE else [ew(lambda a, b: vite(c, a, b), n, o) for n, o in zip(st, s)]
      return st
    if it == I.while_unroll:
      break
    steps.append((c, st))
    live = T.band(live, c)
    I.path.append(live)
    st = body(st)
    I.path.pop()
  del I.axioms[mark[0]:], I.assumes[mark[1]:], I.ensures[mark[2]:]
  return None


def havoc_loop(I, e, cond, body, st):
  """Unknown trip count.  The final state is the initial one (condition false at once) or the result of the body
  from an arbitrary state that satisfies the condition; it falsifies the condition.  Components that the body
  provably leaves unchanged keep their initial value in that arbitrary state."""
  avals = [v.aval for v in e.outvars]
  tag = 'loop%d' % next(_fresh)
  n = len(st)
  flo = [np.dtype(a.dtype).kind == 'f' for a in avals]
  # candidate invariants (Houdini: dropped until the body preserves all of them)
  const_ = [True] * n                                        # unchanged
  plain = [flo[k] and all(v.plain for v in st[k].entries()) for k in range(n)]   # finite
  count = [None] * n                                         # initial value + c * (number of iterations)
  entered = cond(st)
  base = I.path[-1]
  sign = [None] * n                                          # scalar floats: positive / non-negative
  if I.entails is not None:
    for k in range(n):
      if plain[k] and avals[k].shape == ():
        v = st[k].item()
        for nm, rel in (('pos', T.gt0), ('nonneg', T.ge0)):
          if I.entails(rel(v.f), T.band(base, entered)):
            sign[k] = (nm, rel)
            break
  trip = T.isym(tag + '_t')
  probe = True
  for _ in range(5 * n + 3):
    s = []
    for k in range(n):
      if const_[k]:
        s.append(st[k])
      elif count[k] is not None:
        s.append(st[k].map(lambda v: V(v.f + count[k] * trip)))
      else:
        s.append(fresh_array('%s_%d' % (tag, k), avals[k].shape, avals[k].dtype, flo[k] and not plain[k]))
    mark = (len(I.axioms), len(I.assumes), len(I.ensures))
    for k in range(n):
      if sign[k] and not const_[k]:
        I.axioms.append((base, T.implies(entered, sign[k][1](s[k].item().f))))
    go = T.band(entered, cond(s))
    I.path.append(T.band(base, go))
    out = body(s)
    I.path.pop()
    changed = False
    for k in range(n):
      if const_[k]:
        if not _same_arr(out[k], s[k]):
          const_[k] = False
          changed = True
          if avals[k].shape == () and np.dtype(avals[k].dtype).kind in 'iu' and st[k].item().plain and out[k].item().plain:
            d = out[k].item().f - s[k].item().f
            if d.is_const():
              count[k] = d
      elif count[k] is not None:
        d = out[k].item().f - s[k].item().f
        if not (out[k].item().plain and d == count[k]):
          count[k] = None
          changed = True
      if plain[k] and not all(v.plain for v in out[k].entries()):
        plain[k] = False
        changed = True
        sign[k] = None
      if sign[k] and not const_[k] and not changed:
        v = out[k].item()
        if not I.entails(sign[k][1](v.f), T.band(base, go)):
          # weaken or drop
          sign[k] = ('nonneg', T.ge0) if sign[k][0] == 'pos' and I.entails(T.ge0(v.f), T.band(base, go)) else None
          changed = True
    # obligations inside the generic iteration were generated for every iteration: keep only the last round
    if not changed:
      break
    del I.axioms[mark[0]:], I.assumes[mark[1]:], I.ensures[mark[2]:]
  else:
    raise Unsupported('loop invariants did not stabilise')
  I.axioms.append((base, T.ge0(trip)))
  I.axioms.append((base, T.implies(entered, cond(s))))
  s2 = [st[k] if const_[k] else ew(lambda a, b: vite(entered, a, b), out[k], st[k]) for k in range(n)]
  I.axioms.append((base, T.bnot(cond(s2))))
  I.loops.append((tag, 'unchanged %d, finite %d, signed %d, counters %d of %d' % (sum(const_), sum(plain), sum(x is not None for x in sign), sum(c is not None for c in count), n)))
  return s2


def _same_arr(a, b):
  if a.shape != b.shape:
    return False
  for x, y in zip(a.entries(), b.entries()):
    if isb(x):
      if x is not y:
        return False
    elif not (x.f == y.f and x.nan is y.nan and x.pi is y.pi and x.ni is y.ni):
      return False
  return True


@rule('scan')
def _scan(I, e, *xs):
  p = e.params
  n, rev = p['length'], p['reverse']
  if 'num_consts' in p:
    nc, nk = p['num_consts'], p['num_carry']
  else:
    c0, k0, _ = map(list, p['ft_in'].update(list(xs)).unpack())
    nc, nk = len(c0), len(k0)
  if not isinstance(n, (int, np.integer)):
    raise Unsupported('scan of symbolic length')
  if n > I.max_unroll:
    raise Unsupported('scan length %d' % n)
  cs, st, seq = list(xs[:nc]), list(xs[nc:nc + nk]), list(xs[nc + nk:])
  ys = []
  for t in (range(n - 1, -1, -1) if rev else range(n)):
    sl = []
    for a in seq:
      ren = {ixv(k, a.shape[k]): ixv(k - 1, a.shape[k]) for k in a.symaxes()}
      r = Arr(a.shape[1:], a.data[t])
      sl.append(r.map(lambda v: sub_any(v, ren)) if ren else r)
    out = I.eval_closed(p['jaxpr'], cs + st + sl)
    st = out[:nk]
    ys.append(out[nk:])
  if rev:
    ys.reverse()
  res = []
  nys = len(e.outvars) - nk
  for j in range(nys):
    shape = tuple(dimname(d) for d in e.outvars[nk + j].aval.shape)
    cs_ = tuple(d for d in shape if not isinstance(d, str))
    out = np.empty(cs_, object)
    for t in range(n):
      a = ys[t][j]
      ren = {ixv(k, a.shape[k]): ixv(k + 1, a.shape[k]) for k in reversed(a.symaxes())}
      b = a.map(lambda v: sub_any(v, ren)) if ren else a
      out[t] = b.data if b.data.shape else b.data[()]
    res.append(Arr(shape, out))
  return list(st) + res


# ---- contract primitives
@rule('vc_assume')
def _assume(I, e, a):
  I.assumes.append((I.path[-1], e.params['name'], a))
  return a


@rule('vc_ensure')
def _ensure(I, e, *xs):
  I.ensures.append((I.path[-1], e.params['name'], e.params['kind'], xs, dict(e.params, mark=len(I.assumes))))
  return xs[0]


@rule('vc_fresh')
def _vfresh(I, e):
  p = e.params
  return fresh_array('%s' % p['name'], p['shape'], p['dtype'], p['extra'])


@rule('debug_callback', 'debug_print')
def _dbg(I, e, *xs):
  return []


@rule('erf_inv', 'erf', 'lgamma', 'sin', 'cos', 'atan2', 'acos', 'asin', 'tan', 'atan', 'erfc', 'cbrt', 'digamma')
def _trans(I, e, *xs):
  n = e.primitive.name
  return ew(lambda *vs: V(T.uf('math.' + n, tuple(v.key() for v in vs))), *xs)


@rule('nextafter')
def _nextafter(I, e, a, b):
  return a


@rule('random_bits', 'threefry2x32', 'random_wrap', 'random_unwrap', 'random_seed', 'random_split', 'random_fold_in')
def _rnd(I, e, *xs):
  raise Unsupported(e.primitive.name)


@rule('eye')
def _eye(I, e):
  raise Unsupported('eye')


@rule('triangular_solve')
def _trisolve(I, e, a, b):
  if a.symaxes() or b.symaxes():
    raise Unsupported('triangular_solve')
  p = e.params
  n = a.shape[-1]
  A, Bm = a.data, b.data
  if a.ndim != 2 or b.ndim != 2:
    raise Unsupported('triangular_solve batch')
  if p['conjugate_a'] and False:
    pass
  low = p['lower']
  if p['transpose_a']:
    A = A.T
    low = not low
  left = p['left_side']
  if not left:
    A, Bm = A.T, Bm.T
    low = not low
  if not p['unit_diagonal'] and not all(A[r, r].plain and A[r, r].f.is_const() for r in range(n)):
    # contract: the returned X solves the triangular system (invertible diagonal is the caller's precondition)
    X = uf_array('trisolve{%s}' % ','.join('%s%d' % (k, bool(p[k])) for k in ('left_side', 'lower', 'transpose_a')), (_argkey(a), _argkey(b)), b.shape, e.outvars[0].aval.dtype)
    Z = X.data if left else X.data.T
    for c in range(Z.shape[1]):
      for r in range(n):
        s = ZERO
        for k in (range(r + 1) if low else range(r, n)):
          s = vadd(s, vmul(A[r, k], Z[k, c]))
        I.axioms.append((I.path[-1], same_value(s, Bm[r, c])))
    I.trusted.add('lax.linalg.triangular_solve: solves the triangular system exactly (diagonal invertible)')
    return X
  X = np.empty(Bm.shape, object)
  order = range(n) if low else range(n - 1, -1, -1)
  for c in range(Bm.shape[1]):
    for r in order:
      s = Bm[r, c]
      for k in (range(r) if low else range(r + 1, n)):
        s = vsub(s, vmul(A[r, k], X[k, c]))
      X[r, c] = s if p['unit_diagonal'] else vdiv(s, A[r, r])
  if not left:
    X = X.T
  return Arr(b.shape, X)


def _fresh_outs(I, e, name, xs, vs):
  if any(x.symaxes() for x in xs):
    raise Unsupported(name + ' of a symbolic size')
  key = tuple(_argkey(x) for x in xs)
  return [uf_array('%s%d' % (name, j), key, tuple(v.aval.shape), v.aval.dtype) for j, v in enumerate(vs)]


def _axiom_eq(I, l, r):
  eqs = ew(same_value, l, r)
  for idx in np.ndindex(*eqs.data.shape):
    I.axioms.append((I.path[-1], eqs.data[idx]))


@rule('lu')
def _lu(I, e, a):
  """The factors are left unconstrained: they may only be used through the contract of custom_linear_solve."""
  return _fresh_outs(I, e, 'lu', [a], e.outvars)


@rule('cholesky')
def _cholesky(I, e, a):
  return _fresh_outs(I, e, 'cholesky', [a], e.outvars)[0]


def _mm(a, b):
  out = np.empty((a.shape[0], b.shape[1]), object)
  for i in range(a.shape[0]):
    for j in range(b.shape[1]):
      s = ZERO
      for k in range(a.shape[1]):
        s = vadd(s, vmul(a[i, k], b[k, j]))
      out[i, j] = s
  return Arr(out.shape, out)


@rule('qr')
def _qr(I, e, a):
  """Contract of lax.linalg.qr: QR = A, Q^T Q = I (QQ^T = I when square), R upper triangular."""
  if a.ndim != 2 or e.params.get('pivoting'):
    raise Unsupported('qr')
  q, r = _fresh_outs(I, e, 'qr', [a], e.outvars)
  k = q.shape[1]
  d = r.data.copy()
  for i in range(r.shape[0]):
    for j in range(min(i, r.shape[1])):
      d[i, j] = ZERO
  r = Arr(r.shape, d)
  eye = np.empty((k, k), object)
  for i in range(k):
    for j in range(k):
      eye[i, j] = ONE if i == j else ZERO
  eye = Arr((k, k), eye)
  _axiom_eq(I, _mm(q.data, r.data), a)
  _axiom_eq(I, _mm(q.data.T, q.data), eye)
  if q.shape[0] == k:
    _axiom_eq(I, _mm(q.data, q.data.T), eye)
  I.trusted.add('lax.linalg.qr: QR = A, Q orthonormal, R upper triangular, exactly')
  return [q, r]


@rule('device_put')
def _device_put(I, e, *xs):
  return list(xs)


@rule('platform_index')
def _platform_index(I, e):
  for k, ps in enumerate(e.params['platforms']):
    if ps is None or 'cpu' in ps:
      return scalar(V(const(k)))
  raise Unsupported('platform_index')
