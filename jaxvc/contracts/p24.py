"""P24: bisection keeps a sign-changing bracket, halves it, and returns its midpoint."""
from .common import *
from jaxopt import Bisection

F = 'jaxopt._src.bisection.Bisection.'


def setup(c, aux):
  raw = c.fun('f', ())
  fun = (lambda x, a: (raw(x, a), {'aux': x * 2 + a})) if aux else (lambda x, a: raw(x, a))
  lo, hi = c.real('lower'), c.real('upper')
  c.assume('lower<upper', lo < hi)
  s = Bisection(optimality_fun=fun, lower=lo, upper=hi, check_bracket=False, has_aux=aux)
  return raw, s, lo, hi


@contract('P24', 'init', funcs=[F + 'init_state'])
def init(c):
  raw, s, lo, hi = setup(c, False)
  a = c.real('a')
  st = s.init_state(None, a)
  fl, fh = raw(lo, a), raw(hi, a)
  c.ensure_eq('bracket', (st.low, st.high), (lo, hi))
  c.ensure_eq('iter_num', st.iter_num, jnp.asarray(0))
  # a sign change (root at an end included) is recognised, with the direction of the change
  c.ensure('sign/no change', st.sign == 0, when=fl * fh > 0)
  c.ensure('sign/increasing', st.sign * (fh - fl) > 0, when=(fl * fh <= 0) & (fl != fh))
  c.ensure('sign/normalised', (st.sign == 1) | (st.sign == -1), when=fl * fh <= 0)
  c.ensure('first iteration runs', st.error == jnp.inf)


@contract('P24', 'update', cfgs=grid(aux=[False, True]), funcs=[F + 'update'])
def update(c, aux):
  raw, s, lo, hi = setup(c, aux)
  a = c.real('a')
  st = s.init_state(None, a)
  st = c.like('st', st) if not aux else c.like('st', st._replace(aux=None))
  if not c.symbolic:                      # concrete runs: a bracket
    st = st._replace(low=jnp.minimum(st.low, st.high), high=jnp.maximum(st.low, st.high))
    st = st._replace(sign=jnp.where(raw(st.high, a) > raw(st.low, a), 1, -1).astype(st.sign.dtype))
  c.assume('sign', (st.sign == 1) | (st.sign == -1))
  c.assume('low<high', st.low < st.high)
  # representation invariant: the ends carry values of opposite (or zero) signs
  fl, fh = raw(st.low, a), raw(st.high, a)
  c.assume('bracket', (st.sign * fl <= 0) & (st.sign * fh >= 0))
  p, n = s.update(c.real('ignored'), st, a)
  fm = raw(p, a)
  c.ensure_eq('midpoint', p, (st.low + st.high) / 2)
  c.ensure_eq('half width', n.high - n.low, (st.high - st.low) / 2)
  c.ensure('inside', (n.low >= st.low) & (n.high <= st.high))
  c.ensure('bracket kept', (n.sign * raw(n.low, a) <= 0) & (n.sign * raw(n.high, a) >= 0))
  c.ensure_eq('error', n.error, jnp.abs(fm))
  c.ensure_eq('value', n.value, fm)
  c.ensure_eq('sign kept', n.sign, st.sign)
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  if aux:
    c.ensure_eq('aux', n.aux, {'aux': p * 2 + a})


@contract('P24', 'run', cfgs=grid(jit=[True], maxiter=[30, 0, 1, 3]), funcs=[F + 'run', F + 'update', 'jaxopt._src.base.IterativeSolver._run'])
def run(c, jit, maxiter):
  raw = c.fun('f', ())
  lo, hi, a, tol = c.real('lower'), c.real('upper'), c.real('a'), c.real('tol', (), lo=1e-3, hi=1.0)
  c.assume('lower<upper', lo < hi)
  c.assume('tol>0', tol > 0)
  s = Bisection(optimality_fun=lambda x, a: raw(x, a), lower=lo, upper=hi, check_bracket=False, maxiter=maxiter, tol=tol, jit=jit)
  if maxiter == 0:
    p, st = s.run(c.real('x0'), a)
    c.ensure_eq('no update', st.iter_num, jnp.asarray(0))
    return
  p, st = s.run(None, a)
  c.ensure_eq('value of the result', st.value, raw(p, a))
  c.ensure_eq('error of the result', st.error, jnp.abs(raw(p, a)))
  c.ensure('stopped', (st.error <= tol) | (st.iter_num >= maxiter))
