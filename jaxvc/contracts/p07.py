"""P07: every loop strategy computes the same bounded while-loop.

The body and the condition are uninterpreted functions of the carried state, so the claim is about every body and
every condition.  The reference is the recursive definition
    W(x, 0) = x;   W(x, k) = W(body x, k-1) if cond x else x."""
from .common import *
from jaxopt import loop

F = 'jaxopt._src.loop.'
FUN = [F + 'while_loop', F + '_while_loop_scan', F + '_while_loop_python', F + '_while_loop_lax']


def reference(cond, body, val, k):
  for _ in range(k):
    go = cond(val)
    new = body(val)
    val = tmap(lambda a, b: jnp.where(go, a, b), new, val)
  return val


def problem(c, lay):
  x = tree(c, 'x', lay)
  B, C = c.fun('body', 'like0'), c.fun('cond', (), dtype=bool)
  return x, (lambda v: B(v)), (lambda v: C(v))


@contract('P07', 'compiled and unrolled', cfgs=grid(unroll=[True, False], maxiter=[0, 1, 2, 3, 4], lay=['arr', 'tree']), funcs=FUN, runs=20, while_unroll=8)
def strategies(c, unroll, maxiter, lay):
  x, B, C = problem(c, lay)
  r = loop.while_loop(cond_fun=C, body_fun=B, init_val=x, maxiter=maxiter, unroll=unroll, jit=True)
  c.ensure_eq('result', r, reference(C, B, x, maxiter))


@contract('P07', 'python loop', cfgs=grid(stop=[0, 1, 2, 3, 4, 9], maxiter=[0, 1, 2, 3, 4]), funcs=FUN, runs=20)
def python_loop(c, stop, maxiter):
  """The interpreted loop branches on concrete truth values: every stop time up to the bound is enumerated, states stay symbolic.
  The condition is a function of the carried iteration counter, so evaluating it more than once changes nothing."""
  x = c.real('x', ('n',))
  B = c.fun('body', 'like0')
  t, y = loop.while_loop(cond_fun=lambda v: v[0] < stop, body_fun=lambda v: (v[0] + 1, B(v[1])), init_val=(0, x), maxiter=maxiter, unroll=True, jit=False)
  k = min(stop, maxiter)
  c.ensure('iterations', jnp.asarray(t == k))
  for _ in range(k):
    x = B(x)
  c.ensure_eq('result', y, x)


@contract('P07', 'unbounded', cfgs=grid(limit=['int', 'traced']), funcs=[F + 'while_loop', F + '_while_loop_lax'], runs=20)
def unbounded(c, limit):
  """Any number of iterations of the compiled loop: t counts body applications, C(t) is the condition after t of them."""
  C = c.fun('C', (), dtype=bool)
  G = c.fun('G', ('n',))
  m = 1000 if limit == 'int' else c.int('maxiter', (), lo=0, hi=9)
  t, x = loop.while_loop(cond_fun=lambda v: C(v[0]), body_fun=lambda v: (v[0] + 1, G(v[0] + 1)),
                         init_val=(jnp.asarray(0), G(jnp.asarray(0))), maxiter=m, unroll=False, jit=True)
  c.ensure('stops only when told', ~C(t) | (t >= m))
  c.ensure('never beyond the limit', (t <= m) | (t == 0))
  c.ensure('last iteration was allowed', (t == 0) | C(t - 1))
  c.ensure_eq('state', x, G(t))


@contract('P07', 'unsupported combination', funcs=[F + 'while_loop'])
def unsupported(c):
  try:
    loop.while_loop(lambda v: v < 1, lambda v: v, jnp.zeros(()), 3, unroll=False, jit=False)
    ok = False
  except ValueError:
    ok = True
  c.ensure('rejected', jnp.asarray(ok))
