"""Shared harness pieces of the line-search contracts (P14, P15, P16)."""
from .common import *


def problem(c, flavour, aux, lay='arr', special=False):
  """An arbitrary objective in one of the accepted forms: (fun, value_and_grad, f, g, aux function)."""
  f = c.fun('f', (), special=special)
  A = c.fun('aux', ())
  if flavour == 'fun':                       # gradient taken by the library
    g = lambda x, a: jax.grad(lambda z: f(z, a))(x)
    fun = (lambda x, a: (f(x, a), {'k': A(x, a)})) if aux else (lambda x, a: f(x, a))
    return fun, False, f, g, A
  G = c.fun('g', 'like0')
  both = (lambda x, a: ((f(x, a), {'k': A(x, a)}), G(x, a))) if aux else (lambda x, a: (f(x, a), G(x, a)))
  if flavour == 'both':                      # user function returning value and gradient
    return both, True, f, G, A
  fun = (lambda x, a: (f(x, a), {'k': A(x, a)})) if aux else (lambda x, a: f(x, a))
  return fun, both, f, G, A                  # separate value and value_and_grad callables


def auxof(A, aux, x, a):
  return {'k': A(x, a)} if aux else None
