"""Shared vocabulary of the contracts: arbitrary pytrees and specification functions written independently of jaxopt."""
import jax
import jax.numpy as jnp
import numpy as np
from jaxvc.vc import contract, grid, REGISTRY  # noqa: F401


def tree(c, name, layout='arr', d='n', **kw):
  """An arbitrary pytree of the given layout."""
  if layout == 'arr':
    return c.real(name, (d,), **kw)
  if layout == 'tree':
    return {'u': c.real(name + '_u', (d,), **kw), 'v': c.real(name + '_v', (d + 'v',), **kw)}
  if layout == 'nest':
    return (c.real(name + '_s', (), **kw), [c.real(name + '_m', (d, d + 'w'), **kw)])
  if layout == 'scalar':
    return c.real(name, (), **kw)
  raise ValueError(layout)


leaves = jax.tree_util.tree_leaves
tmap = jax.tree_util.tree_map


def tsum(t):
  return sum((jnp.sum(l) for l in leaves(t)), 0.0)


def dot(a, b):
  return tsum(tmap(lambda x, y: x * y, a, b))


def sq(a):
  return tsum(tmap(lambda x: x * x, a))


def norm(a):
  return jnp.sqrt(sq(a))


def sub(a, b):
  return tmap(lambda x, y: x - y, a, b)


def add(a, b):
  return tmap(lambda x, y: x + y, a, b)


def scale(s, a):
  return tmap(lambda x: s * x, a)


def axpy(a, s, b):
  """a + s b"""
  return tmap(lambda x, y: x + s * y, a, b)


def zeros(a):
  return tmap(lambda x: x * 0, a)


def alltrue(t):
  r = jnp.asarray(True)
  for l in leaves(t):
    r = r & jnp.all(l)
  return r


# ---------------------------------------------------------------- loops and branches by contract
def loop_rule(c, inv, name='loop', branches=None):
  """Invariant rule for the one jax.lax.while_loop of the function under contract: inv holds on entry, is preserved by the
  real body from every state satisfying it and the real condition, and is all that is known (with the negated condition)
  afterwards.  Partial correctness: termination is not part of it.  Concrete runs execute the real loop."""
  if not c.symbolic:
    return

  def stub(cond_fun, body_fun, init_val):
    c.ensure(name + ': invariant on entry', inv(init_val))
    s = c.like(name + '.s', init_val)
    entered = alltrue(inv(s)) & cond_fun(s)
    if branches is not None:
      branches.path.append(entered)
    c.ensure(name + ': invariant preserved', inv(body_fun(s)), when=entered)
    if branches is not None:
      branches.path.pop()
    t = c.like(name + '.t', init_val)
    c.assume(name + ': after the loop', inv(t))
    c.assume(name + ': after the loop', ~cond_fun(t))
    return t
  c.patch(jax.lax, 'while_loop', stub)


class Branches:
  """jax.lax.cond evaluated on both sides, keeping the path condition for the callee contracts used inside."""

  def __init__(self, c):
    self.path = [jnp.asarray(True)]
    if c.symbolic:
      c.patch(jax.lax, 'cond', self.cond)

  def now(self):
    r = self.path[0]
    for p in self.path[1:]:
      r = r & p
    return r

  def cond(self, pred, true_fun, false_fun, *operands):
    self.path.append(pred)
    a = true_fun(*operands)
    self.path[-1] = ~pred
    b = false_fun(*operands)
    self.path.pop()
    return tmap(lambda x, y: jnp.where(pred, x, y), a, b)
