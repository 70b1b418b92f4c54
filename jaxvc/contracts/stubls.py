"""A line search known only by its contract: it returns some positive step, and the point, value, gradient and auxiliary
data at that step.  Passed to the solvers through their public `linesearch=<instance>` option, so that a solver's update is
verified against the line-search contract (established by P14-P16), not against one implementation."""
import dataclasses
from typing import Any, Callable, NamedTuple
from jaxopt._src import base
from .common import *


class StubState(NamedTuple):
  iter_num: Any
  params: Any
  value: Any
  grad: Any
  aux: Any
  failed: Any
  num_fun_eval: Any
  num_grad_eval: Any
  error: Any


@dataclasses.dataclass(eq=False)
class StubLineSearch(base.IterativeLineSearch):
  step: Callable = None          # (init_stepsize, value, grad) -> step taken: uninterpreted, so the caller's inputs are pinned
  failed: Any = None
  vg: Callable = None            # ((value, aux), grad)
  iters: Any = None
  tol: float = 0.0
  maxiter: int = 1
  jit: bool = False
  unroll: bool = True
  verbose: int = 0

  def init_state(self, *a, **k):
    raise NotImplementedError

  update = init_state

  def run(self, init_stepsize, params, value=None, grad=None, descent_direction=None, fun_args=[], fun_kwargs={}):
    s = self.step(init_stepsize, value, grad)
    d = tmap(lambda g: -g, grad) if descent_direction is None else descent_direction
    y = axpy(params, s, d)
    (v, aux), g = self.vg(y, *fun_args, **fun_kwargs)
    st = StubState(iter_num=self.iters, params=y, value=v, grad=g, aux=aux, failed=self.failed, num_fun_eval=self.iters, num_grad_eval=self.iters, error=s * 0)
    return base.LineSearchStep(stepsize=s, state=st)


def stub(c, f, g, A, aux):
  """(line search, step function)."""
  h = c.fun('ls_step', ())
  vg = lambda x, a: ((f(x, a), auxof(A, aux, x, a)), g(x, a))
  return StubLineSearch(step=lambda s0, v, gr: h(jnp.asarray(s0, dtype=float), v, gr), failed=c.bool('ls_failed'), vg=vg, iters=c.int('ls_iters', lo=0, hi=4)), h


def auxof(A, aux, x, a):
  return {'k': A(x, a)} if aux else None


def init_step(strategy, prev, maxs, mins, inc):
  if strategy == 'max':
    return jnp.asarray(maxs)
  if strategy == 'current':
    return prev
  return jnp.where(prev <= mins, maxs, prev * inc)
