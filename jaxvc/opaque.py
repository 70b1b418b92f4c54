"""Opaque JAX primitive: an uninterpreted function with uninterpreted derivatives.

User callables (objective, prox, residual ...) and callees taken by contract are injected into the real
code as calls of this primitive, so the traced jaxpr is the real code around an arbitrary function.
"""
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend.core import Primitive
from jax.interpreters import ad, batching, mlir
from jax import core as _core
try:
  from jax._src import core as jcore
except Exception:  # pragma: no cover
  jcore = _core

opaque_p = Primitive('opaque')
IMPL = {}          # name -> python callable on numpy arrays, for concrete replay from solver tables


def bind(name, args, shape, dtype=None, nb=0):
  dtype = dtype or jnp.result_type(float)
  args = [jnp.asarray(a) for a in args]
  return opaque_p.bind(*args, name=name, shape=tuple(shape), dtype=jnp.dtype(dtype).name, nb=nb)


def _abstract(*avals, name, shape, dtype, nb):
  batch = avals[0].shape[:nb] if nb else ()
  return jcore.ShapedArray(tuple(batch) + tuple(shape), jnp.dtype(dtype))


opaque_p.def_abstract_eval(_abstract)


def _impl(*args, name, shape, dtype, nb):
  f = IMPL[name.split('/')[0]]
  a = [np.asarray(x) for x in args]
  if nb == 0:
    return jnp.asarray(f(name, *a), dtype)
  b = a[0].shape[:nb]
  out = np.zeros(b + tuple(shape), dtype)
  for ix in np.ndindex(*b):
    out[ix] = f(name, *[x[ix] for x in a])
  return jnp.asarray(out)


opaque_p.def_impl(_impl)


def _lower(*args, name, shape, dtype, nb):
  batch = args[0].shape[:nb] if nb else ()
  res = jax.ShapeDtypeStruct(tuple(batch) + tuple(shape), jnp.dtype(dtype))
  return jax.pure_callback(lambda *a: np.asarray(_impl(*a, name=name, shape=shape, dtype=dtype, nb=nb)), res, *args)


mlir.register_lowering(opaque_p, mlir.lower_fun(_lower, multiple_results=False))


def _jvp(primals, tangents, *, name, shape, dtype, nb):
  out = opaque_p.bind(*primals, name=name, shape=shape, dtype=dtype, nb=nb)
  tot = None
  if not jnp.issubdtype(jnp.dtype(dtype), jnp.floating):
    return out, ad.Zero.from_primal_value(out)
  for k, t in enumerate(tangents):
    if type(t) is ad.Zero:
      continue
    t = ad.instantiate_zeros(t)
    if not jnp.issubdtype(primals[k].dtype, jnp.floating):
      continue
    arg_shape = primals[k].shape[nb:]
    J = opaque_p.bind(*primals, name='%s/%d' % (name, k), shape=tuple(shape) + tuple(arg_shape), dtype=dtype, nb=nb)
    na = len(arg_shape)
    nd = len(shape)
    lhs_c = tuple(range(nb + nd, nb + nd + na))
    rhs_c = tuple(range(nb, nb + na))
    bt = tuple(range(nb))
    c = jax.lax.dot_general(J, t, ((lhs_c, rhs_c), (bt, bt))) if (na or nd or nb) else J * t
    tot = c if tot is None else tot + c
  if tot is None:
    return out, ad.Zero.from_primal_value(out)
  return out, tot


ad.primitive_jvps[opaque_p] = _jvp


def _batch(args, dims, *, name, shape, dtype, nb):
  size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
  new = []
  for a, d in zip(args, dims):
    if d is None:
      a = jnp.broadcast_to(a, (size,) + a.shape)
    else:
      a = jnp.moveaxis(a, d, 0)
    new.append(a)
  return opaque_p.bind(*new, name=name, shape=shape, dtype=dtype, nb=nb + 1), 0


batching.primitive_batchers[opaque_p] = _batch
