"""Contract primitives usable inside traced code: assume / ensure / fresh."""
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend.core import Primitive
from jax._src import core as jcore

assume_p = Primitive('vc_assume')
ensure_p = Primitive('vc_ensure')
fresh_p = Primitive('vc_fresh')

assume_p.def_abstract_eval(lambda a, **k: a)
ensure_p.def_abstract_eval(lambda *a, **k: a[0])
fresh_p.def_abstract_eval(lambda *, name, shape, dtype, extra: jcore.ShapedArray(shape, jnp.dtype(dtype)))
assume_p.def_impl(lambda a, **k: a)
ensure_p.def_impl(lambda *a, **k: a[0])
