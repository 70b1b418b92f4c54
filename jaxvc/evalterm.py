"""Numeric evaluation of terms (for the self-test: symbolic semantics against JAX itself)."""
import math
import numpy as np
from . import terms as T

ATOM = T.Atom.by_id


class Env:
  def __init__(self, vals, dims):
    self.vals, self.dims = vals, dims   # name -> numpy array ; dim name -> int


def poly(p, env, ix):
  s = 0.0
  for m, c in p.terms.items():
    t = float(c)
    for i, e in m:
      v = atom(ATOM[i], env, ix)
      if v == 0 and e < 0:
        t = 0.0     # inv(0) is irrelevant: the special-value flag is set
      else:
        t *= v ** e
    s += t
  return s


def index(v, ix):
  return ix[v] if isinstance(v, str) else int(v)


def dimval(d, env):
  return env.dims[d] if d in env.dims else int(eval(str(d), {}, env.dims))


def atom(a, env, ix):
  k, x = a.kind, a.args
  if k == 'sym':
    return float(env.vals[x[0]][tuple(index(v, ix) for v in x[1])])
  if k == 'ite':
    return poly(x[1], env, ix) if boolean(x[0], env, ix) else poly(x[2], env, ix)
  if k == 'sqrt':
    return math.sqrt(max(poly(x[0], env, ix), 0.0))
  if k == 'exp':
    return math.exp(min(poly(x[0], env, ix), 600.))
  if k == 'log':
    v = poly(x[0], env, ix)
    return math.log(v) if v > 0 else 0.0
  if k == 'poly':
    return poly(x[0], env, ix)
  if k == 'dim':
    return float(dimval(x[0], env))
  if k == 'ix':
    return float(index(x[0], ix))
  if k == 'floor':
    return math.floor(poly(x[0], env, ix))
  if k == 'mod':
    return poly(x[0], env, ix) % poly(x[1], env, ix)
  if k == 'pow':
    return poly(x[0], env, ix) ** poly(x[1], env, ix)
  if k == 'sum':
    inner = T.Poly({x[1]: T.Fr(1)})
    return _fold(x[0], lambda j: poly(inner, env, j), env, ix, sum)
  if k == 'max':
    return _fold(x[0], lambda j: poly(x[1], env, j), env, ix, max)
  if k == 'mmax':
    return _fold(x[0], lambda j: poly(x[2], env, j) if boolean(x[1], env, j) else -math.inf, env, ix, lambda z: max([y for y in z if y > -math.inf], default=0.0))
  raise NotImplementedError(k)


def _fold(binders, f, env, ix, op):
  import itertools
  out = []
  for combo in itertools.product(*[range(dimval(d, env)) for _, d in binders]):
    out.append(f({**ix, **dict(zip([b for b, _ in binders], combo))}))
  return op(out)


def boolean(b, env, ix):
  k, x = b.kind, b.args
  if k == 'true':
    return True
  if k == 'false':
    return False
  if k == 'not':
    return not boolean(x[0], env, ix)
  if k == 'and':
    return all(boolean(y, env, ix) for y in x[0])
  if k == 'or':
    return any(boolean(y, env, ix) for y in x[0])
  if k == 'ge0':
    return poly(x[0], env, ix) >= -1e-12
  if k == 'eq0':
    return abs(poly(x[0], env, ix)) <= 1e-12
  if k == 'bsym':
    name, _, flag = x[0].partition('?')
    v = env.vals[name][tuple(index(q, ix) for q in x[1])]
    return bool({'': lambda z: z, 'nan': np.isnan, 'pinf': lambda z: z == np.inf, 'ninf': lambda z: z == -np.inf}[flag](v))
  if k == 'forall':
    return _fold(x[0], lambda j: boolean(x[1], env, j), env, ix, all)
  raise NotImplementedError(k)


def value(v, env, ix):
  if isinstance(v, T.B):
    return boolean(v, env, ix)
  if boolean(v.nan, env, ix):
    return np.nan
  if boolean(v.pi, env, ix):
    return np.inf
  if boolean(v.ni, env, ix):
    return -np.inf
  return poly(v.f, env, ix)


def array(a, env):
  shape = tuple(dimval(d, env) if isinstance(d, str) else d for d in a.shape)
  out = np.zeros(shape, bool if a.data.size and isinstance(a.data.flat[0], T.B) else float)
  for idx in np.ndindex(*shape):
    ix = {'@%d:%s' % (k, d): idx[k] for k, d in enumerate(a.shape) if isinstance(d, str)}
    ci = tuple(idx[k] for k, d in enumerate(a.shape) if not isinstance(d, str))
    out[idx] = value(a.data[ci], env, ix)
  return out
