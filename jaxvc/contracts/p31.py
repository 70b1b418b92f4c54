"""P31: perturbed optimisers: Monte-Carlo averages and their score-function derivatives, for arbitrary functions and noise draws."""
from .common import *
import jaxopt
from jaxopt import perturbations as PT
import jaxopt._src.perturbations as PS

F = 'jaxopt._src.perturbations.'
A = [F + 'make_perturbed_argmax']
M = [F + 'make_perturbed_max', F + 'make_perturbed_argmax']
V = [F + 'make_perturbed_fun']
KEY = jax.random.PRNGKey(3)


class Noise:
  """A noise distribution drawing fixed arbitrary samples, with an arbitrary smooth log-density."""

  def __init__(self, c, Z):
    self.c, self.Z, self.asked = c, Z, []

  def sample(self, seed, sample_shape):
    self.c.ensure('sample shape', tuple(sample_shape) == self.Z.shape)
    self.c.ensure('the key is passed on', jnp.all(seed == KEY))
    return self.Z

  def log_prob(self, z):
    return 0.3 * z ** 3 - 0.7 * z ** 2 + 0.2 * z

  @staticmethod
  def minus_grad(z):
    return -(0.9 * z ** 2 - 1.4 * z + 0.2)


def make_noise(c, name, Z):
  """Noise object whose draws are Z, and minus the derivative of its log-density."""
  if name == 'other':
    n = Noise(c, Z)
    return n, n.minus_grad
  cls, draw, score = {'normal': (PS.Normal, 'normal', lambda z: z), 'gumbel': (PS.Gumbel, 'gumbel', lambda z: 1 - jnp.exp(-z))}[name]

  def sample(key, shape=(), dtype=None):
    c.ensure('sample shape', tuple(shape) == Z.shape)
    c.ensure('the key is passed on', jnp.all(key == KEY))
    return Z
  c.patch(jax.random, draw, sample, always=True)
  return cls(), score


SH = [((1,), 2), ((2,), 1), ((2,), 3), ((3,), 2), ((2, 2), 2)]


def setting(c, shape, N, noise):
  x, t = c.real('x', shape), c.real('t', shape)
  Z = c.real('Z', (N,) + shape)
  sigma = c.real('sigma', (), lo=0.1)
  c.assume('sigma', sigma > 0)
  nz, score = make_noise(c, noise, Z)
  return x, t, Z, sigma, nz, score


def dots(a, b):
  return jnp.sum(a * b)


@contract('P31', 'noise densities', cfgs=grid(which=['Normal', 'Gumbel']), funcs=[F + 'Normal', F + 'Gumbel'], runs=10)
def densities(c, which):
  z = c.real('z', ('n',))
  d = getattr(PS, which)()
  want = -0.5 * z ** 2 if which == 'Normal' else -z - jnp.exp(-z)
  c.ensure_eq('log-density', d.log_prob(z), want)
  s = c.real('s', ())
  c.ensure_eq('derivative of the log-density', jax.grad(d.log_prob)(s), -s if which == 'Normal' else -1 + jnp.exp(-s))


@contract('P31', 'argmax', cfgs=grid(case=list(range(len(SH))), noise=['other', 'normal', 'gumbel'], cv=[False, True]), funcs=A, runs=10, timeout=60)
def argmax(c, case, noise, cv):
  shape, N = SH[case]
  x, t, Z, sigma, nz, score = setting(c, shape, N, noise)
  f = c.fun('argmax', 'like0')
  p = PT.make_perturbed_argmax(f, num_samples=N, sigma=sigma, noise=nz, control_variate=cv)
  outs = [f(x + sigma * Z[i]) for i in range(N)]
  val = p(x, KEY)
  c.ensure_eq('average over the shifted inputs', val, sum(outs) / N)
  v, d = jax.jvp(lambda y: p(y, KEY), (x,), (t,))
  c.ensure_eq('primal output under differentiation', v, sum(outs) / N)
  base = f(x) if cv else 0.0
  c.ensure_eq('score-function derivative', d, sum((o - base) * dots(score(Z[i]), t) for i, o in enumerate(outs)) / (N * sigma))
  w = c.real('w', shape)
  g = jax.vjp(lambda y: p(y, KEY), x)[1](w)[0]
  c.ensure_eq('reverse mode', g, sum(score(Z[i]) * dots(o - base, w) for i, o in enumerate(outs)) / (N * sigma))


@contract('P31', 'max', cfgs=grid(case=list(range(len(SH))), noise=['other', 'normal', 'gumbel']), funcs=M, runs=10, timeout=60)
def pmax(c, case, noise):
  shape, N = SH[case]
  x, t, Z, sigma, nz, score = setting(c, shape, N, noise)
  f = c.fun('argmax', 'like0')
  p = PT.make_perturbed_max(f, num_samples=N, sigma=sigma, noise=nz)
  ys = [x + sigma * Z[i] for i in range(N)]
  want = sum(dots(y, f(y)) for y in ys) / N
  c.ensure_eq('average of the maxima over the shifted inputs', p(x, KEY), want)
  v, d = jax.jvp(lambda y: p(y, KEY), (x,), (t,))
  c.ensure_eq('primal output under differentiation', v, want)
  am = sum(f(y) for y in ys) / N
  c.ensure_eq('derivative is the perturbed argmax', d, dots(am, t))
  c.ensure_eq('gradient is the perturbed argmax', jax.grad(p)(x, KEY), am)
  h = jax.jvp(lambda y: jax.grad(p)(y, KEY), (x,), (t,))[1]
  c.ensure_eq('second derivative is that of the perturbed argmax', h, sum(f(y) * dots(score(Z[i]), t) for i, y in enumerate(ys)) / (N * sigma))


OUT = [(), (1,), (2,), (3,), (2, 2)]


@contract('P31', 'fun', cfgs=grid(case=list(range(len(SH))), out=list(range(len(OUT))), noise=['other', 'gumbel'], cv=[False, True]), funcs=V, runs=10, timeout=60)
def pfun(c, case, out, noise, cv):
  shape, N = SH[case]
  x, t, Z, sigma, nz, score = setting(c, shape, N, noise)
  f = c.fun('fun', OUT[out])
  p = PT.make_perturbed_fun(f, num_samples=N, sigma=sigma, noise=nz, control_variate=cv)
  outs = [f(x + sigma * Z[i]) for i in range(N)]
  c.ensure_eq('average over the shifted inputs', p(x, KEY), sum(outs) / N)
  base = f(x) if cv else 0.0
  want = sum((o - base) * dots(score(Z[i]), t) for i, o in enumerate(outs)) / (N * sigma)
  try:
    v, d = jax.jvp(lambda y: p(y, KEY), (x,), (t,))
  except TypeError as e:
    if 'JVP rule' not in str(e):
      raise
    c.ensure('the derivative rule is accepted by jax: %s' % e, False)
    return
  c.ensure_eq('primal output under differentiation', v, sum(outs) / N)
  c.ensure('derivative has the shape of the output', d.shape == tuple(OUT[out]))
  c.ensure_eq('score-function derivative', d, want)
  w = c.real('w', OUT[out])
  g = jax.vjp(lambda y: p(y, KEY), x)[1](w)[0]
  c.ensure_eq('reverse mode', g, sum(score(Z[i]) * dots(o - base, w) for i, o in enumerate(outs)) / (N * sigma))
