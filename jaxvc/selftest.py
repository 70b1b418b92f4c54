"""Cross-checks of the verifier: symbolic primitive semantics against JAX, and provable / refutable obligations."""
import sys
import time
from . import vc, evalterm, interp as I, prims
import jax
import jax.numpy as jnp
import numpy as np
from jax import lax


def arrays(rng, dims, spec, special):
  out = {}
  for name, shape in spec.items():
    s = tuple(dims[d] if isinstance(d, str) else d for d in shape)
    x = rng.normal(size=s) * 2
    k = rng.integers(0, 4)
    if k == 0:
      x = np.round(x)
    if k == 1:
      x = np.zeros(s)
    if special and rng.random() < 0.6:
      m = rng.random(s)
      x = np.where(m < .15, np.nan, np.where(m < .3, np.inf, np.where(m < .45, -np.inf, x)))
    out[name] = np.asarray(x) + 0.0
  return out


CASES = []


def case(name, fn, spec, fixed=False, special=False, n=12):
  CASES.append((name, fn, spec, fixed, special, n))


X, Y, A = ('n',), ('n',), ('n', 'm')
N = ('n', 'n')
case('arith', lambda x, y: (x + y, x - y, x * y, -x, x ** 2, x ** 3, jnp.abs(x), jnp.sign(x), jnp.square(x)), dict(x=X, y=Y))
case('arith-special', lambda x, y: (x + y, x - y, x * y, x / y, -x, jnp.abs(x), jnp.sign(x), jnp.maximum(x, y), jnp.minimum(x, y),
                                    x < y, x <= y, x == y, x > y, x >= y, x != y, jnp.isfinite(x), jnp.isnan(x), x ** 2, x ** -2,
                                    jnp.where(x > 0, x, y), jnp.clip(x, -1, y), jnp.nan_to_num(x, nan=1., posinf=2., neginf=3.)),
     dict(x=X, y=Y), special=True, n=60)
case('div', lambda x, y: (x / y, 1 / x, x / 0., y // 1., jnp.sqrt(x * x), jnp.sqrt(x), jnp.exp(x), jnp.log(jnp.abs(y)), jnp.log1p(jnp.exp(x))), dict(x=X, y=Y))
case('smooth', lambda x, y: (jax.nn.relu(x), jax.nn.softplus(x), jax.nn.sigmoid(x), jnp.tanh(x), jnp.logaddexp(x, y), jax.nn.softmax(x), jax.scipy.special.logsumexp(y)),
     dict(x=X, y=Y))
case('reduce', lambda x, a: (jnp.sum(x), jnp.max(x), jnp.min(x), jnp.sum(a, 0), jnp.sum(a, 1), jnp.max(a, 0), jnp.mean(a), jnp.all(x > -3), jnp.any(x > 1),
                             jnp.linalg.norm(x), jnp.max(jnp.abs(x)), jnp.sum(a), jnp.vdot(x, x)), dict(x=X, a=A))
case('dot', lambda x, a, b: (x @ a, a.T @ x, jnp.dot(a, b), a * x[:, None], jnp.outer(x, x), jnp.einsum('ij,jk->ik', a, b), jnp.eye(x.shape[0]) @ x),
     dict(x=X, a=A, b=('m', 'n')))
case('shape', lambda x, a: (a.T, a[:, None, :], x[None], jnp.broadcast_to(x[:, None], a.shape), jnp.zeros_like(a), jnp.arange(x.shape[0]) * x,
                            jnp.ones((x.shape[0], 2)), jnp.stack([x, x * 2]), jnp.concatenate([x[None], x[None] + 1])), dict(x=X, a=A))
case('history', lambda h, x: (h[1], h.at[2].set(x), h[::-1], jnp.roll(h, -1, axis=0), h.at[0].add(x), jnp.sum(h * x, axis=1), h @ x, h @ h.T), dict(h=(3, 'n'), x=X))
case('fixed', lambda x, a: (jnp.sort(x), jnp.argsort(x), jnp.argmax(x), jnp.argmin(x), jnp.cumsum(x), jnp.cumprod(x), lax.top_k(x, 2)[0], lax.top_k(x, 2)[1], x[::-1], x[1:], jnp.roll(x, 1),
                            a[0, 1], a[:, 1:], x.at[1].set(3.), jnp.prod(x), jnp.concatenate([x, x]), jnp.linalg.norm(a), jnp.reshape(a, -1), jnp.pad(x, 1),
                            jax.nn.one_hot(jnp.argmax(x), 3), x[jnp.argsort(x)], jnp.take(x, jnp.asarray([2, 0])), jnp.count_nonzero(x > 0), jnp.tril(a), jnp.diag(a @ a.T), jnp.trace(a @ a.T)),
     dict(x=(3,), a=(3, 2)), fixed=True, n=30)
case('dynamic', lambda x, i: (x[jnp.int32(i) % 3], x.at[jnp.int32(i) % 3].set(7.), lax.dynamic_slice(x, (jnp.int32(i),), (2,)), lax.dynamic_update_slice(x, jnp.ones(2), (jnp.int32(i),)),
                              x.at[jnp.int32(i) % 3].add(2.)), dict(x=(3,), i=()), fixed=True, n=30)
case('batched', lambda a, x: (jax.vmap(lambda r, k: r[k])(a, jnp.int32(x) % 2), jax.vmap(lambda r, k: r.at[k].set(5.))(a, jnp.int32(x) % 2), jax.vmap(lambda r, k: r.at[k].add(5.), in_axes=(1, 0))(a, jnp.int32(x[:2]) % 2),
                              jnp.take_along_axis(a, (jnp.int32(x) % 2)[:, None], 1), jax.vmap(lambda r: r[jnp.argsort(r)])(a)), dict(a=(3, 2), x=(3,)), fixed=True, n=30)
case('control', lambda x: (lax.cond(x[0] > 0, lambda v: v * 2, lambda v: v - 1, x), lax.while_loop(lambda s: s[0] < 3, lambda s: (s[0] + 1, s[1] * 2 + 1), (0, x))[1],
                           lax.fori_loop(0, 3, lambda k, s: s + k * x, x), lax.scan(lambda c, v: (c + v, c * v), 0., x), lax.switch(jnp.int32(x[0] > 0), [lambda v: v, lambda v: -v], x)), dict(x=(3,)), fixed=True, n=20)
case('grad', lambda x, y: (jax.grad(lambda v: jnp.sum(v ** 3 * y) + jnp.dot(v, v) ** 2)(x), jax.jvp(lambda v: v / (1 + v * v), (x,), (y,)), jax.hessian(lambda v: jnp.sum(v) ** 3)(x),
                           jax.vjp(lambda v: jnp.where(v > 0, v * v, 0), x)[1](y)), dict(x=X, y=Y))
case('vmap', lambda a, x: (jax.vmap(lambda r: jnp.dot(r, r))(a), jax.vmap(lambda r, s: r * s)(a, x), jax.vmap(lambda c: jnp.max(c), in_axes=1)(a)), dict(a=A, x=X))
case('tri', lambda a, x: (jax.scipy.linalg.solve_triangular(a / 9, x, lower=True, unit_diagonal=True), jax.scipy.linalg.solve_triangular(a / 9, x, unit_diagonal=True)), dict(a=(3, 3), x=(3,)), fixed=True)


def run_case(name, fn, spec, fixed, special, n, rng):
  names = list(spec)
  bad = []
  def traced():
    c = vc.SymCtx()
    return fn(*[c.real(k, spec[k], special=special) for k in names])
  closed = jax.make_jaxpr(traced)()
  it = I.Interp()
  outs = it.eval(closed.jaxpr, [it.read_const(x) for x in closed.consts], [])
  dimsets = [dict(n=3, m=2)] if fixed else [dict(n=1, m=2), dict(n=2, m=3), dict(n=3, m=1)]
  for k in range(n):
    dims = dimsets[k % len(dimsets)]
    vals = arrays(rng, dims, spec, special)
    env = evalterm.Env(vals, dims)
    want = jax.tree_util.tree_leaves(fn(*[jnp.asarray(vals[q]) for q in names]))
    for j, (o, w) in enumerate(zip(outs, want)):
      got = evalterm.array(o, env)
      w = np.asarray(w)
      if got.shape != w.shape or not np.allclose(np.asarray(got, float), np.asarray(w, float), rtol=1e-7, atol=1e-7, equal_nan=True):
        bad.append('%s output %d: inputs %s: verifier %s, JAX %s' % (name, j, {q: v.tolist() for q, v in vals.items()}, got.tolist(), w.tolist()))
        if len(bad) > 3:
          return bad
  return bad


def obligations():
  """(harness, expected result) pairs; the wrong ones must be refuted, with a replayed input."""
  def right(c):
    x, y = c.real('x', ('n',)), c.real('y', ('n',))
    p = jax.nn.relu(x)
    c.assume('y', y >= 0)
    c.ensure_le('opt', (x - p) ** 2, (x - y) ** 2)
  def wrong(c):
    x, y = c.real('x', ('n',)), c.real('y', ('n',))
    p = jax.nn.relu(x - 0.01)
    c.assume('y', y >= 0)
    c.ensure_le('opt', (x - p) ** 2, (x - y) ** 2)
  def wrong_sum(c):
    x, y = c.real('x', ('n',)), c.real('y', ('n',))
    c.ensure_eq('dot', jnp.dot(x, y), jnp.dot(x, x))
  def wrong_fun(c):
    f = c.fun('f')
    x = c.real('x', ('n',))
    c.ensure_eq('grad', jax.grad(f)(x), 2 * jax.grad(f)(x))
  def right_fun(c):
    f = c.fun('f')
    x = c.real('x', ('n',))
    v, g = jax.value_and_grad(lambda z: f(2 * z))(x)
    c.ensure_eq('grad', g, 2 * jax.grad(f)(2 * x))
  def wrong_nan(c):
    x = c.real('x')
    c.ensure_finite('fin', x / jnp.abs(x))
  def system(c, lower):
    a, b = c.real('a', ('n', 'n')), c.real('b', ('n',))
    if not c.symbolic:
      a = a + 5 * jnp.eye(a.shape[0])
    c.assume('regular', jnp.all(jnp.diag(a) != 0))
    return jnp.tril(a) if lower else a, b
  def right_tri(c):
    a, b = system(c, True)
    c.ensure_eq('solves', a @ jax.scipy.linalg.solve_triangular(a, b, lower=True), b)
  def wrong_tri(c):
    a, b = system(c, True)
    c.ensure_eq('solves', a.T @ jax.scipy.linalg.solve_triangular(a, b, lower=True), b)
  def right_qr(c):
    a, b = system(c, False)
    q, r = jnp.linalg.qr(a)
    c.ensure_eq('solves', r @ jax.scipy.linalg.solve_triangular(r, q.T @ b), q.T @ b)
    c.ensure_eq('factors', q @ r, a)
  def wrong_solve(c):
    a, b = system(c, False)
    c.ensure_eq('solves', a.T @ jnp.linalg.solve(a, b), b)
  def right_solve(c):
    a, b = system(c, False)
    c.ensure_eq('solves', a @ jnp.linalg.solve(a, b), b)
  def vacuous(c):
    x = c.real('x')
    c.assume('a', x > 0)
    c.assume('b', x < 0)
    c.ensure('any', x > 5)
  def loop(c, bound, good):
    from jaxvc.contracts.common import loop_rule
    n0 = c.int('n0')
    c.assume('start', (n0 >= 0) & (n0 <= 5))
    loop_rule(c, lambda s: (s[1] == n0 + s[0]) & (s[0] >= 0) & (s[0] <= (5 if good else 4)))
    n, m = jax.lax.while_loop(lambda s: s[0] < bound, lambda s: (s[0] + 1, s[1] + 1), (jnp.asarray(0), n0))
    c.ensure('count', (m == n0 + 5) if bound == 5 else (m > 100))
  def right_loop(c):
    loop(c, 5, True)
  def unproved_loop(c):      # an invariant that is not preserved, whose exit assumption contradicts it
    loop(c, 5, False)
  return [(right_loop, 'proved'), (unproved_loop, 'error'), (right, 'proved'), (wrong, 'violated'), (wrong_sum, 'violated'), (wrong_fun, 'violated'), (right_fun, 'proved'), (wrong_nan, 'violated'), (vacuous, 'error'),
          (right_tri, 'proved'), (wrong_tri, 'violated'), (right_solve, 'proved'), (wrong_solve, 'violated'), (right_qr, 'proved')]


def main():
  t0 = time.time()
  rng = np.random.default_rng(1)
  bad = []
  for cs in CASES:
    try:
      b = run_case(*cs, rng)
    except Exception as e:  # noqa: BLE001
      import traceback
      b = ['%s raised %s: %s\n%s' % (cs[0], type(e).__name__, e, traceback.format_exc()[-800:])]
    bad += b
  for fn, want in obligations():
    ct = vc.Contract('T', fn.__name__, fn, {'': {}}, None, [{'n': 2}] if any(k in fn.__name__ for k in ('tri', 'solve', 'qr')) else None, 'proof', (), {})
    r = vc.check_contract(ct, '', {}, 'quick', 1, None)
    got = 'violated' if r['violation'] and not r['violation'].get('noinput') else 'error' if r['status'] == 'error' else \
        'proved' if all(o['status'] == 'proved' for o in r['obligations']) else 'undecided'
    if got != want:
      bad.append('obligation %s: expected %s, got %s %s' % (fn.__name__, want, got, r))
  for b in bad:
    print('SELFTEST FAIL', b[:1500])
  print('selftest: %d semantic cases, %d obligations, %d failures, %.0f s' % (len(CASES), len(obligations()), len(bad), time.time() - t0))
  return 1 if bad else 0


if __name__ == '__main__':
  sys.exit(main())
