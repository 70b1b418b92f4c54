"""P18: secant equations, symmetry and memory contents of the quasi-Newton updates."""
from .lsearch import problem
from .stubls import *
from .p19 import pick, recursion, summed
from jaxopt import LBFGS, BFGS, Broyden
import jaxopt._src.lbfgs as L
import jaxopt._src.broyden as B

S = 'jaxopt._src.'
flat = lambda t: jnp.concatenate([l.reshape(-1) for l in leaves(t)])
mv = lambda M, v: (M * v[None, :]).sum(1)


def bfgs_formula(H, s, y, ok):
  sy = jnp.sum(s * y)
  rho = 1 / jnp.where(ok, sy, 1.0)
  W = jnp.eye(s.shape[0]) - rho * s[:, None] * y[None, :]
  return jnp.stack([mv(W, mv(H, W[k])) for k in range(s.shape[0])], 1) + rho * s[:, None] * s[None, :]


def symmetric(c, n):
  u = [[c.real('h%d%d' % (min(i, j), max(i, j))) if i <= j else None for j in range(n)] for i in range(n)]
  return jnp.stack([jnp.stack([u[min(i, j)][max(i, j)] for j in range(n)]) for i in range(n)])


@contract('P18', 'bfgs', cfgs=grid(step=['const', 'callable', 'ls'], flavour=['fun', 'both'], lay=['arr', 'tree']), fix=[{'n': 1, 'nv': 1}, {'n': 2, 'nv': 1}],
          funcs=[S + 'bfgs.BFGS.update'], timeout=60, runs=10)
def bfgs(c, step, flavour, lay):
  """The update is the BFGS formula at the realised pair; see bfgs_lemma for what the formula implies."""
  fun, vg, f, g, A = problem(c, flavour, False)
  sch = c.fun('schedule', ())
  kw = dict(stepsize=0.375) if step == 'const' else dict(stepsize=lambda k: sch(k)) if step == 'callable' else dict(linesearch=stub(c, f, g, A, False)[0])
  sol = BFGS(fun=fun, value_and_grad=vg, **kw)
  x, a = tree(c, 'x', lay), c.real('a')
  st0 = sol.init_state(x, a)
  st = c.like('st', st0)
  N = st0.H.shape[0]
  H0 = symmetric(c, N)
  st = st._replace(value=f(x, a), grad=g(x, a), H=H0)
  y, n = sol.update(x, st, a)
  s, dg = flat(sub(y, x)), flat(sub(g(y, a), g(x, a)))
  ok = jnp.sum(s * dg) != 0
  c.ensure_eq('skipped when the curvature is zero', n.H, H0, when=~ok)
  c.ensure_eq('update formula', n.H, bfgs_formula(H0, s, dg, ok), when=ok)


@contract('P18', 'bfgs_lemma', cfgs=grid(n=[1, 2, 3]), funcs=[], timeout=60)
def bfgs_lemma(c, n):
  """From the formula of contract bfgs: symmetry, secant equation and preserved curvature (v'H+v = |w|_H^2 + rho (s'v)^2)."""
  H, s, y = symmetric(c, n), c.real('s', (n,)), c.real('y', (n,))
  sy = jnp.sum(s * y)
  c.assume('curvature', sy != 0)
  Hn = bfgs_formula(H, s, y, jnp.asarray(True))
  c.ensure_eq('symmetric', Hn, Hn.T)
  c.ensure_eq('secant equation', mv(Hn, y), s)
  v = c.real('v', (n,))
  w = v - jnp.sum(s * v) / sy * y
  c.ensure_eq('quadratic form', jnp.sum(v * mv(Hn, v)), jnp.sum(w * mv(H, w)) + jnp.sum(s * v) ** 2 / sy)


def memory(c, m, lay, newest=None):
  s = [tree(c, 's%d' % k, lay) for k in range(m)]
  y = [tree(c, 'y%d' % k, lay) for k in range(m)]
  r = [c.real('r%d' % k) for k in range(m)]
  if newest is not None:
    sy = dot(s[newest], y[newest])
    c.assume('curvature', sy != 0)
    r[newest] = 1 / sy
  st = lambda ts: tmap(lambda *l: jnp.stack(l), *ts)
  return s, y, r, st(s), st(y), jnp.stack(r)


@contract('P18', 'lbfgs_product', cfgs=grid(m=[1, 2, 3], start=[0, 1, 2], lay=['arr', 'tree'], what=['recursion', 'secant', 'symmetry']), funcs=[S + 'lbfgs.inv_hessian_product'], runs=10, timeout=30)
def lbfgs_product(c, m, start, lay, what):
  if start >= m:
    c.ensure('no such start', jnp.asarray(True))
    return
  newest = (start - 1) % m
  s, y, r, sh, yh, rh = memory(c, m, lay, newest if what == 'secant' else None)
  gamma = c.real('gamma')
  H = lambda v: L.inv_hessian_product(v, s_history=sh, y_history=yh, rho_history=rh, gamma=gamma, start=jnp.asarray(start))
  if what == 'secant':
    c.ensure_eq('newest pair: H y = s', H(y[newest]), s[newest])
  elif what == 'recursion':
    v = tree(c, 'v', lay)
    c.ensure_eq('two-loop product equals the matrix recursion, oldest pair first', H(v), recursion(v, [(s[(start + k) % m], y[(start + k) % m], r[(start + k) % m]) for k in range(m)], gamma))
  else:
    v, w = tree(c, 'v', lay), tree(c, 'w', lay)
    c.ensure_eq('self-adjoint', dot(w, H(v)), dot(v, H(w)))


@contract('P18', 'lbfgs_update', cfgs={**grid(m=[1, 2], it=[0, 1, 2, 3], gamma=[True, False], step=['const', 'ls'], lay=['arr']), **grid(m=[3], it=[0, 1, 2, 4, 5], gamma=[True], step=['const'], lay=['arr']), **grid(m=[1, 2], it=[0, 1], gamma=[True], step=['const', 'ls'], lay=['tree'])}, funcs=[S + 'lbfgs.LBFGS.update', S + 'lbfgs.update_history'], runs=10, timeout=30)
def lbfgs_update(c, m, it, gamma, step, lay):
  fun, vg, f, g, A = problem(c, 'both', False)
  kw = dict(stepsize=0.375) if step == 'const' else dict(linesearch=stub(c, f, g, A, False)[0])
  sol = LBFGS(fun=fun, value_and_grad=vg, history_size=m, use_gamma=gamma, **kw)
  x, a = tree(c, 'x', lay), c.real('a')
  st = c.like('st', sol.init_state(x, a))._replace(value=f(x, a), grad=g(x, a), iter_num=jnp.asarray(it))
  y, n = sol.update(x, st, a)
  sk, yk = sub(y, x), sub(g(y, a), g(x, a))
  sy = dot(sk, yk)
  # age order after the update: drop the oldest pair, append the new one
  before = [(it + k) % m for k in range(m)]
  after = [(it + 1 + k) % m for k in range(m)]
  for k in range(m - 1):
    c.ensure_eq('memory keeps pair %d' % k, (pick(n.s_history, after[k]), pick(n.y_history, after[k]), n.rho_history[after[k]]),
                (pick(st.s_history, before[k + 1]), pick(st.y_history, before[k + 1]), st.rho_history[before[k + 1]]))
  # with lbfgs_product[secant]: the product built from the updated memory maps y to s
  c.ensure_eq('rho of the new pair', n.rho_history[after[-1]] * sy, jnp.asarray(1.0), when=sy != 0)
  c.ensure_eq('memory appends the new pair', (pick(n.s_history, after[-1]), pick(n.y_history, after[-1])), (sk, yk))


@contract('P18', 'broyden', cfgs=grid(m=[1, 2, 3], it=[0, 1, 2], step=['const', 'callable'], lay=['arr', 'tree']), funcs=[S + 'broyden.Broyden.update', S + 'broyden.inv_jacobian_product', S + 'broyden.inv_jacobian_rproduct'], runs=10, timeout=30)
def broyden(c, m, it, step, lay):
  if it >= m:
    c.ensure('memory full', jnp.asarray(True))
    return
  F, sch = c.fun('F', 'like0'), c.fun('schedule', ())
  sol = Broyden(fun=lambda x, a: F(x, a), history_size=m, stepsize=0.375 if step == 'const' else (lambda k: sch(k)))
  x, a = tree(c, 'x', lay), c.real('a')
  st = c.like('st', sol.init_state(x, a))
  free = lambda h: tmap(lambda l: jnp.stack([l[k] if k < it else jnp.zeros_like(l[k]) for k in range(m)]), h)     # slots not written yet
  st = st._replace(value=F(x, a), iter_num=jnp.asarray(it), d_history=free(st.d_history), c_history=free(st.c_history))
  y, n = sol.update(x, st, a)
  dx, dF = sub(y, x), sub(F(y, a), F(x, a))
  Bop = lambda st: lambda v: add(scale(st.gamma, v), summed([scale(dot(pick(st.d_history, k), v), pick(st.c_history, k)) for k in range(m)]))
  BT = lambda st: lambda v: add(scale(st.gamma, v), summed([scale(dot(pick(st.c_history, k), v), pick(st.d_history, k)) for k in range(m)]))
  den = dot(BT(st)(dx), dF)
  c.ensure_eq('secant equation', Bop(n)(dF), dx, when=den != 0)
  for k in range(m):
    if k != it:
      c.ensure_eq('memory keeps pair %d' % k, (pick(n.d_history, k), pick(n.c_history, k)), (pick(st.d_history, k), pick(st.c_history, k)))
  v = tree(c, 'v', lay)
  c.ensure_eq('product built by the library', B.inv_jacobian_product(v, n.d_history, n.c_history, n.gamma, n.iter_num % m), Bop(n)(v), when=den != 0)
