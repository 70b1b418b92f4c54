"""P04: derivatives of the projections, forward and reverse mode, in every direction, for all parameters.

The derivative is stated piece by piece from the closed form of the projection around a point where the active set is
locally constant; the projection itself is decided under P02, P03 and P27."""
from .common import *
from .p03 import xdraw, POS
import jaxopt._src.projection as P
from jaxopt import prox as PX

F = 'jaxopt._src.projection.'


def both(c, f, x, want_fwd, want_rev, when=None, tol=None):
  """jvp and vjp of f at x against the stated derivative."""
  kw = {} if when is None else dict(when=when)
  leafname = lambda t, pre: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(t), [c.real('%s%d' % (pre, k), l.shape) for k, l in enumerate(leaves(t))])
  xd = leafname(x, 'tangent')
  out, od = jax.jvp(f, x, xd)
  c.ensure_eq('forward mode', od, want_fwd(out, xd), tol=tol or 1e-7, **kw)
  out2, pull = jax.vjp(f, *x)
  u = leafname(out, 'cotangent')
  c.ensure_eq('same value in reverse mode', out2, out)
  c.ensure_eq('reverse mode', pull(u), want_rev(out, u), tol=tol or 1e-7, **kw)
  return out


def sub_derivative(x, v, supp):
  """Simplex of radius v on a support: forward and reverse formulas of p = (x - tau) on the support."""
  m = jnp.where(supp, 1.0, 0.0)
  k = jnp.sum(m)
  fwd = lambda xd, vd: m * (xd - (jnp.sum(m * xd) - vd) / k)
  rev = lambda u: (m * (u - jnp.sum(m * u) / k), jnp.sum(m * u) / k)
  return fwd, rev


def untied(x, v, supp):
  """No coordinate sits exactly at the threshold."""
  m = jnp.where(supp, 1.0, 0.0)
  tau = (jnp.sum(m * x) - v) / jnp.sum(m)
  return jnp.all(supp | (x < tau))


SZ = [{'n': 1}, {'n': 2}, {'n': 3}]


@contract('P04', 'simplex', fix=SZ, funcs=[F + 'projection_simplex', F + '_projection_unit_simplex_jvp'], runs=15, timeout=60)
def simplex(c):
  x, v = c.real('x', ('n',), draw=xdraw), c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  supp = P.projection_simplex(x, v) > 0
  fwd, rev = sub_derivative(x, v, supp)
  both(c, P.projection_simplex, (x, v), lambda p, d: fwd(*d), lambda p, u: rev(u), when=untied(x, v, supp))


@contract('P04', 'sparse simplex', cfgs=grid(k=[1, 2], n=[2, 3]), funcs=[F + 'projection_sparse_simplex', F + '_projection_unit_sparse_simplex_jvp'], runs=15, timeout=60)
def sparse_simplex(c, k, n):
  x, v = c.real('x', (n,), draw=xdraw), c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  f = lambda z, r: P.projection_sparse_simplex(z, k, value=r)
  p = f(x, v)
  supp = p > 0
  fwd, rev = sub_derivative(x, v, supp)
  m = jnp.where(supp, 1.0, 0.0)
  tau = (jnp.sum(m * x) - v) / jnp.sum(m)
  low = jnp.min(jnp.where(supp, x, jnp.inf))
  # the other coordinates stay out: below the threshold, or strictly smaller than the k chosen ones
  out = jnp.all(supp | (x < tau) | ((jnp.sum(m) == k) & (x < low)))
  both(c, f, (x, v), lambda p, d: fwd(*d), lambda p, u: rev(u), when=out)


def germ(c, n, a, v):
  """A map known at (a, v) only: any value there, any Jacobian."""
  q, A, w = c.real('q', (n,)), c.real('A', (n, n)), c.real('w', (n,))
  return q, A, w, lambda z, r: q + A @ (z - a) + w * (r - v)


@contract('P04', 'l1 sphere', cfgs=grid(n=[1, 2, 3, 5]), funcs=[F + 'projection_l1_sphere'], runs=15, timeout=60)
def l1_sphere(c, n):
  """The simplex projection enters by its value and an arbitrary Jacobian (its contract is above)."""
  x, v = c.real('x', (n,), draw=xdraw), c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  c.assume('no kink', jnp.all(x != 0))
  s = jnp.where(x >= 0, 1.0, -1.0)
  q, A, w, simplex_map = germ(c, n, s * x, v)
  c.patch(P, 'projection_simplex', simplex_map, always=True)
  out = both(c, P.projection_l1_sphere, (x, v), lambda p, d: s * (A @ (s * d[0]) + w * d[1]), lambda p, u: (s * (A.T @ (s * u)), w @ (s * u)))
  c.ensure_eq('simplex projection of the absolute values', out, s * q)


@contract('P04', 'l1 sphere, zero coordinates', fix=SZ, funcs=[F + 'projection_l1_sphere'], runs=40, mode='bounded')
def l1_sphere_zero(c):
  x, v = c.real('x', ('n',), draw=xdraw), c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  a, s = jnp.abs(x), jnp.where(x >= 0, 1.0, -1.0)
  supp = P.projection_simplex(a, v) > 0
  fwd, rev = sub_derivative(a, v, supp)

  def r(p, u):
    dx, dv = rev(s * u)
    return s * dx, dv
  both(c, P.projection_l1_sphere, (x, v), lambda p, d: s * fwd(s * d[0], d[1]), r, when=untied(a, v, supp) & jnp.all((x != 0) | ~supp))


@contract('P04', 'l1 ball', cfgs=grid(n=[1, 2, 3, 5]), funcs=[F + 'projection_l1_ball'], runs=20, timeout=60)
def l1_ball(c, n):
  """The sphere projection enters by its value and an arbitrary Jacobian (its contract is above)."""
  x, v = c.real('x', (n,), draw=xdraw), c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  l1 = jnp.sum(jnp.abs(x))
  inside = l1 < v
  q, A, w, sphere = germ(c, n, x, v)
  c.patch(P, 'projection_l1_sphere', sphere, always=True)
  both(c, P.projection_l1_ball, (x, v), lambda p, d: jnp.where(inside, d[0], A @ d[0] + w * d[1]),
       lambda p, u: (jnp.where(inside, u, A.T @ u), jnp.where(inside, 0.0, w @ u)), when=l1 != v)
  c.ensure_eq('sphere projection outside, called at the same arguments', P.projection_l1_ball(x, v), jnp.where(inside, x, q), when=l1 != v)


def some_zero(c, x):
  """Concrete runs: also the origin."""
  if c.symbolic:
    return x
  z = c.bool('origin')
  return tmap(lambda l: jnp.where(z, 0.0, l), x)


@contract('P04', 'l2 ball', cfgs=grid(lay=['arr', 'tree']), funcs=[F + 'projection_l2_ball'], runs=20, timeout=60)
def l2_ball(c, lay):
  x, v = some_zero(c, tree(c, 'x', lay)), c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  N = norm(x)
  inside = N < v
  safe = jnp.where(inside, 1.0, N)
  fwd = lambda d, vd: tmap(lambda a, b: jnp.where(inside, b, v * (b - a * (dot(x, d) / safe ** 2)) / safe + vd * a / safe), x, d)
  rev = lambda u: (tmap(lambda a, b: jnp.where(inside, b, v * (b - a * (dot(x, u) / safe ** 2)) / safe), x, u), jnp.where(inside, 0.0, dot(x, u) / safe))
  both(c, P.projection_l2_ball, (x, v), lambda p, d: fwd(*d), lambda p, u: rev(u), when=N != v)


@contract('P04', 'l2 sphere', cfgs=grid(lay=['arr', 'tree']), funcs=[F + 'projection_l2_sphere'], runs=10, timeout=60)
def l2_sphere(c, lay):
  x, v = tree(c, 'x', lay), c.real('value', (), **POS)
  N = norm(x)
  c.assume('not the origin', N > 0)
  c.assume('value>0', v > 0)
  fwd = lambda d, vd: tmap(lambda a, b: v * (b - a * (dot(x, d) / N ** 2)) / N + vd * a / N, x, d)
  rev = lambda u: (tmap(lambda a, b: v * (b - a * (dot(x, u) / N ** 2)) / N, x, u), dot(x, u) / N)
  both(c, P.projection_l2_sphere, (x, v), lambda p, d: fwd(*d), lambda p, u: rev(u))


@contract('P04', 'group lasso', cfgs=grid(lay=['arr', 'tree']), funcs=['jaxopt._src.prox.prox_group_lasso'], runs=20, timeout=60)
def group_lasso(c, lay):
  x, v = some_zero(c, tree(c, 'x', lay)), c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  N = norm(x)
  inside = N < v
  safe = jnp.where(inside, 1.0, N)
  fwd = lambda d, vd: tmap(lambda a, b: jnp.where(inside, 0.0, b - v * (b - a * (dot(x, d) / safe ** 2)) / safe - vd * a / safe), x, d)
  rev = lambda u: (tmap(lambda a, b: jnp.where(inside, 0.0, b - v * (b - a * (dot(x, u) / safe ** 2)) / safe), x, u), jnp.where(inside, 0.0, -dot(x, u) / safe))
  both(c, lambda z, r: PX.prox_group_lasso(z, r), (x, v), lambda p, d: fwd(*d), lambda p, u: rev(u), when=N != v)


@contract('P04', 'box', cfgs=grid(lay=['arr', 'tree']), funcs=[F + 'projection_box', F + '_clip_safe'], runs=10)
def box(c, lay):
  x = tree(c, 'x', lay)
  lo = tmap(lambda l: c.like('lo', l), x)
  hi = tmap(lambda l: c.like('hi', l), x)
  if not c.symbolic:
    hi = tmap(lambda l, h: l + 0.1 + jnp.abs(h), lo, hi)
  for l, u, a in zip(leaves(lo), leaves(hi), leaves(x)):
    c.assume('lo < hi', jnp.all(l < u))
    c.assume('no kink', jnp.all((a != l) & (a != u)))
  sel = lambda a, l, u, p, q, r: tmap(lambda a_, l_, u_, p_, q_, r_: jnp.where(a_ < l_, q_, jnp.where(a_ > u_, r_, p_)), a, l, u, p, q, r)
  pick = lambda cond, w: tmap(lambda a, l, u, b: jnp.where(cond(a, l, u), b, 0.0), x, lo, hi, w)
  both(c, lambda z, l, u: P.projection_box(z, (l, u)), (x, lo, hi),
       lambda p, d: sel(x, lo, hi, *d),
       lambda p, u: (pick(lambda a, l, h: (a > l) & (a < h), u), pick(lambda a, l, h: a < l, u), pick(lambda a, l, h: a > h, u)))


@contract('P04', 'elementwise', cfgs=grid(which=['non_negative', 'hypercube', 'linf_ball']), fix=[{'n': 1, 'nv': 1}, {'n': 3, 'nv': 2}], funcs=[F + 'projection_non_negative', F + 'projection_hypercube', F + 'projection_linf_ball'], runs=10)
def elementwise(c, which):
  x, v = tree(c, 'x', 'tree'), c.real('value', (), **POS)
  c.assume('value>0', v > 0)
  lo = {'non_negative': 0.0, 'hypercube': 0.0, 'linf_ball': -v}[which]
  hi = jnp.inf if which == 'non_negative' else v
  for a in leaves(x):
    c.assume('no kink', jnp.all((a != lo) & (a != hi)))
  lod, hid = (0.0 if which != 'linf_ball' else -1.0), (0.0 if which == 'non_negative' else 1.0)
  f = {'non_negative': lambda z, r: P.projection_non_negative(z), 'hypercube': P.projection_hypercube, 'linf_ball': P.projection_linf_ball}[which]
  free = lambda a: (a > lo) & (a < hi)
  both(c, f, (x, v), lambda p, d: tmap(lambda a, b: jnp.where(free(a), b, jnp.where(a < lo, lod * d[1], hid * d[1])), x, d[0]),
       lambda p, u: (tmap(lambda a, b: jnp.where(free(a), b, 0.0), x, u),
                     tsum(tmap(lambda a, b: jnp.where(a < lo, lod * b, 0.0) + jnp.where(a > hi, hid * b, 0.0), x, u))))


@contract('P04', 'hyperplane and half-space', cfgs=grid(which=['hyperplane', 'halfspace'], lay=['arr', 'tree']), funcs=[F + 'projection_hyperplane', F + 'projection_halfspace'], runs=12, timeout=60)
def halfspace(c, which, lay):
  x, a, b = tree(c, 'x', lay), tree(c, 'a', lay), c.real('b')
  n2 = sq(a)
  c.assume('normal', n2 > 0)
  g = dot(a, x) - b
  on = jnp.ones((), bool) if which == 'hyperplane' else g > 0
  s = g / n2

  def fwd(p, d):
    xd, ad, bd = d
    sd = (dot(ad, x) + dot(a, xd) - bd) / n2 - g * 2 * dot(a, ad) / n2 ** 2
    return tmap(lambda w, p_, q_: jnp.where(on, w - sd * p_ - s * q_, w), xd, a, ad)

  def rev(p, u):
    ua = dot(u, a)
    return (tmap(lambda w, p_: jnp.where(on, w - ua / n2 * p_, w), u, a),
            tmap(lambda w, p_, q_: jnp.where(on, -s * w - ua * (q_ / n2 - 2 * g * p_ / n2 ** 2), 0.0), u, a, x),
            jnp.where(on, ua / n2, 0.0))
  f = P.projection_hyperplane if which == 'hyperplane' else P.projection_halfspace
  both(c, lambda z, w, r: f(z, (w, r)), (x, a, b), fwd, rev, when=(g != 0) | (which == 'hyperplane'))


# ---------------------------------------------------------------- transport: gradients of the smoothed maxima
@contract('P04', 'smoothed maximum', cfgs=grid(which=['l2', 'ent']), fix=SZ, funcs=[F + '_max_l2', F + '_max_ent'], runs=12, timeout=60)
def smoothed_max(c, which):
  """The gradient used to read the plan off the dual solution is the maximiser (the code relies on Danskin's theorem for l2)."""
  x, m, gam = c.real('x', ('n',), draw=xdraw), c.real('marginal', (), **POS), c.real('gamma', (), **POS)
  c.assume('positive', (m > 0) & (gam > 0))
  f = P._max_l2 if which == 'l2' else P._max_ent
  g = jax.grad(f)(x, m, gam)
  if which == 'l2':
    p = P.projection_simplex(x / (gam * m))
    c.ensure_eq('gradient is the maximiser', g, p)
    c.ensure_eq('value at the maximiser', f(x, m, gam), x @ p - 0.5 * gam * m * (p @ p))
  else:
    e = jnp.exp(x / gam - jnp.max(x / gam))
    c.ensure_eq('gradient is the soft maximum', g, e / jnp.sum(e))


@contract('P04', 'smoothed constraint', cfgs=grid(which=['l2', 'ent']), funcs=[F + '_delta_l2', F + '_delta_ent'], runs=12)
def smoothed_delta(c, which):
  x, gam = c.real('x', ('n',)), c.real('gamma', (), **POS)
  c.assume('positive', gam > 0)
  f = P._delta_l2 if which == 'l2' else P._delta_ent
  g = jax.grad(f)(x, gam)
  c.ensure_eq('gradient', g, jnp.maximum(x, 0.0) / gam if which == 'l2' else jnp.exp(x / gam - 1.0))


# ---------------------------------------------------------------- box section: through the implicit function theorem
@contract('P04', 'box section', cfgs=grid(n=[1, 2]), funcs=[F + 'projection_box_section', F + '_root_proj_box_sec', F + '_optimality_fun_proj_box_sec', 'jaxopt._src.implicit_diff.root_vjp'], runs=15, timeout=60)
def box_section(c, n):
  """The dual root enters by its equation (Bisection: P24); its derivative through custom_root and the linear solve (P12, P13)."""
  x, w = c.real('x', (n,)), c.real('w', (n,), **POS)
  al, wid = c.real('alpha', (n,)), c.real('width', (n,), draw=lambda r, s: r.uniform(0.5, 2, s))
  fr = c.real('frac', (), draw=lambda r, s: r.uniform(0.2, 0.8, s))
  be = al + wid
  c.assume('feasible', jnp.all(w > 0) & jnp.all(wid > 0) & (fr > 0) & (fr < 1))
  target = w @ al + fr * (w @ wid)
  from jaxopt._src.bisection import Bisection
  from jaxopt._src import base
  tau = c.real('tau')
  if c.symbolic:
    c.assume('root', w @ jnp.clip(w * tau + x, al, be) == target)
    c.patch(Bisection, '_run', lambda self, init_params=None, *a, **k: base.OptStep(tau, None))
  f = lambda z, a, b, ww, t: P.projection_box_section(z, (a, b, ww, t))
  p, pull = jax.vjp(f, x, al, be, w, target)
  u = c.real('u', (n,))
  if not c.symbolic:
    tau = P._root_proj_box_sec(x, (al, be, w, target))
  z = w * tau + x
  free, low, up = (z > al) & (z < be), z < al, z > be
  m = jnp.where(free, 1.0, 0.0)
  W = jnp.sum(m * w * w)
  U = jnp.sum(m * u * w) / W
  res = u - U * w
  when = jnp.any(free) & jnp.all(free | low | up)
  if not c.symbolic:                      # away from the kinks by more than the bisection error
    when = when & jnp.all((jnp.abs(z - al) > 1e-4) & (jnp.abs(z - be) > 1e-4))
  tol = 1e-7 if c.symbolic else 1e-3
  got = pull(u)
  for nm, g, want in (('x', got[0], m * res), ('alpha', got[1], jnp.where(low, res, 0.0)), ('beta', got[2], jnp.where(up, res, 0.0)),
                      ('w', got[3], -U * p + m * tau * res), ('c', got[4], U)):
    c.ensure_eq('reverse mode in ' + nm, g, want, when=when, tol=tol)


@contract('P04', 'box section, more variables', cfgs=grid(n=[3, 5]), funcs=[F + 'projection_box_section'], runs=30, mode='bounded')
def box_section_more(c, n):
  box_section(c, n)
