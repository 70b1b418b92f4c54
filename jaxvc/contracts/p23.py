"""P23: bound-constrained solvers keep their iterates inside the box."""
from .common import *
from jaxopt import BoxCDQP, LBFGSB, ProjectedGradient
from jaxopt import projection as PJ
import jaxopt._src.cd_qp as CD
import jaxopt._src.lbfgsb as LB
import jaxopt._src.proximal_gradient as PG

CF = ['jaxopt._src.cd_qp.fori_loop_body_fun', 'jaxopt._src.cd_qp.BoxCDQP.update', 'jaxopt._src.cd_qp.BoxCDQP.optimality_fun']
L = 'jaxopt._src.lbfgsb.'
EPS = float(np.finfo(np.float64).eps)


def box(c, shape=('n',), infinite=True, name=''):
  """Arbitrary bounds lo <= hi, sides possibly infinite."""
  lo, hi = c.real(name + 'lo', shape, hi=0.2), c.real(name + 'hi', shape, lo=0.2)
  c.assume('lo <= hi', jnp.all(lo <= hi))
  if infinite:
    lo = jnp.where(c.bool(name + 'lo_inf', shape), -jnp.inf, lo)
    hi = jnp.where(c.bool(name + 'hi_inf', shape), jnp.inf, hi)
  return lo, hi


def inside(x, lo, hi):
  return alltrue(tmap(lambda a, l, u: jnp.all((l <= a) & (a <= u)), x, lo, hi))


# ---------------------------------------------------------------- coordinate descent
def qp(c, n):
  H = c.real('Q', (n, n), draw=lambda r, s: (lambda a: a @ a.T)(r.normal(size=s)))
  q = c.real('q', (n,))
  return H, q


@contract('P23', 'coordinate update', cfgs=grid(n=[1, 2, 3, 4], i=[0, 1, 2, 3], bounds=['finite', 'infinite']), funcs=CF[:1], runs=12, timeout=60)
def coordinate(c, n, i, bounds):
  if i >= n:
    i, n = i % n, n
  Q, q = qp(c, n)
  lo, hi = box(c, (n,), bounds == 'infinite')
  x, e = c.real('x', (n,)), c.real('e', (), lo=0.0)
  if not c.symbolic:
    x = jnp.clip(x, lo, hi)
  c.assume('start inside', inside(x, lo, hi))
  c.assume('convex along the coordinate', Q[i, i] >= 0)
  c.assume('symmetric', jnp.all(Q == Q.T))
  y, Q2, q2, lo2, hi2, e2 = CD.fori_loop_body_fun(i, (x, Q, q, lo, hi, e))
  g, h, d = Q[i] @ x + q[i], Q[i, i], y[i] - x[i]
  others = jnp.arange(n) != i
  c.ensure('the other coordinates are kept', (y == x) | ~others)
  c.ensure('inside the box', inside(y, lo, hi))
  c.ensure_eq('problem data kept', (Q2, q2, lo2, hi2), (Q, q, lo, hi))
  c.ensure_eq('error accumulates the displacement', e2, e + jnp.abs(d))
  # first-order conditions of min over the coordinate in [lo, hi]
  s = g + h * d
  c.ensure_le('optimal along the coordinate: upper side', 0.0, -s, when=(h > 0) & (y[i] > lo[i]) & (y[i] < hi[i]) & (s > 0), tol=1e-8)
  c.ensure_le('optimal along the coordinate: lower side', 0.0, s, when=(h > 0) & (y[i] > lo[i]) & (y[i] < hi[i]) & (s < 0), tol=1e-8)
  c.ensure_le('at the upper bound the slope is not positive', s, 0.0, when=(h > 0) & (y[i] == hi[i]) & (lo[i] < hi[i]), tol=1e-8)
  c.ensure_le('at the lower bound the slope is not negative', 0.0, s, when=(h > 0) & (y[i] == lo[i]) & (lo[i] < hi[i]), tol=1e-8)
  c.lemma('slope against the step', le=(s * d, 0.0))
  c.ensure_le('objective never increases', g * d + 0.5 * h * d * d, 0.0)
  if n <= 3 and bounds == 'finite':
    F = lambda z: 0.5 * z @ Q @ z + q @ z
    c.ensure_eq('that is the change of the objective', F(y) - F(x), g * d + 0.5 * h * d * d, tol=1e-6)


@contract('P23', 'coordinate descent pass', cfgs=grid(n=[1, 2, 3]), funcs=CF[1:2], runs=12, timeout=60)
def cd_pass(c, n):
  Q, q = qp(c, n)
  lo, hi = box(c, (n,))
  x = c.real('x', (n,))
  S = BoxCDQP()
  st = c.like('st', S.init_state(x))
  order, tot = [], 0.0
  if c.symbolic:
    def body(i, tup):
      x_, Q_, q_, l_, u_, e_ = tup
      order.append(i)
      c.ensure_eq('problem data', (Q_, q_, l_, u_), (Q, q, lo, hi))
      v = c.real('new%d' % len(order))
      c.assume('coordinate update', (v >= lo[i]) & (v <= hi[i]))
      return x_.at[i].set(v), Q_, q_, l_, u_, e_ + jnp.abs(v - x_[i])

    def fori(lower, upper, body_fun, init_val):
      c.ensure('every coordinate once', (lower == 0) and (upper == n))
      v = init_val
      for i in range(lower, upper):
        v = body_fun(i, v)
      return v
    c.patch(CD, 'fori_loop_body_fun', body)
    c.patch(jax.lax, 'fori_loop', fori)
  p, s2 = BoxCDQP.update(S, x, st, (Q, q), (lo, hi))
  c.ensure('inside the box after one pass from anywhere', inside(p, lo, hi))
  c.ensure_eq('error is the total displacement', s2.error, jnp.sum(jnp.abs(p - x)))
  c.ensure_eq('counter', s2.iter_num, st.iter_num + 1)


@contract('P23', 'coordinate descent optimality', cfgs=grid(bounds=['finite', 'infinite']), funcs=CF[2:], runs=12)
def cd_opt(c, bounds):
  Q, q, x = c.real('Q', ('n', 'n')), c.real('q', ('n',)), c.real('x', ('n',))
  lo, hi = box(c, ('n',), bounds == 'infinite')
  g = Q @ x + q
  r = BoxCDQP().optimality_fun(x, (Q, q), (lo, hi))
  c.ensure_eq('projected gradient residual', r, jnp.maximum(lo, jnp.minimum(hi, x - g)) - x)
  st = BoxCDQP().init_state(x)
  c.ensure('first pass runs', (st.error == jnp.inf) & (st.iter_num == 0))


# ---------------------------------------------------------------- projected gradient
@contract('P23', 'projected gradient', cfgs=grid(acceleration=[False, True], stepsize=['fixed', 'schedule', 'search'], lay=['arr', 'tree']),
          funcs=['jaxopt._src.projected_gradient.ProjectedGradient.update', 'jaxopt._src.proximal_gradient.fista_line_search'], runs=10, timeout=60)
def projected(c, acceleration, stepsize, lay):
  f, G = c.fun('f', ()), c.fun('g', 'like0')
  x = tree(c, 'x', lay)
  lo, hi = tmap(lambda l: c.like('lo', l), x), tmap(lambda l: c.like('hi', l), x)
  if not c.symbolic:
    lo, hi = tmap(lambda l: -jnp.abs(l), lo), tmap(jnp.abs, hi)
  for l, u in zip(leaves(lo), leaves(hi)):
    c.assume('lo <= hi', jnp.all(l <= u))
  s = {'fixed': 0.7, 'search': 0.0, 'schedule': lambda k: 1.0 / (1.0 + k)}[stepsize]
  S = ProjectedGradient(fun=lambda z: (f(z), G(z)), projection=PJ.projection_box, value_and_grad=True, stepsize=s, acceleration=acceleration, maxls=4, jit=not c.symbolic)
  st = S.init_state(x, (lo, hi))
  st = c.like('st', st, lo=0, hi=3)
  c.assume('positive', (st.stepsize > 0) & (st.t >= 1) & (st.iter_num >= 0))
  if c.symbolic:
    # the line search loop, by its invariant: every trial is a projection
    import jaxopt._src.loop as LP

    def while_loop(cond_fun, body_fun, init_val, maxiter, unroll=False, jit=False):
      inv = lambda v: inside(v[0], lo, hi)
      c.ensure('line search: first trial inside', inv(init_val))
      v = c.like('trial', init_val)
      c.ensure('line search: trials inside', inv(body_fun(v)), when=inv(v) & cond_fun(v))
      w = c.like('end', init_val)
      c.assume('line search: after the loop', inv(w))
      return w
    c.patch(LP, 'while_loop', while_loop)
    S = ProjectedGradient(fun=lambda z: (f(z), G(z)), projection=PJ.projection_box, value_and_grad=True, stepsize=s, acceleration=acceleration, maxls=4, jit=False, unroll=True)
  p, n = S.update(x, st, (lo, hi))
  c.ensure('inside the box from anywhere', inside(p, lo, hi))


# ---------------------------------------------------------------- L-BFGS-B
def inf_norm(t):
  r = jnp.zeros(())
  for l in leaves(t):
    r = jnp.maximum(r, jnp.max(jnp.abs(l)))
  return r


@contract('P23', 'L-BFGS-B error', cfgs=grid(lay=['arr', 'tree']), funcs=[L + '_get_error'], runs=12)
def lb_error(c, lay):
  x, g = tree(c, 'x', lay), tree(c, 'g', lay)
  los, his = [], []
  for k, l in enumerate(leaves(x)):
    lo, hi = box(c, ('n',) if k == 0 else ('nv',), name='b%d' % k)
    los.append(lo)
    his.append(hi)
  td = jax.tree_util.tree_structure(x)
  lo, hi = jax.tree_util.tree_unflatten(td, los), jax.tree_util.tree_unflatten(td, his)
  c.patch(LB, 'tree_inf_norm', inf_norm)
  e = LB._get_error(x, g, lo, hi)
  c.ensure_eq('projected gradient norm', e, inf_norm(tmap(lambda a, b, l, u: jnp.maximum(l, jnp.minimum(u, a - b)) - a, x, g, lo, hi)))


@contract('P23', 'L-BFGS-B Cauchy point', cfgs=grid(n=[1, 2], bounds=['finite', 'infinite'], order=['any']), funcs=[L + '_find_cauchy_point'], runs=20, timeout=60)
def cauchy(c, n, bounds, order):
  lo, hi = box(c, (n,), bounds == 'infinite')
  x, g = c.real('x', (n,)), c.real('g', (n,))
  h = 2
  w, m, theta = c.real('w', (n, h)), c.real('m', (h, h)), c.real('theta', (), lo=0.1)
  if not c.symbolic:
    x = jnp.clip(x, lo, hi)
    g = jnp.where(c.bool('tiny', (n,)), 1e-17 * g, g)
    x = jnp.where(c.bool('at bound', (n,)) & jnp.isfinite(hi), hi, x)
  c.assume('start inside', inside(x, lo, hi))
  c.assume('theta', theta > 0)
  t = jnp.where(jnp.abs(g) < EPS, jnp.inf, jnp.where(g < 0, (x - hi) / g, (x - lo) / g))      # breakpoints of the projected path
  d = jnp.where((t < EPS) | (jnp.abs(g) < EPS), 0.0, -g)
  p0 = w.T @ d
  c.assume('the model is convex along the path', jnp.all(d == 0) | (theta * (d @ d) - (m @ p0) @ p0 > 0))
  if order != 'any':                      # one order of the breakpoints
    o = [int(ch) for ch in order]
    for a, b in zip(o, o[1:]):
      c.assume('order of the breakpoints', (t[a] < t[b]) | ((t[a] == t[b]) & jnp.asarray(a < b)))
  ts = jnp.sort(t)

  def inv(st):
    i, df, ddf, mask, cc, p = st
    return {'index': (i >= jnp.sum(ts <= EPS)) & (i <= n), 'curvature': (ddf > 0) | jnp.all(d == 0), 'passed breakpoints are finite': jnp.all(jnp.isfinite(ts) | (jnp.arange(n) >= i)),
            'still': (df == 0) | jnp.any(d != 0), 'only the coordinates still to come are free': jnp.all(~mask | (jnp.arange(n) >= i))}
  loop_rule(c, inv, 'breakpoint loop')
  xc, cc, free = LB._find_cauchy_point(x, g, lo, hi, theta, w, m)
  c.ensure('inside the box', inside(xc, lo, hi))


@contract('P23', 'L-BFGS-B Cauchy point, more variables', cfgs=grid(n=[3, 4, 6], bounds=['finite', 'infinite'], order=['any']), funcs=[L + '_find_cauchy_point'], runs=40, mode='bounded')
def cauchy_more(c, n, bounds, order):
  cauchy(c, n, bounds, order)


@contract('P23', 'L-BFGS-B subspace step', cfgs={'n=%s,h=%s,bounds=%s' % (n, h, b): dict(n=n, h=h, bounds=b) for n, h in ((1, 2), ('n', 'h')) for b in ('finite', 'infinite')}, funcs=[L + '_minimize_subspace'], runs=20, timeout=60)
def subspace(c, n, h, bounds):
  """Whatever direction the linear solve yields, the truncated step stays inside and the fixed coordinates do not move."""
  lo, hi = box(c, (n,), bounds == 'infinite')
  x, g, xc = c.real('x', (n,)), c.real('g', (n,)), c.real('xc', (n,))
  w, m, cc, theta = c.real('w', (n, h)), c.real('m', (h, h)), c.real('c', (h,)), c.real('theta', (), lo=0.1)
  free = c.bool('free', (n,))
  if not c.symbolic:
    x, xc = jnp.clip(x, lo, hi), jnp.clip(xc, lo, hi)
  c.assume('Cauchy point inside', inside(xc, lo, hi))
  c.assume('theta', theta > 0)
  seen = []
  v = c.real('solution', (h,))

  def solve(a, b):
    seen.append((a, b))
    return v
  c.patch(jnp.linalg, 'solve', solve)
  y = LB._minimize_subspace(x, g, lo, hi, xc, cc, theta, w, m, free)
  tol = 0.0 if c.symbolic else 1e-12
  if not c.symbolic:
    c.ensure('inside the box', inside(y, lo - tol * (1 + jnp.abs(y)), hi + tol * (1 + jnp.abs(y))))
  c.ensure('fixed coordinates stay', (y == xc) | free)
  if c.symbolic:
    # the direction is minus the reduced model Hessian's inverse applied to the reduced gradient (Sherman-Morrison-Woodbury)
    Z = jnp.where(free, 1.0, 0.0)
    r = g + theta * (xc - x) - (Z[:, None] * w) @ (m @ cc)
    a, b = seen[0]
    wz = Z[:, None] * w
    c.ensure_eq('linear system: matrix', a, jnp.eye(m.shape[0]) - m @ (wz.T @ wz) / theta)
    c.ensure_eq('linear system: right-hand side', b, m @ (wz.T @ r))
    du = -r / theta - wz @ v / theta ** 2

    def longest(d, cut):
      s = jnp.minimum(1.0, jnp.min(cut(d)))
      return jnp.where(free, xc + s * d, xc)
    box_cut = lambda d: jnp.where(free & (jnp.abs(d) > 0), jnp.maximum((hi - xc) / d, (lo - xc) / d), 1.0)
    ratio_cut = lambda d: jnp.where(free, jnp.where(jnp.abs(d) > 0, jnp.where(d > 0, (hi - xc) / d, (lo - xc) / d), jnp.inf), jnp.inf)
    c.ensure_eq('longest feasible part of the step', y, longest(du, box_cut))
    if n != 'n':
      c.ensure_eq('longest feasible part of the step, by bound', y, longest(du, ratio_cut))
    # ... and that stays inside for every direction, this one included
    c.ensure('inside the box', inside(longest(c.real('d', (n,)), box_cut), lo, hi))


def lb_solver(c, f, G, aux, stepsize, **kw):
  A = c.fun('aux', ())
  fun = (lambda z, a: ((f(z, a), {'k': A(z, a)}), G(z, a))) if aux else (lambda z, a: (f(z, a), G(z, a)))
  return LBFGSB(fun=fun, value_and_grad=True, has_aux=aux, stepsize=stepsize, **kw), (lambda z, a: {'k': A(z, a)} if aux else None)


LF = [L + 'LBFGSB.init_state', L + 'LBFGSB.update', L + '_flatten_and_concat', L + '_split_and_pack_like']


@contract('P23', 'L-BFGS-B init', cfgs=grid(aux=[False, True], bounds=['given', 'none'], lay=['arr', 'tree']), funcs=LF[:1], runs=10)
def lb_init(c, aux, bounds, lay):
  f, G = c.fun('f', ()), c.fun('g', 'like0')
  S, A = lb_solver(c, f, G, aux, 0.0, history_size=2)
  x, a = tree(c, 'x', lay), c.real('a')
  lo, hi = tmap(lambda l: c.like('lo', l), x), tmap(lambda l: c.like('hi', l), x)
  c.patch(LB, 'tree_inf_norm', inf_norm)
  st = S.init_state(x, (lo, hi) if bounds == 'given' else None, a)
  g = G(x, a)
  if bounds == 'none':
    want = inf_norm(g)
  else:
    want = inf_norm(tmap(lambda p, q, l, u: jnp.minimum(u, jnp.maximum(l, p - q)) - p, x, g, lo, hi))
  c.ensure_eq('error is the projected gradient norm', st.error, want)
  c.ensure_eq('value', st.value, f(x, a))
  c.ensure_eq('gradient', st.grad, g)
  c.ensure_eq('aux', st.aux, A(x, a))
  c.ensure('empty history', alltrue(tmap(lambda l: jnp.all(l == 0), (st.s_history, st.y_history))) & (st.num_updates == 0) & (st.iter_num == 0))
  c.ensure('not failed', ~st.failed_linesearch)


@contract('P23', 'L-BFGS-B update', cfgs=grid(step=['search', 'fixed', 'schedule'], aux=[False, True], lay=['one', 'two', 'tree'], h=[1, 2], gamma=[True, False], bounds=['given', 'none']), funcs=LF[1:], runs=6, timeout=60)
def lb_update(c, step, aux, lay, h, gamma, bounds):
  f, G = c.fun('f', ()), c.fun('g', 'like0')
  s0 = {'search': 0.0, 'fixed': 0.8, 'schedule': lambda k: 1.0 / (1.0 + k)}[step]
  S, A = lb_solver(c, f, G, aux, s0, history_size=h, use_gamma=gamma, theta=1.0)
  mk = {'one': lambda nm: c.real(nm, (1,)), 'two': lambda nm: c.real(nm, (2,)), 'tree': lambda nm: {'p': c.real(nm + 'p', (1,)), 'q': c.real(nm + 'q', (1, 1))}}[lay]
  x, a = mk('x'), c.real('a')
  lo, hi = mk('lo'), mk('hi')
  if not c.symbolic:
    lo, hi = tmap(lambda l: -jnp.abs(l), lo), tmap(lambda l: jnp.abs(l) + 0.1, hi)
    x = tmap(jnp.clip, x, lo, hi)
  if bounds == 'none':
    lo, hi = tmap(lambda l: l * 0 - jnp.inf, x), tmap(lambda l: l * 0 + jnp.inf, x)
  else:
    c.assume('start inside', inside(x, lo, hi))
  flat = lambda t: jnp.concatenate([l.reshape(-1) for l in leaves(t)])
  hflat = lambda t: jnp.concatenate([l.reshape(l.shape[0], -1) for l in leaves(t)], axis=-1)
  f0, g0 = f(x, a), G(x, a)
  st = S.init_state(x, (lo, hi), a)
  hist = c.symbolic
  if hist:
    st = c.like('st', st, lo=0, hi=3)
    c.assume('state', (st.num_updates >= 0) & (st.num_updates <= 3) & (st.iter_num >= 0) & (st.stepsize > 0) & (st.theta > 0))
    c.assume('step of an earlier search', st.stepsize <= 1.0)
  st = st._replace(value=f0, grad=g0, aux=A(x, a))
  xs = c.real('target', flat(x).shape)
  seen = {}
  M, xc, cc, free = c.real('M', (2 * h, 2 * h)), c.real('xc', xs.shape), c.real('cc', (2 * h,)), c.bool('free', xs.shape)
  if c.symbolic:
    c.assume('subspace step', inside(xs, flat(lo), flat(hi)))

    def inv(m):
      # equation 3.4 of the reference, unused rows of the history padded on the diagonal
      s_, y_ = hflat(st.s_history), hflat(st.y_history)
      used, k = jnp.arange(h) < st.num_updates, st.num_updates
      sy, ss = s_ @ y_.T, s_ @ s_.T
      D, Lo = jnp.diag(jnp.diag(sy)), jnp.tril(sy, -1)
      c.ensure_eq('middle matrix: diagonal block', jnp.where(used[:, None] & used[None, :], m[:h, :h], 0.0), jnp.where(used[:, None] & used[None, :], -D, 0.0))
      c.ensure_eq('middle matrix: lower block', m[h:, :h], Lo)
      c.ensure_eq('middle matrix: upper block', m[:h, h:], Lo.T)
      c.ensure_eq('middle matrix: step block', jnp.where(used[:, None] & used[None, :], m[h:, h:], 0.0), jnp.where(used[:, None] & used[None, :], st.theta * ss, 0.0))
      return M

    def cauchy_point(x_, g_, l_, u_, th, w, m):
      c.ensure_eq('Cauchy point: arguments', (x_, g_, l_, u_, th, m), (flat(x), flat(g0), flat(lo), flat(hi), st.theta, M))
      s_, y_ = hflat(st.s_history), hflat(st.y_history)
      c.ensure_eq('Cauchy point: correction matrix', w, jnp.concatenate([y_, st.theta * s_]).T)
      return xc, cc, free

    def subspace_step(x_, g_, l_, u_, xc_, cc_, th, w, m, free_):
      c.ensure_eq('subspace step: arguments', (x_, g_, l_, u_, xc_, cc_, th, m), (flat(x), flat(g0), flat(lo), flat(hi), xc, cc, st.theta, M))
      c.ensure('subspace step: free coordinates', free_ == free)
      return xs

    def run_ls(s, p, value=None, grad=None, descent_direction=None, fun_args=[], fun_kwargs={}):
      c.ensure_eq('line search: point', (p, value, grad, fun_args), (x, f0, g0, (a,)))
      c.ensure('line search: first step', (s > 0) & (s <= 1.5))      # zoom and backtracking cut it at max_stepsize (P14, P15)
      t = c.real('t')
      c.assume('line search', (t >= 0) & (t <= 1.0))
      y = axpy(p, t, descent_direction)
      import types
      seen['t'] = t
      return t, types.SimpleNamespace(params=y, value=f(y, a), grad=G(y, a), aux=A(y, a), failed=c.bool('lsf'), iter_num=c.int('lsi'), num_fun_eval=c.int('lsn'), num_grad_eval=c.int('lsg'))
    c.patch(jnp.linalg, 'inv', inv)
    c.patch(LB, '_find_cauchy_point', cauchy_point)
    c.patch(LB, '_minimize_subspace', subspace_step)
    c.patch(LB, 'tree_inf_norm', inf_norm)
    c.patch(S, 'run_ls', run_ls)
  p, n = LBFGSB.update(S, x, st, (lo, hi) if bounds == 'given' else None, a)
  tol = 0.0 if c.symbolic else 1e-12
  c.ensure('inside the box', inside(p, tmap(lambda l: l - tol, lo), tmap(lambda u: u + tol, hi)))
  gp = G(p, a)
  c.ensure_eq('value', n.value, f(p, a))
  c.ensure_eq('gradient', n.grad, gp)
  c.ensure_eq('aux', n.aux, A(p, a))
  c.ensure_eq('error is the projected gradient norm', n.error, inf_norm(tmap(lambda q, g, l, u: jnp.minimum(u, jnp.maximum(l, q - g)) - q, p, gp, lo, hi)))
  c.ensure_eq('counter', n.iter_num, st.iter_num + 1)
  if c.symbolic:
    if step != 'search':
      s_ = s0 if step == 'fixed' else s0(st.iter_num)
      c.ensure_eq('step', flat(p), flat(x) + s_ * (xs - flat(x)), when=s_ <= 1)
    s_, y_ = sub(p, x), sub(gp, g0)
    curv = dot(s_, y_)
    k = st.num_updates % h
    upd = lambda H, v: tmap(lambda hh, vv: jnp.where((jnp.arange(h) == k).reshape((h,) + (1,) * vv.ndim), vv[None], hh), H, v)
    pos = curv > 0
    c.ensure_eq('history: steps', n.s_history, upd(st.s_history, s_), when=pos)
    c.ensure_eq('history: gradient differences', n.y_history, upd(st.y_history, y_), when=pos)
    c.ensure_eq('pairs without curvature are skipped', (n.s_history, n.y_history, n.theta, n.num_updates), (st.s_history, st.y_history, st.theta, st.num_updates), when=~pos)
    c.ensure_eq('scaling', n.theta, sq(y_) / jnp.where(pos, curv, 1.0) if gamma else jnp.ones(()), when=pos)
    c.ensure_eq('number of pairs', n.num_updates, st.num_updates + 1, when=pos)


@contract('P23', 'L-BFGS-B iterates by search', cfgs=grid(linesearch=['zoom', 'backtracking', 'hager-zhang']), runs=1, mode='bounded')
def lb_searches(c, linesearch):
  """Three updates on one function; the Hager-Zhang search ignores max_stepsize (known finding)."""
  t = jnp.asarray([5.0, -4.0, 0.3])
  lo, hi = -jnp.ones(3), jnp.ones(3)
  S = LBFGSB(fun=lambda x: jnp.sum((x - t) ** 4) + jnp.sum(jnp.cos(2 * x)), linesearch=linesearch)
  x = jnp.asarray([0.5, 0.5, 0.5])
  st = S.init_state(x, (lo, hi))
  ok = True
  for _ in range(3):
    x, st = S.update(x, st, (lo, hi))
    ok = ok & inside(x, lo - 1e-12, hi + 1e-12)
  c.ensure('inside the box', ok)
