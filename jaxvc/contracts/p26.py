"""P26: tree arithmetic is vector arithmetic on the flattened leaves."""
from .common import *
from jaxopt._src import tree_util as TU

F = 'jaxopt._src.tree_util.'
LAY = ['arr', 'tree', 'nest', 'scalar']


def same_structure(c, a, b):
  c.ensure('structure', jnp.asarray(jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b)))


@contract('P26', 'elementwise', cfgs=grid(lay=LAY), funcs=[F + n for n in ('tree_add', 'tree_sub', 'tree_mul', 'tree_div', 'tree_scalar_mul', 'tree_add_scalar_mul', 'tree_negative', 'tree_reciproqual')])
def elementwise(c, lay):
  x, y, s = tree(c, 'x', lay), tree(c, 'y', lay), c.real('s')
  c.assume('y nonzero', tmap(lambda l: l != 0, y))
  c.ensure_eq('add', TU.tree_add(x, y), tmap(lambda a, b: a + b, x, y))
  c.ensure_eq('sub', TU.tree_sub(x, y), tmap(lambda a, b: a - b, x, y))
  c.ensure_eq('mul', TU.tree_mul(x, y), tmap(lambda a, b: a * b, x, y))
  c.ensure_eq('div', TU.tree_div(x, y), tmap(lambda a, b: a / b, x, y))
  c.ensure_eq('scalar_mul', TU.tree_scalar_mul(s, x), tmap(lambda a: s * a, x))
  c.ensure_eq('add_scalar_mul', TU.tree_add_scalar_mul(x, s, y), tmap(lambda a, b: a + s * b, x, y))
  c.ensure_eq('negative', TU.tree_negative(x), tmap(lambda a: -a, x))
  c.ensure_eq('reciprocal', TU.tree_reciproqual(y), tmap(lambda a: 1 / a, y))
  c.ensure_eq('conj', TU.tree_conj(x), x)
  c.ensure_eq('real', TU.tree_real(x), x)
  c.ensure_eq('imag', TU.tree_imag(x), tmap(lambda a: a * 0, x))


@contract('P26', 'reductions/matrix leaves', cfgs=grid(lay=['nest']), fix=[{'n': 2, 'nw': 3}, {'n': 1, 'nw': 1}], funcs=[F + 'tree_vdot', F + 'tree_l2_norm'])
@contract('P26', 'reductions', cfgs=grid(lay=['arr', 'tree', 'scalar']), funcs=[F + n for n in ('tree_vdot', 'tree_vdot_real', 'tree_sum', 'tree_l2_norm', 'tree_zeros_like', 'tree_ones_like')])
def reductions(c, lay):
  x, y = tree(c, 'x', lay), tree(c, 'y', lay)
  c.ensure_eq('vdot', TU.tree_vdot(x, y), dot(x, y))
  c.ensure_eq('vdot_real', TU.tree_vdot_real(x, y), dot(x, y))
  c.ensure_eq('sum', TU.tree_sum(x), jnp.asarray(tsum(x)))
  c.ensure_eq('squared norm', TU.tree_l2_norm(x, squared=True), sq(x))
  c.sq_nonneg('x', x)
  n = TU.tree_l2_norm(x)
  c.ensure('norm sign', n >= 0)
  c.ensure_eq('norm', n * n, sq(x))
  c.ensure_eq('zeros', TU.tree_zeros_like(x), tmap(lambda a: a * 0, x))
  c.ensure_eq('ones', TU.tree_ones_like(x), tmap(lambda a: a * 0 + 1, x))


@contract('P26', 'inf_norm', cfgs=grid(lay=LAY), fix=[{'*': 2}, {'*': 1}], funcs=[F + 'tree_inf_norm'])
def inf_norm(c, lay):
  x = tree(c, 'x', lay)
  m = TU.tree_inf_norm(x)
  c.ensure('upper bound', tmap(lambda a: jnp.abs(a) <= m, x))
  hit = jnp.asarray(False)
  for l in leaves(x):
    hit = hit | jnp.any(jnp.abs(l) == m)
  c.ensure('attained', hit)


@contract('P26', 'mean', cfgs=grid(lay=LAY), fix=[{'*': 2, 'n': 3}], funcs=[F + 'tree_mean'])
def mean(c, lay):
  x = tree(c, 'x', lay)
  ls = leaves(x)
  c.ensure_eq('mean of leaf means', TU.tree_mean(x), sum(jnp.sum(l) / max(1, int(np.prod(l.shape))) for l in ls) / len(ls))


@contract('P26', 'average', cfgs=grid(lay=['arr', 'tree']), run_dims=[{'m': 3, 'n': 2, 'nv': 3}], funcs=[F + 'tree_average'])
def average(c, lay):
  x = c.real('x', ('m', 'n')) if lay == 'arr' else {'u': c.real('u', ('m', 'n')), 'v': c.real('v', ('m', 'n', 'nv'))}
  w = c.real('w', ('m',))
  c.ensure_eq('linear combination', TU.tree_average(x, w),
              tmap(lambda a: jnp.sum(a * w.reshape((w.shape[0],) + (1,) * (a.ndim - 1)), axis=0), x))


@contract('P26', 'gram', cfgs=grid(lay=['arr', 'tree']), run_dims=[{'m': 3, 'n': 2, 'nv': 3}], funcs=[F + 'tree_gram'])
def gram(c, lay):
  x = c.real('x', ('m', 'n')) if lay == 'arr' else {'u': c.real('u', ('m', 'n')), 'v': c.real('v', ('m', 'nv'))}
  G = TU.tree_gram(x)
  c.ensure_eq('all dot products', G, sum(jnp.sum(l[:, None] * l[None], axis=-1) for l in leaves(x)))


@contract('P26', 'dot', run_dims=[{'m': 3, 'n': 2, 'nv': 3}], funcs=[F + 'tree_dot'])
def tdot(c):
  A, x, b, y = c.real('A', ('m', 'n')), c.real('x', ('n',)), c.real('b', ('nv',)), c.real('y', ('nv',))
  r = TU.tree_dot({'u': A, 'v': b}, {'u': x, 'v': y})
  c.ensure_eq('leafwise', r, {'u': jnp.sum(A * x[None], axis=1), 'v': jnp.sum(b * y)})


@contract('P26', 'where', cfgs=grid(lay=LAY, cond=['scalar', 'tree'], side=['tree', 'scalar']), funcs=[F + 'tree_where', F + 'broadcast_pytrees'])
def where(c, lay, cond, side):
  x = tree(c, 'x', lay)
  y = tree(c, 'y', lay) if side == 'tree' else c.real('y0')
  yf = y if side == 'tree' else tmap(lambda a: a * 0 + y, x)
  if cond == 'scalar':
    k = c.bool('k')
    kf = tmap(lambda a: k, x)
  else:
    kf = k = tmap(lambda a: a > 0.5, tree(c, 'k', lay))
  c.ensure_eq('selected', TU.tree_where(k, x, y), tmap(lambda m, a, b: jnp.where(m, a, b), kf, x, yf))
  c.ensure_eq('swapped', TU.tree_where(k, y, x), tmap(lambda m, a, b: jnp.where(m, b, a), kf, x, yf))
