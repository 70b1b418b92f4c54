"""Contracts: registration, verification-condition generation, discharge, replay, evidence."""
from __future__ import annotations
import os
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false')
import sys
import time
import json
import traceback
import itertools
import zlib
import numpy as np
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from jax import export as jexport
from . import terms as T
from . import interp as I
from . import prims
from . import opaque
from . import prover

REGISTRY = {}     # property -> list of Contract


class Contract:
  def __init__(self, pid, name, fn, cfgs, dims, fix, mode, funcs, opts):
    self.pid, self.name, self.fn, self.cfgs, self.dims, self.fix = pid, name, fn, cfgs, dims, fix
    self.mode, self.funcs, self.opts = mode, funcs, opts


def contract(pid, name=None, cfgs=None, fix=None, mode='proof', funcs=(), **opts):
  """pid: property id(s); cfgs: {label: kwargs} static configurations; fix: None (dimensions stay symbolic) or a
  list of {dim: int} dictionaries (values symbolic, sizes bounded); mode: 'proof' or 'bounded' (run only)."""
  def deco(fn):
    pids = pid if isinstance(pid, (list, tuple)) else [pid]
    for p in pids:
      REGISTRY.setdefault(p, []).append(Contract(p, name or fn.__name__, fn, cfgs or {'': {}}, None, fix, mode, funcs, opts))
    return fn
  return deco


def grid(**kw):
  """Cartesian product of static configuration values."""
  keys = list(kw)
  out = {}
  for combo in itertools.product(*[kw[k] for k in keys]):
    lab = ','.join('%s=%s' % (k, getattr(v, '__name__', v)) for k, v in zip(keys, combo))
    out[lab] = dict(zip(keys, combo))
  return out


class Skip(Exception):
  pass


# ----------------------------------------------------------------------------- symbolic context
class SymCtx:
  symbolic = True

  def __init__(self, dims=None):
    self.fixed = dims            # None: symbolic; dict: sizes
    self._dims = {}
    self._scope = None
    self.funs = {}
    self.uf_extra = set()
    self.fixed_axes = set()      # concrete axis lengths of the arbitrary inputs
    self.names = set()
    self.patched = []

  def dim(self, name):
    if self.fixed is not None:
      return resolve_dim(self.fixed, name)
    if name not in self._dims:
      self._dims[name] = None
      if self._scope is None:
        self._scope = jexport.SymbolicScope()
      self._dims[name] = jexport.symbolic_shape(name, scope=self._scope)[0]
    return self._dims[name]

  def _shape(self, shape):
    return tuple(self.dim(d) if isinstance(d, str) else d for d in shape)

  def _fresh(self, name, shape, dtype, extra):
    assert name not in self.names, 'duplicate input ' + name
    self.names.add(name)
    shape = self._shape(shape)
    self.fixed_axes |= {d for d in shape if isinstance(d, int)}
    return prims.fresh_p.bind(name=name, shape=shape, dtype=np.dtype(dtype).name, extra=extra)

  def real(self, name, shape=(), special=False, **kw):
    return self._fresh(name, shape, np.float64, special)

  def int(self, name, shape=(), **kw):
    return self._fresh(name, shape, np.int64, False)

  def bool(self, name, shape=(), **kw):
    return self._fresh(name, shape, np.bool_, False)

  def like(self, name, tree, special=False, **kw):
    """Arbitrary pytree with the structure/shapes of `tree` (arrays or ShapeDtypeStructs)."""
    leaves, td = jax.tree_util.tree_flatten_with_path(tree)
    out = []
    for path, l in leaves:
      nm = name + jax.tree_util.keystr(path)
      l = l if hasattr(l, 'dtype') else jnp.asarray(l)
      self.fixed_axes |= {d for d in l.shape if isinstance(d, int)}
      out.append(prims.fresh_p.bind(name=nm, shape=tuple(l.shape), dtype=np.dtype(l.dtype).name,
                                    extra=special and np.dtype(l.dtype).kind == 'f'))
    return jax.tree_util.tree_unflatten(td, out)

  def fun(self, name, shape=(), dtype=None, special=False, run=None):
    """Uninterpreted function of any number of array (pytree) arguments returning an array of `shape`
    (a string dim / 'like0' returns something shaped as the first argument)."""
    if special:
      self.uf_extra.add(name)
    def f(*args, **kw):
      leaves = jax.tree_util.tree_leaves((args, kw))
      if shape == 'like0':
        l0, td = jax.tree_util.tree_flatten(args[0])
        return jax.tree_util.tree_unflatten(td, [opaque.bind('%s.%d' % (name, k) if len(l0) > 1 else name, leaves, jnp.shape(x))
                                                 for k, x in enumerate(l0)])
      return opaque.bind(name, leaves, self._shape(shape), dtype)
    return f

  def patch(self, module, name, value, always=False):
    """Modular step: while this contract is traced, calls of module.name go to its contract (a stub) instead of its body."""
    self.patched.append((module, name, getattr(module, name)))
    setattr(module, name, value)

  def unpatch(self):
    while self.patched:
      setattr(*self.patched.pop())

  def assume(self, name, cond):
    for k, l in enumerate(jax.tree_util.tree_leaves(cond)):
      prims.assume_p.bind(jnp.asarray(l), name=name)

  def _ens(self, name, kind, xs, when=None, tol=None, lemma=False):
    xs = [jnp.asarray(x) for x in xs]
    w = jnp.asarray(True) if when is None else jnp.asarray(when)
    prims.ensure_p.bind(*xs, w, name=name, kind=kind, lemma=lemma)

  def ensure(self, name, cond, when=None, **kw):
    ls = jax.tree_util.tree_leaves(cond)
    for k, l in enumerate(ls):
      self._ens(name if len(ls) == 1 else '%s#%d' % (name, k), 'bool', [l], when, **kw)

  def ensure_eq(self, name, a, b, when=None, tol=None, **kw):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if ta != tb:
      raise ContractShape('%s: result structure %s differs from %s' % (name, ta, tb))
    for k, (x, y) in enumerate(zip(la, lb)):
      x, y = jnp.asarray(x), jnp.asarray(y)
      if tuple(map(str, x.shape)) != tuple(map(str, y.shape)):
        raise ContractShape('%s: result shape %s differs from %s' % (name, x.shape, y.shape))
      self._ens(name if len(la) == 1 else '%s#%d' % (name, k), 'eq', [x, y], when, **kw)

  def ensure_le(self, name, a, b, when=None, tol=None, **kw):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    for k, (x, y) in enumerate(zip(la, lb)):
      x, y = jnp.broadcast_arrays(jnp.asarray(x), jnp.asarray(y))
      self._ens(name if len(la) == 1 else '%s#%d' % (name, k), 'le', [x, y], when, **kw)

  def ensure_finite(self, name, a, when=None, **kw):
    ls = jax.tree_util.tree_leaves(a)
    for k, x in enumerate(ls):
      self._ens(name if len(ls) == 1 else '%s#%d' % (name, k), 'finite', [x], when, **kw)

  def lemma(self, name, cond=None, le=None, eq=None, when=None):
    """Proved like an obligation, then available as a fact to the later obligations (the lemma is about generic
    entries; `sum_le` lifts it)."""
    if le is not None:
      self.ensure_le(name, le[0], le[1], when, lemma=True)
    elif eq is not None:
      self.ensure_eq(name, eq[0], eq[1], when, lemma=True)
    else:
      self.ensure(name, cond, when, lemma=True)

  def sum_le(self, name, a, b):
    """Lemma rule: from  forall i. a_i <= b_i  (proved here) conclude  sum a <= sum b."""
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    for k, (x, y) in enumerate(zip(la, lb)):
      x, y = jnp.broadcast_arrays(jnp.asarray(x), jnp.asarray(y))
      self._ens('%s/entry#%d' % (name, k), 'le', [x, y], None, lemma=True)
      prims.assume_p.bind(jnp.sum(x) <= jnp.sum(y), name='lemma:sum-monotone:' + name)

  def sq_nonneg(self, name, v):
    """Lemma instance: sum of squares of v is non-negative (true of every real vector)."""
    s = sum(jnp.sum(l * l) for l in jax.tree_util.tree_leaves(v))
    prims.assume_p.bind(s >= 0, name='lemma:square-sum:' + name)

  def cauchy_schwarz(self, name, u, v):
    """Lemma instance of Cauchy-Schwarz for pytrees u, v: <u,v>^2 <= |u|^2 |v|^2."""
    lu, lv = jax.tree_util.tree_leaves(u), jax.tree_util.tree_leaves(v)
    uv = sum(jnp.sum(a * b) for a, b in zip(lu, lv))
    uu = sum(jnp.sum(a * a) for a in lu)
    vv = sum(jnp.sum(a * a) for a in lv)
    prims.assume_p.bind(uv * uv <= uu * vv, name='lemma:cauchy-schwarz:' + name)


class ContractShape(Exception):
  """The result has the wrong structure or shape: a violation by itself."""


def resolve_dim(dims, name):
  """Size of a named dimension: the one given, or the default ('*': one size for all, or a list taken in order of first use)."""
  if name not in dims:
    d = dims.get('*', 2)
    if isinstance(d, (list, tuple)):
      d = d[sum(k != '*' for k in dims) % len(d)]
      dims[name] = d
    return d
  return dims[name]


# ----------------------------------------------------------------------------- concrete context
class RunCtx:
  symbolic = False

  def __init__(self, dims, rng, values=None, tables=None, profile=0):
    self.dims, self.rng, self.values, self.tables, self.profile = dict(dims), rng, values or {}, tables or {}, profile
    self.results = []      # (name, ok, detail)
    self.used = {}
    self.rejected = None
    self.uf_extra = set()
    self.seed = int(rng.integers(1 << 30))

  def dim(self, name):
    return resolve_dim(self.dims, name)

  def _shape(self, shape):
    return tuple(self.dim(d) if isinstance(d, str) else d for d in shape)

  def _draw(self, shape, lo, hi, special):
    r = self.rng
    p = self.profile
    k = r.integers(0, 6)
    if lo is not None or hi is not None:
      lo_ = -3.0 if lo is None else lo
      hi_ = (lo_ + 3.0) if hi is None else hi
      x = r.uniform(lo_, hi_, size=shape)
      if k == 0:
        x = np.where(r.random(shape) < 0.3, lo_, x)
      elif k == 1 and hi is not None:
        x = np.where(r.random(shape) < 0.3, hi_, x)
      elif k == 2 and hi is None:
        x = lo_ + np.exp(r.uniform(-6, 3, size=shape))
      elif k == 3:
        x = np.clip(np.round(x * 2) / 2, lo_, hi_)
    else:
      x = r.normal(size=shape) * np.exp(r.uniform(-2, 2))
      if k == 0:
        x = np.round(x)
      elif k == 1:
        x = np.zeros(shape)
      elif k == 2:
        x = np.where(r.random(shape) < 0.4, 0.0, x)
      elif k == 3:
        x = np.round(r.normal(size=shape) * 2) / 2
    return np.asarray(x, np.float64)

  def _get(self, name, shape, mk):
    if name in self.values:
      v = np.asarray(self.values[name])
      if v.shape == tuple(shape):
        self.used[name] = v.tolist()
        return jnp.asarray(v)
    v = np.asarray(mk())
    self.used[name] = v.tolist()
    return jnp.asarray(v)

  def real(self, name, shape=(), special=False, lo=None, hi=None, draw=None, **kw):
    s = self._shape(shape)
    return self._get(name, s, lambda: draw(self.rng, s) if draw is not None else self._draw(s, lo, hi, special))

  def int(self, name, shape=(), lo=0, hi=6, **kw):
    s = self._shape(shape)
    return self._get(name, s, lambda: self.rng.integers(lo, hi, size=s))

  def bool(self, name, shape=(), **kw):
    s = self._shape(shape)
    return self._get(name, s, lambda: self.rng.random(s) < 0.5)

  def like(self, name, tree, special=False, lo=None, hi=None, **kw):
    leaves, td = jax.tree_util.tree_flatten_with_path(tree)
    out = []
    for path, l in leaves:
      nm = name + jax.tree_util.keystr(path)
      l = l if hasattr(l, 'dtype') else jnp.asarray(l)
      k = np.dtype(l.dtype).kind
      if k == 'b':
        mk = lambda: self.rng.random(l.shape) < 0.5
      elif k in 'iu':
        mk = lambda: self.rng.integers(0, 6, size=l.shape)
      else:
        mk = lambda: self._draw(tuple(l.shape), lo, hi, special)
      out.append(self._get(nm, tuple(l.shape), mk).astype(l.dtype))
    return jax.tree_util.tree_unflatten(td, out)

  def fun(self, name, shape=(), dtype=None, special=False, run=None):
    if self.tables.get(name) or any(k.split('/')[0].split('.')[0] == name for k in self.tables):
      return self._table_fun(name, shape, dtype)
    if run is not None:
      return run(np.random.default_rng(self.seed + zlib.crc32(name.encode())))
    seed = self.seed + zlib.crc32(name.encode())
    def f(*args, **kw):
      leaves = [jnp.ravel(jnp.asarray(l, float)) for l in jax.tree_util.tree_leaves((args, kw))]
      v = jnp.concatenate(leaves) if leaves else jnp.zeros((0,))
      r = np.random.default_rng(seed)
      m = v.shape[0]
      if shape == 'like0':
        outs = []
        l0, td = jax.tree_util.tree_flatten(args[0])
        for x in l0:
          n = int(np.prod(jnp.shape(x)))
          A = jnp.asarray(r.normal(size=(n, m)) * 0.5)
          b = jnp.asarray(r.normal(size=n))
          outs.append(jnp.reshape(A @ v * 0.7 + 0.3 * jnp.sin(A @ v + b), jnp.shape(x)))
        return jax.tree_util.tree_unflatten(td, outs)
      s = self._shape(shape)
      n = int(np.prod(s))
      if dtype is not None and np.dtype(dtype).kind == 'b':
        A = jnp.asarray(r.normal(size=(n, m)))
        return jnp.reshape(A @ v > 0, s)
      if s == ():
        A = jnp.asarray(r.normal(size=(m, m)) * 0.7)
        b = jnp.asarray(r.normal(size=m))
        w = jnp.asarray(r.normal(size=m))
        y = A @ v - b
        return 0.5 * jnp.dot(y, y) + 0.5 * jnp.sin(jnp.dot(w, v))
      A = jnp.asarray(r.normal(size=(n, m)) * 0.7)
      b = jnp.asarray(r.normal(size=n))
      return jnp.reshape(A @ v + 0.4 * jnp.sin(A @ v * 1.3 + b), s)
    return f

  def _table_fun(self, name, shape, dtype):
    """Function given by the solver's finite table (values and derivative values at finitely many points: some
    smooth function has exactly these)."""
    def impl(nm, *args):
      tab = self.tables.get(nm, [])
      flat = np.concatenate([np.ravel(np.asarray(a, float)) for a in args]) if args else np.zeros(0)
      best, bd = None, None
      for av, vals in tab:
        if len(av) != len(flat):
          continue
        d = np.max(np.abs(np.asarray(av) - flat) / (1 + np.abs(flat))) if len(flat) else 0.0
        if bd is None or d < bd:
          best, bd = vals, d
      return best if best is not None and bd < 1e-6 else {}
    def mk(nm, *args):
      vals = impl(nm, *args)
      return vals
    opaque.IMPL[name] = None
    def call(nm, *args):
      shp = call.shapes[nm]
      out = np.zeros(shp)
      for idx, v in mk(nm, *args).items():
        out[idx] = v
      return out
    call.shapes = {}
    class _Shapes(dict):
      pass
    def impl2(nm, *args):
      vals = mk(nm, *args)
      # shape: derivative order from the name
      order = [int(k) for k in nm.split('/')[1:]]
      s = self._shape(shape) if shape != 'like0' else np.shape(args[0])
      for k in order:
        s = tuple(s) + tuple(np.shape(args[k]))
      out = np.zeros(s)
      for idx, v in vals.items():
        out[idx] = v
      return out
    opaque.IMPL[name] = impl2
    def f(*args, **kw):
      leaves = jax.tree_util.tree_leaves((args, kw))
      if shape == 'like0':
        l0, td = jax.tree_util.tree_flatten(args[0])
        return jax.tree_util.tree_unflatten(td, [opaque.bind(name, leaves, jnp.shape(x)) for x in l0])
      return opaque.bind(name, leaves, self._shape(shape), dtype)
    return f

  def assume(self, name, cond):
    for l in jax.tree_util.tree_leaves(cond):
      if not bool(np.all(np.asarray(l))):
        self.rejected = name
        raise Skip(name)

  def patch(self, module, name, value, always=False):
    # concrete runs execute the real callee, except where the contract says it stands for any callee
    if always:
      self.patched.append((module, name, getattr(module, name)))
      setattr(module, name, value)

  def _when(self, when, shape):
    w = True if when is None else np.asarray(when)
    return np.broadcast_to(w, shape) if np.ndim(w) <= len(shape) else w

  def _put(self, name, ok, detail):
    self.results.append((name, bool(ok), detail))

  def ensure(self, name, cond, when=None, **kw):
    ls = jax.tree_util.tree_leaves(cond)
    for k, l in enumerate(ls):
      a = np.asarray(l)
      w = self._when(when, a.shape)
      self._put(name if len(ls) == 1 else '%s#%d' % (name, k), np.all(a | ~w), 'condition false')

  def ensure_eq(self, name, a, b, when=None, tol=1e-6, **kw):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if ta != tb:
      raise ContractShape('%s: result structure %s differs from %s' % (name, ta, tb))
    for k, (x, y) in enumerate(zip(la, lb)):
      x, y = np.asarray(x), np.asarray(y)
      nm = name if len(la) == 1 else '%s#%d' % (name, k)
      if x.shape != y.shape:
        self._put(nm, False, 'shape %s != %s' % (x.shape, y.shape))
        continue
      if x.dtype == bool or y.dtype == bool:
        ok = x == y
      else:
        x, y = x.astype(float), y.astype(float)
        with np.errstate(all='ignore'):
          sc = 1 + np.maximum(np.abs(np.where(np.isfinite(x), x, 0)).max(initial=0), np.abs(np.where(np.isfinite(y), y, 0)).max(initial=0))
          ok = (np.abs(x - y) <= (tol or 1e-6) * sc) | (x == y) | (np.isnan(x) & np.isnan(y))
      w = self._when(when, ok.shape)
      self._put(nm, np.all(ok | ~w), 'got %s expected %s' % (_short(x), _short(y)))

  def ensure_le(self, name, a, b, when=None, tol=1e-6, **kw):
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    for k, (x, y) in enumerate(zip(la, lb)):
      x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
      with np.errstate(all='ignore'):
        sc = 1 + np.abs(np.where(np.isfinite(x), x, 0)) + np.abs(np.where(np.isfinite(y), y, 0))
        ok = (x <= y + (tol or 1e-6) * sc)
      w = self._when(when, ok.shape)
      self._put(name if len(la) == 1 else '%s#%d' % (name, k), np.all(ok | ~w), '%s <= %s is false' % (_short(x), _short(y)))

  def ensure_finite(self, name, a, when=None, **kw):
    ls = jax.tree_util.tree_leaves(a)
    for k, x in enumerate(ls):
      x = np.asarray(x)
      w = self._when(when, x.shape)
      self._put(name if len(ls) == 1 else '%s#%d' % (name, k), np.all(np.isfinite(x) | ~w), 'value %s' % _short(x))

  def lemma(self, name, cond=None, le=None, eq=None, when=None):
    pass

  def sum_le(self, name, a, b):
    pass

  def sq_nonneg(self, name, v):
    pass

  def cauchy_schwarz(self, name, u, v):
    pass


def _short(x):
  s = np.array2string(np.asarray(x), precision=12, threshold=20)
  return s.replace('\n', ' ')[:300]


# ----------------------------------------------------------------------------- VC generation
class VC:
  def __init__(self):
    self.assumptions = []     # schematic B
    self.assume_names = []
    self.obligations = []     # (name, guard+goal B, lemma?)
    self.interp = None
    self.ctx = None
    self.inputs = {}


def _all_entries(arr):
  return arr.entries()


def generate(fn, kwargs, dims, fixed_sizes=None, opts=None):
  """Trace the real code under the contract and build its verification conditions."""
  opts = opts or {}
  c = SymCtx(dims)
  try:
    closed = jax.make_jaxpr(lambda: (fn(c, **kwargs), jnp.zeros(()))[1])()
  finally:
    c.unpatch()
  it = I.Interp(max_unroll=opts.get('max_unroll', 400))
  it.while_unroll = opts.get('while_unroll', 0)
  it.uf_extra = c.uf_extra
  vc = VC()
  vc.ctx = c
  vc.interp = it
  pos_cache = {}
  # facts about preconditions are needed to drop special-value flags early
  def oracle(p, mode='nonzero'):
    key = (p, mode, len(it.assumes), len(it.axioms))
    r = pos_cache.get(key)
    if r is None:
      if p.is_const():
        r = bool(p.terms) if mode == 'nonzero' else p.cval() >= 0
      else:
        goal = T.bnot(T.eq0(p)) if mode == 'nonzero' else T.ge0(p)
        if goal is T.TRUE:
          r = True
        elif goal is T.FALSE:
          r = False
        else:
          ass = _assumptions(it)
          if not ass:
            r = False
          else:
            facts, g = prover.Problem(ass, goal).ground()
            st, _ = prover._check(facts, g, 0.3)
            r = st == 'unsat'
      pos_cache[key] = r
    return r
  I.NONZERO[0] = oracle if opts.get('oracle', True) else None
  def entails(b, path):
    if b in (T.TRUE, T.FALSE):
      return b is T.TRUE
    facts, gg = prover.Problem(_assumptions(it) + [path], b).ground()
    return T.FALSE in facts or prover._check(facts, gg, 1.0)[0] == 'unsat'
  it.entails = entails
  if opts.get('decide'):
    def decide(b, path):
      ass = _assumptions(it)
      for val, g in ((T.TRUE, b), (T.FALSE, T.bnot(b))):
        facts, gg = prover.Problem(ass + [path], g).ground()
        if prover._check(facts, gg, 0.3)[0] == 'unsat':
          return val
      return b
    it.decide = decide
  try:
    it.eval(closed.jaxpr, [it.read_const(x) for x in closed.consts], [])
  finally:
    I.NONZERO[0] = None
  vc.assumptions = _assumptions(it)
  vc.assume_names = [n for _, n, _ in it.assumes]
  vc.hidden = []
  later = [(k, T.bor(T.bnot(path), e)) for k, (path, n, arr) in enumerate(it.assumes) if n.endswith(': after the loop') for e in arr.entries()]
  for path, name, kind, xs, params in it.ensures:
    *ys, w = xs
    guard = T.band(path, *w.entries()) if w.shape == () else None
    parts = []
    if kind == 'bool':
      g = ys[0]
    elif kind == 'eq':
      g = I.ew(I.same_value, *ys)
    elif kind == 'le':
      g = I.ew(I.vle, *ys)
    elif kind == 'finite':
      g = ys[0].map(I.vfinite)
    else:
      raise I.Unsupported(kind)
    if w.shape != ():
      if w.shape != g.shape:
        raise I.Unsupported('guard shape %s %s' % (w.shape, g.shape))
      g = I.ew(lambda cc, x: T.bor(T.bnot(cc), x), w, g)
      guard = path
    for k, e in enumerate(g.entries()):
      goal = T.bor(T.bnot(guard), e)
      nm = name if len(g.entries()) == 1 else '%s[%d]' % (name, k)
      vc.obligations.append((nm, goal, params.get('lemma', False)))
      # what holds after a loop is no help in showing its invariant
      hide = [a for k, a in later if k >= params['mark']]
      vc.hidden.append(hide)
  return vc


def _assumptions(it):
  out = []
  for path, _, arr in it.assumes:
    for e in arr.entries():
      out.append(T.bor(T.bnot(path), e))
  for path, e in it.axioms:
    out.append(T.bor(T.bnot(path), e))
  return [a for a in out if a is not T.TRUE]


def model_inputs(vc, model, zc):
  """Concrete inputs and function tables from a solver model (fixed sizes only)."""
  vals, tabs = {}, {}
  atoms, bools = T.atoms_of(vc.assumptions + [g for _, g, _ in vc.obligations])
  for a in atoms:
    if a.kind == 'sym':
      name, idx = a.args
      vals.setdefault(name, {})[idx] = prover.model_value(model, zc, T._atomp(a))
    elif a.kind == 'uf':
      name, args, idx = a.args
      def flat(x):
        if isinstance(x, T.Poly):
          return [prover.model_value(model, zc, x)]
        if isinstance(x, T.B):
          return [1.0 if prover.z3.is_true(model.eval(zc.boolean(x), model_completion=True)) else 0.0]
        r = []
        for y in x:
          r += flat(y)
        return r
      try:
        av = flat(args)
      except Exception:
        continue
      t = tabs.setdefault(name, [])
      v = prover.model_value(model, zc, T._atomp(a))
      for e in t:
        if len(e[0]) == len(av) and np.allclose(e[0], av, rtol=1e-9, atol=1e-12):
          e[1][idx] = v
          break
      else:
        t.append((av, {idx: v}))
  for b in bools:
    if b.kind == 'bsym':
      name, idx = b.args
      z = zc.boolean(b)
      vals.setdefault(name, {})[idx] = bool(prover.z3.is_true(model.eval(z, model_completion=True)))
  out = {}
  flags = {}
  for name, d in vals.items():
    if '?' in name:
      base, f = name.split('?')
      flags.setdefault(base, {})[f] = d
      continue
    k = len(next(iter(d)))
    shape = tuple(max(i[j] for i in d) + 1 for j in range(k))
    out[name] = (shape, d)
  return out, flags, tabs


class _Vals(dict):
  """values given as {name: {idx: v}}; shapes are completed by the context."""


class ModelCtx(RunCtx):
  def __init__(self, dims, rng, mvals, flags, tables):
    super().__init__(dims, rng, {}, tables)
    self.mvals, self.flags = mvals, flags

  def _get(self, name, shape, mk):
    v = np.asarray(mk())
    v = np.zeros(v.shape, v.dtype) if v.dtype.kind != 'b' else np.zeros(v.shape, bool)
    if name in self.mvals:
      for idx, x in self.mvals[name][1].items():
        v[idx] = x
    for f, d in self.flags.get(name, {}).items():
      for idx, x in d.items():
        if x and v.dtype.kind == 'f':
          v[idx] = {'nan': np.nan, 'pinf': np.inf, 'ninf': -np.inf}[f]
    self.used[name] = v.tolist()
    return jnp.asarray(v)


# ----------------------------------------------------------------------------- running
def run_concrete(ct, kwargs, ctx):
  """Evaluate the contract on the real code; returns list of failing (name, detail)."""
  ctx.patched = []
  try:
    ct.fn(ctx, **kwargs)
  except Skip:
    return None
  except ContractShape as e:
    return [('structure', str(e))]
  finally:
    while ctx.patched:
      setattr(*ctx.patched.pop())
  return [(n, d) for n, ok, d in ctx.results if not ok]


DEFAULT_RUN_DIMS = [{'*': 2}, {'*': (3, 2, 4, 1)}, {'*': (2, 3, 1, 4)}, {'*': 3}, {'*': 1}, {'*': 5}]


def run_dims(ct):
  d = ct.opts.get('run_dims')
  if d:
    return d
  if ct.fix:
    return list(ct.fix)
  return DEFAULT_RUN_DIMS


def search_concrete(ct, kwargs, seed, n, deadline):
  """Bounded stand-in / replay search: contract evaluated on the real code on n random inputs."""
  rng = np.random.default_rng(seed)
  dims = run_dims(ct)
  tried = ok = 0
  for k in range(n * 4):
    if tried >= n or time.time() > deadline:
      break
    d = dims[k % len(dims)]
    c = RunCtx(d, np.random.default_rng(rng.integers(1 << 40)), profile=k)
    r = run_concrete(ct, kwargs, c)
    if r is None:
      continue
    tried += 1
    if r:
      return tried, dict(dims=c.dims, inputs=c.used, seed=c.seed, failures=r, source='search')
  return tried, None


def check_contract(ct, label, kwargs, tier, seed, replay_dir):
  """Decide one contract configuration. Returns a result dict."""
  t0 = time.time()
  res = dict(contract=ct.name, config=label, mode=ct.mode, obligations=[], status='ok', funcs=list(ct.funcs),
             assumptions=[], trusted=[], violation=None, notes=[])
  thorough = tier == 'thorough'
  opts = ct.opts
  nrun = opts.get('runs', 40) * (5 if thorough else 1)
  tmo = opts.get('timeout', 10.0) * (3 if thorough else 1)
  budget = opts.get('budget', 60.0) * (3 if thorough else 1)
  try:
    if ct.mode == 'bounded':
      tried, bad = search_concrete(ct, kwargs, seed, nrun, time.time() + opts.get('run_time', 60) * (4 if thorough else 1))
      res['bounded_runs'] = tried
      res['obligations'].append(dict(name='run-time contract', status='bounded-ok' if bad is None else 'violated', backend='execution', time=time.time() - t0))
      if bad is not None:
        res['violation'] = bad
      elif tried == 0:
        res['status'] = 'error'
        res['notes'].append('no input satisfied the assumptions')
      return res
    families = [None] if not ct.fix else list(ct.fix)
    if thorough and opts.get('fix_thorough'):
      families += list(opts['fix_thorough'])
    prover.STATS.update(queries=0, time=0.0)
    undecided = []
    for dims in families:
      try:
        vc = generate(ct.fn, kwargs, dims, opts=opts)
      except ContractShape as e:
        res['violation'] = _witness_for_shape(ct, kwargs, seed, str(e))
        res['obligations'].append(dict(name='structure', status='violated', backend='tracing', time=0))
        return res
      except (I.Unsupported, T.TermLimit, NotImplementedError) as e:
        res['notes'].append('out of the verifier\'s reach: %s: %s' % (type(e).__name__, e))
        undecided.append(('*', 'unsupported: %s' % e))
        res['obligations'].append(dict(name='*', status='undecided', backend='', time=time.time() - t0, why=str(e)[:300]))
        continue
      res['trusted'] = sorted(set(res['trusted']) | vc.interp.trusted)
      res['assumptions'] = sorted(set(res['assumptions']) | set(vc.assume_names))
      res['loops'] = vc.interp.loops
      if not vc.obligations:
        res['status'] = 'error'
        res['notes'].append('no obligations generated')
        return res
      st, _ = prover.satisfiable(vc.assumptions, 10.0)
      if st == 'unsat':
        res['status'] = 'error'
        res['notes'].append('vacuous: assumptions unsatisfiable')
        return res
      res['precondition_sat'] = st
      assumptions = list(vc.assumptions)
      # sizes written in the harness rather than left symbolic (history lengths, numbers of variables, ...)
      suffix = ('@' + ','.join('axis=%d' % d for d in sorted(vc.ctx.fixed_axes)) if vc.ctx.fixed_axes else '') if dims is None else '@' + ','.join('%s=%s' % kv for kv in sorted(dims.items()))
      for (name, goal, lemma), hide in zip(vc.obligations, vc.hidden):
        t1 = time.time()
        try:
          s, info = prover.prove([a for a in assumptions if a not in hide] if hide else assumptions, goal, tmo, opts.get('split', 12), budget)
        except (T.TermLimit, RecursionError, I.Unsupported) as e:
          s, info = 'unknown', str(e)
        if s == 'refuted' and dims is None and not opts.get('no_fix_retry'):
          pass
        rec = dict(name=name + suffix, status=s, backend=info if isinstance(info, str) else 'z3', time=round(time.time() - t1, 3))
        res['obligations'].append(rec)
        if os.environ.get('JAXVC_TRACE'):
          print('   ', rec, flush=True)
        if s == 'proved':
          if lemma:
            assumptions.append(goal)
          continue
        undecided.append((name, s))
        if lemma:
          assumptions.append(goal)   # continue as if proved; the failure itself is recorded
        bad = None
        if s == 'refuted' and dims is not None:
          bad = replay_model(ct, kwargs, vc, info, dims, name)
        if bad is None and s == 'refuted' and dims is None:
          bad = concretise(ct, kwargs, name, opts, tmo)
        if bad is not None:
          rec['status'] = 'violated'
          res['violation'] = bad
          res['solver_time'] = prover.STATS['time']
          return res
    res['solver_queries'], res['solver_time'] = prover.STATS['queries'], prover.STATS['time']
    if undecided:
      tried, bad = search_concrete(ct, kwargs, seed, max(nrun, opts.get('fallback_runs', 150)), time.time() + opts.get('run_time', 60))
      res['bounded_runs'] = tried
      if bad is not None:
        res['violation'] = bad
        return res
      refuted = [n for n, s in undecided if s == 'refuted']
      if refuted:
        res['violation'] = dict(source='solver', failures=[(n, 'obligation refuted by the solver; no concrete failing input found') for n in refuted],
                                noinput=True)
      else:
        res['status'] = 'degraded' if tried else 'error'
        res['notes'].append('undecided obligations %s: bounded stand-in on %d inputs held' % ([n for n, _ in undecided][:5], tried))
  except Exception as e:   # noqa: BLE001
    # the real code (or the contract) raised while being traced: replay decides
    res['notes'].append('exception: %s: %s' % (type(e).__name__, str(e)[:500]))
    res['traceback'] = traceback.format_exc()[-3000:]
    last = traceback.extract_tb(e.__traceback__)[-1]
    try:
      tried, bad = search_concrete(ct, kwargs, seed, 30, time.time() + 60)
      if bad is not None:
        res['violation'] = bad
      elif isinstance(e, NameError) and '/jaxopt/' in last.filename and '/verif/' not in last.filename:
        # an undefined name in the code under contract fails on every input that reaches it
        res['violation'] = dict(source='exception', failures=[('raises', '%s: %s at %s:%d' % (
            type(e).__name__, str(e)[:300], last.filename, last.lineno))])
      elif tried:
        res['status'] = 'degraded'
      else:
        res['status'] = 'error'
    except Exception as e2:   # noqa: BLE001
      tb = traceback.extract_tb(e2.__traceback__)
      inrepo = [f for f in tb if '/jaxopt/' in f.filename and '/verif/' not in f.filename]
      mine = [f for f in tb if '/jaxopt/' in f.filename or '/verif/' in f.filename or '/jaxvc/' in f.filename]
      if 'JaxRuntimeError' in type(e2).__name__:
        res['status'] = 'error'      # the compiler or the run time gave up (memory): nothing is decided
        res['notes'].append(traceback.format_exc()[-500:])
      elif inrepo and mine and mine[-1] is not inrepo[-1]:
        # raised inside a callee stub of the contract: the code may simply be organised differently, so this decides nothing
        res['status'] = 'degraded'
        res['notes'].append('a callee stub of the contract raised: ' + traceback.format_exc()[-1500:])
      elif inrepo:
        res['violation'] = dict(source='exception', failures=[('raises', '%s: %s at %s:%d' % (
            type(e2).__name__, str(e2)[:300], inrepo[-1].filename, inrepo[-1].lineno))])
      else:
        res['status'] = 'error'
        res['notes'].append(traceback.format_exc()[-1500:])
  res['wall'] = time.time() - t0
  return res


def _witness_for_shape(ct, kwargs, seed, msg):
  tried, bad = 0, None
  try:
    tried, bad = search_concrete(ct, kwargs, seed, 5, time.time() + 60)
  except Exception:  # noqa: BLE001
    pass
  return bad or dict(source='tracing', failures=[('structure', msg)], noinput=True)


def replay_model(ct, kwargs, vc, info, dims, name):
  if not isinstance(info, tuple):
    return None
  model, zc = info
  try:
    mv, fl, tabs = model_inputs(vc, model, zc)
  except Exception:  # noqa: BLE001
    return None
  for use_tables in (True, False):
    try:
      c = ModelCtx(dims, np.random.default_rng(0), mv, fl, tabs if use_tables else {})
      r = run_concrete(ct, kwargs, c)
    except Exception as e:  # noqa: BLE001
      continue
    if r:
      return dict(dims=dims, inputs=c.used, tables={k: [(list(map(float, a)), {str(i): float(x) for i, x in d.items()}) for a, d in t]
                                                    for k, t in tabs.items()} if use_tables else {}, failures=r, source='solver model', obligation=name)
    if not tabs:
      break
  return None


def concretise(ct, kwargs, name, opts, tmo):
  """A refutation over symbolic sizes: look for a model at small sizes and replay it on the real code."""
  for d in ({'*': 1}, {'*': 2}):
    try:
      vc = generate(ct.fn, kwargs, d, opts=opts)
    except Exception:  # noqa: BLE001
      continue
    ass = list(vc.assumptions)
    for nm, goal, lemma in vc.obligations:
      if nm.split('[')[0] != name.split('[')[0]:
        continue
      try:
        s, info = prover.prove(ass, goal, tmo, opts.get('split', 12), 20)
      except Exception:  # noqa: BLE001
        continue
      if s == 'refuted':
        bad = replay_model(ct, kwargs, vc, info, d, nm)
        if bad is not None:
          return bad
  return None


def run_only(ct, label, kwargs, tier, seed):
  """Bounded stand-in alone (used when the verifier itself was stopped)."""
  res = dict(contract=ct.name, config=label, mode=ct.mode, obligations=[], status='ok', funcs=list(ct.funcs),
             assumptions=[], trusted=[], violation=None, notes=['verifier stopped: bounded stand-in only'])
  tried, bad = search_concrete(ct, kwargs, seed, ct.opts.get('fallback_runs', 150), time.time() + 50)
  res['bounded_runs'] = tried
  res['violation'] = bad
  if bad is None and not tried:
    res['status'] = 'error'
  return res


def replay_file(ct, kwargs, d):
  """Re-evaluates a recorded failing input on the current code."""
  if d.get('noinput') or 'inputs' not in d:
    return [(n, 'no failing input recorded: ' + str(x)) for n, x in d['failures']]
  rng = np.random.default_rng(0)
  import ast
  tabs = {k: [(a, {ast.literal_eval(i): x for i, x in dd.items()}) for a, dd in t] for k, t in (d.get('tables') or {}).items()}
  c = RunCtx(d['dims'], rng, values={k: np.asarray(v) for k, v in d['inputs'].items()}, tables=tabs)
  if 'seed' in d:
    c.seed = d['seed']
  return run_concrete(ct, kwargs, c)


def clear_caches():
  """Terms and solver caches are per contract."""
  jax.clear_caches()
  for f in ('reset', 'clear'):
    if hasattr(T, f):
      getattr(T, f)()
      break
