"""Term language of the verification-condition generator.

Real (and integer) terms are polynomials with rational coefficients over hash-consed atoms, kept in a
normal form; Booleans are hash-consed formulas over sign conditions of such polynomials.  Arrays whose
dimension is symbolic are represented by the term of their generic entry: atoms then mention *index
variables* (strings starting with '@' for an axis position, '~' when bound by a Sum/Max/ForAll).
"""
from __future__ import annotations
from fractions import Fraction as Fr
import itertools
import math

__all__ = ['Poly', 'Atom', 'B', 'TRUE', 'FALSE', 'const', 'sym', 'isym', 'ite', 'ge0', 'gt0', 'eq0',
           'lt', 'le', 'eq', 'bnot', 'band', 'bor', 'bxor', 'biff', 'bite', 'bsym', 'forall', 'sum_over',
           'max_over', 'sqrt', 'exp', 'log', 'inv', 'uf', 'ufb', 'subst', 'atoms_of', 'bools_of', 'dim_term',
           'is_zero', 'free_ix', 'ix_term', 'imod', 'ifloor', 'assign', 'pw', 'TermLimit', 'set_limit', 'ratio']


class TermLimit(Exception):
  pass


MAX_TERMS = [60000]


def set_limit(n):
  MAX_TERMS[0] = n


# ------------------------------------------------------------------ atoms
class Atom:
  """kinds: sym(name,idx) | ite(c,a,b) | sqrt(p) | exp(mono-poly) | log(p) | poly(p) | sum(binders,mono)
  | max(binders,p) | uf(name,args,idx) | dim(name) | ix(var) | mod(p,q) | floor(p) | pow(p,q)"""
  __slots__ = ('id', 'kind', 'args', 'free', 'is_int', '_str')
  table = {}
  by_id = []

  def __init__(self, kind, args, free, is_int):
    self.kind, self.args, self.free, self.is_int = kind, args, free, is_int
    self.id = len(Atom.by_id)
    self._str = None
    Atom.by_id.append(self)

  @staticmethod
  def make(kind, args, free, is_int=False):
    key = (kind, args)
    a = Atom.table.get(key)
    if a is None:
      a = Atom(kind, args, free, is_int)
      Atom.table[key] = a
    return a

  def __repr__(self):
    if self._str is None:
      self._str = _atom_str(self)
    return self._str


def _atom_str(a):
  k, x = a.kind, a.args
  if k == 'sym':
    return x[0] + (('[%s]' % ','.join(map(str, x[1]))) if x[1] else '')
  if k == 'ite':
    return 'ite(%s, %s, %s)' % x
  if k == 'sum':
    return 'Sum{%s}(%s)' % (','.join('%s:%s' % b for b in x[0]), _mono_str(x[1]))
  if k == 'uf':
    return '%s%s(%s)' % (x[0], list(x[2]) if x[2] else '', ', '.join(map(_arg_str, x[1])))
  if k == 'poly':
    return '(%s)' % (x[0],)
  return '%s(%s)' % (k, ', '.join(map(str, x)))


def _arg_str(x):
  if isinstance(x, tuple):
    return '<' + ','.join(map(_arg_str, x)) + '>'
  return str(x)


def _mono_str(m):
  return '*'.join(('%r' % Atom.by_id[i]) + ('^%d' % e if e != 1 else '') for i, e in m) or '1'


# ------------------------------------------------------------------ polynomials
class Poly:
  __slots__ = ('terms', '_hash', '_free', '_aset')

  def __init__(self, terms):
    self.terms = terms
    self._hash = None
    self._free = None
    self._aset = None

  def __hash__(self):
    if self._hash is None:
      self._hash = hash(frozenset(self.terms.items()))
    return self._hash

  def __eq__(self, o):
    return self is o or (isinstance(o, Poly) and hash(self) == hash(o) and self.terms == o.terms)

  def __ne__(self, o):
    return not self == o

  @property
  def free(self):
    if self._free is None:
      f = frozenset()
      for m in self.terms:
        for i, _ in m:
          f |= Atom.by_id[i].free
      self._free = f
    return self._free

  def is_const(self):
    return not self.terms or (len(self.terms) == 1 and () in self.terms)

  def cval(self):
    return self.terms.get((), Fr(0))

  def __repr__(self):
    if not self.terms:
      return '0'
    out = []
    for m, c in sorted(self.terms.items(), key=lambda t: str(t[0])):
      s = _mono_str(m)
      if s == '1':
        out.append(str(c))
      elif c == 1:
        out.append(s)
      else:
        out.append('%s*%s' % (c, s))
    return ' + '.join(out)

  def __add__(self, o):
    o = _P(o)
    if not self.terms:
      return o
    if not o.terms:
      return self
    a, b = self.terms, o.terms
    if len(a) < len(b):
      a, b = b, a
    d = dict(a)
    for m, c in b.items():
      v = d.get(m)
      if v is None:
        d[m] = c
      else:
        v = v + c
        if v:
          d[m] = v
        else:
          del d[m]
    if len(d) > MAX_TERMS[0]:
      raise TermLimit('polynomial with %d terms' % len(d))
    return Poly(d)
  __radd__ = __add__

  def __neg__(self):
    return Poly({m: -c for m, c in self.terms.items()})

  def __sub__(self, o):
    return self + (-_P(o))

  def __rsub__(self, o):
    return _P(o) + (-self)

  def scale(self, c):
    if c == 0:
      return ZERO
    if c == 1:
      return self
    return Poly({m: c * v for m, v in self.terms.items()})

  def __mul__(self, o):
    o = _P(o)
    if self.is_const():
      return o.scale(self.cval())
    if o.is_const():
      return self.scale(o.cval())
    key = (self, o) if id(self) < id(o) else (o, self)
    r = _mul_cache.get(key)
    if r is None:
      if len(self.terms) * len(o.terms) > 4 * MAX_TERMS[0]:
        raise TermLimit('product of %d x %d terms' % (len(self.terms), len(o.terms)))
      r = _mul(self, o)
      _mul_cache[key] = r
    return r
  __rmul__ = __mul__

  def __pow__(self, k):
    assert isinstance(k, int)
    if k < 0:
      return inv(self ** (-k))
    r, b = ONE, self
    while k:
      if k & 1:
        r = r * b
      k >>= 1
      if k:
        b = b * b
    return r


_mul_cache = {}
ZERO = Poly({})
ONE = Poly({(): Fr(1)})


def _P(x):
  if isinstance(x, Poly):
    return x
  return const(x)


def const(x):
  if isinstance(x, Poly):
    return x
  if isinstance(x, float):
    x = Fr(repr(x))
  else:
    x = Fr(x)
  return Poly({(): x}) if x else ZERO


def _atomp(a):
  return Poly({((a.id, 1),): Fr(1)})


def sym(name, idx=(), is_int=False):
  return _atomp(Atom.make('sym', (name, tuple(idx)), frozenset(i for i in idx if isinstance(i, str)), is_int))


def isym(name, idx=()):
  return sym(name, idx, True)


def dim_term(name):
  return _atomp(Atom.make('dim', (name,), frozenset(), True))


def ix_term(v):
  if isinstance(v, int):
    return const(v)
  return _atomp(Atom.make('ix', (v,), frozenset([v]), True))


SPECIAL = ('ite', 'sqrt', 'poly')


def _mul(p, q):
  acc = {}
  extra = ZERO
  for m1, c1 in p.terms.items():
    for m2, c2 in q.terms.items():
      m, special = _mul_mono(m1, m2)
      c = c1 * c2
      if special:
        extra = extra + _norm_mono(m).scale(c)
      else:
        v = acc.get(m, 0) + c
        if v:
          acc[m] = v
        else:
          acc.pop(m, None)
  r = Poly(acc)
  return r + extra if extra.terms else r


def _mul_mono(m1, m2):
  """Merge two monomials; special is True when the result needs renormalising."""
  if not m1:
    return m2, False
  if not m2:
    return m1, False
  d = dict(m1)
  special = False
  nite = 0
  for i, e in m2:
    if i in d:
      ne = d[i] + e
      k = Atom.by_id[i].kind
      if k in SPECIAL:
        special = True
      if ne:
        d[i] = ne
      else:
        del d[i]
    else:
      d[i] = e
  conds = set()
  for i in d:
    a = Atom.by_id[i]
    if a.kind == 'ite':
      c = a.args[0]
      if c in conds:
        special = True
      conds.add(c)
  return tuple(sorted(d.items())), special


def _norm_mono(m):
  """Polynomial denoted by a monomial whose special atoms may need reduction."""
  plain = {}
  factors = []
  ites = {}
  for i, e in m:
    a = Atom.by_id[i]
    if a.kind == 'ite':
      ites.setdefault(a.args[0], []).append((a, e))
    elif a.kind == 'sqrt' and e not in (1,):
      k, r = divmod(e, 2)
      factors.append(a.args[0] ** k if k >= 0 else inv(a.args[0]) ** (-k))
      if r:
        plain[i] = 1
    elif a.kind == 'poly' and e > 0:
      factors.append(a.args[0] ** e)
    else:
      plain[i] = e
  r = Poly({tuple(sorted(plain.items())): Fr(1)})
  for c, lst in ites.items():
    if len(lst) == 1 and lst[0][1] == 1:
      factors.append(_atomp(lst[0][0]))
      continue
    t, f = ONE, ONE
    for a, e in lst:
      t = t * (a.args[1] ** e)
      f = f * (a.args[2] ** e)
    factors.append(ite(c, t, f))
  for f in factors:
    r = r * f
  return r


def inv(p):
  p = _P(p)
  if p.is_const():
    if not p.terms:
      return ZERO  # irrelevant: guarded by flags
    return const(1 / p.cval())
  if len(p.terms) == 1:
    (m, c), = p.terms.items()
    r = ONE
    plain = {}
    fac = []
    for i, e in m:
      a = Atom.by_id[i]
      if a.kind == 'ite':
        x = ite(a.args[0], inv(a.args[1]), inv(a.args[2]))
        fac.append(x ** e if e > 0 else _atomp(a) ** (-e))
      elif a.kind == 'sqrt':
        fac.append(_norm_mono(((i, -e),)))
      elif a.kind == 'poly':
        fac.append(a.args[0] ** (-e))
      else:
        plain[i] = -e
    r = Poly({tuple(sorted(plain.items())): 1 / c})
    for f in fac:
      r = r * f
    return r
  # factor the common monomial and the leading coefficient
  ms = list(p.terms)
  common = dict(ms[0])
  for m in ms[1:]:
    dm = dict(m)
    for i in list(common):
      e = min(common[i], dm.get(i, 0)) if common[i] > 0 else max(common[i], dm.get(i, 0))
      if (common[i] > 0) != (dm.get(i, 0) > 0) or e == 0:
        del common[i]
      else:
        common[i] = e
  # only pull out atoms that are safe to divide by syntactically (no special kinds)
  for i in list(common):
    if Atom.by_id[i].kind in SPECIAL and Atom.by_id[i].kind != 'poly':
      del common[i]
  lead = p.terms[min(ms, key=_mono_key)]
  cm = tuple(sorted(common.items()))
  icm = tuple((i, -e) for i, e in cm)
  q = {}
  for m, c in p.terms.items():
    mm, _ = _mul_mono(m, icm)
    q[mm] = c / lead
  q = Poly(q)
  # remaining negative exponents stay inside q
  a = Atom.make('poly', (q,), q.free)
  r = Poly({((a.id, -1),): 1 / lead})
  if icm:
    r = r * _norm_mono_pub(icm)
  return r


def _norm_mono_pub(m):
  return _norm_mono(m)


def _mono_key(m):
  return (len(m), m)


# ------------------------------------------------------------------ booleans
class B:
  """kinds: true false not and or ge0 eq0 bsym ufb forall"""
  __slots__ = ('kind', 'args', 'free', 'id')
  table = {}

  @staticmethod
  def make(kind, args, free):
    key = (kind, args)
    b = B.table.get(key)
    if b is None:
      b = B()
      b.kind, b.args, b.free, b.id = kind, args, free, len(B.table)
      B.table[key] = b
    return b

  def __repr__(self):
    k = self.kind
    if k in ('true', 'false'):
      return k
    if k == 'not':
      return '!(%r)' % (self.args[0],)
    if k in ('and', 'or'):
      return '(' + (' & ' if k == 'and' else ' | ').join(sorted(map(repr, self.args[0]))) + ')'
    if k == 'ge0':
      return '%r >= 0' % (self.args[0],)
    if k == 'eq0':
      return '%r == 0' % (self.args[0],)
    if k == 'bsym':
      return self.args[0] + (str(list(self.args[1])) if self.args[1] else '')
    if k == 'forall':
      return 'forall %s. %r' % self.args
    return '%s%r' % (k, self.args)


TRUE = B.make('true', (), frozenset())
FALSE = B.make('false', (), frozenset())


def bconst(x):
  return TRUE if x else FALSE


def bsym(name, idx=()):
  return B.make('bsym', (name, tuple(idx)), frozenset(i for i in idx if isinstance(i, str)))


def ufb(name, args, idx=()):
  f = frozenset(i for i in idx if isinstance(i, str))
  for a in args:
    f |= _arg_free(a)
  return B.make('ufb', (name, tuple(args), tuple(idx)), f)


def bnot(a):
  if a is TRUE:
    return FALSE
  if a is FALSE:
    return TRUE
  if a.kind == 'not':
    return a.args[0]
  return B.make('not', (a,), a.free)


def band(*xs):
  s = set()
  for x in xs:
    if x is FALSE:
      return FALSE
    if x is TRUE:
      continue
    if x.kind == 'and':
      s |= x.args[0]
    else:
      s.add(x)
  for x in s:
    if x.kind == 'not' and x.args[0] in s:
      return FALSE
  if not s:
    return TRUE
  if len(s) == 1:
    return next(iter(s))
  fs = frozenset(s)
  return B.make('and', (fs,), frozenset().union(*[x.free for x in fs]))


def bor(*xs):
  s = set()
  for x in xs:
    if x is TRUE:
      return TRUE
    if x is FALSE:
      continue
    if x.kind == 'or':
      s |= x.args[0]
    else:
      s.add(x)
  for x in s:
    if x.kind == 'not' and x.args[0] in s:
      return TRUE
  if not s:
    return FALSE
  if len(s) == 1:
    return next(iter(s))
  fs = frozenset(s)
  return B.make('or', (fs,), frozenset().union(*[x.free for x in fs]))


def bite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if a is TRUE:
    return bor(c, b)
  if a is FALSE:
    return band(bnot(c), b)
  if b is TRUE:
    return bor(bnot(c), a)
  if b is FALSE:
    return band(c, a)
  return bor(band(c, a), band(bnot(c), b))


def biff(a, b):
  if a is b:
    return TRUE
  return bor(band(a, b), band(bnot(a), bnot(b)))


def bxor(a, b):
  return bnot(biff(a, b))


def implies(a, b):
  return bor(bnot(a), b)


_POSITIVE_KINDS = ('exp',)


def _sign(p):
  """Cheap syntactic sign: '+' (>0), '0+' (>=0), '-' (<0), '0-' (<=0), '0', or None."""
  if not p.terms:
    return '0'
  pos = neg = True
  strict = False
  for m, c in p.terms.items():
    s = True
    st = True
    for i, e in m:
      a = Atom.by_id[i]
      if a.kind == 'exp':
        continue
      if a.kind == 'dim':
        continue
      if a.kind == 'sqrt' or e % 2 == 0 or (a.kind == 'sum' and _sum_nonneg(a)):
        st = False
        continue
      s = False
      break
    if not s:
      return None
    if c > 0:
      neg = False
    else:
      pos = False
    if not (pos or neg):
      return None
    strict = strict or st
  if pos:
    return '+' if strict else '0+'
  return '-' if strict else '0-'


def _sum_nonneg(a):
  """Sum atom whose summand monomial is a product of squares / positive atoms."""
  return all(e % 2 == 0 or Atom.by_id[i].kind in ('exp', 'sqrt', 'dim') for i, e in a.args[1])


def _normal_scale(p):
  lead = p.terms[min(p.terms, key=_mono_key)]
  return lead


def ge0(p):
  """p >= 0"""
  p = _P(p)
  if p.is_const():
    return bconst(p.cval() >= 0)
  if _single_ite(p):
    a = _single_ite(p)
    return bite(a.args[0], ge0(_repl_ite(p, a, 1)), ge0(_repl_ite(p, a, 2)))
  s = _sign(p)
  if s in ('+', '0+'):
    return TRUE
  if s == '-':
    return FALSE
  i = _common_divisor(p)
  if i is not None:
    # sign of q/d from the signs of q and d (1/0 is unspecified and guarded elsewhere: read as 0)
    d = Atom.by_id[i].args[0]
    q = Poly({tuple(x for x in m if x[0] != i): c for m, c in p.terms.items()})
    return bor(band(gt0(d), ge0(q)), band(gt0(-d), ge0(-q)), eq0(d))
  l = abs(_normal_scale(p))
  p = p.scale(1 / l)
  return B.make('ge0', (p,), p.free)


def _common_divisor(p):
  """A denominator (an atom for a polynomial) shared, to the power one, by all the monomials of p."""
  ids = None
  for m in p.terms:
    t = {i for i, e in m if e == -1 and Atom.by_id[i].kind == 'poly'}
    ids = t if ids is None else ids & t
    if not ids:
      return None
  return max(ids) if ids else None


def gt0(p):
  return bnot(ge0(-_P(p)))


def eq0(p):
  p = _P(p)
  if p.is_const():
    return bconst(p.cval() == 0)
  if _single_ite(p):
    a = _single_ite(p)
    return bite(a.args[0], eq0(_repl_ite(p, a, 1)), eq0(_repl_ite(p, a, 2)))
  if _sign(p) in ('+', '-'):
    return FALSE
  p = p.scale(1 / _normal_scale(p))
  if len(p.terms) == 1:
    # product is zero iff a factor is zero
    (m, c), = p.terms.items()
    if len(m) > 1 or m[0][1] != 1:
      return bor(*[eq0(_atomp(Atom.by_id[i])) for i, e in m if Atom.by_id[i].kind != 'exp'])
    a = Atom.by_id[m[0][0]]
    if a.kind == 'sqrt':
      return eq0(a.args[0])
    if a.kind == 'poly' :
      return eq0(a.args[0])
  return B.make('eq0', (p,), p.free)


def _single_ite(p):
  """If p = c0 + c*ite(...) with constant branches return that ite atom (keeps conditions readable)."""
  if len(p.terms) > 2:
    return None
  found = None
  for m, c in p.terms.items():
    if not m:
      continue
    if len(m) == 1 and m[0][1] == 1 and Atom.by_id[m[0][0]].kind == 'ite' and found is None:
      found = Atom.by_id[m[0][0]]
    else:
      return None
  if found is not None and (found.args[1].is_const() or found.args[2].is_const() or _ite_depth_ok(found)):
    return found
  return None


def _ite_depth_ok(a):
  return True


def _repl_ite(p, a, k):
  r = ZERO
  for m, c in p.terms.items():
    if m and m[0][0] == a.id:
      r = r + a.args[k].scale(c)
    else:
      r = r + Poly({m: c})
  return r


def le(a, b):
  return ge0(_P(b) - a)


def lt(a, b):
  return gt0(_P(b) - a)


def eq(a, b):
  return eq0(_P(a) - b)


def ite(c, a, b):
  a, b = _P(a), _P(b)
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a == b:
    return a
  if c.kind == 'not':
    return ite(c.args[0], b, a)
  # simplify branches under the condition (shallow)
  a, b = _under(a, c, True), _under(b, c, False)
  if a == b:
    return a
  if c.kind == 'ge0':
    # max/min: the branches agree where the condition changes, so its strictness and direction do not matter
    p = c.args[0]
    if _normal_scale(p) < 0 and _multiple(a - b, p):
      c, a, b = ge0(-p), b, a
  q = b if a.is_const() else a
  isint = poly_is_int(a) and poly_is_int(b)
  if not q.is_const():   # one orientation and scale: -min(x, 0) and max(-x, 0) are the same term
    k = _normal_scale(q)
    if isint:
      k = Fr(-1 if k < 0 else 1)
    if k != 1:
      return ite(c, a.scale(1 / k), b.scale(1 / k)).scale(k)
  at = Atom.make('ite', (c, a, b), c.free | a.free | b.free, isint)
  return _atomp(at)


def _multiple(d, p):
  """d = k p for a constant k"""
  if len(d.terms) != len(p.terms):
    return False
  m = min(p.terms, key=_mono_key)
  return m in d.terms and d == p.scale(d.terms[m] / p.terms[m])


def poly_is_int(p):
  return all(c.denominator == 1 and all(e > 0 and Atom.by_id[i].is_int for i, e in m) for m, c in p.terms.items())


def _under(p, c, val):
  """Replace top-level ite atoms on condition c (or, when c = (q >= 0) is false, on -q >= 0) by the selected branch."""
  sel = {}
  for m in p.terms:
    for i, _ in m:
      a = Atom.by_id[i]
      if a.kind == 'ite':
        if a.args[0] is c:
          sel[i] = a.args[1 if val else 2]
        elif not val and c.kind == 'ge0' and a.args[0].kind == 'ge0' and a.args[0].args[0] == -c.args[0]:
          sel[i] = a.args[1]
  if not sel:
    return p
  r = ZERO
  for m, co in p.terms.items():
    t = const(co)
    for i, e in m:
      a = Atom.by_id[i]
      if i in sel:
        t = t * (sel[i] ** e)
      else:
        t = t * _norm_mono(((i, e),))
    r = r + t
  return r


# ------------------------------------------------------------------ functions
def sqrt(p):
  p = _P(p)
  if p.is_const():
    c = p.cval()
    if c < 0:
      return ZERO
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
      return const(Fr(n, d))
  if _whole_ite(p):
    a = _whole_ite(p)
    return ite(a.args[0], sqrt(a.args[1]), sqrt(a.args[2]))
  if len(p.terms) == 1:
    # sqrt(c * x^2) = sqrt(c)*|x|
    (m, c), = p.terms.items()
    if c > 0 and m and all(e % 2 == 0 for _, e in m):
      x = Poly({tuple((i, e // 2) for i, e in m): Fr(1)})
      return sqrt(const(c)) * ite(ge0(x), x, -x)
  a = Atom.make('sqrt', (p,), p.free)
  return _atomp(a)


def _whole_ite(p):
  if len(p.terms) == 1:
    (m, c), = p.terms.items()
    if len(m) == 1 and m[0][1] == 1 and c == 1 and Atom.by_id[m[0][0]].kind == 'ite':
      return Atom.by_id[m[0][0]]
  return None


def exp(p):
  p = _P(p)
  r = ONE
  for m, c in p.terms.items():
    # ite exponents with constant coefficient are lifted
    if len(m) == 1 and m[0][1] == 1:
      a = Atom.by_id[m[0][0]]
      if a.kind == 'ite':
        r = r * ite(a.args[0], exp(a.args[1].scale(c)), exp(a.args[2].scale(c)))
        continue
      if a.kind == 'log' and c.denominator == 1:
        r = r * (a.args[0] ** int(c))
        continue
    base = Poly({m: Fr(1, c.denominator)})
    at = Atom.make('exp', (base,), base.free)
    r = r * Poly({((at.id, c.numerator),): Fr(1)})
  return r


def log(p):
  p = _P(p)
  if p.is_const() and p.cval() == 1:
    return ZERO
  if _whole_ite(p):
    a = _whole_ite(p)
    return ite(a.args[0], log(a.args[1]), log(a.args[2]))
  # pull out common exp factors
  ms = list(p.terms)
  if ms:
    common = {i: e for i, e in ms[0] if Atom.by_id[i].kind == 'exp'}
    for m in ms[1:]:
      dm = dict(m)
      for i in list(common):
        e2 = dm.get(i, 0)
        e = common[i]
        if e > 0 and e2 > 0:
          common[i] = min(e, e2)
        elif e < 0 and e2 < 0:
          common[i] = max(e, e2)
        else:
          del common[i]
    if common:
      icm = tuple(sorted((i, -e) for i, e in common.items()))
      q = Poly({_mul_mono(m, icm)[0]: c for m, c in p.terms.items()})
      r = log(q)
      for i, e in common.items():
        r = r + Atom.by_id[i].args[0].scale(e)
      return r
    # 1 + exp(-t) style: normalise so that the first exp atom has positive power  (log(1+e^-t) = log(1+e^t) - t)
    neg = sorted(i for m in ms for i, e in m if Atom.by_id[i].kind == 'exp' and e < 0)
    if neg:
      i = neg[0]
      e = min(dict(m).get(i, 0) for m in ms)
      if e < 0:
        up = ((i, -e),)
        q = Poly({_mul_mono(m, up)[0]: c for m, c in p.terms.items()})
        return log(q) + Atom.by_id[i].args[0].scale(e)
  a = Atom.make('log', (p,), p.free)
  return _atomp(a)


def pw(p, q):
  p, q = _P(p), _P(q)
  if q.is_const():
    c = q.cval()
    if c.denominator == 1:
      return p ** int(c)
    if c.denominator == 2:
      return sqrt(p) ** c.numerator
  return _atomp(Atom.make('pow', (p, q), p.free | q.free))


def imod(p, q):
  """floor-mod for q > 0 (integers)"""
  p, q = _P(p), _P(q)
  if p.is_const() and q.is_const() and q.cval() != 0:
    return const(p.cval() % q.cval())
  return _atomp(Atom.make('mod', (p, q), p.free | q.free, True))


def ifloor(p):
  p = _P(p)
  if p.is_const():
    return const(p.cval().numerator // p.cval().denominator)
  if poly_is_int(p):
    return p
  return _atomp(Atom.make('floor', (p,), p.free, True))


def _arg_free(a):
  if isinstance(a, (Poly, B)):
    return a.free
  if isinstance(a, tuple):
    f = frozenset()
    if a and a[0] == 'lam':      # ('lam', binders, term)
      return a[2].free - frozenset(a[1])
    for x in a:
      f |= _arg_free(x)
    return f
  return frozenset()


def uf(name, args, idx=(), is_int=False):
  """Uninterpreted function; args: nested tuples of Poly/B/('lam', binders, term); idx: output entry."""
  f = frozenset(i for i in idx if isinstance(i, str))
  for a in args:
    f |= _arg_free(a)
  return _atomp(Atom.make('uf', (name, tuple(args), tuple(idx)), f, is_int))


# ------------------------------------------------------------------ binders
def _atoms_top(p):
  s = set()
  for m in p.terms:
    for i, _ in m:
      s.add(i)
  return [Atom.by_id[i] for i in s]


def _find_free_cond(p, v, depth=0):
  """An index-free (w.r.t. v) ite condition guarding something that depends on v."""
  for a in _atoms_top(p):
    if v not in a.free:
      continue
    if a.kind == 'ite':
      c = a.args[0]
      if v not in c.free:
        return c
      d = _cond_part(c, v)
      if d is not None:
        return d
      for q in a.args[1:]:
        r = _find_free_cond(q, v, depth + 1)
        if r is not None:
          return r
    elif a.kind in ('poly', 'sqrt', 'exp', 'log'):
      r = _find_free_cond(a.args[0], v, depth + 1)
      if r is not None:
        return r
    elif a.kind == 'uf':
      for q in _arg_polys(a.args[1]):
        r = _find_free_cond(q, v, depth + 1)
        if r is not None:
          return r
  return None


def _arg_polys(args):
  for x in args:
    if isinstance(x, Poly):
      yield x
    elif isinstance(x, tuple):
      yield from _arg_polys(x)


def _cond_part(c, v):
  if v not in c.free:
    return c if c.kind not in ('true', 'false') else None
  if c.kind == 'not':
    return _cond_part(c.args[0], v)
  if c.kind in ('and', 'or'):
    for x in sorted(c.args[0], key=lambda t: t.id):
      r = _cond_part(x, v)
      if r is not None:
        return r
  return None


def sum_over(v, p, dim):
  """Sum over index variable v (ranging over dimension `dim`, a name) of p."""
  p = _P(p)
  if v not in p.free:
    return p * dim_term(dim)
  c = _find_free_cond(p, v)
  if c is not None:
    return ite(c, sum_over(v, assign(p, {c: True}), dim), sum_over(v, assign(p, {c: False}), dim))
  r = ZERO
  for m, co in p.terms.items():
    dep, ind = [], []
    for i, e in m:
      (dep if v in Atom.by_id[i].free else ind).append((i, e))
    out = Poly({tuple(ind): co})
    if not dep:
      out = out * dim_term(dim)
    else:
      out = out * _sum_mono([v + ':' + dim if ':' not in v else v], tuple(dep), v, dim)
    r = r + out
  return r


_bcount = itertools.count()


def _sum_mono(binders, mono, v, dim):
  # rename v to a fresh bound name, flatten nested sums
  fresh = '~s%d' % next(_bcount)
  bs = [(fresh, dim)]
  co, m = _rename_mono(mono, {v: fresh})
  flat = []
  for i, e in m:
    a = Atom.by_id[i]
    if a.kind == 'sum' and e == 1:
      ren = {}
      for b, d in a.args[0]:
        f2 = '~s%d' % next(_bcount)
        ren[b] = f2
        bs.append((f2, d))
      c2, m2 = _rename_mono(a.args[1], ren)
      co *= c2
      flat.extend(m2)
    else:
      flat.append((i, e))
  d = {}
  for i, e in flat:
    d[i] = d.get(i, 0) + e
  # connected components
  items = list(d.items())
  names = [b for b, _ in bs]
  comp = {b: {b} for b in names}
  for i, e in items:
    fs = [b for b in names if b in Atom.by_id[i].free]
    for b in fs[1:]:
      u = comp[fs[0]] | comp[b]
      for x in u:
        comp[x] = u
  r = const(co)
  done = set()
  for b in names:
    if b in done:
      continue
    cset = comp[b]
    done |= cset
    sub = [(i, e) for i, e in items if Atom.by_id[i].free & cset]
    cb = [(x, dd) for x, dd in bs if x in cset]
    if not sub:
      for _, dd in cb:
        r = r * dim_term(dd)
      continue
    r = r * _canon_sum(cb, tuple(sub))
  rest = [(i, e) for i, e in items if not (Atom.by_id[i].free & set(names))]
  if rest:
    r = r * Poly({tuple(sorted(rest)): Fr(1)})
  return r


def _canon_sum(bs, mono):
  best = None
  k = len(bs)
  for perm in itertools.permutations(range(k)) if k <= 3 else [tuple(range(k))]:
    ren = {bs[perm[j]][0]: '~%d' % j for j in range(k)}
    co, mm = _rename_mono(mono, ren)
    mm = tuple(sorted(mm))
    bb = tuple(('~%d' % j, bs[perm[j]][1]) for j in range(k))
    key = (tuple(d for _, d in bb), mm)
    if best is None or key < best[0]:
      best = (key, bb, mm, co)
  _, bb, mm, co = best
  fr = frozenset()
  for i, _ in mm:
    fr |= Atom.by_id[i].free
  fr -= frozenset(b for b, _ in bb)
  return _atomp(Atom.make('sum', (bb, mm), fr)).scale(co)


def _rename_mono(mono, ren):
  """(coefficient, monomial): an atom may come back with another sign or scale (normalisation of `ite` atoms)"""
  out, co = [], Fr(1)
  for i, e in mono:
    a = Atom.by_id[i]
    if a.free & set(ren):
      p = subst(_atomp(a), ren)
      (m, c), = p.terms.items()
      co *= c ** e
      if len(m) == 1 and m[0][1] == 1:
        out.append((m[0][0], e))
      else:
        out.extend((j, x * e) for j, x in m)
    else:
      out.append((i, e))
  return co, tuple(out)


def max_over(v, p, dim):
  p = _P(p)
  if v not in p.free:
    return p
  c = _find_free_cond(p, v)
  if c is not None:
    return ite(c, max_over(v, assign(p, {c: True}), dim), max_over(v, assign(p, {c: False}), dim))
  ind = Poly({m: c for m, c in p.terms.items() if not any(v in Atom.by_id[i].free for i, _ in m)})
  dep = p - ind
  # positive constant scaling
  q = subst(dep, {v: '~0'})
  a = Atom.make('max', ((('~0', dim),), q), q.free - {'~0'})
  return _atomp(a) + ind


def masked_max(v, mask, p, dim):
  """Maximum of p over the indices where mask holds (an arbitrary but fixed number when there is none)."""
  p = _P(p)
  if v not in mask.free:
    return max_over(v, p, dim)
  p = assign(p, {mask: True}) if mask.kind != 'not' else assign(p, {mask.args[0]: False})
  q, m = subst(p, {v: '~0'}), subst(mask, {v: '~0'})
  return _atomp(Atom.make('mmax', ((('~0', dim),), m, q), (q.free | m.free) - {'~0'}))


def forall(v, b, dim):
  if v not in b.free:
    return b
  if b.kind == 'and':
    return band(*[forall(v, x, dim) for x in b.args[0]])
  if b.kind == 'or':
    ind = [x for x in b.args[0] if v not in x.free]
    if ind:
      dep = [x for x in b.args[0] if v in x.free]
      return bor(forall(v, bor(*dep), dim), *ind)
  bb = subst(b, {v: '~0'})
  return B.make('forall', ((('~0', dim),), bb), bb.free - {'~0'})


# ------------------------------------------------------------------ substitution
def subst(t, ren, memo=None):
  """Rename/instantiate index variables: ren maps index variable -> index variable or int."""
  ren = {k: v for k, v in ren.items() if k != v}
  if not ren:
    return t
  return _Rebuild(ren, None)(t)


def assign(t, bmap):
  """Replace Boolean conditions by truth values (dict B -> bool) everywhere and renormalise."""
  if not bmap:
    return t
  bm = {}
  for b, v in bmap.items():
    if b.kind == 'not':
      b, v = b.args[0], not v
    bm[b] = v
  return _Rebuild({}, bm)(t)


def replace_atoms(t, amap):
  """Replace atoms (by id) with polynomials."""
  return _Rebuild({}, None, amap)(t)


class _Rebuild:
  def __init__(self, ren, bmap, amap=None):
    self.ren, self.bmap, self.amap = ren, bmap, amap
    self.keys = frozenset(ren)
    self.memo = {}

  def skip(self, free):
    return self.bmap is None and self.amap is None and not (free & self.keys)

  def __call__(self, t):
    if isinstance(t, Poly):
      return self.poly(t)
    if isinstance(t, B):
      return self.boolean(t)
    if isinstance(t, tuple):
      if t and t[0] == 'lam':
        ren2 = {k: v for k, v in self.ren.items() if k not in t[1]}
        sub = _Rebuild(ren2, self.bmap, self.amap) if ren2 != self.ren else self
        return ('lam', t[1], sub(t[2]))
      r = tuple(self(x) for x in t)
      if len(r) == 4 and isinstance(r[0], Poly) and r[1] is FALSE and r[2] is FALSE and r[3] is FALSE:
        return r[0]      # value whose special flags became false
      return r
    return t

  def poly(self, p):
    if self.skip(p.free):
      return p
    r = self.memo.get(p)
    if r is not None:
      return r
    r = {}
    extra = ZERO
    for m, c in p.terms.items():
      if self.bmap is None and self.amap is None and not any(Atom.by_id[i].free & self.keys for i, _ in m):
        r[m] = r.get(m, 0) + c
        continue
      t = const(c)
      for i, e in m:
        a = self.atom(Atom.by_id[i])
        if e == 1:
          t = t * a
        elif e > 0:
          t = t * a ** e
        else:
          t = t * inv(a) ** (-e)
      extra = extra + t
    r = Poly({m: c for m, c in r.items() if c}) + extra
    self.memo[p] = r
    return r

  def ix(self, v):
    return self.ren.get(v, v) if isinstance(v, str) else v

  def atom(self, a):
    if self.amap is not None and a.id in self.amap:
      return self.amap[a.id]
    if self.skip(a.free):
      return _atomp(a)
    r = self.memo.get(('a', a.id))
    if r is not None:
      return r
    k, x = a.kind, a.args
    if k == 'sym':
      r = sym(x[0], tuple(self.ix(v) for v in x[1]), a.is_int)
    elif k == 'ix':
      r = ix_term(self.ix(x[0]))
    elif k == 'dim':
      r = _atomp(a)
    elif k == 'ite':
      c = self.boolean(x[0])
      if c is TRUE:
        r = self.poly(x[1])
      elif c is FALSE:
        r = self.poly(x[2])
      else:
        r = ite(c, self.poly(x[1]), self.poly(x[2]))
    elif k == 'sqrt':
      r = sqrt(self.poly(x[0]))
    elif k == 'exp':
      r = exp(self.poly(x[0]))
    elif k == 'log':
      r = log(self.poly(x[0]))
    elif k == 'poly':
      r = self.poly(x[0])
    elif k == 'mod':
      r = imod(self.poly(x[0]), self.poly(x[1]))
    elif k == 'floor':
      r = ifloor(self.poly(x[0]))
    elif k == 'pow':
      r = pw(self.poly(x[0]), self.poly(x[1]))
    elif k == 'uf':
      r = uf(x[0], tuple(self(y) for y in x[1]), tuple(self.ix(v) for v in x[2]), a.is_int)
      r = lift_uf(r)
    elif k == 'sum':
      body = ONE
      inner = Poly({x[1]: Fr(1)})
      # bound names are '~k': they may clash with substituted ranges only if those start with '~'
      if any(isinstance(v, str) and v.startswith('~') for v in self.ren.values()):
        fr = {b: '~f%d' % next(_bcount) for b, _ in x[0]}
        inner = subst(inner, fr)
        bs = [(fr[b], d) for b, d in x[0]]
      else:
        bs = list(x[0])
      r = self.poly(inner) if not self._clash(bs) else None
      if r is None:
        r = _Rebuild({k2: v for k2, v in self.ren.items() if k2 not in [b for b, _ in bs]}, self.bmap, self.amap).poly(inner)
      for b, d in bs:
        r = sum_over(b, r, d)
    elif k == 'max':
      (b, d), = x[0]
      f = '~f%d' % next(_bcount)
      inner = subst(x[1], {b: f})
      r = max_over(f, self.poly(inner), d)
    elif k == 'mmax':
      (b, d), = x[0]
      f = '~f%d' % next(_bcount)
      r = masked_max(f, self.boolean(subst(x[1], {b: f})), self.poly(subst(x[2], {b: f})), d)
    else:
      raise NotImplementedError(k)
    self.memo[('a', a.id)] = r
    return r

  def _clash(self, bs):
    return any(b in self.ren for b, _ in bs)

  def boolean(self, b):
    if self.bmap is not None:
      v = self.bmap.get(b)
      if v is not None:
        return TRUE if v else FALSE
    if self.skip(b.free):
      return b
    r = self.memo.get(b)
    if r is not None:
      return r
    k, x = b.kind, b.args
    if k in ('true', 'false'):
      r = b
    elif k == 'not':
      r = bnot(self.boolean(x[0]))
    elif k == 'and':
      r = band(*[self.boolean(y) for y in x[0]])
    elif k == 'or':
      r = bor(*[self.boolean(y) for y in x[0]])
    elif k == 'ge0':
      r = ge0(self.poly(x[0]))
    elif k == 'eq0':
      r = eq0(self.poly(x[0]))
    elif k == 'bsym':
      r = bsym(x[0], tuple(self.ix(v) for v in x[1]))
    elif k == 'ufb':
      r = lift_ufb(x[0], tuple(self(y) for y in x[1]), tuple(self.ix(v) for v in x[2]))
    elif k == 'forall':
      (v, d), = x[0]
      f = '~f%d' % next(_bcount)
      r = forall(f, self.boolean(subst(x[1], {v: f})), d)
    else:
      raise NotImplementedError(k)
    if self.bmap is not None and r is not b:
      v = self.bmap.get(r)
      if v is not None:
        r = TRUE if v else FALSE
    self.memo[b] = r
    return r


def lift_uf(p, limit=6):
  """Lift ite conditions (not depending on the lambda binders) out of the arguments of a single UF atom."""
  if len(p.terms) != 1:
    return p
  (m, c), = p.terms.items()
  if len(m) != 1 or c != 1 or m[0][1] != 1:
    return p
  a = Atom.by_id[m[0][0]]
  if a.kind != 'uf' or limit == 0:
    return p
  cond = _uf_cond(a.args[1])
  if cond is None:
    return p
  t = lift_uf(assign(p, {cond: True}), limit - 1) if False else None
  name, args, idx = a.args
  rt, rf = _Rebuild({}, {cond: True}), _Rebuild({}, {cond: False})
  pt = uf(name, tuple(rt(x) for x in args), idx, a.is_int)
  pf = uf(name, tuple(rf(x) for x in args), idx, a.is_int)
  return ite(cond, lift_uf(pt, limit - 1), lift_uf(pf, limit - 1))


def lift_ufb(name, args, idx, limit=6):
  """The Boolean analogue of lift_uf."""
  cond = _uf_cond(args) if limit else None
  if cond is None:
    return ufb(name, args, idx)
  rt, rf = _Rebuild({}, {cond: True}), _Rebuild({}, {cond: False})
  return bite(cond, lift_ufb(name, tuple(rt(x) for x in args), idx, limit - 1), lift_ufb(name, tuple(rf(x) for x in args), idx, limit - 1))


def _uf_cond(args):
  for x in args:
    c = _uf_cond1(x, ())
    if c is not None:
      return c
  return None


def _uf_cond1(x, binders):
  if isinstance(x, tuple):
    if x and x[0] == 'lam':
      return _uf_cond1(x[2], binders + tuple(x[1]))
    for y in x:
      c = _uf_cond1(y, binders)
      if c is not None:
        return c
    return None
  if isinstance(x, Poly):
    for a in _atoms_top(x):
      if a.kind == 'ite':
        c = a.args[0]
        if not (c.free & set(binders)):
          return c
  if isinstance(x, B) and x.kind not in ('true', 'false') and not (x.free & set(binders)):
    return x if x.kind != 'not' else x.args[0]
  return None


def free_ix(t):
  return t.free


# ------------------------------------------------------------------ traversal
def atoms_of(ts):
  """All atoms reachable from a list of terms (including inside bodies)."""
  seen = {}
  bseen = {}
  stack = list(ts)
  while stack:
    t = stack.pop()
    if isinstance(t, Poly):
      for m in t.terms:
        for i, _ in m:
          if i not in seen:
            a = Atom.by_id[i]
            seen[i] = a
            k, x = a.kind, a.args
            if k == 'sum':
              stack.append(Poly({x[1]: Fr(1)}))
            elif k == 'max':
              stack.append(x[1])
            else:
              stack.extend(y for y in x if isinstance(y, (Poly, B, tuple)))
    elif isinstance(t, B):
      if t in bseen:
        continue
      bseen[t] = True
      if t.kind in ('and', 'or'):
        stack.extend(t.args[0])
      else:
        stack.extend(y for y in t.args if isinstance(y, (Poly, B, tuple)))
    elif isinstance(t, tuple):
      stack.extend(y for y in t if isinstance(y, (Poly, B, tuple)))
  return list(seen.values()), list(bseen)


def bools_of(ts):
  return atoms_of(ts)[1]


# ------------------------------------------------------------------ rational-function identity
def ratio(p):
  """(numerator, denominator factors) after clearing negative exponents of `poly` and plain atoms."""
  p = _P(p)
  dens = []
  for _ in range(200):
    worst = {}
    for m in p.terms:
      for i, e in m:
        if e < 0:
          worst[i] = min(worst.get(i, 0), e)
    if not worst:
      return p, dens
    i = max(worst)          # newest atom first: it may contain older ones
    e = -worst[i]
    a = Atom.by_id[i]
    base = a.args[0] if a.kind == 'poly' else _atomp(a)
    dens.append((base, e))
    acc = ZERO
    for m, c in p.terms.items():
      dm = dict(m)
      x = dm.pop(i, 0) + e
      t = Poly({tuple(sorted(dm.items())): c})
      if x:
        t = t * (base ** x)
      acc = acc + t
    p = acc
  raise TermLimit('denominators')


def is_zero(p):
  p = _P(p)
  if not p.terms:
    return True
  try:
    n, _ = ratio(p)
  except TermLimit:
    return False
  return not n.terms
