"""Discharging obligations: normal forms, case splitting, z3 (NRA), cvc5 as a second opinion."""
from __future__ import annotations
import itertools
import time
import os
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
  sys.path.append(_VT)
import z3
from . import terms as T
from .terms import Poly, Atom, B, TRUE, FALSE


class Ctx:
  """Translation context: one z3 query."""

  def __init__(self, linear=False):
    self.linear = linear      # products abstracted by fresh variables: a weaker, decidable query
    self.memo = {}
    self.bmemo = {}
    self.axioms = []
    self.pending = []
    self.zatoms = {}
    self.used_approx = False

  # ---- terms
  def poly(self, p):
    r = self.memo.get(p)
    if r is None:
      ts = []
      for m, c in sorted(p.terms.items(), key=lambda t: t[0]):
        fs = []
        if self.linear and (len(m) > 1 or (m and m[0][1] != 1)):
          z = self.zatoms.get(('mono', m))
          if z is None:
            z = self.zatoms[('mono', m)] = z3.Real('mono!%d' % len(self.zatoms))
            if all(e % 2 == 0 for _, e in m):
              self.axioms.append(z >= 0)
          ts.append(z if c == 1 else z3.RealVal(str(c)) * z)
          continue
        for i, e in m:
          a = Atom.by_id[i]
          if e > 0:
            z = self.atom(a)
            fs.extend([z] * e)
          else:
            z = self.inverse(a)
            fs.extend([z] * (-e))
        if not fs:
          ts.append(z3.RealVal(str(c)))
          continue
        t = fs[0]
        for f in fs[1:]:
          t = t * f
        if c != 1:
          t = z3.RealVal(str(c)) * t
        ts.append(t)
      r = z3.RealVal(0) if not ts else ts[0]
      for t in ts[1:]:
        r = r + t
      self.memo[p] = r
    return r

  def inverse(self, a):
    key = ('inv', a.id)
    z = self.zatoms.get(key)
    if z is None:
      z = z3.Real('inv!%d' % a.id)
      self.zatoms[key] = z
      b = self.poly(a.args[0]) if a.kind == 'poly' else self.atom(a)
      self.axioms.append(z3.Implies(b != 0, b * z == 1))
    return z

  def atom(self, a):
    z = self.zatoms.get(a.id)
    if z is not None:
      return z
    k, x = a.kind, a.args
    name = '%s!%d' % (k, a.id)
    if k in ('sym', 'dim', 'ix', 'mod', 'floor') and a.is_int:
      z = z3.ToReal(z3.Int(name))
    elif k == 'ite':
      z = z3.If(self.boolean(x[0]), self.poly(x[1]), self.poly(x[2]))
    elif k == 'uf' and a.is_int:
      z = z3.ToReal(z3.Int(name))
    elif k == 'uf' and not x[2] and all(isinstance(y, tuple) and all(isinstance(w, Poly) for w in y) for y in x[1]) \
        and sum(len(y) for y in x[1]) <= 4:
      args = [self.poly(w) for y in x[1] for w in y]
      f = z3.Function('uf!' + x[0], *([z3.RealSort()] * (len(args) + 1)))
      z = f(*args)
    else:
      z = z3.Real(name)
    self.zatoms[a.id] = z
    if self.linear and k in ('sqrt', 'exp', 'log', 'mod'):
      if k in ('sqrt', 'exp'):
        self.axioms.append(z >= 0)
      return z
    # axioms
    if k == 'sqrt':
      p = self.poly(x[0])
      self.axioms.append(z3.Implies(p >= 0, z3.And(z >= 0, z * z == p)))
    elif k == 'dim':
      self.axioms.append(z >= 1)
    elif k == 'exp':
      p = self.poly(x[0])
      self.axioms.append(z > 0)
      self.axioms.append(z >= 1 + p)
      self.axioms.append(z3.Implies(p < 1, z * (1 - p) <= 1))
      self.axioms.append(z3.Implies(p == 0, z == 1))
    elif k == 'log':
      p = self.poly(x[0])
      self.axioms.append(z3.Implies(p > 0, z <= p - 1))
      self.axioms.append(z3.Implies(p > 0, p * z >= p - 1))
      self.axioms.append(z3.Implies(p == 1, z == 0))
      self.axioms.append(z3.Implies(z3.And(p > 1), z > 0))
      self.axioms.append(z3.Implies(z3.And(p > 0, p < 1), z < 0))
    elif k == 'sum' and T._sum_nonneg(a):
      self.axioms.append(z >= 0)
    elif k == 'mod':
      p, q = self.poly(x[0]), self.poly(x[1])
      kq = z3.Int('quot!%d' % a.id)
      self.axioms.append(z3.Implies(q > 0, z3.And(z >= 0, z < q, p == q * z3.ToReal(kq) + z)))
    elif k == 'floor':
      p = self.poly(x[0])
      self.axioms.append(z3.And(z <= p, p < z + 1))
    return z

  def boolean(self, b):
    r = self.bmemo.get(b)
    if r is not None:
      return r
    k, x = b.kind, b.args
    if k == 'true':
      r = z3.BoolVal(True)
    elif k == 'false':
      r = z3.BoolVal(False)
    elif k == 'not':
      y = x[0]
      if y.kind == 'ge0':
        r = self.poly(y.args[0]) < 0
      else:
        r = z3.Not(self.boolean(y))
    elif k == 'and':
      r = z3.And(*[self.boolean(y) for y in sorted(x[0], key=lambda t: t.id)])
    elif k == 'or':
      r = z3.Or(*[self.boolean(y) for y in sorted(x[0], key=lambda t: t.id)])
    elif k == 'ge0':
      r = self.poly(x[0]) >= 0
    elif k == 'eq0':
      r = self.poly(x[0]) == 0
    else:
      r = z3.Bool('b!%d' % b.id)
    self.bmemo[b] = r
    return r


def _ix_of(terms):
  """Free index variables by dimension."""
  out = {}
  def add(fr):
    for v in fr:
      if isinstance(v, str) and not v.startswith('~'):
        out.setdefault(v.split(':')[1], set()).add(v)
  for t in terms:
    add(t.free)
  return out


class Problem:
  """assumptions: list of B (schematic in their free index variables); goal: B (generic index variables)."""

  def __init__(self, assumptions, goal):
    self.assumptions = [a for a in assumptions if a is not TRUE]
    self.goal = goal

  def ground(self, max_inst=4000):
    """Instantiate schematic assumptions and binder axioms at the index terms of the problem."""
    goal = self.goal
    skolems = {}
    base = [goal] + self.assumptions
    idx = _ix_of([goal])
    facts = []
    done = set()
    done_inst = set()
    for rnd in range(3):
      # quantifier atoms
      terms = [goal] + facts + [a for a in self.assumptions if not _ix_vars(a)]
      atoms, bools = T.atoms_of(terms)
      new = []
      for a in self.assumptions:
        vs = sorted(_ix_vars(a))
        if not vs:
          if ('a', a) not in done:
            done.add(('a', a))
            new.append(a)
          continue
        choices = []
        for v in vs:
          d = v.split(':')[1]
          choices.append(sorted(idx.get(d, ())) or ['@g:%s' % d])
        for combo in itertools.product(*choices):
          key = (a, combo)
          if key in done_inst:
            continue
          done_inst.add(key)
          if len(done_inst) > max_inst:
            break
          new.append(T.subst(a, dict(zip(vs, combo))))
      for b in bools:
        if b.kind == 'forall' and not _bound(b.free):
          (v, d), = b.args[0]
          if ('fs', b) not in done:
            done.add(('fs', b))
            sk = '@k%d:%s' % (b.id, d)
            idx.setdefault(d, set()).add(sk)
            new.append(T.bor(b, T.bnot(T.subst(b.args[1], {v: sk}))))
          for i in sorted(idx.get(d, ())):
            if ('fi', b, i) not in done:
              done.add(('fi', b, i))
              new.append(T.bor(T.bnot(b), T.subst(b.args[1], {v: i})))
      for a in atoms:
        if _bound(a.free):
          continue
        if a.kind == 'max':
          (v, d), = a.args[0]
          ap = T._atomp(a)
          if ('ms', a.id) not in done:
            done.add(('ms', a.id))
            sk = '@m%d:%s' % (a.id, d)
            idx.setdefault(d, set()).add(sk)
            new.append(T.eq(ap, T.subst(a.args[1], {v: sk})))
          for i in sorted(idx.get(d, ())):
            if ('mi', a.id, i) not in done:
              done.add(('mi', a.id, i))
              new.append(T.le(T.subst(a.args[1], {v: i}), ap))
        elif a.kind == 'mmax':
          (v, d), = a.args[0]
          ap = T._atomp(a)
          if ('ms', a.id) not in done:
            done.add(('ms', a.id))
            sk = '@m%d:%s' % (a.id, d)
            idx.setdefault(d, set()).add(sk)
            none = T.forall('~q%d' % a.id, T.bnot(T.subst(a.args[1], {v: '~q%d' % a.id})), d)
            new.append(T.bor(none, T.band(T.subst(a.args[1], {v: sk}), T.eq(ap, T.subst(a.args[2], {v: sk})))))
          for i in sorted(idx.get(d, ())):
            if ('mi', a.id, i) not in done:
              done.add(('mi', a.id, i))
              new.append(T.bor(T.bnot(T.subst(a.args[1], {v: i})), T.le(T.subst(a.args[2], {v: i}), ap)))
        elif a.kind == 'sum' and T._sum_nonneg(a) and len(a.args[0]) == 1:
          (v, d), = a.args[0]
          ap = T._atomp(a)
          for i in sorted(idx.get(d, ())):
            if ('si', a.id, i) not in done:
              done.add(('si', a.id, i))
              new.append(T.le(T.subst(Poly({a.args[1]: T.Fr(1)}), {v: i}), ap))
      new = [f for f in new if f is not TRUE]
      if not new:
        break
      facts += new
      if FALSE in new:
        break
    return facts, goal


def _ix_vars(t):
  return [v for v in t.free if isinstance(v, str) and not v.startswith('~')]


def _bound(fr):
  return any(isinstance(v, str) and v.startswith('~') for v in fr)


STATS = {'queries': 0, 'time': 0.0, 'backend': {}}


def _arg_diff(x, y, bound=()):
  """Scalars whose vanishing makes two arguments of an opaque function equal; None when not comparable."""
  if x is y or x == y:
    return []
  if isinstance(x, Poly) and isinstance(y, Poly):
    groups = {}
    for m, co in (x - y).terms.items():
      dep, ind = [], []
      for i, e in m:
        (dep if any(b in Atom.by_id[i].free for b in bound) else ind).append((i, e))
      groups.setdefault(tuple(dep), {})[tuple(ind)] = co
    if len(groups) > 3:
      return None
    return [Poly(g) for g in groups.values()]
  if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
    if x and x[0] == 'lam':
      if x[1] != y[1]:
        return None
      return _arg_diff(x[2], y[2], bound + tuple(b if isinstance(b, str) else b[0] for b in x[1]))
    out = []
    for u, v in zip(x, y):
      d = _arg_diff(u, v, bound)
      if d is None:
        return None
      out += d
    return out
  return None


def _congruence(c, limit=80):
  """Equal arguments give equal results, for the opaque applications of a query."""
  byname = {}
  for i in list(c.zatoms):
    a = Atom.by_id[i] if isinstance(i, int) else None
    if a is not None and a.kind == 'uf' and not _bound(a.free):
      byname.setdefault((a.args[0], a.args[2]), []).append(a)
  n = 0
  for _, ats in sorted(byname.items(), key=lambda t: str(t[0])):
    ats.sort(key=lambda a: a.id)
    for a, b in itertools.combinations(ats, 2):
      d = _arg_diff(a.args[1], b.args[1])
      if d is None or len(d) > 6 or any(_bound(p.free) for p in d) or any(not p.free and len(p.terms) == 1 and () in p.terms for p in d):
        continue
      n += 1
      if n > limit:
        return
      c.axioms.append(z3.Implies(z3.And(*[c.poly(p) == 0 for p in d]), c.atom(a) == c.atom(b)))


def _check(facts, goal, timeout, want_model=False, tactic=None, linear=False):
  c = Ctx(linear)
  zs = [c.boolean(f) for f in facts]
  g = z3.Not(c.boolean(goal))
  _congruence(c)
  if tactic:
    s = z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'solve-eqs', tactic).solver() if tactic == 'qfnra-nlsat' else z3.Tactic(tactic).solver()
  else:
    s = z3.Solver()
  s.set('timeout', int(timeout * 1000))
  s.add(*zs)
  s.add(g)
  s.add(*c.axioms)
  t = time.time()
  try:
    r = s.check()
  except z3.Z3Exception:
    r = z3.unknown
  STATS['queries'] += 1
  STATS['time'] += time.time() - t
  if r == z3.unsat:
    return 'unsat', None
  if r == z3.sat:
    return 'sat', (s.model(), c)
  return 'unknown', None


def _ite_conds(ts):
  atoms, bools = T.atoms_of(ts)
  cs = {}
  for a in atoms:
    if a.kind == 'ite' and not _bound(a.args[0].free):
      for lit in _literals(a.args[0]):
        cs[lit] = cs.get(lit, 0) + 1
  return cs


def _opaque_ite(ts):
  """Is some opaque function applied to a conditional argument?  Its applications may coincide after a case split."""
  atoms, bools = T.atoms_of(ts)
  for a in atoms:
    if a.kind == 'uf' and any(x.kind == 'ite' for x in T.atoms_of(list(a.args[1]))[0]):
      return True
  return any(b.kind == 'ufb' for b in bools)


def _abstract(ts):
  """exp and log are only axiomatised in part: a model of the axioms refutes nothing."""
  return any(a.kind in ('exp', 'log') for a in T.atoms_of(ts)[0])


def _literals(b):
  if b.kind in ('and', 'or'):
    for y in b.args[0]:
      yield from _literals(y)
  elif b.kind == 'not':
    yield from _literals(b.args[0])
  elif b.kind not in ('true', 'false'):
    yield b


def _assign_all(ts, b, v):
  return [T.assign(t, {b: v}) for t in ts]


def prove(assumptions, goal, timeout=10.0, split_depth=12, budget=60.0):
  """Returns (status, info): status in proved / refuted / unknown; info = backend name or model."""
  t0 = time.time()
  if goal is TRUE:
    return 'proved', 'normal-form'
  if goal.kind == 'and':
    back = set()
    for g in sorted(goal.args[0], key=lambda t: t.id):
      st, info = prove(assumptions, g, timeout, split_depth, max(1.0, budget - (time.time() - t0)))
      if st != 'proved':
        return st, info
      back.add(info)
    return 'proved', '+'.join(sorted(back))
  if goal.kind == 'eq0' and T.is_zero(goal.args[0]) :
    return 'proved', 'normal-form'
  pb = Problem(assumptions, goal)
  facts, goal = pb.ground()
  if FALSE in facts:
    return 'proved', 'normal-form'
  st, info = _prove_ground(facts, goal, timeout, split_depth, t0 + budget)
  return st, info


def _simp_ground(facts, goal):
  """Propagate unit literals among facts (also from a negated implication goal)."""
  for _ in range(6):
    units = {}
    for f in facts:
      for l in (f.args[0] if f.kind == 'and' else [f]):
        if l.kind == 'not':
          units[l.args[0]] = False
        elif l.kind not in ('true', 'false', 'or', 'and'):
          units[l] = True
    neg = [x for x in (goal.args[0] if goal.kind == 'or' else [])]
    for l in neg:
      # goal is a disjunction: assume the negation of each literal that is a condition (not the eq itself)
      if l.kind == 'not':
        units.setdefault(l.args[0], True)
    conds = _ite_conds([goal] + facts)
    relevant = {b: v for b, v in units.items() if b in conds}
    if not relevant:
      return facts, goal
    nf = []
    for f in facts:
      if f.kind == 'not' and f.args[0] in relevant or f in relevant or (f.kind == 'and'):
        nf.append(f)
      else:
        nf.append(T.assign(f, relevant))
    lits = [l for l in neg if l.kind == 'not' and l.args[0] in relevant]
    if goal.kind == 'or':
      goal2 = T.bor(*[l if l in lits else T.assign(l, relevant) for l in neg])
    else:
      goal2 = goal if (goal in relevant or (goal.kind == 'not' and goal.args[0] in relevant)) else T.assign(goal, relevant)
    if goal2 is goal and nf == facts:
      return facts, goal
    facts, goal = nf, goal2
  return facts, goal


def _exp_literal(facts, l):
  """sum_i c_i log(b_i) + r  compared with 0, every b_i > 0: the equivalent comparison of prod b_i^c_i e^r with 1."""
  y = l.args[0] if l.kind == 'not' else l
  if y.kind not in ('eq0', 'ge0'):
    return l
  p = y.args[0]
  logs, rest, den = [], T.ZERO, 1
  for m, c in p.terms.items():
    ats = [Atom.by_id[i] for i, _ in m]
    if any(a.kind == 'log' for a in ats):
      if len(m) != 1 or m[0][1] != 1:
        return l
      logs.append((ats[0].args[0], c))
      den = den * c.denominator // __import__('math').gcd(den, c.denominator)
    else:
      rest = rest + Poly({m: c})
  if not logs or any(abs(c * den) > 4 for _, c in logs):
    return l
  for b, _ in logs:
    g = T.gt0(b)
    if g is not TRUE and _check(facts, g, 1.0)[0] != 'unsat':
      return l
  up, down = T.exp(rest.scale(den)), T.ONE
  for b, c in logs:
    k = int(c * den)
    if k > 0:
      up = up * b ** k
    else:
      down = down * b ** -k
  q = T.eq0(up - down) if y.kind == 'eq0' else T.ge0(up - down)
  return T.bnot(q) if l.kind == 'not' else q


def _has_log(g):
  ls = g.args[0] if g.kind in ('or', 'and') else [g]
  return any((l.args[0] if l.kind == 'not' else l).kind in ('eq0', 'ge0') and any(Atom.by_id[i].kind == 'log' for m in (l.args[0] if l.kind == 'not' else l).args[0].terms for i, _ in m) for l in ls)


def _prove_ground(facts, goal, timeout, depth, deadline):
  if _has_log(goal) and not _ite_conds([goal]):
    g2 = _exp_literal(facts, goal) if goal.kind not in ('or', 'and') else T.bor(*[_exp_literal(facts, l) for l in goal.args[0]]) if goal.kind == 'or' else goal
    if g2 is not goal:
      st, info = _prove_ground(facts, g2, timeout, depth, deadline)
      if st == 'proved':
        return st, info
  if goal is TRUE or FALSE in facts:
    return 'proved', 'normal-form'
  if goal.kind == 'eq0' and T.is_zero(goal.args[0]):
    return 'proved', 'normal-form'
  if goal.kind == 'or':
    for l in goal.args[0]:
      if l.kind == 'eq0' and T.is_zero(l.args[0]):
        return 'proved', 'normal-form'
  st, m = _check(facts, goal, 1.0, linear=True)
  if st == 'unsat':
    return 'proved', 'z3-linear'
  if _algebraic(facts, goal):
    return 'proved', 'ideal-membership'
  quick = min(timeout, 2.0) if depth > 0 else timeout
  st, m = _check(facts, goal, quick)
  if st == 'unsat':
    return 'proved', 'z3'
  conds = (_ite_conds([goal]) or _ite_conds(facts)) if depth > 0 else {}
  soft = _abstract([goal] + facts)
  if st == 'sat' and not (conds and (soft or _opaque_ite([goal] + facts))):
    return ('unknown', 'model of the partial exp/log axioms') if soft else ('refuted', m)
  if time.time() > deadline:
    return 'unknown', 'budget'
  # case split
  if depth > 0:
    if conds:
      b = sorted(conds, key=lambda c: (-conds[c], c.id))[0]
      back = set()
      order = (True, False)
      if st == 'sat' and z3.is_false(m[0].eval(m[1].boolean(b), model_completion=True)):
        order = (False, True)              # follow the candidate counterexample first
      for v in order:
        lit = b if v else T.bnot(b)
        f2 = _assign_all(facts, b, v)
        f2 = [f for f in f2 if f is not TRUE] + [lit]
        g2 = T.assign(goal, {b: v})
        fs, _ = _check(f2, FALSE, 1.0)
        if fs == 'unsat':
          continue
        st, info = _prove_ground(f2, g2, timeout, depth - 1, deadline)
        if st != 'proved':
          return st, info
        back.add(info)
      return 'proved', '+'.join(sorted(back)) if back else 'z3'
  left = max(1.0, min(timeout, deadline - time.time()))
  st, m = _check(facts, goal, left, tactic='qfnra-nlsat')
  if st == 'unsat':
    return 'proved', 'z3-nlsat'
  if st == 'sat':
    return ('unknown', 'model of the partial exp/log axioms') if soft else ('refuted', m)
  left = max(1.0, min(timeout, deadline - time.time()))
  st, m = _check(facts, goal, left)
  if st == 'unsat':
    return 'proved', 'z3'
  if st == 'sat':
    return ('unknown', 'model of the partial exp/log axioms') if soft else ('refuted', m)
  st = _cvc5(facts, goal, max(1.0, min(timeout, deadline - time.time())))
  if st == 'unsat':
    return 'proved', 'cvc5'
  return 'unknown', 'timeout'


# ---- equational reasoning: p = sum_i q_i e_i over the equality facts e_i, found by sparse linear algebra
_PRIME = (1 << 61) - 1


def _eqs(facts):
  for f in facts:
    for l in (f.args[0] if f.kind == 'and' else [f]):
      if l.kind == 'eq0':
        yield l.args[0]
      elif l.kind == 'or' and len(l.args[0]) <= 4 and all(x.kind == 'eq0' for x in l.args[0]):
        r = T.const(1)                         # a product that vanishes
        for x in l.args[0]:
          r = r * x.args[0]
        yield r


def _num(p):
  try:
    return T.ratio(p)[0]
  except T.TermLimit:
    return None


def _divides(m, n):
  """n / m as a monomial, or None."""
  d = dict(n)
  for i, e in m:
    x = d.get(i, 0) - e
    if x < 0:
      return None
    if x:
      d[i] = x
    else:
      del d[i]
  return tuple(sorted(d.items()))


def _solve_comb(target, rows):
  """target = sum c_k rows[k] exactly?  Gaussian elimination modulo a prime, then an exact check on the support."""
  def modp(p):
    return {m: (c.numerator * pow(c.denominator, -1, _PRIME)) % _PRIME for m, c in p.items()}
  piv = {}
  order = []
  for k, r in enumerate(rows):
    v, comb = modp(r), {k: 1}
    v, comb = _reduce(v, comb, piv)
    if v:
      h = max(v)
      iv = pow(v[h], -1, _PRIME)
      piv[h] = ({m: c * iv % _PRIME for m, c in v.items()}, {a: c * iv % _PRIME for a, c in comb.items()})
      order.append(h)
  v, comb = _reduce(modp(target), {}, piv)
  if v:
    return False
  sup = sorted(comb)
  # exact solve restricted to the support
  piv = {}
  for k in sup:
    w = _reduce_exact(dict(rows[k]), piv)
    if w:
      h = max(w)
      piv[h] = {m: c / w[h] for m, c in w.items()}
  return not _reduce_exact(dict(target), piv)


def _reduce(v, comb, piv):
  import heapq
  v, comb = dict(v), dict(comb)
  todo = [m for m in v if m in piv]
  while todo:
    h = max(todo)
    c = v.get(h, 0)
    if c:
      pv, pc = piv[h]
      for m, x in pv.items():
        y = (v.get(m, 0) - c * x) % _PRIME
        if y:
          v[m] = y
        else:
          v.pop(m, None)
      for k, x in pc.items():
        comb[k] = (comb.get(k, 0) - c * x) % _PRIME
    todo = [m for m in v if m in piv]
  return v, {k: x for k, x in comb.items() if x}


def _reduce_exact(v, piv):
  todo = [m for m in v if m in piv]
  while todo:
    h = max(todo)
    c = v[h]
    for m, x in piv[h].items():
      y = v.get(m, 0) - c * x
      if y:
        v[m] = y
      else:
        v.pop(m, None)
    todo = [m for m in v if m in piv]
  return v


def _algebraic(facts, goal, rounds=4, limit=700, tlimit=4.0):
  """Does the goal equation follow from the equality facts by multiplying and adding them?"""
  t0 = time.time()
  lits = list(goal.args[0]) if goal.kind == 'or' else [goal]
  goals = [l.args[0] for l in lits if l.kind == 'eq0']
  if not goals:
    return False
  facts = list(facts) + [l.args[0] for l in lits if l.kind == 'not']
  eqs = []
  for e in _eqs(facts):
    n = _num(e)
    if n is not None and n.terms and len(n.terms) <= 60 and not any(x[1] < 0 for m in n.terms for x in m):
      eqs.append(n.terms)
  if not eqs:
    return False
  for i in sorted({i for e in eqs for m in e for i, _ in m}):
    a = Atom.by_id[i]
    if a.kind == 'sqrt' and not any(x[1] < 0 for m in a.args[0].terms for x in m):
      d = {((i, 2),): T.Fr(1)}                 # sqrt(q)^2 = q, as in the normal form
      for m, c in a.args[0].terms.items():
        d[m] = d.get(m, 0) - c
      eqs.append(d)
  index = {}
  for k, e in enumerate(eqs):
    for m in e:
      for i, _ in (m or ((None, 0),)):
        index.setdefault(i, set()).add(k)
  for g in goals:
    n = _num(g)
    if n is None or not n.terms or len(n.terms) > 400 or any(x[1] < 0 for m in n.terms for x in m):
      continue
    target = n.terms
    monos = set(target)
    front = set(target)
    seen, rows = set(), []
    for _ in range(rounds):
      new = set()
      for m in sorted(front):
        ks = set()
        for i, _e in m:
          ks |= index.get(i, set())
        for k in sorted(ks):
          for em in eqs[k]:
            if not em:
              continue
            t = _divides(em, m)
            if t is None or (k, t) in seen:
              continue
            seen.add((k, t))
            row = {}
            for m2, c in eqs[k].items():
              d = dict(t)
              for i, e in m2:
                d[i] = d.get(i, 0) + e
              mm = tuple(sorted(d.items()))
              row[mm] = row.get(mm, 0) + c
            rows.append(row)
            new |= set(row)
        if len(rows) > limit or time.time() - t0 > tlimit:
          break
      if rows and _solve_comb(target, rows):
        return True
      front = new - monos
      monos |= new
      if not front or len(rows) > limit or time.time() - t0 > tlimit:
        break
  return False


def _cvc5(facts, goal, timeout):
  import subprocess, shutil
  exe = shutil.which('cvc5')
  if not exe:
    return 'unknown'
  c = Ctx()
  zs = [c.boolean(f) for f in facts]
  s = z3.Solver()
  s.add(*zs)
  s.add(z3.Not(c.boolean(goal)))
  s.add(*c.axioms)
  txt = '(set-logic ALL)\n' + s.to_smt2()
  t = time.time()
  try:
    p = subprocess.run([exe, '--lang=smt2', '--nl-cov', '--tlimit=%d' % int(timeout * 1000)], input=txt, text=True,
                       capture_output=True, timeout=timeout + 5)
    out = p.stdout.split()
  except Exception:
    out = []
  STATS['queries'] += 1
  STATS['time'] += time.time() - t
  return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'


def satisfiable(assumptions, timeout=10.0):
  """Vacuity check: are the assumptions satisfiable?"""
  facts, _ = Problem(assumptions, FALSE).ground()
  if FALSE in facts:
    return 'unsat', None
  st, m = _check(facts, FALSE, timeout)
  if st == 'unknown':
    st, m = _check(facts, FALSE, timeout, tactic='qfnra-nlsat')
  return {'sat': 'sat', 'unsat': 'unsat'}.get(st, 'unknown'), m


# ---- model values
def model_value(m, c, p):
  v = m.eval(c.poly(p), model_completion=True)
  return z3num(v)


def z3num(v):
  if z3.is_rational_value(v):
    return float(v.numerator_as_long()) / float(v.denominator_as_long()) if abs(v.numerator_as_long()) < 2**1000 else float('nan')
  if z3.is_algebraic_value(v):
    a = v.approx(20)
    return float(a.numerator_as_long()) / float(a.denominator_as_long())
  if z3.is_int_value(v):
    return float(v.as_long())
  return 0.0
