"""Mutation campaign: small syntactic changes to the library, each run against the checks that list the function.

  mutate.py [--per N] [--seed S] [--jobs J] [--files GLOB] [--out FILE]   (works in scratch copies under /tmp)"""
import argparse, ast, collections, concurrent.futures as cf, fnmatch, glob, json, os, random, shutil, subprocess, sys, time

V = '/verif'
SRC = '/repo/jaxopt/_src'
COST = {}
TASKS = collections.defaultdict(dict)


def mapping():
  m = collections.defaultdict(set)
  byfile = collections.defaultdict(set)
  for f in glob.glob('/tmp/ran/P*.json'):
    q = os.path.basename(f)[:3]
    for task, wall, ran in json.load(open(f)):
      for x in ran:
        TASKS[x].setdefault(q, []).append((wall, task))
  for f in sorted(glob.glob(V + '/evidence/*.json')):
    d = json.load(open(f))
    COST[d['property']] = d['wall_s']
    for x in d['coverage']['functions_under_contract']:
      m[x].add(d['property'])
    for x in d['coverage']['functions_executed']:
      byfile[x].add(d['property'])
  return m, byfile


def functions(tree, pre=''):
  for c in tree.body:
    if isinstance(c, ast.FunctionDef):
      yield pre + c.name, c
    elif isinstance(c, ast.ClassDef):
      yield from functions(c, pre + c.name + '.')


SWAP = {'jnp.maximum': 'jnp.minimum', 'jnp.minimum': 'jnp.maximum', 'jnp.logical_and': 'jnp.logical_or', 'jnp.logical_or': 'jnp.logical_and',
        'tree_add': 'tree_sub', 'tree_sub': 'tree_add', 'jnp.sum': 'jnp.mean', 'jnp.max': 'jnp.min', 'jnp.min': 'jnp.max', 'jnp.argmax': 'jnp.argmin',
        'jnp.zeros_like': 'jnp.ones_like', 'jnp.all': 'jnp.any', 'jnp.any': 'jnp.all', 'tree_zeros_like': 'tree_ones_like', 'jnp.abs': '(lambda x: x)',
        'tree_map': None}


def mutants(src, fn):
  """Yields (description, line, start, end, replacement) with absolute offsets."""
  lines = src.split('\n')
  offs = [0]
  for l in lines:
    offs.append(offs[-1] + len(l.encode()) + 1)
  pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
  b = src.encode()
  txt = lambda n: b[slice(*pos(n))].decode()
  skip = set()
  for n in ast.walk(fn):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      skip |= set(map(id, ast.walk(n)))
    if isinstance(n, ast.If) and 'verbose' in txt(n.test):
      skip |= set(map(id, ast.walk(n)))
    if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr)):
      skip |= set(map(id, ast.walk(n)))
    if isinstance(n, ast.Call) and txt(n.func).split('.')[-1] in ('log_info', '_log_info', '_cond_print', 'print', 'warn', 'isinstance', 'hasattr'):
      skip |= set(map(id, ast.walk(n)))
    if isinstance(n, ast.arguments):
      for a in n.args + n.kwonlyargs:
        if a.annotation:
          skip |= set(map(id, ast.walk(a.annotation)))
    if isinstance(n, ast.FunctionDef) and n.returns:
      skip |= set(map(id, ast.walk(n.returns)))
  def rep(n, new, what):
    s, e = pos(n)
    return ('%s: `%s` -> `%s`' % (what, txt(n)[:80].replace('\n', ' '), new[:80].replace('\n', ' ')), n.lineno, s, e, new)
  assigned = collections.Counter()
  for n in ast.walk(fn):
    if id(n) in skip:
      continue
    if isinstance(n, ast.BinOp):
      a, c = txt(n.left), txt(n.right)
      sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.MatMult: None, ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '*'}.get(type(n.op))
      if sw and not isinstance(n.left, ast.Constant) or sw and not isinstance(getattr(n.left, 'value', None), str):
        par = lambda t: '(%s)' % t
        yield rep(n, '(%s %s %s)' % (par(a), sw, par(c)), 'op')
        yield rep(n, '(%s)' % a, 'drop right')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
      yield rep(n, '(%s)' % txt(n.operand), 'drop unary')
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
      a, c = txt(n.left), txt(n.comparators[0])
      sw = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is']}.get(type(n.ops[0]), [])
      for o in sw:
        yield rep(n, '(%s %s %s)' % (a, o, c), 'cmp')
    elif isinstance(n, ast.BoolOp):
      o = ' or ' if isinstance(n.op, ast.And) else ' and '
      yield rep(n, '(' + o.join('(%s)' % txt(v) for v in n.values) + ')', 'bool')
    elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, type(None), bytes)) and n.value is not Ellipsis:
      if isinstance(n.value, bool):
        yield rep(n, str(not n.value), 'const')
      elif n.value in (0, 1, 2, -1, 0.0, 1.0, 0.5, 2.0):
        yield rep(n, {0: '1', 1: '0' if isinstance(n.value, int) else '0.5', 2: '1', -1: '0', 0.5: '1.0'}[n.value], 'const')
      elif isinstance(n.value, (int, float)):
        yield rep(n, '(%r * 2)' % n.value, 'const')
    elif isinstance(n, ast.Call):
      f = txt(n.func)
      if SWAP.get(f):
        yield rep(n.func, SWAP[f], 'fun')
      if f in ('jnp.where', 'tree_where', 'jnp.clip') and len(n.args) == 3:
        yield rep(n, '%s(%s, %s, %s)' % (f, txt(n.args[0]), txt(n.args[2]), txt(n.args[1])), 'swap branches')
      elif len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and f not in ('partial', 'getattr'):
        parts = [txt(a) for a in n.args]
        parts[0], parts[1] = parts[1], parts[0]
        parts += [('%s=%s' % (k.arg, txt(k.value))) if k.arg else '**' + txt(k.value) for k in n.keywords]
        yield rep(n, '%s(%s)' % (f, ', '.join(parts)), 'swap args')
      for i, k in enumerate(n.keywords):
        if k.arg:
          parts = [txt(a) for a in n.args] + [('%s=%s' % (q.arg, txt(q.value))) if q.arg else '**' + txt(q.value) for j, q in enumerate(n.keywords) if j != i]
          yield rep(n, '%s(%s)' % (f, ', '.join(parts)), 'drop keyword ' + k.arg)
      if any(isinstance(a, ast.Starred) for a in n.args) and len(n.keywords) <= 1:
        st = [k for k in n.keywords if k.arg is None]
        if st:
          yield rep(n, '%s(%s)' % (f, ', '.join(txt(a) for a in n.args)), 'drop **')
    elif isinstance(n, ast.If):
      yield rep(n.test, 'not (%s)' % txt(n.test), 'negate if')
    elif isinstance(n, ast.IfExp):
      yield rep(n, '(%s if %s else %s)' % (txt(n.orelse), txt(n.test), txt(n.body)), 'swap ifexp')
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
      assigned[n.targets[0].id] += 1
      if assigned[n.targets[0].id] > 1 or n.targets[0].id in [a.arg for a in fn.args.args]:
        yield rep(n, 'pass', 'drop assignment')
    elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('state', 'self') and isinstance(n.ctx, ast.Load):
      pass


def build(a):
  m, byfile = mapping()
  rng = random.Random(a.seed)
  todo = []
  for f in sorted(glob.glob(SRC + '/**/*.py', recursive=True)):
    stem = f[len('/repo/'):-3].replace('/', '.')
    if stem.endswith(('test_util', '__init__')) or not fnmatch.fnmatch(stem, a.files):
      continue
    src = open(f).read()
    for name, fn in functions(ast.parse(src)):
      full = stem + '.' + name
      cost = lambda p: sum(w for w, _ in TASKS[full].get(p, [(COST[p], '')]))
      props = sorted(m[full], key=cost) + [p for p in sorted(byfile[full] - m[full], key=cost) if cost(p) < 60]
      ms = []
      for x in mutants(src, fn):
        new = src.encode()[:x[2]] + x[4].encode() + src.encode()[x[3]:]
        try:
          t = ast.parse(new)
        except SyntaxError:
          continue
        ms.append((x, new))
      k = min(len(ms), max(1, a.per * (fn.end_lineno - fn.lineno + 10) // 20)) if a.per else len(ms)
      for x, new in rng.sample(ms, k):
        todo.append(dict(file=f, fn=full, desc=x[0], line=x[1], new=new.decode(), props=props[:8]))
  rng.shuffle(todo)
  return todo


def one(i, t):
  w = '/tmp/mut/w%d' % i
  shutil.rmtree(w, ignore_errors=True)
  os.makedirs(w)
  shutil.copytree('/repo/jaxopt', w + '/jaxopt', ignore=shutil.ignore_patterns('__pycache__'))
  p = w + t['file'][len('/repo'):]
  open(p, 'w').write(t['new'])
  env = dict(os.environ, JAXVC_REPO=w, PYTHONPATH=w, VERIF_SEED='1', VERIF_TIER='quick')
  env.pop('OUT', None)
  r = dict(t, result='SURVIVED', by=None)
  t0 = time.time()
  n = subprocess.run(['/opt/venv/bin/python', '-c', 'import jaxopt'], env=dict(env, JAX_PLATFORMS='cpu'), capture_output=True)
  if n.returncode:
    r['result'] = 'import'
  else:
    notes = []
    for q in t['props']:
      only = []
      if q in TASKS[t['fn']]:
        json.dump([x for _, x in TASKS[t['fn']][q]], open(w + '/only.json', 'w'))
        only = ['--only', '@' + w + '/only.json']
      try:
        n = subprocess.run([w.replace('/w%d' % i, '/verif%d' % (i % 16)) + '/check.sh', q] + only, env=env, capture_output=True, text=True, timeout=400)
      except subprocess.TimeoutExpired:
        notes.append(q + ':timeout')
        continue
      if n.returncode == 1:
        r['result'], r['by'] = 'caught', q
        r['noinput'] = 'no-failing-input-found' in n.stdout
        break
      tail = [l for l in n.stdout.splitlines() if 'contract configurations' in l]
      if n.returncode == 2 or tail and not (' 0 degraded' in tail[-1] and ' 0 errors' in tail[-1]):
        notes.append('%s:rc%d:%s' % (q, n.returncode, tail[-1] if tail else ''))
    if r['result'] != 'caught' and notes:
      r['result'] = 'SURVIVED?'
    r['notes'] = notes
  r['s'] = round(time.time() - t0)
  r.pop('new')
  shutil.rmtree(w, ignore_errors=True)
  return r


if __name__ == '__main__':
  ap = argparse.ArgumentParser()
  ap.add_argument('--per', type=int, default=1)
  ap.add_argument('--seed', type=int, default=0)
  ap.add_argument('--jobs', type=int, default=3)
  ap.add_argument('--files', default='*')
  ap.add_argument('--out', default='/tmp/mut/out.jsonl')
  ap.add_argument('--count', action='store_true')
  a = ap.parse_args()
  todo = build(a)
  print(len(todo), 'mutants; no check:', len([t for t in todo if not t['props']]), flush=True)
  if a.count:
    sys.exit()
  os.makedirs('/tmp/mut', exist_ok=True)
  import queue, threading
  free = queue.Queue()
  for j in range(a.jobs):
    v = '/tmp/mut/verif%d' % j
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(V, v, ignore=shutil.ignore_patterns('seeded', '.git', '__pycache__'))
    free.put(j)
  lock = threading.Lock()
  def go(t):
    j = free.get()
    try:
      r = one(j, t)
    finally:
      free.put(j)
    with lock:
      open(a.out, 'a').write(json.dumps(r) + '\n')
  with cf.ThreadPoolExecutor(a.jobs) as ex:
    list(ex.map(go, todo))
  print('done')
