"""Check runner:  python -m jaxvc.run P01 [--tier quick|thorough] [--only name] [--strict] | --replay FILE

Schedules the contracts of one property over worker processes (each with a hard time limit), writes
evidence/<id>.json and replay files, prints VIOLATION / KNOWN-FINDING lines and sets the exit code:
0 held, 1 violated, 2 no answer."""
import argparse
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JAXVC_REPO', '/repo')


def load(pid):
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  from . import vc
  importlib.import_module('jaxvc.contracts.%s' % pid.lower())
  return vc


class Ran:
  """Records which functions of the library actually ran (were traced or executed) for a contract."""

  def __init__(self):
    self.names, self.root = set(), os.path.realpath(os.path.join(REPO, 'jaxopt', '_src')) + os.sep
    m = sys.monitoring
    try:
      m.use_tool_id(m.PROFILER_ID, 'jaxvc')
      m.register_callback(m.PROFILER_ID, m.events.PY_START, self.start)
      m.set_events(m.PROFILER_ID, m.events.PY_START)
    except ValueError:
      pass

  def start(self, code, offset):
    f = os.path.realpath(code.co_filename) if 'jaxopt' in code.co_filename else ''
    if f.startswith(self.root):
      q = code.co_qualname.split('.<locals>')[0]
      if '<' not in q:
        self.names.add('jaxopt._src.' + f[len(self.root):-3].replace(os.sep, '.') + '.' + q)
    return sys.monitoring.DISABLE

  def take(self):
    out, self.names = sorted(self.names), set()
    sys.monitoring.restart_events()
    return out


def _worker(pid, tier, seed, conn):
  os.environ['JAX_PLATFORMS'] = 'cpu'
  import resource
  resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
  sys.setrecursionlimit(20000)
  # keep the library's own prints out of the check's output
  devnull = open(os.devnull, 'w')
  os.dup2(devnull.fileno(), 1)
  try:
    vc = load(pid)
    conn.send(('ready', None))
  except BaseException as e:  # noqa: BLE001
    import traceback
    conn.send(('broken', '%s\n%s' % (e, traceback.format_exc()[-3000:])))
    return
  ran = Ran()
  table = {(ct.name, lab): (ct, kw) for ct in vc.REGISTRY[pid] for lab, kw in ct.cfgs.items()}
  while True:
    msg = conn.recv()
    if msg is None:
      return
    name, lab, mode = msg
    ct, kw = table[(name, lab)]
    try:
      if mode == 'fallback':
        r = vc.run_only(ct, lab, kw, tier, seed)
      else:
        r = vc.check_contract(ct, lab, kw, tier, seed, None)
    except BaseException as e:  # noqa: BLE001
      import traceback
      r = dict(contract=name, config=lab, mode=ct.mode, obligations=[], status='error', funcs=list(ct.funcs), assumptions=[],
               trusted=[], violation=None, notes=['%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:]])
    rss = int(open('/proc/self/statm').read().split()[1]) * 4096
    r['ran'] = ran.take()
    r['recycle'] = rss > (2 << 30)
    conn.send(('result', r))
    vc.clear_caches()


class Slot:
  def __init__(self, pid, tier, seed):
    self.args = (pid, tier, seed)
    self.start()

  def start(self):
    ctx = mp.get_context('spawn')
    self.conn, child = ctx.Pipe()
    self.proc = ctx.Process(target=_worker, args=self.args + (child,), daemon=True)
    self.proc.start()
    child.close()
    self.ready = False
    self.task = None
    self.since = time.time()

  def kill(self):
    self.proc.kill()
    self.proc.join()
    self.conn.close()


def known_findings():
  out = []
  path = os.path.join(VERIF, 'known-findings.json')
  if os.path.exists(path):
    for e in json.load(open(path)).get('findings', []):
      out.append(e)
  return out


def match_known(pid, r, known):
  """The listed finding a violation corresponds to (same contract, configuration and failing obligations), or None."""
  v = r['violation']
  names = [f[0] for f in v.get('failures', [])]
  for e in known:
    if e['property'] == pid and e['contract'] == r['contract'] and fnmatch.fnmatchcase(r['config'], e.get('config', '*')) \
       and names and all(any(fnmatch.fnmatchcase(n, pat) for pat in e['obligations']) for n in names):
      return e
  return None


def schedule(pid, tasks, tier, seed, total, nproc, verbose):
  t0 = time.time()
  slots = [Slot(pid, tier, seed) for _ in range(min(nproc, len(tasks)))]
  queue = list(tasks)
  results = []
  broken = None
  known = known_findings()
  while queue or any(s.task for s in slots):
    left = total - (time.time() - t0)
    fresh = [r for r in results if r['violation'] and not match_known(pid, r, known)]
    found = sum(not r['violation'].get('noinput') for r in fresh)
    if not verbose and (found >= 4 or (fresh and time.time() - t0 > 150)):
      break                              # the answer is known: report it
    for s in slots:
      if s.task is None and s.ready and queue:
        if left < 5:
          t = queue.pop(0)
          results.append(dict(contract=t['name'], config=t['label'], mode='', obligations=[dict(name='*', status='undecided', backend='', time=0)],
                              status='degraded', funcs=[], assumptions=[], trusted=[], violation=None, notes=['not run: out of time']))
          continue
        s.task = queue.pop(0)
        s.since = time.time()
        s.conn.send((s.task['name'], s.task['label'], s.task['mode']))
    conns = [s.conn for s in slots if s.task is not None or not s.ready]
    ready = mp.connection.wait(conns, timeout=0.5) if conns else []
    for s in slots:
      if s.conn in ready:
        try:
          kind, val = s.conn.recv()
        except (EOFError, OSError):
          kind, val = 'died', None
        if kind == 'ready':
          s.ready = True
        elif kind == 'broken':
          broken = val
          s.kill()
          for q in slots:
            if q is not s:
              q.kill()
          return results, broken
        elif kind == 'result':
          val['task_wall'] = round(time.time() - s.since, 2)
          if s.task['mode'] == 'fallback':
            val['obligations'] = [dict(name='*', status='undecided', backend='', time=0, why='verifier ' + s.task['why'])]
            if val['status'] == 'ok':
              val['status'] = 'degraded'
          results.append(val)
          if verbose:
            print(summary(val), file=sys.stderr, flush=True)
          s.task = None
          if val.get('recycle') and queue:
            s.kill()
            s.start()
        else:
          requeue(s, queue, results, 'process died (memory limit?)')
      elif s.task is not None and time.time() - s.since > min(s.task['hard'], max(left, 0) + 20):
        requeue(s, queue, results, 'stopped after %.0f s' % (time.time() - s.since))
      elif not s.ready and time.time() - s.since > 180:
        s.kill()
        s.start()
  for s in slots:
    s.kill()
  return results, broken


def requeue(s, queue, results, why):
  t = s.task
  s.kill()
  s.start()
  if t is None:
    return
  if t['mode'] == 'fallback':
    results.append(dict(contract=t['name'], config=t['label'], mode='', obligations=[dict(name='*', status='undecided', backend='', time=0)],
                        status='error', funcs=[], assumptions=[], trusted=[], violation=None, notes=['bounded stand-in ' + why]))
  else:
    queue.append(dict(t, mode='fallback', hard=90, why=why))


def summary(r):
  ob = r['obligations']
  good = sum(o['status'] in ('proved', 'bounded-ok') for o in ob)
  s = '%-8s %s[%s] %d/%d %.1fs' % (r['status'] if not r['violation'] else 'VIOLATED', r['contract'], r['config'], good, len(ob), r.get('task_wall', 0))
  for o in ob:
    if o['status'] not in ('proved', 'bounded-ok'):
      s += '\n      %s: %s %s %.1fs' % (o['name'], o['status'], o.get('why', '')[:200], o['time'])
  if r['violation']:
    s += '\n      ' + json.dumps({k: v for k, v in r['violation'].items()}, default=str)[:1200]
  for n in r['notes']:
    s += '\n      note: ' + n[:300]
  if r.get('traceback'):
    s += '\n' + r['traceback'][-1200:]
  return s


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only', default=None)
  ap.add_argument('--strict', action='store_true')
  ap.add_argument('--replay')
  ap.add_argument('-v', action='store_true')
  ap.add_argument('-j', type=int, default=int(os.environ.get('JAXVC_JOBS', '0')) or min(8, os.cpu_count() or 2))
  a = ap.parse_args()
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  if a.replay:
    return replay(a.replay)
  pid = a.pid
  t0 = time.time()
  vc = load(pid)
  tasks = []
  only = set(json.load(open(a.only[1:]))) if a.only and a.only[0] == '@' else None
  for ct in vc.REGISTRY[pid]:
    for lab, kw in ct.cfgs.items():
      if a.only and not ('%s[%s]' % (ct.name, lab) in only if only is not None else fnmatch.fnmatchcase('%s[%s]' % (ct.name, lab), a.only)):
        continue
      if ct.opts.get('thorough_only') and a.tier != 'thorough':
        continue
      hard = ct.opts.get('hard', 150.0) * (4 if a.tier == 'thorough' else 1)
      tasks.append(dict(name=ct.name, label=lab, mode='full', hard=hard, cost=ct.opts.get('cost', 1)))
  tasks.sort(key=lambda t: -t['cost'])
  if not tasks:
    print('no contracts for', pid)
    return 2
  total = 600.0 if a.tier == 'quick' else 840.0
  results, broken = schedule(pid, tasks, a.tier, seed, total, a.j, a.v)
  if broken:
    print('check %s could not load: %s' % (pid, broken))
    return 2
  order = {(t['name'], t['label']): k for k, t in enumerate(tasks)}
  results.sort(key=lambda r: order.get((r['contract'], r['config']), 0))
  known = known_findings()
  viol, kf = [], []
  for r in results:
    if r['violation']:
      e = match_known(pid, r, known)
      (kf if e else viol).append((r, e))
  write_evidence(pid, a.tier, seed, results, viol, kf, time.time() - t0, vc, partial=bool(a.only))
  if os.environ.get('JAXVC_RAN'):       # which functions each configuration ran (used by tools/mutate.py)
    with open(os.path.join(os.environ['JAXVC_RAN'], pid + '.json'), 'w') as f:
      json.dump([('%s[%s]' % (r['contract'], r['config']), r.get('task_wall', 0), r.get('ran', [])) for r in results], f)
  n_ob = sum(len(r['obligations']) for r in results)
  n_ok = sum(o['status'] in ('proved', 'bounded-ok') for r in results for o in r['obligations'])
  print('%s: %d contract configurations, %d obligations, %d discharged, %d degraded, %d errors, %.0f s' % (
      pid, len(results), n_ob, n_ok, sum(r['status'] == 'degraded' for r in results), sum(r['status'] == 'error' for r in results),
      time.time() - t0))
  for r in results:
    if r['status'] != 'ok' and not r['violation']:
      print('  undecided: ' + summary(r).replace('\n', '\n    ')[:1500])
  seen = set()
  for r, e in kf:
    if e['id'] not in seen:
      seen.add(e['id'])
      print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
  if viol:
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol.sort(key=lambda re: bool(re[0]['violation'].get('noinput')))
    for k, (r, _) in enumerate(viol[:25]):
      path = os.path.join(rdir, '%s-%d.json' % (pid, k))
      with open(path, 'w') as f:
        json.dump(dict(property=pid, contract=r['contract'], config=r['config'], functions=r['funcs'], **r['violation'],
                       obligations=r['obligations'], traceback=r.get('traceback')), f, indent=1, default=str)
      print('  %s[%s] fails: %s' % (r['contract'], r['config'], '; '.join('%s (%s)' % tuple(map(str, f)) for f in r['violation']['failures'][:4])[:600]))
      print('VIOLATION property=%s replay=%s%s' % (pid, path, ' no-failing-input-found' if r['violation'].get('noinput') else ''))
    return 1
  if a.strict and any(r['status'] != 'ok' and (r, None) not in viol for r in results if not r['violation']):
    return 2
  if all(r['status'] == 'error' for r in results if not r['violation']) and not kf:
    return 2
  return 0


def write_evidence(pid, tier, seed, results, viol, kf, wall, vc, partial):
  proofs = [r for r in results if r['mode'] != 'bounded']
  ob = [(r, o) for r in proofs for o in r['obligations']]
  allsize = [(r, o) for r, o in ob if '@' not in o['name']]
  fixed = [(r, o) for r, o in ob if '@' in o['name']]
  d_all = sum(o['status'] == 'proved' for _, o in allsize)
  d_fix = sum(o['status'] == 'proved' for _, o in fixed)
  backends = {}
  for _, o in ob:
    if o['status'] == 'proved':
      backends[o['backend']] = backends.get(o['backend'], 0) + 1
  runs = sum(r.get('bounded_runs', 0) for r in results)
  level = LEVELS.get(pid, 'proof')
  decided = (d_all + d_fix == len(ob)) and not viol
  trusted = sorted({t for r in results for t in r['trusted']} | set(BASE_TRUST))
  cov = dict(obligations=len(ob), discharged=d_all + d_fix,
             obligations_all_sizes=len(allsize), discharged_all_sizes=d_all,
             obligations_stated_sizes=len(fixed), discharged_stated_sizes=d_fix,
             checker_cmd='cd /verif && ./check.sh %s --tier %s' % (pid, tier), trusted_base=trusted,
             backends=backends,
             solver_time_s=round(sum(r.get('solver_time', 0) for r in results), 2),
             solver_queries=sum(r.get('solver_queries', 0) for r in results),
             functions_under_contract=sorted({f for r in results for f in r['funcs']}),
             functions_executed=sorted({f for r in results for f in r.get('ran', ())}),
             contract_configurations=len(results),
             bounded_contracts=[dict(contract=r['contract'], config=r['config'], runs=r.get('bounded_runs', 0)) for r in results if r['mode'] == 'bounded'],
             loops=sorted({str(l) for r in results for l in (r.get('loops') or [])}),
             undecided=[dict(contract=r['contract'], config=r['config'], obligation=o['name'], why=o.get('why', o['status']))
                        for r, o in ob if o['status'] not in ('proved', 'violated')],
             evaluations=runs, distinct_nontrivial=runs,
             rule='random inputs satisfying the preconditions, run through the real code (only for bounded or undecided contracts)',
             samples=[dict(contract=r['contract'], config=r['config'],
                           obligations=[(o['name'], o['status'], o['backend'], o['time']) for o in r['obligations']][:6]) for r in results[:4]])
  if level == 'proof' and not decided:
    cov['explanation'] = 'not every obligation was discharged on this tree; see undecided'
    level = 'exploration'
  elif level == 'other':
    cov['explanation'] = 'deductive contract verification; obligations named @n=.. hold for all values at the stated sizes only (bounded in size)'
  ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
            assumptions=sorted({'precondition: ' + x for r in results for x in r['assumptions']}) + BASE_ASSUMPTIONS,
            wall_s=round(wall, 1), violations=len(viol))
  if partial:
    ev['coverage']['partial'] = True
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)


BASE_TRUST = [
    'JAX tracing (jax.make_jaxpr) extracts from the functions in /repo exactly the operations they execute',
    'jaxvc.interp semantics of JAX primitives over the reals (cross-checked against JAX by setup_cmd self-test)',
    'z3 and cvc5 answers (unsat)',
]
BASE_ASSUMPTIONS = [
    'machine arithmetic treated as mathematical reals; IEEE special values tracked as flags where a contract uses them',
    'integers treated as mathematical integers',
    'partial correctness: termination of data-dependent loops is not proved',
]
LEVELS = {}
try:
  LEVELS = json.load(open(os.path.join(VERIF, 'levels.json')))
except OSError:
  pass


def replay(path):
  d = json.load(open(path))
  vc = load(d['property'])
  for ct in vc.REGISTRY[d['property']]:
    if ct.name == d['contract'] and d['config'] in ct.cfgs:
      r = vc.replay_file(ct, ct.cfgs[d['config']], d)
      for f in r or []:
        print('fails: %s: %s' % tuple(f))
      print('reproduced' if r else 'not reproduced')
      return 1 if r else 0
  print('contract not found')
  return 2


if __name__ == '__main__':
  sys.exit(main())
