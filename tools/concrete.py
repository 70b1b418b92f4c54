"""Run the run-time form of every proof contract on the unchanged tree (the stand-in used when a proof is lost):
none may fail, raise, or find no input.  usage: concrete.py P01 ..."""
import os, sys, time, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
os.environ['JAX_PLATFORMS'] = 'cpu'
import jax
jax.config.update('jax_enable_x64', True)
from jaxvc import vc, run
for pid in sys.argv[1:]:
  run.load(pid)
  for ct in vc.REGISTRY[pid]:
    if ct.mode == 'bounded':
      continue
    for lab, kw in ct.cfgs.items():
      n = len(vc.run_dims(ct)) * 2
      try:
        tried, bad = vc.search_concrete(ct, kw, 1, n, time.time() + 30)
        if bad or not tried:
          print(pid, ct.name, lab, tried, str(bad['failures'])[:600] if bad else bad, flush=True)
      except Exception as e:
        tb = [f for f in traceback.extract_tb(e.__traceback__) if '/verif/' in f.filename][-1]
        print(pid, ct.name, lab, 'RAISES', type(e).__name__, str(e)[:150].replace('\n', ' '), tb.filename[-20:], tb.lineno, flush=True)
  print(pid, 'done', flush=True)
