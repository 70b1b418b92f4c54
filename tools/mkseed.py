"""mkseed.py: helper to write /verif/seeded/<id>/ from (file, old, new) edits and a demo."""
import json, os, shutil, subprocess, sys, tempfile


def seed(id, prop, edits, demo, needs, what):
  d = '/verif/seeded/' + id
  w = tempfile.mkdtemp()
  subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
  os.makedirs(d, exist_ok=True)
  touched = []
  for f, old, new in edits:
    p = w + '/r/' + f
    s = open(p).read()
    assert s.count(old) == 1, (id, f, s.count(old))
    open(p, 'w').write(s.replace(old, new))
    touched.append(f)
  diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
  shutil.rmtree(w)
  open(d + '/patch.diff', 'w').write(diff)
  open(d + '/demo.py', 'w').write('import jax\njax.config.update("jax_enable_x64", True)\nimport jax.numpy as jnp\nimport numpy as np\n' + demo.strip() + '\n')
  open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
  json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
  print(id, len(diff))
