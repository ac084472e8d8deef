#!/opt/venv/bin/python
"""python check.py <PROPERTY-ID>: decides one property on /repo's current tree."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import vp  # noqa: E402

if __name__ == '__main__':
  pid = sys.argv[1]
  if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
  m = importlib.import_module('checks.' + pid.lower())
  sys.exit(vp.main(m.check, pid, getattr(m, 'LEVEL', 'model_checking')))
