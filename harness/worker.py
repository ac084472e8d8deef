"""Worker process: runs one driver of the real code on its share of the cases."""
import importlib
import json
import logging
import os
import sys
import traceback

logging.disable(logging.CRITICAL)


def main():
  # Do not outlive the check.
  try:
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)
  except Exception:  # pylint: disable=broad-except
    pass
  driver, inp, outp = sys.argv[1:4]
  with open(inp) as f:
    d = json.load(f)
  mod = importlib.import_module('drivers.' + driver)
  if hasattr(mod, 'setup'):
    mod.setup(d['shared'])
  with open(outp, 'w') as out:
    for i, case in d['cases']:
      try:
        ev = mod.run(case)
      except Exception as ex:  # pylint: disable=broad-except
        ev = [{'op': 'driver_error', 'case': case,
               'msg': f'{type(ex).__name__}: {ex}'[:500],
               'tb': traceback.format_exc()[-1500:]}]
      out.write(json.dumps({'i': i, 'ev': ev}, default=lambda o: o.item() if hasattr(o, 'item') else str(o)) + '\n')
      out.flush()


if __name__ == '__main__':
  main()
