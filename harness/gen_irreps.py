"""Regenerates spec/gen/irreps.json from TLC's output of GenIrreps (deterministic)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp


def build(check):
  r = check.tlc('GenIrreps', workers=1, count=False)
  out = {'rotations': {}}
  for d in r.json:
    if d['kind'] == 'harmonics':
      out['poly'] = [[sorted(p) for p in deg] for deg in d['poly']]
      out['F'], out['norm'], out['cart'] = d['F'], d['norm'], d['cart']
    else:
      out['rotations'][d['name']] = {'M': d['M'], 'd': d['d'], 'num': d['num']}
  return json.dumps(out, sort_keys=True, indent=None) + '\n'


if __name__ == '__main__':
  c = vp.Check('GEN')
  with open(os.path.join(vp.SPEC, 'gen', 'irreps.json'), 'w') as f:
    f.write(build(c))
  import importlib
  import irreps
  importlib.reload(irreps)
  with open(os.path.join(vp.SPEC, 'gen', 'wigner.json'), 'w') as f:
    json.dump(irreps.fixed_table(), f)
    f.write('\n')
