"""C24: types and accuracy."""
import os
import random
import cover
from checks.c22 import TABLE


def check(c):
  rng = random.Random(c.seed)
  space = sorted(c.model('MCPrecision').json, key=repr)
  d = os.path.join(c.work, 'ref')
  os.makedirs(d, exist_ok=True)
  tab = dict(c.tables(cg=3, wigner=4), dir=d)
  ref, acc = [], []
  for fn, (nv, _, _) in TABLE.items():
    if fn in ('random_rotation', 'embed'):
      continue
    vs = list(range(nv))
    if c.quick and fn != 'scalar':
      vs = rng.sample(vs, min(nv, 3 if fn in ('attention', 'message') else 4 if nv <= 12 else 6 if nv <= 24 else 10))
    for v in vs:
      ts = ['float32', 'float16', 'bfloat16']
      ts = rng.sample(ts, 2) if c.quick else ts
      ref.append(dict(op='ref', fn=fn, variant=v, types=ts))
      acc.append(dict(op='acc', fn=fn, variant=v, types=ts))
  f = ['kind', 'x64', 'in1', 'in2', 'param', 'dtype']
  rq = [dict(q, op='layer', n=i) for i, q in enumerate(cover.pick(space, 80 if c.quick else 1200, c.seed, 2, f))]
  lref = [dict(q, op='layerref') for q in rq]
  ids = [dict(op='identity', name=n, i=i + (c.seed * 7) % 20) for n in ('rotation', 'norm', 'harmonics', 'wigner', 'clebsch',
         'tensors', 'quadrature', 'radial', 'activation', 'functions', 'layers') for i in range((10 if n == 'layers' else 6) if c.quick else 40)]
  one = ref + lref + [dict(q, x64=True) for q in ids]
  rng.shuffle(one)
  ev = c.drive('precision', one, shared=dict(tab, x64=True))
  ev += c.drive('precision', [q for q in rq if q['x64']], shared=dict(tab, x64=True))
  two = acc + [q for q in rq if not q['x64']] + [dict(q, x64=False) for q in ids]
  rng.shuffle(two)
  ev += c.drive('precision', two, shared=dict(tab, x64=False))
  c.validate('TracePrecision', ev)
  c.assumptions.append('arguments of moderate size (no overflow in half precision); errors are counted in roundoffs of the narrowest type')
