"""C12: Cartesian tensors."""
import random
import cover
from checks.c09 import directions


def check(c):
  rng = random.Random(c.seed)
  ds = directions(c)
  space = list(cover.product(op=['tens'], l=list(range(0, 6 if c.quick else 9)), cart=[True, False],
                             norm=['racah', 'schmidt', '4pi', 'orthonormal'],
                             batch=[[], [3], [2, 2], [1, 3, 3], [2, 5]]))
  cases = cover.pick(space, 48 if c.quick else 360, c.seed, 2)
  for d in cases:
    d['vs'] = rng.sample(ds, 8)
  ev = c.drive('harmonics', cases)
  c.validate('TraceHarmonics', ev)
  c.assumptions.append('degrees up to 5 (quick) or 8 (thorough); generic inputs')
