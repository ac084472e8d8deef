"""C10: Wigner-D matrices."""
import random
import cover
import gen_irreps
import os
import vp
from checks.c09 import directions


def check(c):
  rng = random.Random(c.seed)
  ds = directions(c)
  c.model('MCIrreps')
  # the committed exact matrices are what the specification gives
  if gen_irreps.build(c) != open(os.path.join(vp.SPEC, 'gen', 'irreps.json')).read():
    raise vp.MachineryError('spec/gen/irreps.json differs from GenIrreps')
  LM = 3 if c.quick else 4
  rots = [{'g': g, 'kind': '', 'name': '', 'seed': 0} for g in (1, 2, 3, 4, 5, 6)]
  rots += [{'g': 0, 'kind': 'named', 'name': n, 'seed': 0} for n in ('halfXY', 'halfThird', 'fifth', 'quarterX')]
  rots += [{'g': 0, 'kind': k, 'name': '', 'seed': c.seed * 100 + s} for k in ('half', 'tiny', 'generic') for s in range(2 if c.quick else 12)]
  cases = []
  for i, r in enumerate(rots):
    for L in range(LM + 1):
      for cart in (True, False):
        cases.append(dict(r, op='wig', L=L, cart=cart, vs=rng.sample(ds, 4)))
  cases = [d for d in cases if d['L'] >= 2 or rng.random() < 0.3]
  rng.shuffle(cases)
  if c.quick:
    cases = cases[:56]
  ev = c.drive('harmonics', cases, shared=c.tables(wigner=LM))
  c.validate('TraceHarmonics', ev)
  c.assumptions.append(f'maximum degree {LM}; the exact comparison covers the six rational rotations of the '
                       'specification, other rotations are decided through the rotated harmonics')
