"""C15: safe norms."""
import random
import cover


def check(c):
  rng = random.Random(c.seed)
  r = c.model('MCSafeNorm')
  space = sorted(r.json, key=repr)
  cases = []
  for rep in range(1 if c.quick else 6):
    for d in cover.pick([dict(s, neg=n) for s in space for n in (False, True)], 160 if c.quick else 700, c.seed + rep, 3):
      cases.append(dict(d, axes=sorted(d['axes']), rep=rep + rng.randrange(2)))
  ev = c.drive('safenorm', cases)
  c.validate('TraceSafeNorm', ev)
  c.assumptions.append('vectors with integer norm scaled by powers of two from 2^-118 to 2^117, in single '
                       'precision; scales and zero vectors are mixed within one array; second derivatives of '
                       'directions are only required to be finite for norms above 2^-55')
