"""C09: spherical and solid harmonics."""
import random
import cover


def directions(c):
  r = c.model('MCHarmonics')
  out = {}
  for d in r.json:
    out[tuple(d['v'])] = d
  return [out[k] for k in sorted(out)]


def check(c):
  rng = random.Random(c.seed)
  ds = directions(c)
  axes = [d for d in ds if d['n'] == 1 and abs(sum(d['v'])) == 1]
  space = list(cover.product(
      op=['harm'], fn=['sh', 'solid'], cart=[True, False], L=list(range(0, 8 if c.quick else 16)),
      norm=['racah', 'schmidt', '4pi', 'orthonormal'], rnorm=[True, False],
      scale=[-18, -9, -1, 0, 1, 9, 30], batch=['flat', 'grid', 'lead']))
  for d in space:
    if d['fn'] == 'solid':
      d['norm'], d['rnorm'], d['scale'] = 'racah', False, {-18: -2, -9: -1, -1: -1, 9: 1, 30: 1}.get(d['scale'], d['scale'])
    if d['rnorm']:
      d['scale'] = 0
  space = [dict(t) for t in {tuple(sorted(d.items())) for d in space}]
  space.sort(key=repr)
  cases = cover.pick(space, 56 if c.quick else 500, c.seed, 2)
  for d in cases:
    d['less'] = rng.choice([0, 1, 3])
    d['vs'] = rng.sample(axes, min(3, len(axes))) + rng.sample(ds, 7 if c.quick else 15)
  ev = c.drive('harmonics', cases)
  c.validate('TraceHarmonics', ev)
  c.assumptions.append('directions are rational unit vectors (all axes, signed permutations of Pythagorean '
                       'quadruples); degrees up to 7 (quick) or 15 (thorough)')
