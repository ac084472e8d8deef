"""C23: basis expansions."""
import random
import cover
from checks.c09 import directions

U = 10000


def check(c):
  rng = random.Random(c.seed)
  ds = directions(c)
  axes = [d for d in ds if d['n'] == 1 and abs(sum(d['v'])) == 1]
  opts = sorted(c.model('MCBasis').json, key=repr)
  fams = ('bernstein', 'chebyshev', 'fourier', 'gaussian')
  B = (False, True)
  rad = [dict(fn='basic', fam=f, lim=l) for f in fams + ('sinc',) for l in (U, 5 * U, 8 * U)]
  rad += [dict(fn='reciprocal', fam=f, kind=k, weight=w) for f in fams for k in ('shifted', 'damped', 'cuspless') for w in B]
  rad += [dict(fn='exponential', fam=f, cuspless=k, weight=w, gamma=g, module=m) for f in fams for k in B for w in B
          for g in (U, U // 4, 2 * U) for m in B]
  base = dict(op='basis', kind='', cuspless=False, weight=False, lim=U, gamma=U, module=False)
  cases = []
  for rep in range(1 if c.quick else 5):
    full = []
    for r in rad:
      for o in opts:
        o = {k: v for k, v in o.items() if k != 'norm'}
        full.append(dict(base, **r, **o))
    extra = dict(L=[0, 1, 2, 3, 4], num=[1, 2, 3, 5, 8], cutlim=[U, 5 * U, 2 * U], dgamma=[U, 3 * U], ang=['default', '4pi', 'orthonormal', 'solid', 'schmidt'],
                 cart=B, order=['config', 'arg'], explicit=B, batch=['flat', 'grid', 'lead'])
    full = [dict(d, **{k: rng.choice(v) for k, v in extra.items()}) for d in full for _ in range(2)]
    pick = cover.pick(full, 90 if c.quick else 600, c.seed + rep, 2)
    pick += [dict(rng.choice(full), cut='none', retcut=True, retnorm=b) for b in B]
    for d in pick:
      if d['fam'] == 'gaussian' and d['num'] == 1:
        d['num'] = 2
      d['norm'] = d['ang'] if d['ang'] in ('4pi', 'orthonormal') else 'racah'
      lim = d['cutlim'] if d['cut'] != 'none' else d['lim'] if d['fn'] == 'basic' else 5 * U
      d['vs'] = rng.sample(axes, 2) + rng.sample(ds, 8)
      d['xs'] = [0, lim, lim + 1 + lim // 8, 1 + lim // 50] + [rng.randint(1, lim - 1) for _ in range(6)]
      d['gamma2'] = rng.choice([U // 2, 3 * U // 2])
    cases += pick
  cases.sort(key=lambda d: (d['L'], d['num'], d['fn'], d['fam']))
  for i, d in enumerate(cases):
    d['slot'] = i * 8 // len(cases)
  ev = c.drive('basisfn', cases, group=lambda d: d['slot'])
  c.validate('TraceBasis', ev)
  c.assumptions.append('degrees up to 4, up to 8 functions; lengths from 0 to beyond the cutoff in values, 1e-40 to 1e6 '
                       'for finiteness; directions are rational unit vectors')
