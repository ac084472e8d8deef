"""C16: radial functions."""
import random
import cover

U = 10000


def cases_of(rng, nums, rep):
  out = []
  base = dict(fam='', num=0, kind='', cuspless=False, weight=False, lim=U, gamma=U, x0=0, default=False, rep=rep)
  lims, gammas = (U, U // 2, 5 * U, 8 * U, 13000), (U, U // 4, 2 * U, 5 * U)
  fams = ('bernstein', 'chebyshev', 'fourier', 'gaussian')
  kinds = ('shifted', 'damped', 'cuspless')
  B = (False, True)
  for k in nums:
    for f in fams + ('sinc',):
      for l in lims:
        out.append(dict(base, fn='basic', fam=f, num=k, lim=l))
    for f in ('rectangular', 'triangular', 'smooth'):
      for l in lims:
        out.append(dict(base, fn='window', fam=f, num=k, lim=l))
    for f in fams:
      for w in B:
        for kd in kinds:
          out.append(dict(base, fn='reciprocal', fam=f, num=k, kind=kd, weight=w))
        for cu in B:
          for g in gammas:
            out.append(dict(base, fn='exponential', fam=f, num=k, gamma=g, cuspless=cu, weight=w))
  for l in lims:
    for f in ('smooth', 'cosine'):
      out.append(dict(base, fn='cutoff', fam=f, lim=l))
    for x in (0, U, -2 * U, 7300):
      out.append(dict(base, fn='switch', lim=l, x0=x))
  for g in gammas:
    out.append(dict(base, fn='damping', gamma=g))
    for cu in B:
      out.append(dict(base, fn='exponential_mapping', gamma=g, cuspless=cu))
  for kd in kinds:
    out.append(dict(base, fn='reciprocal_mapping', kind=kd))
  return [dict(d, asarray=a, default=df) for d in out for a in B for df in B
          if not (a and (df or d['fn'] in ('cutoff', 'switch')))]


def check(c):
  rng = random.Random(c.seed)
  r = c.model('MCRadial')
  nums = sorted({d['num'] for d in r.json if d['num'] > 0})
  cases = []
  for rep in range(1 if c.quick else 5):
    space = cases_of(rng, nums + [16, 33], c.seed + rep)
    cases += cover.pick(space, 260 if c.quick else 1500, c.seed + rep, 3)
  # neighbours share compiled operations
  cases.sort(key=lambda d: (d['num'], d['fn'], d['fam']))
  for i, d in enumerate(cases):
    d['slot'] = i * 8 // len(cases)
  ev = c.drive('radial', cases, group=lambda d: d['slot'])
  c.validate('TraceRadial', ev)
  c.assumptions.append('distances from 0 to 10 (or 1.3 times the limit) in values and derivatives, the ends of the '
                       'domain and arguments up to 1e4 for finiteness; first derivatives compared away from the '
                       'ends of the domain')
