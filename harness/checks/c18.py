"""C18: initializers."""
import random
import cover

NAMED = [f'tensor_{a}_{b}' for a in ('glorot', 'xavier', 'lecun', 'he', 'kaiming') for b in ('uniform', 'normal')]


def check(c):
  space = sorted(c.model('MCInitializers').json, key=repr)
  cases = []
  for rep in range(1 if c.quick else 6):
    full = []
    for d in space:
      if d['L1'] + d['L2'] + d['L3'] > 7:
        continue
      t = [[d['P1'], d['L1']], [d['P2'], d['L2']], [d['P3'], d['L3']]]
      b = dict(op='kernel', types=t, incl=True, scale=10, mode='', dist='', how='call', **d)
      full += [dict(b, name=n, how=h) for n in NAMED for h in ('call', 'make')]
      full += [dict(b, name='variance_scaling', scale=s, mode=m, dist=k, how=h) for s in (10, 5, 30)
               for m in ('fan_in', 'fan_out', 'fan_avg') for k in ('truncated_normal', 'normal', 'uniform')
               for h in ('call', 'make')]
      none = d['P1'] == d['P2'] == 1 and 0 in (d['L1'], d['L2'], d['L3'])
      if d['P3'] == 1 or not none:
        full.append(dict(b, name='layer', incl=d['P3'] == 2))
    f = ['name', 'scale', 'mode', 'dist', 'how', 'P1', 'L1', 'P2', 'L2', 'P3', 'L3']
    p = cover.pick([d for d in full if d['name'] != 'layer'], 64 if c.quick else 400, c.seed + rep, 2, f)
    p += cover.pick([d for d in full if d['name'] == 'layer'], 8 if c.quick else 60, c.seed + rep, 2, f)
    cases += [dict(d, F=16384, dtype='float32', rep=c.seed + rep) for d in p]
    rng = random.Random(c.seed + rep)
    other = [d for d in full if d['P1'] * (d['L1'] + 1) * d['P2'] * (d['L2'] + 1) * d['P3'] * (d['L3'] + 1) <= 72]
    for dt in ('complex64', 'complex64', 'float16', 'bfloat16'):
      q = cover.pick(rng.sample(other, min(len(other), 600)), 6 if c.quick else 40, c.seed + rep, 2, f)
      cases += [dict(d, F=16384, dtype=dt, rep=c.seed + rep) for d in q]
    fu = [dict(op='fused', L=l, dist=k, scalar=s, nomask=m, scale=sc, how=h) for l in (0, 1, 2, 4)
          for k in ('truncated_normal', 'uniform') for s in (True, False) for m in (True, False) for sc in (10, 5)
          for h in ('call', 'make')]
    cases += [dict(d, F=16384, dtype='float32', rep=c.seed + rep) for d in cover.pick(fu, 30, c.seed + rep, 2)]
    cases += [dict(d, F=16384, dtype=rng.choice(['complex64', 'float16', 'bfloat16']), rep=c.seed + rep)
              for d in cover.pick(fu, 8 if c.quick else 30, c.seed + rep + 1, 1)]
  ev = c.drive('inits', cases, shared=c.tables(cg=4))
  c.validate('TraceInitializers', ev)
  c.assumptions.append('statistics of 16384 features per coupling path: variances to 7 percent (and to 0.8 or 3.5 '
                       'percent by the bound of the uniform and truncated distributions)')
