"""C20: arithmetic on features."""
import random
import cover


def requests(rng, pairs, k):
  """Feature shapes that may or may not be added or rotated."""
  cases = []
  good = [p for p in pairs if p['ok']]
  bad = [p for p in pairs if not p['ok']]
  near = [p for p in bad if len(p['a']) == len(p['b']) and sum(x != y for x, y in zip(p['a'], p['b'])) <= 1]
  for p in rng.sample(good, min(len(good), 60 * k)) + rng.sample(bad, 60 * k) + rng.sample(near, min(len(near), 60 * k)):
    cases.append(dict(op='shapes', a=p['a'], b=p['b'], dtype='float32'))
  cases += [dict(op='shapes', a=p['a'], b=p['b'], dtype='float16') for p in rng.sample(good, 8)]
  for _ in range(80 * k):
    a = rng.choice(good)['a'] if rng.random() < .8 else rng.choice(pairs)['a']
    n = a[-2]
    d = rng.choice([[n, n], a[:-3] + [n, n], a[:-3] + [n, n], [n, n + 1], [1, 1], [n], [2] + [n, n], [1] + a[:-3] + [n, n],
                    [1] * len(a[:-3]) + [n, n], a[:-2] + [n, n], a[:-3] + [4, 4]])
    cases.append(dict(op='turnshape', a=a, b=d))
  return cases


def check(c):
  rng = random.Random(c.seed)
  progs = sorted(c.model('MCFeatureOps').json, key=repr)
  pairs = sorted(c.model('MCShapes').json, key=repr)
  cases = []
  for rep in range(1 if c.quick else 4):
    space = []
    for p in progs:
      q = p['prog']
      space.append(dict(p, op='program', k0=q[0]['op'], k1=q[1]['op'], t0=(p['P'], p['L']), t1=(q[0]['P'], q[0]['L']),
                        t2=(q[1]['P'], q[1]['L'])))
    pick = cover.pick(space, 110 if c.quick else 900, c.seed + rep, 3, ['k0', 'k1', 't0', 't1', 't2'])
    # longer programs with larger degrees
    for _ in range(40 if c.quick else 300):
      ty = lambda: (rng.randint(1, 2), rng.randint(0, 4))
      t = cur = ty()
      prog = []
      for _ in range(rng.randint(3, 6)):
        k, u = rng.choice(['change', 'change', 'add', 'add', 'reflect', 'quarter']), ty()
        cur = u if k == 'change' else (max(cur[0], u[0]), max(cur[1], u[1])) if k == 'add' else cur
        u = u if k in ('change', 'add') else cur
        prog.append(dict(op=k, P=u[0], L=u[1]))
      pick.append(dict(op='program', P=t[0], L=t[1], prog=prog))
    # every single step
    ts = [(P, L) for P in (1, 2) for L in range(5)]
    pick += [dict(op='program', P=t[0], L=t[1], prog=[dict(op=k, P=u[0], L=u[1])]) for t in ts
             for k, us in (('change', ts), ('add', ts), ('reflect', [t]), ('quarter', [t])) for u in us]
    for d in pick:
      for k in ('k0', 'k1', 't0', 't1', 't2'):
        d.pop(k, None)
      d.update(cart=rng.random() < .7, by=rng.choice(['full', 'short']), batch=rng.choice([[], [3], [2, 2], [1]]),
               F=rng.choice([1, 2, 3]), dtype='float32', scales=7)
      if rng.random() < .2 and len(d['prog']) <= 2:
        d.update(dtype='float16', scales=3)
    cases += pick
    for _ in range(24 if c.quick else 150):
      cases.append(dict(op='addn', types=[[rng.randint(1, 2), rng.randint(0, 3)] for _ in range(rng.randint(1, 4))],
                        cart=rng.random() < .5, batch=rng.choice([[], [2], [3, 1]]), F=rng.choice([1, 3]),
                        dtype='float32', scales=5))
    cases += [dict(op='turn', P=rng.randint(1, 2), L=rng.randint(0, 3), F=rng.choice([1, 2]), cart=rng.random() < .5,
                   batch=b, each=e) for b in ([], [3], [2, 2], [1], [4]) for e in (True, False) for _ in range(2)
              if b or not e]
    cases += requests(rng, pairs, 1 if c.quick else 5)
  cases += [dict(op='masks', L=n) for n in range(9)]
  ev = c.drive('features', cases)
  c.validate('TraceFeatureOps', ev)
  c.assumptions.append('degrees up to 4; exact integer values in single or half precision')
