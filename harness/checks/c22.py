"""C22: transformations and derivatives."""
import random
import cover

# name -> (variants, differentiable, takes batches)
TABLE = {'basic': (10, 1, 1), 'window': (4, 1, 1), 'reciprocal': (24, 1, 1), 'exponential': (16, 1, 1), 'scalar': (18, 1, 1),
         'norm': (6, 1, 1), 'harmonics': (7, 1, 1), 'rotations': (4, 1, 1), 'wigner': (4, 1, 1), 'random_rotation': (2, 0, 0),
         'tensors': (8, 1, 1), 'basis': (7, 1, 1), 'activation': (51, 1, 1), 'features': (36, 1, 1), 'dense': (12, 1, 1),
         'tensor': (8, 1, 1), 'tensordense': (6, 1, 1), 'embed': (2, 0, 1), 'square': (4, 1, 0), 'gather': (4, 1, 1),
         'reduce': (8, 1, 1), 'message': (12, 1, 1), 'attention': (12, 1, 1)}
USES = {'vmap': 1, 'loop': 1, 'lmap': 1, 'flat': 1}


def check(c):
  rng = random.Random(c.seed)
  progs = sorted(c.model('MCTransforms').json, key=repr)
  for p in progs:
    ks = [t[0] + str(t[1]) for t in p['prog']] + ['-'] * 3
    p.update(k0=ks[0], k1=ks[1], k2=ks[2], d=p['dim'])
  progs = [p for p in progs if p['prog'] or p['dim']]
  whole = [p for p in progs if sum(USES.get(t[0], 0) for t in p['prog']) == len(p['dim']) and all(
      sum(USES.get(t[0], 0) for t in p['prog'][:i]) < len(p['dim']) or t[0] in ('jit', 'remat')
      for i, t in enumerate(p['prog'])) and 'flat' not in [t[0] for t in p['prog']]]
  cases, fd = [], []
  for fn, (nv, diff, batch) in TABLE.items():
    vs = list(range(nv))
    big = fn in ('message', 'attention', 'tensor', 'tensordense', 'wigner')
    if c.quick and fn != 'scalar':
      vs = rng.sample(vs, min(nv, 4 if nv <= 12 else 6 if nv <= 24 else 10))
    for v in vs:
      sp = progs if batch else whole
      n = (1 if big else 2) if c.quick else 12
      pick = cover.pick(rng.sample(sp, min(len(sp), 400)), n, rng.randint(0, 10 ** 6), 2, ['d', 'k0', 'k1', 'k2'])
      if batch:
        pick = [dict(dim=[2, 3], prog=[])] + pick
      cases.append(dict(fn=fn, variant=v, fast=c.quick, grad=(2 if c.quick else 5) if diff else 0,
                        progs=[[p['dim'], p['prog']] for p in pick]))
      if diff:
        fd.append(dict(fn=fn, variant=v, fd=True, h=1e-4, elements=1 if c.quick else 4, second=True))
  rng.shuffle(cases)
  rng.shuffle(fd)
  tab = c.tables(cg=3, wigner=3)
  heavy = ['attention', 'message', 'activation', 'tensor', 'features', 'harmonics', 'reciprocal', 'tensordense']
  rest = [f for f in TABLE if f not in heavy]
  slot = {f: i for i, f in enumerate(heavy)} | {f: 7 - i % 8 for i, f in enumerate(rest)}
  group = lambda d: slot[d['fn']]
  cases.sort(key=lambda d: (d['fn'], d['variant']))
  ev = c.drive('transforms', cases, shared=tab, group=group)
  hs = [dict(helper='taylor', p=p, n=n, jit=j, x=rng.choice([[1, -2, 3], [0, 2], [-1]])) for p in range(6) for n in range(5)
        for j in (True, False)]
  hs.append(dict(helper='softplus', ks=list(range(-60, 10))))
  ev += c.drive('transforms', hs, nproc=2)
  ev += c.drive('transforms', fd, shared=dict(tab, x64=True))
  c.validate('TraceTransforms', ev)
  c.assumptions.append('programs of up to three transformations on batches of up to six elements; the functions and variants of the driver; '
                       'double precision for derivatives')
