"""C05: indexed operations on sparse and dense index lists."""
import math
import random


def dense(dst, src, n, pad):
  """Dense rows of a sparse list, for lists larger than TLC enumerates."""
  return [[s for d, s in zip(dst, src) if d == i and s < pad] for i in range(n)]


def check(c):
  rng = random.Random(c.seed)
  lists = []
  for n, ln in ([(3, 2), (2, 3)] if c.quick else [(3, 3), (2, 4), (4, 2)]):
    lists += c.model('MCGraph', env={'GRAPH_N': n, 'GRAPH_LEN': ln}).json
  cases = []

  def add(bshape, pick, n, width, fshape, dtype, nsrc=None):
    pad = n if nsrc is None else nsrc
    d = {'bshape': bshape, 'n': n, 'nsrc': pad, 'dst': [p['dst'] for p in pick],
         'src': [p['src'] for p in pick], 'fshape': fshape, 'dtype': dtype,
         'adj': [[r + [pad + rng.randint(0, 1) for _ in range(width - len(r))]
                  for r in p['adj']] for p in pick],
         'seed': rng.randrange(10**6), 'mask_more': rng.random() < 0.4,
         'softmask': rng.random() < 0.5, 'shift': rng.choice([0, 0, 150, -150, 300]),
         'garbage': rng.choice([0.0, 50.0, 300.0])}
    d['sorted'] = all(x == sorted(x) for x in d['dst']) and rng.random() < 0.7
    cases.append(d)

  # Lists enumerated by TLC, one at a time (dense form as the spec gives it) ...
  by = {}
  for d in lists:
    d['adj'] = [[s for s in r if s < d['n']] for r in d['adj']]
    by.setdefault((d['n'], len(d['dst'])), []).append(d)
  for (n, ln), ds in sorted(by.items()):
    if ln == 0:
      continue
    w = rng.choice([ln, ln + 1])
    fs = rng.choice([[], [2]])
    for d in (ds if not c.quick or len(ds) <= 60 else rng.sample(ds, 60)):
      add([], [d], n, w, fs, 'float32')
  # ... and in batches.
  for n, ln, bshape, fs, dt in [(3, 2, [2], [], 'float32'), (2, 3, [2, 2], [2], 'float32'),
                                (2, 2, [1, 3], [], 'int32'), (3, 2, [2], [1, 4, 2], 'float16')]:
    for _ in range(25 if c.quick else 150):
      add(bshape, [rng.choice(by[n, ln]) for _ in range(math.prod(bshape))], n, ln, fs, dt)
  # Larger lists: unsorted, with padding, more sources than destinations and vice versa.
  configs = [(4, 4, 7, [], [], 'float32'), (5, 5, 9, [], [2], 'float32'), (1, 1, 4, [], [], 'float32'),
             (3, 6, 6, [], [], 'float32'), (6, 2, 5, [2], [], 'float32'), (4, 5, 6, [], [1, 4, 2], 'float32'),
             (3, 3, 5, [], [2], 'int16'), (4, 4, 8, [2, 1], [], 'float32')]
  if not c.quick:
    configs += [(rng.randint(1, 8), rng.randint(1, 8), rng.randint(1, 16), rng.choice([[], [2], [2, 2]]),
                 rng.choice([[], [2]]), rng.choice(['float32', 'int32', 'float16'])) for _ in range(60)]
  for n, nsrc, m, bshape, fs, dt in configs:
    for _ in range(20):
      pick = []
      for _ in range(math.prod(bshape)):
        dst = [rng.choice([rng.randrange(n), rng.randrange(n), n + rng.randint(0, 2)]) for _ in range(m)]
        if rng.random() < 0.5:
          dst.sort()
        src = [rng.randrange(nsrc) for _ in range(m)]
        pick.append({'dst': dst, 'src': src, 'adj': dense(dst, src, n, nsrc)})
      add(bshape, pick, n, m, fs, dt, nsrc)
  # Equal shapes go to one worker: jax compiles once per shape.
  key = lambda d: str((d['bshape'], d['n'], d['nsrc'], len(d['dst'][0]), d['fshape'], d['dtype']))
  order = sorted({key(d) for d in cases})
  cases.sort(key=key)
  ev = c.drive('indexed_ops', cases, group=lambda d: order.index(key(d)))
  c.extra['shapes'] = len(order)
  c.validate('TraceIndexedOps', ev)
