"""C06: index lists and their conversions."""
import itertools
import random


def check(c):
  rng = random.Random(c.seed)
  cases = []
  lists = []
  for n, ln in ([(3, 2), (2, 3)] if c.quick else [(3, 3), (2, 4), (4, 2)]):
    r = c.model('MCGraph', env={'GRAPH_N': n, 'GRAPH_LEN': ln})
    lists += r.json
  # Behaviours enumerated by TLC, replayed one list at a time ...
  for d in lists:
    for pad in (-1, d['n'], d['n'] + 1):
      if pad < 0 and d['n'] in d['dst']:
        continue
      cases.append({'kind': 'sparse', 'bshape': [], 'dst': [d['dst']],
                    'src': [d['src']], 'pad': pad})
  if c.quick:
    rng.shuffle(cases)
    keep = [x for x in cases if not x['dst'][0]]
    cases = keep + cases[:500]
  # ... and combined into batches of equally long lists.
  by = {}
  for d in lists:
    by.setdefault((d['n'], len(d['dst'])), []).append(d)
  for (n, ln), ds in sorted(by.items()):
    for bshape in ([2], [3], [2, 2], [1, 2]):
      nb = 1
      for s in bshape:
        nb *= s
      for _ in range(8 if c.quick else 40):
        pick = [rng.choice(ds) for _ in range(nb)]
        pads = [n, n + 1]
        if not any(n in d['dst'] for d in pick):
          pads.append(-1)
        cases.append({'kind': 'sparse', 'bshape': bshape, 'pad': rng.choice(pads),
                      'dst': [d['dst'] for d in pick], 'src': [d['src'] for d in pick]})
  # Larger lists: sources beyond every destination, isolated nodes, loops, repeats.
  for _ in range(60 if c.quick else 600):
    n, m = rng.randint(1, 7), rng.randint(1, 14)
    dmax = rng.randint(1, n)
    dst = [rng.randrange(dmax) for _ in range(m)]
    src = [rng.randrange(n) for _ in range(m)]
    pad = rng.choice([-1, n, n + 2])
    if pad >= 0:
      for _ in range(rng.randint(0, 3)):
        at = rng.randint(0, len(dst))
        pv = pad + rng.randint(0, 2)
        dst.insert(at, pv)
        src.insert(at, pv)
    cases.append({'kind': 'sparse', 'bshape': [], 'dst': [dst], 'src': [src], 'pad': pad})
  # Dense lists: all 2x2 lists over {0, 1, pad, pad+1}, and random larger ones.
  for vals in itertools.product(range(4), repeat=4):
    if not c.quick or rng.random() < 0.5:
      cases.append({'kind': 'dense', 'bshape': [], 'nm': [2, 2], 'adj': list(vals), 'pad': 2})
  for _ in range(160 if c.quick else 1500):
    bshape = rng.choice([[], [], [2], [3], [2, 2]])
    n, m = rng.randint(1, 5), rng.randint(0, 4)
    nb = 1
    for s in bshape:
      nb *= s
    pad = rng.choice([-1, n, n, n + 1, n + 3])
    hi = n - 1 if pad < 0 else pad + rng.randint(0, 1)
    top = n - 1 if pad < 0 or rng.random() < .5 else pad - 1
    p_pad = rng.choice([0.2, 0.8])
    adj = [hi if rng.random() < p_pad else rng.randint(0, top) for _ in range(nb * n * m)]
    cases.append({'kind': 'dense', 'bshape': bshape, 'nm': [n, m], 'adj': adj, 'pad': pad})
  for num in range(-1, 9 if c.quick else 24):
    for mask in (True, False):
      cases.append({'kind': 'pairs', 'num': num, 'mask': mask})
  rng.shuffle(cases)
  ev = c.drive('index_lists', cases)
  c.validate('TraceIndexLists', ev)
  c.assumptions.append('an entry is an edge iff both its ends are below the padding index')
