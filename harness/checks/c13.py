"""C13: constructors of rotation matrices."""
import random


def check(c):
  rng = random.Random(c.seed)
  r = c.model('MCRotations')
  st = {k: [d for d in r.json if d['kind'] == k] for k in ('q', 'euler', 'align')}
  for k in st:
    st[k].sort(key=repr)
  qs = [d['q'] for d in st['q']]
  axes = [q for q in qs if any(q[1:])]
  cases = []
  n = 16
  for i in range(8 if c.quick else 60):
    items = [{'q': q, 'scale': rng.choice([-12, -6, -1, 0, 0, 3, 12]), 'turns': rng.choice([0, 0, 0, -1, 1]),
              'neg': rng.random() < .3} for q in rng.sample(axes, n)]
    cases.append({'op': 'rot', 'items': items, 'batch': rng.choice(['flat', 'grid', 'lead'])})
  for i in range(8 if c.quick else 40):
    items = [{'h': d['h'], 'turns': [rng.choice([0, 0, 1, -1]) for _ in range(3)]}
             for d in rng.sample(st['euler'], n)]
    cases.append({'op': 'euler', 'items': items, 'batch': rng.choice(['flat', 'grid', 'lead'])})
  lock = [q for q in qs if 2 * (q[1] * q[3] - q[0] * q[2]) in (sum(x * x for x in q), -sum(x * x for x in q))]
  for i in range(8 if c.quick else 40):
    items = [{'q': q} for q in rng.sample(qs, n - 4) + rng.sample(lock, min(4, len(lock)))]
    rng.shuffle(items)
    cases.append({'op': 'extract', 'items': items, 'batch': rng.choice(['flat', 'grid', 'lead'])})
  poles = [d['h'] for d in st['euler'] if d['h'][1] in ([1, 1], [1, -1])]
  ds = [3, 30, 200, 600, 1500, 4000, 9000, 20000, 50000, 120000]
  for i in range(4 if c.quick else 40):
    items = [{'h': rng.choice(poles), 'd': rng.choice([1, -1]) * int(ds[j % 10] * rng.uniform(.8, 1.3))} for j in range(n)]
    rng.shuffle(items)
    cases.append({'op': 'near', 'items': items, 'batch': rng.choice(['flat', 'grid', 'lead'])})
  par = [d for d in st['align'] if all(a * d['v'][3] == s * b * d['u'][3] for s in [1] for a, b in zip(d['u'][:3], d['v'][:3]))]
  anti = [d for d in st['align'] if all(a * d['v'][3] == -b * d['u'][3] for a, b in zip(d['u'][:3], d['v'][:3]))]
  for i in range(8 if c.quick else 60):
    items = []
    for d in rng.sample(st['align'], n - 8) + rng.sample(par, 4) + rng.sample(anti, 4):
      items.append({'u': d['u'][:3], 'nu': d['u'][3], 'v': d['v'][:3], 'nv': d['v'][3],
                    'pert': rng.choice([0, 0, -1, -2, -3, -4, -5, -6, -7, -8]),
                    'su': rng.choice([-10, -1, 0, 0, 2, 10]), 'sv': rng.choice([-10, -1, 0, 0, 2, 10])})
    rng.shuffle(items)
    cases.append({'op': 'align', 'items': items, 'batch': rng.choice(['flat', 'grid', 'lead'])})
  for p in (0, 1, 10, 250, 500, 750, 999, 1000, -500, 2000):
    for num in (1, 2, 7):
      cases.append({'op': 'rand', 'p': p, 'num': num, 'seed': rng.randrange(10000)})
  cases += [{'op': 'rand', 'p': 1000, 'num': 20000, 'seed': rng.randrange(10000)} for _ in range(2)]
  cases += [{'op': 'rand', 'p': p, 'num': 4000, 'seed': rng.randrange(10000)} for p in (20, 300, 600)]
  ev = c.drive('rotations', cases)
  c.validate('TraceRotations', ev)
  c.assumptions.append('axes, angles and directions are those enumerated by the specification (integer '
                       'quaternions of norm up to 60, half-angle tangents, Pythagorean directions), scaled '
                       'by powers of ten and, for alignment, tilted by 1e-1..1e-8')
