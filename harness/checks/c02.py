"""C02: programs of pointwise layers."""
import random
import cover

ACTS = ['relu', 'leaky_relu', 'elu', 'selu', 'celu', 'silu', 'swish', 'gelu', 'mish', 'serf',
        'shifted_softplus', 'hard_tanh', 'soft_sign', 'relu6', 'hard_silu', 'hard_swish',
        'bent_identity']
BATCH = [[4], [4], [2, 3], [5], [1, 4]]


def name(o):
  return '/'.join(str(o[k]) for k in sorted(o) if k != 'fn')


def check(c):
  rng = random.Random(c.seed)
  r = c.model('MCFeatures', 'MCProg')
  progs = r.json
  rng.shuffle(progs)
  sub = []
  for d in progs[:2500 if c.quick else 20000]:
    ops = [name(o) for o in d['prog']]
    sub.append({'d': d, 'src': (d['P'], d['L']), 'dst': (d['oP'], d['oL']),
                'o1': ops[0], 'o2': ops[1], 'o3': ops[2]})
  sub = cover.pick(sub, 96 if c.quick else 800, c.seed, 2, ['src', 'dst', 'o1', 'o2', 'o3'])
  acts = []
  cases = []
  for s in sub:
    d = s['d']
    for o in d['prog']:
      if o['op'] == 'act':
        acts = acts or rng.sample(ACTS, len(ACTS))
        o['fn'] = acts.pop()
    cases.append({'op': 'prog', 'P': d['P'], 'L': d['L'], 'prog': d['prog'], 'oP': d['oP'],
                  'oL': d['oL'], 'occ': d['occ'], 'F': rng.choice([1, 2, 3]),
                  'cart': rng.random() < .5, 'b': rng.choice(BATCH)})
  for fn in ACTS:
    for P, L in ((1, rng.choice([0, 2, 3])), (2, rng.choice([0, 1, 2]))):
      cases.append({'op': 'layer', 'kind': 'act', 'fn': fn, 'P': P, 'L': L, 'F': rng.choice([1, 2, 4]),
                    'Fout': 0, 'b': rng.choice(BATCH), 'cart': rng.random() < .5})
  for d in cover.product(P=[1, 2], L=[0, 1, 2, 3, 4], bias=[True, False]):
    for F, G in rng.sample([(1, 3), (3, 1), (2, 2), (4, 3), (2, 5)], 1 if c.quick else 5):
      cases.append(d | {'op': 'layer', 'kind': 'dense', 'F': F, 'Fout': G, 'b': rng.choice(BATCH + [[]]),
                        'cart': rng.random() < .5})
  for d in cover.product(num=[1, 2, 7], F=[1, 3], edge=[True, False]):
    cases.append(d | {'op': 'embed', 'b': rng.choice([[], [3], [2, 4]])})
  sh = c.tables(cg=2)
  rng.shuffle(cases)
  ev = c.drive('prog', cases, shared=sh)
  c.validate('TraceEqui', ev)
  c.extra['programs'] = len(progs)
  c.assumptions.append('six group elements (generating a dense subgroup of O(3)) stand for all; '
                       'parameters and inputs are generic random values')
