"""C01: tensor-product layers."""
import random
import cover


def check(c):
  rng = random.Random(c.seed)
  r = c.model('MCTensor', 'MCTensor' if c.quick else 'MCTensorDeep')
  configs = r.json
  n = 72 if c.quick else 900
  pick = cover.pick(configs, n, c.seed, 3,
                    ['kind', 'P1', 'L1', 'P2', 'L2', 'L3', 'incl', 'cart'])
  cases = []
  shapes = [([], []), ([], []), ([2], [2]), ([2], []), ([], [3]), ([2, 1], [3]), ([2, 3], [1, 3])]
  for d in pick:
    b1, b2 = rng.choice(shapes)
    F = rng.choice([1, 2, 2, 3])
    cases.append({k: d[k] for k in ('kind', 'P1', 'L1', 'P2', 'L2', 'L3', 'incl', 'cart')}
                 | {'F': F, 'b1': b1, 'b2': b2, 'npaths': 60 if c.quick else 400,
                    'cols': 3 if c.quick else 8})
  # output degrees that cannot be reached
  for kind in ('tensor', 'fused', 'tdense', 'tdense_fused'):
    for L1, L2, L3 in ((0, 0, 1), (1, 0, 2), (1, 1, 3)) if kind[1] == 'e' or kind == 'fused' else ((0, 0, 1), (1, 1, 3)):
      cases.append({'kind': kind, 'P1': rng.choice([1, 2]), 'L1': L1, 'P2': 1, 'L2': L2, 'L3': L3,
                    'incl': True, 'cart': True, 'F': 2, 'b1': [], 'b2': [], 'npaths': 10,
                    'Fout': 0, 'bias': True})
  td = list(cover.product(kind=['tdense', 'tdense_fused'], P1=[1, 2], L1=[0, 1, 2], L3=[-1, 0, 1, 2, 3],
                          incl=[True, False], cart=[True, False], bias=[True, False]))
  td = [d for d in td if d['L3'] <= 2 * d['L1']]
  for d in cover.pick(td, 24 if c.quick else 200, c.seed, 2):
    cases.append(d | {'F': rng.choice([2, 3]), 'Fout': rng.choice([0, 2, 4]),
                      'b1': rng.choice([[], [2], [2, 2]]), 'cols': 3 if c.quick else 8})
  for d in cases:
    if d['kind'].startswith('tdense') and 'P2' in d:
      d['L1'] = min(d['L1'], 1)
      d['L3'] = 2 * d['L1'] + 1
  rng.shuffle(cases)
  sh = c.tables(cg=3 if c.quick else 4)
  ev = c.drive('tensor', cases, shared=sh)
  c.validate('TraceEqui', ev)
  c.extra['configurations'] = len(configs)
  c.assumptions.append('six group elements (generating a dense subgroup of O(3)) stand for all; '
                       'parameters and inputs are generic random values')
