"""C03: message passing and attention on rotated and reflected point clouds."""
import random
import cover


def options(rng, d):
  """The options that do not change the type of the result."""
  F = rng.choice([1, 2, 3, 4])
  heads = rng.choice([1, 2])
  qkv = rng.choice([0, 2, 4]) if heads == 1 or F % 2 == 0 else rng.choice([2, 4])
  return d | {'F': F, 'heads': heads, 'qkv': qkv, 'Fout': rng.choice([0, 0, 1, 3]),
              'bbias': rng.random() < .5, 'qbias': rng.random() < .5, 'kbias': rng.random() < .5,
              'vbias': rng.random() < .5, 'obias': rng.random() < .5, 'cutoff': rng.random() < .6,
              'rcut': rng.choice([1.8, 6.0]), 'K': rng.choice([2, 3]),
              'radial': rng.choice(['recb', 'basicg', 'expb', 'sinc']), 'cart': rng.random() < .5}


def check(c):
  rng = random.Random(c.seed)
  configs = c.model('MCLayers').json
  rng.shuffle(configs)
  pick = cover.pick(configs, 68 if c.quick else 700, c.seed, 2,
                    ['kind', 'qP', 'qL', 'kP', 'kL', 'Lb', 'L3', 'incl', 'fused', 'relqk', 'relv'])
  cases = []
  for d in pick:
    e = options(rng, d)
    e['rcut'] = 6.0
    n = rng.choice([3, 4])
    m = n if d['kind'] != 'mha' else rng.choice([2, 4])
    cases.append(e | {'n': n, 'm': m, 'fmt': rng.choice(['dense', 'sparse']), 'pad': rng.choice([0, 0, 2]),
                      'b': rng.choice([[], [], [2], [2, 1]])})
  sh = c.tables(cg=3)
  ev = c.drive('equigraph', cases, shared=sh)
  c.validate('TraceEqui', ev)
  c.extra['configurations'] = len(configs)
  c.assumptions.append('six group elements (generating a dense subgroup of O(3)) stand for all; '
                       'parameters, positions and inputs are generic random values')
