"""C04: layers on equivalent and related descriptions of graphs."""
import random
import cover
from checks.c03 import options


def check(c):
  rng = random.Random(c.seed)
  c.model('MCRewrite')
  sims = c.tlc('MCRewrite', 'MCRewriteSim', workers=1, must_hold=False,
               args=('-seed', str(c.seed), '-simulate', f'num={600 if c.quick else 4000}', '-depth', '5')).json
  n = 28 if c.quick else 400
  rng.shuffle(sims)
  sims = cover.pick([{'d': d, 'a': d['steps'][0], 'b': d['steps'][1], 'c': d['steps'][2],
                      'g': str(d['base'])} for d in sims], n, c.seed, 2, ['a', 'b', 'c', 'g'])
  configs = c.model('MCLayers').json
  rng.shuffle(configs)
  # what is checked here hardly depends on the degrees: mostly small ones
  configs = [d for d in configs if d['kL'] + d['qL'] + d['Lb'] + max(d['L3'], 0) <= 3 or rng.random() < .05]
  pick = cover.pick(configs, n, c.seed, 2, ['kind', 'qP', 'qL', 'kP', 'kL', 'Lb', 'incl', 'fused', 'relqk', 'relv'])
  cases = []
  more = ['locality', 'isolated', 'grads', 'parts', 'implicit', 'batch']
  deck = []
  for d, s in zip(pick, sims):
    e = options(rng, d)
    e['rcut'] = 8.0
    s = s['d']
    cases.append(e | {'wide': len(cases) % 3 != 0, 'n': s['n'], 'base': s['base'], 'hist': s['hist'], 'steps': s['steps'],
                      'isolated': s['isolated'], 'ops': more + ['rewrite', 'cross']})
    if c.quick:
      while len(deck) < 3:
        deck += rng.sample(more, len(more))
      cases[-1]['ops'] = ['rewrite', 'isolated', 'cross'] + [deck.pop() for _ in range(2)]
  sh = c.tables(cg=3)
  ev = c.drive('graphinv', cases, shared=sh)
  c.validate('TraceGraphLayers', ev)
