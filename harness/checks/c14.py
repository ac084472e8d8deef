"""C14: quadrature rules."""
import random
import re


def rules(name):
  s = open(__import__('os').path.join(__import__('vp').SPEC, 'Quadrature.tla')).read()
  body = re.search(name + r' == << (.*?) >>\n', s, re.S).group(1)
  return [tuple(map(int, x)) for x in re.findall(r'<<(\d+),(\d+)>>', body)]


def check(c):
  rng = random.Random(c.seed)
  r = c.model('MCQuadrature')
  reqs = [dict(d, op='req') for d in sorted(r.json, key=repr)]
  cases = []
  for k in ('Lebedev', 'Delley'):
    cases += [{'op': 'grid', 'kind': k, 'precision': p, 'num': n} for p, n in rules(k)]
  cases.sort(key=lambda d: -d['num'])
  rng.shuffle(reqs)
  ev = c.drive('quadrature', cases + reqs)
  c.validate('TraceQuadrature', ev)
  c.assumptions.append('every rule of both families, every precision from -3 to 140 and every size around a '
                       'rule boundary; exactness by all harmonics up to the precision of the rule '
                       '(single-precision grids, 30 ppm)')
