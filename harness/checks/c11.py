"""C11: Clebsch-Gordan coefficients."""
import itertools
import random
from checks.c09 import directions


def check(c):
  rng = random.Random(c.seed)
  ds = directions(c)
  c.model('MCIrreps')
  table = 3 if c.quick else 5
  cases = []
  trip = list(itertools.product(range(table + 1), repeat=3))
  blocks = {(cart, t): True for cart in (True, False) for t in trip}
  big = [(table, table, table), (table, table, table)]
  for cart in (True, False):
    todo = list(trip)
    rng.shuffle(todo)
    k = 4 if c.quick else 16
    for i in range(k):     # the complete table, its blocks shared among the events
      cases.append({'op': 'cg', 'L1': table, 'L2': table, 'L3': table, 'cart': cart,
                    'take': [list(t) for t in todo[i::k]]})
  for t in rng.sample(trip, 16 if c.quick else 100):
    tt = list(itertools.product(*(range(x + 1) for x in t)))
    cases.append({'op': 'cg', 'L1': t[0], 'L2': t[1], 'L3': t[2], 'cart': rng.random() < .5,
                  'take': [list(x) for x in rng.sample(tt, min(4, len(tt)))]})
  for d in cases:
    d['table'] = table
    d['vs'] = rng.sample(ds, 2)
  ev = c.drive('harmonics', cases, shared=c.tables(cg=table))
  c.validate('TraceHarmonics', ev)
  c.assumptions.append(f'all triples of degrees up to {table}, both orders; intertwining is tested on three '
                       'rotations that generate a dense subgroup (degrees up to 4)')
