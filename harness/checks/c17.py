"""C17: activations."""
import itertools
import cover


def check(c):
  r = c.model('MCActivations')
  base = sorted(r.json, key=repr)
  cases = []
  for rep in range(1 if c.quick else 8):
    space = [dict(d, batch=b, P=p, L=l, F=f, how=h) for d in base
             for b in ([], [2], [2, 3], [1, 2, 1]) for p in (1, 2) for l in (0, 1, 2, 3) for f in (1, 2, 5)
             for h in ('default', 'keyword', 'position')]
    for d in cover.pick(space, 180 if c.quick else 700, c.seed + rep, 3):
      cases.append(dict(d, rep=c.seed + rep))
  ev = c.drive('activations', cases)
  c.validate('TraceActivations', ev)
  c.assumptions.append('scalars between -7.9 and 7.9 in the specification, from 1e-38 to 3e38 for finiteness and '
                       'accuracy against a double precision oracle')
