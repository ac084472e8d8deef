"""C21: valid and invalid requests."""
import random
import cover
from checks import c20

SIZE = {'reduce': 260, 'softmax': 140, 'gather': 110, 'tensor': 90, 'set': 130, 'kernel': 60, 'heads': 60}


def check(c):
  rng = random.Random(c.seed)
  space = sorted(c.model('MCRequests').json, key=repr)
  by = {}
  for d in space:
    by.setdefault(d['q']['op'], []).append(d)
  cases = []
  for op in sorted(by):
    n = SIZE.get(op, 70) * (1 if c.quick else 8)
    good = [dict(d['q']) for d in by[op] if d['ok']]
    bad = [dict(d['q']) for d in by[op] if not d['ok']]
    k = max(n // 2, n - len(good), 1)
    # invalid requests which one changed field would make valid are the telling ones:
    # cover them together with the field that has to change
    fixes = {}
    for q in good:
      for f in q:
        fixes.setdefault((f, repr([q[g] for g in sorted(q) if g != f])), True)
    near, far = [], []
    for q in bad:
      fs = [f for f in sorted(q) if (f, repr([q[g] for g in sorted(q) if g != f])) in fixes]
      (near if fs else far).append(dict(q, _fix=fs))
    pick = cover.pick(good, max(n - k, n // 3), c.seed, 2)
    pick += cover.pick(near, (2 * k) // 3, c.seed, 2) + cover.pick(far, k // 3, c.seed, 2)
    cases += [{'q': {f: v for f, v in q.items() if f != '_fix'}} for q in pick]
  rng.shuffle(cases)
  cases.sort(key=lambda d: d['q']['op'])
  ev = c.drive('requests', cases, shared=c.tables(cg=4))
  c.validate('TraceRequests', ev)
  pairs = sorted(c.model('MCShapes').json, key=repr)
  c.validate('TraceFeatureOps', c.drive('features', c20.requests(rng, pairs, 1 if c.quick else 5)))
  c.assumptions.append('small shapes, degrees and counts; the entry points and domains of module MCRequests')
