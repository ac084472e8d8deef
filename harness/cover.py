"""Small covering samples of an enumerated configuration space."""
import itertools
import random


def pick(space, n, seed, strength=2, keys=None):
  """At most n elements of `space` (list of dicts) that greedily cover all value
  combinations of `strength` keys; deterministic in the seed."""
  rng = random.Random(seed)
  space = list(space)
  rng.shuffle(space)
  if len(space) <= n:
    return space
  keys = keys or sorted(space[0])
  groups = list(itertools.combinations(keys, strength))
  tup = [[(g, tuple(repr(c[k]) for k in g)) for g in groups] for c in space]
  seen = set()
  out = []
  left = list(range(len(space)))
  while len(out) < n and left:
    cand = left if len(left) <= 300 else rng.sample(left, 300)
    best = max(cand, key=lambda i: sum(t not in seen for t in tup[i]))
    seen.update(tup[best])
    out.append(space[best])
    left.remove(best)
  return out


def product(**dims):
  ks = list(dims)
  for v in itertools.product(*[dims[k] for k in ks]):
    yield dict(zip(ks, v))
