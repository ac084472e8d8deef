"""The specification's group elements (spec/gen/irreps.json) as float64 matrices."""
import json
import math
import os

import numpy as np

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
with open(os.path.join(SPEC, 'gen', 'irreps.json')) as _f:
  T = json.load(_f)

ROT = {k: np.array(v['M'], float) / v['d'] for k, v in T['rotations'].items()}

# Group elements used by the equivariance checks: (rotation, inverted?)
ELEMENTS = [('quarterZ', False), ('cycle3', False), ('third', False),
            ('identity', True), ('halfX', True), ('thirdB', True)]
NAMES = [r + ('*inv' if i else '') for r, i in ELEMENTS]


def perm(l, cart):
  return [m + l for m in T['cart'][l]] if cart else list(range(2 * l + 1))


def wigner(rot, l, cart):
  """D with Y(r R) = Y(r) D, exact up to one rounding per entry."""
  v = T['rotations'][rot]
  num = np.array(v['num'][l], float)
  f = np.sqrt(np.array(T['F'][l], float))
  d = num / (v['d'] ** l * np.outer(f, f))
  p = perm(l, cart)
  return d[np.ix_(p, p)]


def vec(element, r):
  """Transforms (pseudo-free) vectors."""
  rot, inv = element
  return r @ ROT[rot] * (-1 if inv else 1)


def parity(np_, p, l):
  return p if np_ == 2 else l % 2


def feat(element, x, cart):
  """Transforms features (..., P, (L+1)^2, F)."""
  rot, inv = element
  x = np.asarray(x, np.float64)
  np_ = x.shape[-3]
  lmax = math.isqrt(x.shape[-2]) - 1
  out = np.zeros_like(x)
  for l in range(lmax + 1):
    s = slice(l * l, (l + 1) ** 2)
    d = wigner(rot, l, cart)
    y = np.einsum('...mf,mn->...nf', x[..., s, :], d)
    for p in range(np_):
      sg = -1 if inv and parity(np_, p, l) else 1
      out[..., p, s, :] = sg * y[..., p, :, :]
  return out


def fixed_table(scale=10000):
  """Fixed-point D for TLC: per element, order and degree."""
  lm = len(T['F']) - 1
  return {o: [[np.rint(wigner(r, l, o == 'cart') * scale).astype(int).tolist()
               for l in range(min(lm, len(T['rotations'][r]['num']) - 1) + 1)]
              for r, _ in ELEMENTS] for o in ('cart', 'std')}
