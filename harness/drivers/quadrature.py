"""Quadrature rules on the sphere."""
import itertools

import numpy as np

import e3x
import harmonics as H

U = 10000


def setup(shared):
  pass


FN = {'Lebedev': lambda **k: e3x.so3.lebedev_quadrature(**k),
      'Delley': lambda **k: e3x.so3.delley_quadrature(**k)}


def run(c):
  ev = dict(c, exc='', key=' '.join(f'{k}={v}' for k, v in sorted(c.items())))
  try:
    (req if c['op'] == 'req' else grid)(c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def req(c, ev):
  fn = FN[c['kind']]
  if c['how'] == 'none':
    return fn() if c['x'] == 0 else fn(precision=None, num=None)
  if c['how'] == 'both':
    return fn(precision=3, num=6)
  r, w = fn(**{c['how']: c['x']})
  ev['n'] = int(np.shape(w)[0])
  ev['shapeok'] = np.shape(r) == (ev['n'], 3) and np.shape(w) == (ev['n'],)
  other = fn(num=ev['n'])
  ev['same'] = bool(np.array_equal(other[0], r) and np.array_equal(other[1], w))


def grid(c, ev):
  r, w = FN[c['kind']](num=c['num'])
  r, w = np.asarray(r, np.float64), np.asarray(w, np.float64)
  ev['unitppm'] = int(np.max(np.abs(np.linalg.norm(r, axis=1) - 1)) * 1e6)
  ev['sumppm'] = int(abs(w.sum() - 1) * 1e6)
  ev['distinct'] = len(np.unique(np.round(r, 5), axis=0)) == len(r)
  mono = [m for m in itertools.product(range(9), repeat=3) if sum(m) <= min(9, c['precision'])]
  ev['mono'] = [list(m) for m in mono]
  ev['mean'] = [int(round(float(np.sum(w * r[:, 0] ** a * r[:, 1] ** b * r[:, 2] ** k)) * U)) for a, b, k in mono]
  p = c['precision']
  a = w @ H.solid(r, p)
  a[0] -= 1
  ev['power'] = [int(min(np.sqrt(np.sum(a[d * d:(d + 1) ** 2] ** 2)) * 1e6, 2e9)) for d in range(p + 1)]
  ev['powerppm'] = max(ev['power'])
