"""Layers on graphs for a point cloud and its rotated/reflected images."""
import jax
import jax.numpy as jnp
import numpy as np

import irreps
from drivers import common as cm
from drivers import graphlib as gl


def setup(shared):
  cm.use_tables(shared)


def lists(c, rng):
  """Index lists of a random graph per batch element, as jnp arrays."""
  b = tuple(c['b'])
  nb = int(np.prod(b))
  n, m = c['n'], c['m']
  out = []
  for _ in range(nb):
    e = [(i, j) for i in range(n) for j in range(m) if rng.random() < 0.6 and i != n - 1 or (i == 0 and j == m - 1)]
    if c['kind'] != 'mha':
      e = [(i, j) for i, j in e if i != j]
    if rng.random() < 0.4:
      e.append(e[0])
    rng.shuffle(e)
    out.append([tuple(int(v) for v in p) for p in e])
  if c['fmt'] == 'sparse':
    cap = max(len(e) for e in out) + c['pad']
    full = [[e[i] if i < len(e) else (n, m) for i in range(cap)] for e in out]
    for f in full:
      rng.shuffle(f)
    a = np.array(full, np.int32).reshape(*b, cap, 2)
    return {'dst_idx': jnp.asarray(a[..., 0]), 'src_idx': jnp.asarray(a[..., 1])}
  rows = [[[s for d, s in e if d == i] for i in range(n)] for e in out]
  cap = max(len(r) for e in rows for r in e) + c['pad']
  a = [[list(rng.permutation(r + [m] * (cap - len(r)))) for r in e] for e in rows]
  return {'adj_idx': jnp.asarray(np.array(a, np.int32).reshape(*b, n, cap))}


def run(c):
  rng = cm.rng_for(sorted(c.items()))
  b, n, m = tuple(c['b']), c['n'], c['m']
  xk = gl.features(rng, b, m, c['kP'], c['kL'], c['F'])
  xq = xk if c['kind'] != 'mha' else gl.features(rng, b, n, c['qP'], c['qL'], c['F'])
  rk = rng.normal(size=(*b, m, 3)).astype(np.float32)
  rq = rk if c['kind'] != 'mha' else rng.normal(size=(*b, n, 3)).astype(np.float32)
  idx = lists(c, rng)
  ev = {'op': 'graph', 'cart': c['cart'], 'exc': '', 'P': c['oP'], 'L': c['oL'], 'oocc': c['occ'],
        'wshape': [*b, n, c['oP'], (c['oL'] + 1) ** 2,
                   c['F'] if c['kind'] == 'mp' else (c['Fout'] or c['F'])],
        'key': ' '.join(f'{k}={v}' for k, v in c.items() if k not in ('occ',))}
  mod = gl.build(c)
  try:
    par = gl.params(c, mod, rng, xq, xk, rq, rk, idx)
    els = [('identity', False)] + irreps.ELEMENTS
    st = lambda f, v: jnp.asarray(np.stack([f(g, v) for g in els]).astype(np.float32))
    ft = lambda g, v: irreps.feat(g, v, c['cart'])
    y = cm.apply_rows(lambda a, d, e, f: gl.call(c, mod, par, a, d, e, f, idx),
                      st(ft, xq), st(ft, xk), st(irreps.vec, rq), st(irreps.vec, rk))
  except Exception as ex:  # pylint: disable=broad-except
    return [dict(ev, exc=type(ex).__name__, msg=str(ex)[:300])]
  ev['shape'] = list(y.shape[1:])
  if ev['shape'] != ev['wshape']:
    return [ev]
  ev['blocks'], ev['ppm'] = cm.quantise_pair(y[0], y[1:7], c['cart'], sample=3)
  ev['occ'] = cm.occupancy(y[0], 1e-6)
  ev['finite'] = cm.finite(y)
  return [ev]
