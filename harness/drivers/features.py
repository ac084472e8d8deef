"""Arithmetic on features with exact integer values."""
import jax.numpy as jnp
import numpy as np

import e3x
import irreps
from drivers import common as cm

DT = {'float32': jnp.float32, 'float16': jnp.float16, 'bfloat16': jnp.bfloat16}


def setup(shared):
  pass


def run(c):
  ev = dict(c, exc='', key=' '.join(f'{k}={v}' for k, v in sorted(c.items())))
  try:
    {'program': program, 'addn': addn, 'masks': masks, 'turn': turn, 'shapes': shapes, 'turnshape': turnshape}[c['op']](c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def comps(L, cart):
  """(l, m) in storage order."""
  return [(l, m) for l in range(L + 1) for m in (irreps.T['cart'][l] if cart else range(-l, l + 1))]


def source(k, P, L, c):
  """Column j of the features is j + 1 times distinct integers (spec: Labels)."""
  batch, F = tuple(c['batch']), c['F']
  n = int(np.prod(batch)) * F
  v = np.array([[(k + 1) * (1 + p * 31 + l * l + l + m) for l, m in comps(L, c['cart'])] for p in range(P)])
  scale = 1 + np.arange(n).reshape(batch + (1, 1, F)) % c['scales']
  return jnp.asarray(v[..., None] * scale, DT[c['dtype']])


def columns(y, c):
  """[[scale, [[p, l, m, value], ...]], ...] for a few columns."""
  y = np.asarray(y.astype(jnp.float32), np.float64)
  P, L, F = y.shape[-3], int(round(y.shape[-2] ** .5)) - 1, y.shape[-1]
  f = np.moveaxis(y, -1, -3).reshape(-1, P, y.shape[-2])
  pick = sorted({0, len(f) // 2, len(f) - 1})
  fix = lambda v: int(v) if np.isfinite(v) and v == int(v) and abs(v) < 1e8 else 10 ** 9
  return [[1 + j % c['scales'], [[p, l, m, fix(f[j, p, i])] for p in range(P)
                                 for i, (l, m) in enumerate(comps(L, c['cart']))]] for j in pick], f


def finish(y, c, ev):
  ev['shape'], ev['dtypeok'] = list(y.shape), y.dtype == DT[c['dtype']]
  ev['cols'], f = columns(y, c)
  # every column is the first one times its own scale
  s = 1 + np.arange(len(f)) % c['scales']
  ev['uniform'] = bool(np.array_equal(f, f[0][None] * s[:, None, None]))


def change(x, o, by):
  kw = {'max_degree': o['L'], 'include_pseudotensors': o['P'] == 2}
  L, P = int(round(x.shape[-2] ** .5)) - 1, x.shape[-3]
  if by == 'short':          # leave out what does not change
    if o['L'] == L:
      kw.pop('max_degree')
    if o['P'] == P:
      kw['include_pseudotensors'] = None
  return e3x.nn.change_max_degree_or_type(x, **kw)


def program(c, ev):
  e3x.Config.set_cartesian_order(c['cart'])
  x = source(0, c['P'], c['L'], c)
  for i, o in enumerate(c['prog']):
    L = int(round(x.shape[-2] ** .5)) - 1
    if o['op'] == 'change':
      x = change(x, o, c['by'])
    elif o['op'] == 'add':
      y = source(i + 1, o['P'], o['L'], c)
      x = e3x.nn.add(x, y) if c['by'] != 'short' else e3x.nn.add(y, x)
    elif o['op'] == 'reflect':
      x = e3x.nn.reflect(x)
    else:
      D = np.zeros(((L + 1) ** 2,) * 2)
      for l in range(L + 1):
        D[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2] = irreps.wigner('quarterZ', l, c['cart'])
      D = np.rint(D)
      x = e3x.nn.rotate(x, jnp.asarray(D, x.dtype))
  finish(x, c, ev)


def addn(c, ev):
  e3x.Config.set_cartesian_order(c['cart'])
  xs = [source(i, t[0], t[1], c) for i, t in enumerate(c['types'])]
  finish(e3x.nn.add(*xs), c, ev)


def masks(c, ev):
  ev['even'] = [bool(v) for v in np.asarray(e3x.nn.even_degree_mask(c['L'])).ravel()]
  ev['odd'] = [bool(v) for v in np.asarray(e3x.nn.odd_degree_mask(c['L'])).ravel()]
  ev['shape'] = [list(e3x.nn.even_degree_mask(c['L']).shape), list(e3x.nn.odd_degree_mask(c['L']).shape)]


def turn(c, ev):
  """A batch of features, each with its own (or one common) matrix."""
  rng = cm.rng_for(ev['key'])
  batch, F, L, P = tuple(c['batch']), c['F'], c['L'], c['P']
  x = rng.uniform(-1, 1, batch + (P, (L + 1) ** 2, F))
  n = int(np.prod(batch))
  ks = [int(k) for k in (rng.integers(0, 3, n) if c['each'] else np.full(n, rng.integers(0, 3)))]
  full = []
  for k in ks:
    D = np.zeros(((L + 1) ** 2,) * 2)
    for l in range(L + 1):
      D[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2] = irreps.wigner(irreps.ELEMENTS[k][0], l, c['cart'])
    full.append(D)
  D = np.array(full).reshape(batch + full[0].shape) if c['each'] else full[0]
  y = np.asarray(e3x.nn.rotate(jnp.asarray(x, jnp.float32), jnp.asarray(D, jnp.float32)), np.float64)
  ev['shape'] = list(y.shape)
  if y.shape != x.shape:
    return
  xf, yf = x.reshape((n,) + x.shape[-3:]), y.reshape((n,) + x.shape[-3:])
  q = lambda v: np.rint(np.clip(v, -9, 9) * 10000).astype(int).tolist()
  ev['rows'] = [[ks[i] + 1, l, q(xf[i, p, l * l:(l + 1) ** 2, F - 1]), q(yf[i, p, l * l:(l + 1) ** 2, F - 1])]
                for i in range(n) for p in range(P) for l in range(L + 1)][:60]
  ref = np.stack([np.einsum('pmf,mn->pnf', xf[i], full[i]) for i in range(n)])
  ev['ppm'] = cm.ppm(yf, ref)


def shapes(c, ev):
  a, b = (jnp.ones(tuple(s), d) for s, d in ((c['a'], jnp.float32), (c['b'], DT[c['dtype']])))
  y = e3x.nn.add(a, b)
  ev['shape'] = list(y.shape)


def turnshape(c, ev):
  y = e3x.nn.rotate(jnp.ones(tuple(c['a'])), jnp.ones(tuple(c['b'])))
  ev['shape'] = list(y.shape)
