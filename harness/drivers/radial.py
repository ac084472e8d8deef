"""Radial sets, windows, cutoffs, mappings, damping and switching functions."""
import jax
import jax.numpy as jnp
import numpy as np

import e3x

U = 10000
SETS = ('bernstein', 'chebyshev', 'fourier', 'gaussian')


def setup(shared):
  pass


# ---- oracle in double precision ------------------------------------------------
def bern(m, K):
  m = np.clip(m, 0, 1)
  p = [np.ones_like(m)]
  for n in range(2, K + 1):
    p = [(m * p[k - 1] if k else 0) + ((1 - m) * p[k] if k < n - 1 else 0) for k in range(n)]
  return np.stack(p, -1)


def cheb(y, K):
  y = np.clip(y, -1, 1)
  p = [np.ones_like(y), y]
  while len(p) < K:
    p.append(2 * y * p[-1] - p[-2])
  return np.stack(p[:K], -1)


def unit_set(fam, m, K):
  k = np.arange(K)
  t = m[..., None]
  if fam == 'bernstein':
    return bern(m, K)
  if fam == 'chebyshev':
    return cheb(2 * m - 1, K)
  if fam == 'fourier':
    return np.cos(np.pi * k * t)
  if fam == 'gaussian':
    return np.exp(-np.sqrt(2 * K) * (K - 1) * (t - k / max(K - 1, 1)) ** 2)
  return np.where(t <= 1, np.sinc((k + 1) * t), 0)


def recmap(kind, x):
  if kind == 'shifted':
    return 1 / (1 + x)
  if kind == 'damped':
    s = np.where(x == 0, 1, x)
    return np.where(x == 0, 1, -np.expm1(-s) / s)
  return 1 / (x + np.exp(-x))


def expmap(g, cuspless, x):
  return np.exp(-g * (x + np.expm1(-x) if cuspless else x))


def switch01(t):
  s = np.where((t <= 0) | (t >= 1), .5, t)
  with np.errstate(over='ignore'):
    v = 1 / (1 + np.exp(np.sqrt(3) / 2 * (1 / s - 1 / (1 - s))))
  return np.where(t <= 0, 0, np.where(t >= 1, 1, v))


def oracle(c, x):
  K, lim = c['num'], c['limf']
  if c['fn'] == 'basic':
    return unit_set(c['fam'], x / lim, K)
  if c['fn'] in ('reciprocal', 'exponential'):
    m = recmap(c['kind'], x) if c['fn'] == 'reciprocal' else expmap(c['gammaf'], c['cuspless'], x)
    s = unit_set(c['fam'], m if c['fam'] == 'chebyshev' else 1 - m, K)
    return s * m[..., None] if c['weight'] else s
  p = x[..., None] * K / lim - np.arange(K) if K else None
  if c['fn'] == 'window':
    if c['fam'] == 'rectangular':
      return np.where((p >= 0) & (p <= 1), 1., 0.)
    if c['fam'] == 'triangular':
      return np.maximum(1 - np.abs(p), 0)
    return switch01(p + 1) - switch01(p)
  t = x / lim
  if c['fn'] == 'cutoff':
    if c['fam'] == 'cosine':
      return np.where(t < 1, .5 * np.cos(np.pi * np.minimum(t, 1)) + .5, 0)
    s = np.where(t < 1, t, 0)
    return np.where(t < 1, np.exp(1 - 1 / (1 - s * s)), 0)
  if c['fn'] == 'damping':
    d = -np.expm1(-c['gammaf'] * x)
    s = np.where(d > 0, d, 1)
    with np.errstate(over='ignore'):
      return np.where(d > 0, np.exp(-np.exp(-c['gammaf'] * x) / s), 0)
  if c['fn'] == 'reciprocal_mapping':
    return recmap(c['kind'], x)
  if c['fn'] == 'exponential_mapping':
    return expmap(c['gammaf'], c['cuspless'], x)
  return switch01((x - c['x0f']) / lim)


# ---- the call --------------------------------------------------------------------
def call(c):
  n = e3x.nn
  arr = (lambda v: jnp.asarray(v, jnp.float32)) if c['asarray'] else float
  K, lim, g = c['num'], arr(c['limf']), arr(c['gammaf'])
  dflt = c['limf'] == 1 and c['default']
  gk = {} if c['gammaf'] == 1 and c['default'] else {'gamma': g}
  if c['fn'] == 'basic':
    f = getattr(n, 'sinc' if c['fam'] == 'sinc' else 'basic_' + c['fam'])
    return lambda x: f(x, K) if dflt else f(x, num=K, limit=lim)
  if c['fn'] == 'reciprocal':
    f = getattr(n, 'reciprocal_' + c['fam'])
    kw = {} if c['default'] and c['kind'] == 'shifted' else {'kind': c['kind']}
    if c['weight'] or not c['default']:
      kw['use_reciprocal_weighting'] = c['weight']
    return lambda x: f(x, K, **kw)
  if c['fn'] == 'exponential':
    f = getattr(n, 'exponential_' + c['fam'])
    if c['cuspless'] or not c['default']:
      gk['cuspless'] = c['cuspless']
    if c['weight'] or not c['default']:
      gk['use_exponential_weighting'] = c['weight']
    return lambda x: f(x, K, **gk)
  if c['fn'] == 'window':
    f = getattr(n, c['fam'] + '_window')
    return lambda x: f(x, K) if dflt else f(x, num=K, limit=lim)
  if c['fn'] == 'cutoff':
    f = getattr(n, c['fam'] + '_cutoff')
    return lambda x: f(x) if dflt else f(x, cutoff=lim)
  if c['fn'] == 'damping':
    return lambda x: n.smooth_damping(x, **gk)
  if c['fn'] == 'reciprocal_mapping':
    return lambda x: n.reciprocal_mapping(x, **({} if c['default'] and c['kind'] == 'shifted' else {'kind': c['kind']}))
  if c['fn'] == 'exponential_mapping':
    if c['cuspless'] or not c['default']:
      gk['cuspless'] = c['cuspless']
    return lambda x: n.exponential_mapping(x, **gk)
  x0, x1 = arr(c['x0f']), arr(c['x0f'] + c['limf'])
  if c['default'] and c['x0f'] == 0 and c['limf'] == 1:
    return n.smooth_switch
  return lambda x: n.smooth_switch(x, x0=x0, x1=x1)


def points(c, rng):
  lim, K = c['limf'], max(c['num'], 1)
  top = 10. if c['fn'] in ('reciprocal', 'exponential', 'damping', 'reciprocal_mapping', 'exponential_mapping') else 1.3 * lim
  xs = np.unique(np.concatenate([[0., .0001, .01], rng.integers(1, int(top * U), 26) / U, lim * np.arange(1, 5) / 4,
                                 [top]]).round(4))
  if c['fn'] == 'switch':
    xs = np.unique(np.concatenate([xs + c['x0f'], [c['x0f'] - .5, c['x0f'] - 3]]).round(4))
  if c['fn'] == 'window':
    p = xs * K / lim
    if c['fam'] == 'rectangular':
      xs = xs[(np.abs(p - np.round(p)) > .002 * K) | ((xs > 1.01 * lim))]
  xs = xs[:36]
  return np.concatenate([xs, np.full(36 - len(xs), xs[-1])])    # one shape for all


def ppm(d):
  d = np.asarray(d, np.float64)
  if d.size == 0:
    return 0
  return 2 * 10 ** 9 if not np.all(np.isfinite(d)) else int(min(np.max(np.abs(d)) * 1e6, 2e9))


def run(c):
  ev = dict(c, op='radial', exc='')
  ev['key'] = ' '.join(f'{k}={c[k]}' for k in ('fn', 'fam', 'num', 'kind', 'cuspless', 'weight', 'lim', 'gamma', 'x0', 'asarray'))
  try:
    radial(c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def radial(c, ev):
  rng = np.random.default_rng([c['rep'], c['num'], c['lim']])
  c = dict(c, limf=c['lim'] / U, gammaf=c['gamma'] / U, x0f=c['x0'] / U)
  K = c['num']
  f = call(c)
  scalar = K == 0
  xs = points(c, rng)
  x32 = jnp.asarray(xs, jnp.float32)
  x64 = np.asarray(x32, np.float64)
  y = f(x32)
  ev['shapeok'] = tuple(y.shape) == tuple(x32.shape) + (() if scalar else (K,))
  ev['dtypeok'] = y.dtype == jnp.float32
  ya = np.asarray(y, np.float64)
  rows = ya[:, None] if scalar else ya
  ev['xs'] = [int(round(v * U)) for v in xs]
  ev['ys'] = [[int(round(float(np.clip(v, -1e4, 1e4)) * U)) if np.isfinite(v) else 123456789 for v in r] for r in rows]
  ev['valppm'] = ppm(ya - oracle(c, x64))
  ev['tolppm'] = 6 * (3 + K) * (2 if c['fam'] == 'chebyshev' else 1)
  # ---- derivatives where the formula is smooth and well conditioned
  lim = c['limf']
  t = (x64 - c['x0f']) / lim
  mid = (x64 - c['x0f'] > .2) & (t > .06)
  if c['fn'] in ('basic', 'window', 'cutoff', 'switch'):
    mid &= t < .94
  if c['fn'] == 'window' and c['fam'] != 'smooth':
    p = x64 * K / lim
    mid &= np.abs(p - np.round(p)) > .02
  if c['fn'] == 'reciprocal':
    m = recmap(c['kind'], x64)
    mid &= (m < .96) & (m > .04)
  if c['fn'] == 'exponential':
    m = expmap(c['gammaf'], c['cuspless'], x64)
    mid &= (m < .96) & (m > .04)
  one = jnp.ones_like
  d1f = lambda z: jax.jvp(f, (z,), (one(z),))[1]
  d2f = lambda z: jax.jvp(d1f, (z,), (one(z),))[1]
  both = jax.jit(lambda z: (f(z), d1f(z), d2f(z)))
  # ---- the ends of the domain
  e = 2. ** -23
  ends = [0, 1e-38, 1e-30, 1e-20, 1e-12, 1e-8, 5e-8, 1e-7, 2e-7, 1e-6, 1e-4, lim * (1 - e), lim * (1 - e / 2),
          lim, lim * (1 + e), lim * (1 + 4 * e), lim * 1.01, lim * 2, lim * 10, 50., 88., 104., 1e3, 1e4]
  if c['fn'] == 'switch':
    ends += [-1e4, -1., -1e-7, c['x0f'] - 1e-6]
    ends += [c['x0f'] + lim * q for q in (0, e / 2, e, 1e-3, .01, .02, .98, .99, 1 - e, 1, 1 + e)]
  ends += [0.] * (40 - len(ends))
  z32 = jnp.asarray(ends, jnp.float32)
  z64 = np.asarray(z32, np.float64)
  alls = [np.asarray(a, np.float64) for a in both(jnp.concatenate([x32, z32]))]
  v1, d1, d2 = (a[:len(xs)] for a in alls)
  vals = [a[len(xs):] for a in alls]
  ev['finite'] = bool(all(np.all(np.isfinite(a)) for a in alls))
  ev['jitppm'] = ppm(v1 - ya)
  h1, h2 = 1e-5, 1e-3
  o1 = (oracle(c, x64 + h1) - oracle(c, x64 - h1)) / (2 * h1)
  hh = min(h2, .01 * lim / max(K, 1))
  o2 = (-oracle(c, x64 + 2 * hh) + 16 * oracle(c, x64 + hh) - 30 * oracle(c, x64)
        + 16 * oracle(c, x64 - hh) - oracle(c, x64 - 2 * hh)) / (12 * hh * hh)
  s1 = 1 + np.abs(o1[mid]).max(initial=0)
  s2 = 1 + np.abs(o2[mid]).max(initial=0)
  ev['d1ppm'], ev['d2ppm'] = ppm((d1 - o1)[mid] / s1), ppm((d2 - o2)[mid] / s2)
  ev['told1'], ev['told2'] = 60 + 6 * K, 2000
  # right derivatives at the origin
  h = 2e-4 * min(lim, 1) / max(K, 1)
  F = [oracle(c, np.array([k * h]))[0] for k in range(6)]
  r1 = (-137 / 60 * F[0] + 5 * F[1] - 5 * F[2] + 10 / 3 * F[3] - 5 / 4 * F[4] + F[5] / 5) / h
  r2 = (15 / 4 * F[0] - 77 / 6 * F[1] + 107 / 6 * F[2] - 13 * F[3] + 61 / 12 * F[4] - 5 / 6 * F[5]) / h ** 2
  has0 = not (c['fn'] == 'window' and c['fam'] != 'smooth')
  ev['e1ppm'] = max(ppm((d - r1) / (1 + np.abs(r1).max() + 1e-4 * np.abs(r2).max())) for d in alls[1][len(xs):len(xs) + 8]) if has0 else 0
  ev['e2ppm'] = ppm((alls[2][len(xs)] - r2) / (1 + np.abs(r2).max())) if has0 else 0
  zo = oracle(c, z64)
  err = np.asarray(vals[0], np.float64) - zo
  # the argument of a periodic function is only known to rounding error
  keep = np.ones(len(ends), bool)
  if c['fam'] in ('fourier', 'sinc') and c['fn'] == 'basic':
    keep = z64 <= 2 * lim
  if c['fam'] == 'rectangular':
    keep = (np.abs(z64 - lim) > .001 * lim) & (np.abs(z64 * K / lim - np.round(z64 * K / lim)) > .001) | (z64 > 1.005 * lim)
  ev['endppm'] = ppm(err[keep])
  # ---- shapes
  n = (len(xs) // 6) * 6
  a = x32[:n].reshape(2, 3, -1)
  ya2 = np.asarray(f(a), np.float64)
  g = np.asarray(f(x32[3]), np.float64)
  ev['shapes'] = bool(ya2.shape == a.shape + ya.shape[1:] and np.allclose(ya2.reshape(ya[:n].shape), ya[:n], atol=3e-6)
                      and g.shape == ya.shape[1:] and np.allclose(g, ya[3], atol=3e-6)
                      and f(jnp.zeros((0, 2))).shape == (0, 2) + ya.shape[1:])
