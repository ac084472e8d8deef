"""Activation functions."""
import math

import jax
import jax.numpy as jnp
import numpy as np

import e3x

U = 10000
ERF = np.vectorize(math.erf)


def setup(shared):
  pass


def gate(name, par, x):
  """s(x)/x in double precision, accurate everywhere."""
  x = np.asarray(x, np.float64)
  ax = np.abs(x)
  nz = np.where(x == 0, 1, x)
  softplus = np.maximum(x, 0) + np.log1p(np.exp(-ax))
  neg = np.minimum(x, 0)
  negz = np.where(neg == 0, 1, neg)
  if name == 'relu':
    return np.where(x > 0, 1., 0.)
  if name == 'leaky_relu':
    return np.where(x >= 0, 1., par)
  if name == 'elu':
    return np.where(x > 0, 1., np.where(x == 0, par, par * np.expm1(neg) / negz))
  if name == 'selu':
    return 1.0507009873554805 * gate('elu', 1.6732632423543772, x)
  if name == 'celu':
    return np.where(x >= 0, 1., par * np.expm1(neg / par) / negz)
  if name in ('silu', 'swish'):
    return np.where(x >= 0, 1 / (1 + np.exp(-ax)), np.exp(-ax) / (1 + np.exp(-ax)))
  if name == 'gelu_approx':
    return .5 * (1 + np.tanh(math.sqrt(2 / math.pi) * (x + .044715 * x ** 3)))
  if name == 'gelu_exact':
    return .5 * (1 + ERF(x / math.sqrt(2)))
  if name in ('mish_fast', 'mish_exact'):
    return np.tanh(softplus)
  if name == 'serf':
    return ERF(softplus)
  if name == 'shifted_softplus':
    q = np.log1p(np.expm1(-ax) / 2) / np.where(ax == 0, 1, ax)
    q = np.where(ax == 0, -.5, q)
    return np.where(x > 0, 1 + q, -q)
  if name == 'hard_tanh':
    return np.where(ax > 1, 1 / np.where(ax > 1, ax, 1), 1)
  if name == 'soft_sign':
    return 1 / (1 + ax)
  if name == 'relu6':
    return np.where(x > 0, np.minimum(1, 6 / np.where(x > 0, x, 1)), 0)
  if name in ('hard_silu', 'hard_swish'):
    return np.clip(x + 3, 0, 6) / 6
  return 1 + .5 * x / (np.sqrt(x * x + 1) + 1)


KINKS = {'relu': [0], 'leaky_relu': [0], 'elu': [0], 'selu': [0], 'celu': [0], 'hard_tanh': [-1, 1],
         'relu6': [0, 6], 'hard_silu': [-3, 3], 'hard_swish': [-3, 3], 'soft_sign': [0]}


def call(c):
  n, par, name = e3x.nn, c['par'] / U, c['name']
  if name in ('leaky_relu', 'elu', 'celu'):
    f = getattr(n, name)
    key = 'negative_slope' if name == 'leaky_relu' else 'alpha'
    if c['how'] == 'default' and par == (.01 if name == 'leaky_relu' else 1.):
      return f
    return (lambda x: f(x, par)) if c['how'] == 'position' else (lambda x: f(x, **{key: par}))
  if name.startswith('gelu'):
    a = name == 'gelu_approx'
    return n.gelu if a and c['how'] == 'default' else (lambda x: n.gelu(x, approximate=a))
  if name.startswith('mish'):
    a = name == 'mish_fast'
    return n.mish if a and c['how'] == 'default' else (lambda x: n.mish(x, fast=a))
  return getattr(n, name)


def ppm(d):
  d = np.asarray(d, np.float64)
  if d.size == 0:
    return 0
  return 2 * 10 ** 9 if not np.all(np.isfinite(d)) else int(min(np.max(np.abs(d)) * 1e6, 2e9))


def run(c):
  ev = dict(c, op='act', exc='', key=' '.join(f'{k}={v}' for k, v in sorted(c.items())))
  try:
    act(c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def act(c, ev):
  rng = np.random.default_rng([c['rep'], c['P'], c['L'], len(c['name'])])
  f, par, name = call(c), c['par'] / U, c['name']
  shape = (*c['batch'], c['P'], (c['L'] + 1) ** 2, c['F'])
  n = int(np.prod(shape[:-3], dtype=int)) * c['F']
  x = rng.integers(-30000, 30000, shape) / U
  s = rng.integers(-79000, 79000, n) / U
  special = np.array([0, 1, -1, 3, -3, 6, -6, .5, -.5, 7.9, -7.9, .0001, -.0001, .05, -.2])
  k = rng.permutation(n)[:max(1, n // 2)]
  s[k] = rng.choice(special, len(k))
  s = s.reshape(*c['batch'], c['F'])
  x[..., 0, 0, :] = s
  x32 = jnp.asarray(x, jnp.float32)
  x64 = np.asarray(x32, np.float64)
  y = f(x32)
  ok = y.shape == x32.shape and y.dtype == jnp.float32
  for dt in (jnp.float16, jnp.bfloat16):
    z = f(x32.astype(dt))
    ok = ok and z.dtype == dt and z.shape == x32.shape
  ev['shapeok'] = bool(ok)
  ya = np.asarray(y, np.float64)
  fix = lambda v: int(round(float(v) * U)) if np.isfinite(v) and abs(v) < 1e4 else 123456789
  flat = lambda a: np.moveaxis(np.asarray(a).reshape(-1, c['P'] * (c['L'] + 1) ** 2, c['F']), 1, 2).reshape(
      -1, c['P'] * (c['L'] + 1) ** 2)
  xf, yf = flat(x), flat(ya)
  sel = range(len(xf)) if len(xf) <= 24 else range(24)
  ev['groups'] = [{'x': fix(xf[i][0]), 'v': [fix(v) for v in xf[i]], 'y': [fix(v) for v in yf[i]]} for i in sel]
  s64 = np.broadcast_to(x64[..., 0:1, 0:1, :], x64.shape)
  g = gate(name, par, s64)
  ev['valppm'] = ppm((ya - g * x64) / (1 + np.abs(x64)))
  # ---- derivatives, along the scalar and along the other components
  sc = np.zeros(shape)
  sc[..., 0, 0, :] = 1
  t = rng.integers(-10, 10, shape) / 10 * (1 - sc)
  d = jax.jit(lambda a, u: jax.jvp(f, (a,), (u,))[1])
  ds = np.asarray(d(x32, jnp.asarray(sc, jnp.float32)), np.float64)
  do = np.asarray(d(x32, jnp.asarray(t, jnp.float32)), np.float64)
  h = 1e-5
  gp = (gate(name, par, s64 + h) - gate(name, par, s64 - h)) / (2 * h)
  good = np.abs(s64) > .04
  for kk in KINKS.get(name, []):
    good &= np.abs(s64 - kk) > 1e-3
  ev['d1ppm'] = max(ppm(((ds - gp * x64 - g * sc) / (1 + np.abs(x64)))[good]), ppm(do - g * t))
  # ---- independence
  b = tuple(int(rng.integers(q)) for q in c['batch'])
  fi = int(rng.integers(c['F']))
  x2 = x32.at[(*b, slice(None), slice(None), fi)].add(.7)
  same = np.asarray(f(x2)) == np.asarray(y)
  mask = np.ones(shape, bool)
  mask[(*b, slice(None), slice(None), fi)] = False
  ev['independent'] = bool(np.all(same[mask]))
  # ---- tiny and huge inputs
  mag = [0, 2e-38, 1e-30, 1e-20, 1e-12, 1e-8, 1.1e-7, 1.3e-7, 3e-7, 1e-6, 1e-5, 1e-4, 1e-3, 9, 15, 20, 40, 87, 88.5, 89,
         104, 2e3, 3000, 1e4, 1e6, 1e10, 1e12, 1.8e19, 1e20, 1e25, 1e30, 1e36, 1e38]
  mag += [k / 16 for k in range(1, 129)]
  e = np.array(mag + [-m for m in mag])
  z = np.stack([e, np.where(np.arange(len(e)) % 2, 1., -.5), np.zeros(len(e)), np.full(len(e), 2.)], 0)
  z32 = jnp.asarray(z, jnp.float32)[None]
  z64 = np.asarray(z32, np.float64)
  v, j1, j2 = jax.jit(lambda a: (f(a), jax.jvp(f, (a,), (jnp.zeros_like(a).at[:, 0].set(1),))[1],
                                 jax.jvp(f, (a,), (jnp.zeros_like(a).at[:, 1].set(1),))[1]))(z32)
  rev = jax.grad(lambda a: jnp.sum(jnp.sin(jnp.clip(f(a), -10, 10))))(z32)
  ev['finite'] = bool(all(np.all(np.isfinite(np.asarray(a))) for a in (v, j1, j2, rev)))
  ez = z64[:, 0:1]
  with np.errstate(over='ignore'):
    ge = gate(name, par, ez)
  big = np.abs(ez) < 1e37
  err = np.where(big, (np.asarray(v, np.float64) - ge * z64), 0) / (1e-30 + np.abs(z64))
  err = np.where(z64 == 0, 0, err)
  tiny = np.abs(z64) < 1e-36
  ev['endppm'] = ppm(np.where(tiny, 0, err))
