"""e3x.nn.basis and ExponentialBasis."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
import harmonics as H
from drivers import common as cm
from drivers import radial as R

U = 10000


def setup(shared):
  pass


def run(c):
  ev = dict(c, exc='', key=' '.join(f'{k}={v}' for k, v in sorted(c.items()) if k not in ('vs', 'xs')))
  try:
    expand(c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def radial_fn(c):
  n = e3x.nn
  if c['fn'] == 'basic':
    return functools.partial(getattr(n, 'sinc' if c['fam'] == 'sinc' else 'basic_' + c['fam']), limit=c['lim'] / U)
  if c['fn'] == 'reciprocal':
    f = getattr(n, 'reciprocal_' + c['fam'])
    return functools.partial(f, kind=c['kind'], use_reciprocal_weighting=c['weight'])
  f = getattr(n, 'exponential_' + c['fam'])
  f = functools.partial(f, cuspless=c['cuspless'], use_exponential_weighting=c['weight'])
  return f if c['module'] else functools.partial(f, gamma=c['gamma'] / U)


def options(c):
  kw = dict(max_degree=c['L'], num=c['num'], radial_fn=radial_fn(c))
  if c['cut'] != 'none':
    kw['cutoff_fn'] = functools.partial(getattr(e3x.nn, c['cut'] + '_cutoff'), cutoff=c['cutlim'] / U)
  if c['damp']:
    kw['damping_fn'] = functools.partial(e3x.nn.smooth_damping, gamma=c['dgamma'] / U)
  if c['ang'] == 'solid':
    kw['angular_fn'] = e3x.so3.solid_harmonics
  elif c['ang'] != 'default':
    kw['angular_fn'] = functools.partial(e3x.so3.spherical_harmonics, r_is_normalized=True, normalization=c['ang'])
  for k, o in (('return_cutoff', 'retcut'), ('return_norm', 'retnorm')):
    if c[o] or c['explicit']:
      kw[k] = c[o]
  e3x.Config.set_cartesian_order(c['cart'] if c['order'] == 'config' else not c['cart'])
  if c['order'] != 'config':
    kw['cartesian_order'] = c['cart']
  return kw


def oracle(c, r):
  """float64 value of every entry, shape (..., (L+1)^2, num)."""
  x = np.linalg.norm(r, axis=-1)
  q = dict(c, limf=c['lim'] / U, gammaf=c['gamma'] / U, x0f=0.)
  rad = R.oracle(q, x)
  cut = np.ones_like(x)
  if c['cut'] != 'none':
    cut = R.oracle(dict(fn='cutoff', fam=c['cut'], num=0, limf=c['cutlim'] / U), x)
  u = r / np.where(x > 0, x, 1)[..., None]
  y = H.solid(u, c['L'])[..., H.flat_order(c['L'], c['cart'])]
  y = y * np.concatenate([[H.factor(c['norm'], l)] * (2 * l + 1) for l in range(c['L'] + 1)])
  out = y[..., None] * (rad * cut[..., None])[..., None, :]
  if c['damp']:
    d = R.oracle(dict(fn='damping', num=0, limf=1., gammaf=c['dgamma'] / U), x)
    out[..., 1:, :] *= d[..., None, None]
  return out, cut, x


def expand(c, ev):
  kw = options(c)
  u = np.array([[a / d['n'] for a in d['v']] for d in c['vs']], np.float64)
  r64 = u * (np.array(c['xs']) / U)[:, None]
  n = len(u)
  shape = {'flat': (n,), 'grid': (2, n // 2), 'lead': (1, n, 1)}[c['batch']]
  r = jnp.asarray(r64.reshape(*shape, 3), jnp.float32)
  rf = np.asarray(r, np.float64).reshape(n, 3)
  if c['module']:
    m = e3x.nn.ExponentialBasis(**({} if c['gamma'] == U and not c['explicit'] else {'initial_gamma': c['gamma'] / U}))
    var = m.init(jax.random.PRNGKey(0), r, **kw)
    leaves = jax.tree_util.tree_leaves(var)
    ev['params'] = [list(a.shape) for a in leaves]
    ev['dtypeok'] = all(a.dtype == jnp.float32 for a in leaves)
    ev['gammappm'] = cm.ppm(np.log1p(np.exp(np.asarray(leaves[0], np.float64))), c['gamma'] / U)
    # another value of the parameter
    g2 = c['gamma2'] / U
    var2 = jax.tree_util.tree_map(lambda a: jnp.asarray(np.log(np.expm1(g2)), a.dtype), var)
    o2 = m.apply(var2, r, **kw)
    o2 = o2[0] if isinstance(o2, tuple) else o2
    ev['gamma2ppm'] = cm.ppm(np.asarray(o2, np.float64).reshape(n, -1, c['num']),
                             oracle(dict(c, gamma=c['gamma2']), rf)[0], 1.)
    f = lambda z: m.apply(var, z, **kw)
    gg = jax.grad(lambda v: jnp.sum(jnp.square((lambda o: o[0] if isinstance(o, tuple) else o)(m.apply(v, r, **kw)))))(var2)
    gl = np.asarray(jax.tree_util.tree_leaves(gg)[0], np.float64)
    ev['paramgrad'] = bool(np.all(np.isfinite(gl)))
  else:
    ev.update(params=[], dtypeok=True, gammappm=0, gamma2ppm=0, paramgrad=True)
    f = lambda z: e3x.nn.basis(z, **kw)
  out = f(r)
  parts = list(out) if isinstance(out, tuple) else [out]
  ev['nout'], ev['tuple'] = len(parts), isinstance(out, tuple)
  want = (*shape, 1, (c['L'] + 1) ** 2, c['num'])
  ev['shapeok'] = tuple(parts[0].shape) == want and all(tuple(p.shape) == shape for p in parts[1:])
  ev['dtypeok'] = bool(ev['dtypeok'] and all(p.dtype == jnp.float32 for p in parts))
  if not ev['shapeok']:
    return
  y = np.asarray(parts[0], np.float64).reshape(n, *want[-2:])
  o, cut, x = oracle(c, rf)
  fx = lambda a: np.rint(np.clip(np.nan_to_num(a, nan=9), -20, 20) * U).astype(int).tolist()
  ev['y'] = fx(y)
  ev['ppm'] = cm.ppm(y, o, 1.)
  extra = [np.asarray(p, np.float64).reshape(n) for p in parts[1:]]
  ev['extra'] = [fx(e) for e in extra]
  wants = ([cut] if c['retcut'] else []) + ([x] if c['retnorm'] else [])
  ev['extrappm'] = max([cm.ppm(a, b, 1.) for a, b in zip(extra, wants)] + [0]) if len(wants) == len(extra) else 10 ** 9
  # ---- single elements and compiled calls
  first = lambda v: v[0] if isinstance(v, tuple) else v
  g = lambda z: first(f(z))
  ev['singleppm'] = cm.ppm(np.stack([np.asarray(g(jnp.asarray(rf[i], jnp.float32)), np.float64)[0] for i in (0, n - 1)]),
                           y[[0, n - 1]], 1.)
  gj = jax.jit(g)
  ev['jitppm'] = cm.ppm(np.asarray(gj(r), np.float64).reshape(y.shape), y, 1.)
  ev['empty'] = tuple(g(jnp.zeros((0, 3))).shape) == (0,) + want[-3:]
  # ---- derivatives
  rng = cm.rng_for(ev['key'])
  t = rng.normal(size=(n, 3))
  t /= np.linalg.norm(t, axis=-1, keepdims=True)
  d1 = lambda z, w: jax.jvp(g, (z,), (w,))[1]
  tiny = np.concatenate([rf, u[:1] * np.array([0, 1e-40, 1e-38, 1e-30, 1e-25, 1e-20, 1e-19, 1e-18, 1e-12, 1e-6])[:, None],
                         u[-1:] * np.array([1e3, 1e6, c['cutlim'] / U, c['cutlim'] / U * (1 - 2 ** -23), c['lim'] / U])[:, None],
                         [[0, 0, 1e-20], [1e-30, 0, 1e-3]]])
  w = np.resize(t, tiny.shape)
  both = jax.jit(lambda z, w: (g(z), d1(z, w), jax.vjp(g, z)[1](jnp.ones(z.shape[:-1] + want[-3:]))[0],
                               jax.jvp(lambda q: d1(q, w), (z,), (w,))[1]))
  v, j, b, h = (np.asarray(a, np.float64) for a in both(jnp.asarray(tiny, jnp.float32), jnp.asarray(w, jnp.float32)))
  ev['finite'] = bool(np.all(np.isfinite(v)) and np.all(np.isfinite(j)) and np.all(np.isfinite(b)))
  x = np.linalg.norm(tiny, axis=-1)
  ok2 = (x == 0) | (x > 1e-9)
  ev['finite2'] = bool(np.all(np.isfinite(h[ok2])))
  e = 1e-5
  fd = (oracle(c, rf + e * t)[0] - oracle(c, rf - e * t)[0]) / (2 * e)
  xx = np.linalg.norm(rf, axis=-1)
  mid = xx > .2
  for flag, lim in ((c['cut'] != 'none', c['cutlim'] / U), (c['fn'] == 'basic', c['lim'] / U)):
    if flag:
      mid &= (np.abs(xx / lim - 1) > .05)
  if c['fn'] == 'basic':
    mid &= xx < c['lim'] / U
  if c['fn'] != 'basic':
    m = R.recmap(c['kind'], xx) if c['fn'] == 'reciprocal' else R.expmap(c['gamma'] / U, c['cuspless'], xx)
    mid &= (m < .96) & (m > .04)
  ev['d1ppm'] = cm.ppm(j[:n][mid].reshape(fd[mid].shape), fd[mid], 1.) if mid.any() else 0
