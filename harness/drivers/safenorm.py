"""ops.norm, ops.normalize, ops.normalize_and_return_norm."""
import jax
import jax.numpy as jnp
import numpy as np

import e3x
from drivers import common as cm

U = 10000
PYTH = {1: [((1,), 1), ((7,), 7)],
        2: [((3, 4), 5), ((5, 12), 13), ((8, 15), 17), ((0, 6), 6)],
        3: [((1, 2, 2), 3), ((2, 3, 6), 7), ((1, 4, 8), 9), ((0, 0, 5), 5), ((2, 10, 11), 15)],
        4: [((1, 1, 1, 1), 2), ((1, 3, 3, 9), 10), ((2, 4, 5, 6), 9), ((0, 2, 0, 0), 2)]}


def setup(shared):
  pass


def scales(mix, n, rng):
  if mix == 'one':
    return [int(rng.integers(-3, 4))] * n
  if mix == 'zeros':
    return [int(k) for k in rng.integers(-30, 30, n)]
  if mix == 'wide':
    return [int(k) for k in rng.integers(-115, 118, n)]
  if mix == 'tiny':
    return [int(k) for k in rng.integers(-118, -55, n)]
  if mix == 'huge':
    return [int(k) for k in rng.integers(60, 120, n)]
  return [int(rng.choice([-118, -69, -68, -61, -60, 0, 62, 63, 64, 117])) for _ in range(n)]


def build(shape, axes, mix, rng):
  keep = [i for i in range(len(shape)) if i not in axes]
  ng = int(np.prod([shape[i] for i in keep], dtype=int))
  size = int(np.prod([shape[i] for i in axes], dtype=int))
  vs, ns = [], []
  for g in range(ng):
    p, n = PYTH[min(size, int(rng.integers(2, 5)) if size > 1 else 1)][0], 0
    opts = PYTH[min(size, int(rng.integers(1, 5)))]
    p, n = opts[int(rng.integers(len(opts)))]
    v = np.zeros(size)
    pos = rng.permutation(size)[:len(p)]
    v[pos] = np.array(p) * rng.choice([-1, 1], len(p))
    if mix != 'one' and rng.random() < (.5 if mix == 'zeros' else .12):
      v, n = np.zeros(size), 0
    vs.append(v)
    ns.append(int(n))
  ks = scales(mix, ng, rng)
  return keep, np.array(vs).reshape(ng, size), ns, ks


def to_groups(a, keep, axes):
  a = np.transpose(np.asarray(a, np.float64), (*keep, *axes))
  return a.reshape(int(np.prod(a.shape[:len(keep)], dtype=int)), -1)


def from_groups(g, shape, keep, axes):
  a = np.reshape(g, [shape[i] for i in (*keep, *axes)])
  return np.transpose(a, np.argsort((*keep, *axes)))


def everything(x, t, w, ax, kw):
  n = e3x.ops.norm(x, **kw)
  y = e3x.ops.normalize(x, axis=ax)
  y2, n2 = e3x.ops.normalize_and_return_norm(x, **kw)
  grad = jax.grad(lambda x: jnp.sum(e3x.ops.norm(x, **kw)))
  g, h = jax.jvp(grad, (x,), (t,))
  _, turn = jax.jvp(lambda x: e3x.ops.normalize(x, axis=ax), (x,), (t,))
  second = jax.grad(lambda x: jnp.sum(jax.grad(lambda x: jnp.sum(w * e3x.ops.normalize(x, axis=ax)))(x)))(x)
  both = jax.grad(lambda x: sum(jnp.sum(o) for o in e3x.ops.normalize_and_return_norm(x, **kw)))(x)
  fwd = jax.jvp(lambda x: e3x.ops.norm(x, **kw), (x,), (t,))[1]
  return n, y, y2, n2, g, h, turn, second, both, fwd


def run(c):
  ev = dict(c, op='norm', exc='', key=f"norm shape={c['shape']} axes={c['axes']} keep={c['keep']} mix={c['mix']} "
            f"neg={c['neg']} rep={c['rep']}")
  shape, axes = tuple(c['shape']), tuple(sorted(a - 1 for a in c['axes']))
  rng = cm.rng_for(ev['key'])
  keep, vs, ns, ks = build(shape, axes, c['mix'], rng)
  kk = np.array(ks, np.float64)
  two = 2.0 ** kk[:, None]
  x = jnp.asarray(from_groups(vs * two, shape, keep, axes), jnp.float32)
  ts = rng.integers(-3, 4, vs.shape)
  t = jnp.asarray(from_groups(ts * np.where(kk[:, None] < 55, two, 1.0), shape, keep, axes), jnp.float32)
  ax = tuple(a - len(shape) for a in axes) if c['neg'] else axes
  ax = ax[0] if len(ax) == 1 else ax
  if len(axes) == len(shape) and c['rep'] % 2:
    ax = None
  kw = {'axis': ax}
  if c['keep'] or c['rep'] % 2:
    kw['keepdims'] = c['keep']
  try:
    w = jnp.asarray(rng.normal(size=shape), jnp.float32)
    n, y, y2, n2, g, h, turn, second, both, fwd = jax.jit(lambda x, t, w: everything(x, t, w, ax, kw))(x, t, w)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
    return [ev]
  ev['nshape'], ev['nshape2'], ev['yshape'] = list(np.shape(n)), list(np.shape(n2)), list(np.shape(y))
  ev['agree'] = bool(np.allclose(n, n2, rtol=1e-6, atol=0) and np.allclose(y, y2, rtol=1e-6, atol=0))
  # Second derivatives of directions are of the order 1/n^2, not representable
  # for tiny vectors.
  big = np.all((kk > -55) | (np.array(ns) == 0))
  ev['finite'] = cm.finite(n, y, g, h, turn, both, fwd) and (not big or cm.finite(second))
  gr = lambda a: to_groups(a, keep, axes)
  ev['groups'] = []
  if np.shape(y) == shape and np.size(n) == len(ns):
    # a numpy view of the norm, one per group
    nn = np.asarray(n, np.float64).ravel()
    G, H, Y, T = gr(g), gr(h), gr(y), gr(turn)
    i32 = lambda a: [int(v) for v in np.rint(np.clip(np.nan_to_num(a, nan=9e8), -9e8, 9e8))]
    for i, k in enumerate(ks):
      small = k <= -68
      ev['groups'].append({
          'v': i32(vs[i]), 'nv': ns[i], 'k': k, 't': i32(ts[i]),
          'norm': i32([nn[i] / 2.0 ** k * 10000])[0], 'unit': i32(Y[i] * U / (2.0 ** k if small else 1)),
          'grad': i32(G[i] * U), 'hess': i32(H[i] * U), 'turn': i32(T[i] * U)})
    if len(ev['groups']) > 24:
      ev['groups'] = ev['groups'][:24]
  return [ev]
