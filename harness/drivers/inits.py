"""Initializers of tensor-product kernels."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import e3x
from drivers import common as cm

U = 10000
TN = 0.87962566103423978
TNC = 0.95311164380491208
DT = {'float32': jnp.float32, 'float16': jnp.float16, 'bfloat16': jnp.bfloat16, 'complex64': jnp.complex64}


def setup(shared):
  cm.use_tables(shared)


def run(c):
  ev = dict(c, exc='', key=' '.join(f'{k}={v}' for k, v in sorted(c.items())))
  try:
    (fused if c['op'] == 'fused' else kernel)(c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def measure(w, dist, scale):
  """(all zero, variance, variance implied by the bound) of a sample."""
  zero = int(np.all(w == 0))
  v = float(np.mean(np.abs(w) ** 2)) / scale
  top = float(np.max(np.abs(w))) ** 2 / scale
  if np.iscomplexobj(w):                 # uniform in a disk, or normal with |z| cut at two standard deviations
    b = top / 2 if dist == 'uniform' else top * TNC ** 2 / 4
  else:
    b = top / 3 if dist == 'uniform' else top * TN ** 2 / 4
  fix = lambda x: int(min(round(x * U), 10 ** 5)) if np.isfinite(x) else 10 ** 5
  return zero, fix(v), fix(b)


def stats(ev, W, rng):
  """W: (rows, n) samples of the rows that are not zero."""
  n = W.shape[-1]
  if not len(W):
    ev.update(meansigma=0, corrsigma=0, kurt=-1)
    return
  Z = W / np.sqrt(np.mean(np.abs(W) ** 2, 1, keepdims=True) + 1e-30)
  ev['meansigma'] = int(10 * np.max(np.abs(Z.mean(1))) * np.sqrt(n))
  if np.iscomplexobj(W):                 # no preferred phase
    ev['meansigma'] = max(ev['meansigma'], int(10 * np.max(np.abs((Z ** 2).mean(1))) * np.sqrt(n)))
  pick = rng.permutation(len(Z))[:40]
  C = np.abs(Z[pick] @ Z[pick].conj().T) / np.sqrt(n)
  np.fill_diagonal(C, 0)
  lag = np.abs(np.sum(Z[:, 1:] * Z[:, :-1].conj(), 1)) / np.sqrt(n)
  ev['corrsigma'] = int(10 * max(C.max(initial=0), lag.max()))
  ev['kurt'] = -1 if np.iscomplexobj(W) else int(round(100 * float(np.mean(Z ** 4))))


RULE = {'glorot': (1., 'fan_avg'), 'xavier': (1., 'fan_avg'), 'lecun': (1., 'fan_in'), 'he': (2., 'fan_in'),
        'kaiming': (2., 'fan_in')}


def kernel(c, ev):
  rng = cm.rng_for(sorted(c.items()))
  (P1, L1), (P2, L2), (P3, L3) = c['types']
  F = c['F']
  shape = (P1, L1 + 1, P2, L2 + 1, P3, L3 + 1, F)
  dt = DT[c['dtype']]
  I = e3x.nn.initializers
  k1, k2 = jax.random.split(jax.random.PRNGKey(c['rep'] + 17))
  dist = c['dist']
  if c['name'] == 'layer':
    mod = e3x.nn.Tensor(max_degree=L3, include_pseudotensors=c['incl'], param_dtype=dt)
    x = jnp.zeros((P1, (L1 + 1) ** 2, F)), jnp.zeros((P2, (L2 + 1) ** 2, F))

    def init(key):
      p = jax.tree_util.tree_leaves(mod.init(key, *x))
      p = [a for a in p if a.ndim == 7]
      return p[0]
    a, b, d = init(k1), init(k1), init(k2)
    dist, scale = 'truncated_normal', 1.
  else:
    if c['name'] == 'variance_scaling':
      scale = c['scale'] / 10
      mk = lambda **kw: I.tensor_variance_scaling(scale, c['mode'], dist, **kw)
    else:
      dist = 'uniform' if c['name'].endswith('uniform') else 'truncated_normal'
      scale = 1.
      mk = lambda **kw: getattr(I, c['name'])(**kw)
    if c['how'] == 'call':
      f = mk()
      g = lambda k: f(k, shape, dt)
    else:
      f = mk(dtype=dt)
      g = lambda k: f(k, shape)
    a, b, d = g(k1), jax.jit(g)(k1), g(k2)
  ev['shapeok'] = tuple(a.shape) == shape
  ev['dtypeok'] = a.dtype == dt
  A, B, D = (np.asarray(v).astype(np.complex128 if c['dtype'] == 'complex64' else np.float64) for v in (a, b, d))
  nz = A != 0
  ev['repeat'] = bool(np.allclose(A, B, atol=1e-6 if c['dtype'] == 'float32' else 2e-3)
                      and (np.mean(np.abs(A - D)[nz] < 1e-9) < .2 if nz.any() else True))
  rows, live = [], []
  for p1, l1, p2, l2, p3, l3 in itertools.product(*(range(s) for s in shape[:-1])):
    w = A[p1, l1, p2, l2, p3, l3]
    z, v, t = measure(w, dist, 1.)
    rows.append([p1, l1, p2, l2, p3, l3, z, v, t])
    if not z:
      live.append(w)
  ev['rows'] = rows
  stats(ev, np.array(live), rng)


def fused(c, ev):
  rng = cm.rng_for(sorted(c.items()))
  L, F = c['L'], c['F']
  dt = DT[c['dtype']]
  f = getattr(e3x.nn.initializers, 'fused_tensor_' + ('uniform' if c['dist'] == 'uniform' else 'normal'))
  sc = np.full(L + 1, c['scale'] / 10) if c['scalar'] else np.round(rng.uniform(.2, 3, L + 1), 2)
  mk = np.zeros(L + 1, bool) if c['nomask'] else rng.random(L + 1) < .4
  kw = {}
  if not (c['scalar'] and c['scale'] == 10):
    kw['scale'] = float(sc[0]) if c['scalar'] else jnp.asarray(sc, jnp.float32)[:, None]
  if not c['nomask']:
    kw['mask'] = jnp.asarray(~mk)[:, None]
  k1, k2 = jax.random.split(jax.random.PRNGKey(c['rep'] + 5))
  if c['how'] == 'call':
    g = f(**kw)
    a, b, d = g(k1, (L + 1, F), dt), g(k1, (L + 1, F), dt), g(k2, (L + 1, F), dt)
  else:
    g = f(**kw, dtype=dt)
    a, b, d = g(k1, (L + 1, F)), g(k1, (L + 1, F)), g(k2, (L + 1, F))
  ev['shapeok'], ev['dtypeok'] = a.shape == (L + 1, F), a.dtype == dt
  A, B, D = (np.asarray(v).astype(np.complex128 if c['dtype'] == 'complex64' else np.float64) for v in (a, b, d))
  nz = A != 0
  ev['repeat'] = bool(np.array_equal(A, B) and (np.mean(np.abs(A - D)[nz] < 1e-9) < .2 if nz.any() else True))
  ev['rows'] = []
  live = []
  for l in range(L + 1):
    z, v, t = measure(A[l], c['dist'], 1.)
    ev['rows'].append([int(mk[l]), z, v, t, int(round(sc[l] * U))])
    if not z:
      live.append(A[l])
  stats(ev, np.array(live), rng)
