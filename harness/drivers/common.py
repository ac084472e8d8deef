"""Helpers shared by the drivers of the real code."""
import functools
import math
import os

import jax
import jax.numpy as jnp
import numpy as np

import e3x
import irreps

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def use_tables(shared, memo=True):
  """Uses the scratch caches and memoises coefficient tables in this process."""
  d = (shared or {}).get('tables')
  if d:
    for name, setter in (('cg.npz', e3x.Config.set_clebsch_gordan_cache),
                         ('wd.npz', e3x.Config.set_wigner_d_cache)):
      # Read only: every worker gets its own copy of the file.
      src = os.path.join(d, name)
      if os.path.exists(src):
        dst = os.path.join(os.environ.get('TMPDIR', '/tmp'), f'{os.getpid()}_{name}')
        with open(src, 'rb') as f, open(dst, 'wb') as g:
          g.write(f.read())
        setter(dst)
  if not memo:
    return
  memo = {}
  real = e3x.so3.clebsch_gordan

  @functools.wraps(real)
  def clebsch_gordan(*a, **k):
    key = (a, tuple(sorted(k.items())), e3x.Config.cartesian_order)
    if key not in memo:
      memo[key] = real(*a, **k)
    return memo[key]
  e3x.so3.clebsch_gordan = clebsch_gordan


def rng_for(*key):
  h = SEED
  for c in repr(key):
    h = (h * 1000003 ^ ord(c)) & 0x7fffffff
  return np.random.default_rng(h)


def random_params(shapes, rng):
  """Random values for every leaf, bounded away from zero."""
  def one(s):
    v = rng.uniform(0.4, 1.3, size=s.shape) * rng.choice([-1.0, 1.0], size=s.shape)
    return jnp.asarray(v, s.dtype)
  return jax.tree_util.tree_map(one, shapes)


def init_params(module, rng, *args, **kw):
  shapes = jax.eval_shape(
      lambda: module.init(jax.random.PRNGKey(0), *args, **kw))
  return random_params(shapes, rng)


def blocks(y):
  """(p, l, array) of the blocks of features (..., P, (L+1)^2, F)."""
  lmax = math.isqrt(y.shape[-2]) - 1
  for p in range(y.shape[-3]):
    for l in range(lmax + 1):
      yield p, l, y[..., p, l * l:(l + 1) ** 2, :]


def occupancy(y, rel=1e-5):
  """Slots [p, l] of y (..., P, (L+1)^2, F) that are not zero."""
  y = np.asarray(y, np.float64)
  m = np.max(np.abs(y), initial=0.0)
  return [[p, l] for p, l, b in blocks(y)
          if np.max(np.abs(b), initial=0.0) > rel * m and m > 0]


def finite(*xs):
  return all(bool(np.all(np.isfinite(np.asarray(x, np.float64)))) for x in xs)


def quantise_pair(y, yg, cart, sample=4, unit=10000):
  """Fixed-point record of y and its transforms yg[k] (one per group element).

  Returns (blocks, worst): blocks is a list of [p, l, cols] where cols is a list
  of [y_m..., then per element yg_m...] for up to `sample` (batch, feature)
  columns; worst is the largest deviation in ppm over everything.
  """
  y = np.asarray(y, np.float64)
  yg = np.asarray(yg, np.float64)
  glob = max(np.max(np.abs(y), initial=0.0), np.max(np.abs(yg), initial=0.0), 1e-30)
  want = np.stack([irreps.feat(g, y, cart) for g in irreps.ELEMENTS])
  out, worst = [], 0
  for (p, l, b), (_, _, bg), (_, _, bw) in zip(blocks(y), blocks(yg), blocks(want)):
    scale = max(np.max(np.abs(b), initial=0.0), np.max(np.abs(bg), initial=0.0), 0.02 * glob)
    dev = np.max(np.abs(bg - bw), initial=0.0) / scale
    worst = max(worst, dev)
    cols = np.moveaxis(b, -2, -1).reshape(-1, 2 * l + 1)
    gcols = np.moveaxis(bg, -2, -1).reshape(len(bg), -1, 2 * l + 1)
    pick = np.unique(np.linspace(0, len(cols) - 1, min(sample, len(cols))).astype(int))
    q = lambda a: np.rint(np.clip(np.nan_to_num(a / scale, nan=9), -9, 9) * unit).astype(int).tolist()
    out.append({'p': p, 'l': l, 'y': [q(cols[i]) for i in pick],
                'g': [[q(gcols[k, i]) for i in pick] for k in range(len(bg))]})
  worst = worst if np.isfinite(worst) else 1e3
  return out, int(min(worst * 1e6, 2e9))


def ppm(a, b, floor=0.0):
  """Largest deviation of a from b in ppm of the largest value."""
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  if a.shape != b.shape:
    return 2000000000
  if a.size == 0:
    return 0
  if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
    same = np.array_equal(np.isfinite(a), np.isfinite(b)) and np.array_equal(
        np.nan_to_num(a[~np.isfinite(a)], nan=7), np.nan_to_num(b[~np.isfinite(b)], nan=7))
    if not same:
      return 2000000000
    f = np.isfinite(a)
    return ppm(a[f], b[f], floor)
  s = max(np.max(np.abs(a)), np.max(np.abs(b)), floor, 1e-300)
  return int(min(np.max(np.abs(a - b)) / s * 1e6, 2e9))


def attempt(fn, *a, **k):
  """(result, '') or (None, exception name)."""
  try:
    return jax.block_until_ready(fn(*a, **k)), ''
  except Exception as ex:  # pylint: disable=broad-except
    return None, type(ex).__name__


def apply_rows(fn, *stacks):
  """fn on every row of the stacked arguments, in one vmapped call if possible.

  XLA's CPU compiler rejects some valid programs with internal verifier errors
  (independent of this library); then the rows are run one by one, compiled or
  eagerly.
  """
  n = jax.tree_util.tree_leaves(stacks)[0].shape[0]
  row = lambda i: jax.tree_util.tree_map(lambda a: a[i], stacks)
  each = lambda f: np.stack([np.asarray(f(*row(i)), np.float64) for i in range(n)])
  for k, run in enumerate((lambda: np.asarray(jax.jit(jax.vmap(fn))(*stacks), np.float64),
                           lambda: each(jax.jit(fn)), lambda: each(fn))):
    try:
      return run()
    except jax.errors.JaxRuntimeError as ex:
      if 'INTERNAL' not in str(ex) or k == 2:
        raise
