"""Matrices of irreducible blocks."""
import math

import jax
import jax.numpy as jnp
import numpy as np

import e3x
import irreps
from drivers import common as cm

mm = e3x.matrix.matmat
U = 10000


def setup(shared):
  cm.use_tables(shared)


def run(c):
  ev = dict(c, exc='', key=' '.join(f'{k}={v}' for k, v in sorted(c.items())))
  try:
    {'assemble': assemble, 'weights': weights, 'chain': chain}[c['op']](c, ev)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'], ev['msg'] = type(ex).__name__, str(ex)[:200]
  return [ev]


def number(ds, top, l):
  return sum(abs(a - b) <= l <= min(a + b, top) for a in ds for b in ds)


def tables(ds, top):
  return np.asarray(e3x.so3.clebsch_gordan(max(ds), max(ds), top, cartesian_order=True), np.float64)


def dense(c, x, shift):
  """The matrix by its definition, from the table of coupling coefficients."""
  ds, mult, top = c['ds'], c['mult'], c['max']
  cg = tables(ds, top)
  side = mult * sum(2 * d + 1 for d in ds)
  out = np.zeros((side, side))
  used = [0] * len(x)
  ra = 0
  for a in ds:
    rb = 0
    for b in ds:
      for r in range(mult):
        for s in range(mult):
          blk = np.zeros((2 * a + 1, 2 * b + 1))
          for l in range(abs(a - b), min(a + b, top) + 1):
            v = x[l][:, used[l] + r * mult + s]
            blk += cg[a * a:(a + 1) ** 2, b * b:(b + 1) ** 2, l * l:(l + 1) ** 2] @ v
          i, j = ra + r * (2 * a + 1), rb + s * (2 * b + 1)
          out[i:i + 2 * a + 1, j:j + 2 * b + 1] = blk
      for l in range(abs(a - b), min(a + b, top) + 1):
        used[l] += mult * mult
      rb += mult * (2 * b + 1)
    ra += mult * (2 * a + 1)
  return out + (np.eye(side) if shift else 0)


def call(c, x, shift):
  f = e3x.matrix.make_square_matrix
  y = f([jnp.asarray(v, jnp.float32) for v in x], c['ds'], c['mult'], c['max'], shift, c['precision'])
  return np.asarray(y, np.float64), y.dtype


def rotate(g, x):
  return [np.einsum('mf,mn->nf', v, irreps.wigner(g, l, True)) for l, v in enumerate(x)]


def block_d(c, g):
  ds, mult = c['ds'], c['mult']
  side = mult * sum(2 * d + 1 for d in ds)
  out = np.zeros((side, side))
  i = 0
  for d in ds:
    for _ in range(mult):
      out[i:i + 2 * d + 1, i:i + 2 * d + 1] = irreps.wigner(g, d, True)
      i += 2 * d + 1
  return out


def assemble(c, ev):
  ds, mult, top = c['ds'], c['mult'], c['max']
  rng = cm.rng_for(ev['key'])
  n = mm.make_dict_irreps_mult(ds) if c['nomax'] else mm.make_dict_irreps_mult(ds, top)
  ev['number'] = [int(n.get(l, 0)) for l in range(2 * max(ds) + 3)]
  ev['sides'] = [int(v) for v in mm.compute_side_lengths(ds)]
  # ---- which entries does every irrep feed?
  x0 = [np.zeros((2 * l + 1, mult * mult * number(ds, top, l))) for l in range(top + 1)]
  ev['place'] = []
  todo = [(l, k) for l in range(top + 1) for k in range(x0[l].shape[1])]
  if len(todo) > 36:
    todo = [todo[i] for i in sorted(rng.permutation(len(todo))[:36])]
  zero = call(c, x0, c['shift'])[0]
  for l, k in todo:
    x = [v.copy() for v in x0]
    x[l][:, k] = rng.uniform(.4, 1, 2 * l + 1) * rng.choice([-1, 1], 2 * l + 1)
    y = call(c, x, c['shift'])[0] - zero
    r, s = np.nonzero(np.abs(y) > 1e-6)
    ev['place'].append([l, k] + ([int(r.min()) + 1, int(r.max()) + 1, int(s.min()) + 1, int(s.max()) + 1] if len(r) else [0] * 4)
                       + [int(round(U * float(np.sum(y * y) / np.sum(x[l] ** 2))))])
  ev['zeroid'] = bool(np.array_equal(zero, np.eye(len(zero)) * c['shift']))
  # ---- a generic matrix
  x = [rng.uniform(-1, 1, v.shape) for v in x0]
  y, dt = call(c, x, c['shift'])
  ev['shape'], ev['dtypeok'] = list(y.shape), dt == jnp.float32
  ev['refppm'] = cm.ppm(y, dense(c, x, c['shift']))
  ev['shiftppm'] = cm.ppm(y - (call(c, x, not c['shift'])[0]), np.eye(len(y)) * (1 if c['shift'] else -1))
  z = [rng.uniform(-1, 1, v.shape) for v in x0]
  lin = call(c, [2 * a - 3 * b for a, b in zip(x, z)], False)[0]
  ev['linppm'] = cm.ppm(lin, 2 * call(c, x, False)[0] - 3 * call(c, z, False)[0])
  # ---- rotations
  q = lambda a: np.rint(np.clip(np.nan_to_num(a, nan=9), -9, 9) / 4 * U).astype(int).tolist()
  ev['mat'] = q(y)
  ev['rotated'] = []
  worst = tr = 0
  traces = np.asarray(mm.get_traces(jnp.asarray(y, jnp.float32), ds, mult, c['shift']), np.float64)
  for g in ('quarterZ', 'cycle3', 'third'):
    yg = call(c, rotate(g, x), c['shift'])[0]
    ev['rotated'].append(q(yg))
    d = block_d(c, g)
    worst = max(worst, cm.ppm(yg, d.T @ y @ d))
    tg = np.asarray(mm.get_traces(jnp.asarray(yg, jnp.float32), ds, mult, c['shift']), np.float64)
    tr = max(tr, cm.ppm(tg, traces, 1.))
  ev['equippm'], ev['traceinv'] = worst, tr
  # ---- traces and the scalar irreps
  ev['traces'] = [int(round(U * v)) for v in traces]
  ev['scalars'] = [int(round(U * v)) for v in x[0][0]]
  # ---- compiled
  f = jax.jit(lambda v: e3x.matrix.make_square_matrix(v, ds, mult, top, c['shift'], c['precision']))
  ev['jitppm'] = cm.ppm(np.asarray(f([jnp.asarray(v, jnp.float32) for v in x]), np.float64), y)


def weights(c, ev):
  ds, mult = c['ds'], c['mult']
  n = mm.make_dict_irreps_mult(ds, c['max'])
  sd = c['stddev'] / 10
  f = lambda k: e3x.matrix.init_matrix_irreps_weights(jax.random.PRNGKey(k), c['shells'], n, mult, sd)
  w = f(c['rep'])
  ev['shapes'] = [list(a.shape) for a in w]
  # degree l: variance times (2l+1) is stddev^2
  ev['var'] = [int(round(U * float(np.mean(np.asarray(a, np.float64) ** 2)) / sd ** 2)) if a.size else -1 for a in w]
  ev['size'] = [int(a.size) for a in w]
  z = [np.asarray(a, np.float64).ravel() / (np.std(np.asarray(a, np.float64)) + 1e-30) for a in w if a.size]
  ev['meansigma'] = max(int(10 * abs(v.mean()) * math.sqrt(len(v))) for v in z)
  ev['corrsigma'] = max([int(10 * abs(np.mean(a[:m] * b[:m])) * math.sqrt(m)) for i, a in enumerate(z)
                         for b in z[:i] for m in [min(len(a), len(b))]] + [0])
  same = all(np.array_equal(a, b) for a, b in zip(w, f(c['rep'])))
  other = all(not np.array_equal(a, b) for a, b in zip(w, f(c['rep'] + 1)) if a.size)
  ev['repeat'] = bool(same and other)


def chain(c, ev):
  """Features -> irreps -> matrix, for a batch of features."""
  ds, mult, top, batch = c['ds'], c['mult'], c['max'], tuple(c['batch'])
  rng = cm.rng_for(ev['key'])
  n = mm.make_dict_irreps_mult(ds, top)
  w = e3x.matrix.init_matrix_irreps_weights(jax.random.PRNGKey(c['rep']), c['shells'], n, mult, 1.)
  lw = len(w) - 1
  feat = rng.uniform(-1, 1, batch + ((lw + 1 + c['extra']) ** 2, c['shells']))
  def full(x):
    r = mm.combine_irreps(x, w, c['precision'])
    g = lambda *v: e3x.matrix.make_square_matrix(list(v), ds, mult, max(top, lw), c['shift'], c['precision'])
    for _ in batch:
      g = jax.vmap(g)
    return r, g(*r)
  x32 = jnp.asarray(feat, jnp.float32)
  irr, y = full(x32)
  ev['shapes'] = [list(a.shape) for a in irr]
  ref = [np.einsum('fo,...vf->...vo', np.asarray(w[l], np.float64), feat[..., l * l:(l + 1) ** 2, :]) for l in range(lw + 1)]
  ev['refppm'] = max(cm.ppm(a, b) for a, b in zip(irr, ref))
  y = np.asarray(y, np.float64)
  ev['shape'] = list(y.shape)
  worst = 0
  for g in ('cycle3', 'third'):
    xg = np.concatenate([np.einsum('...mf,mn->...nf', feat[..., l * l:(l + 1) ** 2, :], irreps.wigner(g, l, True))
                         for l in range(lw + 1)] + [feat[..., (lw + 1) ** 2:, :]], -2)
    yg = np.asarray(full(jnp.asarray(xg, jnp.float32))[1], np.float64)
    d = block_d(c, g)
    worst = max(worst, cm.ppm(yg, np.einsum('ji,...jk,kl->...il', d, y, d)))
  ev['equippm'] = worst
