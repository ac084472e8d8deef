"""Tensor, FusedTensor and TensorDense on x, g.x, single slots and single weights."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

import e3x
import irreps
from drivers import common as cm


def setup(shared):
  cm.use_tables(shared)


def slots(P, L):
  return [(p, l) for p in range(P) for l in range(L + 1)]


def mask(x, keep):
  y = np.zeros_like(x)
  for p, l in keep:
    y[..., p, l * l:(l + 1) ** 2, :] = x[..., p, l * l:(l + 1) ** 2, :]
  return y


def couples(P1, s1, P2, s2, P3, s3):
  par = lambda P, s: s[0] if P == 2 else s[1] % 2
  return (abs(s1[1] - s2[1]) <= s3[1] <= s1[1] + s2[1]
          and (par(P1, s1) + par(P2, s2)) % 2 == par(P3, s3))


def reference(kernel, x1, x2, cart):
  """Weighted sum of Clebsch-Gordan products over the allowed paths."""
  P1, n1, P2, n2, P3, n3, _ = kernel.shape
  cg = np.asarray(e3x.so3.clebsch_gordan(n1 - 1, n2 - 1, n3 - 1, cartesian_order=cart), np.float64)
  bs = np.broadcast_shapes(x1.shape[:-3], x2.shape[:-3])
  out = np.zeros((*bs, P3, n3 * n3, kernel.shape[-1]))
  for (p1, l1), (p2, l2), (p3, l3) in itertools.product(slots(P1, n1 - 1), slots(P2, n2 - 1), slots(P3, n3 - 1)):
    if couples(P1, (p1, l1), P2, (p2, l2), P3, (p3, l3)):
      s1, s2, s3 = (slice(l * l, (l + 1) ** 2) for l in (l1, l2, l3))
      out[..., p3, s3, :] += kernel[p1, l1, p2, l2, p3, l3] * np.einsum(
          '...af,...bf,abc->...cf', x1[..., p1, s1, :], x2[..., p2, s2, :], cg[s1, s2, s3])
  return out


def run(c):
  return tdense(c) if c['kind'].startswith('tdense') else tensor(c)


def tensor(c):
  rng = cm.rng_for(sorted(c.items()))
  P1, L1, P2, L2, F = c['P1'], c['L1'], c['P2'], c['L2'], c['F']
  b1, b2 = tuple(c['b1']), tuple(c['b2'])
  cls = e3x.nn.Tensor if c['kind'] == 'tensor' else e3x.nn.FusedTensor
  kw = {} if c['L3'] < 0 else {'max_degree': c['L3']}
  mod = cls(include_pseudotensors=c['incl'], cartesian_order=c['cart'], **kw)
  x1 = rng.normal(size=(*b1, P1, (L1 + 1) ** 2, F)).astype(np.float32)
  x2 = rng.normal(size=(*b2, P2, (L2 + 1) ** 2, F)).astype(np.float32)
  z1 = rng.normal(size=x1.shape).astype(np.float32)
  z2 = rng.normal(size=x2.shape).astype(np.float32)
  ev = {'op': 'tensor', 'kind': c['kind'], 'P1': P1, 'L1': L1, 'P2': P2, 'L2': L2,
        'L3': c['L3'], 'incl': c['incl'], 'cart': c['cart'], 'F': F,
        'batch': list(np.broadcast_shapes(b1, b2)), 'exc': '', 'P': 0, 'L': 0}
  ev['key'] = f"{c['kind']} {P1},{L1} x {P2},{L2} -> {c['L3']} incl={c['incl']} cart={c['cart']} F={F} {b1} {b2}"
  try:
    par = cm.init_params(mod, rng, jnp.asarray(x1), jnp.asarray(x2))
    rows = [(par, x1, x2)]
    for g in irreps.ELEMENTS:
      rows.append((par, irreps.feat(g, x1, c['cart']), irreps.feat(g, x2, c['cart'])))
    pr = list(itertools.product(slots(P1, L1), slots(P2, L2)))
    i_pair = len(rows)
    rows += [(par, mask(x1, [a]), mask(x2, [b])) for a, b in pr]
    i_lin = len(rows)
    rows += [(par, z1, x2), (par, x1 + 2 * z1, x2), (par, x1, z2), (par, x1, x2 - 3 * z2)]
    y1, y2 = x1.copy(), x2.copy()
    y1[..., 0] = z1[..., 0]
    y2[..., 0] = z2[..., 0]
    rows += [(par, y1, y2)]
    leaves = jax.tree_util.tree_leaves(par)
    out_t = jax.eval_shape(lambda: mod.apply(par, jnp.asarray(x1), jnp.asarray(x2)))
    shape = out_t.shape
    P3, L3 = shape[-3], math.isqrt(shape[-2]) - 1
    kshape = (P1, L1 + 1, P2, L2 + 1, P3, L3 + 1, F)
    paths = []
    if len(leaves) == 1 and leaves[0].shape == kshape:
      tri = list(itertools.product(slots(P1, L1), slots(P2, L2), slots(P3, L3)))
      if len(tri) > c['npaths']:
        tri = [tri[i] for i in sorted(rng.choice(len(tri), c['npaths'], replace=False))]
      i_path = len(rows)
      for a, b, d in tri:
        k = np.zeros(kshape, np.float32)
        k[a[0], a[1], b[0], b[1], d[0], d[1]] = np.asarray(leaves[0])[a[0], a[1], b[0], b[1], d[0], d[1]]
        rows.append((jax.tree_util.tree_map(lambda _: k, par), x1, x2))
      paths = [(i_path + i, t) for i, t in enumerate(tri)]
    stack = lambda xs: jnp.asarray(np.stack([np.asarray(x, np.float32) for x in xs]))
    ps = jax.tree_util.tree_map(lambda *a: stack(a), *[r[0] for r in rows])
    y = cm.apply_rows(mod.apply, ps, stack([r[1] for r in rows]), stack([r[2] for r in rows]))
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'] = type(ex).__name__
    ev['msg'] = str(ex)[:200]
    return [ev]
  ev['P'], ev['L'], ev['shape'] = P3, L3, list(shape)
  ev['blocks'], ev['ppm'] = cm.quantise_pair(y[0], y[1:7], c['cart'], sample=c.get('cols', 3))
  ev['occ'] = cm.occupancy(y[0])
  big = np.max(np.abs(y[0]), initial=1e-30)
  occ = lambda v: [[p, l] for p, l, b in cm.blocks(v) if np.max(np.abs(b), initial=0) > 1e-5 * big]
  ev['pairs'] = [{'a': list(a), 'b': list(b), 'out': occ(y[i_pair + i])} for i, (a, b) in enumerate(pr)]
  ev['paths'] = [{'a': list(a), 'b': list(b), 'c': list(d), 'out': occ(y[i])} for i, (a, b, d) in paths]
  ev['refppm'] = (cm.ppm(y[0], reference(np.asarray(leaves[0], np.float64), x1.astype(float), x2.astype(float), c['cart']))
                  if len(leaves) == 1 and leaves[0].shape == kshape else 0)
  w = y[i_lin:i_lin + 5]
  ev['linppm'] = max(cm.ppm(w[1], y[0] + 2 * w[0]), cm.ppm(w[3], y[0] - 3 * w[2]))
  ev['mixppm'] = cm.ppm(w[4][..., 1:], y[0][..., 1:])
  ev['batchppm'] = 0
  if b1 or b2:
    bs = np.broadcast_shapes(b1, b2)
    f1 = np.broadcast_to(x1, (*bs, *x1.shape[-3:])).reshape(-1, *x1.shape[-3:])
    f2 = np.broadcast_to(x2, (*bs, *x2.shape[-3:])).reshape(-1, *x2.shape[-3:])
    one = cm.apply_rows(lambda a, b: mod.apply(par, a, b), jnp.asarray(f1), jnp.asarray(f2))
    ev['batchppm'] = cm.ppm(y[0], np.asarray(one).reshape(y[0].shape))
  return [ev]


def tdense(c):
  rng = cm.rng_for(sorted(c.items()))
  P1, L1, F = c['P1'], c['L1'], c['F']
  b = tuple(c['b1'])
  kw = {} if c['L3'] < 0 else {'max_degree': c['L3']}
  if c['Fout']:
    kw['features'] = c['Fout']
  mod = e3x.nn.TensorDense(use_bias=c['bias'], include_pseudotensors=c['incl'],
                           cartesian_order=c['cart'],
                           use_fused_tensor=c['kind'] == 'tdense_fused', **kw)
  x = rng.normal(size=(*b, P1, (L1 + 1) ** 2, F)).astype(np.float32)
  ev = {'op': 'tdense', 'kind': c['kind'], 'P1': P1, 'L1': L1, 'L3': c['L3'],
        'incl': c['incl'], 'cart': c['cart'], 'Fout': c['Fout'] or F, 'batch': list(b),
        'bias': c['bias'], 'exc': '', 'P': 0, 'L': 0}
  ev['key'] = f"{c['kind']} {P1},{L1} -> {c['L3']} incl={c['incl']} cart={c['cart']} bias={c['bias']} F={F}->{c['Fout']} {b}"
  try:
    par = cm.init_params(mod, rng, jnp.asarray(x))
    rows = [x] + [irreps.feat(g, x, c['cart']) for g in irreps.ELEMENTS]
    sl = slots(P1, L1)
    ins = [[s] for s in sl] + [list(p) for p in itertools.combinations(sl, 2)][:12] + [sl]
    rows += [mask(x, k) for k in ins]
    y = cm.apply_rows(lambda a: mod.apply(par, a),
                      jnp.asarray(np.stack([np.asarray(r, np.float32) for r in rows])))
    one = y[0]
    if b:
      one = cm.apply_rows(lambda a: mod.apply(par, a),
                          jnp.asarray(x.reshape(-1, *x.shape[-3:]))).reshape(y[0].shape)
  except Exception as ex:  # pylint: disable=broad-except
    ev['exc'] = type(ex).__name__
    ev['msg'] = str(ex)[:200]
    return [ev]
  ev['shape'] = list(y.shape[1:])
  ev['P'], ev['L'] = y.shape[-3], math.isqrt(y.shape[-2]) - 1
  ev['blocks'], ev['ppm'] = cm.quantise_pair(y[0], y[1:7], c['cart'], sample=c.get('cols', 3))
  ev['batchppm'] = cm.ppm(y[0], one)
  big = np.max(np.abs(y[0]), initial=1e-30)
  ev['occs'] = [{'in': [list(s) for s in k],
                 'out': [[p, l] for p, l, v in cm.blocks(y[7 + i])
                         if np.max(np.abs(v), initial=0) > 1e-5 * big]}
                for i, k in enumerate(ins)]
  return [ev]
