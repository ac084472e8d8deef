"""Programs of equivariant layers on x and g.x; layers on zero and single slots."""
import math

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np

import e3x
import irreps
from drivers import common as cm
from drivers.tensor import mask, slots

CLOSED = {'relu', 'relu6', 'hard_silu', 'hard_swish'}   # gates that can be exactly zero


def setup(shared):
  cm.use_tables(shared)


class Program(nn.Module):
  prog: tuple
  feats: int
  cart: bool

  @nn.compact
  def __call__(self, x):
    src = x
    for o in self.prog:
      o = dict(o)
      k = o['op']
      if k == 'dense':
        x = e3x.nn.Dense(self.feats, use_bias=o['bias'])(x)
      elif k == 'act':
        x = getattr(e3x.nn, o['fn'])(x)
      elif k == 'change':
        x = e3x.nn.change_max_degree_or_type(
            x, max_degree=o['L'], include_pseudotensors=o['P'] == 2)
      elif k == 'add':
        x = e3x.nn.add(x, e3x.nn.Dense(x.shape[-1], use_bias=False)(src))
      elif k == 'tdense':
        kw = {} if o['L'] < 0 else {'max_degree': o['L']}
        x = e3x.nn.TensorDense(self.feats, include_pseudotensors=o['incl'],
                               use_fused_tensor=o['fused'], use_bias=False,
                               cartesian_order=self.cart, **kw)(x)
    return x


def run(c):
  return {'prog': prog, 'layer': layer, 'embed': embed}[c['op']](c)


def prog(c):
  rng = cm.rng_for(sorted(c.items()))
  b = tuple(c['b'])
  x = rng.normal(size=(*b, c['P'], (c['L'] + 1) ** 2, c['F'])).astype(np.float32)
  ev = {'op': 'prog', 'cart': c['cart'], 'oP': c['oP'], 'oL': c['oL'], 'oocc': c['occ'],
        'P': 0, 'L': 0, 'exc': '',
        # closed gates and algebraic coincidences (x . (y x z) for few features)
        'dead': (any(o['op'] == 'act' and o['fn'] in CLOSED for o in c['prog'])
                 or sum(o['op'] == 'tdense' for o in c['prog']) > (c['F'] > 1)),
        'key': f"prog {c['P']},{c['L']} F={c['F']} b={b} cart={c['cart']} "
               + ' '.join('/'.join(str(v) for v in o.values()) for o in c['prog'])}
  mod = Program(tuple(tuple(o.items()) for o in c['prog']), c['F'], c['cart'])
  try:
    par = cm.init_params(mod, rng, jnp.asarray(x))
    # Keep the values moderate: the shape of the program decides the degree.
    par = jax.tree_util.tree_map(lambda a: 0.7 * a, par)
    rows = np.stack([np.asarray(v, np.float32) for v in
                     [x] + [irreps.feat(g, x, c['cart']) for g in irreps.ELEMENTS]])
    y = cm.apply_rows(lambda a: mod.apply(par, a), jnp.asarray(rows))
  except Exception as ex:  # pylint: disable=broad-except
    return [dict(ev, exc=type(ex).__name__, msg=str(ex)[:300])]
  ev['P'], ev['L'] = y.shape[-3], math.isqrt(y.shape[-2]) - 1
  ev['blocks'], ev['ppm'] = cm.quantise_pair(y[0], y[1:7], c['cart'], sample=2)
  ev['occ'] = cm.occupancy(y[0], 1e-6)
  ev['finite'] = cm.finite(y)
  return [ev]


def make(c):
  k = c['kind']
  if k == 'dense':
    return e3x.nn.Dense(c['Fout'], use_bias=c['bias'])
  return None


def layer(c):
  """A single Dense or activation: zero input, single slots, features, linearity."""
  rng = cm.rng_for(sorted(c.items()))
  P, L, F, b = c['P'], c['L'], c['F'], tuple(c['b'])
  x = rng.normal(size=(*b, P, (L + 1) ** 2, F)).astype(np.float32)
  z = rng.normal(size=x.shape).astype(np.float32)
  ev = {'op': 'layer', 'kind': c['kind'], 'P': P, 'L': L, 'bias': c.get('bias', False), 'cart': c['cart'],
        'exc': '', 'batch': list(b), 'Fout': c['Fout'] if c['kind'] == 'dense' else F,
        'key': f"{c['kind']} {c.get('fn', '')} {P},{L} F={F}->{c['Fout']} b={b} bias={c.get('bias')}"}
  sl = slots(P, L)
  try:
    if c['kind'] == 'dense':
      mod = e3x.nn.Dense(c['Fout'], use_bias=c['bias'])
      par = cm.init_params(mod, rng, jnp.asarray(x))
      fn = lambda a: mod.apply(par, a)
    else:
      fn = getattr(e3x.nn, c['fn'])
    rows = [x] + [irreps.feat(g, x, c['cart']) for g in irreps.ELEMENTS]
    rows += [np.zeros_like(x)] + [mask(x, [s]) for s in sl] + [z, x + 2 * z]
    rows = np.stack([np.asarray(v, np.float32) for v in rows])
    y = cm.apply_rows(fn, jnp.asarray(rows))
    one = cm.apply_rows(fn, jnp.asarray(x.reshape(-1, *x.shape[-3:]))).reshape(y[0].shape)
  except Exception as ex:  # pylint: disable=broad-except
    return [dict(ev, exc=type(ex).__name__, msg=str(ex)[:300])]
  ev['shape'] = list(y.shape[1:])
  if y.shape[-3] != P or y.shape[-2] != (L + 1) ** 2:
    return [ev]
  ev['blocks'], ev['ppm'] = cm.quantise_pair(y[0], y[1:7], c['cart'], sample=2)
  big = np.max(np.abs(y[0]), initial=1e-30)
  occ = lambda v: [[p, l] for p, l, q in cm.blocks(v) if np.max(np.abs(q), initial=0) > 1e-5 * big]
  ev['zero'] = occ(y[7])
  ev['single'] = [{'in': list(s), 'out': occ(y[8 + i])} for i, s in enumerate(sl)]
  ev['batchppm'] = cm.ppm(y[0], one)
  n = len(sl)
  if c['kind'] == 'dense':
    # affine: f(x + 2z) - f(0) = f(x) + 2 f(z) - 3 f(0)
    ev['linppm'] = cm.ppm(y[9 + n], y[0] + 2 * y[8 + n] - 2 * y[7])
    ev['slotppm'] = cm.ppm(y[0] - y[7], sum(y[8 + i] - y[7] for i in range(n)))
  else:
    ev['linppm'] = ev['slotppm'] = 0
  ev['closed'] = c.get('fn', '') in CLOSED
  return [ev]


def embed(c):
  rng = cm.rng_for(sorted(c.items()))
  idx = rng.integers(0, c['num'], size=tuple(c['b']))
  if c['edge']:
    idx = np.resize(np.array([0, c['num'] - 1, c['num'] // 2]), tuple(c['b']))
  mod = e3x.nn.Embed(num_embeddings=c['num'], features=c['F'])
  ev = {'op': 'embed', 'exc': '', 'batch': c['b'], 'F': c['F'],
        'key': f"embed {c['num']} F={c['F']} b={c['b']}"}
  try:
    par = cm.init_params(mod, rng, jnp.asarray(idx))
    y = np.asarray(mod.apply(par, jnp.asarray(idx)))
    tab = np.asarray(jax.tree_util.tree_leaves(par)[0]).reshape(c['num'], c['F'])
  except Exception as ex:  # pylint: disable=broad-except
    return [dict(ev, exc=type(ex).__name__, msg=str(ex)[:300])]
  ev['shape'] = list(y.shape)
  ev['ppm'] = cm.ppm(y.reshape(-1), tab[idx].reshape(-1)) if y.size == idx.size * c['F'] else 2000000000
  return [ev]
