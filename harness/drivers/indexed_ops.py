"""Drives gather/reduce/softmax of e3x.ops on sparse and dense index lists."""
import random

import e3x
import jax
import jax.numpy as jnp
import numpy as np

LN2 = float(np.log(2.0))
INF = 2000000


def exc_name(ex):
  return type(ex).__name__


def to_int(a):
  """Integers (with the identities of min/max mapped to +-INF)."""
  a = np.asarray(a)
  if np.issubdtype(a.dtype, np.integer):
    info = np.iinfo(a.dtype)
    r = a.astype(np.int64)
    r = np.where(a == info.max, INF, np.where(a == info.min, -INF, r))
    return r, True
  f = a.astype(np.float64)
  r = np.where(np.isposinf(f), INF, np.where(np.isneginf(f), -INF, f))
  bad = ~np.isfinite(r)
  r = np.where(bad, 1500000, r)
  r = np.clip(r, -INF, INF)
  ok = not bad.any() and bool((np.abs(r - np.round(r)) < 1e-3).all())
  return np.round(r).astype(np.int64), ok


def bat(a, nb):
  a = np.asarray(a)
  return a.reshape((int(np.prod(a.shape[:nb])),) + a.shape[nb:]).tolist()


def flat(a, nb, nkeep):
  """Reshapes to (batch, kept axes..., everything else)."""
  a = np.asarray(a)
  keep = a.shape[nb:nb + nkeep]
  b = int(np.prod(a.shape[:nb]))
  return a.reshape((b,) + keep + (int(np.prod(a.shape[nb + nkeep:])),))


def run(c):
  rng = np.random.default_rng(c['seed'])
  ev = []
  bshape, n = tuple(c['bshape']), c['n']
  nb = len(bshape)
  dst = np.array(c['dst'], np.int32).reshape(bshape + (-1,))
  src = np.array(c['src'], np.int32).reshape(bshape + (-1,))
  adj = np.array(c['adj'], np.int32)
  width = adj.shape[-1] if adj.ndim == 3 else 0
  adj = adj.reshape(bshape + (n, width))
  fshape = tuple(c['fshape'])
  dt = c['dtype']
  ns = c.get('nsrc', n)
  # Dense mask: padding plus randomly masked entries.
  where = adj < ns
  if c['mask_more']:
    where = where & (rng.random(adj.shape) < 0.7)
  nf = int(np.prod(fshape))
  sorted_ok = c['sorted']

  def rnd(shape):
    return rng.integers(-50, 50, size=shape).astype(np.int32)

  # gather
  x = rnd(bshape + (ns,) + fshape)
  y = rnd(bshape + (n,) + fshape)
  for lay, fn, inp, idx, kw, nk in (
      ('sparse', e3x.ops.gather_src, x, src, 'src_idx', 1),
      ('dense', e3x.ops.gather_src, x, adj, 'adj_idx', 2),
      ('sparse', e3x.ops.gather_dst, y, dst, 'dst_idx', 1),
      ('rows', e3x.ops.gather_dst, y, adj, 'adj_idx', 2)):
    e = {'op': 'gather', 'lay': lay, 'n': inp.shape[nb], 'exc': '', 'fn': fn.__name__,
         'x': flat(inp, nb, 1).tolist(), 'idx': bat(idx, nb)}
    try:
      o = np.asarray(fn(jnp.asarray(inp).astype(dt), **{kw: jnp.asarray(idx)}))
      e['oshape'] = list(o.shape)
      e['want'] = list((bshape + (n, 1) if lay == 'rows' else idx.shape) + fshape)
      e['out'] = flat(to_int(o)[0], nb, nk).tolist()
    except Exception as ex:  # pylint: disable=broad-except
      e['exc'] = exc_name(ex)
    ev.append(e)

  # reductions
  vs = rnd(dst.shape + fshape)
  vd = rnd(adj.shape + fshape)
  for mode in ('sum', 'min', 'max'):
    fn = getattr(e3x.ops, 'indexed_' + mode)
    for keep in (False, True):
      e = {'op': 'reduce', 'mode': mode, 'lay': 'sparse', 'keep': keep, 'n': n, 'nf': nf,
           'dst': bat(dst, nb), 'dtype': dt,
           'vals': flat(vs, nb, 1).tolist(), 'exc': ''}
      try:
        o = np.asarray(fn(jnp.asarray(vs).astype(dt), keepdims=keep, dst_idx=jnp.asarray(dst),
                          num_segments=n, indices_are_sorted=sorted_ok))
        e['oshape'] = list(o.shape)
        e['want'] = list(((dst.shape if keep else bshape + (n,)) + fshape))
        r, ok = to_int(o)
        e['integral'] = ok
        e['out'] = flat(r, nb, 1).tolist()
      except Exception as ex:  # pylint: disable=broad-except
        e['exc'] = exc_name(ex)
      ev.append(e)
      e = {'op': 'reduce', 'mode': mode, 'lay': 'dense', 'keep': keep, 'n': n, 'nf': nf,
           'where': bat(where, nb), 'dtype': dt,
           'vals': flat(vd, nb, 2).tolist(), 'exc': ''}
      try:
        o = np.asarray(fn(jnp.asarray(vd).astype(dt), keepdims=keep, adj_idx=jnp.asarray(adj),
                          where=jnp.asarray(where)))
        e['oshape'] = list(o.shape)
        e['want'] = list(bshape + ((n, 1) if keep else (n,)) + fshape)
        r, ok = to_int(o)
        e['integral'] = ok
        e['out'] = flat(r, nb, 1).tolist()
      except Exception as ex:  # pylint: disable=broad-except
        e['exc'] = exc_name(ex)
      ev.append(e)

  # softmax, with and without trailing (feature) axes: every feature is an independent softmax.
  for lay, idx, nfeat in (('sparse', dst, 1), ('dense', adj, 1), ('sparse', dst, 2), ('dense', adj, 2)):
    trail = () if nfeat == 1 else (nfeat,)
    k = rng.integers(-6, 7, size=idx.shape + trail)
    m = rng.integers(0, 4, size=idx.shape + trail) if c['softmask'] else np.ones(idx.shape + trail, int)
    w = rng.integers(0, 4, size=idx.shape + trail)
    shift = c['shift']
    valid = (dst < n) if lay == 'sparse' else where
    if trail:
      valid = np.broadcast_to(valid[..., None], idx.shape + trail)
    garbage = 0 if lay == 'sparse' else c['garbage']
    xin = jnp.asarray(np.where(valid, (k + shift) * LN2, garbage), 'float32')
    kw = (dict(dst_idx=jnp.asarray(dst), num_segments=n, indices_are_sorted=sorted_ok)
          if lay == 'sparse' else dict(adj_idx=jnp.asarray(adj), where=jnp.asarray(where)))
    if c['softmask']:
      kw['multiplicative_mask'] = jnp.asarray(m, 'float32')

    def f(z):
      p = e3x.ops.indexed_softmax(z, **kw)
      return jnp.sum(jnp.where(valid, p * w, 0)), p  # pylint: disable=cell-var-from-loop
    exc, p, g = '', None, None
    try:
      (_, p), g = jax.value_and_grad(f, has_aux=True)(xin)
      p, g = np.asarray(p, np.float64), np.asarray(g, np.float64)
    except Exception as ex:  # pylint: disable=broad-except
      exc = exc_name(ex)
    for j in range(nfeat):
      col = (lambda a: a) if nfeat == 1 else (lambda a: a[..., j])  # pylint: disable=cell-var-from-loop
      e = {'op': 'softmax', 'lay': lay, 'n': n, 'exc': exc, 'nf': nfeat,
           'x': bat(col(k), nb), 'mask': bat(col(m), nb), 'w': bat(col(w), nb)}
      if lay == 'sparse':
        e['dst'] = bat(dst, nb)
      else:
        e['where'] = bat(where, nb)
      if not exc:
        e['finite'] = bool(np.isfinite(col(p)[col(valid)]).all())
        e['gfinite'] = bool(np.isfinite(col(g)).all())
        q = lambda a: bat(np.round(np.clip(np.nan_to_num(a), -5, 5) * 1e4).astype(int), nb)
        e['out'], e['grad'] = q(np.where(col(valid), col(p), 0)), q(col(g))
      ev.append(e)
  return ev
