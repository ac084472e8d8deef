"""Drives the index-list functions of e3x.ops."""
import e3x
import jax.numpy as jnp
import numpy as np


def exc_name(ex):
  return type(ex).__name__


def batched(a, nd):
  a = np.asarray(a)
  return a.reshape((-1,) + a.shape[a.ndim - nd:]).tolist() if a.size else [
      np.zeros(a.shape[a.ndim - nd:], int).tolist()
      for _ in range(int(np.prod(a.shape[:a.ndim - nd])))]


def run(c):
  k = c['kind']
  if k == 'pairs':
    e = {'op': 'pairs', 'num': c['num'], 'mask': c['mask'], 'exc': ''}
    excs = []
    try:
      d, s = e3x.ops.sparse_pairwise_indices(c['num'], mask_self=c['mask'])
      e.update(dst=np.asarray(d).tolist(), src=np.asarray(s).tolist())
    except Exception as ex:  # pylint: disable=broad-except
      excs.append(exc_name(ex))
    try:
      a = np.asarray(e3x.ops.dense_pairwise_indices(c['num'], mask_self=c['mask']))
      e.update(adj=a.tolist(), ashape=list(a.shape))
    except Exception as ex:  # pylint: disable=broad-except
      excs.append(exc_name(ex))
    if c['num'] < 1:
      e['exc'] = excs[0] if len(excs) == 2 and excs[0] == excs[1] else 'none'
    elif excs:
      e['exc'] = excs[0]
    return [e]
  if k == 'sparse':
    bshape = tuple(c['bshape'])
    dst = np.array(c['dst'], np.int32).reshape(bshape + (-1 if c['dst'] and c['dst'][0] else 0,))
    src = np.array(c['src'], np.int32).reshape(dst.shape)
    pad = c['pad']
    e = {'op': 's2d', 'bshape': list(bshape), 'pad': pad, 'exc': '',
         'dst': batched(dst, 1), 'src': batched(src, 1)}
    evs = [e]
    try:
      out = e3x.ops.sparse_to_dense_indices(
          jnp.asarray(dst), jnp.asarray(src), pad_idx=None if pad < 0 else pad)
      a = np.asarray(out)
      e.update(out=batched(a, 2), oshape=list(a.shape))
    except Exception as ex:  # pylint: disable=broad-except
      e['exc'] = exc_name(ex)
      return evs
    if pad >= 0:
      r = {'op': 'rt', 'pad': pad, 'dst': e['dst'], 'src': e['src'], 'exc': ''}
      try:
        d2, s2 = e3x.ops.dense_to_sparse_indices(out, pad_idx=pad)
        r.update(dst2=batched(d2, 1), src2=batched(s2, 1))
      except Exception as ex:  # pylint: disable=broad-except
        r['exc'] = exc_name(ex)
      evs.append(r)
    return evs
  assert k == 'dense'
  bshape = tuple(c['bshape'])
  adj = np.array(c['adj'], np.int32).reshape(bshape + tuple(c['nm']))
  pad = c['pad']
  e = {'op': 'd2s', 'bshape': list(bshape), 'pad': pad, 'exc': '', 'adj': batched(adj, 2)}
  try:
    d, s = e3x.ops.dense_to_sparse_indices(
        jnp.asarray(adj), pad_idx=None if pad < 0 else pad)
    e.update(dst=batched(d, 1), src=batched(s, 1), dshape=list(d.shape), sshape=list(s.shape))
  except Exception as ex:  # pylint: disable=broad-except
    e['exc'] = exc_name(ex)
  return [e]
