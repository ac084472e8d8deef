"""Layers on equivalent and related descriptions of a graph."""
import jax
import jax.numpy as jnp
import numpy as np

from drivers import common as cm
from drivers import graphlib as gl

UNIT = 1000000


def setup(shared):
  cm.use_tables(shared)


def desc(d):
  a = np.array(d['list'], np.int32)
  if d['fmt'] == 'dense':
    return {'adj_idx': jnp.asarray(a)}
  a = a.reshape(-1, 2)
  return {'dst_idx': jnp.asarray(a[:, 0]), 'src_idx': jnp.asarray(a[:, 1])}


def dense_of(edges, n, extra=1):
  rows = [[s for d, s in edges if d == i] for i in range(n)]
  w = max(len(r) for r in rows) + extra
  return [r + [n] * (w - len(r)) for r in rows]


class Q:
  """Fixed point per node: a projection of the node's output on fixed vectors."""

  def __init__(self, shape, rng):
    self.w = rng.normal(size=(4, int(np.prod(shape))))
    self.scale = None

  def __call__(self, y, nodes=None):
    y = np.asarray(y, np.float64)
    v = y.reshape(*y.shape[:-3], -1) @ self.w.T
    v = np.concatenate([v, np.sqrt(np.sum(np.square(y), axis=(-1, -2, -3)))[..., None]], -1)
    if self.scale is None:
      self.scale = max(np.max(np.abs(v), initial=0), 1e-30)
    v = np.nan_to_num(v / self.scale, nan=99, posinf=99, neginf=-99)
    return np.rint(np.clip(v, -99, 99) / 2 * UNIT).astype(int).tolist()


def run(c):
  rng = cm.rng_for(sorted(c.items()))
  n = c['n']
  base = [tuple(e) for e in c['base']]
  xk = gl.features(rng, (), n, c['kP'], c['kL'], c['F'])
  xq = xk if c['kind'] != 'mha' else gl.features(rng, (), n, c['qP'], c['qL'], c['F'])
  rk = (0.7 * rng.normal(size=(n, 3))).astype(np.float32)
  rq = rk if c['kind'] != 'mha' else (0.7 * rng.normal(size=(n, 3))).astype(np.float32)
  mod = gl.build(c)
  key = ' '.join(f'{k}={v}' for k, v in c.items() if k not in ('occ', 'hist', 'isolated', 'ops'))
  E = [list(e) for e in base]
  hd = {'kind': c['kind'], 'relv': c['relv'] or c['kind'] == 'mp', 'n': n, 'base': E, 'key': key, 'exc': ''}
  evs = []

  def event(op, fn):
    if op not in c['ops']:
      return
    e = dict(hd, op=op)
    try:
      e.update(fn())
    except Exception as ex:  # pylint: disable=broad-except
      e.update(exc=type(ex).__name__, msg=f'{op}: {ex}'[:300])
    evs.append(e)

  idx0 = desc({'fmt': 'sparse', 'list': E})
  try:
    par = gl.params(c, mod, rng, xq, xk, rq, rk, idx0)
    ap = jax.jit(lambda a, b, d, e, i, w=None, s=None: gl.call(
        c, mod, par, a, b, d, e, i, weights=w, scale=s))
    A = [jnp.asarray(v) for v in (xq, xk, rq, rk)]
    y0 = np.asarray(ap(*A, idx0))
  except Exception as ex:  # pylint: disable=broad-except
    return [dict(hd, op='rewrite', exc=type(ex).__name__, msg=str(ex)[:300])]
  q = Q(y0.shape[1:], rng)
  q0 = q(y0)
  args = lambda *v: [jnp.asarray(a, jnp.float32) for a in v]

  def rewrite():
    out = []
    for d in c['hist']:
      p = np.array(d['perm'])
      out.append({'perm': d['perm'], 'y': q(ap(*args(xq[p], xk[p], rq[p], rk[p]), desc(d)))})
    return {'y0': q0, 'steps': c['steps'], 'out': out}
  event('rewrite', rewrite)

  def locality():
    rows, what = [], []
    for v in range(n):
      for w in (['x', 'r'] if c['kind'] != 'mha' else ['xq', 'xk', 'rq', 'rk']):
        a = {'xq': xq.copy(), 'xk': xk.copy(), 'rq': rq.copy(), 'rk': rk.copy()}
        for k in a:
          if k.startswith(w):
            a[k][v] += 0.3 * rng.normal(size=a[k][v].shape)
        rows.append([a[k] for k in ('xq', 'xk', 'rq', 'rk')])
        what.append((w, v))
    st = [jnp.asarray(np.stack([r[k] for r in rows]), jnp.float32) for k in range(4)]
    y = cm.apply_rows(lambda a, b, d, e: gl.call(c, mod, par, a, b, d, e, idx0), *st)
    return {'y0': q0, 'out': [{'what': w, 'node': v, 'y': q(y[i])} for i, (w, v) in enumerate(what)]}
  event('locality', locality)

  def isolated():
    big = np.max(np.abs(y0), initial=1e-30)
    return {'y0': q0, 'out': [{'node': v, 'occ': [[p, l] for p, l, b in cm.blocks(y0[v])
                                                  if np.max(np.abs(b), initial=0) > 1e-6 * big]}
                              for v in range(n)], 'obias': c['kind'] != 'mp' and c['obias']}
  event('isolated', isolated)

  def grads():
    fin = True
    w = jnp.asarray(rng.normal(size=y0.shape), jnp.float32)
    for d in [c['hist'][0], next((h for h in c['hist'] if h['fmt'] == 'dense'), c['hist'][-1])]:
      p = np.array(d['perm'])
      i = desc(d)
      f = lambda a, b, e, g: jnp.sum(w * gl.call(c, mod, par, a, b, e, g, i))
      g = jax.jit(jax.grad(f, argnums=(0, 1, 2, 3)))(*args(xq[p], xk[p], rq[p], rk[p]))
      fin = fin and cm.finite(*g)
    return {'finite': fin and cm.finite(y0)}
  event('grads', grads)

  def parts():
    k = rng.integers(0, 2, size=len(E)).astype(bool)
    if k.all() or not k.any():
      k[0] = ~k[0]
    e1 = [e for e, b in zip(E, k) if b]
    e2 = [e for e, b in zip(E, k) if not b]
    sp = lambda l: desc({'fmt': 'sparse', 'list': l})
    outs = [q(ap(*A, sp(l))) if l else None for l in (e1, e2)]
    r = {'y0': q0, 'twice': q(ap(*A, sp(E + E))), 'out': [o for o in outs if o]}
    # the same subset by masking the other entries of the full description
    dn = {'adj_idx': jnp.asarray(np.array(dense_of(base, n), np.int32))}
    adj = np.array(dn['adj_idx'])
    keep = np.zeros(adj.shape, bool)
    for i in range(n):
      row = [b for (d, _), b in zip(base, k) if d == i]
      keep[i, :len(row)] = row
    dn2 = dict(dn, where=jnp.asarray(keep))
    r['masked'] = [{'by': 'where', 'y': q(ap(*A, dn2))}]
    f = np.asarray(k, np.float32)
    if c['kind'] == 'mp':
      r['masked'].append({'by': 'weights', 'y': q(ap(*A, idx0, jnp.asarray(f)[:, None, None, None]))})
      r['masked'].append({'by': 'dense weights', 'y': q(ap(*A, dn, jnp.asarray(keep, jnp.float32)[..., None, None, None]))})
    else:
      r['masked'].append({'by': 'cutoff', 'y': q(ap(*A, idx0, None, jnp.asarray(f)))})
      r['masked'].append({'by': 'dense cutoff', 'y': q(ap(*A, dn, None, jnp.asarray(keep, jnp.float32)))})
    if not e1:
      r['masked'] = []
      r['out'] = [q0, [[0] * 5] * n]
    return r
  event('parts', parts)

  def implicit():
    """Everything that is inferred, given explicitly."""
    srt = sorted(E, key=lambda e: e[0])
    sp = desc({'fmt': 'sparse', 'list': srt})
    full = lambda i, **kw: q(jax.jit(lambda *a: gl.call(c, mod, par, *a, i, **kw))(*A))
    dn = {'adj_idx': jnp.asarray(np.array(dense_of(base, n, 2), np.int32))}
    more = full(sp, num_segments=n + 2)
    return {'y0': q0, 'out': [{'by': 'num_segments', 'y': full(sp, num_segments=n)},
                              {'by': 'indices_are_sorted', 'y': full(sp, indices_are_sorted=True)},
                              {'by': 'where', 'y': full(dict(dn, where=dn['adj_idx'] < n))},
                              {'by': 'more segments', 'y': more[:n]}],
            'extra': [v[4] for v in more[n:]], 'iso': [q0[v][4] for v in c['isolated']]}
  event('implicit', implicit)

  def cross():
    """Queries and keys on different numbers of nodes."""
    nq, nk = (n, n + 3) if c['wide'] else (n + 3, n)
    fq = gl.features(rng, (), nq, c['qP'], c['qL'], c['F'])
    fk = gl.features(rng, (), nk + 2, c['kP'], c['kL'], c['F'])
    pq = (0.7 * rng.normal(size=(nq, 3))).astype(np.float32)
    pk = (0.7 * rng.normal(size=(nk + 2, 3))).astype(np.float32)
    ed = [(i, int(rng.integers(nk))) for i in range(nq) for _ in range(int(rng.integers(3)))]
    ed += [(0, nk - 1), (nq - 1, nk - 1), (nq - 1, 0), (0, min(nq, nk - 1))]
    ed = [ed[i] for i in rng.permutation(len(ed))]
    rows = [[s for d, s in ed if d == i] for i in range(nq)]
    w = max(len(r) for r in rows) + 1
    dn = lambda pad, p: jnp.asarray(np.array([[p[s] for s in r] + [pad] * (w - len(r)) for r in rows], np.int32))
    f = lambda m, p, i: q(ap(*args(fq, fk[:m][p], pq, pk[:m][p]), i))
    sp = desc({'fmt': 'sparse', 'list': [list(e) for e in ed]})
    one, two = list(range(nk)), list(range(nk + 2))
    pm = rng.permutation(nk)
    inv = [int(v) for v in np.argsort(pm)]
    return {'y0': f(nk, one, sp), 'nq': nq, 'out': [
        {'by': 'dense list', 'y': f(nk, one, {'adj_idx': dn(nk, one)})},
        {'by': 'larger padding', 'y': f(nk, one, {'adj_idx': dn(nk + 1, one)})},
        {'by': 'explicit mask', 'y': f(nk, one, {'adj_idx': dn(nk, one), 'where': dn(nk, one) < nk})},
        {'by': 'other order of sources', 'y': f(nk, pm, {'adj_idx': dn(nk, inv)})},
        {'by': 'unused sources', 'y': f(nk + 2, two, {'adj_idx': dn(nk + 2, one)})}]}
  if c['kind'] == 'mha':
    event('cross', cross)

  def batch():
    h = c['hist'][-1]
    p = np.array(h['perm'])
    i1 = desc(h)
    g = [rng.normal(size=a.shape).astype(np.float32) for a in (xq, xk, rq, rk)]
    if c['kind'] != 'mha':
      g[0], g[2] = g[1], g[3]
    alt = jax.tree_util.tree_map(lambda a: jnp.where(a < n, (a + 1) % n, a), i1)
    a1, a2 = (xq[p], xk[p], rq[p], rk[p]), tuple(g)
    s1, s2 = q(ap(*args(*a1), i1)), q(ap(*args(*a2), alt))
    st = [jnp.asarray(np.stack([u, v, v]))[:, None] for u, v in zip(a1, a2)]
    bi = jax.tree_util.tree_map(lambda u, v: jnp.stack([u, v, v])[:, None], i1, alt)
    yb = np.asarray(ap(*st, bi))
    return {'one': [s1, s2, s2], 'all': [q(yb[i, 0]) for i in range(3)]}
  event('batch', batch)
  return evs
