"""Real spherical harmonics in float64 by the recurrences of spec/Harmonics.tla."""
import numpy as np


def cart_order(l):
  return [m for a in range(l, 0, -1) for m in (a, -a)] + [0]


def factor(norm, l):
  return {'4pi': (2 * l + 1) ** .5, 'orthonormal': ((2 * l + 1) / (4 * np.pi)) ** .5}.get(norm, 1.0)


def solid(r, L):
  """R_l^m(r) (Racah), standard order, float64, shape (..., (L+1)^2)."""
  r = np.asarray(r, np.float64)
  x, y, z = r[..., 0], r[..., 1], r[..., 2]
  rr = x * x + y * y + z * z
  rows = [{0: np.ones_like(x)}]
  for l in range(L):
    p, q, n = rows[l], rows[l - 1] if l else {}, {}
    for m in range(-l, l + 1):
      n[m] = ((2 * l + 1) * z * p[m] - (l * l - m * m) ** .5 * rr * (q[m] if abs(m) < l else 0)
              ) / ((l + 1) ** 2 - m * m) ** .5
    if l == 0:
      n[1], n[-1] = x, y
    else:
      c = ((2 * l + 1) / (2 * l + 2)) ** .5
      n[l + 1], n[-l - 1] = c * (x * p[l] - y * p[-l]), c * (x * p[-l] + y * p[l])
    rows.append(n)
  return np.stack([rows[l][m] for l in range(L + 1) for m in range(-l, l + 1)], axis=-1)


def flat_order(L, cart):
  out = []
  for l in range(L + 1):
    out += [l * l + l + m for m in (cart_order(l) if cart else range(-l, l + 1))]
  return out


def spherical(r, L, cart, norm):
  r = np.asarray(r, np.float64)
  u = r / np.linalg.norm(r, axis=-1, keepdims=True)
  f = np.concatenate([[factor(norm, l)] * (2 * l + 1) for l in range(L + 1)])
  return (solid(u, L)[..., flat_order(L, cart)]) * f
