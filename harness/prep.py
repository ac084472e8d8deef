"""Generates coefficient tables with /repo's current code into scratch caches.

python prep.py DIR CG_DEGREE WIGNER_DEGREE      (degree -1: not needed)
The caches only save time: workers that find none generate the tables again.
"""
import logging
import os
import sys

logging.disable(logging.CRITICAL)


def main():
  out, cg, wd = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
  import e3x
  import jax.numpy as jnp
  if cg >= 0:
    e3x.Config.set_clebsch_gordan_cache(os.path.join(out, 'cg.npz'))
    try:
      from e3x.so3 import _clebsch_gordan_lut as m
      m._generate_clebsch_gordan_lookup_table(cg, num_processes=8)
    except Exception:  # internal names may change; the public API is slower.
      e3x.so3.clebsch_gordan(cg, cg, cg)
  if wd >= 0:
    e3x.Config.set_wigner_d_cache(os.path.join(out, 'wd.npz'))
    try:
      from e3x.so3 import _wigner_d_lut as m
      m._generate_wigner_d_lookup_table(wd, num_processes=8)
    except Exception:
      e3x.so3.wigner_d(jnp.eye(3), wd)


if __name__ == '__main__':
  main()
