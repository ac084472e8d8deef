"""C08: configured defaults."""
import random
import cover


def distinct(rng, hists, k):
  """k histories, from different behaviours if possible."""
  rng.shuffle(hists)
  one = {repr(h[:-1]): h for h in hists}
  rest = [h for h in hists if one[repr(h[:-1])] is not h]
  return (list(one.values()) + rest)[:k]


def check(c):
  c.model('MCConfig', 'MCConfig' if c.quick else 'MCConfigDeep')
  rng = random.Random(c.seed)
  sim = lambda cfg, n, k: distinct(rng, [d['hist'] for d in c.tlc(
      'MCConfig', cfg, workers=1, must_hold=False,
      args=('-seed', str(c.seed), '-simulate', f'num={n}', '-depth', '40')).json], k)
  light = sim('MCConfigLight', 64 if c.quick else 800, 64 if c.quick else 800)
  heavy = sim('MCConfigHeavy', 150 if c.quick else 900, 3000 if c.quick else 9000)
  space = []
  for h in heavy:
    cfg = {'order': 'cart', 'norm': 'racah', 'fused': 'plain'}
    d = {'h': h}
    for s in ('tensor', 'fused_tensor', 'tensor_dense', 'message_pass', 'self_attention', 'multi_head_attention'):
      d[s] = ''
    for x in h:
      if x['a'] == 'set':
        cfg[x['o']] = x['v']
      elif x['a'] == 'call':
        d[x['s']] = cfg['order'] + cfg['fused'] + repr(x['x'])
    space.append(d)
  heavy = [d['h'] for d in cover.pick(space, 24 if c.quick else 400, c.seed, 1,
                                      [k for k in space[0] if k != 'h'])]
  sh = c.tables(cg=2, wigner=2)
  # light and heavy sites on different workers (each computes its references once)
  cases = [{'hist': h, 'w': 3 + i % 5} for i, h in enumerate(heavy)] + [
      {'hist': h, 'w': i % 3} for i, h in enumerate(light)]
  ev = c.drive('configs', cases, shared=sh, group=lambda d: d['w'])
  c.validate('TraceConfig', ev)
  c.extra['calls'] = sum(h['a'] == 'call' for e in ev for h in e.get('hist', []))
  c.assumptions.append('modules are constructed and applied under the same configuration')
