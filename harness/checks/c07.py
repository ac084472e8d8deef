"""C07: disk caches under crashes, concurrency and corruption."""
import random
import cover


def check(c):
  rng = random.Random(c.seed)
  c.model('CacheFile', 'CacheFile' if c.quick else 'CacheFileDeep')
  # sanity of the model: writing in place breaks the property
  r = c.tlc('CacheFile', 'CacheFileInPlace', must_hold=False)
  assert not r.ok and 'NeverPartial is violated' in r.out, r.error_text()
  c.extra['in_place_counterexample'] = True
  n = 46 if c.quick else 1500
  hists = [d['hist'] for d in c.tlc('MCCache', 'MCCacheSim', workers=1, must_hold=False,
                                    args=('-seed', str(c.seed), '-simulate',
                                          f'num={3000 if c.quick else 20000}', '-depth', '18')).json]
  uniq = {}
  for h in hists:
    uniq[repr(h)] = h
  space = []
  for h in uniq.values():
    acts = [x['a'] for x in h]
    space.append({'h': h, 'len': len(acts),
                  'e1': next((a for a in acts if a not in ('start', 'load', 'write', 'rename')), ''),
                  'e2': ([a for a in acts if a not in ('start', 'load', 'write', 'rename')] + ['', ''])[1],
                  'kind': next((x['x'][0] for x in h if x['a'] == 'corrupt'), ''),
                  'w': str([x['x'] for x in h if x['a'] == 'start']),
                  'il': ''.join(str(x['p']) for x in h)})
  c.extra['schedules'] = len(space)
  chosen = cover.pick(space, n, c.seed, 2, ['e1', 'e2', 'kind', 'w', 'il'])
  tables = ['cg', 'cg', 'tc', 'cg', 'tc', 'wd', 'cg', 'tc', 'sh']
  cases = []
  for i, s in enumerate(chosen):
    t = tables[i % len(tables)]
    nodir = i % 24 == 23
    cases.append({'op': 'replay', 'table': t, 'off': 0, 'hist': s['h'],
                  'reuse': rng.random() < .5, 'last': rng.randrange(3 if not c.quick or t != 'wd' else 2),
                  'dir': 'sub/' if nodir or i % 12 == 5 else '', 'mkdir': not nodir})
  # requests that follow each other without faults: the table grows, and is looked up again
  seq = {tuple(x['x'][0] for x in d['hist'] if x['a'] == 'start'): d['hist']
         for d in c.model('MCCache', 'MCCacheSeq').json if all(x['x'][1] for x in d['hist'] if x['a'] == 'start')}
  grow = [('cg', (1, 2, 0), 0), ('cg', (0, 1, 2), 0), ('cg', (1, 2, 2), 0), ('cg', (0, 1, 2), 1), ('tc', (1, 2, 0), 0), ('tc', (0, 2, 1), 1),
          ('sh', (1, 2, 1), 0), ('sh', (0, 1, 2), 1), ('wd', (0, 1, 2), 0)]
  if not c.quick:
    grow += [(t, w, o) for t in ('cg', 'tc', 'sh') for w in seq for o in (0, 1)] + [('wd', w, 0) for w in seq]
  for i, (t, w, off) in enumerate(grow):
    cases.append({'op': 'replay', 'table': t, 'off': off, 'hist': seq[w], 'reuse': i % 2 == 1,
                  'last': max(w), 'dir': '', 'mkdir': True})
  for t, shipped, deg in (('cg', -1, 1), ('wd', -1, 1), ('sh', 99, 2), ('tc', 99, 2)):
    cases.append({'op': 'cli', 'table': t, 'runs': [[0, 1], [deg, 2]], 'degree': deg, 'shipped': shipped})
    if not c.quick:
      cases.append({'op': 'cli', 'table': t, 'runs': [[deg + 1, 3], [deg, 1]], 'degree': deg + 1,
                    'shipped': shipped})
  rng.shuffle(cases)
  ev = c.drive('cachefile', cases)
  c.validate('TraceCache', ev)
  c.assumptions.append('a rename is atomic (POSIX); processes interleave at the points where they open a '
                       'file for writing or rename it; power loss (unsynced data) is not modelled')
