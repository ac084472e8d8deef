"""mkseed.py ID PROPERTY FILE: writes seeded/ID/{patch.diff,meta.json} from stdin JSON
{"old","new","needs","breaks"} without touching /repo (works on a scratch copy of FILE)."""
import difflib, json, os, sys
sid, prop, path = sys.argv[1:4]
d = json.load(sys.stdin) if not sys.stdin.isatty() else {}
edits = d['edits'] if 'edits' in d else [[d['old'], d['new']]]
src = open('/repo/' + path).read()
new = src
for o, n in edits:
  assert new.count(o) == 1, (new.count(o), o)
  new = new.replace(o, n)
out = f'/verif/seeded/{sid}'
os.makedirs(out, exist_ok=True)
diff = ''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + path, 'b/' + path))
mode = 'a' if d.get('append') else 'w'
open(out + '/patch.diff', mode).write(diff)
json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['breaks']},
          open(out + '/meta.json', 'w'), indent=1)
