#!/bin/bash
# Developer tool: run the property's check against planted bugs, in a scratch
# worktree, and record what caught each in tools/seedresults.txt.
# usage: tools/tryseeds.sh [id...]
cd /verif
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for s in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  wt=/tmp/try.$$; git -C /repo worktree add -qf --detach $wt HEAD
  git -C $wt apply /verif/seeded/$s/patch.diff || echo "$s does not apply"
  t=$(date +%s)
  rm -f /verif/evidence/replay/$p.json
  out=$(VERIF_REPO=$wt timeout 900 ./check $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep VIOLATION | head -1)"
  python3 - "$s" "$p" "$rc" "$(echo "$out" | grep VIOLATION | head -1)" <<'P'
import json, os, sys
s, p, rc, line = sys.argv[1:]
res = {}
f = 'tools/seedresults.txt'
if os.path.exists(f):
    res = dict(l.rstrip('\n').split('\t') for l in open(f))
r = 'MISSED (rc %s)' % rc
if rc == '1':
    d = json.load(open('evidence/replay/%s.json' % p))
    o = d.get('failed_obligations') or []
    if not o and d.get('failed_prerequisites'): o = ['prerequisite ' + x for x in d['failed_prerequisites']]
    r = p + ': ' + ('; '.join(x.split(' (solver')[0] for x in o[:1]) or 'input only') + (' …' if len(o) > 1 else '')
    r += '; no input found' if 'no-failing-input-found' in line else '; failing input'
res[s] = r.replace('|', '/')
open(f, 'w').writelines('%s\t%s\n' % kv for kv in sorted(res.items()))
P
  git -C /repo worktree remove --force $wt
done
git -C /repo worktree prune
