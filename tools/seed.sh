#!/bin/bash
# seed.sh ID...: checks a planted bug: demo passes on the tree, patch applies, builds, stable tests pass, demo fails. With CHECK=1 also runs the property's check on it.
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "base build fails"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -r -f /tmp/seed_demo_dir; mkdir -p /tmp/seed_demo_dir; cp $d/* /tmp/seed_demo_dir/; rm -f /tmp/seed_demo_dir/patch.diff /tmp/seed_demo_dir/meta.json
  (cd /repo && timeout 300 bash /tmp/seed_demo_dir/demo.sh >/tmp/seed_demo.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; then
    t=$(bash /verif/tools/repotest.sh | tail -1)
    (cd /repo && timeout 300 bash /tmp/seed_demo_dir/demo.sh >/tmp/seed_demo2.log 2>&1); b=$?
    c=""; [ -n "$CHECK" ] && c=$(cd /verif; timeout 900 python3 check.py $p 2>&1 | grep -E "^(VIOLATION|OK|ERROR)" | cut -c1-120)
    echo "$id [$p]: demo base=$a patched=$b tests: $t $c"
  else echo "$id: DOES NOT BUILD"; tail -5 /tmp/seed_build.log; fi
  git -C /repo checkout -q -- .
done
