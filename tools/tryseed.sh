#!/bin/bash
# tryseed.sh ID [notest] [nocheck] : tries a planted change in a scratch copy
id=$1; shift
opts=" $* "
src=/verif/seeded/$id
d=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"; mkdir "$d/demo"; cp "$src"/* "$d/demo"; rm -f "$d"/demo/*.diff "$d/demo/meta.json"
cd "$d/repo" || exit 9
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$d/repo/src
timeout 300 bash "$d/demo/demo.sh" >"$d/d0" 2>&1; a=$?
git apply "$src/patch.diff" || { echo "$id: patch does not apply"; exit 9; }
# only lines of the original may change
for f in $(git diff --name-only); do
  for n in $(git diff -U0 -- "$f" | grep -oP '^@@ -\K[0-9]+(,[0-9]+)?' ); do
    s=${n%,*}; c=1; [[ $n == *,* ]] && c=${n#*,}
    [ "$c" = 0 ] && continue
    git blame -s -L "$s,+$c" HEAD -- "$f" | grep -v '^^\?a61100e' | sed "s|^|$id NOT ORIGINAL: |"
  done
done
timeout 300 bash "$d/demo/demo.sh" >"$d/d1" 2>&1; b=$?
echo "$id: demo clean=$a patched=$b :: $(tail -1 "$d/d1" | cut -c1-150)"
[ $a = 0 ] || tail -3 "$d/d0"
if [[ $opts != *" notest "* ]]; then
  for x in 0 1; do
    JAX_ENABLE_X64=$x timeout 420 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 8 --timeout=300 2>&1 | tail -6 | grep -E "FAILED|ERROR|passed|failed" | sed "s|^|$id x64=$x: |"
  done
fi
if [[ $opts != *" nocheck "* ]]; then
  p=$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")
  unset PYTHONPATH
  cd /verif && VERIF_REPO=$d/repo VERIF_EVIDENCE=$d/ev timeout 900 /opt/venv/bin/python check.py $p >"$d/c" 2>&1; c=$?
  echo "$id: check $p exit=$c :: $(grep -m2 VIOLATION "$d/c" | cut -c1-200)"
  [ $c = 1 ] || tail -3 "$d/c"
fi
