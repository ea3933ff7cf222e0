#!/bin/bash
# blame.sh ID... : lists lines a planted change touches that are not the original repository's
for id in "$@"; do
  cd /
  d=$(mktemp -d /tmp/blameXXXXXX)
  git clone -q -s /repo "$d/r" && cd "$d/r" && git apply "/verif/seeded/$id/patch.diff" || echo "$id: does not apply"
  for f in $(git diff --name-only); do
    git diff -U0 -- "$f" | grep -oP '^@@ -\K[0-9]+(,[0-9]+)?' | while read -r n; do
      s=${n%,*}; c=1; [[ $n == *,* ]] && c=${n#*,}
      [ "$c" = 0 ] && continue
      git blame -s -L "$s,+$c" HEAD -- "$f" | grep -v '^^\?a61100e' | sed "s|^|$id NOT ORIGINAL: |"
    done
  done
  rm -rf "$d"
done
