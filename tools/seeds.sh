#!/bin/bash
# development aid: applies every planted bug (or the ones named) to a scratch copy and prints what the analyzer
# reports there; the last column says whether the property the bug was planted for is among it.
cd "$(dirname "$0")/.." || exit 2
. /opt/vp/env.sh
(cd analyzer && go build -o ../bin/an .) || exit 2
d=$(mktemp -d /tmp/seeds.XXXXXX)
for p in ${@:-$(ls seeded)}; do
  p=$(basename "$p")
  want=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$p/meta.json")
  git clone -q /repo "$d/w" && git -C "$d/w" apply "$PWD/seeded/$p/patch.diff" || { echo "$p: does not apply"; rm -rf "${d:?}/w"; continue; }
  GODIS_REPO="$d/w" bin/an -all > "$d/out"
  got=$(grep -oE '^C[0-9]+' "$d/out" | sort | uniq -c | awk '{printf "%s:%s ",$2,$1}')
  hit=MISSED; grep -q "^$want " "$d/out" && hit=caught
  printf '%-28s %s %-7s %s\n' "$p" "$want" "$hit" "$got"
  [ -n "$V" ] && cut -c1-300 "$d/out" | head -${V}
  rm -rf "${d:?}/w"
done
rm -rf "${d:?}"
