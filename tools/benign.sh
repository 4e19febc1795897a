#!/bin/bash
# development aid: applies every behaviour-preserving edit of /verif/benign (or the ones named) to a scratch
# copy of /repo and prints what the analyzer would report there. All of it must be quiet.
cd "$(dirname "$0")/.." || exit 2
. /opt/vp/env.sh
(cd analyzer && go build -o ../bin/an .) || exit 2
d=$(mktemp -d /tmp/benign.XXXXXX)
for p in ${@:-$(cd benign; ls *.diff)}; do
  p=${p%.diff}
  git clone -q /repo "$d/w" && git -C "$d/w" apply "$PWD/benign/$p.diff" || { echo "$p: does not apply"; rm -rf "${d:?}/w"; continue; }
  echo "== $p"; GODIS_REPO="$d/w" bin/an -all
  rm -rf "${d:?}/w"
done
rm -rf "${d:?}"
