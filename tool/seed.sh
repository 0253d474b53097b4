#!/bin/bash
# seed.sh new ID         scratch copy of /repo's HEAD in /tmp/seedw/ID to edit
# seed.sh save ID        write its diff to seeded/ID/patch.diff
# seed.sh verify ID...   build, stable tests, demo on both trees (scratch copies)
# seed.sh check ID [PROP [args]]  run a check (default: the property in meta.json) against the patched scratch copy
# seed.sh clean ID       remove the scratch copy
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
W=/tmp/seedw
mk() { mkdir -p $W; [ -d "$W/$1" ] && rm -rf "$W/$1"; git clone -q /repo "$W/$1"; cp -a /repo/build "$W/$1/" 2>/dev/null; }
case $1 in
new) mk "$2" ;;
save) mkdir -p "$V/seeded/$2"; git -C "$W/$2" diff > "$V/seeded/$2/patch.diff"; wc -l "$V/seeded/$2/patch.diff" ;;
clean) rm -rf "${W:?}/$2" ;;
verify) shift
  for id in "$@"; do
    mk "$id"; cd "$W/$id" || exit 1
    go build ./... || { echo "$id: base build"; continue; }
    cp -a "$V/seeded/$id" /tmp/seedw/demo.$id
    (bash /tmp/seedw/demo.$id/demo.sh >/tmp/seedw/$id.base 2>&1); a=$?
    git apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
    go build ./... || { echo "$id: does not build"; continue; }
    go test -vet=off -count=1 $(go list -e -f '{{if ne .ImportPath "github.com/zellyn/diskii"}}{{.ImportPath}}{{end}}' ./...) > /tmp/seedw/$id.test 2>&1; t=$?
    (timeout 300 bash /tmp/seedw/demo.$id/demo.sh >/tmp/seedw/$id.patched 2>&1); b=$?
    rm -rf "/tmp/seedw/demo.$id"
    echo "$id: demo base=$a patched=$b tests=$t ($(tail -1 /tmp/seedw/$id.patched))"
  done ;;
check) id=$2; P=${3:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}; shift; shift; [ $# -gt 0 ] && shift
  cd "$W/$id" 2>/dev/null && git checkout -q -- . || { mk "$id"; cd "$W/$id"; }
  git apply "$V/seeded/$id/patch.diff" || exit 3
  mkdir -p $W/out.$id
  VERIF_REPO=$W/$id VERIF_BUILD=$W/build.$id VERIF_OUT=$W/out.$id "$V/check" "$P" quick "$@" 2>&1 | tail -4 | cut -c1-400
  echo "$id $P exit ${PIPESTATUS[0]}"
  rm -rf "$W/build.$id" "$W/$id" ;;
esac
