#!/bin/bash
# check.sh ID [quick|thorough]   build the harness from /repo's working tree and decide one property
# check.sh replay FILE           re-execute a recorded violation
# Exit 0: held on everything explored; 1 + "VIOLATION property=..": broken; 3: the check itself failed.
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"; export VERIF_DIR
work=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export VERIF_WORK="$work"
mode=run; id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
if [ "$1" = replay ]; then
  mode=replay; file="$(realpath "$2")"
  id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
fi
cp -r "$VERIF_DIR/mc" "$work/mc" || exit 3
cd "$work/mc" || exit 3
bash ./build.sh "$id" "$work/bin" >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "check error: the harness does not build against /repo"; exit 3; }
if [ $mode = replay ]; then "$work/bin" replay "$file"; exit $?; fi
"$work/bin" run "$id" "$tier" >"$work/out.log" 2>"$work/err.log"
rc=$?
cat "$work/out.log"
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  tail -c 4000 "$work/err.log"
  # A Go runtime abort (stack overflow, concurrent map write, out of memory) inside the code under test is a
  # violation: it cannot be recovered in-process. Anything else is an error of the check.
  if grep -qE '^(fatal error|runtime: goroutine stack exceeds|unexpected fault)' "$work/err.log" && grep -q 'go-cardano-serialization/\(address\|bip32\|crypto\|fees\|internal\|network\|node\|protocol\|tx\)' "$work/err.log"; then
    mkdir -p "$VERIF_DIR/evidence"; head -c 200000 "$work/err.log" > "$VERIF_DIR/evidence/$id.crash.log"
    echo "VIOLATION property=$id replay=$VERIF_DIR/evidence/$id.crash.log"; exit 1
  fi
  exit 3
fi
exit $rc
