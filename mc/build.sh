#!/bin/bash
# build.sh ID OUT: build the harness binary for property ID (run in a copy of this directory).
set -e
sort -u go.sum /repo/go.sum -o go.sum
# the internal bech32 package and the curve package are used directly by some sub-checks; when a change to the
# tree makes that impossible the other sub-checks still decide
plain() {
  go build -trimpath -buildvcs=false "$@" ./cmd/mc ||
    go build -trimpath -buildvcs=false -tags nob32 "$@" ./cmd/mc ||
    go build -trimpath -buildvcs=false -tags nob32,nocurve "$@" ./cmd/mc
}
case "$1" in
C13|C14)
  # own the order of map iteration: patch the runtime's choice of the start of an iteration and of hash seeds
  maps="$(go env GOROOT)/src/internal/runtime/maps"
  mkdir -p overlay
  if sed -e 's/it\.entryOffset = rand()/it.entryOffset, it.dirOffset = verifStart()/' -e '/it\.dirOffset = rand()/d' "$maps/table.go" >overlay/table.go &&
     sed -e 's/m\.seed = uintptr(rand())/m.seed = verifSeed()/' "$maps/map.go" >overlay/map.go &&
     [ "$(grep -c 'verifStart()' overlay/table.go)" = 1 ] && ! grep -q 'rand()' overlay/table.go && grep -q 'verifSeed()' overlay/map.go; then
    cat >>overlay/table.go <<'X'

var (
	verifOn      bool
	verifChoices [256]uint8
	verifN       int
)

func verifStart() (uint64, uint64) {
	if !verifOn {
		return rand(), rand()
	}
	i := verifN
	verifN++
	if i >= len(verifChoices) {
		return 0, 0
	}
	c := uint64(verifChoices[i])
	return c, c >> 3
}

func verifSeed() uintptr {
	if !verifOn {
		return uintptr(rand())
	}
	return 0x5bd1e995
}
X
    printf '{"Replace":{"%s/table.go":"%s/overlay/table.go","%s/map.go":"%s/overlay/map.go"}}' "$maps" "$PWD" "$maps" "$PWD" >overlay/overlay.json
    if plain -overlay overlay/overlay.json -tags maporder -ldflags=-checklinkname=0 -o "$2"; then exit 0; fi
    echo "the runtime overlay does not build here; falling back to the plain runtime"
  fi
  ;;
C27)
  # the library with scheduling points, plainly and with the race detector as a monitor
  mkdir -p overlay
  go build -trimpath -buildvcs=false -o overlay/instr ./cmd/instr
  ./overlay/instr /repo "$PWD/overlay" "$PWD/sched/sched.go.txt"
  sed -i 's#sched.go.txt"#sched.go"#' overlay/overlay.json; cp sched/sched.go.txt sched/sched.go
  go build -trimpath -buildvcs=false -overlay overlay/overlay.json -ldflags=-checklinkname=0 -o "$2.conc" ./cmd/conc &
  go build -race -trimpath -buildvcs=false -overlay overlay/overlay.json -ldflags=-checklinkname=0 -o "$2.conc.race" ./cmd/conc &
  plain -o "$2"
  wait %1; wait %2
  exit 0
  ;;
esac
plain -o "$2"
