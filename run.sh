#!/bin/bash
# ./run.sh PROPERTY [harness flags]: rebuilds the harness against /repo's
# working tree and runs the check of one property. Tier and seed come from
# VERIF_TIER (quick|thorough) and VERIF_SEED.
root=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
export GOPATH=${GOPATH:-/root/go}; export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
bin=$(mktemp -d "${TMPDIR:-/tmp}/spagoverif-bin-XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT

build() { # variant
	local tags= race=
	case $1 in
	race) race=-race ;;
	purego) tags=noasm,purego ;;
	esac
	# The overlay adds packages that re-export internal kernels and hooks; when a
	# change to the repository makes one of them uncompilable, the check falls
	# back to the public API alone.
	(cd "$root/harness" && go build $race -tags "kern${tags:+,$tags}" -overlay "$bin/overlay.json" -o "$bin/$1" . ) 2>"$bin/err" && return 0
	(cd "$root/harness" && go build $race ${tags:+-tags $tags} -o "$bin/$1" . ) 2>"$bin/err2" && { echo "note: $1 built without the kernel overlay: $(head -3 "$bin/err" | tr "\n" " ")"; return 0; }
	cat "$bin/err" "$bin/err2"; return 1
}

cat >"$bin/overlay.json" <<J
{"Replace": {"/repo/mat/verifkern/verifkern.go": "$root/overlay/verifkern.go"$( [ -f "$root/overlay/verifkern_amd64.go" ] && echo ", \"/repo/mat/verifkern/verifkern_amd64.go\": \"$root/overlay/verifkern_amd64.go\", \"/repo/mat/verifkern/verifkern_other.go\": \"$root/overlay/verifkern_other.go\"")}}
J
build plain || { echo "build failed"; exit 2; }
vs=$([ "$prop" = --build-only ] && echo race purego || "$bin/plain" -prop "$prop" -tier "$tier" -variants)
for v in $vs; do
	[ "$v" = plain ] || build "$v" || { echo "build failed ($v)"; exit 2; }
done
[ "$prop" = --build-only ] && exit 0
"$bin/plain" -prop "$prop" -tier "$tier" -seed "$seed" -root "$root" -bin "$bin" "$@"
