#!/bin/bash
# ./check.sh PROPERTY [-replay FILE | -case ID]   (VERIF_TIER=quick|thorough)
# Builds the harness of PROPERTY against /repo's working tree and runs it.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR=$PWD HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GONOSUMDB=* GONOSUMCHECK=1
prop=$1; shift
race=
case $prop in
C01|C02|C03|C04) pkg=enc ;;
C05|C06) pkg=stream ;;
C18) pkg=file; race=-race ;;
*) pkg=file ;;
esac
tmp=$(mktemp -d /tmp/goorcmc.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export VERIF_TMP=$tmp
# in-memory readers and writers, and the place of scheduling points, are laid into the module while building
over() { printf '{"Replace":{"/repo/orc/zz_verif.go":"%s/mc/overlay/zz_verif.go.txt","/repo/orc/zzsched/zz.go":"%s/mc/overlay/zzsched.go.txt"}}\n' "$PWD" "$PWD" >"$tmp/overlay.json"; }
over
# the tag bare leaves out functions the library may do without
build() { (cd mc && for tags in "" bare; do go1.27 build $race -tags "$tags" -overlay "$tmp/overlay.json" -o "$tmp/check" ./cmd/$pkg && break; done); }
if [ "$prop" = C18 ]; then
	# copies of the sources with scheduling points; without them there are fewer points, not other answers
	for nolocks in "" 1; do
		rm -rf "$tmp/instr"
		if mkdir "$tmp/instr" && (cd mc && go1.27 build -o "$tmp/instrument" ./cmd/instr) &&
			NOLOCKS=$nolocks "$tmp/instrument" /repo "$tmp/instr" "$tmp/overlay.json" "/repo/orc/zz_verif.go=$PWD/mc/overlay/zz_verif.go.txt" "/repo/orc/zzsched/zz.go=$PWD/mc/overlay/zzsched.go.txt" >"$tmp/points" &&
			build >"$tmp/build.log" 2>&1; then
			cat "$tmp/points"
			"$tmp/check" "$prop" "$@"
			exit
		fi
	done
	echo "sources are not instrumented"
	over
fi
if ! build >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log"
	echo "check.sh: build of the harness for $prop failed"
	exit 2
fi
"$tmp/check" "$prop" "$@"
