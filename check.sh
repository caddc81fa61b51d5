#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra harness flags]
# Builds the harness against /repo's working tree and decides one property.
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
root=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
seed=${VERIF_SEED:-1}
work=$(mktemp -d /tmp/sojubuild-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
flags=()
case $prop in
P21) flags+=(-race); export VERIF_RACE=1 ;;
esac
cd "$root/harness" || exit 2
if ! go build "${flags[@]}" -tags verif -o "$work/harness" ./cmd/harness 2> "$work/err"; then
	if ! go build "${flags[@]}" -o "$work/harness" ./cmd/harness 2>> "$work/err"; then
		cat "$work/err" >&2
		echo "check $prop: cannot build the harness against /repo" >&2
		exit 2
	fi
fi
case $prop in
P04|P16|P21|P26|P27|P35)
	for b in soju sojuctl sojudb; do
		(cd /repo && go build "${flags[@]}" -tags verif -o "$work/$b" ./cmd/$b) 2>> "$work/err" || { cat "$work/err" >&2; exit 2; }
	done
	export VERIF_BIN="$work" ;;
P37)
	for b in migrate-db migrate-logs znc-import; do
		(cd /repo && go build -o "$work/$b" ./contrib/$b) 2>> "$work/err" || { cat "$work/err" >&2; exit 2; }
	done
	export VERIF_BIN="$work" ;;
esac
limit=800s; [ "$tier" = thorough ] && limit=7200s
"$work/harness" -prop "$prop" -tier "$tier" -seed "$seed" -root "$root" -timeout $limit "$@"
