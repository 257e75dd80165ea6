#!/bin/bash
# Builds the simulator against /repo's current working tree and runs one check.
#   check.sh <property> [quick|thorough]
#   check.sh replay <file>
#   check.sh determinism [property]
#   check.sh build
# Exit 0: the property held on everything explored. Exit 1 with a VIOLATION
# line: broken. Anything else: trouble of the check itself.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
verif=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=${GOAV_REPO:-/repo}
b=$verif/.build
mkdir -p "$b" || exit 3
t0=$(date +%s.%N)
exec 9>"$b/lock" || exit 3
flock 9
cd "$verif/sim" || exit 3
mod=()
if [ "$repo" != /repo ]; then # scratch copies, while developing
  b=$b/$(echo "$repo" | tr / _); mkdir -p "$b"
  sed "s#=> /repo#=> $repo#" go.mod > "$b/go.mod" && cp go.sum "$b/go.sum" || exit 3
  mod=(-modfile "$b/go.mod")
fi
go build -o "$b/instr" ./cmd/instr || exit 3
"$b/instr" "$repo" "$(go env GOROOT)" "$b/ov" || exit 3
go build "${mod[@]}" -overlay "$b/ov/overlay.json" -o "$b/simd" ./cmd/simd || exit 3
bin=$(mktemp "${TMPDIR:-/tmp}/simd.XXXXXX") && cp "$b/simd" "$bin" && chmod +x "$bin" || exit 3
pts=$(mktemp "${TMPDIR:-/tmp}/simpts.XXXXXX") && cp "$b/ov/points.json" "$pts" || exit 3
trap 'rm -f "$bin" "$pts"' EXIT
flock -u 9
bs=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || echo 0)
case "$1" in
build) exit 0 ;;
replay) "$bin" replay -known "$verif/known_findings.json" "$2"; exit $? ;;
determinism) shift; "$bin" determinism -verif "$verif" ${1:+-prop "$1"} ${2:+-n "$2"}; exit $? ;;
list) "$bin" list; exit $? ;;
esac
"$bin" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -verif "$verif" -points "$pts" -build "${bs:-0}" ${SIM_RUNS:+-runs "$SIM_RUNS"}
exit $?
