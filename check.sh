#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# check.sh --build                     only build the simulator
# Environment: VERIF_SEED (base seed, default 1), VERIF_RUNS (number of runs), VERIF_CAP (seconds).
set -u
here=$(cd "$(dirname "$0")" && pwd)
sim="$here/sim"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$sim/target" RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER 2>/dev/null
cd "$sim" || exit 2

mkdir -p "$CARGO_TARGET_DIR"
log=$(mktemp "$CARGO_TARGET_DIR/build.XXXXXX.log") || exit 2
(
  flock 9
  # cargo compares modification times only: never trust an earlier build of grenad
  find "$CARGO_TARGET_DIR" -maxdepth 3 -type d \( -name 'grenad-*' -o -name 'gsim-*' \) -path '*/.fingerprint/*' -exec rm -rf {} + 2>/dev/null
  cargo build --offline --locked --profile checked >>"$log" 2>&1 &&
  cargo build --offline --locked --release >>"$log" 2>&1
) 9>"$CARGO_TARGET_DIR/check.lock"
if [ $? -ne 0 ]; then
  tail -n 60 "$log" >&2
  echo "check.sh: the simulator does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
[ "${1:-}" = "--build" ] && exit 0

prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d "$CARGO_TARGET_DIR/run.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$here/replays" "$here/evidence"
args=(--other "$CARGO_TARGET_DIR/release/gsim" --evidence "$here/evidence/$prop.json"
  --replays "$here/replays" --tmp "$tmp/w" --tier "$tier" --seed "${VERIF_SEED:-1}")
[ -n "${VERIF_RUNS:-}" ] && args+=(--runs "$VERIF_RUNS")
[ -n "${VERIF_CAP:-}" ] && args+=(--cap "$VERIF_CAP")
"$CARGO_TARGET_DIR/checked/gsim" check "$prop" "${args[@]}"
exit $?
