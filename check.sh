#!/bin/bash
# check.sh ID: builds the harness against /repo's current tree and runs the check of one property.
# Exit 0: held; 1: VIOLATION printed; anything else: the check itself could not give an answer.
# Replay a failure: check.sh --replay FILE
set -u
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
V=$PWD
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
build() { # build CONFIG -> target directory in $T
  if [ "$1" = f32 ]; then
    T=$V/target-f32; export RUSTFLAGS="--cfg stroke_vp_f32"
  else
    T=$V/target; export RUSTFLAGS=""
  fi
  export CARGO_TARGET_DIR=$T
  mkdir -p "$T"
  # cargo looks at modification times only: rebuild the library whenever its content differs from the last build
  local now; now=$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$T/.repo-hash" 2>/dev/null)" != "$now" ]; then
    (cd harness && cargo clean --release --offline -p stroke >/dev/null 2>&1)
    rm -f "$T/release/vp"
  fi
  if ! (cd harness && cargo build --release --offline --bin vp >"$T/build.log" 2>&1); then
    tail -40 "$T/build.log" >&2
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
  fi
  echo "$now" >"$T/.repo-hash"
}
case "${1:-}" in
  "") echo "usage: check.sh ID | --build | --replay FILE" >&2; exit 2 ;;
  --build) build f64; build f32; exit 0 ;;
  --replay)
    build "$(sed -n 's/^config: //p' "$2")"
    exec "$T/release/vp" replay "$2" ;;
esac
ID=$1
build "$([ "$ID" = C25 ] && echo f32 || echo f64)"
export VP_REPLAYS=$V/replays VP_CORPUS=${VP_CORPUS:-$V/corpus}
"$T/release/vp" run "$ID" "$V/evidence/$ID.json"
rc=$?
if [ $rc = 0 ] && [ "${VERIF_TIER:-quick}" = thorough ]; then
  # second stage: libFuzzer over the same checks, guided by the library's branch coverage
  python3 tools/fuzz.py "$ID" "$V/evidence/$ID.json"; exit $?
fi
case $rc in
  132|134|135|136|139)
    # the process was killed (stack overflow, abort): find the input by writing each one down first
    mkdir -p "$VP_REPLAYS"
    f=$VP_REPLAYS/$ID-crash.replay
    VP_TRACE=$f "$T/release/vp" run "$ID" "$V/evidence/$ID.json" >/dev/null
    rc2=$?
    if [ $rc2 = $rc ]; then
      echo "VIOLATION property=$ID replay=$f"
      echo "  the process is killed (status $rc) on this input"
      exit 1
    fi
    exit 3 ;;
esac
exit $rc
