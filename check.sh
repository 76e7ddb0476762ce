#!/bin/bash
# check.sh ID        build the harness against /repo's working tree and run the check of property ID
# check.sh --build   only build
# check.sh --replay FILE   run a replay file
cd /verif/harness || exit 2
. /verif/env.sh
mkdir -p /verif/target
T=/verif/target
B=$T/builds
# do not rely on file times to notice a change
hash=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)

# the program once more, with counters for the guided search
guided() {
  if [ "$hash" != "$(cat $T/guided/.repo-hash 2>/dev/null)" ]; then
    CARGO_TARGET_DIR=$T/guided cargo clean --offline --release -p scale-value >/dev/null 2>&1
    echo "$hash" > $T/guided/.repo-hash
  fi
  if CARGO_TARGET_DIR=$T/guided RUSTC_WRAPPER=/verif/harness/guided.sh cargo build --release --offline > $T/guided.log 2>&1; then
    cp $T/guided/release/vp $T/guided/vp.new && mv $T/guided/vp.new $T/guided/vp
  else
    rm -f $T/guided/vp
  fi
}
harness() {
  mkdir -p $T/guided
  guided &
  if [ "$hash" != "$(cat $T/.repo-hash 2>/dev/null)" ]; then
    cargo clean --offline --release -p scale-value >/dev/null 2>&1
    echo "$hash" > $T/.repo-hash
  fi
  cargo build --release --offline > $T/build.log 2>&1
  local r=$?
  wait
  return $r
}

# other NAME TARGETDIR PROFILE-DIR FEATURES [--release]: one of the builds which C29 compares
other() {
  if CARGO_TARGET_DIR=$B/$2 cargo build --offline $5 --features "$4" > $B/$1.log 2>&1; then
    rm -f $B/$1.failed
    cp $B/$2/$3/vpb $B/$1.new && mv $B/$1.new $B/$1
  elif grep -q 'could not compile `scale-value`' $B/$1.log; then
    cp $B/$1.log $B/$1.failed
  else
    return 1
  fi
}
others() {
  mkdir -p $B
  cd /verif/builds
  if [ "$hash" != "$(cat $B/.repo-hash 2>/dev/null)" ]; then
    CARGO_TARGET_DIR=$B/dev cargo clean --offline -p scale-value >/dev/null 2>&1
    CARGO_TARGET_DIR=$B/rel cargo clean --offline --release -p scale-value >/dev/null 2>&1
    echo "$hash" > $B/.repo-hash
  fi
  ( other debug-none dev debug "" && other debug-all dev debug serde,parser-ss58 ) &
  local first=$!
  other release-all rel release serde,parser-ss58 --release && other release-serde rel release serde --release &&
    other release-from-string rel release from-string --release
  local r=$?
  wait $first && [ $r -eq 0 ]
}

want=$1
[ "$1" = --replay ] && want=$(grep -o '"property": *"C29"' "$2" | grep -o C29)
(
  flock 9
  harness || exit 1
  case "$want" in
    --build|C29) others || exit 3 ;;
  esac
) 9>$T/.lock
case $? in
  0) ;;
  3) echo "check.sh: the builds for C29 cannot be made:"; tail -20 $B/*.log; exit 2 ;;
  *) echo "check.sh: the harness does not build against /repo:"; tail -40 $T/build.log; exit 2 ;;
esac
case "$1" in
  --build) exit 0 ;;
  --replay) exec $T/release/vp replay "$2" ;;
  *) exec $T/release/vp check "$1" ;;
esac
