#!/bin/bash
# check.sh <property> [quick|thorough]   builds what the property needs from /repo's working tree and searches
# check.sh replay <file>                 carries out one scenario file again
# check.sh build                         builds everything
# check.sh digest <property> <runs>      hash of everything observed (determinism test)
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=nightly-2025-04-15-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
export SIM_ROOT="$root"
T="$root/target"
what="${1:-}"
arg="${2:-}"
mkdir -p "$T" "$root/evidence" "$root/replays"

node() { # seq|par|dbg|plain|bare
  local f=() e=()
  [ "$1" = par ] && f=(--features par)
  [ "$1" = plain ] && f=(--no-default-features --features plain)
  [ "$1" = bare ] && f=(--no-default-features)
  [ "$1" = dbg ] && e=(CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true)
  (cd "$root/node" && env "${e[@]}" RUSTC_WRAPPER="$root/node/rustc-wrap.sh" CARGO_TARGET_DIR="$T/$1" cargo build --release --offline "${f[@]}" >"$T/$1.log" 2>&1)
}
ctl() { (cd "$root/simctl" && CARGO_TARGET_DIR="$T/ctl" cargo build --release --offline >"$T/ctl.log" 2>&1); }
build() { # builds in parallel; the logs are shown when one fails
  local p=() n bad=0
  ctl & p+=($!)
  for n in "$@"; do node "$n" & p+=($!); done
  for n in "${p[@]}"; do wait "$n" || bad=1; done
  if [ $bad = 1 ]; then
    for n in ctl "$@"; do tail -n 30 "$T/$n.log"; done
    echo "build failed"
    exit 3
  fi
}
libs=(--seq "$T/seq/release/libnode.so")
with() { # the builds that property $1 needs
  case "$1" in
  C01) build seq par; libs+=(--par "$T/par/release/libnode.so") ;;
  C12) build seq dbg; libs+=(--par "$T/dbg/release/libnode.so") ;;
  C14) build seq plain bare; libs+=(--par "$T/plain/release/libnode.so" --bare "$T/bare/release/libnode.so") ;;
  *) build seq ;;
  esac
}
case "$what" in
build)
  build seq par dbg plain bare
  exit 0 ;;
replay)
  with "$(sed -n 's/^property //p' "$arg" 2>/dev/null)"
  exec "$T/ctl/release/simctl" replay "$arg" "${libs[@]}" --known "$root/known_findings.txt" ;;
digest)
  with "$arg"
  exec "$T/ctl/release/simctl" digest "$arg" "${libs[@]}" --max-runs "${3:-500}" --seed "${VERIF_SEED:-1}" --known "$root/known_findings.txt" ;;
C*) ;;
*) echo "usage: check.sh <property> [quick|thorough]"; exit 2 ;;
esac
tier="${arg:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier"
secs=40
case "$what" in C03 | C05 | C07 | C08 | C11) secs=60 ;; esac # the largest spaces
shrink=60
if [ "$tier" = thorough ]; then secs=${VERIF_SECS:-1500}; shrink=300; fi
with "$what"
exec "$T/ctl/release/simctl" check "$what" "${libs[@]}" --secs "$secs" --shrink-secs "$shrink" --seed "${VERIF_SEED:-1}" \
  --out "$root/replays" --known "$root/known_findings.txt" --evidence "$root/evidence/$what.json"
