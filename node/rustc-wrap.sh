#!/bin/sh
# cargo's RUSTC_WRAPPER for the node: the library under simulation (and the work-stealing pool under it) is compiled with
# a call at every control-flow edge, the simulator's preemption seam. Everything else is compiled as usual.
rustc=$1
shift
case " $* " in
*" --crate-name yuv "* | *" --crate-name fast_transpose "* | *" --crate-name rayon "* | *" --crate-name rayon_core "* | \
  *" --crate-name crossbeam_deque "* | *" --crate-name crossbeam_epoch "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard
  ;;
esac
exec "$rustc" "$@"
