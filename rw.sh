#!/bin/bash
# rustc wrapper: compile the (large, front-end bound) qtty-core with the parallel front end when it is available
rustc=$1; shift
case " $* " in
  *" --crate-name qtty_core "*)
    if RUSTC_BOOTSTRAP=1 timeout 240 "$rustc" -Zthreads=8 "$@" 2>/dev/null; then exit 0; fi ;;
esac
exec "$rustc" "$@"
