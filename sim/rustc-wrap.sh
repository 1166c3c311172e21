#!/bin/sh
# Used by check.sh as RUSTC_WRAPPER. Compiles the code that runs on several threads (the storage
# crate of /repo and the thread pool it uses) with LLVM's "tsan" pass, which turns every atomic
# operation into a call that simrt implements as a scheduling point (see simrt/src/atomics.rs).
# The thread sanitizer runtime itself is not used.
rustc=$1
shift
case " $* " in
    *" --crate-name threadpool "*|*" --crate-name postorage_real "*) exec "$rustc" "$@" -C passes=tsan;;
    *) exec "$rustc" "$@";;
esac
