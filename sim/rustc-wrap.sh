#!/bin/bash
# Cargo calls this as RUSTC_WRAPPER: "rustc-wrap.sh RUSTC ARGS...". The code
# under test and its concurrent dependencies are compiled with the compiler's
# atomic-operation instrumentation (ThreadSanitizer's pass, atomics only,
# without its runtime): every atomic operation becomes a call into the
# simulator, which makes it a scheduling point. Build scripts and procedural
# macros (no --target) are left alone.
rustc=$1; shift
crate=; target=; prev=
for a in "$@"; do
  case $prev in --crate-name) crate=$a;; --target) target=$a;; esac
  case $a in --target=*) target=${a#--target=};; esac
  prev=$a
done
# The crate under test, with its main: see build.sh.
if [ "$crate" = roster ] && [ -n "$target" ] && [ -n "$RSIM_ROOT" ]; then
  n=()
  for a in "$@"; do
    case $a in *.rs) a=$RSIM_ROOT;; esac
    n+=("$a")
  done
  set -- "${n[@]}" --cap-lints=warn
fi
case $crate in
  roster|scc|sdd|futures_locks|coarsetime|sharded_thread|flume|local_sync|monoio|bytes|bytestring)
    if [ -n "$target" ]; then
      exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt \
        -Cllvm-args=-tsan-instrument-memory-accesses=0 \
        -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
        -Cllvm-args=-tsan-instrument-memintrinsics=0
    fi;;
esac
exec "$rustc" "$@"
