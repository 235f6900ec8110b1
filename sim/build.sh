#!/bin/bash
# Builds the simulator together with the server from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS

# The crate that is simulated, target/gen/rsim-root.rs: the repository's binary as a
# library, its modules untouched (links), with a function that runs its main.
# Where that does not compile: its library with main.rs as a module of it, or
# its library alone, started by its builder.
SRC=/repo/app/roster/src GEN=$PWD/target/gen
links() {
  mkdir -p "$GEN" || exit 2
  for l in "$GEN"/*; do
    [ -L "$l" ] && [ ! -e "$SRC/${l##*/}" ] && rm -f "$l"
  done
  for f in "$SRC"/*; do
    [ -L "$GEN/${f##*/}" ] || ln -s "$f" "$GEN/${f##*/}"
  done
}
root() {
  case $1 in
    bin)
      cat "$SRC/main.rs"
      echo 'pub fn rsim_boot() -> bool { std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS }'
      ;;
    module)
      cat "$SRC/lib.rs"
      echo 'extern crate self as roster;'
      echo '#[allow(warnings)] pub mod rsim_main {'
      grep -vE '^ *(#!\[.*\]|//!.*) *$' "$SRC/main.rs"
      echo 'pub fn boot() -> bool { std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS } }'
      echo 'pub fn rsim_boot() -> bool { rsim_main::boot() }'
      ;;
    lib)
      cat "$SRC/lib.rs"
      ;;
  esac > "$GEN/.new"
  cmp -s "$GEN/.new" "$GEN/rsim-root.rs" && rm -f "$GEN/.new" || mv -f "$GEN/.new" "$GEN/rsim-root.rs"
}
b() {
  root "$1"; shift
  RSIM_ROOT=$GEN/rsim-root.rs cargo build --offline --target x86_64-unknown-linux-gnu "$@"
}
links
b bin --features main "$@" && exit 0
b module --features main "$@" 2>/dev/null && exit 0
b lib "$@" && exit 0
exit 1
